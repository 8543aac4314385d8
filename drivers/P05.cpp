#include "vf.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term/term.hpp"
#include <complex>
#include <cstdint>
#include <string>

using namespace ieompp::algebra;
using Op1 = Operator<uint64_t>;
using Op2 = Operator<uint64_t, bool>;
using Op3 = Operator<uint64_t, bool, int>;
using S2  = Operator<std::string, bool>;

template <typename Op>
void op(const Op& a, const Op& b)
{
    Op c = a;
    c.conjugate();
    vf::claim(c.creator == !a.creator && c.same_indices(a),
              "conjugation exchanges creation and annihilation and keeps the indices");
    vf::same(c, a.get_conjugate(), "both ways of conjugating agree");
    vf::same(a.get_conjugate().get_conjugate(), a, "conjugating twice changes nothing");
    vf::claim(a.is_conjugate(c) && c.is_conjugate(a), "the conjugate is recognised");
    vf::claim(!a.is_conjugate(a), "no operator is its own conjugate");
    vf::claim(a.is_conjugate(b) == (a.get_conjugate() == b), "recognised exactly if it is one");
}
void ob_op1(Op1 a, Op1 b) { op(a, b); }
void ob_op2(Op2 a, Op2 b) { op(a, b); }
void ob_op3(Op3 a, Op3 b) { op(a, b); }
void ob_s2(S2 a, S2 b) { op(a, b); }

template <typename Op>
void mono(const Monomial<Op>& m, const Monomial<Op>& o)
{
    Monomial<Op> c = m;
    c.conjugate();
    Monomial<Op> e;
    for(std::size_t i = 0; i < m.size(); ++i) {
        e.push_back(m[m.size() - 1 - i].get_conjugate());
    }
    vf::same(c, e, "conjugation reverses the order and conjugates every operator");
    vf::same(m.get_conjugate(), e, "both ways of conjugating agree");
    vf::same(e.get_conjugate(), m, "conjugating twice changes nothing");
    bool is = m.size() == o.size();
    if(is) {
        for(std::size_t i = 0; i < m.size(); ++i) {
            if(!m[i].is_conjugate(o[o.size() - 1 - i])) {
                is = false;
            }
        }
    }
    vf::claim(m.is_conjugate(o) == is, "recognised exactly if it is the conjugate");
    vf::claim(m.is_conjugate(e), "the conjugate is recognised");
}
void ob_monomial_1(Monomial<Op1> m, Monomial<Op1> o) { mono(m, o); }
void ob_monomial_2(Monomial<Op2> m, Monomial<Op2> o) { mono(m, o); }
void ob_monomial_3(Monomial<Op3> m, Monomial<Op3> o) { mono(m, o); }

// products: the conjugate reverses the factors
void ob_product(Monomial<Op2> a, Monomial<Op2> b)
{
    Monomial<Op2> e;
    for(std::size_t i = 0; i < a.size(); ++i) {
        e.push_back(a[i]);
    }
    for(std::size_t i = 0; i < b.size(); ++i) {
        e.push_back(b[i]);
    }
    vf::same(a * b, e, "a product is the concatenation");
    Monomial<Op2> c = a;
    c *= b;
    vf::same(c, e, "multiplying in place gives the product");
    vf::same((a * b).get_conjugate(), b.get_conjugate() * a.get_conjugate(),
             "the conjugate of a product is the reversed product of conjugates");
}

template <typename T>
void term(const T& t)
{
    using P = typename T::Prefactor;
    T c     = t;
    c.conjugate();
    T e;
    e.prefactor = ieompp::types::conjugate(t.prefactor);
    for(std::size_t i = 0; i < t.operators.size(); ++i) {
        e.operators.push_back(t.operators[t.operators.size() - 1 - i].get_conjugate());
    }
    vf::same(c, e, "conjugation conjugates the prefactor and the reversed operators");
    vf::same(t.get_conjugate(), e, "both ways of conjugating agree");
    vf::same(e.get_conjugate(), t, "conjugating twice changes nothing");
    (void)P();
}
void ob_term_real(Term<double, Op2> t)
{
    term(t);
    vf::claim(t.get_conjugate().prefactor == t.prefactor, "real prefactors stay");
}
void ob_term_complex(Term<std::complex<double>, Op2> t)
{
    term(t);
    const auto c = t.get_conjugate().prefactor;
    vf::claim(c.real() == t.prefactor.real() && c.imag() == -t.prefactor.imag(),
              "complex prefactors are conjugated");
}
void ob_term_product(Term<std::complex<double>, Op1> a, Term<std::complex<double>, Op1> b)
{
    Term<std::complex<double>, Op1> e;
    e.prefactor = a.prefactor * b.prefactor;
    for(std::size_t i = 0; i < a.operators.size(); ++i) {
        e.operators.push_back(a.operators[i]);
    }
    for(std::size_t i = 0; i < b.operators.size(); ++i) {
        e.operators.push_back(b.operators[i]);
    }
    vf::same(a * b, e, "a product multiplies prefactors and concatenates the operators");
    auto c = a;
    c *= b;
    vf::same(c, e, "multiplying in place gives the product");
    vf::same((a * b).get_conjugate(), b.get_conjugate() * a.get_conjugate(),
             "the conjugate of a product is the reversed product of conjugates");
}
void ob_make(double p, Op2 a, Op2 b)
{
    double q     = p;
    const auto t = make_term(double(q), {a, b});
    vf::claim(t.prefactor == p && t.operators.size() == 2 && t.operators[0] == a
                  && t.operators[1] == b,
              "a made term holds its prefactor and its operators in order");
}

// construction and index access
void ob_construct(uint64_t i, bool s, int k)
{
    const auto c1 = make_creator(i);
    const auto a1 = make_annihilator(i);
    vf::claim(c1.creator && !a1.creator && c1.index == i && a1.index == i, "one index");
    const auto c2 = make_creator(i, s);
    const auto a2 = make_annihilator(i, s);
    vf::claim(c2.creator && !a2.creator && c2.index1 == i && c2.index2 == s && a2.index1 == i
                  && a2.index2 == s,
              "two indices");
    const auto c3 = make_creator(i, s, k);
    const auto a3 = make_annihilator(i, s, k);
    vf::claim(c3.creator && !a3.creator && std::get<0>(c3.indices) == i
                  && std::get<1>(c3.indices) == s && std::get<2>(c3.indices) == k,
              "three indices");
    vf::claim(a3.same_indices(c3), "three indices");
    vf::claim(Op1::make_creator(i) == c1 && Op1::make_annihilator(i) == a1, "static makers");
    vf::claim(Op2::make_creator(i, s) == c2 && Op2::make_annihilator(i, s) == a2, "static makers");
    vf::claim(Op3::make_creator(i, s, k) == c3 && Op3::make_annihilator(i, s, k) == a3,
              "static makers");
    vf::claim(Op1::make_creator(uint64_t(i)) == c1 && Op1::make_annihilator(uint64_t(i)) == a1,
              "static makers of temporary indices");
    vf::claim(Op2::make_creator(uint64_t(i), bool(s)) == c2
                  && Op2::make_annihilator(uint64_t(i), bool(s)) == a2,
              "static makers of temporary indices");
    vf::claim(Op3::make_creator(uint64_t(i), bool(s), int(k)) == c3
                  && Op3::make_annihilator(uint64_t(i), bool(s), int(k)) == a3,
              "static makers of temporary indices");
}
void ob_access(Op1 a, Op2 b, Op3 c, uint64_t x, bool y, int z)
{
    const Op1& ca = a;
    const Op2& cb = b;
    const Op3& cc = c;
    vf::claim(get_index<0>(ca) == a.index, "index of an operator with one index");
    vf::claim(get_index<0>(cb) == b.index1 && get_index<1>(cb) == b.index2,
              "indices of an operator with two indices");
    vf::claim(get_index<0>(cc) == std::get<0>(c.indices) && get_index<1>(cc) == std::get<1>(c.indices)
                  && get_index<2>(cc) == std::get<2>(c.indices),
              "indices of an operator with three indices");
    vf::claim(std::get<0>(get_indices(ca)) == a.index, "tuple of one index");
    vf::claim(std::get<0>(get_indices(cb)) == b.index1 && std::get<1>(get_indices(cb)) == b.index2,
              "tuple of two indices");
    vf::claim(get_indices(cc) == c.indices, "tuple of three indices");
    vf::claim(std::get<0>(b.index_tuple()) == b.index1 && std::get<1>(b.index_tuple()) == b.index2,
              "tuple of two indices");
    vf::claim(std::get<0>(a.index_tuple()) == a.index && c.index_tuple() == c.indices,
              "tuple of indices");
}

// an index that is assigned replaces this index only
void ob_assign_index(Op1 a, Op2 b, Op3 c, uint64_t x, bool y, int z)
{
    Op1 a0 = a;
    get_index<0>(a0) = x;
    vf::claim(a0.index == x && a0.creator == a.creator, "the index of an operator is replaced");
    Op2 b0 = b, b1 = b;
    get_index<0>(b0) = x;
    get_index<1>(b1) = y;
    vf::claim(b0.index1 == x && b0.index2 == b.index2 && b0.creator == b.creator,
              "the first of two indices is replaced");
    vf::claim(b1.index1 == b.index1 && b1.index2 == y && b1.creator == b.creator,
              "the second of two indices is replaced");
    Op3 c2 = c;
    get_index<2>(c2) = z;
    vf::claim(std::get<0>(c2.indices) == std::get<0>(c.indices)
                  && std::get<1>(c2.indices) == std::get<1>(c.indices)
                  && std::get<2>(c2.indices) == z && c2.creator == c.creator,
              "the third of three indices is replaced");
}
