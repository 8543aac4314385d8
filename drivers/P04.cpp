#include "vf.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term/order.hpp"
#include "ieompp/algebra/term/term.hpp"
#include <cstdint>
#include <string>

using namespace ieompp::algebra;
using Op1 = Operator<uint64_t>;
using Op2 = Operator<uint64_t, bool>;
using Op3 = Operator<uint64_t, bool, int>;
using S1  = Operator<std::string>;
using S2  = Operator<std::string, bool>;
using S3  = Operator<std::string, int, std::string>;

// ---- equality of operators -------------------------------------------------
template <typename Op>
void equality(const Op& a, const Op& b, bool same_idx)
{
    const bool eq = a.creator == b.creator && same_idx;
    vf::claim((a == b) == eq, "equal exactly if type and all indices agree");
    vf::claim((a != b) == !eq, "inequality is the negation of equality");
    vf::claim(a.same_indices(b) == same_idx, "same_indices compares every index");
    vf::claim(a.is_conjugate(b) == (a.creator != b.creator && same_idx),
              "conjugate operators share all indices and differ in type");
}
void ob_eq_op1(Op1 a, Op1 b) { equality(a, b, a.index == b.index); }
void ob_eq_s1(S1 a, S1 b) { equality(a, b, a.index == b.index); }
void ob_eq_op2(Op2 a, Op2 b) { equality(a, b, a.index1 == b.index1 && a.index2 == b.index2); }
void ob_eq_s2(S2 a, S2 b) { equality(a, b, a.index1 == b.index1 && a.index2 == b.index2); }
void ob_eq_op3(Op3 a, Op3 b)
{
    equality(a, b, std::get<0>(a.indices) == std::get<0>(b.indices)
                       && std::get<1>(a.indices) == std::get<1>(b.indices)
                       && std::get<2>(a.indices) == std::get<2>(b.indices));
}
void ob_eq_s3(S3 a, S3 b)
{
    equality(a, b, std::get<0>(a.indices) == std::get<0>(b.indices)
                       && std::get<1>(a.indices) == std::get<1>(b.indices)
                       && std::get<2>(a.indices) == std::get<2>(b.indices));
}

// ---- order of operators: creators first, then lexicographic in the indices ----
template <typename Op>
void order(const Op& a, const Op& b, bool idx_less, bool idx_greater)
{
    const OperatorSmaller<Op> less{};
    const OperatorGreater<Op> greater{};
    const bool exp_less    = a.creator != b.creator ? bool(a.creator) : idx_less;
    const bool exp_greater = a.creator != b.creator ? bool(b.creator) : idx_greater;
    vf::claim(less(a, b) == exp_less, "creators first, then indices in order");
    vf::claim(greater(a, b) == exp_greater, "greater is the reverse order");
    vf::claim(greater(a, b) == less(b, a), "greater is smaller with exchanged arguments");
    vf::claim(!(less(a, b) && less(b, a)), "the order is asymmetric");
    vf::claim((less(a, b) || less(b, a)) == (a != b), "different operators are comparable");
    vf::claim(!less(a, a) && !greater(a, a), "the order is irreflexive");
}
void ob_order_op1(Op1 a, Op1 b) { order(a, b, a.index < b.index, a.index > b.index); }
void ob_order_s1(S1 a, S1 b) { order(a, b, a.index < b.index, a.index > b.index); }
void ob_order_op2(Op2 a, Op2 b)
{
    order(a, b, a.index1 != b.index1 ? a.index1 < b.index1 : (!a.index2 && b.index2),
          a.index1 != b.index1 ? a.index1 > b.index1 : (a.index2 && !b.index2));
}
void ob_order_s2(S2 a, S2 b)
{
    order(a, b, a.index1 != b.index1 ? a.index1 < b.index1 : (!a.index2 && b.index2),
          a.index1 != b.index1 ? a.index1 > b.index1 : (a.index2 && !b.index2));
}
void ob_order_op3(Op3 a, Op3 b)
{
    const auto &a0 = std::get<0>(a.indices), &b0 = std::get<0>(b.indices);
    const auto &a1 = std::get<1>(a.indices), &b1 = std::get<1>(b.indices);
    const auto &a2 = std::get<2>(a.indices), &b2 = std::get<2>(b.indices);
    order(a, b, a0 != b0 ? a0 < b0 : (a1 != b1 ? bool(b1) : a2 < b2),
          a0 != b0 ? a0 > b0 : (a1 != b1 ? bool(a1) : a2 > b2));
}
void ob_order_s3(S3 a, S3 b)
{
    const auto &a0 = std::get<0>(a.indices), &b0 = std::get<0>(b.indices);
    const auto &a1 = std::get<1>(a.indices), &b1 = std::get<1>(b.indices);
    const auto &a2 = std::get<2>(a.indices), &b2 = std::get<2>(b.indices);
    order(a, b, a0 != b0 ? a0 < b0 : (a1 != b1 ? a1 < b1 : a2 < b2),
          a0 != b0 ? a0 > b0 : (a1 != b1 ? a1 > b1 : a2 > b2));
}
template <typename Op>
void transitive(const Op& a, const Op& b, const Op& c)
{
    const OperatorSmaller<Op> less{};
    vf::assume(less(a, b));
    vf::assume(less(b, c));
    vf::claim(less(a, c), "the order is transitive");
}
void ob_trans_op1(Op1 a, Op1 b, Op1 c) { transitive(a, b, c); }
void ob_trans_op2(Op2 a, Op2 b, Op2 c) { transitive(a, b, c); }
void ob_trans_s1(S1 a, S1 b, S1 c) { transitive(a, b, c); }

// ---- monomials and terms -----------------------------------------------------
void ob_monomial_eq(Monomial<Op2> a, Monomial<Op2> b)
{
    bool eq = a.size() == b.size();
    if(eq) {
        for(std::size_t i = 0; i < a.size(); ++i) {
            if(!(a[i].creator == b[i].creator && a[i].index1 == b[i].index1
                 && a[i].index2 == b[i].index2)) {
                eq = false;
            }
        }
    }
    vf::claim((a == b) == eq, "equal exactly if all operators agree position by position");
    vf::claim((a != b) == !eq, "inequality is the negation of equality");
    vf::claim(a == a, "equality is reflexive");
}
void ob_term_same(Term<double, Op2> a, Term<double, Op2> b)
{
    bool eq = a.operators.size() == b.operators.size();
    if(eq) {
        for(std::size_t i = 0; i < a.operators.size(); ++i) {
            if(!(a.operators[i].creator == b.operators[i].creator
                 && a.operators[i].index1 == b.operators[i].index1
                 && a.operators[i].index2 == b.operators[i].index2)) {
                eq = false;
            }
        }
    }
    vf::claim(a.have_same_operators(b) == eq,
              "same operators exactly if the sequences agree, whatever the prefactors");
}
// terms: shorter first, then by the first operator that differs
template <typename T>
void term_order(const T& a, const T& b)
{
    const TermSmaller<T> less{};
    const TermGreater<T> greater{};
    const OperatorSmaller<typename T::Operator> op_less{};
    const OperatorGreater<typename T::Operator> op_greater{};
    bool el = false, eg = false;
    if(a.operators.size() != b.operators.size()) {
        el = a.operators.size() < b.operators.size();
        eg = a.operators.size() > b.operators.size();
    } else {
        for(std::size_t i = 0; i < a.operators.size(); ++i) {
            if(a.operators[i] != b.operators[i]) {
                el = op_less(a.operators[i], b.operators[i]);
                eg = op_greater(a.operators[i], b.operators[i]);
                break;
            }
        }
    }
    vf::claim(less(a, b) == el, "short terms first, then the first differing operator decides");
    vf::claim(greater(a, b) == eg, "greater is the reverse order");
    vf::claim(!less(a, a) && !greater(a, a), "the order is irreflexive");
}
void ob_term_order(Term<double, Op2> a, Term<double, Op2> b) { term_order(a, b); }
void ob_term_order_1(Term<double, Op1> a, Term<double, Op1> b) { term_order(a, b); }
// written out for two operators
void ob_term_order_2(Op1 a, Op1 b, Op1 c, Op1 d, double p, double q)
{
    using T = Term<double, Op1>;
    const TermSmaller<T> less{};
    const TermGreater<T> greater{};
    const OperatorSmaller<Op1> ol{};
    T x{p, {a, b}}, y{q, {c, d}};
    vf::claim(less(x, y) == (a != c ? ol(a, c) : ol(b, d)), "lexicographic in the operators");
    vf::claim(greater(x, y) == less(y, x), "greater is smaller with exchanged arguments");
    vf::claim((less(x, y) || less(y, x)) == !x.have_same_operators(y),
              "terms with different operators are comparable");
}

// ---- Kronecker deltas: unordered pairs -----------------------------------------
void ob_kronecker(Kronecker x, Kronecker y)
{
    const bool eq = (x.a == y.a && x.b == y.b) || (x.a == y.b && x.b == y.a);
    vf::claim((x == y) == eq, "equal exactly if the unordered pairs agree");
    vf::claim((x != y) == !eq, "inequality is the negation of equality");
    vf::claim((x == y) == (y == x), "equality is symmetric");
    vf::claim((Kronecker{x.b, x.a}) == x, "the order of the indices does not matter");
    Kronecker z = x;
    z.order();
    vf::claim(z == x, "ordering keeps the delta");
    vf::claim(z.a <= z.b, "ordering sorts the indices");
    vf::claim((z.a == x.a && z.b == x.b) || (z.a == x.b && z.b == x.a), "no index is lost");
}
void ob_make(std::string a, std::string b, int i, int j)
{
    const auto k = make_kronecker(a, b);
    vf::claim(k.a == a && k.b == b, "made from the given names");
    const auto l = make_kronecker(i, j);
    vf::claim(l.a == std::to_string(i) && l.b == std::to_string(j), "numbers become their text");
}
