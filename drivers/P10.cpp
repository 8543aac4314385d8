#include "vf.hpp"

#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"

using namespace ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
namespace hms = ieompp::models::hubbard_momentum_space;
using Op      = Operator<uint64_t, bool>;
using Mon     = Monomial<Op>;
using Chain   = ieompp::lattices::PeriodicChain<double, uint64_t>;

// any discretisation of momentum space
struct Space {
    using Float     = double;
    using SiteIndex = uint64_t;
    using Iterator  = ieompp::iterators::IntegerIterator<uint64_t, true>;

    uint64_t n;

    uint64_t size() const { return n; }
    Iterator begin() const { return Iterator(0); }
    Iterator end() const { return Iterator(n); }
    double operator[](uint64_t i) const;
    uint64_t operator()(double k) const;
};

bool one(const Mon& m, uint64_t i)
{
    return m.size() == 1 && m[0].creator && m[0].index1 == i && m[0].index2;
}
bool three(const Mon& m, uint64_t a, uint64_t b, uint64_t c)
{
    return m.size() == 3 && m[0].creator && m[0].index1 == a && m[0].index2 && m[1].creator
           && m[1].index1 == b && !m[1].index2 && !m[2].creator && m[2].index1 == c
           && !m[2].index2;
}

void ob_real_1(uint64_t N, uint64_t i)
{
    vf::assume(N >= 1 && i < N);
    const Chain lattice(N, 1.);
    const hrs::Basis1Operator<Mon> basis(lattice);
    vf::claim(basis.N == N, "number of sites");
    vf::claim(basis.size() == N, "one element per site");
    vf::claim(one(basis[i], i), "creator of a particle on every site");
}

void ob_real_1_conj(uint64_t N, uint64_t i)
{
    vf::assume(N >= 1 && i < N);
    const Chain lattice(N, 1.);
    const hrs::Basis1Operator<Mon> basis(lattice);
    const auto conj = basis.get_conjugate();
    vf::claim(conj.size() == N && conj.N == N, "conjugation keeps the size");
    vf::same(conj[i], basis[i].get_conjugate(), "every element is conjugated");
    vf::claim(one(basis[i], i), "the basis itself is not changed");
}

void ob_real_3(uint64_t N, uint64_t a)
{
    vf::assume(N >= 1 && a < N);
    const Chain lattice(N, 1.);
    const hrs::Basis3Operator<Mon> basis(lattice);
    vf::claim(basis.N == N && basis.N_squared == N * N, "number of sites");
    vf::claim(basis.size() == N + N * N * N, "number of elements");
    vf::claim(one(basis[a], a), "single creators come first");
}

void ob_real_3_index(uint64_t N, uint64_t a, uint64_t b, uint64_t c)
{
    vf::assume(N >= 1 && a < N && b < N && c < N);
    const Chain lattice(N, 1.);
    const hrs::Basis3Operator<Mon> basis(lattice);
    const auto idx = basis.get_3op_index(a, b, c);
    vf::claim(idx >= N && idx < basis.size(), "index of a product of three operators");
    vf::claim(three(basis[idx], a, b, c), "the index finds its product");
}

void ob_real_3_conj(uint64_t N, uint64_t a, uint64_t b, uint64_t c)
{
    vf::assume(N >= 1 && a < N && b < N && c < N);
    const Chain lattice(N, 1.);
    const hrs::Basis3Operator<Mon> basis(lattice);
    const auto conj = basis.get_conjugate();
    vf::claim(conj.size() == basis.size() && conj.N == N && conj.N_squared == N * N,
              "conjugation keeps the size");
    const auto idx = basis.get_3op_index(a, b, c);
    vf::claim(conj.get_3op_index(a, b, c) == idx, "conjugation keeps the index");
    vf::same(conj[idx], basis[idx].get_conjugate(), "every element is conjugated");
    vf::same(conj[a], basis[a].get_conjugate(), "every element is conjugated");
}

void ob_momentum(Space s, uint64_t q)
{
    vf::assume(s.n >= 1 && q < s.n);
    const hms::Basis3Operator<Mon> basis(q, s);
    vf::claim(basis.N == s.n, "number of momenta");
    vf::claim(basis.size() == 1 + s.n * s.n, "number of elements");
    vf::claim(one(basis[0], q), "the creator of the chosen momentum comes first");
}

void ob_momentum_index(Space s, uint64_t q, uint64_t a, uint64_t b)
{
    vf::assume(s.n >= 1 && q < s.n && a < s.n && b < s.n);
    const hms::Basis3Operator<Mon> basis(q, s);
    const auto idx = basis.get_3op_index(a, b);
    vf::claim(idx >= 1 && idx < basis.size(), "index of a product of three operators");
    vf::claim(three(basis[idx], a, b, s(s[a] + s[b] - s[q])),
              "products of three operators carry the total momentum");
}

void ob_momentum_conj(Space s, uint64_t q, uint64_t a, uint64_t b)
{
    vf::assume(s.n >= 1 && q < s.n && a < s.n && b < s.n);
    const hms::Basis3Operator<Mon> basis(q, s);
    const auto conj = basis.get_conjugate();
    vf::claim(conj.size() == basis.size() && conj.N == s.n, "conjugation keeps the size");
    const auto idx = basis.get_3op_index(a, b);
    vf::claim(conj.get_3op_index(a, b) == idx, "conjugation keeps the index");
    vf::same(conj[idx], basis[idx].get_conjugate(), "every element is conjugated");
    vf::same(conj[0], basis[0].get_conjugate(), "the first element is conjugated");
    hms::Basis3Operator<Mon> inplace(basis);
    inplace.conjugate();
    vf::claim(inplace.size() == conj.size(), "conjugation in place keeps the size");
    vf::same(inplace[idx], conj[idx], "conjugation in place and of a copy agree");
    vf::same(inplace[0], conj[0], "conjugation in place and of a copy agree");
}
