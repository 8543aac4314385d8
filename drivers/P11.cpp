#include "vf.hpp"

#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/types/matrix.hpp"
#include "ieompp/types/triplet.hpp"

#include <array>

namespace ieompp
{
    namespace types
    {
        // joining equal columns keeps their sum (see P20), so the matrix is the same without it
        template <>
        struct TripletList<double, uint64_t> : public std::vector<Triplet<double, uint64_t>> {
            void sort()
            {
                std::sort(this->begin(), this->end(),
                          [](const Triplet<double, uint64_t>& a,
                             const Triplet<double, uint64_t>& b) { return a.column < b.column; });
            }
            TripletList make_columns_unique() const { return *this; }
        };
    } // namespace types
} // namespace ieompp

#include "sparse.hpp"

#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"

using namespace ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
using Mon     = Monomial<Op>;
using L       = hrs::Liouvillian<double>;

struct Expectation {
    double operator()(uint64_t a, uint64_t b) const;
};

double hop(const Lattice& l, uint64_t from, uint64_t to)
{
    double n = 0.;
    for(auto x : l.neighbors(from)) {
        if(x == to) {
            n += 1.;
        }
    }
    return n;
}

void ob_kinetic(L l, Lattice lattice, Matrix m)
{
    vf::assume(lattice.n >= 1 && m.r < lattice.n && m.c < lattice.n);
    const hrs::Basis1Operator<Mon> basis(lattice);
    hrs::init_kinetic_matrix(l, m, basis, lattice);
    vf::claim(m.rows == lattice.n && m.columns == lattice.n, "size of the matrix");
    vf::same(m.element, -l.J * hop(lattice, m.r, m.c), "particles hop to neighbours");
}

void ob_kinetic_no(L l, Lattice lattice, Matrix m)
{
    vf::assume(lattice.n >= 1 && m.r < lattice.n && m.c < lattice.n);
    const hrs::Basis1Operator<Mon> basis(lattice);
    hrs::init_kinetic_matrix_no(l, m, basis, lattice);
    vf::claim(m.rows == lattice.n && m.columns == lattice.n, "size of the matrix");
    vf::same(m.element, -l.J * hop(lattice, m.r, m.c), "particles hop to neighbours");
}

using Basis3 = hrs::Basis3Operator<Three>;

// rows of single creators
void ob_one(L l, Basis3 basis, Matrix m)
{
    vf::assume(basis.N >= 3 && basis.size() > basis.N && m.r < basis.N);
    const Lattice lattice{basis.N};
    hrs::init_matrix(l, m, basis, lattice);
    vf::claim(m.rows == basis.size() && m.columns == basis.size(), "size of the matrix");
    const auto r = m.r;
    vf::same(m.element,
             -l.J * hop(lattice, r, m.c) + (r == m.c ? l.U / 2. : 0.)
                 + (m.c == basis.get_3op_index(r, r, r) ? l.U / 2. : 0.),
             "hopping and interaction of one particle");
}

// rows of products of three operators
void ob_three(L l, Basis3 basis, Matrix m)
{
    vf::assume(basis.N >= 3 && m.r >= basis.N && m.r < basis.size());
    const Lattice lattice{basis.N};
    hrs::init_matrix(l, m, basis, lattice);
    const auto a = basis[m.r][0].index1, b = basis[m.r][1].index1, c = basis[m.r][2].index1;
    double x = m.r == m.c ? l.U / 2. : 0.;
    if(a == b && a == c && a == m.c) {
        x += l.U / 2.;
    }
    for(auto n : lattice.neighbors(a)) {
        if(m.c == basis.get_3op_index(n, b, c)) {
            x -= l.J;
        }
    }
    for(auto n : lattice.neighbors(b)) {
        if(m.c == basis.get_3op_index(a, n, c)) {
            x -= l.J;
        }
    }
    for(auto n : lattice.neighbors(c)) {
        if(m.c == basis.get_3op_index(a, b, n)) {
            x += l.J;
        }
    }
    vf::same(m.element, x, "hopping and interaction of three particles");
}

// the normal ordered basis: expansion of the commutator with the interaction by Wick's theorem, for
// translation invariant expectation values
void ob_no_one(L l, Basis3 basis, Matrix m, Expectation ev)
{
    vf::assume(basis.N >= 3 && basis.size() > basis.N && m.r < basis.N);
    const Lattice lattice{basis.N};
    const auto r = m.r, k = basis[r].front().index1;
    hrs::init_matrix_no(l, m, basis, lattice, ev);
    vf::claim(m.rows == basis.size() && m.columns == basis.size(), "size of the matrix");
    vf::same(m.element,
             -l.J * hop(lattice, r, m.c) + (r == m.c ? l.U * ev(k, k) : 0.)
                 + (m.c == basis.get_3op_index(r, r, r) ? l.U : 0.),
             "hopping and interaction of one particle");
}

void ob_no_three(L l, Basis3 basis, Matrix m, Expectation ev)
{
    vf::assume(basis.N >= 3 && m.r >= basis.N && m.r < basis.size());
    const Lattice lattice{basis.N};
    hrs::init_matrix_no(l, m, basis, lattice, ev);
    const auto a = basis[m.r][0].index1, b = basis[m.r][1].index1, c = basis[m.r][2].index1;
    const double ab = ev(b, a), bc = ev(b, c);
    const double ab_conj = (a == b ? 1. : 0.) - ev(a, b), ac_conj = (c == a ? 1. : 0.) - ev(a, c);
    double x = m.r == m.c ? l.U * ev(a, a) : 0.;
    // one operator
    if(m.c == a) {
        x += l.U * ab * ac_conj;
    }
    if(m.c == b) {
        x += l.U * ab_conj * bc;
    }
    if(m.c == c) {
        x -= l.U * ac_conj * bc;
    }
    // three operators
    if(m.c == basis.get_3op_index(a, a, c)) {
        x -= l.U * ab;
    }
    if(m.c == basis.get_3op_index(a, b, a)) {
        x += l.U * ac_conj;
    }
    if(b != c) {
        if(m.c == basis.get_3op_index(b, b, c)) {
            x += l.U * ab_conj;
        }
        if(m.c == basis.get_3op_index(c, b, c)) {
            x -= l.U * ac_conj;
        }
    }
    for(auto n : lattice.neighbors(a)) {
        if(m.c == basis.get_3op_index(n, b, c)) {
            x -= l.J;
        }
    }
    for(auto n : lattice.neighbors(b)) {
        if(m.c == basis.get_3op_index(a, n, c)) {
            x -= l.J;
        }
    }
    for(auto n : lattice.neighbors(c)) {
        if(m.c == basis.get_3op_index(a, b, n)) {
            x += l.J;
        }
    }
    vf::same(m.element, x, "hopping and interaction of three particles");
}

void ob_make(double J, double U)
{
    const auto l = hrs::make_liouvillian(J, U);
    vf::claim(l.J == J && l.U == U, "the parameters are stored");
    const auto d = hrs::make_liouvillian<double>();
    vf::claim(d.J == 1. && d.U == 1., "default parameters");
}
