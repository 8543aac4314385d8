#include "vf.hpp"

#include "sparse.hpp"

#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"

namespace hms = ieompp::models::hubbard_momentum_space;
using Basis3  = hms::Basis3Operator<Three>;

// any dispersion relation
struct Disp {
    using Float = double;
    double operator()(uint64_t k) const;
};
using L = hms::Liouvillian<double, Disp>;

// the row of the single creator
void ob_first_row(L l, Basis3 basis, Lattice lattice, Matrix m)
{
    vf::assume(lattice.n >= 1 && basis.N == lattice.n && basis.size() > 1 && m.r == 0 && m.c < basis.size());
    hms::init_matrix(l, m, basis, lattice);
    vf::claim(m.rows == basis.size() && m.columns == basis.size(), "size of the matrix");
    vf::same(m.element,
             m.c == 0 ? l.dispersion(basis[0].front().index1) + l.U / 2.
                      : l.U / (2. * static_cast<double>(lattice.n)),
             "dispersion of one particle and its interaction");
}

// the rows of products of three operators
void ob_other_rows(L l, Basis3 basis, Lattice lattice, Matrix m)
{
    vf::assume(lattice.n >= 1 && basis.N == lattice.n && basis.size() > 1 && m.r >= 1 && m.r < basis.size()
               && m.c < basis.size());
    hms::init_matrix(l, m, basis, lattice);
    double x = 0.;
    if(m.c == 0) {
        x = l.U / (2. * static_cast<double>(lattice.n));
    }
    if(m.c == m.r) {
        x = l.dispersion(basis[m.r][0].index1) + l.dispersion(basis[m.r][1].index1)
            - l.dispersion(basis[m.r][2].index1) + l.U / 2.;
    }
    vf::same(m.element, x, "dispersion of three particles and their interaction");
}

using Chain = ieompp::lattices::PeriodicChain<double, uint64_t>;

void ob_make(uint64_t N, double dx, double J, double U, uint64_t k)
{
    vf::assume(N >= 1 && dx > 0 && k < N);
    const Chain lattice(N, dx), space(N);
    const auto l = hms::make_liouvillian(space, lattice, J, U);
    vf::same(l.U, U, "interaction that is asked for");
    vf::same(l.dispersion(k), -2. * J * std::cos(space[k] * dx), "dispersion that is asked for");
    const auto d = hms::make_liouvillian<double>(space, lattice);
    vf::same(d.U, 1., "interaction by default");
    vf::same(d.dispersion(k), -2. * std::cos(space[k] * dx), "dispersion by default");
}
