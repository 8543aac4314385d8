#include "vf.hpp"

#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/dispersion.hpp"

namespace hub = ieompp::models::hubbard;
using Chain   = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square  = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

void ob_chain(uint64_t N, uint64_t M, double dx, double J, uint64_t i)
{
    vf::assume(N >= 1 && M >= 1 && dx > 0 && i < M);
    const Chain lattice(N, dx);
    const Chain space(M);
    const auto d = hub::make_dispersion(space, lattice, J);
    vf::same(d(i), -2. * J * std::cos(space[i] * dx), "energy of a momentum on a chain");
}

void ob_chain_default(uint64_t N, uint64_t i)
{
    vf::assume(N >= 1 && i < N);
    const Chain lattice(N, 1.);
    const Chain space(N);
    const auto d = hub::make_dispersion(space, lattice);
    vf::same(d(i), -2. * std::cos(space[i]), "hopping of one unless given");
    const hub::Dispersion<double> e(space, lattice);
    vf::same(e(i), -2. * std::cos(space[i]), "hopping of one unless given");
}

void ob_square(uint64_t X, uint64_t Y, uint64_t A, uint64_t B, double dx, double dy, double J,
               uint64_t x, uint64_t y)
{
    vf::assume(X >= 1 && Y >= 1 && A >= 1 && B >= 1 && dx > 0 && dy > 0 && x < A && y < B);
    const Square lattice(X, Y, dx, dy);
    const Square space(A, B);
    const auto d = hub::make_dispersion(space, lattice, J);
    const auto k = space[x * B + y];
    vf::same(d(x * B + y), -2. * J * (std::cos(k[0] * dx) + std::cos(k[1] * dy)),
             "energy of a momentum on a square lattice");
}

// any lattice and any momenta
struct Momenta {
    using Float     = double;
    using SiteIndex = uint64_t;
    uint64_t n;
    uint64_t size() const { return n; }
    double operator[](uint64_t i) const;
};

struct Bonds {
    std::vector<double> vectors;
    const std::vector<double>& lattice_vectors() const { return vectors; }
};

void ob_any(Momenta space, Bonds lattice, double J, uint64_t i)
{
    vf::assume(i < space.n);
    const hub::Dispersion<double> d(space, lattice, J);
    double x = 0.;
    for(const auto& v : lattice.vectors) {
        x += -2. * J * std::cos(space[i] * v);
    }
    vf::same(d(i), x, "sum over the vectors of the lattice");
}

void ob_fermi_momentum(double filling)
{
    vf::same(hub::calculate_fermi_momentum_1d(filling), filling * ieompp::Pi<double>::value,
             "the Fermi momentum is proportional to the filling");
    vf::same(2. * hub::calculate_fermi_momentum_1d(0.5), ieompp::Pi<double>::value,
             "half filling reaches to half of the zone");
}
