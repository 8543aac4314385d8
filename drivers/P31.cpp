#include "vf.hpp"

#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"

namespace hrs = ieompp::models::hubbard_real_space;
using Chain   = ieompp::lattices::PeriodicChain<double, uint64_t>;
using Square  = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;

static const double pi = ieompp::Pi<double>::value;

void ob_chain_same(uint64_t N, double dx, double filling, double k_F, uint64_t a)
{
    vf::assume(N >= 1 && dx > 0 && a < N);
    vf::assume(filling >= 0. && filling <= 1.);
    const Chain lattice(N, dx);
    const hrs::ExpectationValue1DHalfFilled<double, Chain> ev(lattice, filling, k_F);
    vf::same(ev(a, a), filling, "occupation of a site");
}

void ob_chain(uint64_t N, double dx, double filling, double k_F, uint64_t a, uint64_t b)
{
    vf::assume(N >= 1 && dx > 0 && a < N && b < N && a != b);
    vf::assume(filling >= 0. && filling <= 1.);
    const Chain lattice(N, dx);
    const hrs::ExpectationValue1DHalfFilled<double, Chain> ev(lattice, filling, k_F);
    const auto d = lattice.lattice_distance(a, b);
    vf::same(ev(a, b), std::sin(k_F * d * dx) / (pi * d * dx), "correlation of two sites");
    vf::same(ev(a, b), ev(b, a), "correlations are symmetric");
    vf::claim(ev.lattice_distance(a, b) == d, "distance of two sites");
}

// any lattice with two directions (distances are the subject of P08)
struct Plane {
    using SiteIndex = uint64_t;
    uint64_t nx, ny;
    uint64_t size_x() const { return nx; }
    uint64_t size_y() const { return ny; }
    uint64_t size() const { return nx * ny; }
    uint64_t lattice_distance_x(uint64_t a, uint64_t b) const
    {
        return distance_x(a, b) % (nx / 2 + 1);
    }
    uint64_t lattice_distance_y(uint64_t a, uint64_t b) const
    {
        return distance_y(a, b) % (ny / 2 + 1);
    }
    uint64_t distance_x(uint64_t a, uint64_t b) const;
    uint64_t distance_y(uint64_t a, uint64_t b) const;
};

void ob_plane(Plane lattice, uint64_t a, uint64_t b)
{
    vf::assume(lattice.nx >= 1 && lattice.ny >= 1);
    const hrs::ExpectationValue2DHalfFilled<double, Plane> ev(lattice);
    const auto dx = lattice.lattice_distance_x(a, b);
    const auto dy = lattice.lattice_distance_y(a, b);
    const auto s  = dx + dy;
    if(dx == 0 && dy == 0) {
        vf::same(ev(a, b), 0.5, "half of the sites are occupied");
    } else if(dx == dy) {
        vf::same(ev(a, b), std::sin(pi / 2. * s) / (pi * s), "correlation along the diagonal");
    } else {
        const auto d = dx > dy ? dx - dy : dy - dx;
        vf::same(ev(a, b), 2. / (pi * pi) * std::sin(pi / 2. * s) / s * std::sin(pi / 2. * d) / d,
                 "correlation of two sites");
    }
}

void ob_square(uint64_t X, uint64_t Y, uint64_t x, uint64_t y)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    const Square lattice(X, Y, 1., 1.);
    const hrs::ExpectationValue2DHalfFilled<double, Square> ev(lattice);
    vf::same(ev(x * Y + y, x * Y + y), 0.5, "half of the sites are occupied");
}
