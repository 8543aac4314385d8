#include "vf.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"

using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;
using Chain = ieompp::lattices::PeriodicChain<double, uint64_t>;

void ob_chain_real_coordinate(uint64_t N, uint64_t i, double dx)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    vf::assume(dx > 0);
    const Chain c(N, dx);
    vf::same(c[i], i * dx, "coordinate of a site in real space");
    vf::same(c.x_min(), c[c.first()], "the first site has the smallest coordinate");
    vf::same(c.x_max(), c[c.last()], "the last site has the largest coordinate");
    vf::claim(c(c[i]) == i, "the site of the coordinate of a site is the site");
}

void ob_chain_momentum_coordinate(uint64_t N, uint64_t i)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    const Chain c(N);
    vf::same(c[i], c.x_min() + i * c.x_length() / N, "coordinate of a site in momentum space");
    vf::same(c.x_max() - c.x_min(), c.x_length(), "the limits span the zone");
    vf::claim(c(c[i]) == i, "the site of the coordinate of a site is the site");
}

void ob_chain_real_periodic(uint64_t N, uint64_t i, double dx, long t)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    vf::assume(dx > 0);
    const Chain c(N, dx);
    vf::claim(c(c[i] + t * c.x_length()) == i, "coordinates are periodic");
}

void ob_chain_momentum_periodic(uint64_t N, uint64_t i, long t)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    const Chain c(N);
    vf::claim(c(c[i] + t * c.x_length()) == i, "momenta are periodic");
}

void ob_chain_momentum_addition(uint64_t N, uint64_t a, uint64_t b, uint64_t q)
{
    vf::assume(N >= 1);
    vf::assume(a < N && b < N && q < N);
    const Chain c(N);
    const auto r = c(c[a] + c[b] - c[q]);
    vf::claim(r < N, "sums of momenta are momenta of the lattice");
    vf::claim((r + q) % N == (a + b) % N, "momentum is conserved modulo the zone");
}

void ob_chain_real_range(uint64_t N, double dx, double v)
{
    vf::assume(N >= 1);
    vf::assume(dx > 0);
    const Chain c(N, dx);
    vf::claim(c(v) < N, "every coordinate belongs to a site");
}

void ob_chain_momentum_range(uint64_t N, double v)
{
    vf::assume(N >= 1);
    const Chain c(N);
    vf::claim(c(v) < N, "every momentum belongs to a site");
}

// every coordinate is a site, a part of a cell around it and a number of revolutions
void ob_chain_real_nearest(uint64_t N, uint64_t i, double dx, double e, long t)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    vf::assume(dx > 0 && e > -0.5 && e < 0.5);
    const Chain c(N, dx);
    vf::claim(c(c[i] + e * dx + t * c.x_length()) == i, "coordinates belong to the nearest site");
}

void ob_chain_momentum_nearest(uint64_t N, uint64_t i, double e, long t)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    vf::assume(e > -0.5 && e < 0.5);
    const Chain c(N);
    vf::claim(c(c[i] + e * c.dx() + t * c.x_length()) == i, "momenta belong to the nearest site");
}

void ob_square_real_coordinate(uint64_t X, uint64_t Y, uint64_t x, uint64_t y, double dx, double dy)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    vf::assume(dx > 0 && dy > 0);
    const Square s(X, Y, dx, dy);
    const uint64_t i = x * Y + y;
    const auto v     = s[i];
    vf::same(v[0], x * dx, "first coordinate of a site in real space");
    vf::same(v[1], y * dy, "second coordinate of a site in real space");
    vf::claim(s(v) == i, "the site of the coordinate of a site is the site");
    vf::same(s.x_min(), s[s.first()][0], "the first site has the smallest coordinates");
    vf::same(s.y_min(), s[s.first()][1], "the first site has the smallest coordinates");
    vf::same(s.x_max(), s[s.last()][0], "the last site has the largest coordinates");
    vf::same(s.y_max(), s[s.last()][1], "the last site has the largest coordinates");
}

void ob_square_momentum_coordinate(uint64_t X, uint64_t Y, uint64_t x, uint64_t y)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    const Square s(X, Y);
    const uint64_t i = x * Y + y;
    const auto v     = s[i];
    vf::same(v[0], s.x_min() + x * s.x_length() / X, "first coordinate of a momentum");
    vf::same(v[1], s.y_min() + y * s.y_length() / Y, "second coordinate of a momentum");
    vf::same(s.x_max() - s.x_min(), s.x_length(), "the limits span the zone");
    vf::same(s.y_max() - s.y_min(), s.y_length(), "the limits span the zone");
    vf::claim(s(v) == i, "the momentum of the coordinate of a momentum is the momentum");
}

void ob_square_real_nearest_x(uint64_t X, uint64_t Y, uint64_t x, uint64_t y, double dx, double dy,
                              double e, long t)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    vf::assume(dx > 0 && dy > 0 && e > -0.5 && e < 0.5);
    const Square s(X, Y, dx, dy);
    const uint64_t i = x * Y + y;
    const auto v     = s[i];
    vf::claim(s(Square::Vector{v[0] + e * dx + t * s.x_length(), v[1]}) == i,
              "first coordinates belong to the nearest site");
}

void ob_square_real_nearest_y(uint64_t X, uint64_t Y, uint64_t x, uint64_t y, double dx, double dy,
                              double e, long t)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    vf::assume(dx > 0 && dy > 0 && e > -0.5 && e < 0.5);
    const Square s(X, Y, dx, dy);
    const uint64_t i = x * Y + y;
    const auto v     = s[i];
    vf::claim(s(Square::Vector{v[0], v[1] + e * dy + t * s.y_length()}) == i,
              "second coordinates belong to the nearest site");
}

void ob_square_momentum_addition(uint64_t X, uint64_t Y, uint64_t a, uint64_t b, uint64_t q)
{
    vf::assume(X >= 1 && Y >= 1 && a < X && b < X && q < X);
    const Square s(X, Y);
    const auto v = s[a * Y] + s[b * Y] - s[q * Y];
    const auto r = s(v);
    vf::claim(r < X * Y, "sums of momenta are momenta of the lattice");
    vf::claim((s.x_index(r) + q) % X == (a + b) % X, "momentum is conserved modulo the zone");
}

void ob_square_range(uint64_t X, uint64_t Y, double dx, double dy, double v, double w)
{
    vf::assume(X >= 1 && Y >= 1 && dx > 0 && dy > 0);
    const Square s(X, Y, dx, dy);
    vf::claim(s(Square::Vector{v, w}) < s.size(), "every coordinate belongs to a site");
}

// the search for the closest site, on small lattices
void ob_chain_closest_1(double dx, double e, long t)
{
    vf::assume(dx > 0 && e > -0.5 && e < 0.5);
    const Chain c(1, dx);
    vf::claim(c.closest(c[uint64_t(0)] + e * dx + t * c.x_length()) == 0, "closest site");
}

void ob_chain_closest_2(uint64_t i, double dx, double e, long t)
{
    vf::assume(i < 2 && dx > 0 && e > -0.5 && e < 0.5);
    const Chain c(2, dx);
    vf::claim(c.closest(c[i] + e * dx + t * c.x_length()) == i, "closest site");
}

void ob_chain_closest_3(uint64_t i, double dx, double e, long t)
{
    vf::assume(i < 3 && dx > 0 && e > -0.5 && e < 0.5);
    const Chain c(3, dx);
    vf::claim(c.closest(c[i] + e * dx + t * c.x_length()) == i, "closest site");
}

void ob_chain_closest_4(uint64_t i, double e)
{
    vf::assume(i < 4 && e > -0.5 && e < 0.5);
    const Chain c(4);
    vf::claim(c.closest(c[i] + e * c.dx()) == i, "closest momentum");
}

void ob_square_closest(double e, double f, long t, long u)
{
    vf::assume(e > -0.5 && e < 0.5 && f > -0.5 && f < 0.5);
    const Square s(2, 3, 1., 2.);
    for(uint64_t x = 0; x < 2; ++x) {
        for(uint64_t y = 0; y < 3; ++y) {
            vf::claim(s.closest(Square::Vector{x + e + t * s.x_length(), 2. * (y + f)}) == 3 * x + y
                          && s.closest(Square::Vector{x + e, 2. * (y + f) + u * s.y_length()}) == 3 * x + y,
                      "closest site");
        }
    }
}

void ob_square_closest_momentum(double e, double f)
{
    vf::assume(e > -0.5 && e < 0.5 && f > -0.5 && f < 0.5);
    const Square s(2, 2);
    for(uint64_t x = 0; x < 2; ++x) {
        for(uint64_t y = 0; y < 2; ++y) {
            vf::claim(s.closest(Square::Vector{s.dx() * (x + e) - s.dx(), s.dy() * (y + f) - s.dy()}) == 2 * x + y,
                      "closest momentum");
        }
    }
}
