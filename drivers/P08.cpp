#include "vf.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"

using Square = ieompp::lattices::PeriodicSquareLattice<double, uint64_t>;
using Chain = ieompp::lattices::PeriodicChain<double, uint64_t>;

void ob_chain_neighbors(uint64_t N, uint64_t i)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    const Chain c(N, 1.);
    auto n = c.neighbors(i);
    vf::claim(n[0] == (i + N - 1) % N, "first neighbour of a site is its left neighbour");
    vf::claim(n[1] == (i + 1) % N, "second neighbour of a site is its right neighbour");
    auto u = c.unique_neighbors(i);
    vf::claim(u[0] == (i + 1) % N, "the unique neighbour is the right neighbour");
}

void ob_chain_symmetric(uint64_t N, uint64_t i)
{
    vf::assume(N >= 1);
    vf::assume(i < N);
    const Chain c(N);
    auto n = c.neighbors(i);
    vf::claim(n[0] < N && n[1] < N, "neighbours are sites of the lattice");
    vf::claim(c.neighbors(n[1])[0] == i, "left of right is the site itself");
    vf::claim(c.neighbors(n[0])[1] == i, "right of left is the site itself");
    vf::claim(c.neighboring(i, n[1]) && c.neighboring(n[0], i), "neighbours satisfy the predicate");
}

void ob_chain_neighboring(uint64_t N, uint64_t a, uint64_t b)
{
    vf::assume(N >= 1);
    vf::assume(a < N);
    vf::assume(b < N);
    const Chain c(N, 1.);
    vf::claim(c.neighboring(a, b) == c.neighboring(b, a), "the neighbour relation is symmetric");
    auto n = c.neighbors(a);
    vf::claim(c.neighboring(a, b) == (n[0] == b || n[1] == b),
              "the predicate holds exactly for the enumerated neighbours");
}

void ob_chain_distance(uint64_t N, uint64_t a, uint64_t b)
{
    vf::assume(N >= 1);
    vf::assume(a < N);
    vf::assume(b < N);
    const Chain c(N, 1.);
    const auto d = c.lattice_distance(a, b);
    vf::claim(d == c.lattice_distance(b, a), "the distance is symmetric");
    vf::claim((a == b) == (d == 0), "the distance vanishes exactly for equal sites");
    vf::claim(2 * d <= N, "the distance is at most half of the ring");
    vf::claim((a + d) % N == b || (b + d) % N == a, "walking the distance connects the sites");
}

void ob_chain_bounds(uint64_t N, double dx)
{
    vf::assume(N >= 1);
    const Chain c(N, dx);
    vf::claim(c.size() == N, "size");
    vf::claim(c.first() == 0, "first site");
    vf::claim(c.last() == N - 1, "last site");
    vf::claim(c.dx() == dx, "spacing");
    vf::claim(c.lattice_vectors()[0] == dx, "lattice vector");
    vf::claim(c.x_length() == N * dx, "length");
}

void ob_chain_iterate(uint64_t N)
{
    vf::assume(N >= 1);
    const Chain c(N, 1.);
    uint64_t n = 0, sum = 0;
    for(auto i : c) {
        n++;
        sum += i;
    }
    vf::claim(n == N, "iteration visits every site");
    vf::claim(2 * sum == N * (N - 1), "iteration visits each site once");
}

void ob_square_index(uint64_t X, uint64_t Y, uint64_t x, uint64_t y)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    const Square s(X, Y, 1., 1.);
    const auto i = s.index(x, y);
    vf::claim(i < s.size(), "every position belongs to a site");
    vf::claim(s.x_index(i) == x && s.y_index(i) == y, "sites and positions correspond");
}

void ob_square_site(uint64_t X, uint64_t Y, uint64_t i)
{
    vf::assume(X >= 1 && Y >= 1 && i < X * Y);
    const Square s(X, Y, 1., 1.);
    vf::claim(s.y_index(i) < Y, "positions are inside of the lattice");
    vf::claim(s.index(s.x_index(i), s.y_index(i)) == i, "sites and positions correspond");
}

void ob_square_neighbors(uint64_t X, uint64_t Y, uint64_t x, uint64_t y)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y);
    const Square s(X, Y, 1., 1.);
    const auto n = s.neighbors(x * Y + y);
    vf::claim(n[0] == ((x + X - 1) % X) * Y + y, "left neighbour");
    vf::claim(n[1] == x * Y + (y + Y - 1) % Y, "lower neighbour");
    vf::claim(n[2] == ((x + 1) % X) * Y + y, "right neighbour");
    vf::claim(n[3] == x * Y + (y + 1) % Y, "upper neighbour");
    const auto u = s.unique_neighbors(x * Y + y);
    vf::claim(u[0] == ((x + 1) % X) * Y + y && u[1] == x * Y + (y + 1) % Y,
              "the unique neighbours are one step ahead");
}

void ob_square_neighboring(uint64_t X, uint64_t Y, uint64_t x, uint64_t y, uint64_t v, uint64_t w)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y && v < X && w < Y);
    const Square s(X, Y, 1., 1.);
    const auto a = x * Y + y, b = v * Y + w;
    const bool n = s.neighboring(a, b);
    vf::claim(n == s.neighboring(b, a), "the neighbour relation is symmetric");
    vf::claim(n == ((x == v && ((y + 1) % Y == w || (w + 1) % Y == y))
                    || (y == w && ((x + 1) % X == v || (v + 1) % X == x))),
              "neighbours are one step apart in one direction");
}

void ob_square_distance(uint64_t X, uint64_t Y, uint64_t x, uint64_t y, uint64_t v, uint64_t w)
{
    vf::assume(X >= 1 && Y >= 1 && x < X && y < Y && v < X && w < Y);
    const Square s(X, Y, 1., 1.);
    const auto a = x * Y + y, b = v * Y + w;
    const auto dx = s.lattice_distance_x(a, b), dy = s.lattice_distance_y(a, b);
    vf::claim(dx == s.lattice_distance_x(b, a) && dy == s.lattice_distance_y(b, a),
              "distances are symmetric");
    vf::claim((x == v) == (dx == 0) && (y == w) == (dy == 0),
              "distances vanish exactly for equal coordinates");
    vf::claim(2 * dx <= X && 2 * dy <= Y, "distances are at most half of the extents");
    vf::claim((x + dx) % X == v || (v + dx) % X == x, "walking the distance connects the columns");
    vf::claim((y + dy) % Y == w || (w + dy) % Y == y, "walking the distance connects the rows");
}

void ob_square_bounds(uint64_t X, uint64_t Y, double dx, double dy)
{
    vf::assume(X >= 1 && Y >= 1);
    const Square s(X, Y, dx, dy);
    vf::claim(s.size() == X * Y && s.size_x() == X && s.size_y() == Y, "sizes");
    vf::claim(s.first() == 0 && s.last() == X * Y - 1, "first and last site");
    vf::claim(s.dx() == dx && s.dy() == dy, "spacings");
    vf::claim(s.x_length() == X * dx && s.y_length() == Y * dy, "lengths");
    vf::claim(s.lattice_vectors()[0][0] == dx && s.lattice_vectors()[0][1] == 0.
                  && s.lattice_vectors()[1][0] == 0. && s.lattice_vectors()[1][1] == dy,
              "lattice vectors");
}

void ob_chain_momentum_bounds(uint64_t N)
{
    vf::assume(N >= 1);
    const Chain c(N);
    vf::claim(c.size() == N && c.first() == 0 && c.last() == N - 1, "size, first and last momentum");
    vf::claim(c.dx() * N == c.x_length() && c.lattice_vectors()[0] == c.dx(), "spacing of momenta");
}

void ob_square_momentum_bounds(uint64_t X, uint64_t Y)
{
    vf::assume(X >= 1 && Y >= 1);
    const Square s(X, Y);
    vf::claim(s.size() == X * Y && s.size_x() == X && s.size_y() == Y, "sizes");
    vf::claim(s.first() == 0 && s.last() == X * Y - 1, "first and last momentum");
    vf::claim(s.dx() * X == s.x_length() && s.dy() * Y == s.y_length(), "spacings of momenta");
    vf::claim(s.x_length() == s.y_length(), "one Brillouin zone");
    vf::claim(s.lattice_vectors()[0][0] == s.dx() && s.lattice_vectors()[0][1] == 0.
                  && s.lattice_vectors()[1][0] == 0. && s.lattice_vectors()[1][1] == s.dy(),
              "lattice vectors");
}

void ob_square_iterate(uint64_t X, uint64_t Y)
{
    vf::assume(X >= 1 && Y >= 1);
    const Square s(X, Y, 1., 1.);
    uint64_t n = 0;
    for(auto i : s) {
        vf::claim(i == n, "iteration visits the sites in order");
        n++;
    }
    vf::claim(n == X * Y, "iteration visits every site");
}

// every pair of ends of a lattice is the same
template <typename Lattice>
void ends(Lattice& l, uint64_t n)
{
    const Lattice& c = l;
    vf::claim(*l.begin() == 0 && *l.cbegin() == 0 && *c.begin() == 0, "iteration begins with the first site");
    vf::claim(*l.end() == n && *l.cend() == n && *c.end() == n, "iteration ends behind the last site");
    uint64_t k = 0;
    for(auto i : l) {
        vf::claim(i == k, "iteration visits the sites in order");
        k++;
    }
    vf::claim(k == n, "iteration visits every site");
}

void ob_chain_ends(uint64_t N)
{
    vf::assume(N >= 1);
    Chain c(N, 1.);
    ends(c, N);
}

void ob_square_ends(uint64_t X, uint64_t Y)
{
    vf::assume(X >= 1 && Y >= 1);
    Square s(X, Y, 1., 1.);
    ends(s, X * Y);
}
