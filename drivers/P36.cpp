// With assertions, the library does not stop for arguments it is made for.
#undef NDEBUG
#include "vf.hpp"

#include <complex>
#include <vector>

#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/expectation_value.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"
#include "ieompp/ode/rk4.hpp"
#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"
#include "ieompp/types/function_matrix.hpp"

#include "products.hpp"

#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

namespace hrs  = ieompp::models::hubbard_real_space;
using Basis1   = hrs::Basis1Operator<Product>;
using Basis3   = hrs::Basis3Operator<Product>;
using Function = std::function<double(const Op&, const Op&)>;
using Term     = ieompp::algebra::Term<double, Op>;

// lattices of any size
void ob_chain(uint64_t N, double dx)
{
    vf::assume(N > 0);
    vf::assume(dx > 0);
    const ieompp::lattices::PeriodicChain<double> a(N, dx), b(N);
    vf::claim(a.size() == N && b.size() == N, "number of sites");
}
void ob_square(uint64_t X, uint64_t Y, double dx, double dy)
{
    vf::assume(X > 0);
    vf::assume(Y > 0);
    vf::assume(dx > 0);
    vf::assume(dy > 0);
    const ieompp::lattices::PeriodicSquareLattice<double> a(X, Y, dx, dy), b(X, Y);
    vf::claim(a.size() == X * Y && b.size() == X * Y, "number of sites");
}

// any filling
void ob_filling(uint64_t N, double filling, double k_F)
{
    vf::assume(N > 0);
    vf::assume(filling >= 0);
    vf::assume(1 >= filling);
    const ieompp::lattices::PeriodicChain<double> chain(N, 1.);
    const hrs::ExpectationValue1DHalfFilled<double, decltype(chain)> ev(chain, filling, k_F);
    vf::same(ev(0, 0), filling, "filling");
}

// terms of which one consists of pairs
void ob_commutator(Term a, Term b)
{
    vf::assume(a.operators.size() * b.operators.size() % 2 == 0);
    std::vector<Term> c;
    ieompp::algebra::commutate(a, b, c);
}

// vectors as long as the matrix
struct SizedVector {
    uint64_t n;
};
struct SizedMatrix {
    uint64_t n;
};
inline SizedVector operator+(const SizedVector& a, const SizedVector&) { return a; }
inline SizedVector operator*(double, const SizedVector& a) { return a; }
inline SizedVector operator*(const SizedVector& a, double) { return a; }
inline SizedVector operator/(const SizedVector& a, double) { return a; }
inline SizedVector operator*(const SizedMatrix&, const SizedVector& a) { return a; }
inline SizedVector& operator+=(SizedVector& a, const SizedVector&) { return a; }
inline SizedVector& operator*=(SizedVector& a, double) { return a; }
inline SizedVector& operator/=(SizedVector& a, double) { return a; }
namespace ieompp
{
    namespace types
    {
        template <>
        struct MatrixDimensionInfo<SizedMatrix> {
            static uint64_t rows(const SizedMatrix& m) { return m.n; }
            static uint64_t columns(const SizedMatrix& m) { return m.n; }
        };
        template <>
        struct MatrixDimensionInfo<SizedVector> {
            static uint64_t rows(const SizedVector& v) { return v.n; }
            static uint64_t columns(const SizedVector&) { return 1; }
        };
        inline bool is_quadratic(const SizedMatrix&) { return true; }
        inline void multiply_assign(const SizedMatrix&, SizedVector&) {}
    } // namespace types
} // namespace ieompp
void ob_integrator(uint64_t n, double dt)
{
    const ieompp::ode::RK4<double> integrator(n, dt);
    SizedVector v{n};
    const SizedMatrix m{n};
    integrator.step(m, v);
    vf::claim(v.n == n, "the size is kept");
}
void ob_product(blaze::DynamicVector<double, blaze::columnVector> v)
{
    const auto n = v.size();
    const ieompp::types::FunctionMatrix<double, std::size_t> m(
        n, n, [](std::size_t, std::size_t) { return 1.; });
    ieompp::types::multiply_assign(m, v);
    vf::claim(v.size() == n, "the size is kept");
}

void ob_product_eigen(const std::vector<double>& v)
{
    const long n = v.size();
    Eigen::VectorXd x;
    x.data_ = v;
    const ieompp::types::FunctionMatrix<double, long> m(n, n, [](long, long) { return 1.; });
    ieompp::types::multiply_assign(m, x);
    vf::claim(x.rows() == n, "the size is kept");
}

// products of the elements of a basis with conjugated ones
void ob_pairs(Function f, const Basis1& basis1, const Basis3& basis3, uint64_t a, uint64_t b,
              uint64_t c, uint64_t d, uint64_t e, uint64_t g)
{
    const hrs::SiteOccupation<double, Basis1> n{f, basis1, basis1};
    n.expectation_value(one(a), conjugate_of_one(b));
    const hrs::SiteOccupation<double, Basis3> m{f, basis3, basis3, true};
    m.expectation_value_1_1(one(a), conjugate_of_one(b));
    m.expectation_value_1_3(one(a), conjugate_of_three(b, c, d));
    m.expectation_value_3_1(three(a, b, c), conjugate_of_one(d));
    m.expectation_value_3_3(three(a, b, c), conjugate_of_three(d, e, g));
    m.expectation_value(one(a), conjugate_of_one(b));
    m.expectation_value(one(a), conjugate_of_three(b, c, d));
    m.expectation_value(three(a, b, c), conjugate_of_one(d));
    m.expectation_value(three(a, b, c), conjugate_of_three(d, e, g));
}

// and of the bases themselves
using RealOne   = hrs::Basis1Operator<ieompp::algebra::Monomial<Op>>;
using RealThree = hrs::Basis3Operator<ieompp::algebra::Monomial<Op>>;
void ob_basis_one(uint64_t N, Function f, uint64_t i, uint64_t j)
{
    vf::assume(N > 0);
    const ieompp::lattices::PeriodicChain<double> lattice(N, 1.);
    const RealOne basis(lattice);
    const auto conj = basis.get_conjugate();
    vf::assume(i < N);
    vf::assume(j < N);
    const hrs::SiteOccupation<double, RealOne> n{f, basis, conj};
    n.expectation_value(basis[i], conj[j]);
}
void ob_basis_three(uint64_t N, Function f, uint64_t i, uint64_t j)
{
    vf::assume(N > 0);
    const ieompp::lattices::PeriodicChain<double> lattice(N, 1.);
    const RealThree basis(lattice);
    const auto conj = basis.get_conjugate();
    vf::assume(i < basis.size());
    vf::assume(j < basis.size());
    const hrs::SiteOccupation<double, RealThree> n{f, basis, conj, false};
    n.expectation_value(basis[i], conj[j]);
}

// real coefficients
namespace any
{
    double coefficient(uint64_t i);
}
struct RealCoefficients {
    std::complex<double> operator[](uint64_t i) const
    {
        return std::complex<double>(any::coefficient(i), 0.);
    }
};
namespace hms = ieompp::models::hubbard_momentum_space;
using MomentumBasis = hms::Basis3Operator<ieompp::algebra::Monomial<Op>>;
void ob_particle_number(const hms::ParticleNumber<double, MomentumBasis>& n)
{
    n(RealCoefficients{});
}
void ob_occupation_one(uint64_t N, Function f)
{
    const Basis1 basis{N, false}, conj{N, true};
    const hrs::SiteOccupation<double, Basis1> n{f, basis, conj};
    n(RealCoefficients{});
}
void ob_occupation_three(uint64_t N, Function f, bool symmetric)
{
    const Basis3 basis{N, N * N, false}, conj{N, N * N, true};
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, symmetric};
    n(RealCoefficients{});
}
