#include "vf.hpp"

#include <complex>

#include "ieompp/types/blaze/multiply_assign.hpp"
#include "ieompp/types/multiply_assign.hpp"

// two coupled equations: the matrices are not commutative and every product is different
struct Vec {
    double x, y;
};

Vec operator+(const Vec& a, const Vec& b) { return Vec{a.x + b.x, a.y + b.y}; }
Vec operator-(const Vec& a, const Vec& b) { return Vec{a.x - b.x, a.y - b.y}; }
Vec operator*(double s, const Vec& a) { return Vec{s * a.x, s * a.y}; }
Vec operator*(const Vec& a, double s) { return Vec{s * a.x, s * a.y}; }
Vec operator/(const Vec& a, double s) { return Vec{a.x / s, a.y / s}; }
Vec& operator+=(Vec& a, const Vec& b)
{
    a.x += b.x;
    a.y += b.y;
    return a;
}
Vec& operator-=(Vec& a, const Vec& b)
{
    a.x -= b.x;
    a.y -= b.y;
    return a;
}
Vec& operator*=(Vec& a, double s)
{
    a.x *= s;
    a.y *= s;
    return a;
}

struct Mat {
    double a, b, c, d;
};

Vec operator*(const Mat& m, const Vec& v)
{
    return Vec{m.a * v.x + m.b * v.y, m.c * v.x + m.d * v.y};
}

using Function = ieompp::types::FunctionMatrix<double, std::size_t>;

Vec operator*(const Function& m, const Vec& v)
{
    return Vec{m(0, 0) * v.x + m(0, 1) * v.y, m(1, 0) * v.x + m(1, 1) * v.y};
}

#include "ieompp/types/matrix.hpp"

namespace ieompp
{
    namespace types
    {
        template <>
        struct MatrixDimensionInfo<Mat> {
            static std::size_t rows(const Mat&) { return 2; }
            static std::size_t columns(const Mat&) { return 2; }
        };
        template <>
        struct MatrixDimensionInfo<Vec> {
            static std::size_t rows(const Vec&) { return 2; }
            static std::size_t columns(const Vec&) { return 1; }
        };
        template <>
        struct MatrixDimensionInfo<Function> {
            static std::size_t rows(const Function& m) { return m.rows(); }
            static std::size_t columns(const Function& m) { return m.cols(); }
        };
    } // namespace types
} // namespace ieompp

#include "ieompp/ode/rk4.hpp"

using RK4 = ieompp::ode::RK4<double>;

// the exponential of the matrix times the step size up to the fourth order
template <typename M>
Vec taylor(const M& m, const Vec& u, double h)
{
    const Vec d1 = h * (m * u);
    const Vec d2 = (h / 2.) * (m * d1);
    const Vec d3 = (h / 3.) * (m * d2);
    const Vec d4 = (h / 4.) * (m * d3);
    return u + d1 + d2 + d3 + d4;
}

void ob_step(Mat m, Vec u, double h)
{
    const RK4 rk4(2, h);
    vf::claim(rk4.dimension() == 2, "the dimension is kept");
    vf::same(rk4.step_size(), h, "the step size is kept");
    const Vec x = taylor(m, u, h);
    rk4.step(m, u);
    vf::same(u.x, x.x, "one step is the fourth order of the solution");
    vf::same(u.y, x.y, "one step is the fourth order of the solution");
}

void ob_step_complex(std::complex<double> l, double h, Mat m)
{
    // an oscillation with a decay written as a real system
    const Mat r{l.real(), -l.imag(), l.imag(), l.real()};
    const RK4 rk4(2, h);
    Vec u{1., 0.};
    rk4.step(r, u);
    const std::complex<double> z = l * h;
    const std::complex<double> y = 1. + z + z * z / 2. + z * z * z / 6. + z * z * z * z / 24.;
    vf::same(u.x, y.real(), "amplification of an oscillation");
    vf::same(u.y, y.imag(), "amplification of an oscillation");
}

double element(std::size_t i, std::size_t j);

void ob_step_function(Vec u, double h)
{
    const Function m(2, 2, [](std::size_t i, std::size_t j) { return element(i, j); });
    const RK4 rk4(2, h);
    const Vec x = taylor(m, u, h);
    rk4.step(m, u);
    vf::same(u.x, x.x, "one step with a matrix given by a function");
    vf::same(u.y, x.y, "one step with a matrix given by a function");
}

// the parallel product with a matrix given by a function
void ob_multiply(blaze::DynamicVector<double, blaze::columnVector> v, std::size_t i)
{
    const auto n = v.size();
    vf::assume(i < n);
    const Function m(n, n, [](std::size_t k, std::size_t l) { return element(k, l); });
    double sum = 0.;
    for(std::size_t j = 0; j < n; ++j) {
        sum += element(i, j) * v(j);
    }
    ieompp::types::multiply_assign(m, v);
    vf::claim(v.size() == n, "the product has as many elements");
    vf::same(v(i), sum, "every element is the sum of its row");
}
