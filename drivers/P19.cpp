#include "vf.hpp"

#include <complex>
#include <limits>

#include "ieompp/types/number.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/matrix_check.hpp"

namespace t = ieompp::types;
using C     = std::complex<double>;

static const double eps = std::numeric_limits<double>::epsilon();

static double absolute(double x) { return x < 0 ? -x : x; }

void ob_is_zero_float(double x, double d)
{
    vf::claim(t::IsZero(x) == (absolute(x) < eps), "a number is zero iff its size is below epsilon");
    vf::claim(t::IsZero(0.), "zero is zero");
    vf::claim(t::IsZero(x) == t::IsZero(-x), "the test for zero does not depend on the sign");
    vf::claim(t::IsZero(x, d) == (absolute(x) < d + eps),
              "a number is zero within a deviation iff its size is below the deviation");
}

void ob_is_zero_int(long x)
{
    vf::claim(t::IsZero(x) == (x == 0), "an integer is zero iff it is 0");
}

void ob_is_zero_complex(double a, double b, double d)
{
    const C z(a, b);
    vf::claim(t::IsZero(z) == (absolute(a) < eps && absolute(b) < eps),
              "a complex number is zero iff both parts are");
    vf::claim(t::IsZero(z, d) == (absolute(a) < d + eps && absolute(b) < d + eps),
              "a complex number is zero within a deviation iff both parts are");
}

void ob_is_equal_float(double x, double y, double d)
{
    vf::claim(t::IsEqual(x, y) == (absolute(x - y) < eps),
              "numbers are equal iff they differ by less than epsilon");
    vf::claim(t::IsEqual(x, x), "a number equals itself");
    vf::claim(t::IsEqual(x, y) == t::IsEqual(y, x), "equality is symmetric");
    vf::claim(t::IsEqual(x, y, d) == (absolute(x - y) < d + eps),
              "numbers are equal within a deviation iff they differ by less than it");
    vf::claim(t::IsEqual(x, y) == t::IsZero(x - y), "equality means that the difference is zero");
}

void ob_is_equal_int(long x, long y)
{
    vf::claim(t::IsEqual(x, y) == (x == y), "integers are equal iff they agree");
}

void ob_is_equal_complex(double a, double b, double c, double e, double d)
{
    const C x(a, b), y(c, e);
    vf::claim(t::IsEqual(x, y) == (absolute(a - c) < eps && absolute(b - e) < eps),
              "complex numbers are equal iff both parts are");
    vf::claim(t::IsEqual(x, y, d) == (absolute(a - c) < d + eps && absolute(b - e) < d + eps),
              "complex numbers are equal within a deviation iff both parts are");
}

void ob_conjugate(double a, double b, double x)
{
    const C z(a, b);
    vf::same(t::conjugate(z).real(), a, "conjugation keeps the real part");
    vf::same(t::conjugate(z).imag(), -b, "conjugation negates the imaginary part");
    vf::same(t::conjugate(t::conjugate(z)), z, "conjugation is an involution");
    vf::same(t::conjugate(x), x, "real numbers are their own conjugates");
}

void ob_products(double a, double b, double c, double d)
{
    const C x(a, b), y(c, d);
    vf::same(t::multiply_with_conjugate(x, y), x * std::conj(y), "product with the conjugate");
    vf::same(C(t::add_conjugate_products(x, y)), x * std::conj(y) + std::conj(x) * y,
             "sum of the two conjugate products");
    vf::same(t::multiply_with_conjugate(x, x), C(std::norm(x)), "product with itself is the norm");
    vf::same(t::add_conjugate_products(x, y), t::add_conjugate_products(y, x),
             "the sum of conjugate products is symmetric");
}

// ---- matrices given by functions -------------------------------------------------------------
double f(uint64_t i, uint64_t j);
C g(uint64_t i, uint64_t j);

using FM = t::FunctionMatrix<double, uint64_t>;
using GM = t::FunctionMatrix<C, uint64_t>;

void ob_function_matrix(uint64_t r, uint64_t c, uint64_t i, uint64_t j)
{
    const FM m(r, c, [](uint64_t a, uint64_t b) { return f(a, b); });
    vf::claim(m.rows() == r, "number of rows");
    vf::claim(m.cols() == c, "number of columns");
    vf::same(m(i, j), f(i, j), "an element is the value of the function");
    vf::claim(t::is_quadratic(m) == (r == c), "quadratic iff rows and columns agree");
}

struct Dense {
    uint64_t n, m;
    uint64_t rows() const { return n; }
    uint64_t cols() const { return m; }
    uint64_t columns() const { return m; }
    double operator()(uint64_t i, uint64_t j) const;
};

struct DenseC {
    uint64_t n, m;
    uint64_t rows() const { return n; }
    uint64_t cols() const { return m; }
    uint64_t columns() const { return m; }
    C operator()(uint64_t i, uint64_t j) const;
};

namespace ieompp
{
    namespace types
    {
        template <>
        struct IsMatrix<Dense> {
            static constexpr bool value = true;
        };
        template <>
        struct IsMatrix<DenseC> {
            static constexpr bool value = true;
        };
        template <>
        struct IndexType<Dense> {
            using Type = uint64_t;
        };
        template <>
        struct IndexType<DenseC> {
            using Type = uint64_t;
        };
        template <>
        struct MatrixDimensionInfo<Dense> {
            static uint64_t rows(const Dense& m) { return m.rows(); }
            static uint64_t columns(const Dense& m) { return m.columns(); }
        };
        template <>
        struct MatrixDimensionInfo<DenseC> {
            static uint64_t rows(const DenseC& m) { return m.rows(); }
            static uint64_t columns(const DenseC& m) { return m.columns(); }
        };
    } // namespace types
} // namespace ieompp

void ob_function_matrix_equal(uint64_t r, uint64_t c, Dense d)
{
    const FM m(r, c, [](uint64_t a, uint64_t b) { return f(a, b); });
    bool equal = (r == d.n) && (c == d.m);
    if(equal) {
        for(uint64_t i = 0; i < r; ++i) {
            for(uint64_t j = 0; j < c; ++j) {
                if(!t::IsEqual(f(i, j), d(i, j))) {
                    equal = false;
                }
            }
        }
    }
    vf::claim((m == d) == equal, "matrices are equal iff sizes and all elements agree");
    vf::claim((m != d) == !(m == d), "unequal is the negation of equal");
}

void ob_function_matrix_symmetric(uint64_t n)
{
    const FM m(n, n, [](uint64_t a, uint64_t b) { return f(a, b); });
    bool sym = true;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j < i; ++j) {
            sym = sym && t::IsEqual(f(i, j), f(j, i));
        }
    }
    vf::claim(t::is_symmetric(m) == sym, "symmetric iff every element agrees with its transposed");
}

void ob_function_matrix_hermitian(uint64_t n)
{
    const GM m(n, n, [](uint64_t a, uint64_t b) { return g(a, b); });
    bool herm = true;
    for(uint64_t i = 0; i < n; ++i) {
        for(uint64_t j = 0; j <= i; ++j) {
            herm = herm && t::IsEqual(g(i, j), std::conj(g(j, i)));
        }
    }
    vf::claim(t::is_hermitian(m) == herm,
              "hermitian iff every element agrees with the conjugate of its transposed");
}

void ob_function_matrix_rectangular(uint64_t r, uint64_t c)
{
    vf::assume(r != c);
    const FM m(r, c, [](uint64_t a, uint64_t b) { return f(a, b); });
    vf::claim(!t::is_symmetric(m), "a rectangular matrix is not symmetric");
    vf::claim(!t::is_hermitian(m), "a rectangular matrix is not hermitian");
}

void ob_matrix_symmetric(Dense d)
{
    vf::claim(t::is_quadratic(d) == (d.n == d.m), "quadratic iff rows and columns agree");
    bool sym = d.n == d.m;
    if(sym) {
        for(uint64_t i = 0; i < d.n; ++i) {
            for(uint64_t j = 0; j < i; ++j) {
                sym = sym && t::IsEqual(d(i, j), d(j, i));
            }
        }
    }
    vf::claim(t::is_symmetric(d) == sym, "symmetric iff every element agrees with its transposed");
}

void ob_matrix_hermitian(DenseC d)
{
    bool herm = d.n == d.m;
    if(herm) {
        for(uint64_t i = 0; i < d.n; ++i) {
            for(uint64_t j = 0; j <= i; ++j) {
                herm = herm && t::IsEqual(d(i, j), std::conj(d(j, i)));
            }
        }
    }
    vf::claim(t::is_hermitian(d) == herm,
              "hermitian iff every element agrees with the conjugate of its transposed");
}

void ob_matrix_zero(Dense d, DenseC e)
{
    bool zero = true;
    for(uint64_t i = 0; i < d.n; ++i) {
        for(uint64_t j = 0; j < d.m; ++j) {
            zero = zero && t::IsZero(d(i, j));
        }
    }
    vf::claim(t::IsZero(d) == zero, "a matrix is zero iff every element is");
    bool zc = true;
    for(uint64_t i = 0; i < e.n; ++i) {
        for(uint64_t j = 0; j < e.m; ++j) {
            zc = zc && t::IsZero(e(i, j));
        }
    }
    vf::claim(t::IsZero(e) == zc, "a complex matrix is zero iff every element is");
}
