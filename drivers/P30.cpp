// What the programs set up from their options.
#include "vf.hpp"

#include <cmath>
#include <complex>
#include <cstdint>
#include <fstream>
#include <functional>
#include <regex>
#include <sstream>
#include <string>
#include <vector>

#include <blaze/Blaze.h>

#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_APPLICATION_HPP_

// nobody reads the log
struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
};
inline Loggers get_loggers() { return Loggers{}; }

struct Value {
    template <typename T>
    T as() const;
};
struct Application {
    struct Variables {
        Value operator[](const char*) const { return Value{}; }
    } variables;
    std::string output_path, checkpoint_prefix;
};

namespace any
{
    uint64_t row();
    uint64_t column();
    uint64_t non_zeros();
    double re(uint64_t, uint64_t);
    double im(uint64_t, uint64_t);
    double number(uint64_t, uint64_t);
} // namespace any

using Complex = std::complex<double>;

// of a complex matrix one element is remembered
namespace blaze
{
    template <>
    class CompressedMatrix<Complex, rowMajor>
    {
    public:
        using ElementType = Complex;
        uint64_t m, n;
        Complex element;

        CompressedMatrix(uint64_t r, uint64_t c) : m(r), n(c), element(0.) {}
        uint64_t rows() const { return m; }
        uint64_t columns() const { return n; }
        uint64_t nonZeros() const { return any::non_zeros(); }
        void operator*=(const Complex& z) { element = element * z; }
    };
} // namespace blaze
using Matrix = blaze::CompressedMatrix<Complex, blaze::rowMajor>;

// a model, its basis and its lattice, for which the assembly is given
struct Model {
    uint64_t id;
};
struct Elements {
    uint64_t n;
    uint64_t size() const { return n; }
};
struct Sites {
    uint64_t id;
};
struct Average {
    uint64_t id;
};

inline Complex assembled(uint64_t which, uint64_t model)
{
    return Complex(any::re(which, model), any::im(which, model));
}

namespace ieompp
{
    namespace models
    {
        namespace hubbard_real_space
        {
            inline void init_matrix(const Model& l, Matrix& m, const Elements&, const Sites& s)
            {
                m.element = assembled(10 + s.id, l.id);
            }
            inline void init_kinetic_matrix(const Model& l, Matrix& m, const Elements&,
                                            const Sites& s)
            {
                m.element = assembled(20 + s.id, l.id);
            }
            inline void init_matrix_no(const Model& l, Matrix& m, const Elements&, const Sites& s,
                                       const Average& e)
            {
                m.element = assembled(30 + s.id, l.id) + assembled(40, e.id);
            }
            inline void init_kinetic_matrix_no(const Model& l, Matrix& m, const Elements&,
                                               const Sites& s)
            {
                m.element = assembled(50 + s.id, l.id);
            }
        } // namespace hubbard_real_space
        namespace hubbard_momentum_space
        {
            inline void init_matrix(const Model& l, Matrix& m, const Elements&, const Sites& s)
            {
                m.element = assembled(60 + s.id, l.id);
            }
        } // namespace hubbard_momentum_space
    }     // namespace models
} // namespace ieompp

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/lattices/periodic_square_lattice.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_momentum_space/basis.hpp>
#include <ieompp/models/hubbard_momentum_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse.hpp>
#include <ieompp/models/hubbard_real_space/blaze_sparse_no.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump_no.hpp>
#include <ieompp/models/hubbard_real_space/liouvillian.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>
#include <ieompp/ode/rk4.hpp>

#include "../src/hubbard/include/common.hpp"
#include "../src/hubbard/include/rk4.hpp"
#include "../src/hubbard/include/vector.hpp"
#include "../src/hubbard/real_space/liouvillian.hpp"
#include "../src/hubbard/real_space/matrix.hpp"
#include "../src/hubbard/real_space/periodic_chain.hpp"
#undef MATRIX_HPP_
namespace without_order
{
#include "../src/hubbard/real_space/matrix_no.hpp"
}
namespace on_squares
{
#include "../src/hubbard/real_space/periodic_square_lattice.hpp"
}
namespace in_momentum_space
{
#include "../src/hubbard/momentum_space/momentum_space.hpp"
}

void is_i_times(const Matrix& m, uint64_t n, const Complex& x)
{
    vf::claim(m.rows() == n, "one row for every element of the basis");
    vf::claim(m.columns() == n, "one column for every element of the basis");
    vf::same(m.element.real(), -x.imag(), "real part of i times the element");
    vf::same(m.element.imag(), x.real(), "imaginary part of i times the element");
}

void ob_matrix(const Model& l, const Elements& b, const Sites& s)
{
    is_i_times(compute_matrix(l, b, s), b.n, assembled(10 + s.id, l.id));
}

void ob_kinetic_matrix(const Model& l, const Elements& b, const Sites& s)
{
    is_i_times(compute_kinetic_matrix(l, b, s), b.n, assembled(20 + s.id, l.id));
}

void ob_matrix_no(const Model& l, const Elements& b, const Sites& s, const Average& e)
{
    is_i_times(without_order::compute_matrix(l, b, s, e), b.n,
               assembled(30 + s.id, l.id) + assembled(40, e.id));
}

void ob_kinetic_matrix_no(const Model& l, const Elements& b, const Sites& s)
{
    is_i_times(without_order::compute_kinetic_matrix(l, b, s), b.n,
               assembled(50 + s.id, l.id));
}

void ob_momentum_matrix(const Model& l, const Elements& b, const Sites& s)
{
    is_i_times(in_momentum_space::compute_matrix(l, b, s), b.n, assembled(60 + s.id, l.id));
}

void ob_first_coefficient(const Elements& b, uint64_t i)
{
    vf::assume(i < b.n);
    const auto h = init_vector(b);
    vf::claim(h.size() == b.n, "one coefficient for every element of the basis");
    vf::same(h[i].real(), i == 0 ? 1. : 0., "the first coefficient is one, all others vanish");
    vf::same(h[i].imag(), 0., "coefficients are real");
}

void ob_liouvillian(double J, double U)
{
    vf::same(init_liouvillian(J, U).J, J, "hopping");
    vf::same(init_liouvillian(J, U).U, U, "interaction");
    vf::same(init_liouvillian(J).J, J, "hopping");
    vf::same(init_liouvillian(J).U, 0., "no interaction");
}

void ob_integrator(uint64_t n, double dt)
{
    const auto rk4 = init_rk4(n, dt);
    vf::claim(rk4.dimension() == n, "dimension of the equation");
    vf::same(rk4.step_size(), dt, "step width");
}

void ob_chain(uint64_t n, double dx)
{
    vf::assume(n > 1);
    const auto l = init_lattice(n, dx);
    vf::claim(l.size() == n, "number of sites");
    vf::same(l[1ul] - l[0ul], dx, "distance of the sites");
    vf::same(init_lattice(n)[1ul] - init_lattice(n)[0ul], 1., "distance of the sites");
}

void ob_square(uint64_t n, uint64_t m, double dx, double dy)
{
    vf::assume(n > 1 && m > 1);
    const auto l = on_squares::init_lattice(n, m, dx, dy);
    vf::claim(l.size() == n * m, "number of sites");
    vf::claim(l.size_x() == n, "columns of sites");
    vf::claim(l.size_y() == m, "rows of sites");
    vf::same(l.dx(), dx, "distance of the columns");
    vf::same(l.dy(), dy, "distance of the rows");
}

// times are whole numbers of steps up to rounding
void ob_interval(uint64_t k, uint64_t n, double last, double dt, double rounding)
{
    vf::assume(dt > 0.);
    vf::assume(rounding > -0.5);
    vf::assume(rounding < 0.5);
    vf::assume(n > 0);
    const double t = last + (k + rounding) * dt;
    vf::claim(has_time_interval_passed(t, last, dt, n) == (k >= n),
              "passed if at least so many steps have been made");
}
