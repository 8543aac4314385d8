#pragma once
// What the programs that integrate equations of motion are made of: every part remembers
// what it was made from, and asks that it is given what belongs together.
#include "vf.hpp"

#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <iostream>
#include <string>

// (the function and the log of the same name)
#define main program

#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_APPLICATION_HPP_
#define SRC_COMMON_HPP_
#define VECTOR_HPP_
#define MATRIX_HPP_
#define IEOMPP_LATICES_PERIODIC_CHAIN_HPP_
#define IEOMPP_LATTICES_PERIODIC_SQUARE_LATTICE_HPP_
#define IEOMPP_ODE_RK4_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_BASIS_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_EXPECTATION_VALUE_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_FERMI_JUMP_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_FERMI_JUMP_1D_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_FERMI_JUMP_2D_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_LIOUVILLIAN_HPP_
#define IEOMPP_MODELS_HUBBARD_REAL_SPACE_SITE_OCCUPATION_HPP_

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/constants.hpp>

using Operator = ieompp::algebra::Operator<uint64_t, bool>;
using Monomial = ieompp::algebra::Monomial<Operator>;

// the options of the program
namespace option
{
    double real(const char* key);
    uint64_t count(const char* key);
} // namespace option

namespace any
{
    // the observable after some steps, the coefficients of the vector, the averages
    double observable(uint64_t steps);
    double re(uint64_t steps, uint64_t i);
    double im(uint64_t steps, uint64_t i);
    double average(double filling, uint64_t i, uint64_t j);
    // after which steps a measurement is due
    bool due(uint64_t steps);
    uint64_t elements(uint64_t sites);
    uint64_t coefficient();
} // namespace any

// the types of options
template <typename T>
struct TypeOf {
    static constexpr uint64_t number = 0;
};
template <>
struct TypeOf<double> {
    static constexpr uint64_t number = 1;
};
template <>
struct TypeOf<uint64_t> {
    static constexpr uint64_t number = 2;
};

// the options that are declared until the program reads its command line
struct Declared {
    const char* keys[16];
    uint64_t types[16];
    bool defaults[16];
    uint64_t count;
    bool common, parsed;
    Declared() : count(0), common(false), parsed(false) {}
    void declare(const char* key, uint64_t type, bool has_default)
    {
        vf::claim(!parsed, "options are declared before the command line is read");
        for(uint64_t i = 0; i < count; ++i) {
            vf::claim(keys[i] != key, "no option is declared twice");
        }
        keys[count]     = key;
        types[count]    = type;
        defaults[count] = has_default;
        count           = count + 1;
    }
    bool readable(const char* key, uint64_t type) const
    {
        for(uint64_t i = 0; i < count; ++i) {
            if(keys[i] == key) {
                return types[i] == type && defaults[i];
            }
        }
        return false;
    }
};

// what the run has done up to now
struct Run {
    // steps of the integrator, lines of the output, time of the last of them
    uint64_t steps, lines;
    double last;
    // whether lines are written, and one for the present state
    bool measures, measured;
    // line being written
    uint64_t field;
    double time, value, other;
    // what a line holds: the observable, or all coefficients
    bool coefficients;
    uint64_t sites, size;
    Declared options;
    Run(bool c)
        : steps(0), lines(0), last(0.), measures(true), measured(false), field(0), time(-1.), value(0.),
          other(0.), coefficients(c), sites(0), size(0)
    {
    }
    // the first state is measured always
    bool due() const { return steps > 0 && any::due(steps); }
    bool complete() const { return !measures || measured || !(steps == 0 || due()); }
    void finish() const
    {
        vf::claim(complete(), "the last state is measured if it is due");
        vf::claim(field == 0, "no line is left unfinished");
        vf::claim(steps * option::real("dt") >= option::real("t_end"),
                  "the run ends at the end of the simulation");
        vf::claim(steps == 0 || (steps - 1) * option::real("dt") < option::real("t_end"),
                  "and no step later");
    }
};
static Run* run;

struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
};
inline Loggers get_loggers() { return Loggers{}; }

struct OptionValue {
    const char* key;
    template <typename T>
    T as() const;
};
template <>
inline double OptionValue::as<double>() const
{
    vf::claim(run->options.readable(key, 1), "a number that is read is declared with a default");
    return option::real(key);
}
template <>
inline uint64_t OptionValue::as<uint64_t>() const
{
    vf::claim(run->options.readable(key, 2), "a count that is read is declared with a default");
    return option::count(key);
}
template <typename T>
struct Default {
    bool given;
    const Default* operator->() const { return this; }
    Default default_value(const T&) const { return Default{true}; }
};
template <typename T>
Default<T> make_value(const T&)
{
    return Default<T>{true};
}
template <typename T>
Default<T> make_value()
{
    return Default<T>{false};
}
struct OptionsDescription {
    OptionsDescription& add_options() { return *this; }
    template <typename T>
    OptionsDescription& operator()(const char* key, const Default<T>& value, const char*)
    {
        run->options.declare(key, TypeOf<T>::number, value.given);
        return *this;
    }
    OptionsDescription& operator()(const char* key, const char*)
    {
        run->options.declare(key, 3, false);
        return *this;
    }
};
struct OutputFile {
    void flush() {}
    void number(double x)
    {
        const uint64_t c = any::coefficient() % run->size;
        const uint64_t f = run->field;
        run->time        = f == 0 ? x : run->time;
        run->value       = f == (run->coefficients ? 2 * c + 1 : 1) ? x : run->value;
        run->other       = f == 2 * c + 2 ? x : run->other;
    }
    void separator(char c)
    {
        const uint64_t s = run->steps;
        if(c == '\t') {
            run->field = run->field + 1;
            return;
        }
        vf::claim(c == '\n', "fields are separated by tabulators");
        vf::claim(!run->measured && (s == 0 || run->due()), "a line is only written when it is due");
        vf::same(run->time, s * option::real("dt"), "a line starts with the time of the state");
        if(run->coefficients) {
            const uint64_t w = any::coefficient() % run->size;
            vf::claim(run->field == 2 * run->size, "two numbers for each coefficient");
            vf::same(run->value, any::re(s, w), "real parts of the coefficients");
            vf::same(run->other, any::im(s, w), "imaginary parts of the coefficients");
        } else {
            vf::claim(run->field == 1, "two numbers in each line");
            vf::same(run->value, any::observable(s), "the observable of the state");
        }
        run->measured = true;
        run->last     = run->time;
        run->lines    = run->lines + 1;
        run->field    = 0;
        run->time     = -1.;
    }
};
inline OutputFile& operator<<(OutputFile& f, double x)
{
    f.number(x);
    return f;
}
inline OutputFile& operator<<(OutputFile& f, int x)
{
    f.number(x);
    return f;
}
inline OutputFile& operator<<(OutputFile& f, char x)
{
    f.separator(x);
    return f;
}
inline OutputFile& operator<<(OutputFile& f, const char* x)
{
    const std::string text(x);
    f.separator(text == "\t" ? '\t' : (text == "\n" ? '\n' : ' '));
    return f;
}
struct Application {
    static std::string name, description;
    static OptionsDescription options_description;
    struct Variables {
        OptionValue operator[](const char* key) const { return OptionValue{key}; }
    } variables;
    std::string output_path, matrix_path, checkpoint_prefix;
    OutputFile output_file;
    Application(int, char**)
    {
        vf::claim(run->options.common, "every program knows the common options");
        run->options.parsed = true;
    }
    static void add_default_options()
    {
        vf::claim(!run->options.parsed, "options are declared before the command line is read");
        run->options.common = true;
    }
};
std::string Application::name        = "";
std::string Application::description = "";
OptionsDescription Application::options_description;

template <typename Float>
bool has_time_interval_passed(const Float& t, const Float& last, const Float& dt, uint64_t interval)
{
    vf::same(t, run->steps * option::real("dt"), "asks for the time of the state");
    vf::same(last, run->last, "asks for the time since the last line");
    vf::same(dt, option::real("dt"), "time is counted in steps");
    vf::claim(interval == option::count("measurement_interval"), "of the given interval");
    return run->due();
}

// lattices, bases and averages of them
namespace ieompp
{
    namespace lattices
    {
        template <typename Float, typename Site = uint64_t>
        struct PeriodicChain {
            uint64_t sites;
            PeriodicChain(uint64_t n, const Float& dx = 1.) : sites(n)
            {
                vf::claim(n == option::count("N"), "a chain of the given length");
                vf::same(dx, Float(1), "of lattice constant 1");
            }
            uint64_t size() const { return sites; }
        };
        template <typename Float, typename Site = uint64_t>
        struct PeriodicSquareLattice {
            struct Vector {
                Float x, y;
            };
            uint64_t sites;
            PeriodicSquareLattice(uint64_t nx, uint64_t ny, const Float& dx, const Float& dy)
                : sites(nx * ny)
            {
                vf::claim(nx == option::count("Nx"), "a square lattice of the given width");
                vf::claim(ny == option::count("Ny"), "and height");
                vf::same(dx, Float(1), "of lattice constant 1");
                vf::same(dy, Float(1), "of lattice constant 1");
            }
            uint64_t size() const { return sites; }
        };
    } // namespace lattices

    namespace ode
    {
        template <typename Float>
        struct RK4 {
            uint64_t dimension;
            Float dt;
            RK4(uint64_t n, const Float& h) : dimension(n), dt(h) {}
            const Float& step_size() const { return dt; }
            template <typename Matrix, typename Vector>
            void step(const Matrix& M, Vector& h) const
            {
                vf::claim(run->complete(), "a state is measured before it is left if it is due");
                vf::same(dt, option::real("dt"), "the integrator makes the given steps");
                vf::claim(dimension == h.size() && M.rows() == h.size(),
                          "integrator, matrix and vector are of the same size");
                h.steps    = h.steps + 1;
                run->steps    = run->steps + 1;
                run->measured = false;
                vf::claim(h.steps == run->steps, "only one vector is integrated");
            }
        };
    } // namespace ode

    namespace models
    {
        namespace hubbard_real_space
        {
            template <typename MonomialT, uint64_t Operators>
            struct RealSpaceBasis {
                using Monomial = MonomialT;
                static constexpr uint64_t operators = Operators;
                uint64_t sites;
                bool conjugates;
                template <typename Lattice>
                explicit RealSpaceBasis(const Lattice& lattice)
                    : sites(lattice.size()), conjugates(false)
                {
                }
                RealSpaceBasis get_conjugate() const
                {
                    RealSpaceBasis c(*this);
                    c.conjugates = !conjugates;
                    return c;
                }
                uint64_t size() const { return any::elements(sites) % 1000 + 1; }
            };
            template <typename MonomialT>
            using Basis1Operator = RealSpaceBasis<MonomialT, 1>;
            template <typename MonomialT>
            using Basis3Operator = RealSpaceBasis<MonomialT, 3>;

            template <typename Float>
            struct Liouvillian {
                Float J, U;
            };
            template <typename Float>
            Liouvillian<Float> make_liouvillian(const Float& J, const Float& U)
            {
                return Liouvillian<Float>{J, U};
            }

            template <typename Float, typename Lattice>
            struct ExpectationValue1DHalfFilled {
                Float filling;
                ExpectationValue1DHalfFilled(const Lattice& lattice, const Float& f, const Float& k)
                    : filling(f)
                {
                    vf::claim(lattice.size() == option::count("N"), "averages of the lattice");
                    vf::same(f, option::real("filling_factor"), "of the given filling");
                    vf::same(k, ieompp::Pi<Float>::value * f, "Fermi momentum of the filling");
                }
                Float operator()(uint64_t i, uint64_t j) const
                {
                    return any::average(filling, i, j);
                }
            };
            template <typename Float, typename Lattice>
            struct ExpectationValue2DHalfFilled {
                explicit ExpectationValue2DHalfFilled(const Lattice& lattice)
                {
                    vf::claim(lattice.size() == option::count("Nx") * option::count("Ny"),
                              "averages of the lattice");
                }
                Float operator()(uint64_t i, uint64_t j) const { return any::average(0.5, i, j); }
            };

            // the averages an observable is given
            template <typename F>
            void expect_averages(const F& f, double filling)
            {
                vf::same(f(Operator{true, 3, true}, Operator{false, 5, true}),
                         any::average(filling, 3, 5), "averages of the sites of both operators");
            }
            template <typename Float, typename Basis>
            struct SiteOccupation {
                template <typename F, typename B, typename C>
                SiteOccupation(const F& f, const B& b, const C& c)
                {
                    const Basis& basis = b;
                    const Basis& other = c;
                    expect_averages(f, option::real("filling_factor"));
                    vf::claim(!basis.conjugates && other.conjugates,
                              "with the basis and its conjugate");
                    vf::claim(basis.sites == run->sites && other.sites == run->sites,
                              "of the same lattice");
                }
                template <typename Vector>
                Float operator()(const Vector& h) const
                {
                    return any::observable(h.steps);
                }
            };
            template <typename Float, typename Basis>
            struct FermiJump1D {
                template <typename Lattice, typename F>
                FermiJump1D(const Basis& basis, const Lattice& lattice, const F& f, const Float& k)
                {
                    expect_averages(f, option::real("filling_factor"));
                    vf::claim(!basis.conjugates && basis.sites == run->sites
                                  && lattice.size() == run->sites,
                              "with the basis of the lattice");
                    vf::same(k, ieompp::Pi<Float>::value * option::real("filling_factor"),
                             "at the Fermi momentum of the filling");
                }
                template <typename Vector>
                Float operator()(const Vector& h) const
                {
                    return any::observable(h.steps);
                }
            };
            template <typename Float, typename Basis>
            struct FermiJump2D {
                template <typename Lattice, typename F, typename V>
                FermiJump2D(const Basis& basis, const Lattice& lattice, const F& f, const V& k)
                {
                    expect_averages(f, 0.5);
                    vf::claim(!basis.conjugates && basis.sites == run->sites
                                  && lattice.size() == run->sites,
                              "with the basis of the lattice");
                    vf::same(k.x, option::real("kx"), "at the given momentum");
                    vf::same(k.y, option::real("ky"), "at the given momentum");
                }
                template <typename Vector>
                Float operator()(const Vector& h) const
                {
                    return any::observable(h.steps);
                }
            };
        } // namespace hubbard_real_space
    }     // namespace models
} // namespace ieompp

// the state: its coefficients depend on the number of steps
struct StateVector {
    struct Coefficient {
        uint64_t steps, index;
        double real() const { return any::re(steps, index); }
        double imag() const { return any::im(steps, index); }
    };
    struct Iterator {
        uint64_t steps, index;
        Coefficient operator*() const { return Coefficient{steps, index}; }
        Iterator& operator++()
        {
            ++index;
            return *this;
        }
        bool operator!=(const Iterator& rhs) const { return index != rhs.index; }
    };
    uint64_t steps, dimension;
    uint64_t size() const { return dimension; }
    Coefficient operator[](uint64_t i) const { return Coefficient{steps, i}; }
    Iterator begin() const { return Iterator{steps, 0}; }
    Iterator end() const { return Iterator{steps, dimension}; }
};
template <typename Basis>
StateVector init_vector(const Basis& basis)
{
    vf::claim(!basis.conjugates && basis.sites == run->sites, "a vector for the basis");
    return StateVector{0, basis.size()};
}

// the matrix, of the model the program is about
struct StateMatrix {
    uint64_t dimension;
    uint64_t rows() const { return dimension; }
};
template <typename Liouvillian, typename Basis, typename Lattice>
StateMatrix model_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lattice)
{
    vf::same(L.J, option::real("J"), "hopping of the given strength");
    vf::claim(!basis.conjugates && basis.sites == lattice.size(), "a matrix for the basis");
    vf::claim(lattice.size() == run->sites, "on the lattice");
    return StateMatrix{basis.size()};
}
template <typename Liouvillian, typename Basis, typename Lattice>
StateMatrix compute_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lattice)
{
    vf::claim(Basis::operators == 3, "interaction needs products of three operators");
    vf::same(L.U, option::real("U"), "interaction of the given strength");
    return model_matrix(L, basis, lattice);
}
template <typename Liouvillian, typename Basis, typename Lattice>
StateMatrix compute_kinetic_matrix(const Liouvillian& L, const Basis& basis, const Lattice& lattice)
{
    vf::claim(Basis::operators == 1, "single operators without interaction");
    vf::same(L.U, 0., "no interaction");
    return model_matrix(L, basis, lattice);
}
