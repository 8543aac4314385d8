// The programs write what they announce.
#include "vf.hpp"

#include <complex>
#include <cstdint>
#include <fstream>
#include <iostream>
#include <numeric>
#include <sstream>
#include <vector>

// one arbitrary time step of the programs
uint64_t any_step();
inline uint64_t some_step() { return any_step() % 10000; }

// series of complex numbers, of which one is remembered
struct SeriesElement : std::complex<double> {
    std::complex<double>* p;
    bool hit;
    SeriesElement(std::complex<double>* q, bool h)
        : std::complex<double>(h ? *q : std::complex<double>(0.)), p(q), hit(h)
    {
    }
    void operator=(const std::complex<double>& x) const
    {
        if(hit) {
            *p = x;
        }
    }
    void operator+=(const std::complex<double>& x) const
    {
        if(hit) {
            *p += x;
        }
    }
};
namespace std
{
    template <>
    struct vector<complex<double>> {
        complex<double> one;
        uint64_t length;
        vector() : one(0.), length(0) {}
        vector(uint64_t n, complex<double> x) : one(x), length(n) {}
        void resize(uint64_t n)
        {
            one    = 0.;
            length = n;
        }
        SeriesElement operator[](uint64_t i) const
        {
            vf::claim(i < length, "only elements of the series are used");
            return SeriesElement(const_cast<complex<double>*>(&one), i == some_step());
        }
    };
} // namespace std

// tables, of which one line is looked at
struct Table {
    uint64_t wanted, columns, lines, field;
    double cell0, cell1, cell2;
    bool regular;
    Table(uint64_t w, uint64_t c)
        : wanted(w), columns(c), lines(0), field(0), cell0(0.), cell1(0.), cell2(0.), regular(true)
    {
    }
    void number(double x)
    {
        const bool look = lines == wanted;
        cell0           = look && field == 0 ? x : cell0;
        cell1           = look && field == 1 ? x : cell1;
        cell2           = look && field == 2 ? x : cell2;
    }
    void separator(char c)
    {
        regular = regular && (c == '\t' || (c == '\n' && field + 1 == columns));
        lines   = c == '\n' ? lines + 1 : lines;
        field   = c == '\n' ? 0 : field + 1;
    }
};
struct File {
    static constexpr int trunc = 0;
    static Table* table;
    File(const char*) {}
    File(const char*, int) {}
    void close() {}
    File& operator<<(double x)
    {
        table->number(x);
        return *this;
    }
    File& operator<<(uint64_t x)
    {
        table->number(x);
        return *this;
    }
    File& operator<<(int x)
    {
        table->number(x);
        return *this;
    }
    File& operator<<(char c)
    {
        table->separator(c);
        return *this;
    }
};
Table* File::table;

#include <boost/math/special_functions/bessel.hpp>
#include <boost/program_options.hpp>

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/constants.hpp>
#include <ieompp/lattices/periodic_chain.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/openmp.hpp>

// a chain, its basis and its correlations, which are the subjects of P08, P10 and P31
using Op      = ieompp::algebra::Operator<uint64_t, bool>;
using Product = ieompp::algebra::Monomial<Op>;
struct Site {
    uint64_t index1;
};
struct SiteProduct {
    Site site;
    const Site& front() const { return site; }
};
uint64_t distance_of(uint64_t, uint64_t);

// of the correlations one is looked at, the others vanish
uint64_t any_site(uint64_t);
double correlation();
inline uint64_t some_site(uint64_t i) { return any_site(i) % 128; }

struct Chain {
    Chain(uint64_t, double) {}
    uint64_t lattice_distance(uint64_t a, uint64_t b) const { return distance_of(a, b); }
};
struct Sites {
    Sites(const Chain&) {}
    SiteProduct operator[](uint64_t i) const { return SiteProduct{Site{i}}; }
};
struct Correlations {
    static double* filling;
    static double* momentum;
    Correlations(const Chain&, double f, double k_F)
    {
        *filling  = f;
        *momentum = k_F;
    }
    double operator()(uint64_t a, uint64_t b) const
    {
        return a == some_site(0) && b == some_site(1) ? correlation() : 0.;
    }
};
double* Correlations::filling;
double* Correlations::momentum;
namespace program_theory
{
    namespace ieompp
    {
        using namespace ::ieompp;
        namespace lattices
        {
            template <typename Float>
            using PeriodicChain = Chain;
        }
        namespace models
        {
            namespace hubbard
            {
                using namespace ::ieompp::models::hubbard;
            }
            namespace hubbard_real_space
            {
                template <typename Monomial>
                using Basis1Operator = Sites;
                template <typename Float, typename Lattice>
                using ExpectationValue1DHalfFilled = Correlations;
            } // namespace hubbard_real_space
        }     // namespace models
        namespace algebra
        {
            using namespace ::ieompp::algebra;
        }
    } // namespace ieompp
} // namespace program_theory

namespace std
{
    using ofstream_file = ::File;
}
#define ofstream ofstream_file
#define main kinetic_theory_main
namespace program_theory
{
#include "../src/hubbard/hubbard_real_1d_kinetic_theory.cpp"
}
using program_theory::minus_i_power;
#undef main
#define main dispersion_main
namespace program_dispersion
{
#include "../src/hubbard/hubbard_dispersion_1d.cpp"
}
#undef main
#undef ofstream

void ob_powers(uint64_t q)
{
    vf::same(minus_i_power(4 * q).real(), 1., "(-i)^4q = 1");
    vf::same(minus_i_power(4 * q).imag(), 0., "(-i)^4q = 1");
    vf::same(minus_i_power(4 * q + 1).real(), 0., "(-i)^(4q+1) = -i");
    vf::same(minus_i_power(4 * q + 1).imag(), -1., "(-i)^(4q+1) = -i");
    vf::same(minus_i_power(4 * q + 2).real(), -1., "(-i)^(4q+2) = -1");
    vf::same(minus_i_power(4 * q + 2).imag(), 0., "(-i)^(4q+2) = -1");
    vf::same(minus_i_power(4 * q + 3).real(), 0., "(-i)^(4q+3) = i");
    vf::same(minus_i_power(4 * q + 3).imag(), 1., "(-i)^(4q+3) = i");
}

void ob_kinetic_theory()
{
    // only the values of one step are looked at
    const auto step = some_step();
    Table out(step, 3);
    double filling = 0., momentum = 0.;
    File::table            = &out;
    Correlations::filling  = &filling;
    Correlations::momentum = &momentum;
    program_theory::kinetic_theory_main();
    const auto time = 2. * step * 0.01;
    const auto i    = distance_of(0, some_site(0));
    const auto j    = distance_of(0, some_site(1));
    const auto h_i  = boost::math::cyl_bessel_j(i, time) * minus_i_power(i);
    const auto h_j  = boost::math::cyl_bessel_j(j, time) * minus_i_power(j);
    const auto sum  = correlation() * h_i * std::conj(h_j);
    vf::claim(out.regular, "numbers are separated by tabulators and lines");
    vf::claim(out.lines == 10000, "one line for every step");
    vf::same(out.cell0, step * 0.01, "time");
    vf::same(filling, 0.5, "half filling");
    vf::same(momentum, ieompp::HalfPi<double>::value, "Fermi momentum at half filling");
    vf::same(out.cell1, sum.real(), "real part");
    vf::same(out.cell2, sum.imag(), "imaginary part");
}

void ob_dispersion(uint64_t k)
{
    vf::assume(k < 1024);
    Table out(k, 2);
    File::table = &out;
    program_dispersion::dispersion_main();
    const ieompp::lattices::PeriodicChain<double> zone(1024), chain(1024, 1.);
    vf::claim(out.regular, "numbers are separated by tabulators and lines");
    vf::claim(out.lines == 1024, "one line for every momentum");
    vf::same(out.cell0, zone[k], "momentum");
    vf::same(out.cell1, -2. * std::cos(zone[k]), "energy");
}
