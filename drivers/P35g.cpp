// Integration of the chain in momentum space.
#include "vf.hpp"

#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <iostream>
#include <string>
#include <vector>

#define MOMENTUM_SPACE_HPP_
#define IEOMPP_MODELS_HUBBARD_MOMENTUM_SPACE_BASIS_HPP_
#define IEOMPP_MODELS_HUBBARD_MOMENTUM_SPACE_PARTICLE_NUMBER_HPP_

// what the program prints
struct PrintedNumbers {
    std::vector<double> numbers;
    void flush() {}
};
static PrintedNumbers* printed;
struct NumberSink {
    void flush() {}
};
inline NumberSink operator<<(NumberSink s, double x)
{
    printed->numbers.push_back(x);
    return s;
}
inline NumberSink operator<<(NumberSink s, char) { return s; }
inline NumberSink operator<<(NumberSink s, const char*) { return s; }
namespace std
{
    static NumberSink number_out;
} // namespace std
#define cout number_out
#define endl '\n'

#include "../stubs/programs.hpp"

namespace any
{
    double energy(double J, double U, uint64_t sites, uint64_t k);
} // namespace any

struct EnergyBand {
    double J;
    uint64_t sites;
};
static bool matrix_written;

namespace ieompp
{
    namespace models
    {
        namespace hubbard_momentum_space
        {
            template <typename MonomialT>
            struct Basis3Operator {
                using Monomial = MonomialT;
                static constexpr uint64_t operators = 3;
                uint64_t sites;
                bool conjugates;
                template <typename Zone>
                Basis3Operator(uint64_t k, const Zone& zone) : sites(zone.size()), conjugates(false)
                {
                    vf::claim(k == option::count("N") / 2, "of the momentum in the middle");
                }
                Basis3Operator get_conjugate() const
                {
                    Basis3Operator c(*this);
                    c.conjugates = !conjugates;
                    return c;
                }
                uint64_t size() const { return any::elements(sites) % 1000 + 1; }
            };
            struct MomentumLiouvillian {
                EnergyBand dispersion;
                double J, U;
            };
            template <typename Zone, typename Lattice>
            MomentumLiouvillian make_liouvillian(const Zone& zone, const Lattice& lattice, double J,
                                                 double U)
            {
                vf::claim(zone.size() == lattice.size(), "as many momenta as sites");
                return MomentumLiouvillian{EnergyBand{J, zone.size()}, J, U};
            }
            template <typename Float, typename Basis>
            struct ParticleNumber {
                ParticleNumber(const Basis& basis, const Basis& other, const EnergyBand& band,
                               const Float& fermi_energy)
                {
                    vf::claim(!basis.conjugates && other.conjugates,
                              "with the basis and its conjugate");
                    vf::claim(basis.sites == run->sites && other.sites == run->sites
                                  && band.sites == run->sites,
                              "of the same lattice");
                    vf::same(band.J, option::real("J"), "energies of the given hopping");
                    vf::same(fermi_energy, 0., "at half filling");
                }
                template <typename Vector>
                Float operator()(const Vector& h) const
                {
                    return any::observable(h.steps);
                }
            };
        } // namespace hubbard_momentum_space
    }     // namespace models
} // namespace ieompp

inline void write_matrix_file(const std::string& path, const StateMatrix& M)
{
    vf::claim(M.dimension == run->size, "the matrix is written");
    matrix_written = true;
}

#include "../src/hubbard/hubbard_momentum_1d_rk4.cpp"

void ob_run(int argc, char** argv)
{
    Run r(false);
    PrintedNumbers p;
    printed        = &p;
    matrix_written = false;
    run            = &r;
    r.measures     = false;
    r.sites        = option::count("N");
    r.size         = any::elements(r.sites) % 1000 + 1;
    vf::assume(option::real("dt") > 0.);
    vf::claim(program(argc, argv) == 0, "the program succeeds");
    vf::claim(matrix_written, "the matrix is written");
    vf::claim(p.numbers.size() == 2, "two numbers are printed");
    vf::same(p.numbers[0], any::observable(0), "the first is that of the initial vector");
    vf::same(p.numbers[1], any::observable(8), "the second that after eight steps");
    vf::claim(r.steps == 8, "eight steps");
}
