// Averages and observables the programs set up.
#include "vf.hpp"

#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include <blaze/Blaze.h>

#define SRC_HUBBARD_LOGGING_HPP_

// nobody reads the log
struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
};
inline Loggers get_loggers() { return Loggers{}; }

#include <ieompp/algebra/monomial.hpp>
#include <ieompp/algebra/operator.hpp>
#include <ieompp/constants.hpp>
#include <ieompp/models/hubbard/dispersion.hpp>
#include <ieompp/models/hubbard_real_space/basis.hpp>
#include <ieompp/models/hubbard_real_space/expectation_value.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump.hpp>
#include <ieompp/models/hubbard_real_space/fermi_jump_no.hpp>
#include <ieompp/models/hubbard_real_space/site_occupation.hpp>

using Op = ieompp::algebra::Operator<uint64_t, bool>;

struct Sites {
    uint64_t id;
};
struct Elements {
    using Monomial = ieompp::algebra::Monomial<Op>;
    uint64_t id;
    uint64_t size() const { return id; }
};
// the average of a product of two operators
struct Average {
    double id;
    double operator()(uint64_t i, uint64_t j) const { return value(id, i, j); }
    static double value(double, uint64_t, uint64_t);
};

namespace ieompp
{
    namespace models
    {
        namespace hubbard_real_space
        {
            // what they are made from
            template <>
            struct ExpectationValue1DHalfFilled<double, Sites> {
                uint64_t lattice;
                double filling, k_F;
                ExpectationValue1DHalfFilled(const Sites& s, const double& f, const double& k)
                    : lattice(s.id), filling(f), k_F(k)
                {
                }
            };
            template <>
            struct ExpectationValue2DHalfFilled<double, Sites> {
                uint64_t lattice;
                ExpectationValue2DHalfFilled(const Sites& s) : lattice(s.id) {}
            };
            template <>
            struct FermiJump1D<double, Elements> {
                uint64_t basis, lattice;
                double average, k_F;
                template <typename F>
                FermiJump1D(const Elements& b, const Sites& s, const F& f, const double& k)
                    : basis(b.id), lattice(s.id), average(f(Op{true, 3, true}, Op{false, 5, true})),
                      k_F(k)
                {
                }
            };
            template <>
            struct FermiJump1D_NO<double, Elements> {
                uint64_t lattice;
                double average;
                template <typename F>
                FermiJump1D_NO(const Sites& s, const F& f)
                    : lattice(s.id), average(f(Op{true, 3, true}, Op{false, 5, true}))
                {
                }
            };
            template <>
            struct SiteOccupation<double, Elements> {
                double average;
                uint64_t basis, conjugate_basis;
                template <typename F>
                SiteOccupation(const F& f, const Elements& a, const Elements& b)
                    : average(f(Op{true, 3, true}, Op{false, 5, true})), basis(a.id),
                      conjugate_basis(b.id)
                {
                }
            };
        } // namespace hubbard_real_space
    }     // namespace models
} // namespace ieompp

#include "../src/hubbard/real_space/fermi_jump.hpp"
#include "../src/hubbard/real_space/site_occupation.hpp"
#undef FERMI_JUMP_HPP_
namespace without_order
{
#include "../src/hubbard/real_space/fermi_jump_no.hpp"
}
namespace on_chains
{
#include "../src/hubbard/real_space/expectation_value_1d.hpp"
}
#undef EXPECTATION_VALUE_HPP_
namespace on_squares
{
#include "../src/hubbard/real_space/expectation_value_2d.hpp"
}

void ob_averages(const Sites& s, double filling)
{
    const auto one = on_chains::init_expectation_value(s, filling);
    vf::claim(one.lattice == s.id, "of the given lattice");
    vf::same(one.filling, filling, "of the given filling");
    vf::same(one.k_F, ieompp::Pi<double>::value * filling, "Fermi momentum of the filling");
    const auto two = on_squares::init_expectation_value(s);
    vf::claim(two.lattice == s.id, "of the given lattice");
}

void ob_jump(const Elements& b, const Sites& s, const Average& ev, double filling)
{
    const auto jump = init_fermi_jump(b, s, ev, filling);
    vf::claim(jump.basis == b.id, "with the given basis");
    vf::claim(jump.lattice == s.id, "on the given lattice");
    vf::same(jump.average, ev(3, 5), "averages of the sites of both operators");
    vf::same(jump.k_F, ieompp::Pi<double>::value * filling, "Fermi momentum of the filling");
}

void ob_jump_no(const Elements& b, const Sites& s, const Average& ev)
{
    const auto jump = without_order::init_fermi_jump(b, s, ev);
    vf::claim(jump.lattice == s.id, "on the given lattice");
    vf::same(jump.average, ev(3, 5), "averages of the sites of both operators");
}

void ob_occupation(const Elements& b, const Elements& c, const Average& ev)
{
    const auto occupation = init_site_occupation(b, c, ev);
    vf::claim(occupation.basis == b.id, "with the given basis");
    vf::claim(occupation.conjugate_basis == c.id, "and the given conjugates");
    vf::same(occupation.average, ev(3, 5), "averages of the sites of both operators");
}
