#include "vf.hpp"

#include <complex>

#include "ieompp/models/hubbard_real_space/basis.hpp"

#include "products.hpp"

#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

namespace hrs  = ieompp::models::hubbard_real_space;
using Basis1   = hrs::Basis1Operator<Product>;
using Basis3   = hrs::Basis3Operator<Product>;
using Function = std::function<double(const Op&, const Op&)>;

// all expectation values are given by the sites of a creator and an annihilator of equal spin
double contraction(const Function& f, uint64_t a, uint64_t b, bool spin)
{
    return f(Op{true, a, spin}, Op{false, b, spin});
}

void ob_one(Function f, const Basis1& basis, const Basis1& conj, uint64_t a, uint64_t b)
{
    const hrs::SiteOccupation<double, Basis1> n{f, basis, conj};
    vf::same(n.expectation_value(one(a), conjugate_of_one(b)), 2 * contraction(f, a, b, true),
             "product of two operators");
}

void ob_one_one(Function f, const Basis3& basis, const Basis3& conj, uint64_t a, uint64_t b)
{
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, true};
    const auto expected = 2 * contraction(f, a, b, true);
    vf::same(n.expectation_value_1_1(one(a), conjugate_of_one(b)), expected,
             "product of two operators");
    vf::same(n.expectation_value(one(a), conjugate_of_one(b)), expected,
             "product of two operators");
}

// the normal ordered products are twice the products without their expectation value at half filling
void ob_one_three(Function f, const Basis3& basis, const Basis3& conj, uint64_t a, uint64_t b,
                  uint64_t c, uint64_t d)
{
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, true};
    const auto expected = 4 * contraction(f, a, b, true)
                          * (contraction(f, d, c, false) - (c == d ? .5 : 0.));
    vf::same(n.expectation_value_1_3(one(a), conjugate_of_three(b, c, d)), expected,
             "products of one and three operators");
    vf::same(n.expectation_value(one(a), conjugate_of_three(b, c, d)), expected,
             "products of one and three operators");
}

void ob_three_one(Function f, const Basis3& basis, const Basis3& conj, uint64_t a, uint64_t b,
                  uint64_t c, uint64_t d)
{
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, true};
    const auto expected = 4 * contraction(f, a, d, true)
                          * (contraction(f, b, c, false) - (b == c ? .5 : 0.));
    vf::same(n.expectation_value_3_1(three(a, b, c), conjugate_of_one(d)), expected,
             "products of three and one operators");
    vf::same(n.expectation_value(three(a, b, c), conjugate_of_one(d)), expected,
             "products of three and one operators");
}

void ob_three_three(Function f, const Basis3& basis, const Basis3& conj, uint64_t a, uint64_t b,
                    uint64_t c, uint64_t d, uint64_t e, uint64_t g)
{
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, true};
    // <(b+ c - delta/2) (g+ e - delta/2)> for the spins pointing down
    const auto first  = contraction(f, b, c, false) - (b == c ? .5 : 0.);
    const auto second = contraction(f, g, e, false) - (g == e ? .5 : 0.);
    const auto mixed  = contraction(f, b, e, false)
                       * ((c == g ? 1. : 0.) - contraction(f, g, c, false));
    const auto expected = 8 * contraction(f, a, d, true) * (first * second + mixed);
    vf::same(n.expectation_value_3_3(three(a, b, c), conjugate_of_three(d, e, g)), expected,
             "products of three operators");
    vf::same(n.expectation_value(three(a, b, c), conjugate_of_three(d, e, g)), expected,
             "products of three operators");
}
