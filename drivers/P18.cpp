#define NDEBUG
#include "vf.hpp"

#include <complex>

#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"

#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "products.hpp"

// what a sequence of operators makes of the Fermi sea is the subject of P17
uint64_t after(uint64_t state, bool creator, uint64_t k, bool spin, double fermi_energy);
bool is_fermi_sea(uint64_t state);
bool is_excited_sea(uint64_t state);

namespace ieompp
{
    namespace models
    {
        namespace hubbard_momentum_space
        {
            template <>
            struct ExcitedFermiSea<Product> {
                uint64_t state = 0;

                template <typename Dispersion>
                bool apply_operator(const Op& op, const Dispersion&, double fermi_energy = 0.)
                {
                    state = after(state, op.creator, op.index1, op.index2, fermi_energy);
                    return is_fermi_sea(state) || is_excited_sea(state);
                }
                template <typename Dispersion>
                bool apply_monomial(const Product& p, const Dispersion& d, double fermi_energy = 0.)
                {
                    if(p.n == 3) {
                        apply_operator(p.ops[2], d, fermi_energy);
                        apply_operator(p.ops[1], d, fermi_energy);
                    }
                    return apply_operator(p.ops[0], d, fermi_energy);
                }
                bool is_initial_fermi_sea() const { return is_fermi_sea(state); }
            };

            template <>
            struct Basis3Operator<Product> {
                using Monomial   = Product;
                using BasisIndex = uint64_t;
                uint64_t N, q;
                bool conjugated;

                uint64_t size() const { return N * N + 1; }
                Product operator[](uint64_t i) const
                {
                    if(i == 0) {
                        return conjugated ? conjugate_of_one(q) : one(q);
                    }
                    const auto a = first_site(i), b = second_site(i), c = third_site(i);
                    return conjugated ? conjugate_of_three(a, b, c) : three(a, b, c);
                }
            };
        } // namespace hubbard_momentum_space
    }     // namespace models
} // namespace ieompp

#include <algorithm>
#include <vector>

namespace ieompp
{
    namespace models
    {
        namespace hubbard_momentum_space
        {
            template <typename, typename>
            struct NonVanishingExpectationValue;
        } // namespace hubbard_momentum_space
    }     // namespace models
} // namespace ieompp

// the pair of elements under consideration
extern const uint64_t watched_left, watched_right;

// a list that only remembers what has been added for this pair
template <>
class std::vector<
    ieompp::models::hubbard_momentum_space::NonVanishingExpectationValue<uint64_t, float>>
{
public:
    double number = 0., value = 0.;

    template <typename T>
    void emplace_back(const T& c)
    {
        if(c.left_index == watched_left && c.right_index == watched_right) {
            number += 1.;
            value += c.value;
        }
    }
    template <typename T>
    void push_back(const T& c)
    {
        emplace_back(c);
    }
    void reserve(uint64_t) {}
};

#include "ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"
#include "ieompp/models/hubbard_momentum_space/particle_number.hpp"

namespace hms = ieompp::models::hubbard_momentum_space;
using Basis   = hms::Basis3Operator<Product>;
using Values  = hms::NonVanishingExpectationValues<uint64_t, double>;
using Watched = hms::NonVanishingExpectationValues<uint64_t, float>;

struct Dispersion {
    using Float = double;
};

struct Sea {
    uint64_t state;
    double fermi_energy;
    Sea operator()(const Op& op) const
    {
        return Sea{after(state, op.creator, op.index1, op.index2, fermi_energy), fermi_energy};
    }
    bool back() const { return is_fermi_sea(state); }
};

void ob_single(uint64_t N, uint64_t q, double ef)
{
    vf::assume(watched_left == 0 && watched_right == 0);
    const Basis basis{N, q, false}, conj{N, q, true};
    const Watched f(basis, conj, Dispersion(), ef);
    const Sea sea{0, ef};
    const auto x = sea(conj[0][0])(basis[0][0]).back();
    vf::same(f.value, x ? 1. : 0., "value for the first element");
    vf::same(f.number, x ? 1. : 0., "vanishing values are left out");
}

void ob_left(uint64_t N, uint64_t q, double ef)
{
    vf::assume(watched_left >= 1 && watched_left < N * N + 1 && watched_right == 0);
    const auto i = watched_left;
    const Basis basis{N, q, false}, conj{N, q, true};
    const Watched f(basis, conj, Dispersion(), ef);
    const Sea sea{0, ef};
    const auto x = sea(conj[0][0])(basis[i][2])(basis[i][1])(basis[i][0]).back();
    const auto y =
        basis[i][1].index1 == basis[i][2].index1 && sea(conj[0][0])(basis[i][0]).back();
    vf::same(f.value, (x ? 2. : 0.) + (y ? 1. : 0.), "value for three operators and one");
    vf::same(f.number, x || y ? 1. : 0., "vanishing values are left out");
}

void ob_right(uint64_t N, uint64_t q, double ef)
{
    vf::assume(watched_left == 0 && watched_right >= 1 && watched_right < N * N + 1);
    const auto j = watched_right;
    const Basis basis{N, q, false}, conj{N, q, true};
    const Watched f(basis, conj, Dispersion(), ef);
    const Sea sea{0, ef};
    const auto x = sea(conj[j][2])(conj[j][1])(conj[j][0])(basis[0][0]).back();
    const auto y = conj[j][0].index1 == conj[j][1].index1 && sea(conj[j][2])(basis[0][0]).back();
    vf::same(f.value, (x ? 2. : 0.) + (y ? 1. : 0.), "value for one operator and three");
    vf::same(f.number, x || y ? 1. : 0., "vanishing values are left out");
}

void ob_both(uint64_t N, uint64_t q, double ef)
{
    vf::assume(watched_left >= 1 && watched_left < N * N + 1 && watched_right >= 1 && watched_right < N * N + 1);
    const auto i = watched_left, j = watched_right;
    const Basis basis{N, q, false}, conj{N, q, true};
    const Watched f(basis, conj, Dispersion(), ef);
    const Sea sea{0, ef};
    const auto state = sea(conj[j][2])(conj[j][1])(conj[j][0]);
    const auto equal = basis[i][1].index1 == basis[i][2].index1;
    const auto same  = conj[j][0].index1 == conj[j][1].index1;
    const auto a     = state(basis[i][2])(basis[i][1])(basis[i][0]).back();
    const auto b     = equal && state(basis[0][0]).back();
    const auto c = same && sea(conj[0][0])(basis[i][2])(basis[i][1])(basis[i][0]).back();
    const auto d = equal && same && sea(conj[j][2])(basis[i][0]).back();
    vf::same(f.value, (a ? 4. : 0.) + (b ? 2. : 0.) + (c ? 2. : 0.) + (d ? 1. : 0.),
             "value for three operators and three");
    vf::same(f.number, a || b || c || d ? 1. : 0., "vanishing values are left out");
}

void ob_sort(Values values, uint64_t i, uint64_t j)
{
    const Values before = values;
    values.sort();
    vf::assume(i < j && j < values.size());
    const auto& a = values[i];
    const auto& b = values[j];
    vf::claim(a.left_index < b.left_index
                  || (a.left_index == b.left_index && a.right_index <= b.right_index),
              "values are sorted by their left and right indices");
    vf::claim(values.size() == before.size(), "no value gets lost");
}

// the amplitudes of the elements of a basis
struct Amplitudes {
    std::complex<double> operator[](uint64_t i) const { return {real(i), imag(i)}; }
    double real(uint64_t i) const;
    double imag(uint64_t i) const;
};

void ob_number(const hms::ParticleNumber<double, Basis>& n, Amplitudes h)
{
    double sum = 0.;
    for(const auto& c : n.non_vanishing_expectation_values) {
        const auto l = c.left_index, r = c.right_index;
        sum += c.value * (h.real(l) * h.real(r) + h.imag(l) * h.imag(r));
    }
    vf::same(n(h), sum, "particle number is the sum over all contributions");
}

void ob_number_values(uint64_t N, uint64_t q, float ef)
{
    vf::assume(watched_left == 0 && watched_right == 0);
    const Basis basis{N, q, false}, conj{N, q, true};
    const Watched expected(basis, conj, Dispersion(), ef), standard(basis, conj, Dispersion(), 0.);
    const hms::ParticleNumber<float, Basis> n(basis, conj, Dispersion(), ef);
    const auto made = hms::make_particle_number(basis, conj, Dispersion(), ef);
    const hms::ParticleNumber<float, Basis> at_zero(basis, conj, Dispersion());
    vf::same(n.non_vanishing_expectation_values.value, expected.value,
             "particle numbers use the non-vanishing expectation values");
    vf::same(made.non_vanishing_expectation_values.value, expected.value,
             "particle numbers use the non-vanishing expectation values");
    vf::same(at_zero.non_vanishing_expectation_values.value, standard.value,
             "the Fermi energy is zero unless given");
}
