#include "vf.hpp"

#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/operator/get_index.hpp"
#include "ieompp/algebra/operator/make.hpp"
#include "ieompp/algebra/operator/operator.hpp"

#include <algorithm>
#include <list>
#include <tuple>
#include "ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp"

namespace hms = ieompp::models::hubbard_momentum_space;
using namespace ieompp::algebra;
using Op  = Operator<uint64_t, bool>;
using Mon = Monomial<Op>;
using Sea = hms::ExcitedFermiSea<Mon>;
using Idx = std::tuple<uint64_t, bool>;

// an arbitrary dispersion relation
struct Disp {
    using Float = double;
    double operator()(uint64_t k) const;
};

std::size_t count(const std::list<Idx>& l, const Idx& x)
{
    std::size_t n = 0;
    for(const auto& y : l) {
        if(y == x) {
            ++n;
        }
    }
    return n;
}

bool contains(const std::list<Idx>& l, const Idx& x)
{
    return std::find(l.begin(), l.end(), x) != l.end();
}

bool present(const Sea& s, const Disp& d, double ef, const Idx& x)
{
    return d(std::get<0>(x)) < ef ? !contains(s.annihilated_particles, x)
                                  : contains(s.created_particles, x);
}

void ob_occupied(Disp d, double ef, uint64_t k, bool spin)
{
    vf::claim(Sea::is_initially_occupied(Idx(k, spin), d, ef) == (d(k) < ef),
              "the states below the Fermi energy are occupied");
}

void ob_empty(Sea s)
{
    const Sea fresh;
    vf::claim(fresh.is_initial_fermi_sea(), "a new state is the Fermi sea");
    vf::claim(!fresh.vanishes, "a new state does not vanish");
    vf::claim(s.is_initial_fermi_sea()
                  == (!s.vanishes && s.created_particles.empty() && s.annihilated_particles.empty()),
              "a state is the Fermi sea exactly if nothing is excited");
}

// the four reasons for the outcome of creating or annihilating x, for arbitrary other excitations
void ob_create_blocked_inside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) < ef && !contains(s.annihilated_particles, x));
    const Sea old(s);
    vf::claim(!s.create_particle(x, d, ef), "a particle inside of the sea cannot be created");
    vf::claim(s.vanishes, "the state vanishes");
    vf::same(s.created_particles, old.created_particles, "a failure changes no particle");
    vf::same(s.annihilated_particles, old.annihilated_particles, "a failure changes no hole");
}
void ob_create_outside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) >= ef && !contains(s.created_particles, x));
    Sea e(s);
    vf::claim(s.create_particle(x, d, ef), "a particle can be created outside of the sea");
    vf::claim(!s.vanishes, "the state does not vanish");
    e.created_particles.push_back(x);
    vf::same(s.created_particles, e.created_particles, "the particle is recorded");
    vf::same(s.annihilated_particles, e.annihilated_particles, "holes are left alone");
}
void ob_create_blocked_outside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) >= ef && contains(s.created_particles, x));
    const Sea old(s);
    vf::claim(!s.create_particle(x, d, ef), "a created particle cannot be created again");
    vf::claim(s.vanishes, "the state vanishes");
    vf::same(s.created_particles, old.created_particles, "a failure changes no particle");
    vf::same(s.annihilated_particles, old.annihilated_particles, "a failure changes no hole");
}
void ob_create_inside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) < ef && contains(s.annihilated_particles, x));
    const Sea old(s);
    vf::claim(s.create_particle(x, d, ef), "a hole can be filled");
    vf::claim(!s.vanishes, "the state does not vanish");
    std::list<Idx> e(old.annihilated_particles);
    e.erase(std::find(e.begin(), e.end(), x));
    vf::same(s.annihilated_particles, e, "the hole is removed");
    vf::same(s.created_particles, old.created_particles, "particles are left alone");
}
void ob_annihilate_blocked_inside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) < ef && contains(s.annihilated_particles, x));
    const Sea old(s);
    vf::claim(!s.annihilate_particle(x, d, ef), "a hole cannot be annihilated");
    vf::claim(s.vanishes, "the state vanishes");
    vf::same(s.created_particles, old.created_particles, "a failure changes no particle");
    vf::same(s.annihilated_particles, old.annihilated_particles, "a failure changes no hole");
}
void ob_annihilate_inside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) < ef && !contains(s.annihilated_particles, x));
    Sea e(s);
    vf::claim(s.annihilate_particle(x, d, ef), "a particle of the sea can be annihilated");
    vf::claim(!s.vanishes, "the state does not vanish");
    e.annihilated_particles.push_back(x);
    vf::same(s.annihilated_particles, e.annihilated_particles, "the hole is recorded");
    vf::same(s.created_particles, e.created_particles, "particles are left alone");
}
void ob_annihilate_blocked_outside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) >= ef && !contains(s.created_particles, x));
    const Sea old(s);
    vf::claim(!s.annihilate_particle(x, d, ef), "an absent particle cannot be annihilated");
    vf::claim(s.vanishes, "the state vanishes");
    vf::same(s.created_particles, old.created_particles, "a failure changes no particle");
    vf::same(s.annihilated_particles, old.annihilated_particles, "a failure changes no hole");
}
void ob_annihilate_outside(Sea s, Disp d, double ef, uint64_t k, bool spin)
{
    const Idx x(k, spin);
    vf::assume(!s.vanishes && d(k) >= ef && contains(s.created_particles, x));
    const Sea old(s);
    vf::claim(s.annihilate_particle(x, d, ef), "a created particle can be annihilated");
    vf::claim(!s.vanishes, "the state does not vanish");
    std::list<Idx> e(old.created_particles);
    e.erase(std::find(e.begin(), e.end(), x));
    vf::same(s.created_particles, e, "the particle is removed");
    vf::same(s.annihilated_particles, old.annihilated_particles, "holes are left alone");
}
void ob_vanished(Sea s, Disp d, double ef, Op op, Mon m)
{
    s.vanishes = true;
    const Sea old(s);
    const Idx x(op.index1, op.index2);
    vf::claim(!s.create_particle(x, d, ef), "nothing is created in a vanished state");
    vf::claim(!s.annihilate_particle(x, d, ef), "nothing is annihilated in a vanished state");
    vf::claim(!s.apply_operator(op, d, ef), "no operator revives a vanished state");
    vf::claim(!s.apply_monomial(m, d, ef), "no product revives a vanished state");
    vf::claim(s.vanishes, "a vanished state stays vanished");
    vf::claim(!s.is_initial_fermi_sea(), "a vanished state is not the Fermi sea");
    vf::same(s.created_particles, old.created_particles, "a vanished state keeps its particles");
    vf::same(s.annihilated_particles, old.annihilated_particles, "and its holes");
}

void sorted(Sea& s)
{
    s.created_particles.sort();
    s.annihilated_particles.sort();
}
bool act(Sea& s, const Disp& d, double ef, const Op& op)
{
    const Idx x(op.index1, op.index2);
    return op.creator ? s.create_particle(x, d, ef) : s.annihilate_particle(x, d, ef);
}
void ob_apply_operator(Sea s, Disp d, double ef, Op op)
{
    Sea t(s);
    const bool r = s.apply_operator(op, d, ef);
    const bool e = act(t, d, ef, op);
    vf::claim(r == e, "operators create or annihilate");
    vf::claim(s.vanishes == t.vanishes, "and let the state vanish alike");
    if(e) {
        sorted(t);
        vf::same(s.created_particles, t.created_particles, "the same particles are created");
        vf::same(s.annihilated_particles, t.annihilated_particles, "the same holes are left");
    }
}
void ob_apply_empty(Sea s, Disp d, double ef)
{
    Sea t(s);
    const bool r = t.apply_monomial(Mon{}, d, ef);
    vf::claim(r == !s.vanishes, "the identity keeps the state");
    vf::claim(t.created_particles.size() == s.created_particles.size()
                  && t.annihilated_particles.size() == s.annihilated_particles.size(),
              "the identity excites nothing");
}
void ob_apply_one(Sea s, Disp d, double ef, Op op)
{
    Sea t(s);
    const bool r = s.apply_monomial(Mon{op}, d, ef);
    const bool e = act(t, d, ef, op);
    vf::claim(r == e && s.vanishes == t.vanishes, "a single operator");
    if(e) {
        sorted(t);
        vf::same(s.created_particles, t.created_particles, "the same particles are created");
        vf::same(s.annihilated_particles, t.annihilated_particles, "the same holes are left");
    }
}

// products acting on the Fermi sea: the rightmost operator acts first
template <std::size_t N>
void product(const Op (&ops)[N], const Disp& d, double ef)
{
    Sea s, t;
    Mon m;
    for(std::size_t i = 0; i < N; ++i) {
        m.push_back(ops[i]);
    }
    const bool r = s.apply_monomial(m, d, ef);
    bool e       = true;
    for(std::size_t i = 0; i < N; ++i) {
        e = e && act(t, d, ef, ops[N - 1 - i]);
    }
    vf::claim(r == e, "the operators are applied from right to left");
    vf::claim(s.vanishes == t.vanishes, "and let the state vanish alike");
    vf::claim(s.is_initial_fermi_sea() == t.is_initial_fermi_sea(), "and return to the sea alike");
}
void ob_pair_ca(Disp d, double ef, uint64_t k, bool s, uint64_t q, bool t)
{
    const Op ops[2] = {Op{true, k, s}, Op{false, q, t}};
    product(ops, d, ef);
    Sea x;
    x.apply_monomial(Mon{ops[0], ops[1]}, d, ef);
    vf::claim(x.is_initial_fermi_sea() == (k == q && s == t && d(q) < ef),
              "a number operator measures the occupation of the sea");
}
void ob_pair_ac(Disp d, double ef, uint64_t k, bool s, uint64_t q, bool t)
{
    const Op ops[2] = {Op{false, k, s}, Op{true, q, t}};
    product(ops, d, ef);
    Sea x;
    x.apply_monomial(Mon{ops[0], ops[1]}, d, ef);
    vf::claim(x.is_initial_fermi_sea() == (k == q && s == t && d(q) >= ef),
              "a hole operator measures the empty states");
}
void ob_pair_cc(Disp d, double ef, uint64_t k, bool s, uint64_t q, bool t)
{
    const Op ops[2] = {Op{true, k, s}, Op{true, q, t}};
    product(ops, d, ef);
    Sea x;
    vf::claim(x.apply_monomial(Mon{ops[0], ops[1]}, d, ef)
                  == (d(k) >= ef && d(q) >= ef && !(k == q && s == t)),
              "two different particles can be created outside of the sea");
}
void ob_pair_aa(Disp d, double ef, uint64_t k, bool s, uint64_t q, bool t)
{
    const Op ops[2] = {Op{false, k, s}, Op{false, q, t}};
    product(ops, d, ef);
    Sea x;
    vf::claim(x.apply_monomial(Mon{ops[0], ops[1]}, d, ef)
                  == (d(k) < ef && d(q) < ef && !(k == q && s == t)),
              "two different particles can be annihilated in the sea");
}
// four operators of two states
void ob_four(Disp d, double ef, uint64_t k, uint64_t q)
{
    vf::assume(k < q);
    Sea x, y;
    const Op a{true, k, true}, b{false, k, true}, c{true, q, true}, e{false, q, true};
    vf::claim(x.apply_monomial(Mon{a, b, c, e}, d, ef) == (d(k) < ef && d(q) < ef),
              "two number operators measure both occupations");
    vf::claim(x.is_initial_fermi_sea() == (d(k) < ef && d(q) < ef), "and return to the sea");
    vf::claim(y.apply_monomial(Mon{a, e, c, b}, d, ef) == (d(k) < ef && d(q) >= ef),
              "an exchange of two states is possible in one order");
    vf::claim(y.is_initial_fermi_sea() == (d(k) < ef && d(q) >= ef), "and returns to the sea");
}
