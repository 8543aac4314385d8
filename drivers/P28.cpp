#include "vf.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/symbolic/index.hpp"
#include <cstdint>

using ieompp::algebra::Kronecker;
using Pre = ieompp::symbolic::Prefactor<double>;
using ieompp::algebra::Operator;
using ieompp::algebra::Term;

void ob_delta(Pre p, Kronecker k)
{
    Pre q = p;
    q *= k;
    auto e = p.kroneckers;
    e.push_back(k);
    vf::same(q.kroneckers, e, "multiplying by a delta appends it");
    vf::claim(q.value == p.value, "and keeps the value");
}
void ob_deltas(Pre p, std::vector<Kronecker> k)
{
    Pre q = p;
    q *= k;
    auto e = p.kroneckers;
    for(std::size_t i = 0; i < k.size(); ++i) {
        e.push_back(k[i]);
    }
    vf::same(q.kroneckers, e, "multiplying by deltas appends all of them");
    vf::claim(q.value == p.value, "and keeps the value");
}
void ob_number(Pre p, double x, int s)
{
    Pre q = p;
    q *= x;
    vf::same(q.kroneckers, p.kroneckers, "a number keeps the deltas");
    vf::claim(q.value == p.value * x, "and scales the value");
    Pre r = p;
    r *= s;
    vf::claim(r.value == p.value * s, "an integer scales the value");
    vf::same(r.kroneckers, p.kroneckers, "and keeps the deltas");
}
void ob_product(Pre p, Pre r)
{
    Pre e;
    e.value = p.value * r.value;
    for(std::size_t i = 0; i < p.kroneckers.size(); ++i) {
        e.kroneckers.push_back(p.kroneckers[i]);
    }
    for(std::size_t i = 0; i < r.kroneckers.size(); ++i) {
        e.kroneckers.push_back(r.kroneckers[i]);
    }
    vf::same(p * r, e, "a product multiplies the values and joins the deltas");
    Pre q = p;
    q *= r;
    vf::same(q, e, "multiplying in place gives the product");
    Pre s = p;
    const Pre t = p;
    s *= s;
    vf::same(s, t * t, "a prefactor can be multiplied by itself");
}
void ob_term(Term<Pre, Operator<std::string, bool>> a, Term<Pre, Operator<std::string, bool>> b)
{
    const auto c = a * b;
    vf::same(c.prefactor, a.prefactor * b.prefactor, "terms multiply their symbolic prefactors");
    auto d = a;
    d *= b;
    vf::same(d, c, "in place as well");
}
void ob_make(double x, Kronecker k, Kronecker l)
{
    const auto p = ieompp::symbolic::make_prefactor(x, {k, l});
    vf::claim(p.value == x && p.kroneckers.size() == 2 && p.kroneckers[0] == k
                  && p.kroneckers[1] == l,
              "a made prefactor holds value and deltas in order");
    const auto q = ieompp::symbolic::make_prefactor(x);
    vf::claim(q.value == x && q.kroneckers.size() == 0, "no deltas by default");
}
// normalisation keeps the deltas and makes the result independent of their order
void ob_order_1(Pre p, Kronecker k)
{
    p.kroneckers.clear();
    p.kroneckers.push_back(k);
    Pre q = p;
    q.order_kroneckers();
    vf::claim(q.value == p.value, "the value stays");
    vf::claim(q.kroneckers.size() == 1 && q.kroneckers[0] == k
                  && q.kroneckers[0].a <= q.kroneckers[0].b,
              "a single delta is put in order");
}
void ob_order_2(double x, Kronecker k, Kronecker l)
{
    Pre p{x, {k, l}};
    Pre q{x, {l, k}};
    p.order_kroneckers();
    q.order_kroneckers();
    vf::claim(p.value == x && q.value == x, "the value stays");
    const auto& s = p.kroneckers;
    const auto& t = q.kroneckers;
    vf::claim((s[0] == k && s[1] == l) || (s[0] == l && s[1] == k), "no delta is lost");
    vf::claim(s[0].a == t[0].a && s[0].b == t[0].b && s[1].a == t[1].a && s[1].b == t[1].b,
              "the result does not depend on the order of the deltas");
    vf::claim(s[0].a <= s[0].b && s[1].a <= s[1].b, "every delta is in order");
    vf::claim(s[0].a < s[1].a || (s[0].a == s[1].a && s[0].b <= s[1].b), "deltas are sorted");
}
