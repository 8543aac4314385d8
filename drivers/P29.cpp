#include "vf.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include <cstdint>
#include <vector>

using namespace ieompp::algebra;
using Op1 = Operator<uint64_t>;
using Op2 = Operator<uint64_t, bool>;
using Op3 = Operator<uint64_t, int, bool>;
using T1  = Term<double, Op1>;
using T2  = Term<double, Op2>;

void ob_creations(T2 t, Term<double, Op3> u)
{
    int n = 0;
    for(std::size_t i = 0; i < t.operators.size(); ++i) {
        n += t.operators[i].creator ? 1 : -1;
    }
    vf::claim(total_creations(t) == n, "creators minus annihilators");
    int k = 0;
    for(std::size_t i = 0; i < u.operators.size(); ++i) {
        k += u.operators[i].creator ? 1 : -1;
    }
    vf::claim(total_creations(u) == k, "creators minus annihilators");
}
void ob_spin(T2 t, Term<double, Op3> u)
{
    int s = 0;
    for(std::size_t i = 0; i < t.operators.size(); ++i) {
        const auto& op = t.operators[i];
        s += (op.creator ? 1 : -1) * (op.index2 ? 1 : -1);
    }
    vf::claim(total_spin<1>(t) == s, "creators add their spin, annihilators remove it");
    int r = 0;
    for(std::size_t i = 0; i < u.operators.size(); ++i) {
        const auto& op = u.operators[i];
        r += (op.creator ? 1 : -1) * (std::get<2>(op.indices) ? 1 : -1);
    }
    vf::claim(total_spin<2>(u) == r, "the chosen index holds the spin");
}
void ob_momentum(T2 t, ieompp::lattices::PeriodicChain<double> chain)
{
    for(std::size_t i = 0; i < t.operators.size(); ++i) {
        vf::assume(t.operators[i].index1 < chain.size());
    }
    double q = 0;
    for(std::size_t i = 0; i < t.operators.size(); ++i) {
        const auto& op = t.operators[i];
        q += (op.creator ? 1 : -1) * chain[op.index1];
    }
    vf::claim(total_momentum<0>(t, chain) == q, "creators add their momentum, annihilators remove it");
}

// collecting equal terms
void ob_unique_0(T1 a, std::vector<T1> r)
{
    std::vector<T1> in, out = r;
    copy_as_unique_terms(in, out);
    vf::same(out, r, "nothing comes from nothing");
    in.push_back(a);
    copy_as_unique_terms(in, out);
    auto e = r;
    e.push_back(a);
    vf::same(out, e, "a single term is copied behind the earlier results");
}
void ob_unique_2(Op1 a, Op1 b, double p, double q)
{
    std::vector<T1> in{T1{p, {a}}, T1{q, {b}}}, out;
    copy_as_unique_terms(in, out);
    if(a == b) {
        vf::claim(out.size() == 1, "terms with the same operators are collected");
        vf::claim(out[0].prefactor == p + q, "their prefactors are added");
        vf::claim(out[0].operators.size() == 1 && out[0].operators[0] == a,
                  "and keep their operators");
    } else {
        vf::claim(out.size() == 2, "different terms stay apart");
        const std::size_t i = OperatorSmaller<Op1>{}(a, b) ? 0 : 1;
        vf::claim(out[i].prefactor == p && out[i].operators[0] == a
                      && out[1 - i].prefactor == q && out[1 - i].operators[0] == b,
                  "sorted by their operators");
    }
}
// a term is never collected with a longer one
void ob_unique_length(Op1 a, Op1 b, double p, double q)
{
    std::vector<T1> in{T1{p, {a, b}}, T1{q, {a}}}, out;
    copy_as_unique_terms(in, out);
    vf::claim(out.size() == 2, "different lengths stay apart");
    vf::claim(out[0].operators.size() == 1 && out[0].prefactor == q, "shorter terms first");
    vf::claim(out[1].operators.size() == 2 && out[1].prefactor == p, "longer terms last");
}
// three terms made of a single operator each
void ob_unique_3(Op1 a, Op1 b, double p, double q, double r)
{
    std::vector<T1> in{T1{p, {a}}, T1{q, {b}}, T1{r, {a}}}, out;
    copy_as_unique_terms(in, out);
    if(a == b) {
        vf::claim(out.size() == 1 && out[0].prefactor == p + q + r, "all three collected");
    } else {
        vf::claim(out.size() == 2, "the first and the last are collected");
        const std::size_t i = OperatorSmaller<Op1>{}(a, b) ? 0 : 1;
        vf::claim(out[i].prefactor == p + r && out[i].operators[0] == a
                      && out[1 - i].prefactor == q && out[1 - i].operators[0] == b,
                  "prefactors of equal terms are added, the others stay");
    }
}

// different products of two operators with a common first one, in every order of arrival
template <typename F>
void arrivals(F f)
{
    f(0, 1, 2);
    f(0, 2, 1);
    f(1, 0, 2);
    f(1, 2, 0);
    f(2, 0, 1);
    f(2, 1, 0);
}
void ob_unique_orders(Op1 z, uint64_t x, uint64_t y, uint64_t w, double p, double q, double r)
{
    vf::assume(x < y && y < w);
    const uint64_t idx[3] = {x, y, w};
    const double pre[3]   = {p, q, r};
    arrivals([&](int a, int b, int c) {
        std::vector<T1> in, out;
        for(int k : {a, b, c}) {
            in.push_back(T1{pre[k], {z, Op1{false, idx[k]}}});
        }
        copy_as_unique_terms(in, out);
        vf::claim(out.size() == 3, "three different terms stay three terms");
        for(int k = 0; k < 3; ++k) {
            vf::claim(out[k].operators.size() == 2 && out[k].operators[0] == z
                          && out[k].operators[1].index == idx[k] && out[k].prefactor == pre[k],
                      "every term is found at its place");
        }
        // the same terms once more in another order
        for(int k : {b, c, a}) {
            in.push_back(T1{pre[k], {z, Op1{false, idx[k]}}});
        }
        std::vector<T1> again;
        copy_as_unique_terms(in, again);
        vf::claim(again.size() == 3, "repeated terms are joined");
        for(int k = 0; k < 3; ++k) {
            vf::claim(again[k].operators.size() == 2 && again[k].operators[1].index == idx[k]
                          && again[k].prefactor == 2 * pre[k],
                      "repeated terms add their prefactors");
        }
    });
}
void ob_unique_mixed(uint64_t x, uint64_t y, uint64_t w, double p, double q, double r)
{
    vf::assume(x < y && y < w);
    const Op1 a{true, x}, b{true, y}, c{true, w}, d{false, x}, e{false, y};
    std::vector<T1> in{T1{p, {b}}, T1{q, {a, e}}, T1{r, {a}}, T1{p, {a, d}}, T1{q, {}}, T1{r, {c}},
                       T1{r, {a, e}}, T1{p, {a, d, e}}, T1{p, {}}},
        out;
    copy_as_unique_terms(in, out);
    vf::claim(out.size() == 7, "one term per product");
    const double sums[7]      = {p + q, r, p, r, p, q + r, p};
    const std::size_t lens[7] = {0, 1, 1, 1, 2, 2, 3};
    for(int k = 0; k < 7; ++k) {
        vf::claim(out[k].operators.size() == lens[k], "shorter products first");
        vf::claim(out[k].prefactor == sums[k], "sum of the prefactors");
    }
    vf::claim(out[1].operators[0] == a && out[2].operators[0] == b && out[3].operators[0] == c,
              "single operators in order");
    vf::claim(out[4].operators[1] == d && out[5].operators[1] == e, "pairs in order");
}
