#include "vf.hpp"
#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include <cstdint>
#include <string>
#include <vector>

using namespace ieompp::algebra;
using Op  = Operator<uint64_t, bool>;
using T   = Term<double, Op>;
using SOp = Operator<std::string, bool>;
using Pre = ieompp::symbolic::Prefactor<double>;
using ST  = Term<Pre, SOp>;

// contraction of operator k of a with operator l of b (counted from zero)
template <typename TermT>
void contraction(const TermT& a, const TermT& b, std::size_t k, std::size_t l, TermT& t)
{
    const std::size_t n = a.operators.size(), m = b.operators.size();
    // b_l moves to the left through l operators, the rest of b to the left of the n-1-k others
    if((l + m * (n - 1 - k)) % 2 == 1) {
        t.prefactor *= -1;
    }
    for(std::size_t i = 0; i < k; ++i) {
        t.operators.push_back(a.operators[i]);
    }
    for(std::size_t i = 0; i < l; ++i) {
        t.operators.push_back(b.operators[i]);
    }
    for(std::size_t i = l + 1; i < m; ++i) {
        t.operators.push_back(b.operators[i]);
    }
    for(std::size_t i = k + 1; i < n; ++i) {
        t.operators.push_back(a.operators[i]);
    }
}

void ob_numeric(T a, T b, std::vector<T> c)
{
    // precondition of the function: not both products are fermionic
    vf::assume((a.operators.size() * b.operators.size()) % 2 == 0);
    auto d = c;
    commutate(a, b, d);
    auto e = c;
    for(std::size_t k = 0; k < a.operators.size(); ++k) {
        for(std::size_t l = 0; l < b.operators.size(); ++l) {
            const auto& x = a.operators[k];
            const auto& y = b.operators[l];
            if(x.creator != y.creator && x.index1 == y.index1 && x.index2 == y.index2) {
                T t;
                t.prefactor = a.prefactor * b.prefactor;
                contraction(a, b, k, l, t);
                e.push_back(t);
            }
        }
    }
    vf::same(d, e, "the commutator is the signed sum of all single contractions");
}

void ob_symbolic(ST a, ST b, std::vector<ST> c)
{
    vf::assume((a.operators.size() * b.operators.size()) % 2 == 0);
    auto d = c;
    commutate(a, b, d);
    auto e = c;
    for(std::size_t k = 0; k < a.operators.size(); ++k) {
        for(std::size_t l = 0; l < b.operators.size(); ++l) {
            const auto& x = a.operators[k];
            const auto& y = b.operators[l];
            if(x.creator != y.creator && x.index2 == y.index2) {
                ST t;
                t.prefactor = a.prefactor * b.prefactor;
                contraction(a, b, k, l, t);
                if(x.index1 != y.index1) {
                    t.prefactor.kroneckers.push_back(Kronecker{x.index1, y.index1});
                }
                e.push_back(t);
            }
        }
    }
    vf::same(d, e, "contractions of symbolic operators carry their delta");
}

// small concrete shapes, written out
void ob_one_one(Op x, Op y, double p, double q)
{
    vf::assume(!x.creator && y.creator && x.index1 == y.index1 && x.index2 == y.index2);
    // [n, y] for n = y x
    std::vector<T> c;
    T a{p, {y, x}};
    T b{q, {y}};
    commutate(a, b, c);
    vf::claim(c.size() == 1, "one contraction");
    vf::claim(c[0].prefactor == p * q, "with positive sign");
    vf::claim(c[0].operators.size() == 1 && c[0].operators[0] == y, "leaves the creator");
    std::vector<T> d;
    commutate(T{p, {y, x}}, T{q, {x}}, d);
    vf::claim(d.size() == 1 && d[0].prefactor == -p * q, "annihilators get a negative sign");
}

// both arguments may be the same object
void ob_self(T a, std::vector<T> c)
{
    vf::assume((a.operators.size() * a.operators.size()) % 2 == 0);
    auto d = c;
    commutate(a, a, d);
    const T b = a;
    auto e = c;
    commutate(a, b, e);
    vf::same(d, e, "the arguments may be the same term");
}
