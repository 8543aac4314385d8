#include "vf.hpp"
#include "ieompp/algebra/anticommutator.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include <cstdint>
#include <string>

using namespace ieompp::algebra;
using Op1 = Operator<uint64_t>;
using Op2 = Operator<uint64_t, bool>;
using Op3 = Operator<uint64_t, bool, int>;
using S1  = Operator<std::string>;
using S2  = Operator<std::string, bool>;
using S2b = Operator<bool, std::string>;
using SS  = Operator<std::string, std::string>;
using S3  = Operator<std::string, bool, std::string>;
using S3b = Operator<bool, std::string, int>;
using Pre = ieompp::symbolic::Prefactor<double>;

// numeric indices: {a, b} = delta of all indices for a creator and an annihilator
void ob_numeric_1(Op1 a, Op1 b)
{
    vf::claim(anticommutates(a, b) == !(a.creator != b.creator && a.index == b.index),
              "operators with one index anticommute unless they are conjugate");
    vf::claim(anticommutates(a, b) == anticommutates(b, a), "the predicate is symmetric");
}
void ob_numeric_2(Op2 a, Op2 b)
{
    vf::claim(anticommutates(a, b)
                  == !(a.creator != b.creator && a.index1 == b.index1 && a.index2 == b.index2),
              "operators with two indices anticommute unless they are conjugate");
    vf::claim(anticommutates(a, b) == anticommutates(b, a), "the predicate is symmetric");
    vf::claim(anticommutates(a, b) == !a.is_conjugate(b), "same as not being conjugate");
}
void ob_numeric_3(Op3 a, Op3 b)
{
    vf::claim(anticommutates(a, b)
                  == !(a.creator != b.creator && std::get<0>(a.indices) == std::get<0>(b.indices)
                       && std::get<1>(a.indices) == std::get<1>(b.indices)
                       && std::get<2>(a.indices) == std::get<2>(b.indices)),
              "operators with three indices anticommute unless they are conjugate");
    vf::claim(anticommutates(a, b) == anticommutates(b, a), "the predicate is symmetric");
}
// symbolic indices can always coincide, numeric ones decide
void ob_symbolic_1(S1 a, S1 b)
{
    vf::claim(anticommutates(a, b) == (a.creator == b.creator),
              "a symbolic index never makes operators anticommute");
}
void ob_symbolic_2(S2 a, S2 b)
{
    vf::claim(anticommutates(a, b) == (a.creator == b.creator || a.index2 != b.index2),
              "only the numeric index decides");
    vf::claim(anticommutates(a, b) == anticommutates(b, a), "the predicate is symmetric");
}
void ob_symbolic_2b(S2b a, S2b b)
{
    vf::claim(anticommutates(a, b) == (a.creator == b.creator || a.index1 != b.index1),
              "only the numeric index decides");
}
void ob_symbolic_ss(SS a, SS b)
{
    vf::claim(anticommutates(a, b) == (a.creator == b.creator),
              "symbolic indices never make operators anticommute");
}
void ob_symbolic_3(S3 a, S3 b)
{
    vf::claim(anticommutates(a, b)
                  == (a.creator == b.creator || std::get<1>(a.indices) != std::get<1>(b.indices)),
              "only the numeric index decides");
    vf::claim(anticommutates(a, b) == anticommutates(b, a), "the predicate is symmetric");
}
void ob_symbolic_3b(S3b a, S3b b)
{
    vf::claim(anticommutates(a, b)
                  == (a.creator == b.creator || std::get<0>(a.indices) != std::get<0>(b.indices)
                      || std::get<2>(a.indices) != std::get<2>(b.indices)),
              "only the numeric indices decide");
}

// the value of the anticommutator: one delta per pair of differing symbolic indices
template <typename T>
void add(std::vector<Kronecker>& v, const T& a, const T& b)
{
    if(a != b) {
        v.push_back(Kronecker{a, b});
    }
}
void ob_deltas_1(S1 a, S1 b, Pre p)
{
    Pre q = p;
    anticommutator<Term<Pre, S1>>(a, b, q);
    auto k = p.kroneckers;
    add(k, a.index, b.index);
    vf::same(q.kroneckers, k, "delta of the single index");
    vf::same(q.value, p.value, "the value of the prefactor stays");
}
void ob_deltas_2(S2 a, S2 b, Pre p)
{
    Pre q = p;
    anticommutator<Term<Pre, S2>>(a, b, q);
    auto k = p.kroneckers;
    add(k, a.index1, b.index1);
    vf::same(q.kroneckers, k, "delta of the symbolic index only");
    vf::same(q.value, p.value, "the value of the prefactor stays");
}
void ob_deltas_2b(S2b a, S2b b, Pre p)
{
    Pre q = p;
    anticommutator<Term<Pre, S2b>>(a, b, q);
    auto k = p.kroneckers;
    add(k, a.index2, b.index2);
    vf::same(q.kroneckers, k, "delta of the symbolic index only");
}
void ob_deltas_ss(SS a, SS b, Pre p)
{
    Pre q = p;
    anticommutator<Term<Pre, SS>>(a, b, q);
    auto k = p.kroneckers;
    add(k, a.index1, b.index1);
    add(k, a.index2, b.index2);
    vf::same(q.kroneckers, k, "one delta for each pair of differing indices");
    vf::same(q.value, p.value, "the value of the prefactor stays");
}
void ob_deltas_3(S3 a, S3 b, Pre p)
{
    Pre q = p;
    anticommutator<Term<Pre, S3>>(a, b, q);
    auto k = p.kroneckers;
    add(k, std::get<0>(a.indices), std::get<0>(b.indices));
    add(k, std::get<2>(a.indices), std::get<2>(b.indices));
    vf::same(q.kroneckers, k, "one delta for each pair of differing symbolic indices");
}
void ob_deltas_numeric(Op2 a, Op2 b, double p)
{
    double q = p;
    anticommutator<Term<double, Op2>>(a, b, q);
    vf::claim(q == p, "numeric operators contribute the factor one");
}
