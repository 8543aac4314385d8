#include "vf.hpp"
#include "ieompp/algebra/kronecker.hpp"
#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/string.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/tuple.hpp"
#include "ieompp/types/function_matrix.hpp"
#include <cstdint>
#include <sstream>
#include <string>

using namespace ieompp::algebra;
using Op1 = Operator<uint64_t>;
using Op2 = Operator<uint64_t, bool>;
using Op3 = Operator<uint64_t, int, bool>;
using S2  = Operator<std::string, bool>;
using S1  = Operator<std::string>;
using Pre = ieompp::symbolic::Prefactor<double>;

void ob_op1(Op1 a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << a.index << "}";
    vf::same(s.str(), e.str(), "type and index are printed");
}
void ob_s1(S1 a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << a.index << "}";
    vf::same(s.str(), e.str(), "type and index are printed");
}
void ob_op2(Op2 a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << a.index1 << "," << (a.index2 ? "↑" : "↓") << "}";
    vf::same(s.str(), e.str(), "type, index and spin arrow are printed");
}
void ob_s2(S2 a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << a.index1 << "," << (a.index2 ? "↑" : "↓") << "}";
    vf::same(s.str(), e.str(), "type, index and spin arrow are printed");
}
void ob_op3(Op3 a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << std::get<0>(a.indices) << ","
      << std::get<1>(a.indices) << "," << (std::get<2>(a.indices) ? "↑" : "↓") << "}";
    vf::same(s.str(), e.str(), "all indices are printed in order");
}
void ob_monomial(Op2 a, Op2 b, Op2 c)
{
    std::ostringstream s0, s1, s3, e1, e3;
    s0 << Monomial<Op2>{};
    vf::same(s0.str(), std::string(""), "an empty monomial prints nothing");
    s1 << Monomial<Op2>{a};
    e1 << a;
    vf::same(s1.str(), e1.str(), "a single operator");
    s3 << Monomial<Op2>{a, b, c};
    e3 << a << " " << b << " " << c;
    vf::same(s3.str(), e3.str(), "operators are separated by blanks");
}
void ob_term(double p, Op2 a, Op2 b)
{
    using T = Term<double, Op2>;
    std::ostringstream s0, s1, s2, e0, e1, e2;
    s0 << T{p, {}};
    e0 << p << u8" ⋅ ";
    vf::same(s0.str(), e0.str(), "a term without operators prints its prefactor");
    s1 << T{p, {a}};
    e1 << p << u8" ⋅ " << a;
    vf::same(s1.str(), e1.str(), "a single operator");
    s2 << T{p, {a, b}};
    e2 << p << u8" ⋅ " << a << " " << b;
    vf::same(s2.str(), e2.str(), "operators in order");
}
void ob_monomial_any(Monomial<Op1> m)
{
    std::ostringstream s;
    s << m;
    vf::claim(true, "printing any monomial stays inside it");
}
void ob_term_any(Term<Pre, S1> t)
{
    std::ostringstream s;
    s << t;
    vf::claim(true, "printing any term stays inside it");
}
void ob_prefactor(double v, Kronecker k, Kronecker l)
{
    std::ostringstream s0, s1, s2, e0, e1, e2;
    s0 << Pre{v, {}};
    e0 << v;
    vf::same(s0.str(), e0.str(), "a prefactor without deltas prints its value");
    vf::assume(v != 1);
    vf::assume(v != -1);
    s1 << Pre{v, {k}};
    e1 << v << u8" ⋅ " << k;
    vf::same(s1.str(), e1.str(), "value and delta");
    s2 << Pre{v, {k, l}};
    e2 << v << u8" ⋅ " << k << " " << l;
    vf::same(s2.str(), e2.str(), "value and deltas in order");
}
void ob_prefactor_one(Kronecker k, Kronecker l)
{
    std::ostringstream s0, s1, e0, e1, s2;
    s0 << Pre{1., {k, l}};
    e0 << k << " " << l;
    vf::same(s0.str(), e0.str(), "the factor one is left out");
    s1 << Pre{-1., {k}};
    e1 << "-" << k;
    vf::same(s1.str(), e1.str(), "the factor minus one is a sign");
}
void ob_kronecker(Kronecker k)
{
    std::ostringstream s, e;
    s << k;
    e << "δ_{" << k.a << "," << k.b << "}";
    vf::same(s.str(), e.str(), "both indices are printed");
}
void ob_tuple(int a, uint64_t b, std::string c, std::string d, std::string l, std::string r)
{
    std::ostringstream s1, s3, s, e1, e3, e;
    ieompp::print_tuple(s3, std::make_tuple(a, b, c));
    e3 << "(" << a << "," << b << "," << c << ")";
    vf::same(s3.str(), e3.str(), "every element once");
    ieompp::print_tuple(s1, std::make_tuple(a));
    e1 << "(" << a << ")";
    vf::same(s1.str(), e1.str(), "a single element");
    ieompp::print_tuple(s, std::make_tuple(a, c), d, l, r);
    e << l << a << d << c << r;
    vf::same(s.str(), e.str(), "custom delimiters");
}
void ob_compose(int a, std::string b, double c)
{
    std::ostringstream e;
    e << a << b << c;
    vf::same(ieompp::compose(a, b, c), e.str(), "composed text holds all parts in order");
}
void ob_index(int i, std::string n)
{
    using namespace ieompp::symbolic;
    vf::same(SpaceIndex(i).index, "r_" + std::to_string(i), "space index");
    vf::same(MomentumIndex(i).index, "k_" + std::to_string(i), "momentum index");
    vf::same(SpinIndex(i).index, "σ_" + std::to_string(i), "spin index");
    vf::same(SpaceIndex(n).index, n, "named index");
    vf::claim(SpaceIndex().index == "r" && MomentumIndex().index == "k", "default names");
    const SpaceIndex a(n), b(i);
    vf::claim((a == b) == (a.index == b.index) && (a != b) == (a.index != b.index), "comparison");
    std::ostringstream s;
    s << a;
    vf::same(s.str(), n, "an index prints its name");
}

// rows of a matrix in lines
namespace any
{
    double element(uint64_t row, uint64_t col);
}
void ob_function_matrix()
{
    const ieompp::types::FunctionMatrix<double, uint64_t> m(
        2, 3, [](uint64_t row, uint64_t col) { return any::element(row, col); });
    std::ostringstream s, e;
    s << m;
    e << std::fixed << std::setprecision(1) << std::showpos;
    for(uint64_t row = 0; row < 2; ++row) {
        e << any::element(row, 0) << ' ' << any::element(row, 1) << ' ' << any::element(row, 2)
          << ' ' << '\n';
    }
    vf::same(s.str(), e.str(), "a matrix given by a function is printed row by row");
}
