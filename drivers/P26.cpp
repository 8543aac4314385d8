#include "vf.hpp"

#include "ieompp/algebra/commutator.hpp"
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/algebra/operator/order.hpp"
#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/term/term.hpp"
#include "ieompp/algebra/term/order.hpp"
#include <algorithm>
#include <list>
#include "ieompp/algebra/term/list.hpp"
#include "ieompp/symbolic/prefactor.hpp"

using namespace ieompp::algebra;
using Op  = Operator<uint64_t, bool>;
using Op1 = Operator<uint64_t>;
using Pre = ieompp::symbolic::Prefactor<double>;

void ob_monomial(Monomial<Op> m)
{
    const Monomial<Op> old(m);
    Monomial<Op> e(old);
    e *= old;
    Monomial<Op>& r = (m *= m);
    vf::same(m, e, "a product times itself contains its factors twice");
    vf::claim(&r == &m, "returns itself");
    vf::claim(m.size() == 2 * old.size(), "twice the number of factors");
    vf::same(old * old, e, "the copying product of a monomial with itself");
}

void ob_term(Term<double, Op> t)
{
    const Term<double, Op> old(t);
    Term<double, Op> e(old);
    e *= old;
    t *= t;
    vf::same(t, e, "a term times itself contains its factors twice");
    vf::same(t.prefactor, old.prefactor * old.prefactor, "and the square of its prefactor");
    vf::claim(t.operators.size() == 2 * old.operators.size(), "twice the number of factors");
    vf::same(old * old, e, "the copying product of a term with itself");
}

void ob_prefactor(Pre p)
{
    const Pre old(p);
    Pre e(old);
    e *= old;
    p *= p;
    vf::same(p, e, "a prefactor times itself contains its deltas twice");
    vf::claim(p.kroneckers.size() == 2 * old.kroneckers.size(), "twice the number of deltas");
    vf::same(p.value, old.value * old.value, "and the square of its number");
    vf::same(old * old, e, "the copying product of a prefactor with itself");
    Pre q(old);
    q *= q.kroneckers;
    Pre f(old);
    f *= old.kroneckers;
    vf::same(q, f, "a prefactor times its own deltas");
    Pre s(old);
    s *= s.value;
    Pre g(old);
    g *= old.value;
    vf::same(s, g, "a prefactor times its own number");
}

void ob_prefactor_delta(Pre p, std::size_t i)
{
    vf::assume(i < p.kroneckers.size());
    const Pre old(p);
    p *= p.kroneckers[i];
    Pre e(old);
    const Kronecker k = old.kroneckers[i];
    e *= k;
    vf::same(p, e, "a prefactor times one of its own deltas");
}

void ob_term_symbolic(Term<Pre, Operator<std::string, bool>> t)
{
    const auto old = t;
    auto e         = old;
    e *= old;
    t *= t;
    vf::same(t, e, "a term with symbolic prefactor times itself");
}

// [a, a] with both arguments the same object
void ob_commutator(Term<double, Op> a, std::vector<Term<double, Op>> c)
{
    vf::assume((a.operators.size() * a.operators.size()) % 2 == 0);
    auto d = c;
    commutate(a, a, d);
    const auto b = a;
    auto e       = c;
    commutate(a, b, e);
    vf::same(d, e, "the arguments of the commutator may be the same term");
}

// collecting a list into itself
void ob_unique(Op1 a, Op1 b, double p, double q)
{
    using T1 = Term<double, Op1>;
    vf::assume(OperatorSmaller<Op1>{}(b, a));
    std::vector<T1> in{T1{p, {a}}, T1{q, {b}}};
    const std::vector<T1> old(in);
    std::vector<T1> e(old);
    copy_as_unique_terms(old, e);
    copy_as_unique_terms(in, in);
    vf::same(in, e, "the result may be appended to the list itself");
}
