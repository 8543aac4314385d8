#include "vf.hpp"

#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"

using U = ieompp::iterators::IntegerIterator<uint64_t, true>;
using I = ieompp::iterators::IntegerIterator<int64_t, false>;

template <typename It, typename T>
void step(T v)
{
    It it(v);
    vf::claim(*it == v, "dereferencing gives the number");
    const auto r = ++it;
    vf::claim(r == v + 1 && *it == v + 1, "pre-increment gives the next number");
    const auto o = it++;
    vf::claim(o == v + 1 && *it == v + 2, "post-increment gives the old number and moves on");
    const auto s = --it;
    vf::claim(s == v + 1 && *it == v + 1, "pre-decrement gives the previous number");
    const auto p = it--;
    vf::claim(p == v + 1 && *it == v, "post-decrement gives the old number and moves back");
}
void ob_step_unsigned(uint64_t v) { step<U>(v); }
void ob_step_signed(int64_t v) { step<I>(v); }

template <typename It, typename T>
void arithmetic(T v, T d)
{
    const It a(v);
    It b = a + d;
    vf::claim(*b == v + d, "adding a distance");
    vf::claim(b - a == d, "the difference of iterators is their distance");
    vf::claim(It(a)[d] == v + d, "access relative to the iterator");
    It c = d + a;
    vf::claim(c == b, "a distance may be added from the left");
    It e = b - d;
    vf::claim(e == a, "subtracting a distance");
    It f(a);
    It& g = (f += d);
    vf::claim(f == b && &g == &f, "adding in place");
    It& h = (f -= d);
    vf::claim(f == a && &h == &f, "subtracting in place");
    It k = (v + d) - a;
    vf::claim(*k == d, "subtracting an iterator from a number");
    It x(a), y(b);
    x.swap(y);
    vf::claim(*x == v + d && *y == v, "swapping");
    y = x;
    vf::claim(y == x && *y == v + d, "assignment");
}
void ob_arithmetic_unsigned(uint64_t v, uint64_t d) { arithmetic<U>(v, d); }
void ob_arithmetic_signed(int64_t v, int64_t d) { arithmetic<I>(v, d); }

template <typename It, typename T>
void order(T v, T w)
{
    const It a(v), b(w);
    vf::claim((a == b) == (v == w), "equality");
    vf::claim((a != b) == (v != w), "inequality");
    vf::claim((a < b) == (v < w), "smaller");
    vf::claim((a > b) == (v > w), "greater");
    vf::claim((a <= b) == (v <= w), "smaller or equal");
    vf::claim((a >= b) == (v >= w), "greater or equal");
}
void ob_order_unsigned(uint64_t v, uint64_t w) { order<U>(v, w); }
void ob_order_signed(int64_t v, int64_t w) { order<I>(v, w); }

void ob_range(uint64_t n)
{
    uint64_t count = 0;
    bool ok        = true;
    for(U it(0), last(n); it != last; ++it) {
        if(*it != count) {
            ok = false;
        }
        ++count;
    }
    vf::claim(ok, "ascending without gaps");
    vf::claim(count == n, "every number of the range is visited once");
}

void ob_backwards(uint64_t n)
{
    uint64_t count = 0;
    bool ok        = true;
    for(U it(n), first(0); it > first;) {
        --it;
        if(*it != n - 1 - count) {
            ok = false;
        }
        ++count;
    }
    vf::claim(ok, "descending without gaps");
    vf::claim(count == n, "every number of the range is visited once");
}
