#include "vf.hpp"

#include "ieompp/types/triplet.hpp"

namespace t = ieompp::types;
using Triplet = t::Triplet<double, uint64_t>;
using List    = t::TripletList<double, uint64_t>;

void ob_triplet(uint64_t i, uint64_t j, double v)
{
    const Triplet x(i, j, v);
    vf::claim(x.row == i, "row of a triplet");
    vf::claim(x.column == j, "column of a triplet");
    vf::same(x.value, v, "value of a triplet");
}

void ob_empty()
{
    const List l;
    vf::claim(l.make_columns_unique().empty(), "the empty list has no columns to join");
    vf::claim(l.has_unique_columns(), "the columns of an empty list are unique");
}

void ob_one(uint64_t i, uint64_t j, double v)
{
    List l;
    l.emplace_back(i, j, v);
    const auto u = l.make_columns_unique();
    vf::claim(u.empty() == t::IsZero(v), "a vanishing element is dropped");
    if(!t::IsZero(v)) {
        vf::claim(u.size() == 1 && u[0].row == i && u[0].column == j, "position of the element");
        vf::same(u[0].value, v, "value of the element");
    }
    vf::claim(l.has_unique_columns(), "one element has a unique column");
}

void ob_sort(List l, uint64_t c)
{
    List s(l);
    s.sort();
    vf::claim(s.size() == l.size(), "sorting keeps the number of elements");
    bool sorted = true;
    for(uint64_t i = 0; i + 1 < s.size(); ++i) {
        if(s[i + 1].column < s[i].column) {
            sorted = false;
        }
    }
    vf::claim(sorted, "sorted by columns");
    double a = 0, b = 0;
    for(uint64_t i = 0; i < l.size(); ++i) {
        if(l[i].column == c) {
            a += l[i].value;
        }
        if(s[i].column == c) {
            b += s[i].value;
        }
    }
    vf::same(a, b, "sorting keeps the sum of every column");
}

void ob_sort_three(uint64_t a, uint64_t b, uint64_t c, double x, double y, double z, uint64_t col)
{
    List l;
    l.emplace_back(0, a, x);
    l.emplace_back(0, b, y);
    l.emplace_back(0, c, z);
    l.sort();
    vf::claim(l.size() == 3, "sorting keeps the number of elements");
    vf::claim(l[0].column <= l[1].column && l[1].column <= l[2].column, "columns ascend");
    double before = 0, after = 0;
    before += (a == col ? x : 0.) + (b == col ? y : 0.) + (c == col ? z : 0.);
    for(const auto& e : l) {
        if(e.column == col) {
            after += e.value;
        }
    }
    vf::same(before, after, "sorting keeps the sum of every column");
}

void ob_unique_two_equal(uint64_t i, uint64_t j, double v, double w)
{
    List l;
    l.emplace_back(i, j, v);
    l.emplace_back(i, j, w);
    const auto u = l.make_columns_unique();
    vf::claim(!l.has_unique_columns(), "two elements of one column");
    vf::claim(u.empty() == t::IsZero(v + w), "a vanishing sum is dropped");
    if(!t::IsZero(v + w)) {
        vf::claim(u.size() == 1 && u[0].row == i && u[0].column == j, "position of the sum");
        vf::same(u[0].value, v + w, "elements of one column are added");
    }
}

void ob_unique_two_different(uint64_t i, uint64_t j, uint64_t k, double v, double w)
{
    vf::assume(j < k);
    List l;
    l.emplace_back(i, j, v);
    l.emplace_back(i, k, w);
    const auto u = l.make_columns_unique();
    vf::claim(l.has_unique_columns(), "elements of two columns");
    const uint64_t n = (t::IsZero(v) ? 0 : 1) + (t::IsZero(w) ? 0 : 1);
    vf::claim(u.size() == n, "elements of different columns stay unless they vanish");
    if(!t::IsZero(v)) {
        vf::claim(u[0].column == j && u[0].row == i, "position of the first element");
        vf::same(u[0].value, v, "value of the first element");
    }
    if(!t::IsZero(w)) {
        const auto& x = u[n - 1];
        vf::claim(x.column == k && x.row == i, "position of the second element");
        vf::same(x.value, w, "value of the second element");
    }
}

void ob_unique_groups(uint64_t i, uint64_t j, uint64_t k, double v, double w, double x, double y,
                      double z)
{
    // two columns with two and three elements
    vf::assume(j < k);
    List l;
    l.emplace_back(i, j, v);
    l.emplace_back(i, j, w);
    l.emplace_back(i, k, x);
    l.emplace_back(i, k, y);
    l.emplace_back(i, k, z);
    const auto u     = l.make_columns_unique();
    const uint64_t n = (t::IsZero(v + w) ? 0 : 1) + (t::IsZero(x + y + z) ? 0 : 1);
    vf::claim(u.size() == n, "one element per column unless it vanishes");
    if(!t::IsZero(v + w)) {
        vf::claim(u[0].column == j && u[0].row == i, "position of the first column");
        vf::same(u[0].value, v + w, "sum of the first column");
    }
    if(!t::IsZero(x + y + z)) {
        const auto& e = u[n - 1];
        vf::claim(e.column == k && e.row == i, "position of the second column");
        vf::same(e.value, x + y + z, "sum of the second column");
    }
}

void ob_unique_middle(uint64_t i, uint64_t a, uint64_t b, uint64_t c, double w, double x, double y,
                      double z)
{
    // the column in the middle vanishes
    vf::assume(a < b && b < c);
    vf::assume(!t::IsZero(w) && !t::IsZero(z));
    vf::assume(t::IsZero(x + y));
    List l;
    l.emplace_back(i, a, w);
    l.emplace_back(i, b, x);
    l.emplace_back(i, b, y);
    l.emplace_back(i, c, z);
    const auto u = l.make_columns_unique();
    vf::claim(u.size() == 2, "a vanishing column between others is dropped");
    vf::claim(u[0].column == a && u[1].column == c, "columns of the others");
    vf::same(u[0].value, w, "value of the first column");
    vf::same(u[1].value, z, "value of the last column");
}

void ob_has_unique(List l)
{
    bool unique = true;
    for(uint64_t i = 1; i < l.size(); ++i) {
        if(l[i].column == l[i - 1].column) {
            unique = false;
        }
    }
    vf::claim(l.has_unique_columns() == unique, "unique iff no two adjacent columns agree");
}
