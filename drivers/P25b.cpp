// Printing without arrows: the spin is a number.
#define IEOMPP_DISABLE_ARROWS
#include "vf.hpp"

#include <cstdint>
#include <sstream>
#include <string>

#include "ieompp/algebra/operator.hpp"

using namespace ieompp::algebra;

void ob_spin(Operator<uint64_t, bool> a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << a.index1 << "," << (a.index2 ? 1 : 0) << "}";
    vf::same(s.str(), e.str(), "type, site and spin are printed");
}

void ob_spin_only(Operator<bool> a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << (a.index ? 1 : 0) << "}";
    vf::same(s.str(), e.str(), "type and spin are printed");
}

void ob_spin_last(Operator<uint64_t, int, bool> a)
{
    std::ostringstream s, e;
    s << a;
    e << "c" << (a.creator ? "^†" : "") << "_{" << std::get<0>(a.indices) << ","
      << std::get<1>(a.indices) << "," << (std::get<2>(a.indices) ? 1 : 0) << "}";
    vf::same(s.str(), e.str(), "type, coordinates and spin are printed");
}
