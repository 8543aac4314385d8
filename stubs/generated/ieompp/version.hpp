#ifndef IEOMPP_VERSION_HPP_
#define IEOMPP_VERSION_HPP_

#include <string>

namespace ieompp {
    constexpr auto version = "0.0.0-unknown";
} // namespace ieompp

#endif