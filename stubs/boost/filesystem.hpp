#pragma once
#include <string>

#include "filesystem/convenience.hpp"
namespace boost
{
    namespace filesystem
    {
        void rename(const std::string& from, const std::string& to);
    }
} // namespace boost
