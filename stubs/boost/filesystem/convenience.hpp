#pragma once
#include <string>
namespace boost
{
    namespace filesystem
    {
        struct path {
            std::string text;
            path(std::string s) : text(s) {}
            path(const char* s) : text(s) {}
            std::string string() const { return text; }
            operator std::string() const { return text; }
        };
        std::string without_extension(const std::string& p);
        inline std::string changed_extension(const std::string& p, const std::string& e)
        {
            return without_extension(p) + e;
        }
        inline path change_extension(const path& p, const std::string& e)
        {
            return path(changed_extension(p.text, e));
        }
    } // namespace filesystem
} // namespace boost
