// Which lines are skipped, character by character.
#include "vf.hpp"

#include <algorithm>
#include <cctype>
#include <cstdint>
#include <functional>
#include <istream>
#include <iterator>
#include <regex>
#include <string>
#include <vector>

namespace std
{
    inline bool text_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }

    // any text, as its characters
    struct text_line : public std::vector<char> {
        static constexpr size_t npos = static_cast<size_t>(-1);
        size_t length() const { return this->size(); }
        size_t find(char c, size_t i = 0) const
        {
            for(; i < this->size(); ++i) {
                if((*this)[i] == c) {
                    return i;
                }
            }
            return npos;
        }
        size_t find_first_of(const std::string& set, size_t i = 0) const
        {
            for(; i < this->size(); ++i) {
                if(one_of(set, (*this)[i])) {
                    return i;
                }
            }
            return npos;
        }
        size_t find_first_not_of(const std::string& set, size_t i = 0) const
        {
            for(; i < this->size(); ++i) {
                if(!one_of(set, (*this)[i])) {
                    return i;
                }
            }
            return npos;
        }
        size_t find_first_not_of(char c, size_t i = 0) const
        {
            for(; i < this->size(); ++i) {
                if((*this)[i] != c) {
                    return i;
                }
            }
            return npos;
        }
        static bool one_of(const std::string& set, char c)
        {
            bool found = false;
            for(size_t i = 0; i < set.size(); ++i) {
                found = found || set[i] == c;
            }
            return found;
        }
    };

    inline size_t first_visible(const text_line& s)
    {
        for(size_t i = 0; i < s.size(); ++i) {
            if(!text_space(s[i])) {
                return i;
            }
        }
        return s.size();
    }
    inline bool without_content(const text_line& s)
    {
        const auto i = first_visible(s);
        return i == s.size() || s[i] == '#';
    }

    // what the pattern is, is the subject of another rule
    struct text_pattern {
        text_pattern(const char*) {}
    };
    inline bool text_matches(const text_line& s, const text_pattern&) { return without_content(s); }

    struct text_in {
    };
    bool getline(text_in&, text_line&);
} // namespace std

#include "ieompp/io/exception.hpp"

#undef THROW
#define THROW(type, msg) throw ieompp::create_exception<type>("", 0, msg);

#define istream text_in
#define string text_line
#define regex text_pattern
#define regex_match text_matches
#define regex_search text_matches
#define isspace text_space
#include "ieompp/io/line.hpp"

void ob_skipped(const std::text_line& s)
{
    vf::claim(ieompp::io::is_skippable_line(s) == std::without_content(s),
              "blank lines and lines that hold only a comment are skipped, no others");
}
