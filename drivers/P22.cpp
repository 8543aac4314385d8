// Lines read from a stream, composed texts, exceptions, response files and headers of output files.
#include "vf.hpp"

#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <istream>
#include <regex>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace any
{
    uint64_t lines();
    std::string line(uint64_t);
    bool match(const std::string&);
} // namespace any

namespace std
{
    // a stream of any lines
    struct text_in {
        uint64_t next;
    };
    inline bool getline(text_in& f, std::string& s)
    {
        if(f.next >= any::lines()) {
            f.next = any::lines() + 1;
            return false;
        }
        s = any::line(f.next);
        ++f.next;
        return true;
    }
    // what the pattern is, is the subject of another rule
    struct text_pattern {
        text_pattern(const char*) {}
    };
    inline bool text_matches(const std::string& s, const text_pattern&) { return any::match(s); }
} // namespace std

#include "ieompp/io/exception.hpp"

#undef THROW
namespace seen
{
    static std::text_in* stream;
    inline void nothing_left()
    {
        vf::claim(stream->next > any::lines(), "an exception only at the end of the input");
    }
} // namespace seen
#define THROW(type, msg) { seen::nothing_left(); throw ieompp::create_exception<type>("", 0, msg); }

#define istream text_in
#define regex text_pattern
#define regex_match text_matches
#define regex_search text_matches
#include "ieompp/io/line.hpp"
#undef istream
#undef regex
#undef regex_match
#undef regex_search

#include "ieompp/string.hpp"

// the first line that is not skipped
static uint64_t first_entry(uint64_t i)
{
    while(i < any::lines() && ieompp::io::is_skippable_line(any::line(i))) {
        ++i;
    }
    return i;
}

void ob_next_line(uint64_t start)
{
    vf::assume(start <= any::lines());
    std::text_in strm{start};
    seen::stream     = &strm;
    const auto found = first_entry(start);
    const auto line  = ieompp::io::next_line(strm);
    vf::claim(found < any::lines(), "without such a line there is an exception");
    vf::claim(line == any::line(found), "the first line that is not skipped");
    vf::claim(strm.next == found + 1, "nothing behind the line is read");
}

void ob_compose(const std::string& a, int b, double c, char d)
{
    std::ostringstream expected;
    expected << a << b << c << d;
    vf::claim(ieompp::compose(a, b, c, d) == vf::text(expected), "the texts of the parts in order");
    vf::claim(ieompp::compose(a) == a, "one part");
    vf::claim(ieompp::compose() == std::string(), "no part");
}

void ob_exception(const std::string& file, std::size_t line, const std::string& msg)
{
    const auto e = ieompp::create_exception<ieompp::io::IOException>(file, line, msg);
    std::ostringstream expected;
    expected << file << ':' << line << ": " << msg;
    vf::claim(std::string(e.what()) == vf::text(expected), "place and message");
    vf::claim(std::string(ieompp::Exception(msg).what()) == msg, "the message itself");
    vf::claim(std::string(ieompp::NotImplemented(msg).what()) == msg, "the message itself");
}
