// Options of the programs: those of the command line, then the defaults.
#include "vf.hpp"

#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_APPLICATION_TIMER_HPP_

// nobody reads the log
struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
    void init(const std::string&) const {}
};
inline Loggers get_loggers() { return Loggers{}; }
struct ApplicationTimer {
};

#include <boost/filesystem/convenience.hpp>
#include <boost/program_options.hpp>

namespace any
{
    // texts of options with a default value, and the value
    bool has_default(const std::string&);
    std::string default_value(const std::string&);
} // namespace any

namespace std
{
    struct text_pattern {
        text_pattern(const char*) {}
    };
    struct text_match {
        bool matches = false;
        std::string first, whole;
        bool empty() const { return !matches; }
        std::string operator[](int i) const { return i == 1 ? first : whole; }
    };
    inline bool text_matches(const std::string& s, text_match& m, const text_pattern&)
    {
        m.matches = any::has_default(s);
        m.whole   = s;
        m.first   = any::default_value(s);
        return m.matches;
    }
} // namespace std

#define regex text_pattern
#define regex_match text_matches
#define regex_search text_matches
#define smatch text_match
#include "../src/hubbard/include/cli.hpp"
#undef regex
#undef regex_match
#undef regex_search
#undef smatch

namespace po = boost::program_options;
using Options = std::vector<std::pair<std::string, std::string>>;

// what the command line holds
static const po::parsed_options* command_line;
// how often they have been stored
static uint64_t* stores;
namespace boost
{
    namespace program_options
    {
        parsed_options parse_command_line(int, const char* const*, const options_description&)
        {
            return *command_line;
        }
        void store(const parsed_options& p, variables_map&)
        {
            vf::claim(p.options.size() == command_line->options.size(),
                      "the options of the command line are stored");
            *stores = *stores + 1;
        }
        void notify(variables_map&) {}
    } // namespace program_options
} // namespace boost

static bool given(const po::parsed_options& options, const std::string& key)
{
    for(const auto& o : options.options) {
        if(o.string_key == key) {
            return true;
        }
    }
    return false;
}

void ob_options(const po::parsed_options& options, const po::options_description& d,
                po::variables_map& vm)
{
    command_line    = &options;
    uint64_t stored = 0;
    stores          = &stored;
    Options expected;
    for(const auto& o : options.options) {
        if(!o.unregistered) {
            for(const auto& v : o.value) {
                expected.emplace_back(o.string_key, v);
            }
        }
    }
    for(const auto& o : d.options()) {
        if(!given(options, o->key_) && any::has_default(o->semantic_.text)) {
            expected.emplace_back(o->key_, any::default_value(o->semantic_.text));
        }
    }
    vf::same(parse_command_line_options(0, nullptr, d, vm), expected,
             "the given options in order, then the defaults of the others");
    vf::claim(stored > 0, "the program gets to see what it was given");
}
