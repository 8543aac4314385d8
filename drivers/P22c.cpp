// Response files: every line reaches the parser.
#include "vf.hpp"

namespace any
{
    uint64_t lines();
    std::string line(uint64_t);
    // lines that are looked for
    bool wanted(const std::string&);
} // namespace any

#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_APPLICATION_TIMER_HPP_

// nobody reads the log
struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
    void init(const std::string&) const {}
};
inline Loggers get_loggers() { return Loggers{}; }
struct ApplicationTimer {
};

// lists of lines: whether the one looked for is among them
namespace std
{
    template <>
    class vector<std::string>
    {
    public:
        bool has = false;
        vector() {}
        vector(std::initializer_list<std::string> l)
        {
            for(const auto& s : l) {
                push_back(s);
            }
        }
        void push_back(const std::string& s) { has = has || any::wanted(s); }
        void emplace_back(const std::string& s) { push_back(s); }
        void clear() { has = false; }
        void reserve(std::size_t) {}
        const std::string* begin() const;
        const std::string* end() const;
    };
} // namespace std

#include <boost/filesystem/convenience.hpp>
#include <boost/program_options.hpp>

namespace std
{
    // a file of any lines
    struct file_in {
        uint64_t next;
        file_in(const char*) : next(0) {}
        file_in(const std::string&) : next(0) {}
        void close() {}
    };
    inline bool getline(file_in& f, std::string& s)
    {
        if(f.next >= any::lines()) {
            return false;
        }
        s = any::line(f.next);
        ++f.next;
        return true;
    }
} // namespace std

// whether a parser has been given it
static bool* parsed;
namespace boost
{
    namespace program_options
    {
        command_line_parser::command_line_parser(const std::vector<std::string>& args)
        {
            *parsed = *parsed || args.has;
        }
    } // namespace program_options
} // namespace boost

#define ifstream file_in
#include "../src/hubbard/include/cli.hpp"
#undef ifstream

void ob_response_file(const std::string& path, boost::program_options::variables_map& vm,
                      const boost::program_options::options_description& d, uint64_t i)
{
    vf::assume(i < any::lines() && any::wanted(any::line(i)));
    bool seen = false;
    parsed    = &seen;
    read_response_file(path, vm, d);
    vf::claim(seen, "every line of a response file is parsed");
}
