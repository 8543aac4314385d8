// Starting a program: its response file and the header of its output file.
#include "vf.hpp"

#include <cstdint>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

#define SRC_HUBBARD_LOGGING_HPP_
#define SRC_HUBBARD_APPLICATION_TIMER_HPP_
#define SRC_HUBBARD_CLI_HPP_

// nobody reads the log
struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
    void init(const std::string& p) const;
};
static std::string* log_file;
static uint64_t* logs;
inline void Loggers::init(const std::string& p) const
{
    *log_file = p;
    *logs     = *logs + 1;
}
inline Loggers get_loggers() { return Loggers{}; }
struct ApplicationTimer {
};

namespace ieompp
{
    static const char version[] = "1";
    inline std::string blaze_version() { return "b"; }
    struct Platform {
        static std::string boost() { return "b"; }
        static std::string architecture() { return "a"; }
        static std::string operating_system() { return "o"; }
        static std::string compiler() { return "c"; }
        static std::string cpp_library() { return "l"; }
        static std::string user() { return "u"; }
        static std::string host() { return "h"; }
        static std::string endianess() { return "e"; }
        static int max_threads() { return 1; }
    };
} // namespace ieompp

// a text of an option, without an end of line: one piece of what is written
struct Word {
    uint64_t id;
};

namespace any
{
    using Options = std::vector<std::pair<Word, Word>>;
    const Options& options();
} // namespace any

// command line and response file
struct Value {
    std::string text;
    template <typename T>
    const T& as() const
    {
        return text;
    }
};
struct VariablesMap {
    bool help, version, response;
    std::string out, file;
    uint64_t count(const std::string& name) const
    {
        return name == "help" ? help : name == "version" ? version : name == "response_file" ? response : 1;
    }
    Value operator[](const std::string& name) const
    {
        return Value{name == "out" ? out : file};
    }
};
// declared options: how often, with a value, with a default value
struct HasValue {
    bool given;
    std::string text;
};
struct Declared {
    uint64_t help, version, response, out;
    bool optional, prefilled;
    std::string name;
};
static Declared* declared;
struct EasyInit {
    EasyInit& operator()(const char* key, const char*)
    {
        const std::string k(key);
        if(k == "help") {
            declared->help = declared->help + 1;
        } else if(k == "version") {
            declared->version = declared->version + 1;
        }
        return *this;
    }
    EasyInit& operator()(const char* key, const HasValue& v, const char*)
    {
        const std::string k(key);
        if(k == "response_file") {
            declared->response = declared->response + 1;
            declared->optional = !v.given;
        } else if(k == "out") {
            declared->out       = declared->out + 1;
            declared->prefilled = v.given;
            declared->name      = v.text;
        }
        return *this;
    }
};
struct OptionsDescription {
    EasyInit add_options() { return EasyInit{}; }
};
template <typename T>
HasValue make_value()
{
    return HasValue{false, std::string()};
}
template <typename T>
HasValue make_value(const T& v)
{
    return HasValue{true, v};
}

static const VariablesMap* known;
static bool* read_back;
inline any::Options parse_command_line_options(int, char**, const OptionsDescription&,
                                               VariablesMap& vm)
{
    vm = *known;
    return any::options();
}
inline void read_response_file(const std::string& p, VariablesMap&, const OptionsDescription&)
{
    vf::claim(p == known->file, "the response file that was given is read");
    *read_back = true;
}

// pieces of what has been written into a file: characters and texts of options
static std::vector<uint64_t>* response;
static uint64_t *responses, *opened;
static std::string* beside;
struct file_out {
    std::string path;
    bool own = false, fresh = true, comments = true, is_open = false;
    std::vector<uint64_t> pieces;
    file_out() {}
    file_out(const char* p) : file_out(std::string(p)) {}
    file_out(const std::string& p) : path(p), own(true), is_open(true)
    {
        ++*responses;
        *beside = p;
    }
    void open(const char* p) { open(std::string(p)); }
    void open(const std::string& p)
    {
        path    = p;
        is_open = true;
        ++*opened;
    }
    void close()
    {
        is_open = false;
    }
    void put(uint64_t piece)
    {
        vf::claim(is_open, "what is written goes into an open file");
        if(own) {
            response->push_back(piece);
        } else {
            comments = comments && (!fresh || piece == '#');
            fresh    = piece == '\n';
        }
    }
    file_out& operator<<(char c)
    {
        put(static_cast<uint64_t>(c));
        return *this;
    }
    file_out& operator<<(const std::string& s)
    {
        for(std::size_t i = 0; i < s.size(); ++i) {
            put(static_cast<uint64_t>(s[i]));
        }
        return *this;
    }
    file_out& operator<<(const char* s) { return *this << std::string(s); }
    file_out& operator<<(int i) { return *this << std::to_string(i); }
    file_out& operator<<(const Word& w)
    {
        put(256 + w.id);
        if(!own) {
            pieces.push_back(w.id);
        }
        return *this;
    }
};
// what is printed
static uint64_t* printed;
struct Console {
    template <typename T>
    const Console& operator<<(const T&) const
    {
        ++*printed;
        return *this;
    }
};
namespace std
{
    using file_out_t = ::file_out;
    static const ::Console console{};
    // the end of the program: nothing behind it is executed
    inline void leave(int)
    {
        vf::claim(*printed != 0, "something is printed");
        vf::claim(*responses == 0 && *opened == 0 && !*read_back, "no file is touched");
        throw 1;
    }
}

#define ofstream file_out_t
#define cout console
#define exit leave
#include "../src/hubbard/include/application.hpp"
#undef ofstream
#undef cout
#undef exit

// asking for help or the version is all that a program does then
void ob_help(const VariablesMap& vm)
{
    vf::assume(vm.help || vm.version);
    known = &vm;
    bool back = false;
    read_back = &back;
    std::vector<uint64_t> written;
    std::string path;
    uint64_t files = 0, open = 0, texts = 0, inits = 0;
    std::string log;
    log_file          = &log;
    logs              = &inits;
    response          = &written;
    responses         = &files;
    opened            = &open;
    beside            = &path;
    printed           = &texts;
    Application::name = "program";
    Application app(0, nullptr);
    vf::claim(false, "the program ends");
}

void ob_default_options()
{
    Declared d{0, 0, 0, 0, false, false, std::string()};
    declared          = &d;
    Application::name = "program";
    Application::add_default_options();
    vf::claim(d.help == 1 && d.version == 1, "help and version are flags");
    vf::claim(d.response == 1 && d.out == 1,
              "the response file and the output file are options with a value");
    vf::claim(d.optional, "the response file has no default");
    vf::claim(d.prefilled, "the output file has a default");
    vf::same(d.name, std::string("program.txt"), "the output file is named after the program");
}

void ob_application(const VariablesMap& vm)
{
    vf::assume(!vm.help && !vm.version);
    known = &vm;
    bool back = false;
    read_back = &back;
    std::vector<uint64_t> written, expected, listed;
    std::string path;
    uint64_t files = 0, open = 0, inits = 0;
    std::string log;
    log_file  = &log;
    logs      = &inits;
    response  = &written;
    responses = &files;
    opened    = &open;
    beside    = &path;
    Application::name = "program";
    Application app(0, nullptr);
    for(const auto& o : any::options()) {
        expected.push_back('-');
        expected.push_back('-');
        expected.push_back(256 + o.first.id);
        expected.push_back('=');
        expected.push_back(256 + o.second.id);
        expected.push_back('\n');
        listed.push_back(o.first.id);
        listed.push_back(o.second.id);
    }
    vf::claim(back == vm.response, "a response file is read if one is given");
    vf::claim((files == 0) == vm.response, "a response file is written if none is given");
    if(!vm.response) {
        vf::same(written, expected, "a response file has a line --key=value for each option");
    }
    vf::same(app.output_file.path, vm.out, "the output goes where it is asked to");
    vf::claim(app.output_file.comments && app.output_file.fresh,
              "the header of the output file is a comment");
    vf::same(app.output_file.pieces, listed, "the header lists every option with its value");
    vf::claim(app.output_file.is_open && open == 1,
              "the output file is open while the program runs");
    if(!vm.response) {
        vf::same(path, app.response_path, "the response file has its own name");
    }
    vf::same(app.response_path, boost::filesystem::changed_extension(vm.out, ".rsp"),
             "the response file is named after the output file");
    vf::claim(inits == 1, "the log is set up once");
    vf::same(log, boost::filesystem::changed_extension(vm.out, ".log"),
             "the log is named after the output file");
    vf::same(app.log_path, log, "and known to the program");
    vf::same(app.matrix_path, boost::filesystem::changed_extension(vm.out, "") + "_matrix.blaze",
             "the file of the matrix is named after the output file");
    vf::same(app.checkpoint_prefix,
             boost::filesystem::changed_extension(vm.out, "") + "_checkpoint_",
             "checkpoints are named after the output file");
}
