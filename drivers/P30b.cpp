// Observables the programs set up, and the files they read and write.
#include "vf.hpp"

#include <cmath>
#include <complex>
#include <cstdint>
#include <fstream>
#include <functional>
#include <regex>
#include <sstream>
#include <string>
#include <vector>

#include <blaze/Blaze.h>

#define SRC_HUBBARD_LOGGING_HPP_
#define IEOMPP_IO_LINE_HPP_

// nobody reads the log
struct Log {
    const Log* operator->() const { return this; }
    template <typename... Ts>
    void info(const Ts&...) const
    {
    }
};
struct Loggers {
    Log main, io, ode;
};
inline Loggers get_loggers() { return Loggers{}; }

// a file of any lines
namespace any
{
    uint64_t lines();
    std::string line(uint64_t);
    bool skippable(const std::string&);
} // namespace any

namespace ieompp
{
    namespace io
    {
        inline bool is_skippable_line(const std::string& s) { return any::skippable(s); }
    } // namespace io
} // namespace ieompp

namespace std
{
    // what happened to the file
    struct Files {
        // its name before and after it is moved
        std::string from, to;
        bool moved, read, written;
        // checkpoint
        std::string vector, info;
        uint64_t vectors, infos;
        Files() : moved(false), read(false), written(false), vectors(0), infos(0) {}
    };
    static Files* files;

    struct file_in {
        static constexpr int binary = 1;
        static constexpr int in = 2, out = 4, trunc = 8, app = 16, ate = 32;
        uint64_t next;
        file_in() : next(0) {}
        file_in(const std::string& p) : next(0) { opened(p); }
        template <typename Mode>
        file_in(const std::string& p, Mode) : next(0)
        {
            opened(p);
        }
        void open(const std::string& p) { opened(p); }
        template <typename Mode>
        void open(const std::string& p, Mode)
        {
            opened(p);
        }
        bool is_open() const { return true; }
        bool good() const { return true; }
        explicit operator bool() const { return true; }
        bool operator!() const { return false; }
        void opened(const std::string& p)
        {
            vf::claim(files->moved, "the old file is moved before it is read");
            vf::claim(p == files->to, "it is read where it was moved to");
            files->read = true;
        }
        void close() {}
    };
    inline bool getline(file_in& f, std::string& s)
    {
        if(f.next >= any::lines()) {
            return false;
        }
        s = any::line(f.next);
        ++f.next;
        return true;
    }
    // what is written, and where
    struct file_out {
        static constexpr int binary = 1;
        static constexpr int in = 2, out = 4, trunc = 8, app = 16, ate = 32;
        static std::ostringstream* text;
        bool is_opened;
        std::string path;
        file_out() : is_opened(false) {}
        file_out(const std::string& p) : is_opened(false) { open(p); }
        template <typename Mode>
        file_out(const std::string& p, Mode) : is_opened(false)
        {
            open(p);
        }
        void open(const std::string& p)
        {
            vf::claim(!is_opened, "a file is closed before another one is opened");
            vf::claim(!files->moved || p == files->from, "the new file gets the old name");
            files->written = true;
            is_opened        = true;
            path           = p;
        }
        template <typename Mode>
        void open(const std::string& p, Mode)
        {
            open(p);
        }
        bool is_open() const { return is_opened; }
        bool good() const { return true; }
        explicit operator bool() const { return true; }
        bool operator!() const { return false; }
        void close() { is_opened = false; }
        void flush() {}
        template <typename T>
        file_out& operator<<(const T& t)
        {
            vf::claim(is_opened, "written to an open file");
            *text << t;
            files->info  = path;
            files->infos = files->infos + 1;
            return *this;
        }
        // std::endl, std::flush
        file_out& operator<<(std::ostream& (*end)(std::ostream&))
        {
            vf::claim(is_opened, "written to an open file");
            *text << end;
            return *this;
        }
    };
} // namespace std
std::ostringstream* std::file_out::text;

// the element of a vector that is looked at
static uint64_t watched;

namespace blaze
{
    template <>
    class Archive<std::file_out>
    {
    public:
        std::file_out& file;
        explicit Archive(std::file_out& f) : file(f) {}
        template <typename T>
        Archive& operator<<(const T& v)
        {
            vf::claim(file.is_opened, "the vector is written to an open file");
            std::files->vector  = file.path;
            std::files->vectors = std::files->vectors + 1;
            *std::file_out::text << v[watched];
            return *this;
        }
    };
} // namespace blaze

#include <boost/filesystem.hpp>
namespace boost
{
    namespace filesystem
    {
        inline void moved(const std::string& from, const std::string& to)
        {
            vf::claim(!std::files->moved && !std::files->written,
                      "the old file is moved once, before the new one is written");
            vf::claim(from == "some file" && to != from, "to another name");
            std::files->from  = from;
            std::files->to    = to;
            std::files->moved = true;
        }
    } // namespace filesystem
} // namespace boost
#define rename moved
#define ifstream file_in
#define ofstream file_out
#include "../src/hubbard/include/checkpoint.hpp"
#undef ifstream
#undef ofstream
#undef rename

void ob_clean(uint64_t entries)
{
    std::ostringstream out, expected;
    std::file_out::text = &out;
    std::Files happened;
    std::files = &happened;
    clean_output_file("some file", entries);
    uint64_t kept = 0;
    for(uint64_t i = 0; i < any::lines() && kept < entries; ++i) {
        const auto line = any::line(i);
        expected << line << '\n';
        kept += any::skippable(line) ? 0 : 1;
    }
    vf::claim(happened.moved && happened.read && happened.written, "moved, read and written");
    vf::claim(vf::text(out) == vf::text(expected), "the lines up to the last entry");
}

void ob_checkpoint(const blaze::DynamicVector<double>& v, const std::string& prefix, double t,
                   uint64_t i)
{
    vf::assume(i < v.size());
    watched = i;
    std::ostringstream first, expected;
    std::file_out::text = &first;
    std::Files happened;
    std::files = &happened;
    write_checkpoint_file(prefix, v, t);
    expected << v[i] << t << '\n';
    vf::claim(vf::text(first) == vf::text(expected), "the vector and the time, exactly");
    vf::claim(happened.vectors == 1 && happened.infos > 0, "the vector is written, and the time");
    vf::claim(happened.vector != happened.info, "to different files");
    const std::string vectors = happened.vector, infos = happened.info;
    write_checkpoint_file(prefix, v, t);
    vf::claim(happened.vector != vectors && happened.info != infos,
              "the next checkpoint does not replace this one");
}
