// Integration of the system of two sites with four operators.
#include "vf.hpp"

#include <cmath>
#include <complex>
#include <cstdint>
#include <fstream>
#include <iostream>

#define IEOMPP_ODE_RK4_HPP_
#define IEOMPP_TYPES_BLAZE_HPP_
#include <ieompp/constants.hpp>

using Complex = std::complex<double>;
namespace any
{
    double re(uint64_t steps, uint64_t i);
    double im(uint64_t steps, uint64_t i);
} // namespace any

struct TrivialRun {
    uint64_t steps, lines;
    // the first state
    Complex first[4];
    TrivialRun() : steps(0), lines(0), first{0., 0., 0., 0.} {}
};
static TrivialRun* trivial;
inline double re_expected(uint64_t steps, uint64_t i)
{
    return steps == 0 ? (i == 0 ? 1. : 0.) : any::re(steps, i);
}
inline double im_expected(uint64_t steps, uint64_t i)
{
    return steps == 0 ? 0. : any::im(steps, i);
}

// the lines of the file
namespace std
{
    struct lines_out {
        uint64_t field;
        double cells[16];
        lines_out() : field(0) {}
        void number(double x) { cells[field] = x; }
        void separator(char c)
        {
            if(c == '\t') {
                field = field + 1;
                return;
            }
            vf::claim(c == '\n', "fields are separated by tabulators");
            vf::claim(field == 10, "time, four coefficients and the sum");
            const uint64_t s = trivial->steps;
            vf::claim(trivial->lines == s, "one line for each state");
            vf::same(cells[0], s * 0.01, "a line starts with the time of the state");
            vf::same(cells[1], re_expected(s, 0), "first coefficient");
            vf::same(cells[2], im_expected(s, 0), "first coefficient");
            vf::same(cells[3], re_expected(s, 1), "second coefficient");
            vf::same(cells[4], im_expected(s, 1), "second coefficient");
            vf::same(cells[5], re_expected(s, 2), "third coefficient");
            vf::same(cells[6], im_expected(s, 2), "third coefficient");
            vf::same(cells[7], re_expected(s, 3), "fourth coefficient");
            vf::same(cells[8], im_expected(s, 3), "fourth coefficient");
            field         = 0;
            trivial->lines = trivial->lines + 1;
        }
    };
    struct file_of_lines : lines_out {
        file_of_lines() {}
        file_of_lines(const char*) {}
        void open(const char*) {}
        void flush() {}
        void close() {}
    };
    inline lines_out& operator<<(lines_out& f, double x)
    {
        f.number(x);
        return f;
    }
    inline lines_out& operator<<(lines_out& f, char c)
    {
        f.separator(c);
        return f;
    }
} // namespace std

namespace blaze
{
    // a coefficient of the present state; before the first step it is what is assigned
    struct Coefficient : Complex {
        explicit Coefficient(uint64_t i)
            : Complex(trivial->steps == 0 ? trivial->first[i].real() : any::re(trivial->steps, i),
                      trivial->steps == 0 ? trivial->first[i].imag() : any::im(trivial->steps, i)),
              i(i)
        {
        }
        uint64_t i;
        void operator=(const Complex& x) const
        {
            vf::claim(trivial->steps == 0, "only the first state is set");
            trivial->first[i] = x;
        }
        void operator=(double x) const { *this = Complex(x, 0.); }
    };
    template <typename T>
    struct FourNumbers {
        struct iterator {
            uint64_t i;
            Coefficient operator*() const { return Coefficient(i); }
            iterator& operator++()
            {
                ++i;
                return *this;
            }
            bool operator!=(const iterator& rhs) const { return i != rhs.i; }
        };
        iterator begin() const { return iterator{0}; }
        iterator end() const { return iterator{4}; }
        FourNumbers(uint64_t n) { vf::claim(n == 4, "four coefficients"); }
        FourNumbers(uint64_t n, const Complex& x) : FourNumbers(n) { *this = x; }
        Coefficient operator[](uint64_t i) const { return Coefficient(i); }
        uint64_t size() const { return 4; }
        void reset() { *this = Complex(0., 0.); }
        void operator=(const Complex& x)
        {
            vf::claim(trivial->steps == 0, "only the first state is set");
            for(uint64_t i = 0; i < 4; ++i) {
                trivial->first[i] = x;
            }
        }
        void operator=(double x) { *this = Complex(x, 0.); }
    };
    template <typename T>
    struct FourByFour {
        T values[16];
        FourByFour(std::initializer_list<std::initializer_list<T>> rows)
        {
            vf::claim(rows.size() == 4, "four rows");
            auto r = rows.begin();
            row(0, *r);
            ++r;
            row(4, *r);
            ++r;
            row(8, *r);
            ++r;
            row(12, *r);
        }
        void row(uint64_t n, std::initializer_list<T> x)
        {
            vf::claim(x.size() == 4, "of four columns");
            auto i        = x.begin();
            values[n]     = *i;
            values[n + 1] = *(i + 1);
            values[n + 2] = *(i + 2);
            values[n + 3] = *(i + 3);
        }
        void operator*=(const T& f)
        {
            for(uint64_t i = 0; i < 16; ++i) {
                values[i] *= f;
            }
        }
    };
} // namespace blaze

namespace ieompp
{
    namespace ode
    {
        template <typename Float>
        struct RK4 {
            RK4(uint64_t n, const Float& dt)
            {
                vf::claim(n == 4, "four coefficients");
                vf::same(dt, 0.01, "steps of 0.01");
            }
            void step(const blaze::FourByFour<Complex>& M, blaze::FourNumbers<Complex>&) const
            {
                vf::claim(trivial->lines == trivial->steps + 1, "every state is written");
                for(uint64_t i = 0; i < 4; ++i) {
                    for(uint64_t j = 0; j < 4; ++j) {
                        const bool hop = i + j == 1 || (i == 0 && j == 2) || (i == 2 && j == 0);
                        const bool two = i == j || i + j == 3 && (i == 0 || j == 0);
                        vf::same(M.values[4 * i + j], Complex(0., hop ? -1. : (two ? 0.5 : 0.)),
                                 "elements of the matrix");
                    }
                }
                trivial->steps = trivial->steps + 1;
            }
        };
    } // namespace ode
} // namespace ieompp

#define DynamicVector FourNumbers
#define DynamicMatrix FourByFour
#define ostream lines_out
#define ofstream file_of_lines
#define main program
#include "../src/hubbard/hubbard_trivial.cpp"

void ob_run()
{
    TrivialRun r;
    trivial = &r;
    vf::claim(program() == 0, "the program succeeds");
    vf::claim(trivial->steps == 2000, "2000 steps");
    vf::claim(trivial->lines == 2001, "one line more");
}
