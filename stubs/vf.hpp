#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
// Vocabulary of the obligation files. Everything here is declared only: the
// abstract interpreter gives it meaning, nothing is ever compiled to code.
namespace vf
{
    // restricts the inputs an obligation talks about
    void assume(bool);
    // asks for a proof that the condition is true for every input
    void claim(bool, const char* what);
    // asks for a proof that two values agree for every input
    template <typename A, typename B>
    void same(const A&, const B&, const char* what);
    // an arbitrary value / arbitrary sequence of the given type
    template <typename T>
    T any(const char* name);
    template <typename T>
    T any_seq(const char* name);
    // what has been written to a string stream so far
    template <typename S>
    std::string text(const S&);
    template <typename T>
    bool is_sum(const T&);
}
