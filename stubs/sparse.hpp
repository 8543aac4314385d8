#pragma once
// stand-ins for the matrices, bases and lattices the assembly functions are given
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/types/matrix.hpp"

#include <array>
#include <cstdint>

// a sparse matrix that only remembers its size and one element: what has been appended there
struct Matrix {
    uint64_t r, c;
    double element;
    uint64_t rows, columns;

    void resize(uint64_t m, uint64_t n, bool)
    {
        rows    = m;
        columns = n;
    }
    void resize(uint64_t m, uint64_t n)
    {
        rows    = m;
        columns = n;
    }
    void reset() { element = 0.; }
    void clear() { element = 0.; }
    void reserve(uint64_t) {}
    void append(uint64_t i, uint64_t j, double x)
    {
        if(i == r && j == c) {
            element += x;
        }
    }
    void append(uint64_t i, uint64_t j, double x, bool) { append(i, j, x); }
    void finalize(uint64_t) {}
};

namespace ieompp
{
    namespace types
    {
        template <>
        struct ScalarType<Matrix> {
            using Type = double;
        };
        template <>
        struct IndexType<Matrix> {
            using Type = uint64_t;
        };
        template <>
        struct IsMatrix<Matrix> {
            static constexpr bool value = true;
        };
    } // namespace types
} // namespace ieompp

using Op = ieompp::algebra::Operator<uint64_t, bool>;

// products of three operators; the bases themselves are the subject of P10
struct Three {
    using Operator = Op;
    std::array<Op, 3> ops;
    const Op& operator[](std::size_t i) const { return ops[i]; }
    const Op& front() const { return ops[0]; }
    const Op& back() const { return ops[2]; }
    std::size_t size() const { return 3; }
    auto begin() const { return ops.begin(); }
    auto end() const { return ops.end(); }
};

// any lattice
struct Lattice {
    static constexpr uint64_t coordination_number = 2;
    using Iterator = ieompp::iterators::IntegerIterator<uint64_t, true>;

    uint64_t n;
    uint64_t size() const { return n; }
    Iterator begin() const { return Iterator(0); }
    Iterator end() const { return Iterator(n); }
    std::array<uint64_t, 2> neighbors(uint64_t i) const
    {
        return {{first_neighbor(i) % n, second_neighbor(i) % n}};
    }
    uint64_t first_neighbor(uint64_t i) const;
    uint64_t second_neighbor(uint64_t i) const;
};
