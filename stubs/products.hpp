#pragma once
// include after ieompp/models/hubbard_real_space/basis.hpp
// products of one or three operators and the bases made of them (see P10 for the real ones)
#include "ieompp/algebra/operator/operator.hpp"

#include <array>
#include <cstdint>

using Op = ieompp::algebra::Operator<uint64_t, bool>;

struct Product {
    using Operator = Op;
    std::array<Op, 3> ops;
    uint64_t n;
    const Op& operator[](std::size_t i) const { return ops[i]; }
    const Op& front() const { return ops[0]; }
    const Op& back() const { return ops[n - 1]; }
    std::size_t size() const { return n; }
};

inline Product one(uint64_t a) { return Product{{{Op{true, a, true}, Op{}, Op{}}}, 1}; }

inline Product conjugate_of_one(uint64_t a)
{
    return Product{{{Op{false, a, true}, Op{}, Op{}}}, 1};
}

inline Product three(uint64_t a, uint64_t b, uint64_t c)
{
    return Product{{{Op{true, a, true}, Op{true, b, false}, Op{false, c, false}}}, 3};
}

inline Product conjugate_of_three(uint64_t a, uint64_t b, uint64_t c)
{
    return Product{{{Op{true, c, false}, Op{false, b, false}, Op{false, a, true}}}, 3};
}

// sites of the three operators of an element, for one and the same order in all bases
uint64_t first_site(uint64_t i);
uint64_t second_site(uint64_t i);
uint64_t third_site(uint64_t i);

namespace ieompp
{
    namespace models
    {
        namespace hubbard_real_space
        {
            template <>
            struct Basis1Operator<Product> {
                using Monomial   = Product;
                using BasisIndex = uint64_t;
                uint64_t N;
                bool conjugated;

                uint64_t size() const { return N; }
                Product operator[](uint64_t i) const
                {
                    return conjugated ? conjugate_of_one(i) : one(i);
                }
            };

            template <>
            struct Basis3Operator<Product> {
                using Monomial   = Product;
                using BasisIndex = uint64_t;
                uint64_t N, N_squared;
                bool conjugated;

                uint64_t size() const { return N + N * N_squared; }
                Product operator[](uint64_t i) const
                {
                    if(i < N) {
                        return conjugated ? conjugate_of_one(i) : one(i);
                    }
                    const auto a = first_site(i), b = second_site(i), c = third_site(i);
                    return conjugated ? conjugate_of_three(a, b, c) : three(a, b, c);
                }
            };
        } // namespace hubbard_real_space
    }     // namespace models
} // namespace ieompp
