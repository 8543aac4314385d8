#pragma once
// include after the headers of the real-space model and sparse.hpp
// any basis of products of three operators (see P10)
namespace ieompp
{
    namespace models
    {
        namespace hubbard_real_space
        {
            template <>
            struct Basis3Operator<Three> {
                using Monomial     = Three;
                using MonomialType = Three;
                using BasisIndex   = uint64_t;
                uint64_t N, N_squared;

                uint64_t size() const { return N + N * N_squared; }
                Three operator[](uint64_t i) const
                {
                    // the first elements are single operators, one for each site
                    const auto site = i < N ? i : first(i) % N;
                    return Three{{{Op{true, site, true}, Op{true, second(i) % N, false},
                                   Op{false, third(i) % N, false}}}};
                }
                uint64_t get_3op_index(uint64_t a, uint64_t b, uint64_t c) const
                {
                    return N + position(a, b, c) % (N * N_squared);
                }
                uint64_t first(uint64_t i) const;
                uint64_t second(uint64_t i) const;
                uint64_t third(uint64_t i) const;
                uint64_t position(uint64_t a, uint64_t b, uint64_t c) const;
            };
        } // namespace hubbard_real_space
    }     // namespace models
} // namespace ieompp

