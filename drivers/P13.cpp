#include "vf.hpp"

#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/types/matrix.hpp"
#include "ieompp/types/triplet.hpp"

#include <array>

namespace ieompp
{
    namespace types
    {
        // joining equal columns keeps the order and never lengthens the list (see P20)
        template <>
        struct TripletList<double, uint64_t> : public std::vector<Triplet<double, uint64_t>> {
            void sort()
            {
                std::sort(this->begin(), this->end(),
                          [](const Triplet<double, uint64_t>& a,
                             const Triplet<double, uint64_t>& b) { return a.column < b.column; });
            }
            TripletList make_columns_unique() const { return *this; }
            bool has_unique_columns() const;
        };
    } // namespace types
} // namespace ieompp

#include "sparse.hpp"

#include "ieompp/models/hubbard_momentum_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse.hpp"
#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"

// a sparse matrix which is filled row by row, as Blaze demands
struct Rows {
    uint64_t rows, columns;
    uint64_t reserved, used;
    uint64_t row, next;

    void resize(uint64_t m, uint64_t n, bool)
    {
        rows    = m;
        columns = n;
    }
    void resize(uint64_t m, uint64_t n)
    {
        rows    = m;
        columns = n;
    }
    void reset()
    {
        used = 0;
        row  = 0;
        next = 0;
    }
    void clear() { reset(); }
    void reserve(uint64_t n) { reserved = n; }
    void append(uint64_t i, uint64_t j, double)
    {
        vf::claim(i < rows && j < columns, "elements lie inside of the matrix");
        vf::claim(i == row, "rows are filled one after another");
        vf::claim(j >= next, "columns of a row ascend");
        next = j;
        ++used;
    }
    void append(uint64_t i, uint64_t j, double x, bool) { append(i, j, x); }
    void finalize(uint64_t i)
    {
        vf::claim(i == row, "every row is finished once, in order");
        ++row;
        next = 0;
    }
};

namespace ieompp
{
    namespace types
    {
        template <>
        struct ScalarType<Rows> {
            using Type = double;
        };
        template <>
        struct IndexType<Rows> {
            using Type = uint64_t;
        };
        template <>
        struct IsMatrix<Rows> {
            static constexpr bool value = true;
        };
    } // namespace types
} // namespace ieompp

#include "basis.hpp"

namespace ieompp
{
    namespace models
    {
        namespace hubbard_momentum_space
        {
            // one operator and one product for every pair of momenta
            template <>
            struct Basis3Operator<Three> {
                using Monomial   = Three;
                using BasisIndex = uint64_t;
                uint64_t N;

                uint64_t size() const { return 1 + N * N; }
                const Three& operator[](uint64_t i) const;
            };
        } // namespace hubbard_momentum_space
    }     // namespace models
} // namespace ieompp

using namespace ieompp::algebra;
namespace hrs = ieompp::models::hubbard_real_space;
namespace hms = ieompp::models::hubbard_momentum_space;
using Mon     = Monomial<Op>;
using L       = hrs::Liouvillian<double>;

struct Expectation {
    double operator()(uint64_t a, uint64_t b) const;
};

void ob_kinetic(L l, Lattice lattice, Rows m)
{
    vf::assume(lattice.n >= 1);
    const hrs::Basis1Operator<Mon> basis(lattice);
    hrs::init_kinetic_matrix(l, m, basis, lattice);
    vf::claim(m.rows == lattice.n && m.columns == lattice.n, "size of the matrix");
    vf::claim(m.row == m.rows, "every row is finished");
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

void ob_kinetic_no(L l, Lattice lattice, Rows m)
{
    vf::assume(lattice.n >= 1);
    const hrs::Basis1Operator<Mon> basis(lattice);
    hrs::init_kinetic_matrix_no(l, m, basis, lattice);
    vf::claim(m.rows == lattice.n && m.columns == lattice.n, "size of the matrix");
    vf::claim(m.row == m.rows, "every row is finished");
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

using Basis3 = hrs::Basis3Operator<Three>;

void ob_matrix(L l, uint64_t n, Rows m)
{
    vf::assume(n >= 1);
    const Basis3 basis{n, n * n};
    const Lattice lattice{basis.N};
    hrs::init_matrix(l, m, basis, lattice);
    vf::claim(m.rows == basis.size() && m.columns == basis.size(), "size of the matrix");
    vf::claim(m.row == m.rows, "every row is finished");
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

void ob_matrix_no(L l, uint64_t n, Rows m, Expectation ev)
{
    vf::assume(n >= 1);
    const Basis3 basis{n, n * n};
    const Lattice lattice{basis.N};
    hrs::init_matrix_no(l, m, basis, lattice, ev);
    vf::claim(m.rows == basis.size() && m.columns == basis.size(), "size of the matrix");
    vf::claim(m.row == m.rows, "every row is finished");
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

// any dispersion relation
struct Disp {
    using Float = double;
    double operator()(uint64_t k) const;
};

void ob_momentum(hms::Liouvillian<double, Disp> l, uint64_t n, Rows m)
{
    vf::assume(n >= 1);
    const hms::Basis3Operator<Three> basis{n};
    const Lattice lattice{n};
    hms::init_matrix(l, m, basis, lattice);
    vf::claim(m.rows == basis.size() && m.columns == basis.size(), "size of the matrix");
    vf::claim(m.row == m.rows, "every row is finished");
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

// a lattice with four neighbours per site: as many elements are reserved
struct Square {
    static constexpr uint64_t coordination_number = 4;
    using Iterator = ieompp::iterators::IntegerIterator<uint64_t, true>;

    uint64_t n;
    uint64_t size() const { return n; }
    Iterator begin() const { return Iterator(0); }
    Iterator end() const { return Iterator(n); }
    std::array<uint64_t, 4> neighbors(uint64_t i) const
    {
        return {{neighbor(i, 0) % n, neighbor(i, 1) % n, neighbor(i, 2) % n, neighbor(i, 3) % n}};
    }
    uint64_t neighbor(uint64_t i, uint64_t direction) const;
};

// a sparse matrix that only counts its elements
struct Counted {
    uint64_t reserved, used;

    void resize(uint64_t, uint64_t, bool) {}
    void resize(uint64_t, uint64_t) {}
    void reset() { used = 0; }
    void clear() { reset(); }
    void reserve(uint64_t n) { reserved = n; }
    void append(uint64_t, uint64_t, double) { ++used; }
    void append(uint64_t, uint64_t, double, bool) { ++used; }
    void finalize(uint64_t) {}
};

namespace ieompp
{
    namespace types
    {
        template <>
        struct ScalarType<Counted> {
            using Type = double;
        };
        template <>
        struct IndexType<Counted> {
            using Type = uint64_t;
        };
        template <>
        struct IsMatrix<Counted> {
            static constexpr bool value = true;
        };
    } // namespace types
} // namespace ieompp

void ob_square_kinetic(L l, Square lattice, Counted m)
{
    vf::assume(lattice.n >= 1);
    const hrs::Basis1Operator<Mon> basis(lattice);
    hrs::init_kinetic_matrix(l, m, basis, lattice);
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

void ob_square_kinetic_no(L l, Square lattice, Counted m)
{
    vf::assume(lattice.n >= 1);
    const hrs::Basis1Operator<Mon> basis(lattice);
    hrs::init_kinetic_matrix_no(l, m, basis, lattice);
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

void ob_square_matrix(L l, uint64_t n, Counted m)
{
    vf::assume(n >= 1);
    const Basis3 basis{n, n * n};
    hrs::init_matrix(l, m, basis, Square{n});
    vf::claim(m.used <= m.reserved, "there is room for every element");
}

void ob_square_matrix_no(L l, uint64_t n, Counted m, Expectation ev)
{
    vf::assume(n >= 1);
    const Basis3 basis{n, n * n};
    hrs::init_matrix_no(l, m, basis, Square{n}, ev);
    vf::claim(m.used <= m.reserved, "there is room for every element");
}
