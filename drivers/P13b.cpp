#include "vf.hpp"

#include "ieompp/algebra/monomial/monomial.hpp"
#include "ieompp/algebra/operator/operator.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/types/matrix.hpp"
#include "ieompp/types/triplet.hpp"

#include <array>

// the column under consideration
extern const uint64_t watched;

namespace ieompp
{
    namespace types
    {
        // all that matters here is whether the watched column occurs, and how often
        template <>
        struct TripletList<double, uint64_t> : public std::vector<Triplet<double, uint64_t>> {
            void sort() {}
            TripletList make_columns_unique() const
            {
                TripletList u;
                if(has_watched()) {
                    u.emplace_back(0, watched, 0.);
                }
                return u;
            }
            bool has_watched() const;
            bool has_unique_columns() const;
        };
    } // namespace types
} // namespace ieompp

#include "sparse.hpp"

#include "ieompp/models/hubbard_real_space/blaze_sparse_no.hpp"

#include "basis.hpp"

namespace hrs = ieompp::models::hubbard_real_space;
using L       = hrs::Liouvillian<double>;
using Basis3  = hrs::Basis3Operator<Three>;

struct Expectation {
    double operator()(uint64_t a, uint64_t b) const;
};

// counts how often an element of one row and column is given
struct Count {
    uint64_t row;
    double count;

    void resize(uint64_t, uint64_t, bool) {}
    void resize(uint64_t, uint64_t) {}
    void reset() { count = 0.; }
    void clear() { count = 0.; }
    void reserve(uint64_t) {}
    void append(uint64_t i, uint64_t j, double)
    {
        if(i == row && j == watched) {
            count += 1.;
        }
    }
    void append(uint64_t i, uint64_t j, double x, bool) { append(i, j, x); }
    void finalize(uint64_t) {}
};

namespace ieompp
{
    namespace types
    {
        template <>
        struct ScalarType<Count> {
            using Type = double;
        };
        template <>
        struct IndexType<Count> {
            using Type = uint64_t;
        };
        template <>
        struct IsMatrix<Count> {
            static constexpr bool value = true;
        };
    } // namespace types
} // namespace ieompp

void ob_once(L l, uint64_t n, Count m, Expectation ev)
{
    vf::assume(n >= 1);
    const Basis3 basis{n, n * n};
    vf::assume(m.row >= n && m.row < basis.size());
    const Lattice lattice{basis.N};
    hrs::init_matrix_no(l, m, basis, lattice, ev);
    // zero or one
    vf::same(m.count * m.count, m.count, "every element of a row is given once");
}
