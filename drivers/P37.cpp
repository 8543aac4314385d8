// Filling matrices: with the values of a function, and element by element.
#include "vf.hpp"

#include <complex>
#include <functional>

#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <blaze/Blaze.h>

// the element somebody looks at
namespace watched
{
    uint64_t row();
    uint64_t column();
} // namespace watched

// matrices that remember their size and the watched element; positions must lie inside
namespace Eigen
{
    using Value = std::complex<double>;
    // elements nobody looks at
    double other(long i, long j);

    struct Written {
        uint64_t times, rows, columns;
        // the watched element and its mirror image
        Value value, mirror;
    };
    struct Place {
        Written* m;
        long i, j;
        bool here, there;
        operator Value() const
        {
            return here ? m->value : there ? m->mirror : Value(other(i, j), other(j, i));
        }
        Place& operator=(const Value& x)
        {
            if(here) {
                m->times = m->times + 1;
                m->value = x;
            }
            if(there) {
                m->mirror = x;
            }
            return *this;
        }
        Place& operator=(const Place& x) { return *this = static_cast<Value>(x); }
    };
    inline Place place(Written& w, long i, long j)
    {
        vf::claim(i >= 0 && j >= 0 && static_cast<uint64_t>(i) < w.rows
                      && static_cast<uint64_t>(j) < w.columns,
                  "elements lie inside the matrix");
        const auto k = static_cast<uint64_t>(i), l = static_cast<uint64_t>(j);
        return Place{&w, i, j, k == watched::row() && l == watched::column(),
                     l == watched::row() && k == watched::column()};
    }
    inline void clear(Written& w, long rows, long columns)
    {
        w.times   = 0;
        w.rows    = static_cast<uint64_t>(rows);
        w.columns = static_cast<uint64_t>(columns);
        w.value   = 0.;
        w.mirror  = 0.;
    }

    template <>
    class SparseMatrix<std::complex<double>, 0, long>
    {
    public:
        using Scalar = std::complex<double>;
        Written w;
        SparseMatrix() { clear(w, 0, 0); }
        SparseMatrix(long rows, long columns) { clear(w, rows, columns); }
        void resize(long rows, long columns) { clear(w, rows, columns); }
        void setZero() { clear(w, rows(), cols()); }
        void reserve(long) {}
        void makeCompressed() {}
        long rows() const { return static_cast<long>(w.rows); }
        long cols() const { return static_cast<long>(w.columns); }
        Place insert(long i, long j) { return place(w, i, j); }
    };
    template <>
    class Matrix<std::complex<double>, Dynamic, Dynamic, 0, Dynamic, Dynamic>
    {
    public:
        using Scalar = std::complex<double>;
        Written w;
        Matrix() { clear(w, 0, 0); }
        Matrix(long rows, long columns)
        {
            clear(w, rows, columns);
            w.value  = Value(other(-1, -1), other(-2, -1));
            w.mirror = Value(other(-3, -1), other(-4, -1));
        }
        static Matrix Zero(long rows, long columns)
        {
            Matrix m;
            clear(m.w, rows, columns);
            return m;
        }
        void resize(long rows, long columns) { *this = Matrix(rows, columns); }
        void setZero() { clear(w, rows(), cols()); }
        void setZero(long rows, long columns) { clear(w, rows, columns); }
        long rows() const { return static_cast<long>(w.rows); }
        long cols() const { return static_cast<long>(w.columns); }
        Place operator()(long i, long j) { return place(w, i, j); }
    };
} // namespace Eigen

// a sparse matrix of the other library
namespace blaze
{
    template <>
    class CompressedMatrix<float, rowMajor>
    {
    public:
        using ElementType = float;
        size_t times = 0, row = 0, column = 0;
        float value = 0;
        size_t rows() const;
        size_t columns() const;
        void insert(size_t i, size_t j, const float& v)
        {
            times  = times + 1;
            row    = i;
            column = j;
            value  = v;
        }
    };
} // namespace blaze

#include "ieompp/types/blaze/matrix_insert.hpp"
#include "ieompp/types/eigen/init.hpp"
#include "ieompp/types/number/is_zero.hpp"

namespace t  = ieompp::types;
using Number = std::complex<double>;
using Sparse = Eigen::SparseMatrix<Number, 0, long>;
using Dense  = Eigen::Matrix<Number, Eigen::Dynamic, Eigen::Dynamic>;

// the function
double re(int64_t i, int64_t j);
double im(int64_t i, int64_t j);
Number f(int64_t i, int64_t j) { return Number(re(i, j), im(i, j)); }

void size_is(const Eigen::Written& w, int64_t rows, int64_t columns)
{
    vf::claim(w.rows == static_cast<uint64_t>(rows) && w.columns == static_cast<uint64_t>(columns),
              "the matrix has the size asked for");
}

void ob_sparse(int64_t rows, int64_t columns)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(i >= 0 && j >= 0 && i < rows && j < columns);
    Sparse m;
    t::init(m, rows, columns, [](long k, long l) { return f(k, l); });
    size_is(m.w, rows, columns);
    vf::claim(m.w.times == (t::IsZero(f(i, j)) ? 0 : 1),
              "elements that do not vanish are inserted, once");
    if(!t::IsZero(f(i, j))) {
        vf::same(m.w.value, f(i, j), "every element is the value of the function");
    }
}

void sparse_symmetric(int64_t rows, const Number& x)
{
    Sparse m;
    t::init_symmetric(m, rows, [](long k, long l) { return f(k, l); });
    size_is(m.w, rows, rows);
    vf::claim(m.w.times == (t::IsZero(x) ? 0 : 1),
              "elements that do not vanish are inserted, once");
    if(!t::IsZero(x)) {
        vf::same(m.w.value, x, "both triangles hold the value of the lower one");
    }
}

void ob_sparse_lower(int64_t rows)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(j >= 0 && j < i && i < rows);
    sparse_symmetric(rows, f(i, j));
}

void ob_sparse_diagonal(int64_t rows)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(j >= 0 && j == i && i < rows);
    sparse_symmetric(rows, f(i, j));
}

void ob_sparse_upper(int64_t rows)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(i >= 0 && i < j && j < rows);
    sparse_symmetric(rows, f(j, i));
}

void ob_dense(int64_t rows, int64_t columns)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(i >= 0 && j >= 0 && i < rows && j < columns);
    Dense m;
    t::init(m, rows, columns, [](long k, long l) { return f(k, l); });
    size_is(m.w, rows, columns);
    vf::same(m.w.value, f(i, j), "every element is the value of the function");
}

void dense_symmetric(int64_t rows, const Number& x)
{
    Dense m;
    t::init_symmetric(m, rows, [](long k, long l) { return f(k, l); });
    size_is(m.w, rows, rows);
    vf::same(m.w.value, x, "both triangles hold the value of the lower one");
}

void ob_dense_lower(int64_t rows)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(j >= 0 && j < i && i < rows);
    dense_symmetric(rows, f(i, j));
}

void ob_dense_diagonal(int64_t rows)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(j >= 0 && j == i && i < rows);
    dense_symmetric(rows, f(i, j));
}

void ob_dense_upper(int64_t rows)
{
    const int64_t i = watched::row(), j = watched::column();
    vf::assume(i >= 0 && i < j && j < rows);
    dense_symmetric(rows, f(j, i));
}

void ob_insert(uint64_t i, uint64_t j)
{
    const float x = vf::any<float>("x");
    blaze::CompressedMatrix<float, blaze::rowMajor> m;
    t::matrix_insert(m, i, j, x);
    vf::claim(m.times == 1 && m.row == i && m.column == j, "the element is inserted where it belongs");
    vf::same(m.value, x, "the element has its value");
}
