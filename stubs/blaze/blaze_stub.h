// Minimal stand-in for the parts of the Blaze library which ieompp mentions.
// It is only ever parsed; the abstract interpreter evaluates the bodies below.
#pragma once
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace blaze
{
    using std::size_t;
    constexpr bool columnVector = false;
    constexpr bool rowVector    = true;
    constexpr bool rowMajor     = false;
    constexpr bool columnMajor  = true;

    template <typename T, size_t N, bool TF = columnVector>
    class StaticVector
    {
    public:
        using ElementType = T;

    private:
        std::array<T, N> _v;

    public:
        StaticVector() : _v{} {}
        explicit StaticVector(const T& a) : _v{{a, a}} {}
        StaticVector(const T& a, const T& b) : _v{{a, b}} {}
        T& operator[](size_t i) { return _v[i]; }
        const T& operator[](size_t i) const { return _v[i]; }
        size_t size() const { return N; }
        auto begin() { return _v.begin(); }
        auto end() { return _v.end(); }
        auto begin() const { return _v.begin(); }
        auto end() const { return _v.end(); }
    };

    template <typename T, bool TF>
    StaticVector<T, 2, TF> operator+(const StaticVector<T, 2, TF>& a,
                                     const StaticVector<T, 2, TF>& b)
    {
        return StaticVector<T, 2, TF>(a[0] + b[0], a[1] + b[1]);
    }

    template <typename T, bool TF>
    StaticVector<T, 2, TF> operator-(const StaticVector<T, 2, TF>& a,
                                     const StaticVector<T, 2, TF>& b)
    {
        return StaticVector<T, 2, TF>(a[0] - b[0], a[1] - b[1]);
    }

    template <typename S, typename T, bool TF,
              typename std::enable_if<std::is_arithmetic<S>::value, int>::type = 0>
    StaticVector<T, 2, TF> operator*(const S& a, const StaticVector<T, 2, TF>& b)
    {
        return StaticVector<T, 2, TF>(a * b[0], a * b[1]);
    }

    template <typename S, typename T, bool TF,
              typename std::enable_if<std::is_arithmetic<S>::value, int>::type = 0>
    StaticVector<T, 2, TF> operator*(const StaticVector<T, 2, TF>& a, const S& b)
    {
        return StaticVector<T, 2, TF>(a[0] * b, a[1] * b);
    }

    template <typename S, typename T, bool TF,
              typename std::enable_if<std::is_arithmetic<S>::value, int>::type = 0>
    StaticVector<T, 2, TF> operator/(const StaticVector<T, 2, TF>& a, const S& b)
    {
        return StaticVector<T, 2, TF>(a[0] / b, a[1] / b);
    }

    template <typename T, bool TF>
    StaticVector<T, 2, TF> operator-(const StaticVector<T, 2, TF>& a)
    {
        return StaticVector<T, 2, TF>(-a[0], -a[1]);
    }

    template <typename T, bool TF>
    StaticVector<T, 2, TF>& operator+=(StaticVector<T, 2, TF>& a, const StaticVector<T, 2, TF>& b)
    {
        a[0] += b[0];
        a[1] += b[1];
        return a;
    }

    template <typename T, bool TF>
    StaticVector<T, 2, TF>& operator-=(StaticVector<T, 2, TF>& a, const StaticVector<T, 2, TF>& b)
    {
        a[0] -= b[0];
        a[1] -= b[1];
        return a;
    }

    template <typename S, typename T, bool TF,
              typename std::enable_if<std::is_arithmetic<S>::value, int>::type = 0>
    StaticVector<T, 2, TF>& operator*=(StaticVector<T, 2, TF>& a, const S& b)
    {
        a[0] *= b;
        a[1] *= b;
        return a;
    }

    template <typename S, typename T, bool TF,
              typename std::enable_if<std::is_arithmetic<S>::value, int>::type = 0>
    StaticVector<T, 2, TF>& operator/=(StaticVector<T, 2, TF>& a, const S& b)
    {
        a[0] /= b;
        a[1] /= b;
        return a;
    }

    template <typename T, bool TF, bool TG>
    T dot(const StaticVector<T, 2, TF>& a, const StaticVector<T, 2, TG>& b)
    {
        return a[0] * b[0] + a[1] * b[1];
    }

    template <typename T, bool TF, bool TG>
    T inner(const StaticVector<T, 2, TF>& a, const StaticVector<T, 2, TG>& b)
    {
        return a[0] * b[0] + a[1] * b[1];
    }

    template <typename T, bool TF>
    bool operator!=(const StaticVector<T, 2, TF>& a, const StaticVector<T, 2, TF>& b)
    {
        return a[0] != b[0] || a[1] != b[1];
    }

    template <typename T, bool TF>
    bool operator==(const StaticVector<T, 2, TF>& a, const StaticVector<T, 2, TF>& b)
    {
        return a[0] == b[0] && a[1] == b[1];
    }

    template <typename T, bool TF>
    T sqrNorm(const StaticVector<T, 2, TF>& a)
    {
        return a[0] * a[0] + a[1] * a[1];
    }

    template <typename T, bool TF>
    T sqrLength(const StaticVector<T, 2, TF>& a)
    {
        return a[0] * a[0] + a[1] * a[1];
    }

    template <typename T, bool TF>
    T length(const StaticVector<T, 2, TF>& a)
    {
        return std::sqrt(a[0] * a[0] + a[1] * a[1]);
    }

    template <typename T, bool TF>
    T norm(const StaticVector<T, 2, TF>& a)
    {
        return std::sqrt(a[0] * a[0] + a[1] * a[1]);
    }

    template <typename T, bool TF>
    T sum(const StaticVector<T, 2, TF>& a)
    {
        return a[0] + a[1];
    }

    template <typename T, bool TF>
    StaticVector<T, 2, !TF> trans(const StaticVector<T, 2, TF>& a)
    {
        return StaticVector<T, 2, !TF>(a[0], a[1]);
    }

    template <typename T>
    T operator*(const StaticVector<T, 2, rowVector>& a, const StaticVector<T, 2, columnVector>& b)
    {
        return a[0] * b[0] + a[1] * b[1];
    }

    // engine/models.py knows what these do
    template <typename T, bool TF = columnVector>
    class DynamicVector
    {
    public:
        using ElementType = T;

        DynamicVector();
        explicit DynamicVector(size_t n);
        DynamicVector(size_t n, const T& x);
        size_t size() const;
        T& operator[](size_t i);
        const T& operator[](size_t i) const;
        T& operator()(size_t i);
        const T& operator()(size_t i) const;
        void resize(size_t n, bool preserve = true);
        void reset();
        void swap(DynamicVector& o);
    };

    template <typename T, bool TF = columnVector>
    class CompressedVector
    {
    public:
        using ElementType = T;
        size_t size() const;
    };

    template <typename T, bool SO = rowMajor>
    class DynamicMatrix
    {
    public:
        using ElementType = T;
        size_t rows() const;
        size_t columns() const;
        const T& operator()(size_t i, size_t j) const;
    };

    template <typename T, bool SO = rowMajor>
    class CompressedMatrix
    {
    public:
        using ElementType = T;
        size_t rows() const;
        size_t columns() const;
        void resize(size_t m, size_t n, bool preserve = true);
        void reset();
        void reserve(size_t n);
        void append(size_t i, size_t j, const T& v, bool check = false);
        void finalize(size_t i);
        void insert(size_t i, size_t j, const T& v);
        T operator()(size_t i, size_t j) const;
        size_t nonZeros() const;
    };

    template <typename Stream>
    class Archive
    {
    public:
        explicit Archive(Stream& s);
        template <typename T>
        Archive& operator<<(const T& v);
        template <typename T>
        Archive& operator>>(T& v);
    };
} // namespace blaze
