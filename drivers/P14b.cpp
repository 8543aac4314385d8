// Products with a matrix given by a function, for the vectors of Eigen.
#include "vf.hpp"

#include <complex>
#include <functional>

#include "ieompp/types/eigen/dot_product.hpp"
#include "ieompp/types/eigen/multiply_assign.hpp"

using Function = ieompp::types::FunctionMatrix<double, long>;

double element(long row, long column);

Eigen::VectorXd vector_of(const std::vector<double>& v)
{
    Eigen::VectorXd x;
    x.data_ = v;
    return x;
}

void ob_multiply_eigen(const std::vector<double>& v, std::size_t i)
{
    const long n = v.size();
    vf::assume(i < v.size());
    auto x = vector_of(v);
    const Function m(n, n, [](long k, long l) { return element(k, l); });
    double sum = 0.;
    for(long j = 0; j < n; ++j) {
        sum += element(i, j) * v[j];
    }
    ieompp::types::multiply_assign(m, x);
    vf::claim(x.rows() == n, "the product has as many elements");
    vf::same(x(i), sum, "every element is the sum of its row");
}

void ob_dot_eigen(const std::vector<double>& v, const std::vector<double>& w)
{
    vf::assume(v.size() == w.size());
    double sum = 0.;
    for(std::size_t j = 0; j < v.size(); ++j) {
        sum += v[j] * w[j];
    }
    vf::same(ieompp::types::dot_product(vector_of(v), vector_of(w)), sum, "the scalar product");
}
