// the result is real only if the expectation values are hermitian, which is up to the caller
#define NDEBUG
#include "vf.hpp"

#include <complex>

#include "ieompp/models/hubbard_real_space/basis.hpp"

#include "products.hpp"

#include "ieompp/models/hubbard_real_space/site_occupation.hpp"

namespace hrs  = ieompp::models::hubbard_real_space;
using Basis1   = hrs::Basis1Operator<Product>;
using Basis3   = hrs::Basis3Operator<Product>;
using Function = std::function<double(const Op&, const Op&)>;
using Vector   = std::vector<std::complex<double>>;

double real_part(const std::complex<double>& a, const std::complex<double>& b)
{
    return a.real() * b.real() + a.imag() * b.imag();
}

void ob_one(uint64_t N, Function f, Vector h)
{
    vf::assume(h.size() == N);
    const Basis1 basis{N, false}, conj{N, true};
    const hrs::SiteOccupation<double, Basis1> n{f, basis, conj};
    double sum = 0.;
    for(uint64_t i = 0; i < N; ++i) {
        for(uint64_t j = 0; j < N; ++j) {
            sum += n.expectation_value(basis[i], conj[j]) * real_part(h[i], h[j]) / 2.;
        }
    }
    vf::same(n(h), sum, "occupation is the sum over all pairs of elements of the basis");
}

void ob_three(uint64_t N, Function f, Vector h)
{
    const Basis3 basis{N, N * N, false}, conj{N, N * N, true};
    vf::assume(h.size() == basis.size());
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, false};
    double sum = 0.;
    for(uint64_t i = 0; i < N; ++i) {
        for(uint64_t j = 0; j < N; ++j) {
            sum += n.expectation_value_1_1(basis[i], conj[j]) * real_part(h[i], h[j]) / 2.;
        }
        for(uint64_t j = N; j < basis.size(); ++j) {
            sum += n.expectation_value_1_3(basis[i], conj[j]) * real_part(h[i], h[j]) / 2.;
            sum += n.expectation_value_3_1(basis[j], conj[i]) * real_part(h[i], h[j]) / 2.;
        }
    }
    for(uint64_t i = N; i < basis.size(); ++i) {
        for(uint64_t j = N; j < basis.size(); ++j) {
            sum += n.expectation_value_3_3(basis[i], conj[j]) * real_part(h[i], h[j]) / 2.;
        }
    }
    vf::same(n(h), sum, "occupation is the sum over all pairs of elements of the basis");
}

// pairs of different elements are counted twice
void ob_symmetric(uint64_t N, Function f, Vector h)
{
    const Basis3 basis{N, N * N, false}, conj{N, N * N, true};
    vf::assume(h.size() == basis.size());
    const hrs::SiteOccupation<double, Basis3> n{f, basis, conj, true};
    double sum = 0.;
    for(uint64_t i = 0; i < N; ++i) {
        sum += n.expectation_value_1_1(basis[i], conj[i]) * real_part(h[i], h[i]) / 2.;
        for(uint64_t j = 0; j < i; ++j) {
            sum += n.expectation_value_1_1(basis[i], conj[j]) * real_part(h[i], h[j]);
        }
        for(uint64_t j = N; j < basis.size(); ++j) {
            sum += n.expectation_value_1_3(basis[i], conj[j]) * real_part(h[i], h[j]);
        }
    }
    for(uint64_t i = N; i < basis.size(); ++i) {
        sum += n.expectation_value_3_3(basis[i], conj[i]) * real_part(h[i], h[i]) / 2.;
        for(uint64_t j = N; j < i; ++j) {
            sum += n.expectation_value_3_3(basis[i], conj[j]) * real_part(h[i], h[j]);
        }
    }
    vf::same(n(h), sum, "occupation is the sum over all pairs of elements of the basis");
}
