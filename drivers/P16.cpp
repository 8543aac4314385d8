#include "vf.hpp"

#include <complex>

#include "sparse.hpp"

#include "ieompp/types/blaze.hpp"

#include "ieompp/constants.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump.hpp"
#include "ieompp/models/hubbard_real_space/fermi_jump_no.hpp"

#include "basis.hpp"

namespace hrs  = ieompp::models::hubbard_real_space;
using Complex  = std::complex<double>;
using Vector   = blaze::DynamicVector<Complex>;
using Basis1   = hrs::Basis1Operator<Three>;
using Basis3   = hrs::Basis3Operator<Three>;
using Function = std::function<double(const Op&, const Op&)>;

// a lattice in one dimension, with sites at any positions
struct Line {
    uint64_t n;
    uint64_t size() const { return n; }
    double operator[](uint64_t i) const;
};

namespace
{
    Complex phase(double x) { return Complex(std::cos(x), std::sin(x)); }

    double square(const Complex& x) { return x.real() * x.real() + x.imag() * x.imag(); }
} // namespace

void ob_line(Line lattice, Function ev, double k_F, Vector h, const Basis1& basis)
{
    vf::assume(h.size() >= lattice.n);
    const hrs::FermiJump1D<double, Basis1> jump(lattice, ev, k_F);
    Complex sum = 0.;
    for(uint64_t i = 0; i < lattice.n; ++i) {
        sum += phase(k_F * lattice[i]) * h[i];
    }
    vf::same(jump(basis, h), square(sum), "jump is the squared amplitude at the Fermi momentum");
}

void ob_line_parts(Line lattice, Function ev, double k_F, uint64_t i, const Op& a, const Op& b)
{
    vf::assume(i < lattice.n);
    hrs::FermiJump1D<double, Basis1> jump(lattice, ev, k_F);
    vf::same(jump.fourier_coefficient(i), phase(k_F * lattice[i]), "Fourier coefficient of a site");
    vf::same(jump.expectation_value(a, b), ev(a, b), "expectation values are the given ones");
}

// elements of the basis of products of three operators are joined with their contractions
Complex joined(const Basis3& basis, const Function& ev, const Vector& h, uint64_t i)
{
    Complex sum = h[i];
    for(uint64_t j = 0; j < basis.N; ++j) {
        for(uint64_t k = 0; k < basis.N; ++k) {
            const auto c = 2. * ev(basis[j].front(), basis[k].front()) - (j == k ? 1. : 0.);
            sum += c * h[basis.get_3op_index(i, j, k)];
        }
    }
    return sum;
}

void ob_line_3(uint64_t n, Function ev, double k_F, Vector h)
{
    const Basis3 basis{n, n * n};
    vf::assume(h.size() == basis.size());
    const Line lattice{n};
    const hrs::FermiJump1D<double, Basis3> jump(basis, lattice, ev, k_F);
    Complex sum = 0.;
    for(uint64_t i = 0; i < n; ++i) {
        sum += phase(k_F * lattice[i]) * joined(basis, ev, h, i);
    }
    vf::same(jump(h), square(sum), "jump is the squared amplitude at the Fermi momentum");
}

void ob_line_3_parts(uint64_t n, Function ev, double k_F, uint64_t i)
{
    vf::assume(i < n);
    const Basis3 basis{n, n * n};
    const Line lattice{n};
    hrs::FermiJump1D<double, Basis3> jump(basis, lattice, ev, k_F);
    vf::claim(jump.fourier_coefficients().size() == n, "one Fourier coefficient per site");
    const auto& same = jump;
    vf::same(jump.fourier_coefficients()[i], phase(k_F * lattice[i]),
             "Fourier coefficient of a site");
    vf::same(same.fourier_coefficients()[i], phase(k_F * lattice[i]),
             "Fourier coefficient of a site");
}

void ob_normal_order_1(Line lattice, Function ev, Vector h)
{
    vf::assume(h.size() >= lattice.n);
    const hrs::FermiJump1D_NO<double, Basis1> jump(lattice, ev);
    Complex sum = 0.;
    for(uint64_t i = 0; i < lattice.n; ++i) {
        sum += phase(ieompp::Pi<double>::value / 2. * lattice[i]) * h[i];
    }
    vf::same(jump(h), square(sum), "jump is the squared amplitude at half filling");
}

void ob_normal_order_3(Line lattice, Function ev, Vector h)
{
    vf::assume(h.size() >= lattice.n);
    const hrs::FermiJump1D_NO<double, Basis3> jump(lattice, ev);
    Complex sum = 0.;
    for(uint64_t i = 0; i < lattice.n; ++i) {
        sum += phase(ieompp::Pi<double>::value / 2. * lattice[i]) * h[i];
    }
    vf::same(jump(h), square(sum), "jump is the squared amplitude at half filling");
}

void ob_normal_order_parts(Line lattice, Function ev, uint64_t i, const Op& a, const Op& b)
{
    vf::assume(i < lattice.n);
    hrs::FermiJump1D_NO<double, Basis1> first(lattice, ev);
    hrs::FermiJump1D_NO<double, Basis3> second(lattice, ev);
    const auto expected = phase(ieompp::Pi<double>::value / 2. * lattice[i]);
    vf::same(first.fourier_coefficient(i), expected, "Fourier coefficient of a site");
    vf::same(second.fourier_coefficient(i), expected, "Fourier coefficient of a site");
    vf::same(first.expectation_value(a, b), ev(a, b), "expectation values are the given ones");
    vf::same(second.expectation_value(a, b), ev(a, b), "expectation values are the given ones");
}

// a lattice in two dimensions
struct Plane {
    using Vector = blaze::StaticVector<double, 2>;
    uint64_t n;
    uint64_t size() const { return n; }
    Vector operator[](uint64_t i) const { return Vector(x(i), y(i)); }
    double x(uint64_t i) const;
    double y(uint64_t i) const;
};

void ob_plane(uint64_t n, Function ev, const Plane::Vector& k_F, Vector h)
{
    const Basis3 basis{n, n * n};
    vf::assume(h.size() == basis.size());
    const Plane lattice{n};
    const hrs::FermiJump2D<double, Basis3> jump(basis, lattice, ev, k_F);
    Complex sum = 0.;
    for(uint64_t i = 0; i < n; ++i) {
        sum += phase(k_F[0] * lattice.x(i) + k_F[1] * lattice.y(i))
               * joined(basis, ev, h, i);
    }
    vf::same(jump(h), square(sum), "jump is the squared amplitude at the Fermi momentum");
}

void ob_plane_parts(uint64_t n, Function ev, const Plane::Vector& k_F, uint64_t i)
{
    vf::assume(i < n);
    const Basis3 basis{n, n * n};
    const Plane lattice{n};
    hrs::FermiJump2D<double, Basis3> jump(basis, lattice, ev, k_F);
    const auto& same    = jump;
    const auto expected = phase(k_F[0] * lattice.x(i) + k_F[1] * lattice.y(i));
    vf::claim(jump.fourier_coefficients().size() == n, "one Fourier coefficient per site");
    vf::same(jump.fourier_coefficients()[i], expected, "Fourier coefficient of a site");
    vf::same(same.fourier_coefficients()[i], expected, "Fourier coefficient of a site");
}
