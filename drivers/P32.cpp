#include "vf.hpp"

#include <complex>
#include <iterator>
#include <list>
#include <string>
#include <type_traits>
#include <utility>

#include "ieompp/algebra/monomial.hpp"
#include "ieompp/algebra/operator.hpp"
#include "ieompp/algebra/operator/is_symbolic.hpp"
#include "ieompp/algebra/term.hpp"
#include "ieompp/iterators/integer_iterator.hpp"
#include "ieompp/lattices/periodic_chain.hpp"
#include "ieompp/lattices/periodic_square_lattice.hpp"
#include "ieompp/models/hubbard/operator_traits.hpp"
#include "ieompp/models/hubbard_momentum_space/basis.hpp"
#include "ieompp/models/hubbard_real_space/basis.hpp"
#include "ieompp/symbolic/index.hpp"
#include "ieompp/symbolic/prefactor.hpp"
#include "ieompp/types/blaze.hpp"
#include "ieompp/types/function_matrix.hpp"
#include "ieompp/types/matrix.hpp"
#include "ieompp/types/names.hpp"
#include "ieompp/types/number.hpp"
#include "ieompp/types/triplet.hpp"

namespace a  = ieompp::algebra;
namespace t  = ieompp::types;
namespace h  = ieompp::models::hubbard;
namespace hr = ieompp::models::hubbard_real_space;
namespace hm = ieompp::models::hubbard_momentum_space;
namespace sy = ieompp::symbolic;

using C    = std::complex<double>;
using CL   = std::complex<long double>;
using O1   = a::Operator<unsigned long>;
using Ob   = a::Operator<unsigned long, bool>;
using Oib  = a::Operator<int, bool>;
using Obu  = a::Operator<bool, unsigned long>;
using Oub  = a::Operator<unsigned long, unsigned long>;
using Ofb  = a::Operator<double, bool>;
using Obd  = a::Operator<bool, double>;
using O2d  = a::Operator<unsigned long, int, bool>;
using O3   = a::Operator<unsigned long, bool, bool>;
using O3u  = a::Operator<unsigned long, unsigned long, int>;
using O4   = a::Operator<int, int, int, bool>;
using Oss  = a::Operator<std::string, std::string>;
using Osb  = a::Operator<std::string, bool>;
using Ous  = a::Operator<unsigned long, std::string>;
using O3s  = a::Operator<int, std::string, bool>;
using O3e  = a::Operator<int, bool, std::string>;
using O4s  = a::Operator<std::string, int, int, int>;

template <typename A, typename B>
constexpr bool same_type()
{
    return std::is_same<A, B>::value;
}

void ob_is_operator()
{
    vf::claim(a::IsOperator<O1>::value && a::IsOperator<Ob>::value && a::IsOperator<O3>::value
                  && a::IsOperator<O4>::value && a::IsOperator<Oss>::value,
              "operators of any number of indices are operators");
    vf::claim(!a::IsOperator<int>::value && !a::IsOperator<std::string>::value
                  && !a::IsOperator<a::Monomial<Ob>>::value
                  && !a::IsOperator<a::Term<double, Ob>>::value
                  && !a::IsOperator<std::tuple<bool, int>>::value,
              "numbers, tuples, monomials and terms are no operators");
    vf::claim(O1::number_of_indices == 1, "number of indices of an operator with one index");
    vf::claim(Ob::number_of_indices == 2, "number of indices of an operator with two indices");
    vf::claim(O3::number_of_indices == 3, "number of indices of an operator with three indices");
    vf::claim(O4::number_of_indices == 4, "number of indices of an operator with four indices");
}

void ob_is_term()
{
    vf::claim(a::IsTerm<a::Term<double, Ob>>::value && a::IsTerm<a::Term<C, O1>>::value
                  && a::IsTerm<a::Term<sy::Prefactor<double>, Oss>>::value
                  && a::IsTerm<a::Term<double, Ob, std::list<Ob>>>::value
                  && a::IsTerm<a::Term<double, Ob, a::Monomial<Ob>>>::value,
              "terms of every prefactor and container are terms");
    vf::claim(!a::IsTerm<double>::value && !a::IsTerm<Ob>::value
                  && !a::IsTerm<a::Monomial<Ob>>::value
                  && !a::IsTerm<std::vector<a::Term<double, Ob>>>::value,
              "numbers, operators, monomials and lists of terms are no terms");
}

void ob_index_types()
{
    vf::claim(same_type<a::IndexType<0, O1>::Type, unsigned long>(), "type of the only index");
    vf::claim(same_type<a::IndexType<0, Ob>::Type, unsigned long>()
                  && same_type<a::IndexType<1, Ob>::Type, bool>(),
              "types of two indices");
    vf::claim(same_type<a::IndexType<0, O3s>::Type, int>()
                  && same_type<a::IndexType<1, O3s>::Type, std::string>()
                  && same_type<a::IndexType<2, O3s>::Type, bool>(),
              "types of three indices");
    vf::claim(same_type<decltype(a::get_index<0>(std::declval<const O1&>())),
                        const unsigned long&>()
                  && same_type<decltype(a::get_index<0>(std::declval<const Ob&>())),
                               const unsigned long&>()
                  && same_type<decltype(a::get_index<1>(std::declval<const Ob&>())), const bool&>()
                  && same_type<decltype(a::get_index<2>(std::declval<const O3&>())), const bool&>(),
              "indices of a constant operator cannot be changed");
    vf::claim(same_type<decltype(a::get_index<0>(std::declval<O1&>())), unsigned long&>()
                  && same_type<decltype(a::get_index<0>(std::declval<Ob&>())), unsigned long&>()
                  && same_type<decltype(a::get_index<1>(std::declval<Ob&>())), bool&>()
                  && same_type<decltype(a::get_index<2>(std::declval<O3&>())), bool&>(),
              "indices of an operator are accessed by reference");
}

void ob_get_index_temporary(unsigned long i, unsigned long j, int k, bool s)
{
    vf::claim(a::get_index<0>(O1{true, i}) == i, "index of a temporary with one index");
    vf::claim(a::get_index<0>(Ob{true, i, s}) == i && a::get_index<1>(Ob{true, i, s}) == s,
              "indices of a temporary with two indices");
    vf::claim(a::get_index<0>(a::make_creator(i, j, k)) == i
                  && a::get_index<1>(a::make_creator(i, j, k)) == j
                  && a::get_index<2>(a::make_creator(i, j, k)) == k,
              "indices of a temporary with three indices");
}

void ob_has_index_of_type()
{
    vf::claim(a::HasIndexOfType<O1, unsigned long>::value && !a::HasIndexOfType<O1, bool>::value
                  && !a::HasIndexOfType<O1, int>::value,
              "types of the index of an operator with one index");
    vf::claim(a::HasIndexOfType<Ob, unsigned long>::value && a::HasIndexOfType<Ob, bool>::value
                  && a::HasIndexOfType<Obu, unsigned long>::value
                  && a::HasIndexOfType<Obu, bool>::value && !a::HasIndexOfType<Ob, int>::value,
              "types of the indices of an operator with two indices");
    vf::claim(a::HasIndexOfType<O3s, int>::value && a::HasIndexOfType<O3s, std::string>::value
                  && a::HasIndexOfType<O3s, bool>::value
                  && !a::HasIndexOfType<O3s, unsigned long>::value
                  && !a::HasIndexOfType<O3s, double>::value,
              "types of the indices of an operator with three indices");
    vf::claim(a::HasIndexOfType<O4, bool>::value && a::HasIndexOfType<O4s, std::string>::value
                  && a::HasIndexOfType<O4s, int>::value && !a::HasIndexOfType<O4s, bool>::value,
              "types of the indices of an operator with four indices");
}

void ob_is_symbolic()
{
    vf::claim(!a::IsSymbolicOperator<O1>::value && !a::IsSymbolicOperator<Ob>::value
                  && !a::IsSymbolicOperator<Ofb>::value && !a::IsSymbolicOperator<Obd>::value
                  && !a::IsSymbolicOperator<a::Operator<double>>::value && !a::IsSymbolicOperator<O3u>::value
                  && !a::IsSymbolicOperator<O4>::value,
              "operators whose indices are numbers are not symbolic");
    vf::claim(a::IsSymbolicOperator<Osb>::value && a::IsSymbolicOperator<Ous>::value
                  && a::IsSymbolicOperator<Oss>::value && a::IsSymbolicOperator<O3s>::value
                  && a::IsSymbolicOperator<O3e>::value && a::IsSymbolicOperator<O4s>::value
                  && a::IsSymbolicOperator<a::Operator<sy::SpaceIndex>>::value,
              "operators with at least one index that is no number are symbolic");
    vf::claim(a::IsSymbolicIndex<0, Osb>::value && !a::IsSymbolicIndex<1, Osb>::value
                  && !a::IsSymbolicIndex<0, Ous>::value && a::IsSymbolicIndex<1, Ous>::value
                  && !a::IsSymbolicIndex<0, O3s>::value && a::IsSymbolicIndex<1, O3s>::value
                  && !a::IsSymbolicIndex<2, O3s>::value,
              "an index is symbolic iff it is no number");
}

void ob_hubbard_operators()
{
    vf::claim(h::Is1dHubbardOperator<Ob>::value && h::Is1dHubbardOperator<Oib>::value,
              "a site and a spin are the indices of a one-dimensional Hubbard operator");
    vf::claim(!h::Is1dHubbardOperator<O1>::value && !h::Is1dHubbardOperator<Oub>::value
                  && !h::Is1dHubbardOperator<Ofb>::value && !h::Is1dHubbardOperator<Osb>::value
                  && !h::Is1dHubbardOperator<Obu>::value && !h::Is1dHubbardOperator<O2d>::value
                  && !h::Is1dHubbardOperator<O3>::value && !h::Is1dHubbardOperator<O4>::value,
              "operators with other indices are not one-dimensional Hubbard operators");
    vf::claim(h::Is2dHubbardOperator<O2d>::value,
              "two coordinates and a spin are the indices of a two-dimensional Hubbard operator");
    vf::claim(!h::Is2dHubbardOperator<O1>::value && !h::Is2dHubbardOperator<Ob>::value
                  && !h::Is2dHubbardOperator<O3u>::value && !h::Is2dHubbardOperator<O3s>::value
                  && !h::Is2dHubbardOperator<O3e>::value && !h::Is2dHubbardOperator<O4>::value
                  && !h::Is2dHubbardOperator<a::Operator<int, double, bool>>::value
                  && !h::Is2dHubbardOperator<a::Operator<double, int, bool>>::value,
              "operators with other indices are not two-dimensional Hubbard operators");
    vf::claim(h::IsHubbardOperator<Ob>::value && h::IsHubbardOperator<Oib>::value
                  && h::IsHubbardOperator<O2d>::value && !h::IsHubbardOperator<O1>::value
                  && !h::IsHubbardOperator<Oub>::value && !h::IsHubbardOperator<O4>::value
                  && !h::IsHubbardOperator<Oss>::value,
              "Hubbard operators are the one- and the two-dimensional ones");
}

void ob_spatial_index()
{
    vf::claim(same_type<h::SpatialIndexType<Ob>::Type, unsigned long>()
                  && same_type<h::SpatialIndexType<Oib>::Type, int>(),
              "the spatial index of a one-dimensional operator is its first index");
    vf::claim(same_type<h::SpatialIndexType<O2d>::Type, std::pair<unsigned long, int>>(),
              "the spatial index of a two-dimensional operator are its first two indices");
}

void ob_bases()
{
    using M = a::Monomial<Ob>;
    vf::claim(hr::IsOneOperatorBasis<hr::Basis1Operator<M>>::value
                  && !hr::IsOneOperatorBasis<hr::Basis3Operator<M>>::value
                  && !hr::IsOneOperatorBasis<std::vector<M>>::value
                  && !hr::IsOneOperatorBasis<int>::value,
              "only the basis of single operators in real space is a one-operator basis");
    vf::claim(hr::IsThreeOperatorBasis<hr::Basis3Operator<M>>::value
                  && !hr::IsThreeOperatorBasis<hr::Basis1Operator<M>>::value
                  && !hr::IsThreeOperatorBasis<std::vector<M>>::value
                  && !hr::IsThreeOperatorBasis<int>::value,
              "only the basis of three operators in real space is a three-operator basis");
    vf::claim(hm::IsThreeOperatorBasis<hm::Basis3Operator<M>>::value
                  && !hm::IsThreeOperatorBasis<std::vector<M>>::value
                  && !hm::IsThreeOperatorBasis<hr::Basis1Operator<M>>::value
                  && !hm::IsOneOperatorBasis<hm::Basis3Operator<M>>::value,
              "the basis in momentum space is a three-operator basis");
}

void ob_complex()
{
    vf::claim(t::IsComplex<C>::value && t::IsComplex<std::complex<float>>::value
                  && t::IsComplex<CL>::value,
              "complex numbers of every precision are complex");
    vf::claim(!t::IsComplex<double>::value && !t::IsComplex<int>::value
                  && !t::IsComplex<bool>::value && !t::IsComplex<std::pair<double, double>>::value,
              "numbers and pairs are not complex");
    vf::claim(same_type<t::RealType<C>::Type, double>()
                  && same_type<t::RealType<std::complex<float>>::Type, float>()
                  && same_type<t::RealType<CL>::Type, long double>()
                  && same_type<t::RealType<double>::Type, double>()
                  && same_type<t::RealType<float>::Type, float>()
                  && same_type<t::RealType<long>::Type, long>(),
              "the real type of a complex number is that of its parts, any other type is its own");
    vf::claim(same_type<decltype(t::conjugate(std::declval<CL>())), CL>()
                  && same_type<decltype(t::conjugate(std::declval<const double&>())), double>(),
              "conjugation keeps the type");
}

void ob_matrix_traits()
{
    using DM = blaze::DynamicMatrix<C, blaze::rowMajor>;
    using DN = blaze::DynamicMatrix<double, blaze::columnMajor>;
    using CM = blaze::CompressedMatrix<float, blaze::rowMajor>;
    using DV = blaze::DynamicVector<C, blaze::columnVector>;
    using DR = blaze::DynamicVector<double, blaze::rowVector>;
    vf::claim(t::IsMatrix<DM>::value && t::IsMatrix<DN>::value && t::IsMatrix<CM>::value
                  && !t::IsMatrix<DV>::value && !t::IsMatrix<DR>::value
                  && !t::IsMatrix<double>::value && !t::IsMatrix<std::vector<double>>::value,
              "dense and compressed matrices are matrices, vectors and numbers are not");
    vf::claim(t::IsVector<DV>::value && t::IsVector<DR>::value && !t::IsVector<DM>::value
                  && !t::IsVector<CM>::value && !t::IsVector<double>::value,
              "vectors are vectors, matrices and numbers are not");
    vf::claim(t::IsRowVector<DR>::value && !t::IsRowVector<DV>::value
                  && !t::IsRowVector<DM>::value && t::IsColumnVector<DV>::value
                  && !t::IsColumnVector<DR>::value && !t::IsColumnVector<DM>::value,
              "row vectors and column vectors");
    vf::claim(same_type<t::ScalarType<DM>::Type, C>() && same_type<t::ScalarType<DN>::Type, double>()
                  && same_type<t::ScalarType<CM>::Type, float>()
                  && same_type<t::ScalarType<DV>::Type, C>()
                  && same_type<t::ScalarType<DR>::Type, double>()
                  && same_type<t::ScalarType<blaze::StaticVector<double, 2>>::Type, double>()
                  && same_type<t::ScalarType<double>::Type, double>()
                  && same_type<t::ScalarType<C>::Type, C>(),
              "the scalar type is that of the elements");
    vf::claim(t::IsBlazeDenseMatrix<DM>::value && !t::IsBlazeDenseMatrix<CM>::value
                  && !t::IsBlazeDenseMatrix<DV>::value && t::IsBlazeSparseMatrix<CM>::value
                  && !t::IsBlazeSparseMatrix<DM>::value && !t::IsBlazeSparseMatrix<int>::value
                  && t::IsBlazeMatrix<DM>::value && t::IsBlazeMatrix<CM>::value
                  && !t::IsBlazeMatrix<DV>::value && !t::IsBlazeMatrix<double>::value,
              "dense and sparse matrices of Blaze");
    vf::claim(t::IsBlazeVector<DV>::value && t::IsBlazeVector<DR>::value
                  && t::IsBlazeVector<blaze::StaticVector<double, 2>>::value
                  && !t::IsBlazeVector<DM>::value && !t::IsBlazeVector<double>::value
                  && !t::IsBlazeVector<std::vector<double>>::value,
              "vectors of Blaze");
    vf::claim(t::is_function_matrix<t::FunctionMatrix<double, unsigned long>>::value
                  && t::is_function_matrix<t::FunctionMatrix<C, int>>::value
                  && !t::is_function_matrix<DM>::value && !t::is_function_matrix<CM>::value
                  && !t::is_function_matrix<double>::value,
              "matrices given by a function");
}

void ob_vector_dimensions(blaze::DynamicVector<double, blaze::columnVector> c,
                          blaze::DynamicVector<C, blaze::rowVector> r)
{
    using VC = blaze::DynamicVector<double, blaze::columnVector>;
    using VR = blaze::DynamicVector<C, blaze::rowVector>;
    vf::claim(t::MatrixDimensionInfo<VC>::rows(c) == c.size()
                  && t::MatrixDimensionInfo<VC>::columns(c) == 1,
              "a column vector is a matrix with one column");
    vf::claim(t::MatrixDimensionInfo<VR>::rows(r) == 1
                  && t::MatrixDimensionInfo<VR>::columns(r) == r.size(),
              "a row vector is a matrix with one row");
}

void ob_sparse_vector_dimensions(blaze::CompressedVector<double, blaze::columnVector> c,
                                 blaze::CompressedVector<C, blaze::rowVector> r)
{
    using VC = blaze::CompressedVector<double, blaze::columnVector>;
    using VR = blaze::CompressedVector<C, blaze::rowVector>;
    vf::claim(t::MatrixDimensionInfo<VC>::rows(c) == c.size()
                  && t::MatrixDimensionInfo<VC>::columns(c) == 1,
              "a sparse column vector is a matrix with one column");
    vf::claim(t::MatrixDimensionInfo<VR>::rows(r) == 1
                  && t::MatrixDimensionInfo<VR>::columns(r) == r.size(),
              "a sparse row vector is a matrix with one row");
}

void ob_matrix_dimensions(blaze::DynamicMatrix<double> m, blaze::CompressedMatrix<C> s)
{
    using D = blaze::DynamicMatrix<double>;
    using S = blaze::CompressedMatrix<C>;
    vf::claim(t::MatrixDimensionInfo<D>::rows(m) == m.rows()
                  && t::MatrixDimensionInfo<D>::columns(m) == m.columns(),
              "dimensions of a dense matrix");
    vf::claim(t::MatrixDimensionInfo<S>::rows(s) == s.rows()
                  && t::MatrixDimensionInfo<S>::columns(s) == s.columns(),
              "dimensions of a sparse matrix");
}

template <typename It>
using Cat = typename std::iterator_traits<It>::iterator_category;

void ob_iterator_traits()
{
    using I = ieompp::iterators::IntegerIterator<unsigned long, false>;
    using K = ieompp::iterators::IntegerIterator<int, true>;
    vf::claim(same_type<Cat<I>, std::random_access_iterator_tag>()
                  && same_type<Cat<K>, std::random_access_iterator_tag>(),
              "integer iterators have random access");
    vf::claim(same_type<std::iterator_traits<I>::value_type, unsigned long>()
                  && same_type<std::iterator_traits<K>::value_type, int>(),
              "integer iterators yield integers of their type");
    vf::claim(same_type<std::iterator_traits<I>::reference, unsigned long&>()
                  && same_type<std::iterator_traits<K>::reference, const int&>()
                  && same_type<std::iterator_traits<I>::pointer, unsigned long*>()
                  && same_type<std::iterator_traits<K>::pointer, const int*>(),
              "constant integer iterators give constant references");
}

static bool equal_text(const char* x, const char* y)
{
    return std::string(x) == std::string(y);
}

void ob_names()
{
    vf::claim(equal_text(t::type_name<bool>::name, "bool"), "name of bool");
    vf::claim(equal_text(t::type_name<std::uint8_t>::name, "uint8_t"), "name of uint8_t");
    vf::claim(equal_text(t::type_name<std::uint16_t>::name, "uint16_t"), "name of uint16_t");
    vf::claim(equal_text(t::type_name<std::uint32_t>::name, "uint32_t"), "name of uint32_t");
    vf::claim(equal_text(t::type_name<std::uint64_t>::name, "uint64_t"), "name of uint64_t");
    vf::claim(equal_text(t::type_name<std::int8_t>::name, "int8_t"), "name of int8_t");
    vf::claim(equal_text(t::type_name<std::int16_t>::name, "int16_t"), "name of int16_t");
    vf::claim(equal_text(t::type_name<std::int32_t>::name, "int32_t"), "name of int32_t");
    vf::claim(equal_text(t::type_name<std::int64_t>::name, "int64_t"), "name of int64_t");
    vf::claim(equal_text(t::type_name<float>::name, "float"), "name of float");
    vf::claim(equal_text(t::type_name<double>::name, "double"), "name of double");
    vf::claim(equal_text(t::type_name<long double>::name, "long double"), "name of long double");
}

void ob_types_of_results(double g, unsigned long i, bool s)
{
    const double k = g;
    auto x         = a::make_term(k, {a::make_creator(i, s)});
    auto y         = a::make_term(g, {a::make_creator(i, s)});
    auto z         = a::make_term(1., {a::make_creator(i, s)});
    vf::claim(same_type<decltype(x), a::Term<double, Ob>>() && same_type<decltype(y), decltype(x)>()
                  && same_type<decltype(z), decltype(x)>(),
              "the type of a term does not depend on how its prefactor is passed");
    y.prefactor = 5;
    vf::claim(g == k, "a term holds its own prefactor");
    vf::claim(x.prefactor == k && x.operators.size() == 1
                  && x.operators[0] == a::make_creator(i, s),
              "a term has the prefactor and the operators it is made of");
    vf::claim(same_type<decltype(a::make_creator(i, s)), Ob>()
                  && same_type<decltype(a::make_annihilator(1, 2, s)), a::Operator<int, int, bool>>(),
              "operators hold their indices by value");
    vf::claim(same_type<decltype(sy::make_prefactor(k)), sy::Prefactor<double>>()
                  && same_type<decltype(sy::make_prefactor(C(1, 2))), sy::Prefactor<C>>(),
              "symbolic prefactors hold their value by value");
}

void ob_symbolic_complex(double re, double im, bool s)
{
    auto x = a::make_term(sy::make_prefactor(C(re, im), {a::Kronecker{"a", "b"}}),
                          {a::make_creator(1ul, s)});
    const auto y = x.get_conjugate();
    vf::claim(y.prefactor.value == C(re, -im), "the conjugate has the conjugate value");
    vf::claim(y.prefactor.kroneckers == x.prefactor.kroneckers,
              "the conjugate has the same Kronecker deltas");
    x.conjugate();
    vf::claim(x.prefactor.value == C(re, -im) && x.prefactor.kroneckers == y.prefactor.kroneckers,
              "conjugating in place conjugates the value and keeps the Kronecker deltas");
}
