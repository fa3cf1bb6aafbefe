// Stand-in for the submodule TPP (tensor product polynomials), which is not part of this checkout: shape functions.
// It states, in executable form, the contract which HyperHDG assumes of it: tensorial shape functions are products of
// one-dimensional ones, their indices are decomposed with the first direction running fastest.  The one-dimensional
// functions are uninterpreted for the verifier (any basis), and Legendre polynomials, orthonormal on [0, 1], natively.
#pragma once
#include <array>
#include <cmath>

extern "C" double vp_ufr(const char* name, unsigned long n_args, ...);

namespace TPP
{
//
// Points 100 + j are "probes" (never quadrature points): the i-th basis function is 1 at probe i and 0 at the others,
// so that the values of a discrete function there are its coefficients.
// With VP_ORTHONORMAL the verifier, too, is told of the orthonormality: the first function is 1, and the values of the
// second one in the two quadrature points are those of the Legendre polynomial (-1 and 1); with three quadrature points
// (weights 1/9, 4/9, 4/9) those of the second and third are (2, 1/2, -1) and (2, -1, 1/2).
inline double vp_shape(const unsigned int i, const double x)
{
  if (x >= 100.)
    return x - 100. == i ? 1. : 0.;
#ifdef VP_NATIVE
  const double t = 2. * x - 1.;
  const double p[] = {1., t, .5 * (3. * t * t - 1.), .5 * (5. * t * t * t - 3. * t)};
  return std::sqrt(2. * i + 1.) * p[i];
#else
#ifdef VP_CONSTANT  // all that is known: the first function is constant
  if (i == 0)
    return vp_ufr("phi0", 1, 0.);
#endif
#ifdef VP_ORTHONORMAL
  if (i == 0)
    return 1.;
  if (i == 1 && (x == .125 || x == .25))
    return x == .125 ? -1. : 1.;
  if (x == .3125)
    return 2.;
  if (x == .375 || x == .4375)
    return (i == 1) == (x == .375) ? .5 : -1.;
#endif
  return vp_ufr("phi", 2, (double)i, x);
#endif
}
inline double vp_shape_der(const unsigned int i, const double x)
{
#ifdef VP_NATIVE
  const double t = 2. * x - 1.;
  const double p[] = {0., 2., 6. * t, 15. * t * t - 3.};
  return std::sqrt(2. * i + 1.) * p[i];
#else
#if defined(VP_ORTHONORMAL) || defined(VP_CONSTANT)
  if (i == 0)
    return 0.;
#endif
  return vp_ufr("dphi", 2, (double)i, x);
#endif
}
constexpr unsigned int vp_pow(const unsigned int b, const unsigned int e) { return e == 0 ? 1 : b * vp_pow(b, e - 1); }

namespace ShapeType
{
template <unsigned int poly_deg>
struct Legendre
{
  static constexpr unsigned int degree() { return poly_deg; }
  static constexpr unsigned int n_fun() { return poly_deg + 1; }
  static constexpr unsigned int dim() { return 1; }
};
template <typename shape_t, unsigned int dimT>
struct Tensorial
{
  typedef shape_t shape_fun_1d;
  static constexpr unsigned int degree() { return shape_t::degree(); }
  static constexpr unsigned int n_fun_1d() { return shape_t::n_fun(); }
  static constexpr unsigned int n_fun() { return vp_pow(shape_t::n_fun(), dimT); }
  static constexpr unsigned int dim() { return dimT; }
};
}  // namespace ShapeType

template <typename shape_t>
struct ShapeFunction
{
  typedef shape_t shape_fun_t;
  static constexpr unsigned int n_fun() { return shape_t::n_fun(); }
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int degree() { return shape_t::degree(); }
  template <typename return_t, typename point_t>
  static return_t fct_val(unsigned int index, const point_t& point)
  {
    return_t value = 1.;
    for (unsigned int k = 0; k < shape_t::dim(); ++k, index /= shape_t::n_fun_1d())
      value *= vp_shape(index % shape_t::n_fun_1d(), point[k]);
    return value;
  }
  template <typename return_t, typename coeffs_t, typename point_t>
  static return_t lin_comb_fct_val(const coeffs_t& coeffs, const point_t& point)
  {
    double value = 0.;
    for (unsigned int i = 0; i < coeffs.size(); ++i)
    {
      double f = 1.;
      for (unsigned int k = 0, index = i; k < shape_t::dim(); ++k, index /= shape_t::n_fun_1d())
        f *= vp_shape(index % shape_t::n_fun_1d(), point[k]);
      value += coeffs[i] * f;
    }
    return value;
  }
};
}  // namespace TPP
