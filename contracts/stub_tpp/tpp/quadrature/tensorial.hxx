// Stand-in for the submodule TPP (tensor product polynomials), which is not part of this checkout: quadrature.
// It states, in executable form, the contract which HyperHDG assumes of it: integrals over the hyperedge and its faces
// by a tensorial quadrature rule (uninterpreted weights for the verifier, Gauss-Legendre natively), multiplied by the
// measure of the hyperedge or face (not for the variants "Uni" and those without geometry); gradients are those in the
// local coordinates of the hyperedge, i.e., the transposed inverse of the matrix R of the geometry times the reference
// gradient; local normals are those of the geometry; phi: functions of the hyperedge, psi: functions of a face.
#pragma once
#include <cstdlib>

#include <tpp/shape_function/shape_function.hxx>

extern "C" double vp_ratio(unsigned long p, unsigned long q);
extern "C" double vp_ufv(const char* name, unsigned long n, const double* args);
extern "C" double vp_uf(const char* name, unsigned long n_args, ...);

namespace TPP
{
namespace Quadrature
{
template <unsigned int max_quad_degree>
struct GaussLegendre
{
  static constexpr unsigned int n_points() { return (max_quad_degree + 2) / 2; }
  static double point(const unsigned int q)
  {
#ifdef VP_NATIVE
    static const double p[4][4] = {{0.}, {-std::sqrt(1. / 3.), std::sqrt(1. / 3.)}, {-std::sqrt(.6), 0., std::sqrt(.6)},
      {-std::sqrt(3. / 7. + 2. / 7. * std::sqrt(1.2)), -std::sqrt(3. / 7. - 2. / 7. * std::sqrt(1.2)),
       std::sqrt(3. / 7. - 2. / 7. * std::sqrt(1.2)), std::sqrt(3. / 7. + 2. / 7. * std::sqrt(1.2))}};
    return .5 + .5 * p[n_points() - 1][q];
#else
#ifdef VP_ORTHONORMAL
    if (n_points() == 3)
      return .0625 * (q + 5);
#endif
    return .125 * (q + 1);
#endif
  }
  static double weight(const unsigned int q)
  {
#ifdef VP_NATIVE
    static const double w[4][4] = {{2.}, {1., 1.}, {5. / 9., 8. / 9., 5. / 9.},
      {(18. - std::sqrt(30.)) / 36., (18. + std::sqrt(30.)) / 36., (18. + std::sqrt(30.)) / 36., (18. - std::sqrt(30.)) / 36.}};
    return .5 * w[n_points() - 1][q];
#else
#ifdef VP_ORTHONORMAL
    if (n_points() <= 2)
      return 1. / n_points();
    if (n_points() == 3)
      return vp_ratio(q == 0 ? 1 : 4, 9);
#endif
    return vp_uf("weight", 1, (unsigned long)q);
#endif
  }
};

template <typename quadrature_t, typename shape_t, typename return_t = double>
struct Tensorial
{
  typedef shape_t shape_fun_t;
  static constexpr unsigned int dim() { return shape_t::dim(); }
  static constexpr unsigned int d = shape_t::dim(), n1 = shape_t::degree() + 1, nq = quadrature_t::n_points();
  static constexpr unsigned int n_quad_points() { return vp_pow(nq, d); }

  // precondition of the integrals: indices of shape functions, directions and faces are in range
  static void in_range(const unsigned int i, const unsigned int n)
  {
    if (i >= n)
      std::abort();
  }
  // a quadrature point of the hyperedge or of a face (face < 2 d)
  struct Pt
  {
    double x[d + 1], w;
    unsigned int face;
    Pt(unsigned int q, const unsigned int f = 2 * d) : w(1.), face(f)
    {
      for (unsigned int k = 0; k < d; ++k)
        if (k == f / 2)
          x[k] = f % 2;
        else
        {
          x[k] = quadrature_t::point(q % nq);
          w *= quadrature_t::weight(q % nq);
          q /= nq;
        }
    }
    // shape function of the hyperedge
    double phi(unsigned int i) const
    {
      in_range(i, vp_pow(n1, d));
      double v = 1.;
      for (unsigned int k = 0; k < d; ++k, i /= n1)
        v *= vp_shape(i % n1, x[k]);
      return v;
    }
    // derivative in reference direction l
    double dphi(unsigned int i, const unsigned int l) const
    {
      in_range(i, vp_pow(n1, d));
      in_range(l, d);
      double v = 1.;
      for (unsigned int k = 0; k < d; ++k, i /= n1)
        v *= k == l ? vp_shape_der(i % n1, x[k]) : vp_shape(i % n1, x[k]);
      return v;
    }
    // derivative in local direction l
    template <typename geom_t>
    double grad(const unsigned int i, const unsigned int l, const geom_t& geom) const
    {
      double v = 0.;
      for (unsigned int k = 0; k < d; ++k)
        v += geom.vp_inverse_transposed_r(l, k) * dphi(i, k);
      return v;
    }
    template <typename geom_t>
    double grad_normal(const unsigned int i, const geom_t& geom) const
    {
      double v = 0.;
      for (unsigned int l = 0; l < d; ++l)
        v += grad(i, l, geom) * geom.local_normal(face)[l];
      return v;
    }
    // shape function of the face
    double psi(unsigned int i) const
    {
      in_range(i, vp_pow(n1, d - 1));
      double v = 1.;
      for (unsigned int k = 0; k < d; ++k)
        if (k != face / 2)
        {
          v *= vp_shape(i % n1, x[k]);
          i /= n1;
        }
      return v;
    }
    template <typename point_t, typename ref_t, typename geom_t>
    point_t phys(const geom_t& geom) const
    {
      ref_t p;
      for (unsigned int k = 0; k < d; ++k)
        p[k] = x[k];
      return geom.map_ref_to_phys(static_cast<const ref_t&>(p));
    }
  };
  template <typename F>
  static return_t vol(const F f)
  {
    return_t sum = 0.;
    for (unsigned int q = 0; q < vp_pow(nq, d); ++q)
    {
      const Pt p(q);
      sum += p.w * f(p);
    }
    return sum;
  }
  template <typename F>
  static return_t bdr(const unsigned int face, const F f)
  {
    in_range(face, 2 * d);
    return_t sum = 0.;
    for (unsigned int q = 0; q < vp_pow(nq, d - 1); ++q)
    {
      const Pt p(q, face);
      sum += p.w * f(p);
    }
    return sum;
  }

  // ---- reference hyperedge -------------------------------------------------------------------------------------
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j)
  {
    return vol([&](const Pt& p) { return p.phi(i) * p.phi(j); });
  }
  static return_t integrate_vol_Dphiphi(const unsigned int i, const unsigned int j, const unsigned int l)
  {
    return vol([&](const Pt& p) { return p.dphi(i, l) * p.phi(j); });
  }
  static return_t integrate_vol_phiDphi(const unsigned int i, const unsigned int j, const unsigned int l)
  {
    return vol([&](const Pt& p) { return p.phi(i) * p.dphi(j, l); });
  }
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int f)
  {
    return bdr(f, [&](const Pt& p) { return p.phi(i) * p.phi(j); });
  }
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int f)
  {
    return bdr(f, [&](const Pt& p) { return p.phi(i) * p.psi(j); });
  }

  // ---- hyperedge with geometry ---------------------------------------------------------------------------------
  template <typename geom_t>
  static return_t integrate_vol_phiphi(const unsigned int i, const unsigned int j, const geom_t& geom)
  {
    return vol([&](const Pt& p) { return p.phi(i) * p.phi(j); }) * geom.area();
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phifunc(const unsigned int i, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) { return p.phi(i) * fun(p.template phys<point_t, smallVec_t>(geom), t); }) * geom.area();
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_volUni_phifunc(const unsigned int i, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) { return p.phi(i) * fun(p.template phys<point_t, smallVec_t>(geom), t); });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phiphifunc(const unsigned int i, const unsigned int j, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) { return p.phi(i) * p.phi(j) * fun(p.template phys<point_t, smallVec_t>(geom), t); }) * geom.area();
  }
  // component of a vector field along inner normal c - 1 (c > 0) or outer normal -c - 1 (c < 0)
  template <typename point_t, typename geom_t>
  static point_t direction(const int c, const geom_t& geom)
  {
    return c > 0 ? (point_t)geom.inner_normal(c - 1) : (point_t)geom.outer_normal(-c - 1);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phivecfunccomp(const unsigned int i, const int c, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) { return p.phi(i) * fun(p.template phys<point_t, smallVec_t>(geom), direction<point_t>(c, geom), t); }) *
           geom.area();
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_phivecfunccomp(const unsigned int i, const unsigned int f, const int c, const geom_t& geom, const return_t t = 0.)
  {
    return bdr(f, [&](const Pt& p) { return p.phi(i) * fun(p.template phys<point_t, smallVec_t>(geom), direction<point_t>(c, geom), t); }) *
           geom.face_area(f);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const point_t&, const return_t), typename smallVec_t = point_t,
            typename coeffs_t>
  static return_t integrate_vol_diffsquare_discanacomp(const coeffs_t& coeffs, const int c, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) {
             double e = fun(p.template phys<point_t, smallVec_t>(geom), direction<point_t>(c, geom), t);
             for (unsigned int i = 0; i < coeffs.size(); ++i)
               e -= coeffs[i] * p.phi(i);
             return e * e;
           }) * geom.area();
  }
  // component of a vector field in local direction l
  template <typename point_t, typename geom_t, point_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_phiphivecfunc(const unsigned int i, const unsigned int j, const unsigned int l, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) {
             return p.phi(i) * p.phi(j) * geom.vp_local_component(fun(p.template phys<point_t, smallVec_t>(geom), t), l);
           }) * geom.area();
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_derphifunc(const unsigned int i, const unsigned int l, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) { return p.grad(i, l, geom) * fun(p.template phys<point_t, smallVec_t>(geom), t); }) * geom.area();
  }
  template <typename smallVec_t, typename geom_t>
  static smallVec_t integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, const geom_t& geom)
  {
    smallVec_t r;
    for (unsigned int l = 0; l < d; ++l)
      r[l] = vol([&](const Pt& p) { return p.grad(i, l, geom) * p.phi(j); }) * geom.area();
    return r;
  }
  // gradient of a shape function of degree deg_i (the integrator's own), shape function of degree deg_j
  template <typename smallVec_t, typename geom_t, unsigned int deg_i, unsigned int deg_j>
  static smallVec_t integrate_vol_nablaphiphi(const unsigned int i, const unsigned int j, const geom_t& geom)
  {
    static_assert(deg_i + 1 == n1, "degree of the first function");
    typedef Tensorial<quadrature_t, ShapeFunction<ShapeType::Tensorial<ShapeType::Legendre<deg_j>, d>>, return_t> other;
    smallVec_t r;
    for (unsigned int l = 0; l < d; ++l)
    {
      r[l] = 0.;
      for (unsigned int q = 0; q < vp_pow(nq, d); ++q)
      {
        const Pt p(q);
        const typename other::Pt o(q);
        r[l] += p.w * p.grad(i, l, geom) * o.phi(j);
      }
      r[l] *= geom.area();
    }
    return r;
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_nablaphinablaphifunc(const unsigned int i, const unsigned int j, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) {
             double s = 0.;
             for (unsigned int l = 0; l < d; ++l)
               s += p.grad(i, l, geom) * p.grad(j, l, geom);
             return s * fun(p.template phys<point_t, smallVec_t>(geom), t);
           }) * geom.area();
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t, typename coeffs_t>
  static return_t integrate_vol_diffsquare_discana(const coeffs_t& coeffs, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) {
             double e = fun(p.template phys<point_t, smallVec_t>(geom), t);
             for (unsigned int i = 0; i < coeffs.size(); ++i)
               e -= coeffs[i] * p.phi(i);
             return e * e;
           }) * geom.area();
  }
  // ---- faces ---------------------------------------------------------------------------------------------------
  template <typename geom_t>
  static return_t integrate_bdr_phiphi(const unsigned int i, const unsigned int j, const unsigned int f, const geom_t& geom)
  {
    return bdr(f, [&](const Pt& p) { return p.phi(i) * p.phi(j); }) * geom.face_area(f);
  }
  template <typename geom_t>
  static return_t integrate_bdr_phipsi(const unsigned int i, const unsigned int j, const unsigned int f, const geom_t& geom)
  {
    return bdr(f, [&](const Pt& p) { return p.phi(i) * p.psi(j); }) * geom.face_area(f);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_phifunc(const unsigned int i, const unsigned int f, const geom_t& geom, const return_t t = 0.)
  {
    return bdr(f, [&](const Pt& p) { return p.phi(i) * fun(p.template phys<point_t, smallVec_t>(geom), t); }) * geom.face_area(f);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdrUni_psifunc(const unsigned int i, const unsigned int f, const geom_t& geom, const return_t t = 0.)
  {
    return bdr(f, [&](const Pt& p) { return p.psi(i) * fun(p.template phys<point_t, smallVec_t>(geom), t); });
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_nablaphiphinufunc(const unsigned int i, const unsigned int j, const unsigned int f, const geom_t& geom, const return_t t = 0.)
  {
    return bdr(f, [&](const Pt& p) { return p.grad_normal(i, geom) * p.phi(j) * fun(p.template phys<point_t, smallVec_t>(geom), t); }) * geom.face_area(f);
  }
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_bdr_nablaphipsinufunc(const unsigned int i, const unsigned int j, const unsigned int f, const geom_t& geom, const return_t t = 0.)
  {
    return bdr(f, [&](const Pt& p) { return p.grad_normal(i, geom) * p.psi(j) * fun(p.template phys<point_t, smallVec_t>(geom), t); }) * geom.face_area(f);
  }
  // ---- upwind parts of integrals over faces --------------------------------------------------------------------
  // Which part of a face the variants "cutwind" and "cutdownwind" integrate over is up to TPP: they are arbitrary functions of
  // their name, indices, face, geometry, time and the velocity (represented by its value at an arbitrary position).
  template <typename point_t, typename geom_t, point_t vel(const point_t&, const return_t)>
  static return_t vp_cut(const unsigned int name, const unsigned int i, const unsigned int j, const unsigned int f, const geom_t& geom,
                         const return_t t, const double factor = 1.)
  {
    in_range(f, 2 * d);
    point_t p;
    double args[7 + point_t::size()] = {(double)name, (double)i, (double)j, (double)f, geom.area(), t, factor};
    for (unsigned int k = 0; k < point_t::size(); ++k)
      p[k] = vp_uf("anywhere", 1, (unsigned long)k);
    const point_t v = vel(p, t);
    for (unsigned int k = 0; k < point_t::size(); ++k)
      args[7 + k] = v[k];
#ifdef VP_NATIVE
    return .2 * std::sin(vp_ufv("cut", 7 + point_t::size(), args));
#else
    return vp_ufv("cut", 7 + point_t::size(), args);
#endif
  }
#define VP_CUT(name, number, n_i, n_j)                                                                                          \
  template <typename point_t, typename geom_t, point_t vel(const point_t&, const return_t), typename smallVec_t = point_t>      \
  static return_t integrate_bdr_##name(const unsigned int i, const unsigned int j, const unsigned int f, const geom_t& geom,    \
                                       const return_t t = 0.)                                                                   \
  {                                                                                                                             \
    in_range(i, vp_pow(n1, n_i));                                                                                               \
    in_range(j, vp_pow(n1, n_j));                                                                                               \
    return vp_cut<point_t, geom_t, vel>(number, i, j, f, geom, t);                                                              \
  }
  VP_CUT(phiphinuvecfunc_cutwind, 0, d, d)
  VP_CUT(phiphi_cutwind, 1, d, d)
  VP_CUT(phipsinuvecfunc_cutwind, 2, d, d - 1)
  VP_CUT(phipsi_cutdownwind, 3, d, d - 1)
  VP_CUT(psiphinuvecfunc_cutwind, 4, d - 1, d)
  VP_CUT(psiphi_cutwind, 5, d - 1, d)
  VP_CUT(psipsinuvecfunc_cutwind, 6, d - 1, d - 1)
  VP_CUT(psipsi_cutdownwind, 7, d - 1, d - 1)
#undef VP_CUT
  template <typename point_t, typename geom_t, return_t fun(const point_t&, const return_t), point_t vel(const point_t&, const return_t),
            typename smallVec_t = point_t>
  static return_t integrate_bdr_phifuncnuvecfunc_cutwind(const unsigned int i, const unsigned int f, const geom_t& geom,
                                                         const return_t t = 0.)
  {
    in_range(i, vp_pow(n1, d));
    point_t p;
    for (unsigned int k = 0; k < point_t::size(); ++k)
      p[k] = vp_uf("anywhere", 1, (unsigned long)k);
    const double g = fun(p, t);  // zero for zero data
    return g * vp_cut<point_t, geom_t, vel>(8, i, 0, f, geom, t, g);
  }
  // gradient times velocity
  template <typename point_t, typename geom_t, point_t fun(const point_t&, const return_t), typename smallVec_t = point_t>
  static return_t integrate_vol_nablaphiphivecfunc(const unsigned int i, const unsigned int j, const geom_t& geom, const return_t t = 0.)
  {
    return vol([&](const Pt& p) {
             const auto v = fun(p.template phys<point_t, smallVec_t>(geom), t);
             double s = 0.;
             for (unsigned int l = 0; l < d; ++l)
               s += p.grad(i, l, geom) * geom.vp_local_component(v, l);
             return s * p.phi(j);
           }) * geom.area();
  }
};
}  // namespace Quadrature
}  // namespace TPP
