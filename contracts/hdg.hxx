// Specification side of the local solvers: a hyperedge with an arbitrary (affine) geometry, the discrete fields of a
// local solution as functions, and integrals of functions over the hyperedge and its faces by the quadrature rule.
#pragma once
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypercube.hxx>
#include <tpp/quadrature/tensorial.hxx>
#include <tpp/shape_function/shape_function.hxx>

// "arbitrary" reals which are kept positive in native runs (so that local systems are regular there)
inline double any_coeff(const char* name, unsigned long i = 0)
{
#ifdef VP_NATIVE
  return 1. + .5 * std::sin(vp_uf(name, 1, i));
#else
  return vp_uf(name, 1, i);
#endif
}

// an arbitrary time, which is the eigenvalue of eigenvalue problems (natively small, where local problems are well-posed)
inline double any_time(const bool eigenvalue = false, const char* name = "time")
{
#ifdef VP_NATIVE
  return eigenvalue ? .3 * std::sin(vp_real(name)) : vp_real(name);
#else
  return vp_real(name);
#endif
}

// ghost state: the reference point of the latest evaluation of a geometry, as index into a list of given values
static unsigned int ref_index = 0;
static unsigned int (*ref_index_of)(const double*) = nullptr;

template <unsigned int d, unsigned int s>
struct AnyGeometry
{
  unsigned long id;
  static constexpr unsigned int space_dim() { return s; }
  static constexpr unsigned int hyEdge_dim() { return d; }
#ifdef VP_NATIVE
  double h(unsigned int k) const { return any_coeff("edge_length", k); }
#endif
  double area() const
  {
#ifdef VP_NATIVE
    double a = 1.;
    for (unsigned int k = 0; k < d; ++k)
      a *= h(k);
    return a;
#else
    return vp_uf("area", 1, 0UL);
#endif
  }
  double face_area(const unsigned int f) const
  {
#ifdef VP_NATIVE
    return area() / h(f / 2);
#else
    if (d == 1)
      return 1.;
    return vp_uf("face_area", 1, (unsigned long)f);
#endif
  }
  double normal(const unsigned int f, const unsigned int k) const
  {
#ifdef VP_NATIVE
    return f / 2 == k ? (f % 2 ? 1. : -1.) : 0.;
#else
    if (d == 1)
      return f % 2 ? 1. : -1.;
    return vp_uf("local_normal", 2, (unsigned long)f, (unsigned long)k);
#endif
  }
  Point<d, double> local_normal(const unsigned int f) const
  {
    Point<d, double> n;
    for (unsigned int k = 0; k < d; ++k)
      n[k] = normal(f, k);
    return n;
  }
  // barycenter of a face, normal of a face in space
  Point<s, double> face_barycenter(const unsigned int f) const
  {
    Point<s, double> p;
    for (unsigned int k = 0; k < s; ++k)
      p[k] = vp_uf("barycenter", 2, (unsigned long)f, (unsigned long)k);
    return p;
  }
  Point<s, double> inner_normal(const unsigned int f) const
  {
    Point<s, double> p;
    for (unsigned int k = 0; k < s; ++k)
      p[k] = vp_uf("inner_normal", 2, (unsigned long)f, (unsigned long)k);
    return p;
  }
  double vp_inverse_transposed_r(const unsigned int l, const unsigned int k) const
  {
#ifdef VP_NATIVE
    return l == k ? 1. / h(k) : 0.;
#else
    return vp_uf("inverse_transposed_r", 2, (unsigned long)l, (unsigned long)k);
#endif
  }
  // component of a vector in the direction of column l of the matrix Q
  template <typename VecT>
  double vp_local_component(const VecT& v, const unsigned int l) const
  {
    double r = 0.;
    for (unsigned int k = 0; k < s; ++k)
#ifdef VP_NATIVE
      r += (k == l ? v[k] : 0.);
#else
      r += vp_uf("q", 2, (unsigned long)k, (unsigned long)l) * v[k];
#endif
    return r;
  }
  Point<s, double> map_ref_to_phys(const Point<d, double>& p) const
  {
    double args[d + 1];
    Point<s, double> r;
    for (unsigned int k = 0; k < d; ++k)
      args[k + 1] = p[k];
    if (ref_index_of)
      ref_index = ref_index_of(args + 1);
    for (unsigned int k = 0; k < s; ++k)
    {
      args[0] = k;
      r[k] = vp_ufv("position", d + 1, args);
    }
    return r;
  }
};

template <unsigned int d>
struct UnitGeometry
{
  static constexpr unsigned int space_dim() { return d; }
  double area() const { return 1.; }
  double face_area(const unsigned int) const { return 1.; }
  double normal(const unsigned int f, const unsigned int k) const { return f / 2 == k ? (f % 2 ? 1. : -1.) : 0.; }
  double vp_inverse_transposed_r(const unsigned int l, const unsigned int k) const { return l == k ? 1. : 0.; }
  Point<d, double> map_ref_to_phys(const Point<d, double>& p) const { return p; }
};

// a coefficient or data function of position and time
template <typename PointT>
double data_function(const char* name, const PointT& p, const double t)
{
  double args[4] = {0., 0., 0., 0.};
  unsigned int n = 0;
  for (; n < PointT::size(); ++n)
    args[n] = p[n];
  args[n] = t;
#ifdef VP_NATIVE
  return 1. + .5 * std::sin(vp_ufv(name, n + 1, args));
#else
  return vp_ufv(name, n + 1, args);
#endif
}

struct NoData
{
};
template <unsigned int d, unsigned int s, typename DataT = NoData, unsigned int n_types = 3>
struct AnyHyperedge
{
  AnyGeometry<d, s> geometry;
  std::array<unsigned int, 2 * d> node_descriptor;
  DataT data;
  // node types are arbitrary on the two faces of a one-dimensional hyperedge, and given by the digits else
  AnyHyperedge(unsigned int types) : geometry{}, data()
  {
    for (unsigned int f = 0; f < 2 * d; ++f, types /= 10)
      node_descriptor[f] = d == 1 ? vp_split32(vp_u32(f ? "type1" : "type0", 0, n_types - 1)) : types % 10;
  }
};

template <unsigned int faces, unsigned int n>
std::array<std::array<double, n>, faces> any_trace(const char* name)
{
  std::array<std::array<double, n>, faces> r;
  for (unsigned int f = 0; f < faces; ++f)
    for (unsigned int j = 0; j < n; ++j)
      r[f][j] = vp_uf(name, 2, (unsigned long)f, (unsigned long)j);
  return r;
}

// integrals of functions of a quadrature point: real quadrature, the reference shape functions as in the stub of TPP
template <unsigned int d, unsigned int p, unsigned int quad>
struct Spec
{
  typedef TPP::Quadrature::GaussLegendre<quad> rule;
  typedef TPP::Quadrature::Tensorial<
    rule, TPP::ShapeFunction<TPP::ShapeType::Tensorial<TPP::ShapeType::Legendre<p>, d>>, double>
    integrator;
  typedef typename integrator::Pt Pt;
  static constexpr unsigned int n_vol = TPP::vp_pow(p + 1, d), n_bdr = TPP::vp_pow(p + 1, d - 1);
  static constexpr unsigned int n_abs = rule::n_points() + 2;
  static constexpr unsigned int n_pts = TPP::vp_pow(n_abs, d);
  // abscissae: the two ends of the interval and the quadrature points
  static std::array<double, n_abs> abscissae()
  {
    std::array<double, n_abs> a;
    a[0] = 0.;
    a[1] = 1.;
    for (unsigned int q = 0; q < rule::n_points(); ++q)
      a[q + 2] = rule::point(q);
    return a;
  }
  // index of a point among the tensorial points of these abscissae (first dimension fastest)
  static unsigned int at(const Pt& pt) { return at_point(pt.x); }
  static unsigned int at_point(const double* x)
  {
    unsigned int index = 0, stride = 1;
    for (unsigned int k = 0; k < d; ++k, stride *= n_abs)
      for (unsigned int r = 0; r < n_abs; ++r)
        if (abscissae()[r] == x[k])
          index += r * stride;
    return index;
  }
  // abscissae at which values of a discrete function are its coefficients
  static std::array<double, p + 1> probes()
  {
    std::array<double, p + 1> a;
    for (unsigned int i = 0; i <= p; ++i)
      a[i] = 100. + i;
    return a;
  }
  typedef std::array<double, n_vol> Coeffs;
  static double value(const Pt& pt, const Coeffs& c)
  {
    double v = 0.;
    for (unsigned int i = 0; i < n_vol; ++i)
      v += c[i] * pt.phi(i);
    return v;
  }
  template <typename GeomT>
  static double gradient(const Pt& pt, const Coeffs& c, const unsigned int l, const GeomT& geom)
  {
    double v = 0.;
    for (unsigned int i = 0; i < n_vol; ++i)
      v += c[i] * pt.grad(i, l, geom);
    return v;
  }
  template <typename GeomT>
  static auto phys(const Pt& pt, const GeomT& geom)
  {
    return pt.template phys<Point<GeomT::space_dim(), double>, Point<d, double>>(geom);
  }
  // a function on the skeleton with coefficients in the basis of a face
  template <typename TraceT>
  static double trace(const Pt& pt, const TraceT& lambda)
  {
    double v = 0.;
    for (unsigned int j = 0; j < n_bdr; ++j)
      v += lambda[pt.face][j] * pt.psi(j);
    return v;
  }
  template <typename GeomT, typename F>
  static double vol(const GeomT& geom, const F f)
  {
    return integrator::vol(f) * geom.area();
  }
  template <typename GeomT, typename F>
  static double bdr(const unsigned int face, const GeomT& geom, const F f)
  {
    return integrator::bdr(face, f) * geom.face_area(face);
  }
};
