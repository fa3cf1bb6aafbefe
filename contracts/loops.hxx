// Common part of the contracts of the global loops: an arbitrary local solver (uninterpreted functions of
// everything it is given) and the specification "sum of the local contributions".
#pragma once
#include "mock.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>

// the default container with few hypernodes, or a container of arbitrary length with arbitrarily many
#ifdef VP_BIGVEC
typedef BigVec Vec;
static constexpr uint32_t max_nodes = 1u << 20;
static Vec any_vec(const char* name, const uint64_t n) { return Vec(name, n); }
#define VP_GRAPH(e1, e2) e1, e2, 2, max_nodes
#else
#define VP_GRAPH(e1, e2) e1, e2
typedef std::vector<double> Vec;
static constexpr uint32_t max_nodes = 4;
static Vec any_vec(const char* name, const uint64_t n)
{
  Vec v(n);
  for (uint64_t i = 0; i < n; ++i)
    v[i] = vp_real(name);
  return v;
}
#endif

// an arbitrary index below n / all indices below n
#ifdef VP_BIGVEC
#define VP_FORALL(j, n)                                     \
  const uint64_t j = vp_u64(#j, 0, ((uint64_t)1 << 30) - 1); \
  vp_assume(j < (n));
#else
#define VP_FORALL(j, n) for (uint64_t j = 0; j < (n); ++j)
#endif

template <unsigned int d, unsigned int nd>
using Dofs = std::array<std::array<double, nd>, 2 * d>;

// value number (k, i) of the local operation `name` on a hyperedge
template <unsigned int d, unsigned int nd>
double local_value(const char* name, const double par, const double* edge, const unsigned int k, const unsigned int i,
                   const double time, const Dofs<d, nd>& in)
{
  double a[9 + 2 * d * nd];
  a[0] = par;
  for (unsigned int m = 0; m < 5; ++m)
    a[1 + m] = edge[m];
  a[6] = k;
  a[7] = i;
  a[8] = time;
  for (unsigned int n = 0; n < 2 * d; ++n)
    for (unsigned int m = 0; m < nd; ++m)
      a[9 + n * nd + m] = in[n][m];
  return vp_ufv(name, 9 + 2 * d * nd, a);
}
template <unsigned int d, unsigned int nd>
double local_value2(const char* name, const double par, const double* edge, const unsigned int k, const unsigned int i,
                    const double time, const Dofs<d, nd>& in, const Dofs<d, nd>& in2, const double time2)
{
  double a[10 + 4 * d * nd];
  a[0] = par;
  for (unsigned int m = 0; m < 5; ++m)
    a[1 + m] = edge[m];
  a[6] = k;
  a[7] = i;
  a[8] = time;
  a[9] = time2;
  for (unsigned int n = 0; n < 2 * d; ++n)
    for (unsigned int m = 0; m < nd; ++m)
    {
      a[10 + n * nd + m] = in[n][m];
      a[10 + (2 * d + n) * nd + m] = in2[n][m];
    }
  return vp_ufv(name, 10 + 4 * d * nd, a);
}

// what a solver can see of a hyperedge (nothing, if it is not handed the hyperedge)
struct Seen
{
  double s[5] = {-1., -1., -1., -1., -1.};
  Seen() {}
  template <typename E>
  Seen(const E& e)
  {
    s[0] = e.topology.id;
    s[1] = e.geometry.id;
    s[2] = e.node_descriptor.id;
    s[3] = e.topology.tag;
    s[4] = e.data.v;
  }
};

template <unsigned int d, unsigned int nd, bool with_edge>
struct MockSolver;

struct MockError
{
  typedef std::array<double, 2> error_t;
  static error_t initial_error() { return {vp_ufr("err_init", 1, 0.), vp_ufr("err_init", 1, 1.)}; }
  static error_t sum_error(const error_t& a, const error_t& b) { return {a[0] + b[0], std::max(a[1], b[1])}; }
  static error_t postprocess_error(const error_t& a) { return {vp_ufr("err_post", 2, 0., a[0]), a[1] + 1.}; }
};

// solver that is handed the hyperedge
template <unsigned int d, unsigned int nd>
struct MockSolver<d, nd, true>
{
  typedef MockData data_type;
  typedef double constructor_value_type;
  typedef MockError error_def;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return 1; }
  static constexpr unsigned int node_system_dimension() { return 1; }
  double par;
  MockSolver(const double p = 17.) : par(p) {}

#define VP_LOCAL(name)                                                                               \
  template <typename E>                                                                              \
  Dofs<d, nd>& name(const Dofs<d, nd>& in, Dofs<d, nd>& out, E& e, const double time = 0.) const     \
  {                                                                                                  \
    const Seen s(e);                                                                                 \
    for (unsigned int k = 0; k < 2 * d; ++k)                                                         \
      for (unsigned int i = 0; i < nd; ++i)                                                          \
        out[k][i] += local_value<d, nd>(#name, par, s.s, k, i, time, in);                            \
    return out;                                                                                      \
  }
  VP_LOCAL(trace_to_flux)
  VP_LOCAL(residual_flux)
  VP_LOCAL(trace_to_mass_flux)
#undef VP_LOCAL
  template <typename E>
  Dofs<d, nd>& jacobian_of_trace_to_flux(const Dofs<d, nd>& in, Dofs<d, nd>& out, const double eig,
                                         const Dofs<d, nd>& vals, const double eig_val, E& e) const
  {
    const Seen s(e);
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        out[k][i] += local_value2<d, nd>("jac", par, s.s, k, i, eig, in, vals, eig_val);
    return out;
  }
  template <typename E>
  Dofs<d, nd>& make_initial(Dofs<d, nd>& x, E& e, const double time = 0.) const
  {
    const Seen s(e);
    const Dofs<d, nd> in = x;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        x[k][i] = local_value<d, nd>("make_initial", par, s.s, k, i, time, in);
    e.data.k = 5;
    return x;
  }
  template <typename E>
  void set_data(const Dofs<d, nd>& in, E& e, const double time = 0.) const
  {
    const Seen s(e);
    e.data.v = local_value<d, nd>("set_data", par, s.s, 0, 0, time, in);
    e.data.k += 1;
  }
  template <typename E>
  MockError::error_t errors(const Dofs<d, nd>& in, E& e, const double time = 0.) const
  {
    const Seen s(e);
    return {local_value<d, nd>("errors", par, s.s, 0, 0, time, in), local_value<d, nd>("errors", par, s.s, 1, 0, time, in)};
  }
  template <typename E>
  std::array<unsigned int, 2 * d> node_types(E& e) const
  {
    std::array<unsigned int, 2 * d> t;
    for (unsigned int k = 0; k < 2 * d; ++k)
      t[k] = node_type(e.topology.level, e.topology.id, k);
    return t;
  }
  static unsigned int node_type(const unsigned int level, const unsigned int e, const unsigned int k)
  {
    return (unsigned int)(vp_ufi("node_type", 3, (uint64_t)level, (uint64_t)e, (uint64_t)k) & 3);
  }
};
// solver that is not handed the hyperedge
template <unsigned int d, unsigned int nd>
struct MockSolver<d, nd, false>
{
  typedef MockData data_type;
  typedef double constructor_value_type;
  typedef MockError error_def;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return 1; }
  static constexpr unsigned int node_system_dimension() { return 1; }
  double par;
  MockSolver(const double p = 17.) : par(p) {}
#define VP_LOCAL(name)                                                                             \
  Dofs<d, nd>& name(const Dofs<d, nd>& in, Dofs<d, nd>& out, const double time = 0.) const         \
  {                                                                                                \
    const Seen s;                                                                                  \
    for (unsigned int k = 0; k < 2 * d; ++k)                                                       \
      for (unsigned int i = 0; i < nd; ++i)                                                        \
        out[k][i] += local_value<d, nd>(#name, par, s.s, k, i, time, in);                          \
    return out;                                                                                    \
  }
  VP_LOCAL(trace_to_flux)
  VP_LOCAL(residual_flux)
  VP_LOCAL(trace_to_mass_flux)
#undef VP_LOCAL
  Dofs<d, nd>& jacobian_of_trace_to_flux(const Dofs<d, nd>& in, Dofs<d, nd>& out, const double eig,
                                         const Dofs<d, nd>& vals, const double eig_val) const
  {
    const Seen s;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        out[k][i] += local_value2<d, nd>("jac", par, s.s, k, i, eig, in, vals, eig_val);
    return out;
  }
  Dofs<d, nd>& make_initial(Dofs<d, nd>& x, const double time = 0.) const
  {
    const Seen s;
    const Dofs<d, nd> in = x;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        x[k][i] = local_value<d, nd>("make_initial", par, s.s, k, i, time, in);
    return x;
  }
  MockError::error_t errors(const Dofs<d, nd>& in, const double time = 0.) const
  {
    const Seen s;
    return {local_value<d, nd>("errors", par, s.s, 0, 0, time, in), local_value<d, nd>("errors", par, s.s, 1, 0, time, in)};
  }
};

// specification side: what the solver sees of hyperedge e, the degrees of freedom of its hypernodes
template <unsigned int d, unsigned int nd, bool with_edge>
struct Spec
{
  const MockConfig<d>& c;
  const unsigned int level;
  const double par;
  Seen seen(const uint32_t e, const double data = 0.) const
  {
    Seen s;
    if (with_edge)
    {
      s.s[0] = s.s[1] = s.s[2] = e;
      s.s[3] = c.tag;
      s.s[4] = data;
    }
    return s;
  }
  uint64_t dof(const uint32_t e, const unsigned int k, const unsigned int i) const
  {
    return (uint64_t)nd * c.nodes[level][e][k] + i;
  }
  Dofs<d, nd> gather(const Vec& x, const uint32_t e) const
  {
    Dofs<d, nd> r;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        r[k][i] = x[dof(e, k, i)];
    return r;
  }
  uint64_t size() const { return (uint64_t)nd * c.n_nodes[level]; }
  // entry j of the sum of all local contributions
  double sum(const char* name, const Vec& x, const double time, const uint64_t j) const
  {
    double r = 0.;
    for (uint32_t e = 0; e < c.n_edges[level]; ++e)
      for (unsigned int k = 0; k < 2 * d; ++k)
        for (unsigned int i = 0; i < nd; ++i)
          r += dof(e, k, i) == j ? local_value<d, nd>(name, par, seen(e).s, k, i, time, gather(x, e)) : 0.;
    return r;
  }
};
template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d, unsigned int nd, bool we>
using Loop = LoopT<MockTopology<d, d>, MockGeometry<d, d>, MockNodes<d, d>, MockSolver<d, nd, we>, Vec, unsigned int>;
