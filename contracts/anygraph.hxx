// Hypergraphs with an arbitrary number of hyperedges and hypernodes: stand-ins for the user-supplied template arguments
// (topology, geometry, node descriptor, local solver), all of them uninterpreted functions of the hyperedge's index and of
// everything the library hands to them.  The loops over the hyperedges are verified by invariants.
#pragma once
#include "mock.hxx"

// the data of the hyperedges: a standard container of a program-defined type, specialised with arbitrary length
struct SymData
{
  double v;
};
static double* sym_data = nullptr;  // storage of the container constructed last
static bool any_data = false;       // hyperedges with arbitrary data (of an earlier step) instead of initial ones
namespace std
{
template <>
class vector<SymData>
{
  double* p;
  uint64_t n;

 public:
  typedef SymData value_type;
  typedef SymData& reference;
  typedef const SymData& const_reference;
  typedef uint64_t size_type;
  vector() : p(nullptr), n(0) {}
  explicit vector(const uint64_t n_) : p(any_data ? vp_array_d("data", n_) : vp_array_zero(n_)), n(n_) { sym_data = p; }
  vector(const vector& o) : p(vp_array_copy(o.p, o.n)), n(o.n) { sym_data = p; }
  vector(vector&& o) noexcept : p(o.p), n(o.n) {}
  vector& operator=(const vector& o)
  {
    p = vp_array_copy(o.p, o.n);
    n = o.n;
    sym_data = p;
    return *this;
  }
  vector& operator=(vector&& o) noexcept
  {
    p = o.p;
    n = o.n;
    return *this;
  }
  uint64_t size() const { return n; }
  bool empty() const { return n == 0; }
  SymData& operator[](const uint64_t i) { return *(SymData*)(p + i); }
  const SymData& operator[](const uint64_t i) const { return *(const SymData*)(p + i); }
  SymData& at(const uint64_t i)
  {
    vp_check(i < n, "at: index in range");
    return *(SymData*)(p + i);
  }
  SymData* data() { return (SymData*)p; }
  SymData* begin() { return (SymData*)p; }
  SymData* end() { return (SymData*)(p + n); }
};
}  // namespace std

template <unsigned int d>
struct AnyGraph
{
  uint32_t n_nodes, n_edges, level;
  AnyGraph(const uint32_t l = 1) : level(l)
  {
    n_edges = vp_u32("n_edges", 1, 1u << 24);
    n_nodes = vp_u32("n_nodes", 2, 1u << 24);
    if (!vp_symbolic())
      vp_assume((n_edges <= 300000) & (n_nodes <= 300000));
  }
  // hypernode k of hyperedge e
  uint32_t node(const uint64_t e, const unsigned int k) const
  {
    const uint32_t r = (uint32_t)vp_ufi("node", 3, (uint64_t)level, e, (uint64_t)k);
    if (!vp_symbolic())
      return r % n_nodes;
    vp_assume(r < n_nodes);
    return r;
  }
};
template <unsigned int d>
struct AnyTopology
{
  typedef AnyGraph<d> constructor_value_type;
  struct hyperedge
  {
    uint32_t id;
    SmallVec<2 * d, unsigned int> nodes;
    const SmallVec<2 * d, unsigned int>& get_hyNode_indices() const { return nodes; }
  };
  typedef hyperedge value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return d; }
  const AnyGraph<d>* g;
  AnyTopology(const constructor_value_type& c) : g(&c) {}
  AnyTopology(const AnyTopology&) = default;
  value_type operator[](const unsigned int i) const
  {
    vp_check(i < g->n_edges, "only existing hyperedges are visited (topology)");
    value_type e;
    e.id = i;
    for (unsigned int k = 0; k < 2 * d; ++k)
      e.nodes[k] = g->node(i, k);
    return e;
  }
  unsigned int n_hyEdges() const { return g->n_edges; }
  unsigned int n_hyNodes() const { return g->n_nodes; }
  unsigned int get_refinement() const { return g->level; }
  void set_refinement(const unsigned int) {}
};
template <unsigned int d, int which>
struct AnyPart
{
  typedef AnyGraph<d> constructor_value_type;
  struct hyperedge
  {
    uint32_t id;
  };
  typedef hyperedge value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return d; }
  const AnyGraph<d>* g;
  AnyPart(const constructor_value_type& c) : g(&c) {}
  AnyPart(const AnyTopology<d>& t) : g(t.g) {}
  value_type operator[](const unsigned int i) const
  {
    vp_check(i < g->n_edges, which ? "only existing hyperedges are visited (nodes)" : "only existing hyperedges are visited (geometry)");
    return value_type{i};
  }
  unsigned int get_refinement() const { return g->level; }
  void set_refinement(const unsigned int) {}
};

template <unsigned int d, unsigned int nd>
using EdgeDofs = std::array<std::array<double, nd>, 2 * d>;

// value (k, i) of the local operation `name`: an arbitrary function of the hyperedge (its three parts and its data), the time
// and the local values
template <unsigned int d, unsigned int nd>
static double any_local(const char* name, const double par, const uint64_t topo, const uint64_t geom, const uint64_t node,
                        const double data, const unsigned int k, const unsigned int i, const double time,
                        const EdgeDofs<d, nd>& in)
{
  double a[8 + 2 * d * nd];
  a[0] = par;
  a[1] = vp_uf("seen_topology", 1, topo);
  a[2] = vp_uf("seen_geometry", 1, geom);
  a[3] = vp_uf("seen_node", 1, node);
  a[4] = data;
  a[5] = k;
  a[6] = i;
  a[7] = time;
  for (unsigned int n = 0; n < 2 * d; ++n)
    for (unsigned int m = 0; m < nd; ++m)
      a[8 + n * nd + m] = in[n][m];
  return vp_ufv(name, 8 + 2 * d * nd, a);
}
template <unsigned int d, unsigned int nd>
static double any_local2(const char* name, const double par, const uint64_t topo, const uint64_t geom, const uint64_t node,
                         const double data, const unsigned int k, const unsigned int i, const double time, const EdgeDofs<d, nd>& in,
                         const EdgeDofs<d, nd>& in2, const double time2)
{
  double a[9 + 4 * d * nd];
  a[0] = par;
  a[1] = vp_uf("seen_topology", 1, topo);
  a[2] = vp_uf("seen_geometry", 1, geom);
  a[3] = vp_uf("seen_node", 1, node);
  a[4] = data;
  a[5] = k;
  a[6] = i;
  a[7] = time;
  a[8] = time2;
  for (unsigned int n = 0; n < 2 * d; ++n)
    for (unsigned int m = 0; m < nd; ++m)
    {
      a[9 + n * nd + m] = in[n][m];
      a[9 + (2 * d + n) * nd + m] = in2[n][m];
    }
  return vp_ufv(name, 9 + 4 * d * nd, a);
}
struct AnyError
{
  typedef std::array<double, 2> error_t;
  static error_t initial_error() { return {vp_ufr("err_init", 1, 0.), vp_ufr("err_init", 1, 1.)}; }
  static error_t sum_error(const error_t& a, const error_t& b)
  {
    return {vp_ufr("err_sum", 3, 0., a[0], b[0]), vp_ufr("err_sum", 3, 1., a[1], b[1])};
  }
  static error_t postprocess_error(const error_t& a) { return {vp_ufr("err_post", 2, 0., a[0]), vp_ufr("err_post", 2, 1., a[1])}; }
};
template <unsigned int d, unsigned int nd>
struct AnySolver
{
  typedef SymData data_type;
  typedef double constructor_value_type;
  typedef AnyError error_def;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return 1; }
  static constexpr unsigned int node_system_dimension() { return 1; }
  double par;
  AnySolver(const double p = 17.) : par(p) {}
  template <typename E>
  double call(const char* name, const E& e, const unsigned int k, const unsigned int i, const double time,
              const EdgeDofs<d, nd>& in) const
  {
    return any_local<d, nd>(name, par, e.topology.id, e.geometry.id, e.node_descriptor.id, e.data.v, k, i, time, in);
  }
#define VP_LOCAL(name)                                                                                       \
  template <typename E>                                                                                      \
  EdgeDofs<d, nd>& name(const EdgeDofs<d, nd>& in, EdgeDofs<d, nd>& out, E& e, const double time = 0.) const \
  {                                                                                                          \
    for (unsigned int k = 0; k < 2 * d; ++k)                                                                 \
      for (unsigned int i = 0; i < nd; ++i)                                                                  \
        out[k][i] += call(#name, e, k, i, time, in);                                                         \
    return out;                                                                                              \
  }
  VP_LOCAL(trace_to_flux)
  VP_LOCAL(residual_flux)
  VP_LOCAL(trace_to_mass_flux)
#undef VP_LOCAL
  template <typename E>
  EdgeDofs<d, nd>& jacobian_of_trace_to_flux(const EdgeDofs<d, nd>& in, EdgeDofs<d, nd>& out, const double eig,
                                             const EdgeDofs<d, nd>& vals, const double eig_val, E& e) const
  {
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        out[k][i] += any_local2<d, nd>("jac", par, e.topology.id, e.geometry.id, e.node_descriptor.id, e.data.v, k, i, eig, in,
                                       vals, eig_val);
    return out;
  }
  template <typename E>
  EdgeDofs<d, nd>& make_initial(EdgeDofs<d, nd>& x, E& e, const double time = 0.) const
  {
    const EdgeDofs<d, nd> in = x;
    const double data = e.data.v;
    e.data.v = call("initial_data", e, 0, 0, time, in);
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        x[k][i] = any_local<d, nd>("make_initial", par, e.topology.id, e.geometry.id, e.node_descriptor.id, data, k, i, time, in);
    return x;
  }
  template <typename E>
  void set_data(const EdgeDofs<d, nd>& in, E& e, const double time = 0.) const
  {
    e.data.v = call("set_data", e, 0, 0, time, in);
  }
  template <typename E>
  AnyError::error_t errors(const EdgeDofs<d, nd>& in, E& e, const double time = 0.) const
  {
    return {call("errors", e, 0, 0, time, in), call("errors", e, 1, 0, time, in)};
  }
  template <typename E>
  std::array<unsigned int, 2 * d> node_types(E& e) const
  {
    std::array<unsigned int, 2 * d> t;
    for (unsigned int k = 0; k < 2 * d; ++k)
      t[k] = node_type(e.topology.id, k);
    return t;
  }
  static unsigned int node_type(const uint64_t e, const unsigned int k)
  {
    return (unsigned int)(vp_ufi("node_type", 2, e, (uint64_t)k) & 3);
  }
};

// a large vector whose storage the invariants can name: the one constructed last with a given value
struct OutVec : BigVec
{
  static inline double* last;
  static inline uint64_t last_n;
  OutVec() {}
  OutVec(const char* name, const uint64_t n_) : BigVec(name, n_) {}
  explicit OutVec(const uint64_t n_) : BigVec(n_)
  {
    last = p;
    last_n = n;
  }
  OutVec(const uint64_t n_, const double v) : BigVec(n_, v)
  {
    last = p;
    last_n = n;
  }
  OutVec(const OutVec& o) : BigVec(o)
  {
    last = p;
    last_n = n;
  }
  OutVec(OutVec&& o) : BigVec(std::move(o)) {}
  OutVec& operator=(const OutVec& o)
  {
    BigVec::operator=(o);
    last = p;
    last_n = n;
    return *this;
  }
  OutVec& operator=(OutVec&& o)
  {
    BigVec::operator=(std::move(o));
    return *this;
  }
};
template <unsigned int d, unsigned int nd>
static uint64_t any_dof(const AnyGraph<d>& g, const uint64_t e, const unsigned int k, const unsigned int i)
{
  return (uint64_t)nd * g.node(e, k) + i;
}
template <unsigned int d, unsigned int nd>
static EdgeDofs<d, nd> any_gather(const AnyGraph<d>& g, const BigVec& x, const uint64_t e)
{
  EdgeDofs<d, nd> r;
  for (unsigned int k = 0; k < 2 * d; ++k)
    for (unsigned int i = 0; i < nd; ++i)
      r[k][i] = x[any_dof<d, nd>(g, e, k, i)];
  return r;
}
template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d, unsigned int nd>
using AnyLoop = LoopT<AnyTopology<d>, AnyPart<d, 0>, AnyPart<d, 1>, AnySolver<d, nd>, OutVec, unsigned int>;
