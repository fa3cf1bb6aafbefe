// Stand-ins for the user-supplied template arguments of the hypergraph and the global loops (topology,
// geometry, node descriptor, local solver): arbitrary objects, given by uninterpreted functions, that
// satisfy only the concepts the library documents.  The library code under contract is the real one.
#pragma once
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>

// a large vector of arbitrary length (user-supplied container type)
struct BigVec
{
  typedef double value_type;
  double* p;
  uint64_t n;
  BigVec() : p(nullptr), n(0) {}
  BigVec(const char* name, const uint64_t n_) : p(vp_array_d(name, n_)), n(n_) {}
  explicit BigVec(const uint64_t n_) : p(vp_array_zero(n_)), n(n_) {}
  BigVec(const uint64_t n_, const double v) : p(vp_array_zero(n_)), n(n_) { vp_array_fill(p, n_, v); }
  BigVec(const BigVec& o) : p(vp_array_copy(o.p, o.n)), n(o.n) {}
  BigVec(BigVec&& o) : p(o.p), n(o.n) { o.n = 0; }
  BigVec& operator=(const BigVec& o)
  {
    p = vp_array_copy(o.p, o.n);
    n = o.n;
    return *this;
  }
  BigVec& operator=(BigVec&& o)
  {
    p = o.p;
    n = o.n;
    return *this;
  }
  uint64_t size() const { return n; }
  double& operator[](const uint64_t i) { return p[i]; }
  const double& operator[](const uint64_t i) const { return p[i]; }
  double* begin() { return p; }
  double* end() { return p + n; }
  const double* begin() const { return p; }
  const double* end() const { return p + n; }
  const double* cbegin() const { return p; }
  const double* cend() const { return p + n; }
  double* data() { return p; }
  const double* data() const { return p; }
  double& at(const uint64_t i) { return p[i]; }
  const double& at(const uint64_t i) const { return p[i]; }
  bool empty() const { return n == 0; }
  typedef uint64_t size_type;
  typedef int64_t difference_type;
  typedef double& reference;
  typedef const double& const_reference;
  typedef double* iterator;
  typedef const double* const_iterator;
};

// hyperedges e < n_edges of a hypergraph, each with 2 * d hypernodes, on refinement levels 1 and 2
template <unsigned int d>
struct MockConfig
{
  static constexpr unsigned int max_edges = 4;
  uint32_t n_nodes[3], n_edges[3];
  uint32_t nodes[3][max_edges][2 * d];
  uint32_t tag;
  // fixed hypergraph: chain, reversed, sharing and repeating hypernodes
  MockConfig(const uint32_t e1, const uint32_t e2)
  {
    tag = vp_u32("tag", 0, 1000);
    n_edges[0] = n_nodes[0] = 0;
    n_edges[1] = e1;
    n_edges[2] = e2;
    n_nodes[1] = 3;
    n_nodes[2] = 4;
    for (unsigned int l = 1; l < 3; ++l)
      for (unsigned int e = 0; e < n_edges[l]; ++e)
        for (unsigned int k = 0; k < 2 * d; ++k)
          nodes[l][e][k] = e == 0 ? (k + 1) % n_nodes[l] : e == 1 ? (2 * k + l) % n_nodes[l] : (n_nodes[l] - 1 - k % 2);
  }
  // arbitrary hypergraph with the given numbers of hyperedges per level
  MockConfig(const uint32_t e1, const uint32_t e2, const uint32_t min_nodes, const uint32_t max_nodes)
  {
    tag = vp_u32("tag", 0, 1000);
    n_edges[0] = 0;
    n_nodes[0] = 0;
    n_edges[1] = e1;
    n_edges[2] = e2;
    for (unsigned int l = 1; l < 3; ++l)
    {
      n_nodes[l] = min_nodes == max_nodes ? max_nodes : vp_u32("n_nodes", min_nodes, max_nodes);
      for (unsigned int e = 0; e < n_edges[l]; ++e)
        for (unsigned int k = 0; k < 2 * d; ++k)
        {
          nodes[l][e][k] = vp_u32("node", 0, max_nodes - 1);
          vp_assume(nodes[l][e][k] < n_nodes[l]);
        }
    }
  }
};

template <unsigned int d, unsigned int s>
struct MockTopology
{
  typedef MockConfig<d> constructor_value_type;
  struct hyperedge
  {
    uint32_t id, tag, level;
    SmallVec<2 * d, unsigned int> nodes;
    const SmallVec<2 * d, unsigned int>& get_hyNode_indices() const { return nodes; }
  };
  typedef hyperedge value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return s; }
  const MockConfig<d>* conf;
  unsigned int level = 1;
  MockTopology(const constructor_value_type& c) : conf(&c) {}
  MockTopology(const MockTopology&) = default;
  value_type operator[](const unsigned int i) const
  {
    vp_check(i < n_hyEdges(), "only existing hyperedges are visited (topology)");
    value_type e;
    e.id = i;
    e.tag = conf->tag;
    e.level = level;
    for (unsigned int k = 0; k < 2 * d; ++k)
      e.nodes[k] = conf->nodes[level][i][k];
    return e;
  }
  unsigned int n_hyEdges() const { return conf->n_edges[level]; }
  unsigned int n_hyNodes() const { return conf->n_nodes[level]; }
  unsigned int get_refinement() const { return level; }
  void set_refinement(const unsigned int l) { level = l; }
};

template <unsigned int d, unsigned int s, int which>
struct MockPart  // geometry (which = 0) and node descriptor (which = 1)
{
  typedef MockConfig<d> constructor_value_type;
  struct hyperedge
  {
    uint32_t id, tag, level;
  };
  typedef hyperedge value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return s; }
  const MockConfig<d>* conf;
  unsigned int level = 1;
  MockPart(const constructor_value_type& c) : conf(&c) {}
  MockPart(const MockTopology<d, s>& t) : conf(t.conf) {}
  value_type operator[](const unsigned int i) const
  {
    vp_check(i < conf->n_edges[level],
             which ? "only existing hyperedges are visited (nodes)" : "only existing hyperedges are visited (geometry)");
    return value_type{i, conf->tag, level};
  }
  unsigned int get_refinement() const { return level; }
  void set_refinement(const unsigned int l) { level = l; }
};
template <unsigned int d, unsigned int s>
using MockGeometry = MockPart<d, s, 0>;
template <unsigned int d, unsigned int s>
using MockNodes = MockPart<d, s, 1>;

struct MockData
{
  double v;
  uint32_t k;
  MockData() : v(0.), k(0) {}
};
