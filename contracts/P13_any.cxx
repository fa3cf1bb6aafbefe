// P13: the hypergraph facade for hypergraphs with arbitrary numbers of hyperedges and hypernodes on every refinement level
#include "anygraph.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>

// number of hyperedges and hypernodes are arbitrary functions of the refinement level
struct Levels
{
  uint32_t tag;
  uint32_t count(const char* name, const uint32_t level, const uint32_t min) const
  {
    const uint32_t r = (uint32_t)vp_ufi(name, 1, (uint64_t)level);
    if (!vp_symbolic())
      return min + r % 1000;
    vp_assume((r >= min) & (r < (1u << 24)));
    return r;
  }
  uint32_t n_edges(const uint32_t l) const { return count("n_edges_of_level", l, 1); }
  uint32_t n_nodes(const uint32_t l) const { return count("n_nodes_of_level", l, 2); }
};
template <unsigned int d, int which>  // topology (0), geometry (1), node descriptor (2)
struct LevelPart
{
  typedef Levels constructor_value_type;
  struct hyperedge
  {
    uint32_t id, tag, level;
    SmallVec<2 * d, unsigned int> nodes;
    const SmallVec<2 * d, unsigned int>& get_hyNode_indices() const { return nodes; }
  };
  typedef hyperedge value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return d; }
  const Levels* conf;
  unsigned int level = 1;
  LevelPart(const Levels& c) : conf(&c) {}
  LevelPart(const LevelPart&) = default;
  template <int other>
  LevelPart(const LevelPart<d, other>& t) : conf(t.conf)
  {
  }
  value_type operator[](const unsigned int i) const
  {
    vp_check(i < conf->n_edges(level), "only existing hyperedges are visited");
    value_type e;
    e.id = i;
    e.tag = conf->tag;
    e.level = level;
    for (unsigned int k = 0; k < 2 * d; ++k)
      e.nodes[k] = (unsigned int)vp_ufi("node", 3, (uint64_t)level, (uint64_t)i, (uint64_t)k);
    return e;
  }
  unsigned int n_hyEdges() const { return conf->n_edges(level); }
  unsigned int n_hyNodes() const { return conf->n_nodes(level); }
  unsigned int get_refinement() const { return level; }
  void set_refinement(const unsigned int l) { level = l; }
};
template <unsigned int nd, unsigned int d>
using Graph = HDGHyperGraph<nd, LevelPart<d, 0>, LevelPart<d, 1>, LevelPart<d, 2>, SymData>;

// everything about an arbitrary hyperedge i
template <unsigned int nd, unsigned int d, typename G>
static void consistent(G& g, const Levels& c, const uint32_t level, const uint32_t geom_tag)
{
  const uint32_t n = c.n_edges(level);
  const uint64_t m = c.n_nodes(level);
  vp_check(g.n_hyEdges() == n, "number of hyperedges is the topology's");
  vp_check((g.n_hyNodes() == m) & (g.hyNode_factory().n_hyNodes() == m), "number of hypernodes is the topology's");
  vp_check(g.template n_global_dofs<uint64_t>() == nd * m, "number of degrees of freedom");
  vp_check(g.get_refinement() == level, "refinement level");
  const uint32_t i = vp_u32("i", 0, 1u << 24), j = vp_u32("j", 0, 1u << 24);
  vp_assume((i < n) & (j < n));
  auto e = g[i];
  vp_check((e.topology.id == i) & (e.geometry.id == i) & (e.node_descriptor.id == i),
           "a hyperedge has the same index in topology, geometry and nodes");
  vp_check((e.topology.level == level) & (e.geometry.level == level) & (e.node_descriptor.level == level),
           "all parts are on the same refinement level");
  vp_check((e.topology.tag == c.tag) & (e.geometry.tag == geom_tag) & (e.node_descriptor.tag == c.tag),
           "all parts come from the constructor arguments");
  vp_check((g.hyEdge_topology(i).id == i) & (g.hyEdge_geometry(i).id == i) & (g.hyNode_descriptor(i).id == i),
           "the parts' accessors select the same hyperedge");
  for (unsigned int k = 0; k < 2 * d; ++k)
    vp_check(g.hyEdge_topology(i).get_hyNode_indices()[k] == (unsigned int)vp_ufi("node", 3, (uint64_t)level, (uint64_t)i, (uint64_t)k),
             "hypernodes of the hyperedge");
  vp_check_eq(g.hyEdge_data(i).v, 0., "data starts default-constructed");
  const double v = vp_real("v"), w = vp_real("w");
  e.data.v = v;
  vp_check_eq(g.hyEdge_data(j).v, i == j ? v : 0., "data written through a hyperedge is this hyperedge's, and no other's");
  g.hyEdge_data(j).v = w;
  vp_check_eq(e.data.v, i == j ? w : v, "data written directly is seen through the hyperedge");
  vp_check_eq(g[j].data.v, w, "data is seen through a new view of the hyperedge");
}
// iteration: invariant "k hyperedges have been visited, the next one is k"
struct Visit
{
  uint64_t n, count;
};
static void inv(void* p, uint64_t k)
{
  const Visit& v = *(Visit*)p;
  vp_inv(v.count == k, "iteration visits every hyperedge once, in order");
  vp_inv(k <= v.n, "iteration does not pass the end");
}
template <typename G>
static void iteration(G& g, const uint32_t n)
{
  Visit v{n, 0};
  if (vp_symbolic())
    vp_invariant("*", inv, &v);
  std::for_each(g.begin(), g.end(),
                [&](auto hyper_edge)
                {
                  vp_check((hyper_edge.topology.id == v.count) & (hyper_edge.geometry.id == v.count) &
                             (hyper_edge.node_descriptor.id == v.count),
                           "the parts of the hyperedge visited belong together");
                  hyper_edge.data.v = 5.;
                  vp_check_eq(g.hyEdge_data(v.count).v, 5., "iteration gives the hyperedge's own data");
                  ++v.count;
                });
  vp_invariant_end();
  vp_check(v.count == n, "iteration visits all hyperedges");
  auto last = g.end();
  --last;
  vp_check((*last).topology.id == n - 1, "the end is one past the last hyperedge");
  auto b = g.begin();
  vp_check((b == g.begin()) & !(b == g.end()), "begin differs from end");
  ++b;
  vp_check((b == g.end()) == (n == 1), "iterator reaches the end exactly after all hyperedges");
  vp_check((b == last) == (n == 2), "iterators are equal exactly at the same position");
}
template <unsigned int nd, unsigned int d>
static void levels()
{
  {
    const Levels c{vp_u32("tag", 0, 1000)};
    Graph<nd, d> g(c);
    consistent<nd, d>(g, c, 1, c.tag);
    const uint32_t l1 = vp_u32("level_1", 1, 1u << 24), l2 = vp_u32("level_2", 1, 1u << 24);
    g.set_refinement(l1);
    consistent<nd, d>(g, c, l1, c.tag);
    g.set_refinement(l2);
    consistent<nd, d>(g, c, l2, c.tag);
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d>
static void both()
{
  {
    const Levels c{vp_u32("tag", 0, 1000)}, c2{vp_u32("tag_geometry", 0, 1000)};
    Graph<nd, d> g(c, c2);
    consistent<nd, d>(g, c, 1, c2.tag);
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d>
static void shared()
{
  {
    const Levels c{vp_u32("tag", 0, 1000)}, c2{vp_u32("tag_geometry", 0, 1000)};
    Graph<nd, d> g(std::make_shared<LevelPart<d, 0>>(c), std::make_shared<LevelPart<d, 1>>(c2), std::make_shared<LevelPart<d, 2>>(c));
    consistent<nd, d>(g, c, 1, c2.tag);
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d>
static void iterate()
{
  {
    const Levels c{vp_u32("tag", 0, 1000)};
    Graph<nd, d> g(c);
    iteration(g, c.n_edges(1));
    const uint32_t l = vp_u32("level", 1, 1u << 24);
    g.set_refinement(l);
    iteration(g, c.n_edges(l));
  }
  vp_reach("done");
}
VP_CONTRACT(any_levels_1_1) { levels<1, 1>(); }
VP_CONTRACT(any_levels_3_2) { levels<3, 2>(); }
VP_CONTRACT(any_both_2_1) { both<2, 1>(); }
VP_CONTRACT(any_shared_1_2) { shared<1, 2>(); }
VP_CONTRACT(any_iterate_1_1) { iterate<1, 1>(); }
VP_CONTRACT(any_iterate_2_2) { iterate<2, 2>(); }
