// P13: the hypergraph facade: one consistent view of topology, geometry, nodes and data
#include "mock.hxx"
#include <HyperHDG/hdg_hypergraph.hxx>

template <unsigned int nd, unsigned int d>
using Graph = HDGHyperGraph<nd, MockTopology<d, d>, MockGeometry<d, d>, MockNodes<d, d>, MockData>;

template <unsigned int nd, unsigned int d, typename G>
void consistent(G& g, const MockConfig<d>& c, const unsigned int level, const uint32_t geom_tag)
{
  const uint32_t n = c.n_edges[level];
  vp_check(g.n_hyEdges() == n, "number of hyperedges is the topology's");
  vp_check(g.n_hyNodes() == c.n_nodes[level], "number of hypernodes is the topology's");
  vp_check(g.hyNode_factory().n_hyNodes() == c.n_nodes[level], "node factory knows the topology's hypernodes");
  vp_check(g.n_global_dofs() == nd * c.n_nodes[level], "number of degrees of freedom");
  vp_check(g.template n_global_dofs<uint64_t>() == (uint64_t)(nd * c.n_nodes[level]), "degrees of freedom, wide index");
  vp_check(g.get_refinement() == level, "refinement level");
  for (uint32_t i = 0; i < n; ++i)
  {
    auto e = g[i];
    vp_check((e.topology.id == i) & (e.geometry.id == i) & (e.node_descriptor.id == i),
             "a hyperedge has the same index in topology, geometry and nodes");
    vp_check((e.topology.level == level) & (e.geometry.level == level) & (e.node_descriptor.level == level),
             "all parts are on the same refinement level");
    vp_check((e.topology.tag == c.tag) & (e.geometry.tag == geom_tag) & (e.node_descriptor.tag == c.tag),
             "all parts come from the constructor arguments");
    vp_check((g.hyEdge_topology(i).id == i) & (g.hyEdge_geometry(i).id == i) & (g.hyNode_descriptor(i).id == i),
             "the parts' accessors select the same hyperedge");
    for (unsigned int k = 0; k < 2 * d; ++k)
      vp_check(g.hyEdge_topology(i).get_hyNode_indices()[k] == c.nodes[level][i][k], "hypernodes of the hyperedge");
    vp_check(std::addressof(e.data) == std::addressof(g.hyEdge_data(i)), "data is the hyperedge's own");
  }
}
template <unsigned int nd, unsigned int d, typename G>
void data_laws(G& g, const uint32_t n)
{
  for (uint32_t i = 0; i < n; ++i)
    vp_check((g.hyEdge_data(i).k == 0) & (g.hyEdge_data(i).v == 0.), "data starts default-constructed");
  double val[4];
  for (uint32_t i = 0; i < n; ++i)
  {
    val[i] = vp_real("val");
    auto e = g[i];
    e.data.v = val[i];
    e.data.k = i + 1;
  }
  for (uint32_t i = 0; i < n; ++i)
  {
    vp_check_eq(g.hyEdge_data(i).v, val[i], "data written through a hyperedge stays with it");
    vp_check(g.hyEdge_data(i).k == i + 1, "data of different hyperedges is distinct");
  }
  g.hyEdge_data(n - 1).k = 77;
  for (uint32_t i = 0; i < n; ++i)
    vp_check(g[i].data.k == (i + 1 == n ? 77 : i + 1), "data written directly is seen through the hyperedge");
}
template <typename G>
void iteration(G& g, const uint32_t n)
{
  uint32_t count = 0;
  std::for_each(g.begin(), g.end(),
                [&](auto hyper_edge)
                {
                  vp_check(hyper_edge.topology.id == count, "iteration visits every hyperedge once, in order");
                  vp_check(std::addressof(hyper_edge.data) == std::addressof(g.hyEdge_data(count)),
                           "iteration gives the hyperedge's own data");
                  ++count;
                });
  vp_check(count == n, "iteration visits all hyperedges");
  auto it = g.begin();
  auto old = it++;
  vp_check((*old).topology.id == 0, "post-increment returns the old position");
  if (n > 1)
  {
    vp_check((*it).topology.id == 1, "post-increment advances");
    auto& same = --it;
    vp_check(std::addressof(same) == std::addressof(it), "pre-decrement returns the iterator");
    vp_check((*it).topology.id == 0, "pre-decrement goes back");
    auto& same2 = ++it;
    vp_check(std::addressof(same2) == std::addressof(it), "pre-increment returns the iterator");
    auto prev = it--;
    vp_check((*prev).topology.id == 1, "post-decrement returns the old position");
    vp_check((*it).topology.id == 0, "post-decrement goes back");
  }
  auto last = g.end();
  --last;
  vp_check((*last).topology.id == n - 1, "the end is one past the last hyperedge");
  auto a = g.begin();
  vp_check(a == g.begin(), "iterators at one position are equal");
  vp_check(!(a == g.end()), "begin differs from end");
  auto b = a;
  ++b;
  vp_check(!(a == b), "iterators at different positions differ");
  vp_check((b == g.end()) == (n == 1), "iterator reaches the end exactly after all hyperedges");
}

template <unsigned int nd, unsigned int d, uint32_t n1, uint32_t n2>
void from_topology()
{
  {
    const MockConfig<d> c(n1, n2, 2, 1u << 20);
    Graph<nd, d> g(c);
    consistent<nd, d>(g, c, 1, c.tag);
    data_laws<nd, d>(g, n1);
    iteration(g, n1);
    vp_check((Graph<nd, d>::hyEdge_dim() == d) & (Graph<nd, d>::space_dim() == d) & (Graph<nd, d>::n_dofs_per_node() == nd),
             "dimensions");
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d, uint32_t n1, uint32_t n2>
void from_both()
{
  {
    const MockConfig<d> c(n1, n2, 2, 1u << 20);
    MockConfig<d> c2(c);
    c2.tag = c.tag + 5;
    Graph<nd, d> g(c, c2);
    consistent<nd, d>(g, c, 1, c2.tag);
    data_laws<nd, d>(g, n1);
    iteration(g, n1);
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d, uint32_t n1, uint32_t n2>
void from_shared()
{
  {
    const MockConfig<d> c(n1, n2, 2, 1u << 20);
    auto t = std::make_shared<MockTopology<d, d>>(c);
    auto geo = std::make_shared<MockGeometry<d, d>>(c);
    auto nod = std::make_shared<MockNodes<d, d>>(c);
    Graph<nd, d> g(t, geo, nod);
    consistent<nd, d>(g, c, 1, c.tag);
    iteration(g, n1);
    g.set_refinement(2);
    vp_check((t->level == 2) & (geo->level == 2) & (nod->level == 2), "refinement reaches the shared parts");
    consistent<nd, d>(g, c, 2, c.tag);
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d, uint32_t n1, uint32_t n2>
void refine()
{
  {
    const MockConfig<d> c(n1, n2, 2, 1u << 20);
    Graph<nd, d> g(c);
    for (uint32_t i = 0; i < n1; ++i)
      g.hyEdge_data(i).k = 9;
    g.set_refinement(2);
    consistent<nd, d>(g, c, 2, c.tag);
    data_laws<nd, d>(g, n2);
    iteration(g, n2);
    g.set_refinement(1);
    consistent<nd, d>(g, c, 1, c.tag);
    data_laws<nd, d>(g, n1);
    iteration(g, n1);
  }
  vp_reach("done");
}
// two graphs do not share iterators or data
template <unsigned int nd, unsigned int d>
void separate()
{
  {
    const MockConfig<d> c(2, 2, 2, 1u << 20);
    Graph<nd, d> g(c), h(c);
    vp_check(!(g.begin() == h.begin()), "iterators of different graphs differ");
    g.hyEdge_data(1).k = 3;
    vp_check(h.hyEdge_data(1).k == 0, "graphs do not share data");
    g.set_refinement(2);
    vp_check((h.get_refinement() == 1) & (g.get_refinement() == 2), "graphs do not share refinement");
  }
  vp_reach("done");
}
template <unsigned int nd, unsigned int d>
void rejects()
{
  {
    const bool empty = vp_bool("empty");
    const MockConfig<d> c(empty ? 0 : 1, 1, 1, 5);
    vp_abort_expected(empty | (c.n_nodes[1] < 2), "graphs with a hyperedge and two hypernodes are accepted");
    Graph<nd, d> g(c);
    vp_abort_expected(false, "");
    vp_check(!empty, "a graph without hyperedges is rejected");
    vp_check(c.n_nodes[1] >= 2, "a graph with fewer than two hypernodes is rejected");
  }
  vp_reach("done");
}
template <uint32_t n>
void container()
{
  {
    HyDataContainer<MockData> cont(n);
    const uint64_t i = vp_u64("i", 0, ~0ull), j = vp_u64("j", 0, n - 1);
    const double v = vp_real("v");
    vp_abort_expected(i >= n, "all existing entries are accepted");
    MockData& m = cont[i];
    vp_abort_expected(false, "");
    vp_check(i < n, "entries that do not exist are rejected");
    m.v = v;
    vp_check_eq(cont.get_hyEdge(j).v, i == j ? v : 0., "an entry is the hyperedge's own");
  }
  vp_reach("done");
}
#define INST(nd, d, a, b)                                                              \
  VP_CONTRACT(from_topology_##nd##_##d##_##a##_##b) { from_topology<nd, d, a, b>(); }  \
  VP_CONTRACT(from_both_##nd##_##d##_##a##_##b) { from_both<nd, d, a, b>(); }          \
  VP_CONTRACT(from_shared_##nd##_##d##_##a##_##b) { from_shared<nd, d, a, b>(); }      \
  VP_CONTRACT(refine_##nd##_##d##_##a##_##b) { refine<nd, d, a, b>(); }
INST(1, 1, 1, 2)
INST(2, 1, 3, 2)
INST(3, 2, 2, 4)
INST(2, 3, 1, 3)
VP_CONTRACT(separate_2_1) { separate<2, 1>(); }
VP_CONTRACT(rejects_1_1) { rejects<1, 1>(); }
VP_CONTRACT(rejects_2_2) { rejects<2, 2>(); }
VP_CONTRACT(container_1) { container<1>(); }
VP_CONTRACT(container_3) { container<3>(); }
VP_CONTRACT(container_4) { container<4>(); }
