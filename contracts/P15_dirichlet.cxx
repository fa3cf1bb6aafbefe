// P15: Dirichlet degrees of freedom are exactly the registered / detected ones
#include "loops.hxx"
using namespace GlobalLoop;

// Elliptic: registered indices (any order, duplicates, replaced by a later call)
template <unsigned int d, unsigned int nd, bool we, unsigned int n_idx, unsigned int n_first>
void registered()
{
  {
    const MockConfig<d> c(VP_GRAPH(2, 1));
    const double par = vp_real("par"), time = vp_real("time");
    Loop<Elliptic, d, nd, we> loop(c, par);
    const Spec<d, nd, we> spec{c, 1, par};
    const uint32_t size = spec.size();
    const Vec x = any_vec("x", size);
    // first set, later replaced
    if (n_first > 0)
    {
      std::vector<unsigned int> first(n_first);
      for (unsigned int i = 0; i < n_first; ++i)
        first[i] = vp_u32("first", 0, size - 1);
      loop.read_dirichlet_indices(first);
    }
    std::vector<unsigned int> idx(n_idx);
    for (unsigned int i = 0; i < n_idx; ++i)
      idx[i] = vp_u32("index", 0, size - 1);
    const std::vector<unsigned int> idx0 = idx;
    loop.read_dirichlet_indices(idx);
    const Vec y = loop.trace_to_flux(x, time), r = loop.residual_flux(x, time);
    vp_check((y.size() == size) & (r.size() == size), "size of the results");
    for (uint32_t j = 0; j < size; ++j)
    {
      bool in = false;
      for (unsigned int i = 0; i < n_idx; ++i)
        in |= idx0[i] == j;
      vp_check_eq(y[j], in ? 0. : spec.sum("trace_to_flux", x, time, j), "flux: zero exactly at registered indices");
      vp_check_eq(r[j], in ? 0. : spec.sum("residual_flux", x, time, j), "residual: zero exactly at registered indices");
    }
    for (unsigned int i = 0; i < n_idx; ++i)
      vp_check(idx[i] == idx0[i], "the list of indices is unchanged");
  }
  vp_reach("done");
}
VP_CONTRACT(registered_edge_0) { registered<1, 2, true, 0, 0>(); }
VP_CONTRACT(registered_edge_1_0) { registered<1, 1, true, 0, 1>(); }
VP_CONTRACT(registered_edge_1) { registered<1, 2, true, 1, 0>(); }
VP_CONTRACT(registered_edge_2_1) { registered<1, 1, true, 1, 2>(); }
VP_CONTRACT(registered_edge_1_2) { registered<1, 1, true, 2, 1>(); }
VP_CONTRACT(registered_edge_2) { registered<1, 1, true, 2, 0>(); }
VP_CONTRACT(registered_free_2) { registered<1, 1, false, 2, 0>(); }
VP_CONTRACT(registered_edge_3) { registered<1, 1, true, 3, 0>(); }
template <unsigned int n_idx>
void rejected()
{
  {
    const MockConfig<1> c(VP_GRAPH(1, 1));
    Loop<Elliptic, 1, 2, true> loop(c, 1.);
    const uint32_t size = Spec<1, 2, true>{c, 1, 1.}.size();
    std::vector<unsigned int> idx(n_idx);
    bool bad = false;
    for (unsigned int i = 0; i < n_idx; ++i)
    {
      idx[i] = vp_u32("index", 0, 0xffffffffu);
      bad |= idx[i] >= size;
    }
    vp_abort_expected(bad, "indices are rejected only if one is out of range");
    loop.read_dirichlet_indices(idx);
    vp_check(!bad, "indices out of range are rejected");
  }
  vp_reach("done");
}
VP_CONTRACT(rejected_1) { rejected<1>(); }
VP_CONTRACT(rejected_2) { rejected<2>(); }

// Eigenvalue loops: indices detected from the node types the local solver reports
template <template <class, class, class, class, typename, typename> class LoopT, unsigned int nd>
void check_detected(const std::vector<unsigned int>& r, const MockConfig<1>& c, const unsigned int level)
{
  const Spec<1, nd, true> spec{c, level, 1.};
  for (uint32_t j = 0; j < spec.size(); ++j)
  {
    bool want = false, have = false;
    for (uint32_t e = 0; e < c.n_edges[level]; ++e)
      for (unsigned int k = 0; k < 2; ++k)
        for (unsigned int i = 0; i < nd; ++i)
          want |= (MockSolver<1, nd, true>::node_type(level, e, k) == 1) & (spec.dof(e, k, i) == j);
    for (unsigned int i = 0; i < r.size(); ++i)
      have |= r[i] == j;
    vp_check(want == have, "exactly the degrees of freedom of Dirichlet hypernodes are reported");
  }
  for (unsigned int i = 0; i < r.size(); ++i)
  {
    vp_check(r[i] < spec.size(), "reported indices exist");
    if (i > 0)
      vp_check(r[i - 1] < r[i], "reported indices are sorted and unique");
  }
}
template <template <class, class, class, class, typename, typename> class LoopT, unsigned int nd, uint32_t e1, uint32_t e2>
void detected()
{
  {
    const MockConfig<1> c(VP_GRAPH(e1, e2));
    Loop<LoopT, 1, nd, true> loop(c, 1.);
    std::vector<unsigned int> r = loop.dirichlet_indices();
    check_detected<LoopT, nd>(r, c, 1);
    r = loop.dirichlet_indices();
    check_detected<LoopT, nd>(r, c, 1);
    loop.set_refinement(2);
    r = loop.dirichlet_indices();
    check_detected<LoopT, nd>(r, c, 2);
  }
  vp_reach("done");
}
VP_CONTRACT(detected_mass_1_2_1) { detected<MassApproxEigenvalue, 1, 2, 1>(); }
VP_CONTRACT(detected_mass_2_1_2) { detected<MassApproxEigenvalue, 2, 1, 2>(); }
VP_CONTRACT(detected_shifted_1_2_1) { detected<ShiftedInverseEigenvalue, 1, 2, 1>(); }
VP_CONTRACT(detected_shifted_2_1_2) { detected<ShiftedInverseEigenvalue, 2, 1, 2>(); }
