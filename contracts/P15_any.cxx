// P15: registered Dirichlet degrees of freedom on hypergraphs with an arbitrary number of hyperedges and hypernodes: exactly the
// entries of the list last registered vanish, all other entries are the sums of the contributions of all hyperedges.
#include "anyop.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>

template <unsigned int d, unsigned int nd, unsigned int n_idx, unsigned int n_first>
void registered()
{
  {
    n_calls = 0;
    const AnyGraph<d> g;
    const double par = vp_real("par"), time = vp_real("time");
    AnyLoop<GlobalLoop::Elliptic, d, nd> loop(g, par);
    const uint64_t size = (uint64_t)nd * g.n_nodes;
    std::vector<unsigned int> first(n_first), idx(n_idx);
    for (unsigned int i = 0; i < n_first; ++i)
    {
      first[i] = vp_u32("first", 0, 0xffffffffu);
      vp_assume(first[i] < size);
    }
    if (n_first)
      loop.read_dirichlet_indices(first);
    for (unsigned int i = 0; i < n_idx; ++i)
    {
      idx[i] = vp_u32("index", 0, 0xffffffffu);
      vp_assume(idx[i] < size);
    }
    const std::vector<unsigned int> idx0 = idx;
    loop.read_dirichlet_indices(idx);
    const OutVec x("x", size);
    const OutVec x0 = x;
    const uint64_t j = vp_u64("j", 0, ((uint64_t)1 << 32) - 1);
    vp_assume(j < size);
    bool in = false;
    for (unsigned int i = 0; i < n_idx; ++i)
      in |= idx0[i] == j;
    Ctx<d, nd> c{&g, "trace_to_flux", par, time, 0., &x0, nullptr, j, 0};
    evaluate<d, nd>(c, size, "*", "flux: zero exactly at registered indices",
                    [&] { return loop.trace_to_flux(x, time); }, in);
    c.name = "residual_flux";
    evaluate<d, nd>(c, size, "*", "residual: zero exactly at registered indices",
                    [&] { return loop.residual_flux(x, time); }, in);
  }
  vp_reach("done");
}
VP_CONTRACT(any_registered_1_1_1) { registered<1, 1, 1, 0>(); }
VP_CONTRACT(any_registered_1_2_2_1) { registered<1, 1, 2, 1>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(any_registered_1_2_1_2) { registered<1, 2, 1, 2>(); }
VP_CONTRACT(any_registered_1_1_3) { registered<1, 1, 3, 0>(); }
#endif

// indices out of range are rejected, whatever the size of the hypergraph
VP_CONTRACT(any_rejected)
{
  {
    const AnyGraph<1> g;
    AnyLoop<GlobalLoop::Elliptic, 1, 2> loop(g, 1.);
    const uint64_t size = (uint64_t)2 * g.n_nodes;
    std::vector<unsigned int> idx(2);
    bool bad = false;
    for (unsigned int i = 0; i < 2; ++i)
    {
      idx[i] = vp_u32("index", 0, 0xffffffffu);
      bad |= idx[i] >= size;
    }
    vp_abort_expected(bad, "indices are rejected only if one is out of range");
    loop.read_dirichlet_indices(idx);
    vp_check(!bad, "indices out of range are rejected");
  }
  vp_reach("done");
}
