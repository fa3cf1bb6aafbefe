// P11: hypernodes and degrees of freedom
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hypernodefactory.hxx>

// any number of hypernodes such that the degrees of freedom can be counted in the index type
template <unsigned int D, typename I>
I any_count(const char* name)
{
  if constexpr (sizeof(I) == 4)
    return vp_u32(name, 0, D == 0 ? 0xffffffffu : 0xffffffffu / D);
  else
    return vp_u64(name, 0, D == 0 ? ~0ull : ~0ull / D);
}
template <unsigned int D, typename I>
void counting()
{
  {
    const I N = any_count<D, I>("N");
    const HyperNodeFactory<D, I> f(N);
    vp_check(f.n_hyNodes() == N, "number of hypernodes as given");
    vp_check(f.n_dofs_per_node() == D, "degrees of freedom per hypernode");
    vp_check(f.n_global_dofs() == (I)(N * D), "number of degrees of freedom is hypernodes times local ones");
    vp_check(f.template n_global_dofs<uint64_t>() == (uint64_t)N * D, "number of degrees of freedom in a wide type");
    const HyperNodeFactory<D, I> copy(f);
    vp_check(copy.n_hyNodes() == N, "copy has as many hypernodes");
    HyperNodeFactory<D, I> other(1);
    other = f;
    vp_check(other.n_hyNodes() == N && f.n_hyNodes() == N, "assignment copies the number of hypernodes");
    HyperNodeFactory<D, I> third(1);
    third = HyperNodeFactory<D, I>(N);
    vp_check(third.n_hyNodes() == N, "move assignment copies the number of hypernodes");
  }
  vp_reach("done");
}
template <unsigned int D, typename I>
void bijection()
{
  {
    const I N = any_count<D, I>("N");
    vp_assume(N > 0);
    const HyperNodeFactory<D, I> f(N);
    const I node = sizeof(I) == 4 ? (I)vp_u32("node", 0, (uint32_t)(N - 1)) : (I)vp_u64("node", 0, N - 1);
    const I node2 = sizeof(I) == 4 ? (I)vp_u32("node", 0, (uint32_t)(N - 1)) : (I)vp_u64("node", 0, N - 1);
    std::array<I, D> ind, ind2;
    vp_check(&f.get_dof_indices(node, ind) == &ind, "the filled container is returned");
    f.get_dof_indices(node2, ind2);
    for (unsigned int i = 0; i < D; ++i)
    {
      vp_check(ind[i] < f.n_global_dofs(), "degree of freedom is in range");
      vp_check(ind[i] == (I)(node * D + i), "degrees of freedom of a hypernode are consecutive");
      vp_check(f.get_hyNode_from_dof_index(ind[i]) == node, "hypernode of a degree of freedom of a hypernode");
      for (unsigned int j = 0; j < D; ++j)
        vp_check((ind[i] != ind2[j]) | ((node == node2) & (i == j)), "no degree of freedom belongs to two places");
    }
    const I dof = sizeof(I) == 4 ? (I)vp_u32("dof", 0, (uint32_t)(N * D - 1)) : (I)vp_u64("dof", 0, N * D - 1);
    const I owner = f.get_hyNode_from_dof_index(dof);
    vp_check(owner < N, "every degree of freedom has a hypernode");
    f.get_dof_indices(owner, ind);
    bool found = false;
    for (unsigned int i = 0; i < D; ++i)
      found = found | (ind[i] == dof);
    vp_check(found, "every degree of freedom is one of its hypernode's");
  }
  vp_reach("done");
}
template <unsigned int D, typename I, typename LocalT>
void gather()
{
  {
    const I N = sizeof(I) == 4 ? vp_u32("N", 1, 0x3fffffffu / D) : vp_u64("N", 1, (1ull << 40) / D);
    const HyperNodeFactory<D, I> f(N);
    const I node = sizeof(I) == 4 ? (I)vp_u32("node", 0, (uint32_t)(N - 1)) : (I)vp_u64("node", 0, N - 1);
    AnyVec<double> x("x", (uint64_t)N * D), x0("x", 0);
    x0.p = x.p;
    const uint64_t any = vp_u64("any", 0, (uint64_t)N * D - 1);
    const double before = x[any];
    LocalT loc;
    for (unsigned int i = 0; i < D; ++i)
      loc[i] = vp_real("old");
    vp_check(&f.get_dof_values(node, x, loc) == &loc, "the filled container is returned");
    for (unsigned int i = 0; i < D; ++i)
      vp_check_eq(loc[i], x[(uint64_t)node * D + i], "gather: local values are the hypernode's global values");
    vp_check_eq(x[any], before, "gather: global vector unchanged");
  }
  vp_reach("done");
}
template <unsigned int D, typename I, typename LocalT, int what>
void scatter()
{
  {
    const I N = sizeof(I) == 4 ? vp_u32("N", 1, 0x3fffffffu / D) : vp_u64("N", 1, (1ull << 40) / D);
    const HyperNodeFactory<D, I> f(N);
    const I node = sizeof(I) == 4 ? (I)vp_u32("node", 0, (uint32_t)(N - 1)) : (I)vp_u64("node", 0, N - 1);
    AnyVec<double> x("x", (uint64_t)N * D);
    const uint64_t any = vp_u64("any", 0, (uint64_t)N * D - 1);
    const double before = x[any];
    LocalT loc;
    std::array<double, D> val;
    for (unsigned int i = 0; i < D; ++i)
      loc[i] = val[i] = vp_real("loc");
    if constexpr (what == 0)
      vp_check(&f.add_to_dof_values(node, x, loc) == &x, "the global vector is returned");
    else if constexpr (what == 1)
      vp_check(&f.set_dof_values(node, x, loc) == &x, "the global vector is returned");
    else
    {
      const double v = vp_real("v");
      for (unsigned int i = 0; i < D; ++i)
        val[i] = v;
      vp_check(&f.template set_dof_values<I, AnyVec<double>>(node, x, v) == &x, "the global vector is returned");
    }
    const uint64_t first = (uint64_t)node * D;
    // specification at one arbitrary position of the global vector
    double want = before;
    for (unsigned int i = 0; i < D; ++i)
      want = any == first + i ? (what == 0 ? before + val[i] : val[i]) : want;
    vp_check_eq(x[any], want,
                what == 0 ? "scatter-add: adds to the hypernode's entries and to nothing else"
                          : "set: changes the hypernode's entries and nothing else");
    for (unsigned int i = 0; i < D; ++i)
      if constexpr (what < 2)
        vp_check_eq(loc[i], val[i], "local values unchanged");
  }
  vp_reach("done");
}
#ifdef VP_SMALLVEC  // a unit of its own: the local container SmallVec has fewer members than std::array
#define X(D)                                                                                            \
  VP_CONTRACT(gather_vec_##D) { gather<D, unsigned int, SmallVec<D, double>>(); }                       \
  VP_CONTRACT(scatter_add_vec_##D) { scatter<D, unsigned int, SmallVec<D, double>, 0>(); }
X(1) X(2) X(3) X(4) X(5) X(6) X(8) X(9)
#else
#define X(D)                                                                                            \
  VP_CONTRACT(gather_##D) { gather<D, unsigned int, std::array<double, D>>(); }                         \
  VP_CONTRACT(gather64_##D) { gather<D, uint64_t, std::array<double, D>>(); }                           \
  VP_CONTRACT(scatter_add_##D) { scatter<D, unsigned int, std::array<double, D>, 0>(); }                \
  VP_CONTRACT(scatter_add64_##D) { scatter<D, uint64_t, std::array<double, D>, 0>(); }                  \
  VP_CONTRACT(scatter_set_##D) { scatter<D, unsigned int, std::array<double, D>, 1>(); }                \
  VP_CONTRACT(scatter_set64_##D) { scatter<D, uint64_t, std::array<double, D>, 1>(); }                  \
  VP_CONTRACT(scatter_fill_##D) { scatter<D, unsigned int, std::array<double, D>, 2>(); }               \
  VP_CONTRACT(bijection_##D) { bijection<D, unsigned int>(); }
X(1) X(2) X(3) X(4) X(5) X(6) X(8) X(9)
VP_CONTRACT(counting_0) { counting<0, unsigned int>(); }
VP_CONTRACT(counting_1) { counting<1, unsigned int>(); }
VP_CONTRACT(counting_3) { counting<3, unsigned int>(); }
VP_CONTRACT(counting_7) { counting<7, unsigned int>(); }
VP_CONTRACT(counting64_2) { counting<2, uint64_t>(); }
#endif
