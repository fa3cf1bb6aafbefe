// P17: initial values and data on hypergraphs with an arbitrary number of hyperedges.
// Invariants of the loops over the hyperedges, for an arbitrary entry j and an arbitrary hyperedge h:
//  * entry j is zero as long as no hyperedge containing it was visited, and a value one of those assigns to it afterwards;
//  * the data of h are the old ones before h is visited and what the local solver makes of them afterwards.
#include "anygraph.hxx"
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>

template <unsigned int d, unsigned int nd>
struct Ctx
{
  const AnyGraph<d>* g;
  double par, time;
  const BigVec* x;  // nullptr: the local solver starts from zero
  double* old_data;
  uint64_t j, h, call;
  EdgeDofs<d, nd> start(const uint64_t e) const
  {
    EdgeDofs<d, nd> r;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        r[k][i] = 0.;
    return x ? any_gather<d, nd>(*g, *x, e) : r;
  }
  double value(const uint64_t e, const unsigned int k, const unsigned int i) const
  {
    return any_local<d, nd>("make_initial", par, e, e, e, old_data[e], k, i, time, start(e));
  }
  double data(const char* name, const uint64_t e) const
  {
    return any_local<d, nd>(name, par, e, e, e, old_data[e], 0, 0, time, start(e));
  }
  // is j a degree of freedom of one of the first k hyperedges?
  bool touched(const uint64_t k) const { return vp_ufi("touched", 2, call, k) == 1; }
  bool touches(const uint64_t e) const
  {
    bool r = false;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        r = r | (any_dof<d, nd>(*g, e, k, i) == j);
    return r;
  }
  // is v a value that a hyperedge assigns to entry j?
  double assigned(const double v) const { return vp_ufr("assigned", 2, (double)call, v); }
};
template <unsigned int d, unsigned int nd>
static void initial_inv(void* p, uint64_t k)
{
  const Ctx<d, nd>& c = *(Ctx<d, nd>*)p;
  vp_inv(k <= c.g->n_edges, "not more hyperedges are visited than there are");
  if (c.touched(k))
    vp_inv(c.assigned(OutVec::last[c.j]) == 1., "entry j is a value assigned by a hyperedge containing it");
  else
    vp_inv_eq(OutVec::last[c.j], 0., "entry j of no hyperedge visited is zero");
  if (c.h < k)
    vp_inv_eq(sym_data[c.h], c.data("initial_data", c.h), "the data of a hyperedge visited are the initial ones");
  else
    vp_inv_eq(sym_data[c.h], c.old_data[c.h], "the data of a hyperedge not yet visited are unchanged");
  if (k < c.g->n_edges)
  {
    vp_inv_instance_eq(sym_data[k], c.old_data[k]);  // for h = k
    vp_assume(c.touched(k + 1) == (c.touched(k) | c.touches(k)));
    for (unsigned int m = 0; m < 2 * d; ++m)
      for (unsigned int i = 0; i < nd; ++i)
        if (any_dof<d, nd>(*c.g, k, m, i) == c.j)
          vp_assume(c.assigned(c.value(k, m, i)) == 1.);
  }
}
template <template <class, class, class, class, typename, typename> class LoopT, bool from_x, unsigned int d, unsigned int nd>
static void initial(const bool default_time)
{
  {
    any_data = true;
    const AnyGraph<d> g;
    const double par = vp_real("par"), time = default_time ? 0. : vp_real("time");
    AnyLoop<LoopT, d, nd> loop(g, par);
    const uint64_t size = (uint64_t)nd * g.n_nodes;
    const OutVec x("x", size);
    const OutVec x0 = x;
    const uint64_t j = vp_u64("j", 0, ((uint64_t)1 << 32) - 1), h = vp_u64("h", 0, 1u << 24);
    vp_assume(j < size);
    vp_assume(h < g.n_edges);
    Ctx<d, nd> c{&g, par, time, from_x ? &x0 : nullptr, vp_array_copy(sym_data, g.n_edges), j, h, 0};
    if (vp_symbolic())
    {
      vp_assume(!c.touched(0));
      vp_invariant("*", initial_inv<d, nd>, &c);
    }
    const OutVec y = default_time ? loop.make_initial(x) : loop.make_initial(x, time);
    vp_invariant_end();
    vp_check(y.size() == size, "size of the result");
    if (vp_symbolic())
    {
      if (c.touched(g.n_edges))
        vp_check(c.assigned(y[j]) == 1., "every degree of freedom has the initial value of a hyperedge containing it");
      else
        vp_check_eq(y[j], 0., "degrees of freedom of no hyperedge are zero");
    }
    else
    {
      bool touched = false, ok = false;
      for (uint64_t e = 0; e < g.n_edges; ++e)
        for (unsigned int k = 0; k < 2 * d; ++k)
          for (unsigned int i = 0; i < nd; ++i)
            if (any_dof<d, nd>(g, e, k, i) == j)
            {
              const double v = c.value(e, k, i);
              touched = true;
              ok = ok || std::abs(y[j] - v) <= 1e-9 * (1. + std::abs(v));
            }
      if (touched)
        vp_check(ok, "every degree of freedom has the initial value of a hyperedge containing it");
      else
        vp_check_eq(y[j], 0., "degrees of freedom of no hyperedge are zero");
    }
    vp_check_eq(sym_data[h], c.data("initial_data", h), "every hyperedge carries its initial data");
    vp_check_eq(x[j], x0[j], "the argument is unchanged");
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int nd>
static void data_inv(void* p, uint64_t k)
{
  const Ctx<d, nd>& c = *(Ctx<d, nd>*)p;
  vp_inv(k <= c.g->n_edges, "not more hyperedges are visited than there are");
  if (c.h < k)
    vp_inv_eq(sym_data[c.h], c.data("set_data", c.h), "the data of a hyperedge visited are the new ones");
  else
    vp_inv_eq(sym_data[c.h], c.old_data[c.h], "the data of a hyperedge not yet visited are unchanged");
}
template <unsigned int d, unsigned int nd>
static void data(const bool default_time)
{
  {
    any_data = true;
    const AnyGraph<d> g;
    const double par = vp_real("par"), time = default_time ? 0. : vp_real("time");
    AnyLoop<GlobalLoop::Parabolic, d, nd> loop(g, par);
    const uint64_t size = (uint64_t)nd * g.n_nodes;
    const OutVec x("x", size);
    const OutVec x0 = x;
    const uint64_t j = vp_u64("j", 0, ((uint64_t)1 << 32) - 1), h = vp_u64("h", 0, 1u << 24);
    vp_assume(j < size);
    vp_assume(h < g.n_edges);
    Ctx<d, nd> c{&g, par, time, &x0, vp_array_copy(sym_data, g.n_edges), j, h, 0};
    if (vp_symbolic())
      vp_invariant("*", data_inv<d, nd>, &c);
    if (default_time)
      loop.set_data(x);
    else
      loop.set_data(x, time);
    vp_invariant_end();
    vp_check_eq(sym_data[h], c.data("set_data", h), "every hyperedge carries the data made of its own old data and values, once");
    vp_check_eq(x[j], x0[j], "the argument is unchanged");
  }
  vp_reach("done");
}
using namespace GlobalLoop;
VP_CONTRACT(any_initial_parabolic_1_1) { initial<Parabolic, false, 1, 1>(false); }
VP_CONTRACT(any_initial_parabolic_default_time_1_1) { initial<Parabolic, false, 1, 1>(true); }
VP_CONTRACT(any_data_1_1) { data<1, 1>(false); }
VP_CONTRACT(any_data_default_time_1_1) { data<1, 1>(true); }
#ifdef VP_THOROUGH
VP_CONTRACT(any_initial_nonlinear_1_1) { initial<NonlinearEigenvalue, true, 1, 1>(false); }
VP_CONTRACT(any_initial_parabolic_1_2) { initial<Parabolic, false, 1, 2>(false); }
VP_CONTRACT(any_data_1_2) { data<1, 2>(false); }
VP_CONTRACT(any_data_2_1) { data<2, 1>(false); }
#endif
