// One evaluation of a matrix-free operator on a hypergraph of arbitrary size: entry j (arbitrary) of the result is the sum of the
// contributions of all hyperedges to j, or zero where j is a Dirichlet degree of freedom.
#pragma once
#include "anygraph.hxx"

template <unsigned int d, unsigned int nd>
struct Ctx
{
  const AnyGraph<d>* g;
  const char* name;
  double par, time, time2;
  const BigVec *x, *x2;
  uint64_t j, call;
  bool backwards;
  uint64_t at(const uint64_t k) const { return backwards ? g->n_edges - 1 - k : k; }  // the k-th hyperedge visited
  double s(const uint64_t k) const { return vp_uf("partial_sum", 2, call, k); }
  // contributions of hyperedge e to entry j
  double contribution(const uint64_t e) const
  {
    double r = 0.;
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        r += any_dof<d, nd>(*g, e, k, i) == j
               ? (x2 ? any_local2<d, nd>(name, par, e, e, e, 0., k, i, time, any_gather<d, nd>(*g, *x, e), any_gather<d, nd>(*g, *x2, e),
                                         time2)
                     : any_local<d, nd>(name, par, e, e, e, 0., k, i, time, any_gather<d, nd>(*g, *x, e)))
               : 0.;
    return r;
  }
};
template <unsigned int d, unsigned int nd>
static void inv(void* p, uint64_t k)
{
  const Ctx<d, nd>& c = *(Ctx<d, nd>*)p;
  vp_inv(k <= c.g->n_edges, "not more hyperedges are visited than there are");
  vp_inv_eq(OutVec::last[c.j], c.s(k), "entry j is the sum of the contributions of the hyperedges visited");
  if (k < c.g->n_edges)
    vp_define_eq(c.s(k + 1), c.s(k) + c.contribution(c.at(k)));
}
static uint64_t n_calls = 0;
template <unsigned int d, unsigned int nd, typename F>
static void evaluate(Ctx<d, nd> c, const uint64_t size, const char* pattern, const char* label, const F& f,
                     const bool zero = false)
{
  c.call = n_calls++;
  c.backwards = vp_alternative(2) == 1;
  double expected = 0.;
  if (vp_symbolic())
  {
    vp_define_eq(c.s(0), 0.);
    vp_invariant(pattern, inv<d, nd>, &c);
  }
  else
    for (uint64_t e = 0; e < c.g->n_edges; ++e)
      expected += c.contribution(e);
  const OutVec y = f();
  vp_invariant_end();
  if (vp_symbolic())
    expected = c.s(c.g->n_edges);
  vp_check(y.size() == size, "the result has the size of the system");
  vp_check_eq(y[c.j], zero ? 0. : expected, label);
}
