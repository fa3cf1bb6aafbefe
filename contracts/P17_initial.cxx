// P17: initial values and per-hyperedge data of time-dependent and nonlinear problems
#include "loops.hxx"
using namespace GlobalLoop;

// every degree of freedom carries the value some hyperedge containing it assigns (the last one visited),
// degrees of freedom of no hyperedge are zero. The local solver starts from zero in Parabolic and from the values
// of the argument in NonlinearEigenvalue.
template <template <class, class, class, class, typename, typename> class LoopT, bool from_x, unsigned int d,
          unsigned int nd, bool we, uint32_t n_edges>
void initial()
{
  {
    const MockConfig<d> c(VP_GRAPH(n_edges, 1));
    const double par = vp_real("par"), time = vp_real("time");
    Loop<LoopT, d, nd, we> loop(c, par), loop0(c, par);
    const Spec<d, nd, we> spec{c, 1, par};
    const uint32_t size = spec.size();
    const Vec x = any_vec("x", size);
    const Vec x0 = x;
    const Vec y = loop.make_initial(x, time);
    const Vec z = loop0.make_initial(x);
    vp_check((y.size() == size) & (z.size() == size), "size of the result");
    Dofs<d, nd> start[n_edges];
    for (uint32_t e = 0; e < n_edges; ++e)
    {
      start[e] = spec.gather(x0, e);
      if (!from_x)
        for (unsigned int k = 0; k < 2 * d; ++k)
          for (unsigned int i = 0; i < nd; ++i)
            start[e][k][i] = 0.;
    }
    for (uint32_t j = 0; j < size; ++j)
    {
      bool touched = false, ok = false, ok0 = false;
      for (uint32_t e = 0; e < n_edges; ++e)
        for (unsigned int k = 0; k < 2 * d; ++k)
          for (unsigned int i = 0; i < nd; ++i)
            if (spec.dof(e, k, i) == j)
            {
              touched = true;
              const double v = local_value<d, nd>("make_initial", par, spec.seen(e).s, k, i, time, start[e]),
                           v0 = local_value<d, nd>("make_initial", par, spec.seen(e).s, k, i, 0., start[e]);
              if (vp_symbolic())
              {
                ok |= y[j] == v;
                ok0 |= z[j] == v0;
              }
              else
              {
                ok |= std::abs(y[j] - v) <= 1e-9 * (1. + std::abs(v));
                ok0 |= std::abs(z[j] - v0) <= 1e-9 * (1. + std::abs(v0));
              }
            }
      if (touched)
      {
        vp_check(ok, "every degree of freedom has the initial value of a hyperedge containing it, at the given time");
        vp_check(ok0, "the default time is zero");
      }
      else
        vp_check_eq(y[j], 0., "degrees of freedom of no hyperedge are zero");
      vp_check_eq(x[j], x0[j], "the argument is unchanged");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(initial_parabolic_edge_1_2_2) { initial<Parabolic, false, 1, 2, true, 2>(); }
VP_CONTRACT(initial_parabolic_free_1_1_3) { initial<Parabolic, false, 1, 1, false, 3>(); }
VP_CONTRACT(initial_parabolic_edge_2_1_2) { initial<Parabolic, false, 2, 1, true, 2>(); }
VP_CONTRACT(initial_nonlinear_edge_1_2_2) { initial<NonlinearEigenvalue, true, 1, 2, true, 2>(); }
VP_CONTRACT(initial_nonlinear_free_1_1_3) { initial<NonlinearEigenvalue, true, 1, 1, false, 3>(); }
VP_CONTRACT(initial_nonlinear_edge_2_1_2) { initial<NonlinearEigenvalue, true, 2, 1, true, 2>(); }

// set_data stores, on each hyperedge, what the local solver makes of the gathered values, once; operators
// evaluated afterwards see it, and see the data of their own hyperedge only
template <unsigned int d, unsigned int nd, uint32_t n_edges>
void data()
{
  {
    const MockConfig<d> c(VP_GRAPH(n_edges, 2));
    const double par = vp_real("par"), time = vp_real("time"), t2 = vp_real("t2");
    Loop<Parabolic, d, nd, true> loop(c, par);
    const Spec<d, nd, true> spec{c, 1, par};
    const uint32_t size = spec.size();
    const Vec x = any_vec("x", size), w = any_vec("w", size);
    const Vec x0 = x;
    loop.set_data(x, time);
    const Vec y = loop.residual_flux(w, t2);
    double dat[n_edges];
    for (uint32_t e = 0; e < n_edges; ++e)
      dat[e] = local_value<d, nd>("set_data", par, spec.seen(e).s, 0, 0, time, spec.gather(x0, e));
    for (uint32_t j = 0; j < size; ++j)
    {
      double r = 0.;
      for (uint32_t e = 0; e < n_edges; ++e)
        for (unsigned int k = 0; k < 2 * d; ++k)
          for (unsigned int i = 0; i < nd; ++i)
            r += spec.dof(e, k, i) == j
                   ? local_value<d, nd>("residual_flux", par, spec.seen(e, dat[e]).s, k, i, t2, spec.gather(w, e))
                   : 0.;
      vp_check_eq(y[j], r, "operators see the data stored for their hyperedge");
      vp_check_eq(x[j], x0[j], "the argument is unchanged");
    }
    // a second time step starts from the data of the first one
    loop.set_data(w);
    const Vec y2 = loop.trace_to_flux(x, t2);
    double dat2[n_edges];
    for (uint32_t e = 0; e < n_edges; ++e)
      dat2[e] = local_value<d, nd>("set_data", par, spec.seen(e, dat[e]).s, 0, 0, 0., spec.gather(w, e));
    for (uint32_t j = 0; j < size; ++j)
    {
      double r = 0.;
      for (uint32_t e = 0; e < n_edges; ++e)
        for (unsigned int k = 0; k < 2 * d; ++k)
          for (unsigned int i = 0; i < nd; ++i)
            r += spec.dof(e, k, i) == j
                   ? local_value<d, nd>("trace_to_flux", par, spec.seen(e, dat2[e]).s, k, i, t2, spec.gather(x, e))
                   : 0.;
      vp_check_eq(y2[j], r, "the next step starts from the data of the previous one");
    }
    // refinement starts from fresh data
    loop.set_refinement(2);
    const Spec<d, nd, true> sr{c, 2, par};
    const Vec v = any_vec("v", sr.size());
    const Vec yr = loop.trace_to_flux(v, t2);
    for (uint32_t j = 0; j < sr.size(); ++j)
      vp_check_eq(yr[j], sr.sum("trace_to_flux", v, t2, j), "refinement starts from initial data");
  }
  vp_reach("done");
}
VP_CONTRACT(data_1_1_2) { data<1, 1, 2>(); }
VP_CONTRACT(data_1_2_2) { data<1, 2, 2>(); }
VP_CONTRACT(data_2_1_1) { data<2, 1, 1>(); }
