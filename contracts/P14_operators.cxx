// P14: the matrix-free operators are the sum of the local contributions of all hyperedges
#include "loops.hxx"

#define VP_OPERATOR(fname, member)                                                                          \
  template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d,          \
            unsigned int nd, bool we, uint32_t n_edges>                                                     \
  void fname()                                                                                              \
  {                                                                                                         \
    {                                                                                                       \
      const MockConfig<d> c(VP_GRAPH(n_edges, 1));                                                      \
      const double par = vp_real("par"), time = vp_real("time");                                            \
      Loop<LoopT, d, nd, we> loop(c, par);                                                                  \
      const Spec<d, nd, we> spec{c, 1, par};                                                                \
      const Vec x = any_vec("x", spec.size());                                                              \
      const Vec x0 = x;                                                                                     \
      const Vec y = loop.member(x, time);                                                                   \
      vp_check(y.size() == spec.size(), "the result has the size of the system");                           \
      const Vec y2 = loop.member(x, time);                                                                  \
      const Vec y3 = loop.member(x);                                                                        \
      VP_FORALL(j, spec.size())                                                                             \
      {                                                                                                     \
      vp_check_eq(y[j], spec.sum(#member, x0, time, j), "every entry is the sum of the local contributions");\
      vp_check_eq(x[j], x0[j], "the argument is unchanged");                                                \
      vp_check_eq(y2[j], y[j], "a second evaluation gives the same result");                                \
      vp_check_eq(y3[j], spec.sum(#member, x0, 0., j), "the default time is zero");                         \
      }                                                                                                     \
    }                                                                                                       \
    vp_reach("done");                                                                                       \
  }
VP_OPERATOR(op_flux, trace_to_flux)
VP_OPERATOR(op_residual, residual_flux)
VP_OPERATOR(op_mass, trace_to_mass_flux)

template <unsigned int d, unsigned int nd, bool we, uint32_t n_edges>
void op_jacobian()
{
  {
    const MockConfig<d> c(VP_GRAPH(n_edges, 1));
    const double par = vp_real("par"), eig = vp_real("eig"), eig_val = vp_real("eig_val");
    Loop<GlobalLoop::NonlinearEigenvalue, d, nd, we> loop(c, par);
    const Spec<d, nd, we> spec{c, 1, par};
    const Vec x = any_vec("x", spec.size()), v = any_vec("v", spec.size());
    const Vec y = loop.jacobian_of_trace_to_flux(x, eig, v, eig_val);
    vp_check(y.size() == spec.size(), "the result has the size of the system");
    VP_FORALL(j, spec.size())
    {
    double r = 0.;
    for (uint32_t e = 0; e < n_edges; ++e)
      for (unsigned int k = 0; k < 2 * d; ++k)
        for (unsigned int i = 0; i < nd; ++i)
          r += spec.dof(e, k, i) == j ? local_value2<d, nd>("jac", par, spec.seen(e).s, k, i, eig, spec.gather(x, e),
                                                            spec.gather(v, e), eig_val)
                                      : 0.;
    vp_check_eq(y[j], r, "every entry is the sum of the local contributions");
    }
  }
  vp_reach("done");
}
// the three constructors, and the operator after a change of the refinement
template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d, unsigned int nd, bool we>
void construct()
{
  {
    const MockConfig<d> c(VP_GRAPH(2, 3));
    MockConfig<d> c2(c);
    c2.tag = c.tag + 1;
    const double par = vp_real("par"), time = vp_real("time");
    Loop<LoopT, d, nd, we> a(c), b(c, par), e(c, c2, par);
    const Spec<d, nd, we> sa{c, 1, 17.}, sb{c, 1, par}, sr{c, 2, par};
    vp_check((a.size_of_system() == sa.size()) & (b.size_of_system() == sa.size()) & (e.size_of_system() == sa.size()),
             "size of the system");
    vp_check((a.get_refinement() == 1) & (b.get_refinement() == 1), "initial refinement level");
    {
      const Vec x = any_vec("x", sa.size());
      const Vec ya = a.trace_to_flux(x, time), yb = b.trace_to_flux(x, time), ye = e.trace_to_flux(x, time);
      VP_FORALL(j, sa.size())
      {
      vp_check_eq(ya[j], sa.sum("trace_to_flux", x, time, j), "operator of the loop without solver argument");
      vp_check_eq(yb[j], sb.sum("trace_to_flux", x, time, j), "operator of the loop with solver argument");
      vp_check_eq(ye[j], sb.sum("trace_to_flux", x, time, j), "operator of the loop with geometry and solver argument");
      }
    }
    b.set_refinement(2);
    vp_check(b.get_refinement() == 2, "refinement level");
    vp_check(b.size_of_system() == sr.size(), "size of the system after refinement");
    vp_check((a.size_of_system() == sa.size()) & (a.get_refinement() == 1), "other loops are not refined");
    {
      const Vec x = any_vec("xr", sr.size());
      const Vec y = b.trace_to_flux(x, time);
      VP_FORALL(j, sr.size())
      vp_check_eq(y[j], sr.sum("trace_to_flux", x, time, j), "operator after refinement");
    }
  }
  vp_reach("done");
}
using namespace GlobalLoop;
#define ALL(name, d, nd, we, n)                                                                             \
  VP_CONTRACT(elliptic_flux_##name) { op_flux<Elliptic, d, nd, we, n>(); }                                  \
  VP_CONTRACT(elliptic_residual_##name) { op_residual<Elliptic, d, nd, we, n>(); }                          \
  VP_CONTRACT(parabolic_flux_##name) { op_flux<Parabolic, d, nd, we, n>(); }                                \
  VP_CONTRACT(parabolic_residual_##name) { op_residual<Parabolic, d, nd, we, n>(); }                        \
  VP_CONTRACT(mass_flux_##name) { op_flux<MassApproxEigenvalue, d, nd, we, n>(); }                          \
  VP_CONTRACT(mass_mass_##name) { op_mass<MassApproxEigenvalue, d, nd, we, n>(); }                          \
  VP_CONTRACT(shifted_flux_##name) { op_flux<ShiftedInverseEigenvalue, d, nd, we, n>(); }                   \
  VP_CONTRACT(nonlinear_flux_##name) { op_flux<NonlinearEigenvalue, d, nd, we, n>(); }                      \
  VP_CONTRACT(nonlinear_jacobian_##name) { op_jacobian<d, nd, we, n>(); }
#ifdef VP_BIGVEC
ALL(edge_1_1_1, 1, 1, true, 1)
#else
ALL(edge_1_2_2, 1, 2, true, 2)
ALL(free_2_1_2, 2, 1, false, 2)
VP_CONTRACT(construct_elliptic_edge) { construct<Elliptic, 1, 2, true>(); }
VP_CONTRACT(construct_parabolic_edge) { construct<Parabolic, 1, 2, true>(); }
VP_CONTRACT(construct_mass_edge) { construct<MassApproxEigenvalue, 1, 1, true>(); }
VP_CONTRACT(construct_shifted_edge) { construct<ShiftedInverseEigenvalue, 1, 1, true>(); }
VP_CONTRACT(construct_nonlinear_edge) { construct<NonlinearEigenvalue, 1, 1, true>(); }
#endif
