// P14: the matrix-free operators on hypergraphs with an arbitrary number of hyperedges, hypernodes, degrees of freedom.
// Invariant of the loop over the hyperedges: after k hyperedges, entry j of the result (j arbitrary) is the sum S(k) of their
// contributions to j, where S(0) = 0, S(k+1) = S(k) + contributions of hyperedge k to j.
#include "anyop.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>

#define VP_OPERATOR(fname, member)                                                                                \
  template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d, unsigned int nd> \
  void fname()                                                                                                    \
  {                                                                                                               \
    {                                                                                                             \
      n_calls = 0;                                                                                                \
      const AnyGraph<d> g;                                                                                        \
      const double par = vp_real("par"), time = vp_real("time");                                                  \
      AnyLoop<LoopT, d, nd> loop(g, par);                                                                         \
      const uint64_t size = (uint64_t)nd * g.n_nodes;                                                             \
      vp_check(loop.size_of_system() == size, "size of the system");                                              \
      const OutVec x("x", size);                                                                                  \
      const OutVec x0 = x;                                                                                        \
      const uint64_t j = vp_u64("j", 0, ((uint64_t)1 << 32) - 1);                                                 \
      vp_assume(j < size);                                                                                        \
      Ctx<d, nd> c{&g, #member, par, time, 0., &x0, nullptr, j, 0};                                               \
      evaluate<d, nd>(c, size, "*", "every entry is the sum of the contributions of all hyperedges", \
                      [&] { return loop.member(x, time); });                                                      \
      c.time = 0.;                                                                                                \
      evaluate<d, nd>(c, size, "*", "a second evaluation, at the default time",                   \
                      [&] { return loop.member(x); });                                                            \
      vp_check_eq(x[j], x0[j], "the argument is unchanged");                                                      \
      const uint64_t e = vp_u64("e", 0, 1u << 24);                                                                \
      vp_assume(e < g.n_edges);                                                                                   \
      vp_check_eq(sym_data[e], 0., "the data of the hyperedges are unchanged");                                   \
    }                                                                                                             \
    vp_reach("done");                                                                                             \
  }
VP_OPERATOR(op_flux, trace_to_flux)
VP_OPERATOR(op_residual, residual_flux)
VP_OPERATOR(op_mass, trace_to_mass_flux)

template <unsigned int d, unsigned int nd>
void op_jacobian()
{
  {
    n_calls = 0;
    const AnyGraph<d> g;
    const double par = vp_real("par"), eig = vp_real("eig"), eig_val = vp_real("eig_val");
    AnyLoop<GlobalLoop::NonlinearEigenvalue, d, nd> loop(g, par);
    const uint64_t size = (uint64_t)nd * g.n_nodes;
    const OutVec x("x", size), v("v", size);
    const OutVec x0 = x, v0 = v;
    const uint64_t j = vp_u64("j", 0, ((uint64_t)1 << 32) - 1);
    vp_assume(j < size);
    Ctx<d, nd> c{&g, "jac", par, eig, eig_val, &x0, &v0, j, 0};
    evaluate<d, nd>(c, size, "*", "every entry is the sum of the contributions of all hyperedges",
                    [&] { return loop.jacobian_of_trace_to_flux(x, eig, v, eig_val); });
    vp_check_eq(x[j], x0[j], "the first argument is unchanged");
    vp_check_eq(v[j], v0[j], "the second argument is unchanged");
  }
  vp_reach("done");
}
using namespace GlobalLoop;
#define ALL(name, d, nd)                                                                            \
  VP_CONTRACT(any_elliptic_flux_##name) { op_flux<Elliptic, d, nd>(); }                             \
  VP_CONTRACT(any_elliptic_residual_##name) { op_residual<Elliptic, d, nd>(); }                     \
  VP_CONTRACT(any_parabolic_flux_##name) { op_flux<Parabolic, d, nd>(); }                           \
  VP_CONTRACT(any_parabolic_residual_##name) { op_residual<Parabolic, d, nd>(); }                   \
  VP_CONTRACT(any_mass_flux_##name) { op_flux<MassApproxEigenvalue, d, nd>(); }                     \
  VP_CONTRACT(any_mass_mass_##name) { op_mass<MassApproxEigenvalue, d, nd>(); }                     \
  VP_CONTRACT(any_shifted_flux_##name) { op_flux<ShiftedInverseEigenvalue, d, nd>(); }              \
  VP_CONTRACT(any_nonlinear_flux_##name) { op_flux<NonlinearEigenvalue, d, nd>(); }                 \
  VP_CONTRACT(any_nonlinear_jacobian_##name) { op_jacobian<d, nd>(); }
ALL(1_1, 1, 1)
#ifdef VP_THOROUGH
VP_CONTRACT(any_elliptic_flux_1_2) { op_flux<Elliptic, 1, 2>(); }
VP_CONTRACT(any_parabolic_residual_1_2) { op_residual<Parabolic, 1, 2>(); }
VP_CONTRACT(any_mass_mass_2_1) { op_mass<MassApproxEigenvalue, 2, 1>(); }
VP_CONTRACT(any_nonlinear_jacobian_1_2) { op_jacobian<1, 2>(); }
#endif
