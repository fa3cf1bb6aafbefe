// Local solver of the diffusion equation (interior penalty): weak form, fluxes and errors of the local solution.
#include "hdg.hxx"
#include <HyperHDG/local_solver/diffusion_ip.hxx>

static int data_on = 1;
template <unsigned int s, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 1U> dirichlet_nodes{1};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static F diffusion_coeff(const Point<s, F>& p, const F t = 0.) { return data_function("kappa", p, t); }
  static F right_hand_side(const Point<s, F>& p, const F t = 0.) { return data_on ? data_function("f", p, t) : 0.; }
  static F dirichlet_value(const Point<s, F>& p, const F t = 0.) { return data_on ? data_function("g", p, t) : 0.; }
  static F analytic_result(const Point<s, F>& p, const F t = 0.) { return data_function("u", p, t); }
};

template <unsigned int d, unsigned int s, unsigned int p, unsigned int quad>
struct Case
{
  typedef Spec<d, p, quad> S;
  typedef typename S::Pt Pt;
  typedef AnyHyperedge<d, s> Edge;
  typedef LocalSolver::DiffusionIP<d, p, quad, Par, double> Solver;
  typedef std::array<std::array<double, S::n_bdr>, 2 * d> Trace;
  typedef typename S::Coeffs Coeffs;
  typedef Par<s, double> par;

  static double g(const Pt& pt, const Edge& e, const double t)
  {
    return e.node_descriptor[pt.face] == 1 ? par::dirichlet_value(S::phys(pt, e.geometry), t) : 0.;
  }
  static double normal_flux(const Pt& pt, const Coeffs& u, const Edge& e, const double t)
  {
    double r = 0.;
    for (unsigned int k = 0; k < d; ++k)
      r -= S::gradient(pt, u, k, e.geometry) * e.geometry.normal(pt.face, k);
    return r * par::diffusion_coeff(S::phys(pt, e.geometry), t);
  }
  static void weak_form(const Coeffs& u, const Trace& lambda, const Edge& e, const double t, const double tau)
  {
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      double r = S::vol(e.geometry, [&](const Pt& pt) {
        double w = 0.;
        for (unsigned int k = 0; k < d; ++k)
          w += S::gradient(pt, u, k, e.geometry) * pt.grad(i, k, e.geometry);
        return w * par::diffusion_coeff(S::phys(pt, e.geometry), t) - par::right_hand_side(S::phys(pt, e.geometry), t) * pt.phi(i);
      });
      for (unsigned int f = 0; f < 2 * d; ++f)
        r += S::bdr(f, e.geometry, [&](const Pt& pt) {
          return (normal_flux(pt, u, e, t) + tau * (S::value(pt, u) - S::trace(pt, lambda) - g(pt, e, t))) * pt.phi(i);
        });
      vp_check_eqf(r, 0., "the flux balances the sources, weakly");
    }
  }
  static void flux(const Trace& out, const Coeffs& u, const Trace& lambda, const Edge& e, const double t, const double tau, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j],
                     e.node_descriptor[f] == 1
                       ? 0.
                       : S::bdr(f, e.geometry,
                                [&](const Pt& pt) { return (normal_flux(pt, u, e, t) + tau * S::value(pt, u)) * pt.psi(j); }) -
                           tau * lambda[f][j] * e.geometry.face_area(f),
                     label);
  }
  static void all(Edge e)
  {
    vp_assume_regular();
    const double tau = any_coeff("tau"), t = vp_real("time");
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    const Solver solver(tau);
    Trace out = any_trace<2 * d, S::n_bdr>("garbage"), out1 = out;
    data_on = 1;
    const Coeffs u = solver.bulk_values(S::probes(), lambda, e, t)[0];
    weak_form(u, lambda, e, t, tau);
    vp_check(&solver.residual_flux(lambda, out, e, t) == &out, "the result is the second argument");
    flux(out, u, lambda, e, t, tau, "residual: flux of the solution with data");
    const auto values = solver.bulk_values(S::abscissae(), lambda, e, t)[0];
    for (unsigned int q = 0; q < TPP::vp_pow(S::rule::n_points(), d); ++q)
      vp_check_eqf(values[S::at(Pt(q))], S::value(Pt(q), u), "values in points");
    vp_check_eqf(solver.errors(lambda, e, t)[0],
                 S::vol(e.geometry, [&](const Pt& pt) {
                   const double err = par::analytic_result(S::phys(pt, e.geometry), t) - S::value(pt, u);
                   return err * err;
                 }),
                 "squared error");
    solver.trace_to_flux(lambda, out, e, t);
    data_on = 0;
    const Coeffs w = solver.bulk_values(S::probes(), lambda, e, t)[0];
    weak_form(w, lambda, e, t, tau);
    flux(out, w, lambda, e, t, tau, "operator: flux of the solution without data");
    data_on = 1;
    solver.trace_to_flux(lambda, out, e);
    solver.trace_to_flux(lambda, out1, e, 0.);
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j], out1[f][j], "time zero by default");
      vp_check(solver.node_types(e)[f] == (e.node_descriptor[f] == 1 ? 1u : 0u), "node types");
    }
    solver.residual_flux(lambda, out, e);
    solver.residual_flux(lambda, out1, e, 0.);
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j], out1[f][j], "time zero by default");
    vp_reach("done");
  }
};
#define ALL(name, d, s, p, quad, types) \
  VP_CONTRACT(ip_##name) { Case<d, s, p, quad>::all(AnyHyperedge<d, s>(types)); }
ALL(1_p0, 1, 1, 0, 1, 0)
ALL(1_p1, 1, 2, 1, 2, 0)
ALL(2_p0, 2, 2, 0, 1, 1000)
ALL(2_p1, 2, 2, 1, 2, 110)
ALL(3_p0, 3, 3, 0, 1, 100001)
#ifdef VP_THOROUGH
ALL(2_p2, 2, 2, 2, 4, 210)
#endif
#ifdef VP_MORE  // executed only
ALL(1_p3, 1, 1, 3, 6, 0)
ALL(2_3_p1, 2, 3, 1, 2, 1)
ALL(3_p1, 3, 3, 1, 2, 100012)
#endif
