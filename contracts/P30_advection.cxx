// Local solver of parabolic advection problems: one step of the theta scheme of the upwind method.
#include "hdg.hxx"

#include <HyperHDG/compile_time_tricks.hxx>

#include <HyperHDG/local_solver/advection_parab_ldgh.hxx>

static int data_on = 1;  // 0: homogeneous data

// node types: 0 interior, 1 Dirichlet, 2 outflow, 3 boundary (Dirichlet or outflow, depending on the wind)
template <unsigned int s, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 1U> dirichlet_nodes{1};
  static constexpr std::array<unsigned int, 1U> outflow_nodes{2};
  static constexpr std::array<unsigned int, 1U> boundary_nodes{3};
  static Point<s, F> velocity(const Point<s, F>& p, const F t = 0.)
  {
    Point<s, F> v;
    static const char* const name[] = {"v0", "v1", "v2"};
    for (unsigned int k = 0; k < s; ++k)
      v[k] = data_function(name[k], p, t) - (vp_symbolic() ? 0. : 1.);
    return v;
  }
  static F right_hand_side(const Point<s, F>& p, const F t = 0.) { return data_on ? data_function("f", p, t) : 0.; }
  static F dirichlet_value(const Point<s, F>& p, const F t = 0.) { return data_on ? data_function("g", p, t) : 0.; }
  static F analytic_result(const Point<s, F>& p, const F t = 0.) { return data_function("u", p, t); }
  static F initial(const Point<s, F>& p, const F t = 0.) { return data_function("u0", p, t); }
};

template <unsigned int d, unsigned int s, unsigned int p, unsigned int quad>
struct Case
{
  typedef Spec<d, p, quad> S;
  typedef typename S::Pt Pt;
  typedef typename S::integrator I;
  typedef LocalSolver::AdvectionParab<d, p, quad, Par, double> Solver;
  typedef typename Solver::data_type Data;
  typedef AnyHyperedge<d, s, Data, 4> Edge;
  typedef AnyGeometry<d, s> G;
  typedef Point<s, double> X;
  typedef std::array<std::array<double, S::n_bdr>, 2 * d> Trace;
  typedef Par<s, double> par;

  struct State
  {
    Trace lambda;
    double t;
    typename S::Coeffs u;
  };
  static bool inflow(const Edge& e, const unsigned int f, const double t)
  {
    const X v = par::velocity(e.geometry.face_barycenter(f), t), n = e.geometry.inner_normal(f);
    double r = 0.;
    for (unsigned int k = 0; k < s; ++k)
      r += n[k] * v[k];
    return r <= 0.;
  }
  static bool dirichlet(const Edge& e, const unsigned int f, const double t)
  {
    return e.node_descriptor[f] == 1 || (e.node_descriptor[f] == 3 && inflow(e, f, t));
  }
  static bool outflow(const Edge& e, const unsigned int f, const double t)
  {
    return e.node_descriptor[f] == 2 || (e.node_descriptor[f] == 3 && !inflow(e, f, t));
  }
#define CUT(name, i, j, f, e, t) I::template integrate_bdr_##name<X, G, par::velocity, Point<d, double>>(i, j, f, e.geometry, t)
  // source minus divergence of the upwind flux, tested with function i
  static double balance(const State& v, const Edge& e, const double tau, const unsigned int i)
  {
    double r = S::vol(e.geometry, [&](const Pt& pt) {
      const X x = S::phys(pt, e.geometry), wind = par::velocity(x, v.t);
      double w = 0.;
      for (unsigned int l = 0; l < d; ++l)
        w += pt.grad(i, l, e.geometry) * e.geometry.vp_local_component(wind, l);
      return par::right_hand_side(x, v.t) * pt.phi(i) + w * S::value(pt, v.u);
    });
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      for (unsigned int j = 0; j < S::n_vol; ++j)
        r -= v.u[j] * (CUT(phiphinuvecfunc_cutwind, i, j, f, e, v.t) + tau * CUT(phiphi_cutwind, i, j, f, e, v.t));
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        r -= v.lambda[f][j] * (CUT(phipsinuvecfunc_cutwind, i, j, f, e, v.t) - tau * CUT(phipsi_cutdownwind, i, j, f, e, v.t));
      if (dirichlet(e, f, v.t))
        r -= I::template integrate_bdr_phifuncnuvecfunc_cutwind<X, G, par::dirichlet_value, par::velocity, Point<d, double>>(
          i, f, e.geometry, v.t);
    }
    return r;
  }
  static void theta_step(const State& v, const State* old, const Edge& e, const double tau, const double theta, const double dt,
                         const char* label)
  {
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      double r = S::vol(e.geometry, [&](const Pt& pt) { return (S::value(pt, v.u) - (old ? S::value(pt, old->u) : 0.)) * pt.phi(i); }) -
                 dt * theta * balance(v, e, tau, i);
      if (old)
        r -= dt * (1. - theta) * balance(*old, e, tau, i);
      vp_check_eqf(r, 0., label);
    }
  }
  static double flux(const State& v, const Edge& e, const double tau, const unsigned int f, const unsigned int i)
  {
    double r = 0.;
    for (unsigned int j = 0; j < S::n_vol; ++j)
      r += v.u[j] * ((outflow(e, f, v.t) ? 0. : CUT(psiphinuvecfunc_cutwind, i, j, f, e, v.t)) + tau * CUT(psiphi_cutwind, i, j, f, e, v.t));
    for (unsigned int j = 0; j < S::n_bdr; ++j)
      r += v.lambda[f][j] *
           ((outflow(e, f, v.t) ? 0. : CUT(psipsinuvecfunc_cutwind, i, j, f, e, v.t)) - tau * CUT(psipsi_cutdownwind, i, j, f, e, v.t));
    return r;
  }
  static void fluxes(const Trace& out, const State& v, const State* old, const Edge& e, const double tau, const double theta,
                     const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j],
                     dirichlet(e, f, v.t) ? 0. : theta * flux(v, e, tau, f, j) + (old ? (1. - theta) * flux(*old, e, tau, f, j) : 0.),
                     label);
  }
  static void equal(const Trace& a, const Trace& b, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(a[f][j], b[f][j], label);
  }
  static void any_data(Edge& e)
  {
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      e.data.u_old[i] = vp_uf("u_old", 1, (unsigned long)i);
      e.data.flux_old[i] = vp_uf("flux_old", 1, (unsigned long)i);
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        e.data.boundary_flux_old(j, f) = vp_uf("boundary_flux_old", 2, (unsigned long)f, (unsigned long)j);
  }
  // traces vanish on Dirichlet faces (their values are data)
  static Trace traces(const char* name, const Edge& e, const double t)
  {
    Trace r = any_trace<2 * d, S::n_bdr>(name);
    for (unsigned int f = 0; f < 2 * d; ++f)
      if (dirichlet(e, f, t))
        r[f].fill(0.);
    return r;
  }
  // the solution of a step as set_data stores it
  static State solution(const Solver& solver, const Trace& lambda, const Edge& e, const double t)
  {
    Edge copy(e);
    solver.set_data(lambda, copy, t);
    State v{lambda, t, {}};
    for (unsigned int i = 0; i < S::n_vol; ++i)
      v.u[i] = copy.data.u_old[i];
    return v;
  }
  static void unchanged(const Edge& a, const Edge& b)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      vp_check(a.node_descriptor[f] == b.node_descriptor[f], "node types are unchanged");
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      vp_check_eqf(a.data.u_old[i], b.data.u_old[i], "the stored solution is unchanged");
      vp_check_eqf(a.data.flux_old[i], b.data.flux_old[i], "the stored balance is unchanged");
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(a.data.boundary_flux_old(j, f), b.data.boundary_flux_old(j, f), "the stored fluxes are unchanged");
  }
#define SOLVER_                                                                               \
  const double tau = any_coeff("tau"), theta = any_coeff("theta"), dt = any_coeff("delta_t"); \
  const Solver solver(std::vector<double>{tau, theta, dt})

  static void values(const Solver& solver, const State& v, const Trace& any, Edge& e, const double t, const char* label)
  {
    const auto x = solver.bulk_values(S::probes(), any, e, t);
    for (unsigned int i = 0; i < S::n_vol; ++i)
      vp_check_eqf(x[0][i], v.u[i], label);
    vp_check_eqf(solver.errors(any, e, t)[0],
                 S::vol(e.geometry, [&](const Pt& pt) {
                   const double err = par::analytic_result(S::phys(pt, e.geometry), t) - S::value(pt, v.u);
                   return err * err;
                 }),
                 "squared error of the stored solution");
  }
  // set_data at a time, then a step of length delta_t
  static void step(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    const double t = vp_real("time"), t_new = vp_real("new_time");
    const Trace lambda = traces("lambda", e, t), lambda_new = any_trace<2 * d, S::n_bdr>("lambda_new");
    const State old = solution(solver, lambda, e, t);
    solver.set_data(lambda, e, t);
    const State v = solution(solver, lambda_new, e, t_new);
    theta_step(v, &old, e, tau, theta, dt, "theta scheme between the stored and the new solution");
    const Edge before(e);
    Trace out = any_trace<2 * d, S::n_bdr>("garbage");
    vp_check(&solver.residual_flux(lambda_new, out, e, t_new) == &out, "the result is the second argument");
    fluxes(out, v, &old, e, tau, theta, "residual: theta scheme of the fluxes");
    values(solver, old, lambda_new, e, t, "values of the stored solution");
    unchanged(before, e);
    vp_reach("done");
  }
  static void defaults(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge), e1(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    e1.data = e.data;
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    Trace out, out1;
    solver.residual_flux(lambda, out, e);
    solver.residual_flux(lambda, out1, e, 0.);
    equal(out, out1, "time zero by default");
    solver.trace_to_flux(lambda, out, e);
    solver.trace_to_flux(lambda, out1, e, 0.);
    equal(out, out1, "time zero by default");
    unchanged(e, e1);
    solver.set_data(lambda, e);
    solver.set_data(lambda, e1, 0.);
    unchanged(e, e1);
    solver.make_initial(out, e);
    solver.make_initial(out1, e1, 0.);
    equal(out, out1, "time zero by default");
    unchanged(e, e1);
    vp_check_eqf(solver.errors(lambda, e)[0], solver.errors(lambda, e, 0.)[0], "time zero by default");
    vp_reach("done");
  }
  static void operator_only(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    const double t = vp_real("time");
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    Trace out = any_trace<2 * d, S::n_bdr>("garbage");
    const Edge before(e);
    vp_check(&solver.trace_to_flux(lambda, out, e, t) == &out, "the result is the second argument");
    unchanged(before, e);
    data_on = 0;
    e.data = Data();
    const State v = solution(solver, lambda, e, t);
    theta_step(v, nullptr, e, tau, theta, dt, "theta scheme without data");
    fluxes(out, v, nullptr, e, tau, theta, "operator: fluxes without data");
    vp_reach("done");
  }
  // step from the initial state
  static void initial(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    State old;
    old.t = vp_real("time");
    const double t_new = vp_real("new_time");
    old.lambda = any_trace<2 * d, S::n_bdr>("garbage");
    vp_check(&solver.make_initial(old.lambda, e, old.t) == &old.lambda, "the result is the argument");
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(old.lambda[f][j],
                     dirichlet(e, f, old.t)
                       ? 0.
                       : I::bdr(f, [&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), old.t) * pt.psi(j); }),
                     "initial traces are the projections of the initial function");
    for (unsigned int i = 0; i < S::n_vol; ++i)
      old.u[i] = I::vol([&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), old.t) * pt.phi(i); });
    values(solver, old, old.lambda, e, old.t, "the stored solution is the projection of the initial function");
    const Trace lambda_new = any_trace<2 * d, S::n_bdr>("lambda_new");
    const State v = solution(solver, lambda_new, e, t_new);
    theta_step(v, &old, e, tau, theta, dt, "theta scheme between the initial function and the new solution");
    Trace out;
    solver.residual_flux(lambda_new, out, e, t_new);
    fluxes(out, v, &old, e, tau, theta, "residual after initialization: theta scheme of the fluxes");
    vp_reach("done");
  }
};

#define ALL_(name, fun, d, s, p, quad, types) \
  VP_CONTRACT(advection_##fun##_##name) { Case<d, s, p, quad>::fun(typename Case<d, s, p, quad>::Edge(types)); }
#define ALL(name, d, s, p, quad, types)                                                     \
  ALL_(name, step, d, s, p, quad, types) ALL_(name, defaults, d, s, p, quad, types)         \
  ALL_(name, initial, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
ALL(1_p0, 1, 1, 0, 1, 0)
ALL(1_p1, 1, 2, 1, 2, 0)
ALL(2_p0, 2, 2, 0, 1, 1230)
ALL(2_p1, 2, 2, 1, 2, 3021)
#ifdef VP_THOROUGH
ALL(1_p2, 1, 1, 2, 4, 0)
ALL(2_p2, 2, 2, 2, 4, 210)
ALL(3_p0, 3, 3, 0, 1, 132201)
#endif
#ifdef VP_MORE  // executed only
ALL(1_p3, 1, 1, 3, 6, 0)
ALL(2_3_p1, 2, 3, 1, 2, 1320)
ALL(3_p1, 3, 3, 1, 2, 132201)
#endif
