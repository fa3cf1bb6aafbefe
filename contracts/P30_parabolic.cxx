// Local solvers of parabolic problems: one step of the theta scheme, from arbitrary traces and times.
// KIND: 0 diffusion.
#include "hdg.hxx"

#include <HyperHDG/compile_time_tricks.hxx>

#include <HyperHDG/local_solver/diffusion_parab_ldgh.hxx>

static int data_on = 1;  // 0: homogeneous data

template <unsigned int s, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 1U> dirichlet_nodes{1};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static F inverse_diffusion_coeff(const Point<s, F>& p, const F t = 0.) { return data_function("kappa", p, t); }
  static F right_hand_side(const Point<s, F>& p, const F t = 0.) { return data_on ? data_function("f", p, t) : 0.; }
  static F dirichlet_value(const Point<s, F>& p, const F t = 0.) { return data_on ? data_function("g", p, t) : 0.; }
  static F analytic_result(const Point<s, F>& p, const F t = 0.) { return data_function("u", p, t); }
  static F initial(const Point<s, F>& p, const F t = 0.) { return data_function("u0", p, t); }
};

template <unsigned int d, unsigned int s, unsigned int p, unsigned int quad>
struct Case
{
  typedef Spec<d, p, quad> S;
  typedef typename S::Pt Pt;
  typedef LocalSolver::DiffusionParab<d, p, quad, Par, double> Solver;
  typedef typename Solver::data_type Data;
  typedef AnyHyperedge<d, s, Data> Edge;
  typedef std::array<std::array<double, S::n_bdr>, 2 * d> Trace;
  typedef std::array<std::array<double, S::n_pts>, d + 1> Values;
  typedef Par<s, double> par;

  // q and u at a time, with their traces; given by values or by coefficients
  struct State
  {
    Trace lambda;
    double t;
    bool by_values;
    Values values;
    std::array<typename S::Coeffs, d + 1> coeffs;
    double val(const Pt& pt, const unsigned int k) const { return by_values ? values[k][S::at(pt)] : S::value(pt, coeffs[k]); }
  };
  static State solution(const Solver& solver, const Trace& lambda, Edge& e, const double t)
  {
    State v;
    v.lambda = lambda;
    v.t = t;
    v.by_values = true;
    v.values = solver.bulk_values(S::abscissae(), lambda, e, t);
    return v;
  }
  static double g(const Pt& pt, const Edge& e, const double t)
  {
    return e.node_descriptor[pt.face] == 1 ? par::dirichlet_value(S::phys(pt, e.geometry), t) : 0.;
  }
  static double qn(const Pt& pt, const State& v, const Edge& e)
  {
    double r = 0.;
    for (unsigned int k = 0; k < d; ++k)
      r += v.val(pt, k) * e.geometry.normal(pt.face, k);
    return r;
  }
  static void gradient(const State& v, const Edge& e)
  {
    for (unsigned int i = 0; i < S::n_vol; ++i)
      for (unsigned int k = 0; k < d; ++k)
      {
        double r = S::vol(e.geometry, [&](const Pt& pt) {
          return par::inverse_diffusion_coeff(S::phys(pt, e.geometry), v.t) * v.val(pt, k) * pt.phi(i) -
                 v.val(pt, d) * pt.grad(i, k, e.geometry);
        });
        for (unsigned int f = 0; f < 2 * d; ++f)
          r += S::bdr(f, e.geometry, [&](const Pt& pt) {
            return (S::trace(pt, v.lambda) + g(pt, e, v.t)) * e.geometry.normal(f, k) * pt.phi(i);
          });
        vp_check_eqf(r, 0., "the flux is the gradient of the solution, weakly");
      }
  }
  // spatial operator minus sources, tested with function i
  static double balance(const State& v, const Edge& e, const double tau, const unsigned int i)
  {
    double r = S::vol(e.geometry, [&](const Pt& pt) {
      double w = -par::right_hand_side(S::phys(pt, e.geometry), v.t) * pt.phi(i);
      for (unsigned int k = 0; k < d; ++k)
        w -= v.val(pt, k) * pt.grad(i, k, e.geometry);
      return w;
    });
    for (unsigned int f = 0; f < 2 * d; ++f)
      r += S::bdr(f, e.geometry, [&](const Pt& pt) {
        return (qn(pt, v, e) + tau * (v.val(pt, d) - S::trace(pt, v.lambda) - g(pt, e, v.t))) * pt.phi(i);
      });
    return r;
  }
  static void theta_step(const State& v, const State* old, const Edge& e, const double tau, const double theta, const double dt,
                         const char* label)
  {
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      double r = S::vol(e.geometry, [&](const Pt& pt) { return (v.val(pt, d) - (old ? old->val(pt, d) : 0.)) * pt.phi(i); }) +
                 dt * theta * balance(v, e, tau, i);
      if (old)
        r += dt * (1. - theta) * balance(*old, e, tau, i);
      vp_check_eqf(r, 0., label);
    }
  }
  static double flux(const State& v, const Edge& e, const double tau, const unsigned int f, const unsigned int j)
  {
    return S::bdr(f, e.geometry, [&](const Pt& pt) { return (qn(pt, v, e) + tau * v.val(pt, d)) * pt.psi(j); }) -
           tau * v.lambda[f][j] * e.geometry.face_area(f);
  }
  static void fluxes(const Trace& out, const State& v, const State* old, const Edge& e, const double tau, const double theta,
                     const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j],
                     e.node_descriptor[f] == 1 ? 0. : theta * flux(v, e, tau, f, j) + (old ? (1. - theta) * flux(*old, e, tau, f, j) : 0.),
                     label);
  }
  static void equal(const Trace& a, const Trace& b, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(a[f][j], b[f][j], label);
  }
  static void any_data(Edge& e)
  {
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      e.data.u_old[i] = vp_uf("u_old", 1, (unsigned long)i);
      e.data.flux_old[i] = vp_uf("flux_old", 1, (unsigned long)i);
    }
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        e.data.boundary_flux_old(j, f) = vp_uf("boundary_flux_old", 2, (unsigned long)f, (unsigned long)j);
  }
  static constexpr unsigned int n_constru = 3;
#define SOLVER_                                                                               \
  const double tau = any_coeff("tau"), theta = any_coeff("theta"), dt = any_coeff("delta_t"); \
  const Solver solver(std::vector<double>{tau, theta, dt})

  // set_data at a time, then a step of length delta_t
  static void step(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    const double t = vp_real("time");
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda"), lambda_new = any_trace<2 * d, S::n_bdr>("lambda_new");
    const State old = solution(solver, lambda, e, t);
    solver.set_data(lambda, e, t);
    const State v = solution(solver, lambda_new, e, t + dt);
    gradient(v, e);
    theta_step(v, &old, e, tau, theta, dt, "theta scheme between the stored and the new solution");
    Trace out = any_trace<2 * d, S::n_bdr>("garbage");
    vp_check(&solver.residual_flux(lambda_new, out, e, t + dt) == &out, "the result is the second argument");
    fluxes(out, v, &old, e, tau, theta, "residual: theta scheme of the fluxes");
    vp_check_eqf(solver.errors(lambda, e, t)[0],
                 S::vol(e.geometry, [&](const Pt& pt) {
                   const double err = par::analytic_result(S::phys(pt, e.geometry), t) - old.val(pt, d);
                   return err * err;
                 }),
                 "squared error of the stored solution");
    for (unsigned int f = 0; f < 2 * d; ++f)
      vp_check(e.node_descriptor[f] == edge.node_descriptor[f], "node types are unchanged");
    vp_reach("done");
  }
  // two steps: the stored solution is that of the latest set_data
  static void two_steps(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge), e1(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    const double t = vp_real("time");
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda"), lambda_new = any_trace<2 * d, S::n_bdr>("lambda_new");
    solver.set_data(lambda, e, t);
    const Data before = e.data;
    Trace out, out1;
    solver.trace_to_flux(lambda_new, out, e, t);
    solver.residual_flux(lambda_new, out, e, t);
    solution(solver, lambda_new, e, t);
    solver.errors(lambda_new, e, t);
    for (unsigned int i = 0; i < S::n_vol; ++i)
      vp_check_eqf(before.u_old[i], e.data.u_old[i], "only set_data and make_initial change what is stored");
    e1.data = e.data;
    solver.residual_flux(lambda_new, out1, e1, t);
    equal(out, out1, "the stored data determine the step");
    solver.residual_flux(lambda_new, out, e);
    solver.residual_flux(lambda_new, out1, e, 0.);
    equal(out, out1, "time zero by default");
    vp_reach("done");
  }
  static void operator_only(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    const double t = vp_real("time");
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    Trace out = any_trace<2 * d, S::n_bdr>("garbage");
    vp_check(&solver.trace_to_flux(lambda, out, e, t) == &out, "the result is the second argument");
    data_on = 0;
    e.data = Data();
    const State v = solution(solver, lambda, e, t);
    gradient(v, e);
    theta_step(v, nullptr, e, tau, theta, dt, "theta scheme without data");
    fluxes(out, v, nullptr, e, tau, theta, "operator: fluxes without data");
    vp_reach("done");
  }
  // step from the initial state
  static void initial(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    SOLVER_;
    data_on = 1;
    any_data(e);
    State old;
    old.t = vp_real("time");
    old.by_values = false;
    old.lambda = any_trace<2 * d, S::n_bdr>("garbage");
    vp_check(&solver.make_initial(old.lambda, e, old.t) == &old.lambda, "the result is the argument");
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(old.lambda[f][j],
                     e.node_descriptor[f] == 1
                       ? 0.
                       : S::integrator::bdr(f, [&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), old.t) * pt.psi(j); }),
                     "initial traces are the projections of the initial function");
    SmallSquareMat<S::n_vol, double> mass;  // witness of the initial flux
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      old.coeffs[d][i] = S::integrator::vol([&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), old.t) * pt.phi(i); });
      for (unsigned int j = 0; j < S::n_vol; ++j)
        mass(i, j) = S::vol(e.geometry, [&](const Pt& pt) {
          return pt.phi(i) * pt.phi(j) * par::inverse_diffusion_coeff(S::phys(pt, e.geometry), old.t);
        });
    }
    const SmallSquareMat<S::n_vol, double>& matrix = mass;
    for (unsigned int k = 0; k < d; ++k)
    {
      SmallVec<S::n_vol, double> rhs;
      for (unsigned int i = 0; i < S::n_vol; ++i)
      {
        rhs[i] = S::vol(e.geometry, [&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), old.t) * pt.grad(i, k, e.geometry); });
        for (unsigned int f = 0; f < 2 * d; ++f)
          rhs[i] -= S::bdr(f, e.geometry, [&](const Pt& pt) {
            return par::initial(S::phys(pt, e.geometry), old.t) * e.geometry.normal(f, k) * pt.phi(i);
          });
      }
      const auto q = rhs / matrix;
      for (unsigned int i = 0; i < S::n_vol; ++i)
        old.coeffs[k][i] = q[i];
    }
    const Trace lambda_new = any_trace<2 * d, S::n_bdr>("lambda_new");
    const State v = solution(solver, lambda_new, e, old.t + dt);
    gradient(v, e);
    theta_step(v, &old, e, tau, theta, dt, "theta scheme between the initial function and the new solution");
    Trace out;
    solver.residual_flux(lambda_new, out, e, old.t + dt);
    fluxes(out, v, &old, e, tau, theta, "residual after initialization: theta scheme of the fluxes");
    vp_reach("done");
  }
};

#define ALL_(name, fun, d, s, p, quad, types) \
  VP_CONTRACT(fun##_##name) { Case<d, s, p, quad>::fun(typename Case<d, s, p, quad>::Edge(types)); }
#define ALL(name, d, s, p, quad, types)                                                              \
  ALL_(name, step, d, s, p, quad, types) ALL_(name, two_steps, d, s, p, quad, types)                 \
  ALL_(name, initial, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
ALL(1_p0, 1, 1, 0, 1, 0)
ALL(1_p1, 1, 1, 1, 2, 0)
ALL(2_p0, 2, 2, 0, 1, 1200)
ALL_(2_3_p0, operator_only, 2, 3, 0, 1, 21)
ALL(2_p1, 2, 2, 1, 2, 210)
ALL(3_p0, 3, 3, 0, 1, 100201)
#ifdef VP_THOROUGH
ALL(1_p2, 1, 1, 2, 4, 0)
ALL(2_p2, 2, 2, 2, 4, 210)
ALL(3_p1, 3, 3, 1, 2, 100201)
#endif
#ifdef VP_MORE  // executed only
ALL(1_p3, 1, 1, 3, 6, 0)
ALL(3_p1b, 3, 3, 1, 2, 12)
#endif
