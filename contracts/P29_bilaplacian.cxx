// Local solvers of fourth-order equations: solution u, flux q = -grad u, w = div q / coefficient (the Laplacian), p = -grad w.
// KIND: 0 bilaplacian, 1 eigenvalue problem, 2 constant coefficients on the unit hypercube, 3 parabolic problem (implicit Euler).
// With VP_PRIVATE the hidden half (p, w) of the local solution is the witness for the weak form.
#include "hdg.hxx"

#include <HyperHDG/compile_time_tricks.hxx>
#if KIND == 0
#include <HyperHDG/local_solver/bilaplacian_ldgh.hxx>
#elif KIND == 1
#include <HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx>
#elif KIND == 3
#include <HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx>
#else
#include <HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx>
#endif

static int data_on = 1;          // 0: homogeneous data, 1: arbitrary data, 2: right-hand side given below
static const double* given_rhs;  // values at the quadrature points
static double eigenvalue = 0.;

// node types: 1 Dirichlet, 2 Dirichlet for the Laplacian, 3 both
static bool dirichlet(const unsigned int type) { return type == 1 || type == 3; }
static bool dirichlet_laplacian(const unsigned int type) { return type == 2 || type == 3; }
template <unsigned int s, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 3};
  static constexpr std::array<unsigned int, 2U> dirichlet_laplacian_nodes{3, 2};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static constexpr std::array<unsigned int, 0U> neumann_laplacian_nodes{};
  static F time(const F t) { return KIND == 1 ? 0. : t; }
  static F inverse_bilaplacian_coefficient(const Point<s, F>& p, const F t = 0.)
  {
    return KIND == 2 ? 1. : data_function("kappa", p, time(t));
  }
  static F right_hand_side(const Point<s, F>& p, const F t = 0.)
  {
    if (data_on == 2)
      return given_rhs[ref_index];
    return data_on && KIND % 3 == 0 ? data_function("f", p, t) : 0.;
  }
  static F dirichlet_value(const Point<s, F>& p, const F t = 0.)
  {
    return data_on == 1 && KIND % 3 == 0 ? data_function("g", p, t) : 0.;
  }
  static F dirichlet_laplace_value(const Point<s, F>& p, const F t = 0.)
  {
    return data_on == 1 && KIND % 3 == 0 ? data_function("gl", p, t) : 0.;
  }
  static F analytic_result(const Point<s, F>& p, const F t = 0.) { return data_function("u", p, time(t)); }
  static F initial(const Point<s, F>& p, const F t = 0.) { return data_function("u0", p, t); }
  static F initial_laplace(const Point<s, F>& p, const F t = 0.) { return data_function("w0", p, t); }
};

template <unsigned int d, unsigned int s, unsigned int p, unsigned int quad>
struct Case
{
  typedef Spec<d, p, quad> S;
  typedef typename S::Pt Pt;
#if KIND == 0
  typedef AnyHyperedge<d, s, NoData, 4> Edge;
  typedef LocalSolver::Bilaplacian<d, p, quad, Par, double> Solver;
#elif KIND == 1
  typedef AnyHyperedge<d, s, NoData, 4> Edge;
  typedef LocalSolver::BilaplacianEigs<d, p, quad, Par, double> Solver;
#elif KIND == 3
  typedef LocalSolver::BilaplacianParab<d, p, quad, Par, double> Solver;
  typedef AnyHyperedge<d, s, typename Solver::data_type, 4> Edge;
#else
  struct Edge
  {
    UnitGeometry<d> geometry;
    std::array<unsigned int, 2 * d> node_descriptor;
    Edge(unsigned int) { node_descriptor.fill(0); }
  };
  typedef LocalSolver::BilaplacianUniform<d, p, quad, double> Solver;
#endif
  static constexpr unsigned int n_blocks = 2 * (d + 1);
  typedef std::array<std::array<double, 2 * S::n_bdr>, 2 * d> Trace;
  typedef std::array<typename S::Coeffs, n_blocks> Fields;  // q, u, p, w
  typedef std::array<std::array<double, S::n_pts>, d + 1> Values;
  typedef Par<s, double> par;

  static Values values(const Solver& solver, const Trace& lambda, Edge& e, const double t)
  {
#if KIND == 2
    return solver.bulk_values(S::abscissae(), lambda, t);
#else
    return solver.bulk_values(S::abscissae(), lambda, e, t);
#endif
  }
  static void op(const Solver& solver, const Trace& lambda, Trace& out, Edge& e, const double t)
  {
#if KIND == 2
    vp_check(&solver.trace_to_flux(lambda, out, t) == &out, "the result is the second argument");
#else
    vp_check(&solver.trace_to_flux(lambda, out, e, t) == &out, "the result is the second argument");
#endif
  }
#ifdef VP_PRIVATE
  static Fields solution(const Solver& solver, const Trace& lambda, const unsigned int type, Edge& e, const double t)
  {
#if KIND % 3 == 0
    const auto c = solver.solve_local_problem(lambda, type, e, t);
#elif KIND == 1
    const auto c = solver.solve_local_problem(lambda, e, t);
#else
    const auto c = solver.solve_local_problem(lambda);
#endif
    Fields v;
    for (unsigned int b = 0; b < n_blocks; ++b)
      for (unsigned int i = 0; i < S::n_vol; ++i)
        v[b][i] = c[b * S::n_vol + i];
    return v;
  }
#endif
  // prescribed values of u (half 0) and w (half 1)
  static double g(const Pt& pt, const Edge& e, const double t, const unsigned int half)
  {
    const unsigned int type = e.node_descriptor[pt.face];
    if (half == 0)
      return dirichlet(type) ? par::dirichlet_value(S::phys(pt, e.geometry), t) : 0.;
    return dirichlet_laplacian(type) ? par::dirichlet_laplace_value(S::phys(pt, e.geometry), t) : 0.;
  }
  static double trace(const Pt& pt, const Trace& lambda, const unsigned int half)
  {
    double v = 0.;
    for (unsigned int j = 0; j < S::n_bdr; ++j)
      v += lambda[pt.face][half * S::n_bdr + j] * pt.psi(j);
    return v;
  }
  // value of field b in half h
  static double val(const Pt& pt, const Fields& v, const unsigned int half, const unsigned int b)
  {
    return S::value(pt, v[half * (d + 1) + b]);
  }
  static double normal_flux(const Pt& pt, const Fields& v, const unsigned int half, const Edge& e)
  {
    double r = 0.;
    for (unsigned int k = 0; k < d; ++k)
      r += val(pt, v, half, k) * e.geometry.normal(pt.face, k);
    return r;
  }
  static void weak_form(const Fields& v, const Trace& lambda, const Edge& e, const double t, const double tau,
                        const typename S::Coeffs* source = nullptr, const double dt = 1., const typename S::Coeffs* old = nullptr)
  {
    if (KIND == 1)
      eigenvalue = t;
    for (unsigned int half = 0; half < 2; ++half)
      for (unsigned int i = 0; i < S::n_vol; ++i)
      {
        for (unsigned int k = 0; k < d; ++k)
        {
          double r = S::vol(e.geometry, [&](const Pt& pt) {
            return val(pt, v, half, k) * pt.phi(i) - val(pt, v, half, d) * pt.grad(i, k, e.geometry);
          });
          for (unsigned int f = 0; f < 2 * d; ++f)
            r += S::bdr(f, e.geometry, [&](const Pt& pt) {
              return (trace(pt, lambda, half) + g(pt, e, t, half)) * e.geometry.normal(f, k) * pt.phi(i);
            });
          vp_check_eqf(r, 0., half ? "p is the gradient of the Laplacian, weakly" : "q is the gradient of the solution, weakly");
        }
        double r = S::vol(e.geometry, [&](const Pt& pt) {
          const auto x = S::phys(pt, e.geometry);
          double w = half ? par::right_hand_side(x, t) + (KIND == 1 ? eigenvalue : 0.) * val(pt, v, 0, d) +
                              (source ? S::value(pt, *source) : 0.)
                          : par::inverse_bilaplacian_coefficient(x, t) * val(pt, v, 1, d);
          w *= pt.phi(i);
          for (unsigned int k = 0; k < d; ++k)
            w += val(pt, v, half, k) * pt.grad(i, k, e.geometry);
          return w;
        });
        for (unsigned int f = 0; f < 2 * d; ++f)
          r -= S::bdr(f, e.geometry, [&](const Pt& pt) {
            return (normal_flux(pt, v, half, e) + tau * (val(pt, v, half, d) - trace(pt, lambda, half) - g(pt, e, t, half))) * pt.phi(i);
          });
        if (KIND == 3 && half)  // a step of the implicit Euler scheme
          r = dt * r - S::vol(e.geometry, [&](const Pt& pt) {
                return (val(pt, v, 0, d) - (old ? S::value(pt, *old) : 0.)) * pt.phi(i);
              });
        vp_check_eqf(r, 0., half ? "p balances the sources, weakly" : "q balances the Laplacian, weakly");
      }
  }
  // fluxes: first those of w, then those of u (BilaplacianUniform: first those of u); zero where values of u (of w,
  // respectively) are prescribed
  static constexpr unsigned int field(const unsigned int half) { return KIND == 2 ? half : 1 - half; }
  static void flux(const Trace& out, const Fields& v, const Trace& lambda, const Edge& e, const double tau, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int half = 0; half < 2; ++half)
        for (unsigned int j = 0; j < S::n_bdr; ++j)
        {
          const bool fixed = half ? dirichlet_laplacian(e.node_descriptor[f]) : dirichlet(e.node_descriptor[f]);
          vp_check_eqf(out[f][half * S::n_bdr + j],
                       fixed ? 0.
                             : S::bdr(f, e.geometry,
                                      [&](const Pt& pt) {
                                        return (normal_flux(pt, v, field(half), e) + tau * val(pt, v, field(half), d)) * pt.psi(j);
                                      }) -
                                 tau * lambda[f][field(half) * S::n_bdr + j] * e.geometry.face_area(f),
                       label);
        }
  }
  static void same_values(const Fields& v, const Values& b, const char* label)
  {
    for (unsigned int k = 0; k <= d; ++k)
      for (unsigned int q = 0; q < TPP::vp_pow(S::rule::n_points(), d); ++q)
        vp_check_eqf(b[k][S::at(Pt(q))], val(Pt(q), v, 0, k), label);
  }
  static void equal(const Trace& a, const Trace& b, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < 2 * S::n_bdr; ++j)
        vp_check_eqf(a[f][j], b[f][j], label);
  }
  static void initial_traces(const Trace& out, const Edge& e, const double t)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
      {
        const bool fixed = dirichlet(e.node_descriptor[f]);
        vp_check_eqf(out[f][j],
                     fixed ? 0. : S::integrator::bdr(f, [&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), t) * pt.psi(j); }),
                     "initial traces are the projections of the initial function");
        if (!fixed)
          vp_check_eqf(out[f][S::n_bdr + j],
                       S::integrator::bdr(f, [&](const Pt& pt) { return par::initial_laplace(S::phys(pt, e.geometry), t) * pt.psi(j); }),
                       "initial traces are the projections of the initial Laplacian");
      }
  }
#ifdef VP_PRIVATE
#if KIND == 0
  static void residual(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 1);
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda");
    const Solver solver(tau);
    data_on = 1;
    const Fields v = solution(solver, lambda, 1, e, t);
    weak_form(v, lambda, e, t, tau);
    same_values(v, values(solver, lambda, e, t), "values are those of the solution with data");
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage");
    vp_check(&solver.residual_flux(lambda, out, e, t) == &out, "the result is the second argument");
    flux(out, v, lambda, e, tau, "residual: flux of the solution with data");
    vp_reach("done");
  }
#endif
#if KIND == 3
  static void any_data(Edge& e)
  {
    for (unsigned int i = 0; i < n_blocks * S::n_vol; ++i)
      e.data.coeffs[i] = vp_uf("old_coeffs", 1, (unsigned long)i);
  }
  // a step of the implicit Euler scheme from the stored solution
  static void step(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), dt = any_coeff("delta_t"), t = any_time(KIND == 1), t_new = vp_real("new_time");
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda"), lambda_new = any_trace<2 * d, 2 * S::n_bdr>("lambda_new");
    const Solver solver(std::vector<double>{tau, 1., dt});
    data_on = 1;
    any_data(e);
    const Fields old = solution(solver, lambda, 1, e, t);
    solver.set_data(lambda, e, t);
    const Fields v = solution(solver, lambda_new, 1, e, t_new);
    weak_form(v, lambda_new, e, t_new, tau, nullptr, dt, &old[d]);
    same_values(v, values(solver, lambda_new, e, t_new), "values are those of the solution with data");
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage");
    vp_check(&solver.residual_flux(lambda_new, out, e, t_new) == &out, "the result is the second argument");
    flux(out, v, lambda_new, e, tau, "residual: flux of the solution with data");
    Trace lambda_error = lambda_new;
    const double expected = S::vol(e.geometry, [&](const Pt& pt) {
      const double err = par::analytic_result(S::phys(pt, e.geometry), t_new) - val(pt, v, 0, d);
      return err * err;
    });
    vp_assume(expected >= 0.);  // weights of the quadrature rule and areas are positive
    vp_check_eqf(solver.errors(lambda_error, e, t_new)[0], expected, "squared error");
    vp_reach("done");
  }
  static void initial(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), dt = any_coeff("delta_t"), t = any_time(KIND == 1), t_new = vp_real("new_time");
    const Solver solver(std::vector<double>{tau, 1., dt});
    data_on = 1;
    any_data(e);
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage");
    vp_check(&solver.make_initial(out, e, t) == &out, "the result is the argument");
    initial_traces(out, e, t);
    typename S::Coeffs old;
    for (unsigned int i = 0; i < S::n_vol; ++i)
      old[i] = S::integrator::vol([&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), t) * pt.phi(i); });
    const Trace lambda_new = any_trace<2 * d, 2 * S::n_bdr>("lambda_new");
    const Fields v = solution(solver, lambda_new, 1, e, t_new);
    weak_form(v, lambda_new, e, t_new, tau, nullptr, dt, &old);
    vp_reach("done");
  }
  static void operator_only(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), dt = any_coeff("delta_t"), t = any_time(KIND == 1);
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda");
    const Solver solver(std::vector<double>{tau, 1., dt});
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage");
    data_on = 1;
    any_data(e);
    op(solver, lambda, out, e, t);
    data_on = 0;
    const Fields v = solution(solver, lambda, 0, e, t);
    weak_form(v, lambda, e, t, tau, nullptr, dt);
    flux(out, v, lambda, e, tau, "operator: flux of the solution without data");
    vp_reach("done");
  }
#endif
#if KIND == 1
  // Jacobian in direction (mu, eta) at (lambda, eig): operator at eig applied to mu, and the derivative of the solution with
  // respect to the eigenvalue, which solves the same equation with the solution as source
  static void jacobian(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), eig = any_time(true, "eig"), eta = vp_real("eta");
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda"), mu = any_trace<2 * d, 2 * S::n_bdr>("mu");
    Trace zero, out = any_trace<2 * d, 2 * S::n_bdr>("garbage"), op;
    for (unsigned int f = 0; f < 2 * d; ++f)
      zero[f].fill(0.);
    const Solver solver(tau);
    solver.trace_to_flux(mu, op, e, eig);
    vp_check(&solver.jacobian_of_trace_to_flux(mu, out, eta, lambda, eig, e) == &out, "the result is the second argument");
    typename S::Coeffs source = solution(solver, lambda, 0, e, eig)[d];
    SmallVec<n_blocks * S::n_vol, double> rhs;  // witness of the derivative: solution of a system with the same matrix
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      source[i] *= eta;
      rhs[(n_blocks - 1) * S::n_vol + i] = source[i] * e.geometry.area();
    }
    const auto c = (rhs / solver.assemble_loc_matrix(tau, e, eig)).data();
    Fields v;
    for (unsigned int b = 0; b < n_blocks; ++b)
      for (unsigned int i = 0; i < S::n_vol; ++i)
        v[b][i] = c[b * S::n_vol + i];
    weak_form(v, zero, e, eig, tau, &source);
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < 2 * S::n_bdr; ++j)
        out[f][j] -= op[f][j];
    flux(out, v, zero, e, tau, "Jacobian: derivative with respect to traces and eigenvalue");
    vp_reach("done");
  }
#endif
#if KIND < 3
  static void operator_only(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 1);
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda");
    const Solver solver(tau);
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage");
    data_on = 1;
    op(solver, lambda, out, e, t);
    data_on = 0;
    const Fields v = solution(solver, lambda, 0, e, t);
    weak_form(v, lambda, e, t, tau);
    same_values(v, values(solver, lambda, e, t), "values are those of the solution");
    flux(out, v, lambda, e, tau, "operator: flux of the solution without data");
    vp_reach("done");
  }
#endif
#else
  // what follows from the public functions alone
  static void consistent(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 1);
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda");
    const Solver solver(tau);
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage"), out1 = out;
    data_on = 1;
#if KIND == 0
    solver.residual_flux(lambda, out, e, t);
    solver.residual_flux(lambda, out1, e, t);
    equal(out, out1, "what the result contained before does not matter");
    solver.residual_flux(lambda, out, e);
    solver.residual_flux(lambda, out1, e, 0.);
    equal(out, out1, "time zero by default");
    op(solver, lambda, out, e, t);
    data_on = 0;
    solver.residual_flux(lambda, out1, e, t);
    equal(out, out1, "without data, the residual is the operator");
    solver.trace_to_flux(lambda, out, e);
    solver.trace_to_flux(lambda, out1, e, 0.);
    equal(out, out1, "time zero by default");
#elif KIND == 2
    op(solver, lambda, out, e, t);
    solver.residual_flux(lambda, out1, t);
    equal(out, out1, "without data, the residual is the operator");
#else
    op(solver, lambda, out, e, t);
    op(solver, lambda, out1, e, t);
    equal(out, out1, "what the result contained before does not matter");
#endif
#if KIND < 2
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      vp_check(e.node_descriptor[f] == edge.node_descriptor[f], "the hyperedge is unchanged");
      vp_check(solver.node_types(e)[f] == (dirichlet(edge.node_descriptor[f]) ? 1u : 0u), "node types");
    }
#endif
    vp_reach("done");
  }
#if KIND < 2
  static void error(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 1);
    Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda");
    const Solver solver(tau);
    data_on = 1;
    const Values v = values(solver, lambda, e, t);
    const double expected = S::vol(e.geometry, [&](const Pt& pt) {
      const double err = par::analytic_result(S::phys(pt, e.geometry), t) - v[d][S::at(pt)];
      return err * err;
    });
    vp_assume(expected >= 0.);  // weights of the quadrature rule and areas are positive
    vp_check_eqf(solver.errors(lambda, e, t)[0], expected, "squared error");
    vp_reach("done");
  }
#endif
#if KIND == 0
  static void mass(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 1);
    const Trace lambda = any_trace<2 * d, 2 * S::n_bdr>("lambda");
    Trace zero, out, expected;
    for (unsigned int f = 0; f < 2 * d; ++f)
      zero[f].fill(0.);
    const Solver solver(tau);
    data_on = 1;
    const Values v = values(solver, lambda, e, t);
    solver.total_numerical_flux_mass(lambda, out, e, t);
    data_on = 2;
    given_rhs = v[d].data();
    ref_index_of = [](const double* x) { return S::at_point(x); };
    solver.residual_flux(zero, expected, e, t);
    equal(out, expected, "mass flux with data: flux of the solution whose source is the solution");
    data_on = 0;
    const Values v0 = values(solver, lambda, e, t);
    data_on = 1;
    solver.trace_to_mass_flux(lambda, out, e, t);
    data_on = 2;
    given_rhs = v0[d].data();
    solver.residual_flux(zero, expected, e, t);
    equal(out, expected, "mass flux: flux of the solution whose source is the solution");
    vp_reach("done");
  }
#endif
#if KIND == 1
  static void initial(const Edge& edge)
  {
    Edge e(edge);
    const Solver solver(any_coeff("tau"));
    const double t = any_time(KIND == 1);
    Trace out = any_trace<2 * d, 2 * S::n_bdr>("garbage");
    vp_check(&solver.make_initial(out, e, t) == &out, "the result is the argument");
    initial_traces(out, e, t);
    vp_reach("done");
  }
#endif
#endif
};

#define ALL_(name, fun, d, s, p, quad, types) \
  VP_CONTRACT(fun##_##name) { Case<d, s, p, quad>::fun(typename Case<d, s, p, quad>::Edge(types)); }
#ifdef VP_PRIVATE
#if KIND == 0
#define ALL(name, d, s, p, quad, types) \
  ALL_(name, residual, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
#elif KIND == 3
#define ALL(name, d, s, p, quad, types)                                                        \
  ALL_(name, step, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)       \
  ALL_(name, initial, d, s, p, quad, types)
#elif KIND == 1
#define ALL(name, d, s, p, quad, types) \
  ALL_(name, jacobian, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
#else
#define ALL(name, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
#endif
#else
#if KIND == 0
#define ALL(name, d, s, p, quad, types) \
  ALL_(name, consistent, d, s, p, quad, types) ALL_(name, error, d, s, p, quad, types) ALL_(name, mass, d, s, p, quad, types)
#elif KIND == 1
#define ALL(name, d, s, p, quad, types) \
  ALL_(name, consistent, d, s, p, quad, types) ALL_(name, error, d, s, p, quad, types) ALL_(name, initial, d, s, p, quad, types)
#else
#define ALL(name, d, s, p, quad, types) ALL_(name, consistent, d, s, p, quad, types)
#endif
#endif
ALL(1_p0, 1, 1, 0, 1, 0)
ALL(1_p1, 1, (KIND == 2 ? 1 : 2), 1, 2, 0)
ALL(2_p0, 2, 2, 0, 1, 1230)
ALL(2_p0b, 2, (KIND == 2 ? 2 : 3), 0, 1, 21)
ALL(2_p1, 2, 2, 1, 2, 210)
ALL(3_p0, 3, 3, 0, 1, 100231)
#ifdef VP_THOROUGH
ALL(1_p2, 1, 1, 2, 4, 0)
ALL(2_p2, 2, 2, 2, 4, 210)
#endif
#ifdef VP_MORE  // executed only
ALL(1_p3, 1, 1, 3, 6, 0)
ALL(3_p1, 3, 3, 1, 2, 100231)
#if KIND != 2
ALL(1_3_p2, 1, 3, 2, 4, 0)
ALL(2_3_p1, 2, 3, 1, 2, 1320)
#endif
#endif
