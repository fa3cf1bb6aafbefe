// Local solvers of second-order equations: the local solution satisfies the discrete weak form; fluxes and errors are
// the integrals of this solution.  KIND: 0 diffusion (LDG-H), 1 with advection and reaction, 2 with postprocessing,
// 3 eigenvalue problem, 4 diffusion with constant coefficients on the unit hypercube.
#include "hdg.hxx"
#if KIND == 0
#include <HyperHDG/local_solver/diffusion_ldgh.hxx>
#define SOLVER Diffusion
#elif KIND == 1
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#define SOLVER DiffusionAdvectionReaction
#elif KIND == 2
#include <HyperHDG/local_solver/diffusion_ldgh_pp.hxx>
#define SOLVER DiffusionPostprocess
#elif KIND == 3
#include <HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx>
#include <HyperHDG/local_solver/diffusion_eigs_ldgh.hxx>
#define SOLVER DiffusionEigs
#else
#include <HyperHDG/local_solver/diffusion_uniform_ldgh.hxx>
#endif

static int data_on = 1;          // 0: homogeneous data, 1: arbitrary data, 2: right-hand side given below
static const double* given_rhs;  // values at the quadrature points
static double eigenvalue = 0.;   // of the eigenvalue problem

template <unsigned int s, typename F>
struct Par
{
  static constexpr std::array<unsigned int, 1U> dirichlet_nodes{1};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  // the coefficients of the eigenvalue problem do not depend on time
  static F time(const F t) { return KIND == 3 ? 0. : t; }
  static F inverse_diffusion_coeff(const Point<s, F>& p, const F t = 0.)
  {
    return KIND == 4 ? 1. : data_function("kappa", p, time(t));
  }
  static F diffusion_coeff(const Point<s, F>& p, const F t = 0.) { return data_function("diffusion", p, t); }
  static Point<s, F> advective_velocity(const Point<s, F>& p, const F t = 0.)
  {
    Point<s, F> v;
    const char* names[] = {"b0", "b1", "b2"};
    for (unsigned int k = 0; k < s && KIND == 1; ++k)
      v[k] = data_function(names[k], p, t);
    return v;
  }
  static F reaction_rate(const Point<s, F>& p, const F t = 0.)
  {
    return KIND == 1 ? data_function("c", p, t) : KIND == 3 ? -eigenvalue : 0.;
  }
  static F right_hand_side(const Point<s, F>& p, const F t = 0.)
  {
    if (data_on == 2)
      return given_rhs[ref_index];
    return data_on && KIND < 3 ? data_function("f", p, t) : 0.;
  }
  static F dirichlet_value(const Point<s, F>& p, const F t = 0.)
  {
    return data_on == 1 && KIND < 3 ? data_function("g", p, t) : 0.;
  }
  static F analytic_result(const Point<s, F>& p, const F t = 0.) { return data_function("u", p, time(t)); }
  static F initial(const Point<s, F>& p, const F t = 0.) { return data_function("u0", p, t); }
};

template <unsigned int d, unsigned int s, unsigned int p, unsigned int quad>
struct Case
{
  typedef Spec<d, p, quad> S;
  typedef typename S::Pt Pt;
#if KIND == 4
  struct Edge
  {
    UnitGeometry<d> geometry;
    std::array<unsigned int, 2 * d> node_descriptor;
    Edge(unsigned int) { node_descriptor.fill(0); }
  };
  typedef LocalSolver::DiffusionUniform<d, p, quad, double> Solver;
#else
  typedef AnyHyperedge<d, s> Edge;
  typedef LocalSolver::SOLVER<d, p, quad, Par, double> Solver;
#endif
  typedef std::array<std::array<double, S::n_bdr>, 2 * d> Trace;
  typedef std::array<std::array<double, S::n_pts>, d + 1> Fields;
  typedef Par<s, double> par;

  static Fields solution(const Solver& solver, const Trace& lambda, Edge& e, const double t)
  {
#if KIND == 4
    return solver.bulk_values(S::abscissae(), lambda, t);
#else
    return solver.bulk_values(S::abscissae(), lambda, e, t);
#endif
  }
  static double g(const Pt& pt, const Edge& e, const double t)
  {
    return e.node_descriptor[pt.face] == 1 ? par::dirichlet_value(S::phys(pt, e.geometry), t) : 0.;
  }
  static double qn(const Pt& pt, const Fields& v, const Edge& e)
  {
    double r = 0.;
    for (unsigned int k = 0; k < d; ++k)
      r += v[k][S::at(pt)] * e.geometry.normal(pt.face, k);
    return r;
  }
  static double velocity(const Pt& pt, const Edge& e, const double t, const unsigned int k)
  {
#if KIND == 1
    return e.geometry.vp_local_component(par::advective_velocity(S::phys(pt, e.geometry), t), k);
#else
    return 0.;
#endif
  }
  // discrete weak form
  static void weak_form(const Fields& v, const Trace& lambda, const Edge& e, const double t, const double tau)
  {
    if (KIND == 3)
      eigenvalue = t;
    for (unsigned int i = 0; i < S::n_vol; ++i)
    {
      for (unsigned int k = 0; k < d; ++k)
      {
        double r = S::vol(e.geometry, [&](const Pt& pt) {
          return (par::inverse_diffusion_coeff(S::phys(pt, e.geometry), t) * v[k][S::at(pt)] -
                  velocity(pt, e, t, k) * v[d][S::at(pt)]) *
                   pt.phi(i) -
                 v[d][S::at(pt)] * pt.grad(i, k, e.geometry);
        });
        for (unsigned int f = 0; f < 2 * d; ++f)
          r += S::bdr(f, e.geometry, [&](const Pt& pt) {
            return (S::trace(pt, lambda) + g(pt, e, t)) * e.geometry.normal(f, k) * pt.phi(i);
          });
        vp_check_eqf(r, 0., "the flux is the gradient of the solution, weakly");
      }
      double r = S::vol(e.geometry, [&](const Pt& pt) {
        double w = (par::right_hand_side(S::phys(pt, e.geometry), t) -
                    par::reaction_rate(S::phys(pt, e.geometry), t) * v[d][S::at(pt)]) *
                   pt.phi(i);
        for (unsigned int k = 0; k < d; ++k)
          w += v[k][S::at(pt)] * pt.grad(i, k, e.geometry);
        return w;
      });
      for (unsigned int f = 0; f < 2 * d; ++f)
        r -= S::bdr(f, e.geometry, [&](const Pt& pt) {
          return (qn(pt, v, e) + tau * (v[d][S::at(pt)] - S::trace(pt, lambda) - g(pt, e, t))) * pt.phi(i);
        });
      vp_check_eqf(r, 0., "the flux balances the sources, weakly");
    }
  }
  // numerical flux, tested with the functions of the skeleton; zero where Dirichlet values are prescribed
  static void flux(const Trace& out, const Fields& v, const Trace& lambda, const Edge& e, const double tau, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j],
                     e.node_descriptor[f] == 1 ? 0.
                                               : S::bdr(f, e.geometry,
                                                        [&](const Pt& pt) { return (qn(pt, v, e) + tau * v[d][S::at(pt)]) * pt.psi(j); }) -
                                                   tau * lambda[f][j] * e.geometry.face_area(f),
                     label);
  }
  static void equal(const Trace& a, const Trace& b, const char* label)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(a[f][j], b[f][j], label);
  }
#if KIND < 3
  static void residual(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 3);
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    const Solver solver(tau);
    data_on = 1;
    const Fields v = solution(solver, lambda, e, t);
    weak_form(v, lambda, e, t, tau);
    Trace out = any_trace<2 * d, S::n_bdr>("garbage"), out0 = out;
    solver.residual_flux(lambda, out, e, t);
    flux(out, v, lambda, e, tau, "residual: flux of the solution with data");
    vp_check(&solver.residual_flux(lambda, out0, e, t) == &out0, "the result is the second argument");
    equal(out, out0, "what the result contained before does not matter");
    solver.residual_flux(lambda, out, e);
    solver.residual_flux(lambda, out0, e, 0.);
    equal(out, out0, "time zero by default");
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      vp_check(e.node_descriptor[f] == edge.node_descriptor[f], "the hyperedge is unchanged");
      vp_check(solver.node_types(e)[f] == (edge.node_descriptor[f] == 1 ? 1u : 0u), "node types");
    }
    vp_reach("done");
  }
#endif
  static void operator_only(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 3);
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    const Solver solver(tau);
    Trace out = any_trace<2 * d, S::n_bdr>("garbage"), out1 = out;
    data_on = 1;
#if KIND == 4
    vp_check(&solver.trace_to_flux(lambda, out, t) == &out, "the result is the second argument");
    solver.residual_flux(lambda, out1, t);
    equal(out, out1, "without data, the residual is the operator");
#else
    vp_check(&solver.trace_to_flux(lambda, out, e, t) == &out, "the result is the second argument");
#endif
    data_on = 0;
    const Fields v = solution(solver, lambda, e, t);
    weak_form(v, lambda, e, t, tau);
    flux(out, v, lambda, e, tau, "operator: flux of the solution without data");
#if KIND == 4
    solver.trace_to_flux(lambda, out);
    solver.trace_to_flux(lambda, out1, 0.);
#else
    solver.trace_to_flux(lambda, out, e);
    solver.trace_to_flux(lambda, out1, e, 0.);
#endif
    equal(out, out1, "time zero by default");
    vp_reach("done");
  }
#if KIND < 2 || KIND == 3
  static void error(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 3);
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    const Solver solver(tau);
    data_on = 1;
    const Fields v = solution(solver, lambda, e, t);
    vp_check_eqf(solver.errors(lambda, e, t)[0],
                 S::vol(e.geometry, [&](const Pt& pt) {
                   const double err = par::analytic_result(S::phys(pt, e.geometry), t) - v[d][S::at(pt)];
                   return err * err;
                 }),
                 "squared error");
    vp_check_eqf(solver.errors(lambda, e)[0], solver.errors(lambda, e, 0.)[0], "time zero by default");
    vp_reach("done");
  }
#endif
#ifdef POSTPROCESSING
  // the postprocessed solution u* of one degree more: (kappa grad u*, grad phi_i) = -(q, grad phi_i) for all i > 0, and the
  // coefficient of the constant is that of u; errors is its squared distance to the analytic result
  static void error(const Edge& edge)
  {
    typedef Spec<d, p + 1, quad + 2> P;
    typedef typename P::Pt PPt;
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(false);
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    const Solver solver(tau);
    data_on = 1;
    const auto v = solver.bulk_values(P::abscissae(), lambda, e, t);
    const auto c = solver.bulk_values(S::probes(), lambda, e, t);
    SmallSquareMat<P::n_vol, double> mat;
    SmallVec<P::n_vol, double> rhs;
    for (unsigned int i = 0; i < P::n_vol; ++i)
    {
      for (unsigned int j = 0; j < P::n_vol; ++j)
        mat(i, j) = P::vol(e.geometry, [&](const PPt& pt) {
          double r = 0.;
          for (unsigned int k = 0; k < d; ++k)
            r += pt.grad(i, k, e.geometry) * pt.grad(j, k, e.geometry);
          return r * par::diffusion_coeff(P::phys(pt, e.geometry), t);
        });
      rhs[i] = P::vol(e.geometry, [&](const PPt& pt) {
        double r = 0.;
        for (unsigned int k = 0; k < d; ++k)
          r -= v[k][P::at(pt)] * pt.grad(i, k, e.geometry);
        return r;
      });
    }
    mat(0, 0) = P::vol(e.geometry, [&](const PPt& pt) { return pt.phi(0) * pt.phi(0); });
    rhs[0] = c[d][0] * mat(0, 0);
    const SmallVec<P::n_vol, double> u = rhs / mat;
    vp_check_eqf(solver.errors(lambda, e, t)[0],
                 P::vol(e.geometry, [&](const PPt& pt) {
                   double err = par::analytic_result(P::phys(pt, e.geometry), t);
                   for (unsigned int i = 0; i < P::n_vol; ++i)
                     err -= u[i] * pt.phi(i);
                   return err * err;
                 }),
                 "squared error of the postprocessed solution");
    vp_check_eqf(solver.errors(lambda, e)[0], solver.errors(lambda, e, 0.)[0], "time zero by default");
    vp_reach("done");
  }
#endif
#if KIND < 2
  static void mass(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), t = any_time(KIND == 3);
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda");
    Trace zero;
    for (unsigned int f = 0; f < 2 * d; ++f)
      zero[f].fill(0.);
    const Solver solver(tau);
    Trace out, expected;
    for (unsigned int with_data = 0; with_data < 2; ++with_data)
    {
      data_on = with_data;
      const Fields v = solution(solver, lambda, e, t);
      data_on = 1;
      if (with_data)
        solver.total_numerical_flux_mass(lambda, out, e, t);
      else
        solver.trace_to_mass_flux(lambda, out, e, t);
      data_on = 2;
      given_rhs = v[d].data();
      ref_index_of = [](const double* x) { return S::at_point(x); };
      solver.residual_flux(zero, expected, e, t);
      equal(out, expected, "mass flux: flux of the solution whose source is the solution");
    }
    vp_reach("done");
  }
#endif
#if KIND == 3
  // Jacobian in direction (mu, eta) at (lambda, eig): operator at eig applied to mu, and the derivative of the solution with
  // respect to the eigenvalue, which solves the same equation with the solution as source
  static void jacobian(const Edge& edge)
  {
    vp_assume_regular();
    Edge e(edge);
    const double tau = any_coeff("tau"), eig = any_time(true, "eig"), eta = vp_real("eta");
    const Trace lambda = any_trace<2 * d, S::n_bdr>("lambda"), mu = any_trace<2 * d, S::n_bdr>("mu");
    Trace zero, out = any_trace<2 * d, S::n_bdr>("garbage"), op, der;
    for (unsigned int f = 0; f < 2 * d; ++f)
      zero[f].fill(0.);
    const Solver solver(tau);
    const LocalSolver::DiffusionAdvectionReaction<d, p, quad, Par, double> linear(tau);
    data_on = 1;
    Fields v = solution(solver, lambda, e, eig);
    solver.trace_to_flux(mu, op, e, eig);
    vp_check(&solver.jacobian_of_trace_to_flux(mu, out, eta, lambda, eig, e) == &out, "the result is the second argument");
    for (unsigned int i = 0; i < S::n_pts; ++i)
      v[d][i] *= eta;
    data_on = 2;
    given_rhs = v[d].data();
    ref_index_of = [](const double* x) { return S::at_point(x); };
    eigenvalue = eig;
    linear.residual_flux(zero, der, e, 0.);
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j], op[f][j] + der[f][j], "Jacobian: derivative with respect to traces and eigenvalue");
    vp_reach("done");
  }
  static void initial(const Edge& edge)
  {
    Edge e(edge);
    const Solver solver(any_coeff("tau"));
    const double t = any_time(KIND == 3);
    Trace out = any_trace<2 * d, S::n_bdr>("garbage");
    vp_check(&solver.make_initial(out, e, t) == &out, "the result is the argument");
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int j = 0; j < S::n_bdr; ++j)
        vp_check_eqf(out[f][j],
                     e.node_descriptor[f] == 1
                       ? 0.
                       : S::integrator::bdr(f, [&](const Pt& pt) { return par::initial(S::phys(pt, e.geometry), t) * pt.psi(j); }),
                     "initial traces are the projections of the initial function");
    vp_reach("done");
  }
#endif
};

#define ALL_(name, fun, d, s, p, quad, types) \
  VP_CONTRACT(fun##_##name) { Case<d, s, p, quad>::fun(typename Case<d, s, p, quad>::Edge(types)); }
#if KIND < 2
#define ALL(name, d, s, p, quad, types)                                                             \
  ALL_(name, residual, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)        \
  ALL_(name, error, d, s, p, quad, types) ALL_(name, mass, d, s, p, quad, types)
#elif defined(POSTPROCESSING)
#define ALL(name, d, s, p, quad, types) ALL_(name, error, d, s, p, quad, types)
#elif KIND == 2
#define ALL(name, d, s, p, quad, types) \
  ALL_(name, residual, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
#elif KIND == 3
#define ALL(name, d, s, p, quad, types)                                                       \
  ALL_(name, operator_only, d, s, p, quad, types) ALL_(name, error, d, s, p, quad, types)     \
  ALL_(name, jacobian, d, s, p, quad, types) ALL_(name, initial, d, s, p, quad, types)
#else
#define ALL(name, d, s, p, quad, types) ALL_(name, operator_only, d, s, p, quad, types)
#endif

#ifdef POSTPROCESSING
ALL(1_p0, 1, 1, 0, 1, 0)
ALL(1_p1, 1, 2, 1, 2, 0)
ALL(2_p0, 2, 2, 0, 1, 1000)
#ifdef VP_MORE  // executed only
ALL(1_p2, 1, 1, 2, 4, 0)
ALL(1_3_p1, 1, 3, 1, 3, 0)
ALL(2_p1, 2, 2, 1, 2, 110)
ALL(2_3_p1, 2, 3, 1, 2, 1)
ALL(3_p0, 3, 3, 0, 1, 100001)
#endif
#else
ALL(1_p0, 1, 1, 0, 1, 0)
ALL(1_p1, 1, (KIND == 4 ? 1 : 2), 1, 2, 0)
ALL(2_p0, 2, 2, 0, 1, 1000)
ALL(2_p0b, 2, (KIND == 4 ? 2 : 3), 0, 1, 120)
ALL(2_p1, 2, 2, 1, 2, 110)
ALL(3_p0, 3, 3, 0, 1, 100001)
#if KIND != 3
ALL(1_p2, 1, 1, 2, 4, 0)
#endif
#ifdef VP_THOROUGH
ALL(2_p2, 2, 2, 2, 4, 210)
#if KIND == 3
ALL(1_p2, 1, 1, 2, 4, 0)
#endif
#if KIND != 1
ALL(3_p1, 3, 3, 1, 2, 100010)
#else
ALL_(3_p1, residual, 3, 3, 1, 2, 100010)
#endif
#endif
#ifdef VP_MORE  // executed only
ALL(1_p3, 1, 1, 3, 6, 0)
ALL(3_p1b, 3, 3, 1, 2, 12)
#if KIND != 4
ALL(1_3_p2, 1, 3, 2, 4, 0)
ALL(2_3_p1, 2, 3, 1, 2, 1)
#endif
#endif
#endif
