// Local solver of a network of Timoshenko beams in space: forces n, moments m, displacements u, rotations r in the frame of
// the beam (direction i of its axis, and two outer normals), with
//   n = -C (u' - i x r),  m = -D r',  n' = f,  m' - i x n = g.
#include "hdg.hxx"

#include <HyperHDG/local_solver/timoshenko_network.hxx>

static int data_on = 1;  // 0: homogeneous data
static bool with_extra_data = false;

static double field(const char* name, const Point<3, double>& x, const Point<3, double>& n, const double t)
{
  double args[7] = {x[0], x[1], x[2], n[0], n[1], n[2], t};
#ifdef VP_NATIVE
  return 1. + .5 * std::sin(vp_ufv(name, 7, args));
#else
  return vp_ufv(name, 7, args);
#endif
}
template <unsigned int s, typename F>
struct Par
{
  typedef Point<s, F> P;
  static constexpr std::array<unsigned int, 2U> dirichlet_nodes{1, 2};
  static constexpr std::array<unsigned int, 0U> neumann_nodes{};
  static F right_hand_side_n(const P& x, const P& n, const F t = 0.) { return data_on ? field("f", x, n, t) : 0.; }
  static F right_hand_side_m(const P& x, const P& n, const F t = 0.) { return data_on ? field("g", x, n, t) : 0.; }
  static F dirichlet_value_u(const P& x, const P& n, const F t = 0.) { return data_on ? field("u_D", x, n, t) : 0.; }
  static F dirichlet_value_phi(const P& x, const P& n, const F t = 0.) { return data_on ? field("r_D", x, n, t) : 0.; }
  static F analytic_result_u(const P& x, const P& n, const F t = 0.) { return field("u", x, n, t); }
  static F analytic_result_phi(const P& x, const P& n, const F t = 0.) { return field("r", x, n, t); }
};

struct Beam : AnyGeometry<1, 3>
{
  typedef Point<3, double> P;
  static P vector(const char* name, const unsigned int index)
  {
    P r;
    for (unsigned int k = 0; k < 3; ++k)
      r[k] = vp_uf(name, 2, (unsigned long)index, (unsigned long)k);
    return r;
  }
  P inner_normal(const unsigned int) const { return vector("axis", 0); }
  P outer_normal(const unsigned int index) const { return vector("outer_normal", index); }
  P frame(const unsigned int k) const { return k == 0 ? inner_normal(0) : outer_normal(k - 1); }
  bool has_extra_data() const { return with_extra_data; }
  // natively, of the order of magnitude which the units of the solver expect (no ill-conditioned local problems)
  static double scale(const unsigned int k)
  {
#ifdef VP_NATIVE
    return k < 3 ? 1e-4 : 1e-12;
#else
    return 1.;
#endif
  }
  std::array<double, 12> extra_data() const
  {
    std::array<double, 12> r;
    for (unsigned int k = 0; k < 12; ++k)
      r[k] = k < 6 ? any_coeff("stiffness", k) * scale(k) : vp_uf("section_normal", 1, (unsigned long)k);
    return r;
  }
};
struct Edge
{
  Beam geometry;
  std::array<unsigned int, 2> node_descriptor;
  Edge() : geometry{}
  {
    for (unsigned int f = 0; f < 2; ++f)
      node_descriptor[f] = vp_split32(vp_u32(f ? "type1" : "type0", 0, 3));
  }
};

template <unsigned int p, unsigned int quad>
struct Case
{
  typedef Spec<1, p, quad> S;
  typedef typename S::Pt Pt;
  typedef LocalSolver::TimoshenkoBeam<1, 3, p, quad, Par, double> Solver;
  typedef std::array<std::array<double, 6>, 2> Trace;
  typedef std::array<typename S::Coeffs, 12> Fields;  // n, m, u, r
  typedef Par<3, double> par;

  static bool dirichlet(const unsigned int type) { return type == 1 || type == 2; }
  // components in the frame of the beam
  static Trace local(const Trace& lambda, const Beam& b)
  {
    Trace r;
    for (unsigned int f = 0; f < 2; ++f)
      for (unsigned int c = 0; c < 6; ++c)
      {
        r[f][c] = 0.;
        for (unsigned int k = 0; k < 3; ++k)
          r[f][c] += b.frame(c % 3)[k] * lambda[f][c / 3 * 3 + k];
      }
    return r;
  }
#ifndef VP_PUBLIC
  static Fields solution(const Solver& solver, const Trace& loc, const unsigned int type, Edge& e, const double t)
  {
    const auto c = solver.solve_local_problem(loc, type, e, t);
    Fields v;
    for (unsigned int b = 0; b < 12; ++b)
      for (unsigned int i = 0; i < S::n_vol; ++i)
        v[b][i] = c[b * S::n_vol + i];
    return v;
  }
#endif
  // i x v, the axis being the first vector of the frame
  static double cross(const Pt& pt, const Fields& v, const unsigned int block, const unsigned int c)
  {
    return c == 0 ? 0. : c == 1 ? -S::value(pt, v[block + 2]) : S::value(pt, v[block + 1]);
  }
  static double stiffness(const unsigned int c, const Beam& b)
  {
    if (!with_extra_data)
      return 1.;
    const auto data = b.extra_data();
    double r = data[c];
    if (c % 3)
    {
      r = 0.;
      for (unsigned int k = 0; k < 2; ++k)
      {
        double projection = 0.;
        for (unsigned int l = 0; l < 3; ++l)
          projection += b.outer_normal(c % 3 - 1)[l] * data[6 + 3 * k + l];
        r += data[c / 3 * 3 + 1 + k] * projection;
      }
    }
    return std::abs(r * (c < 3 ? 1e4 : 1e12));
  }
  // executions: no vanishing (effective) stiffness, for which the local problem has no solution
  static void executable(const Edge& e)
  {
    if (!vp_symbolic())
      for (unsigned int c = 0; c < 6; ++c)
        vp_assume(stiffness(c, e.geometry) > .05);
  }
  static void weak_form(const Fields& v, const Trace& loc, const Edge& e, const double t, const double tau)
  {
    const Beam& b = e.geometry;
    for (unsigned int c = 0; c < 6; ++c)
    {
      const auto dir = b.frame(c % 3);
      const auto g = [&](const Pt& pt) {
        if (!dirichlet(e.node_descriptor[pt.face]))
          return 0.;
        const auto x = S::phys(pt, b);
        return c < 3 ? par::dirichlet_value_u(x, dir, t) : par::dirichlet_value_phi(x, dir, t);
      };
      const double stiff = stiffness(c, b);
      for (unsigned int i = 0; i < S::n_vol; ++i)
      {
        double r = S::vol(b, [&](const Pt& pt) {
          return (S::value(pt, v[c]) / stiff - (c < 3 ? cross(pt, v, 9, c) : 0.)) * pt.phi(i) -
                 S::value(pt, v[6 + c]) * pt.grad(i, 0, b);
        });
        for (unsigned int f = 0; f < 2; ++f)
          r += S::bdr(f, b, [&](const Pt& pt) { return (loc[f][c] + g(pt)) * b.normal(f, 0) * pt.phi(i); });
        vp_check_eqf(r, 0., c < 3 ? "forces: constitutive equation, weakly" : "moments: constitutive equation, weakly");
        r = S::vol(b, [&](const Pt& pt) {
          const auto x = S::phys(pt, b);
          return -S::value(pt, v[c]) * pt.grad(i, 0, b) -
                 ((c < 3 ? par::right_hand_side_n(x, dir, t) : par::right_hand_side_m(x, dir, t)) + (c < 3 ? 0. : cross(pt, v, 0, c - 3))) *
                   pt.phi(i);
        });
        for (unsigned int f = 0; f < 2; ++f)
          r += S::bdr(f, b, [&](const Pt& pt) {
            return (S::value(pt, v[c]) * b.normal(f, 0) + tau * (S::value(pt, v[6 + c]) - loc[f][c] - g(pt))) * pt.phi(i);
          });
        vp_check_eqf(r, 0., c < 3 ? "forces are balanced, weakly" : "moments are balanced, weakly");
      }
    }
  }
  // numerical fluxes, as vectors in space; zero where the displacements are prescribed
  static void flux(const Trace& out, const Fields& v, const Trace& loc, const Edge& e, const double tau, const char* label)
  {
    for (unsigned int f = 0; f < 2; ++f)
      for (unsigned int half = 0; half < 2; ++half)
        for (unsigned int k = 0; k < 3; ++k)
        {
          double r = 0.;
          for (unsigned int c = 0; c < 3; ++c)
            r += e.geometry.frame(c)[k] * S::bdr(f, e.geometry, [&](const Pt& pt) {
                   return S::value(pt, v[3 * half + c]) * e.geometry.normal(f, 0) +
                          tau * (S::value(pt, v[6 + 3 * half + c]) - loc[f][3 * half + c]);
                 });
          vp_check_eqf(out[f][3 * half + k], dirichlet(e.node_descriptor[f]) ? 0. : r, label);
        }
  }
  static Trace zero()
  {
    Trace r;
    r[0].fill(0.);
    r[1].fill(0.);
    return r;
  }
#ifdef VP_PUBLIC
  // what follows from the functions which global loops call
  static void consistent()
  {
    vp_assume_regular();
    Edge e;
    const double tau = any_coeff("tau"), t = vp_real("time");
    const Trace lambda = any_trace<2, 6>("lambda");
    const Solver solver(tau);
    Trace out = zero(), out1 = zero(), out2 = zero();
    data_on = 1;
    solver.trace_to_flux(lambda, out, e, t);
    solver.residual_flux(lambda, out2, e, t);
    data_on = 0;
    solver.residual_flux(lambda, out1, e, t);
    for (unsigned int f = 0; f < 2; ++f)
      for (unsigned int j = 0; j < 6; ++j)
      {
        vp_check_eqf(out[f][j], out1[f][j], "without data, the residual is the operator");
        if (dirichlet(e.node_descriptor[f]))
        {
          vp_check_eqf(out[f][j], 0., "operator: no flux where displacements are prescribed");
          vp_check_eqf(out2[f][j], 0., "residual: no flux where displacements are prescribed");
        }
      }
    vp_reach("done");
  }
#else
  static void residual()
  {
    vp_assume_regular();
    Edge e;
    executable(e);
    const auto types = e.node_descriptor;
    const double tau = any_coeff("tau"), t = vp_real("time");
    const Trace lambda = any_trace<2, 6>("lambda"), loc = local(lambda, e.geometry);
    const Solver solver(tau);
    data_on = 1;
    const Fields v = solution(solver, loc, 1, e, t);
    weak_form(v, loc, e, t, tau);
    Trace out = zero();
    vp_check(&solver.residual_flux(lambda, out, e, t) == &out, "the result is the second argument");
    flux(out, v, loc, e, tau, "residual: fluxes of the solution with data");
    const auto values = solver.bulk_values(S::abscissae(), lambda, e, t);
    for (unsigned int k = 0; k < 3; ++k)
      for (unsigned int q = 0; q < S::rule::n_points(); ++q)
      {
        double r = 0.;
        for (unsigned int c = 0; c < 3; ++c)
          r += e.geometry.frame(c)[k] * S::value(Pt(q), v[6 + c]);
        vp_check_eqf(values[k][S::at(Pt(q))], r, "values are the displacements, as vectors in space");
      }
    double expected = 0.;
    for (unsigned int c = 0; c < 3; ++c)
      expected += S::vol(e.geometry, [&](const Pt& pt) {
        const double err = par::analytic_result_u(S::phys(pt, e.geometry), e.geometry.frame(c), t) - S::value(pt, v[6 + c]);
        return err * err;
      });
    vp_check_eqf(solver.errors(lambda, e, t)[0], expected, "squared error of the displacements");
    vp_check(e.node_descriptor == types, "the hyperedge is unchanged");
    vp_reach("done");
  }
  static void operator_only()
  {
    vp_assume_regular();
    Edge e;
    executable(e);
    const double tau = any_coeff("tau"), t = vp_real("time");
    const Trace lambda = any_trace<2, 6>("lambda"), loc = local(lambda, e.geometry);
    const Solver solver(tau);
    Trace out = zero();
    data_on = 1;
    vp_check(&solver.trace_to_flux(lambda, out, e, t) == &out, "the result is the second argument");
    data_on = 0;
    const Fields v = solution(solver, loc, 0, e, t);
    weak_form(v, loc, e, t, tau);
    flux(out, v, loc, e, tau, "operator: fluxes of the solution without data");
    Trace out1 = zero();
    solver.residual_flux(lambda, out1, e, t);
    for (unsigned int f = 0; f < 2; ++f)
      for (unsigned int j = 0; j < 6; ++j)
        vp_check_eqf(out[f][j], out1[f][j], "without data, the residual is the operator");
    vp_reach("done");
  }
#endif
};

#ifdef VP_PUBLIC
#define ALL(name, p, quad) \
  VP_CONTRACT(consistent_##name) { Case<p, quad>::consistent(); }
#else
#define ALL(name, p, quad)                                                  \
  VP_CONTRACT(residual_##name) { Case<p, quad>::residual(); }               \
  VP_CONTRACT(operator_##name) { Case<p, quad>::operator_only(); }          \
  VP_CONTRACT(residual_materials_##name) { with_extra_data = true; Case<p, quad>::residual(); } \
  VP_CONTRACT(operator_materials_##name) { with_extra_data = true; Case<p, quad>::operator_only(); }
#endif
ALL(p0, 0, 1)
ALL(p1, 1, 2)
ALL(p2, 2, 4)
#ifdef VP_THOROUGH
ALL(p3, 3, 6)
#endif
