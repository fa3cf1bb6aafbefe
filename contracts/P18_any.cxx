// P18: errors on hypergraphs with an arbitrary number of hyperedges: after k hyperedges the accumulated error is the fold
// of the initial error with the local errors of the first k hyperedges (an arbitrary combination of errors).
#include "anygraph.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>

// errors that know the object which holds the accumulated value: the one the initial error was put into
struct Seen2 : std::array<double, 2>
{
  static inline const Seen2* acc;
  explicit Seen2(int) : std::array<double, 2>{vp_ufr("err_init", 1, 0.), vp_ufr("err_init", 1, 1.)} { acc = this; }
  Seen2(const double a, const double b) : std::array<double, 2>{a, b} {}
  Seen2(const Seen2& o) : std::array<double, 2>(o)
  {
    if (acc == &o)
      acc = this;
  }
  Seen2& operator=(const Seen2& o) = default;
};
struct SeenError
{
  typedef Seen2 error_t;
  static error_t initial_error() { return Seen2(0); }
  static error_t sum_error(const error_t& a, const error_t& b)
  {
    return {vp_ufr("err_sum0", 2, a[0], b[0]), vp_ufr("err_sum1", 2, a[1], b[1])};
  }
  static error_t postprocess_error(const error_t& a) { return {vp_ufr("err_post", 2, 0., a[0]), vp_ufr("err_post", 2, 1., a[1])}; }
};
template <unsigned int d, unsigned int nd>
struct Solver : AnySolver<d, nd>
{
  typedef SeenError error_def;
  Solver(const double p = 17.) : AnySolver<d, nd>(p) {}
  template <typename E>
  SeenError::error_t errors(const EdgeDofs<d, nd>& in, E& e, const double time = 0.) const
  {
    return {this->call("errors", e, 0, 0, time, in), this->call("errors", e, 1, 0, time, in)};
  }
};
template <unsigned int d, unsigned int nd>
struct Ctx
{
  const AnyGraph<d>* g;
  double par, time;
  const BigVec* x;
  uint64_t call;
  double s(const uint64_t k, const unsigned int m) const { return vp_uf("partial_error", 3, call, k, (uint64_t)m); }
  double local(const uint64_t e, const unsigned int m) const
  {
    return any_local<d, nd>("errors", par, e, e, e, 0., m, 0, time, any_gather<d, nd>(*g, *x, e));
  }
};
template <unsigned int d, unsigned int nd>
static void inv(void* p, uint64_t k)
{
  const Ctx<d, nd>& c = *(Ctx<d, nd>*)p;
  vp_inv(k <= c.g->n_edges, "not more hyperedges are visited than there are");
  for (unsigned int m = 0; m < 2; ++m)
    vp_inv_eq((*Seen2::acc)[m], c.s(k, m), "the accumulator combines the errors of the hyperedges visited");
  if (k < c.g->n_edges)
  {
    vp_define_eq(c.s(k + 1, 0), vp_ufr("err_sum0", 2, c.s(k, 0), c.local(k, 0)));
    vp_define_eq(c.s(k + 1, 1), vp_ufr("err_sum1", 2, c.s(k, 1), c.local(k, 1)));
  }
}
static uint64_t n_calls;
template <unsigned int d, unsigned int nd, typename F>
static void evaluate(Ctx<d, nd> c, const char* label0, const char* label1, const F& f)
{
  c.call = n_calls++;
  const double i0 = vp_ufr("err_init", 1, 0.), i1 = vp_ufr("err_init", 1, 1.);
  double s0 = i0, s1 = i1;
  if (vp_symbolic())
  {
    vp_define_eq(c.s(0, 0), i0);
    vp_define_eq(c.s(0, 1), i1);
    vp_invariant("*", inv<d, nd>, &c);
  }
  else
    for (uint64_t e = 0; e < c.g->n_edges; ++e)
    {
      s0 = vp_ufr("err_sum0", 2, s0, c.local(e, 0));
      s1 = vp_ufr("err_sum1", 2, s1, c.local(e, 1));
    }
  const std::vector<double> r = f();
  vp_invariant_end();
  if (vp_symbolic())
  {
    s0 = c.s(c.g->n_edges, 0);
    s1 = c.s(c.g->n_edges, 1);
  }
  vp_check(r.size() == 2, "one value per error measure");
  vp_check_eq(r[0], vp_ufr("err_post", 2, 0., s0), label0);
  vp_check_eq(r[1], vp_ufr("err_post", 2, 1., s1), label1);
}
template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d, unsigned int nd>
static void errors()
{
  {
    n_calls = 0;
    const AnyGraph<d> g;
    if (!vp_symbolic())
      vp_assume(g.n_edges <= 30);  // an arbitrary combination of errors may overflow
    const double par = vp_real("par"), time = vp_real("time");
    LoopT<AnyTopology<d>, AnyPart<d, 0>, AnyPart<d, 1>, Solver<d, nd>, OutVec, unsigned int> loop(g, par);
    const uint64_t size = (uint64_t)nd * g.n_nodes;
    const OutVec x("x", size);
    const OutVec x0 = x;
    Ctx<d, nd> c{&g, par, time, &x0, 0};
    evaluate<d, nd>(c, "accumulated error (first measure)", "accumulated error (second measure)", [&] { return loop.errors(x, time); });
    c.time = 0.;
    evaluate<d, nd>(c, "accumulated error at the default time (first measure)", "accumulated error at the default time (second measure)",
                    [&] { return loop.errors(x); });
    const uint64_t j = vp_u64("j", 0, ((uint64_t)1 << 32) - 1);
    vp_assume(j < size);
    vp_check_eq(x[j], x0[j], "the argument is unchanged");
    const OutVec z = loop.zero_vector();
    vp_check((z.size() == size) & (loop.size_of_system() == size), "size of the system and of the zero vector");
    vp_check_eq(z[j], 0., "the zero vector is zero");
  }
  vp_reach("done");
}
using namespace GlobalLoop;
VP_CONTRACT(any_errors_elliptic_1_1) { errors<Elliptic, 1, 1>(); }
VP_CONTRACT(any_errors_parabolic_1_1) { errors<Parabolic, 1, 1>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(any_errors_elliptic_1_2) { errors<Elliptic, 1, 2>(); }
VP_CONTRACT(any_errors_parabolic_2_1) { errors<Parabolic, 2, 1>(); }
#endif
