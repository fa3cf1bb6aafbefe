// P20: inner product, norm and linear combinations of large vectors; the conjugate gradient method
#include "mock.hxx"
#include <HyperHDG/sparse_la.hxx>

#ifdef VP_BIGVEC
// ---------------------------------------------------------------- vectors of arbitrary length (loop rule)
static constexpr uint64_t huge = (uint64_t)1 << 40;
static uint64_t any_size(const uint64_t lo)
{
  const uint64_t n = vp_u64("n", lo, huge);
  vp_assume(n <= (vp_symbolic() ? huge : 20000));
  return n;
}
// partial sums of left[i] * right[i]
struct DotCtx
{
  const BigVec *a, *b;
  bool backwards;
  uint64_t at(const uint64_t k) const { return backwards ? a->n - 1 - k : k; }
};
static double partial(const uint64_t k) { return vp_uf("partial", 1, k); }
static void dot_inv(void* p, uint64_t k)
{
  const DotCtx& c = *(DotCtx*)p;
  vp_inv(k <= c.a->n, "the index does not exceed the size");
  vp_inv_eq(vp_loop_real(0, 1), partial(k), "the accumulator is the sum of the first k products");
  if (c.a == c.b)
    vp_inv(vp_loop_real(0, 1) >= 0., "the sum of the first k squares is non-negative");
  if (k < c.a->n)
    vp_define_eq(partial(k + 1), partial(k) + c.a->p[c.at(k)] * c.b->p[c.at(k)]);
}
template <typename F>
static void dot(const BigVec& a, const BigVec& b, const F& f)
{
  DotCtx c{&a, &b, vp_alternative(2) == 1};
  double expected = 0.;
  if (vp_symbolic())
  {
    vp_define_eq(partial(0), 0.);
    vp_invariant("*", dot_inv, &c);
  }
  else
    for (uint64_t i = 0; i < a.n; ++i)
      expected += a[i] * b[i];
  const double r = f();
  vp_invariant_end();
  if (vp_symbolic())
    expected = partial(a.n);
  vp_check_eq(r, expected, "the inner product is the sum of all products");
}
VP_CONTRACT(inner_product_any_length)
{
  {
    const uint64_t n = any_size(0);
    const BigVec a("a", n), b("b", n);
    dot(a, b, [&] { return SparseLA::inner_product(a, b); });
  }
  vp_reach("done");
}
VP_CONTRACT(inner_product_alias_any_length)
{
  {
    const uint64_t n = any_size(0);
    const BigVec a("a", n);
    dot(a, a, [&] { return SparseLA::inner_product(a, a); });
  }
  vp_reach("done");
}
VP_CONTRACT(norm_any_length)
{
  {
    const uint64_t n = any_size(0);
    const BigVec a("a", n);
    dot(a, a,
        [&]
        {
          const double r = SparseLA::norm_2(a);
          vp_check(r >= 0., "the norm is non-negative");
          return r * r;
        });
  }
  vp_reach("done");
}
struct CombCtx
{
  const BigVec *res, *res0;
  double f, g;
  const BigVec *a, *b;
  uint64_t j;
};
static void comb_inv(void* p, uint64_t k)
{
  const CombCtx& c = *(CombCtx*)p;
  vp_inv(k <= c.a->n, "the index does not exceed the size");
  vp_inv_eq(c.res->p[c.j], c.j < k ? c.f * c.a->p[c.j] + c.g * c.b->p[c.j] : c.res0->p[c.j], "entries below k are final");
}
// the three vectors may coincide in every way
template <unsigned int alias>
static void combination()
{
  {
    const uint64_t n = any_size(1);
    const uint64_t j = vp_u64("j", 0, huge);
    vp_assume(j < n);
    BigVec a("a", n), b("b", n), r("r", n);
    const BigVec a0 = a, b0 = b, r0 = r;
    const double f = vp_real("f"), g = vp_real("g");
    BigVec& res = (alias & 1) ? a : (alias & 2) ? b : r;
    const BigVec& right = (alias & 4) ? a : b;
    const BigVec& res0 = (alias & 1) ? a0 : (alias & 2) ? b0 : r0;
    const BigVec& right0 = (alias & 4) ? a0 : b0;
    CombCtx c{&res, &res0, f, g, &a0, &right0, j};
    vp_invariant("*", comb_inv, &c);
    SparseLA::linear_combination(f, a, g, right, res);
    vp_invariant_end();
    vp_check_eq(res[j], f * a0[j] + g * right0[j], "every entry of the linear combination");
    if (!(alias & 1))
      vp_check_eq(a[j], a0[j], "the left vector is unchanged");
    if (!(alias & 2))
      vp_check_eq(b[j], b0[j], "the right vector is unchanged");
    vp_check(res.size() == n, "the size is unchanged");
  }
  vp_reach("done");
}
VP_CONTRACT(combination_any_length) { combination<0>(); }
VP_CONTRACT(combination_into_left_any_length) { combination<1>(); }
VP_CONTRACT(combination_into_right_any_length) { combination<2>(); }
VP_CONTRACT(combination_same_any_length) { combination<4>(); }
VP_CONTRACT(combination_all_same_any_length) { combination<5>(); }

// ---------------------------------------------------------------- conjugate gradient, any number of iterations
// a vector type that lets the invariant name the iterates x, r, d: they are among the first vectors the method makes, in some order
template <unsigned int n>
struct RegVec
{
  typedef double value_type;
  double v[n];
  static inline RegVec* reg[3];
  static inline unsigned int n_reg;
  void add()
  {
    if (n_reg < 3)
      reg[n_reg++] = this;
  }
  explicit RegVec(const unsigned int, const double value = 0.)
  {
    for (unsigned int i = 0; i < n; ++i)
      v[i] = value;
    add();
  }
  RegVec(const RegVec& o)
  {
    for (unsigned int i = 0; i < n; ++i)
      v[i] = o.v[i];
    add();
  }
  RegVec& operator=(const RegVec& o) = default;
  unsigned int size() const { return n; }
  double& operator[](const unsigned int i) { return v[i]; }
  const double& operator[](const unsigned int i) const { return v[i]; }
};
template <unsigned int n>
struct LinearOp
{
  double a[n][n];
  const bool symmetric;
  LinearOp() : symmetric(vp_u32("symmetric", 0, 1))
  {
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        a[i][j] = vp_real("A");
    if (vp_symbolic())
      return;
    // executions: rounding errors stay small for well-conditioned positive definite matrices
    double m[n][n];
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        m[i][j] = std::tanh(a[i][j]);
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
      {
        a[i][j] = i == j ? 1. : 0.;
        if (symmetric)
          for (unsigned int k = 0; k < n; ++k)
            a[i][j] += m[i][k] * m[j][k];
        else
          a[i][j] = 3. * a[i][j] + m[i][j];
      }
  }
  template <typename V>
  double row(const V& x, const unsigned int i) const
  {
    double s = 0.;
    for (unsigned int j = 0; j < n; ++j)
      s += a[i][j] * x[j];
    return s;
  }
  RegVec<n> trace_to_flux(const RegVec<n>& x) const
  {
    RegVec<n> y(n, 0.);
    for (unsigned int i = 0; i < n; ++i)
      y[i] = row(x, i);
    return y;
  }
};
template <unsigned int n>
struct CgCtx
{
  const LinearOp<n>* op;
  const RegVec<n>* b;
  unsigned int alternative;
};
// alternatives: which of the vectors are x and r, and which real variable carries the square of the residual, if any (3: none)
static constexpr unsigned int alternatives[][3] = {{0, 1, 3}, {1, 0, 3}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {1, 0, 1}, {0, 2, 3}, {2, 0, 3},
                                                   {1, 2, 3}, {2, 1, 3}, {0, 2, 0}, {2, 0, 0}, {1, 2, 0}, {2, 1, 0}, {0, 1, 2}, {1, 0, 2}};
template <unsigned int n>
static void cg_inv(void* p, uint64_t)
{
  const CgCtx<n>& c = *(CgCtx<n>*)p;
  const unsigned int ix = alternatives[c.alternative][0], ir = alternatives[c.alternative][1], scalar = alternatives[c.alternative][2];
  vp_inv(ix < RegVec<n>::n_reg && ir < RegVec<n>::n_reg, "the vectors exist");
  if (ix >= RegVec<n>::n_reg || ir >= RegVec<n>::n_reg)
    return;
  for (unsigned int i = 0; i < n; ++i)
    vp_inv_eq((*RegVec<n>::reg[ir])[i], (*c.b)[i] - c.op->row(*RegVec<n>::reg[ix], i), "r is the residual of the iterate x");
  if (scalar < 3)
  {
    double s = 0.;
    for (unsigned int i = 0; i < n; ++i)
      s += (*RegVec<n>::reg[ir])[i] * (*RegVec<n>::reg[ir])[i];
    vp_inv_eq(vp_loop_scalar(scalar), s, "square of the residual");
  }
}
template <unsigned int n>
static void cg()
{
  {
    const LinearOp<n> op;
    RegVec<n> b(n, 0.);
    for (unsigned int i = 0; i < n; ++i)
    {
      b[i] = vp_real("b");
      if (!vp_symbolic())
        b[i] = 10. * std::tanh(b[i]);
    }
    double tol = vp_real("tol");
    if (!vp_symbolic())
      tol = std::abs(std::tanh(tol)) + 1e-4;
    const uint32_t n_it = vp_u32("n_it", 0, vp_symbolic() ? 0xffffffffu : op.symmetric ? 50u : 5u);
    CgCtx<n> c{&op, &b, vp_alternative(16)};
    RegVec<n>::n_reg = 0;
    bool thrown = false;
    RegVec<n>* x = nullptr;
    vp_invariant("*", cg_inv<n>, &c);
    try
    {
      x = new RegVec<n>(SparseLA::conjugate_gradient(b, op, n_it, tol));
    }
    catch (SparseLA::SolveException&)
    {
      thrown = true;
    }
    if (!thrown)
    {
      double s = 0.;
      for (unsigned int i = 0; i < n; ++i)
        s += (b[i] - op.row(*x, i)) * (b[i] - op.row(*x, i));
      vp_check(s < tol * tol * (vp_symbolic() ? 1. : 1.0001), "the returned vector solves the system up to the tolerance");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(cg_any_iterations_1) { cg<1>(); }
VP_CONTRACT(cg_any_iterations_2) { cg<2>(); }
#else
// ---------------------------------------------------------------- small vectors, standard container
typedef std::vector<double> Vec;
static Vec any_vec(const char* name, const uint64_t n)
{
  Vec v(n);
  for (uint64_t i = 0; i < n; ++i)
    v[i] = vp_real(name);
  return v;
}
template <unsigned int n>
static void products()
{
  {
    const Vec a = any_vec("a", n), b = any_vec("b", n), a0 = a, b0 = b;
    double ab = 0., aa = 0.;
    for (unsigned int i = 0; i < n; ++i)
    {
      ab += a0[i] * b0[i];
      aa += a0[i] * a0[i];
    }
    vp_check_eq(SparseLA::inner_product(a, b), ab, "the inner product is the sum of all products");
    vp_check_eq(SparseLA::inner_product(a, a), aa, "the inner product with itself");
    const double r = SparseLA::norm_2(a);
    vp_check(r >= 0., "the norm is non-negative");
    vp_check_eq(r * r, aa, "the norm is the root of the inner product with itself");
    const double f = vp_real("f"), g = vp_real("g");
    const Vec c = SparseLA::linear_combination(f, a, g, b);
    vp_check(c.size() == n, "size of the linear combination");
    Vec d = any_vec("d", n);
    SparseLA::linear_combination(f, a, g, b, d);
    Vec l = a, rr = b, s = a;
    SparseLA::linear_combination(f, l, g, b, l);
    SparseLA::linear_combination(f, a, g, rr, rr);
    SparseLA::linear_combination(f, s, g, s, s);
    for (unsigned int i = 0; i < n; ++i)
    {
      vp_check_eq(c[i], f * a0[i] + g * b0[i], "entry of the linear combination");
      vp_check_eq(d[i], f * a0[i] + g * b0[i], "entry of the linear combination in place");
      vp_check_eq(l[i], f * a0[i] + g * b0[i], "entry of the linear combination into its left vector");
      vp_check_eq(rr[i], f * a0[i] + g * b0[i], "entry of the linear combination into its right vector");
      vp_check_eq(s[i], (f + g) * a0[i], "entry of the linear combination of a vector with itself into itself");
      vp_check_eq(a[i], a0[i], "left argument unchanged");
      vp_check_eq(b[i], b0[i], "right argument unchanged");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(products_0) { products<0>(); }
VP_CONTRACT(products_1) { products<1>(); }
VP_CONTRACT(products_2) { products<2>(); }
VP_CONTRACT(products_4) { products<4>(); }
VP_CONTRACT(sizes_rejected)
{
  {
    const Vec a = any_vec("a", vp_u32("na", 0, 3)), b = any_vec("b", vp_u32("nb", 0, 3));
    vp_abort_expected(a.size() != b.size(), "vectors of different sizes are rejected");
    SparseLA::inner_product(a, b);
    vp_check(a.size() == b.size(), "the inner product rejects different sizes");
  }
  vp_reach("done");
}

// ---------------------------------------------------------------- conjugate gradient, bounded number of iterations
// a symmetric positive definite matrix L L^T (L lower triangular, positive diagonal)
template <unsigned int n>
struct SpdOp
{
  double a[n][n];
  mutable unsigned int calls = 0;
  SpdOp()
  {
    double l[n][n];
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
        l[i][j] = j > i ? 0. : vp_real("L");
    for (unsigned int i = 0; i < n; ++i)
    {
      vp_assume(l[i][i] > 0.);
      if (!vp_symbolic())  // executions: well-conditioned matrices only
        for (unsigned int j = 0; j <= i; ++j)
          l[i][j] = std::tanh(l[i][j]) + (i == j ? 1. : 0.);
    }
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = 0; j < n; ++j)
      {
        a[i][j] = 0.;
        for (unsigned int k = 0; k < n; ++k)
          a[i][j] += l[i][k] * l[j][k];
      }
  }
  double row(const Vec& x, const unsigned int i) const
  {
    double s = 0.;
    for (unsigned int j = 0; j < n; ++j)
      s += a[i][j] * x[j];
    return s;
  }
  Vec trace_to_flux(const Vec& x) const
  {
    ++calls;
    Vec y(n);
    for (unsigned int i = 0; i < n; ++i)
      y[i] = row(x, i);
    return y;
  }
};
template <unsigned int n, unsigned int n_it, bool exact>
static void cg_bounded()
{
  {
    const SpdOp<n> op;
    Vec b = any_vec("b", n);
    double tol = vp_real("tol");
    vp_assume(tol > 0.);
    if (!vp_symbolic())
    {
      tol = std::abs(std::tanh(tol)) + 1e-4;
      for (unsigned int i = 0; i < n; ++i)
        b[i] = 10. * std::tanh(b[i]);
    }
    const Vec b0 = b;
    double bb = 0.;
    for (unsigned int i = 0; i < n; ++i)
      bb += b[i] * b[i];
    bool thrown = false;
    Vec x;
    try
    {
      x = SparseLA::conjugate_gradient(b, op, n_it, tol);
    }
    catch (SparseLA::SolveException&)
    {
      thrown = true;
    }
    for (unsigned int i = 0; i < n; ++i)
      vp_check_eq(b[i], b0[i], "the right-hand side is unchanged");
    const double slack = vp_symbolic() ? 1. : 1.0001;
    if (thrown)
    {
      vp_check(op.calls == (n_it == 0 ? n : n_it), "failure is reported only after the allowed number of iterations");
      vp_check(!exact, "enough iterations solve a symmetric positive definite system");
      vp_check(bb >= tol * tol / slack, "a small right-hand side is no failure");
    }
    else
    {
      vp_check(x.size() == n, "the solution has the size of the right-hand side");
      double s = 0.;
      for (unsigned int i = 0; i < n; ++i)
        s += (b[i] - op.row(x, i)) * (b[i] - op.row(x, i));
      vp_check(s < tol * tol * slack, "the returned vector solves the system up to the tolerance");
      vp_check(op.calls <= (n_it == 0 ? n : n_it), "no more than the allowed number of iterations");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(cg_1_default) { cg_bounded<1, 0, true>(); }
VP_CONTRACT(cg_1_3) { cg_bounded<1, 3, true>(); }
VP_CONTRACT(cg_2_1) { cg_bounded<2, 1, false>(); }
VP_CONTRACT(cg_3_1) { cg_bounded<3, 1, false>(); }

// the second search direction is conjugate to the first one (what makes the method finite); the second
// application of the operator ends the run
template <unsigned int n>
struct ConjugacyOp
{
  const SpdOp<n> op;
  Vec d0, z0;
  Vec trace_to_flux(const Vec& x)
  {
    if (d0.size() == 0)
    {
      d0 = x;
      z0 = op.trace_to_flux(x);
      return z0;
    }
    double s = 0., m = 0.;
    for (unsigned int i = 0; i < n; ++i)
    {
      s += x[i] * z0[i];
      m += std::abs(x[i] * z0[i]);
    }
    if (vp_symbolic())
      vp_check_eq(s, 0., "search directions are conjugate");
    else
      vp_check(std::abs(s) <= 1e-9 * m + 1e-12, "search directions are conjugate");
    throw 1;
  }
};
template <unsigned int n>
static void cg_conjugate()
{
  {
    ConjugacyOp<n> op;
    Vec b = any_vec("b", n);
    double tol = vp_real("tol");
    vp_assume(tol > 0.);
    if (!vp_symbolic())
    {
      tol = 1e-4;
      for (unsigned int i = 0; i < n; ++i)
        b[i] = 10. * std::tanh(b[i]);
    }
    try
    {
      SparseLA::conjugate_gradient(b, op, 0, tol);
    }
    catch (int)
    {
      vp_reach("second direction");
    }
    catch (SparseLA::SolveException&)
    {
      vp_check(false, "failure is reported only after the allowed number of iterations");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(cg_conjugate_2) { cg_conjugate<2>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(cg_conjugate_3) { cg_conjugate<3>(); }
VP_CONTRACT(cg_2_default) { cg_bounded<2, 0, true>(); }
VP_CONTRACT(cg_3_default) { cg_bounded<3, 0, true>(); }
#endif
#endif
