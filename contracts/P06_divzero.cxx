// P06: a division by zero is reported by the documented exception, never silently
#include "la.hxx"

template <typename F>
int outcome(F f)
{
  try
  {
    f();
  }
  catch (const SmallMatDivByZeroException&)
  {
    return 1;
  }
  catch (...)
  {
    return 2;
  }
  return 0;
}
template <unsigned int m, unsigned int n, typename T>
void div_zero()
{
  using M = SmallMat<m, n, T>;
  const M A = any_mat<m, n, T>("A"), B = any_mat<m, n, T>("B");
  const T s = any_real<T>("s");
  const auto a0 = A.data();
  const auto b0 = B.data();
  bool zero = false;
  for (unsigned int i = 0; i < m * n; ++i)
    zero = zero | (b0[i] == 0);
  // scalar divisors
  {
    M X(A);
    const int o = outcome([&] { X /= s; });
    vp_check((o == 1) == (s == 0), "/= scalar raises iff the scalar is zero");
    vp_check(o != 2, "only the documented exception");
    if (o == 1)
      same(X, a0, "/= scalar leaves the matrix unchanged when it raises");
  }
  {
    const int o = outcome([&] { M Y = A / s; });
    vp_check((o == 1) == (s == 0), "matrix / scalar raises iff the scalar is zero");
    vp_check(o != 2, "only the documented exception");
  }
  // matrix divisors
  {
    const int o = outcome([&] { M Y = hada_divi(A, B); });
    vp_check((o == 1) == zero, "entrywise quotient raises iff some divisor is zero");
    vp_check(o != 2, "only the documented exception");
  }
  {
    M X(A);
    const int o = outcome([&] { X /= B; });
    vp_check((o == 1) == zero, "/= matrix raises iff some divisor is zero");
    vp_check(o != 2, "only the documented exception");
  }
  {
    const int o = outcome([&] { M Y = s / B; });
    vp_check((o == 1) == zero, "scalar / matrix raises iff some divisor is zero");
    vp_check(o != 2, "only the documented exception");
  }
  same(A, a0, "dividend unchanged");
  same(B, b0, "divisor unchanged");
  vp_reach("end");
}
#define X(m, n, T) VP_CONTRACT(div_zero_##m##x##n##_##T) { div_zero<m, n, T>(); }
X(1, 1, double) X(1, 2, double) X(2, 1, double) X(2, 2, double) X(3, 1, double) X(2, 3, double) X(3, 2, double)
X(4, 1, double) X(1, 5, double) X(3, 1, float) X(2, 2, float) X(9, 1, double) X(17, 1, double) X(4, 5, double) X(3, 6, double)
