// P07: solving linear systems
#include "la.hxx"

template <unsigned int n, unsigned int r, typename T>
void solve_const()
{
  const SmallMat<n, n, T> A = any_mat<n, n, T>("A");
  const SmallMat<n, r, T> b = any_mat<n, r, T>("b");
  const auto a0 = A.data();
  const auto b0 = b.data();
  bool thrown = false;
  SmallMat<n, r, T> x;
  try
  {
    x = b / A;
  }
  catch (const Wrapper::LAPACKexception&)
  {
    thrown = true;
  }
  if (!thrown)
  {
    T scale = 1;
    if (!vp_symbolic())
      for (unsigned int i = 0; i < n * r; ++i)
        scale += std::abs(x.data()[i]);
    ensure_mat(
      SmallMat<n, r, T>(b),
      [&](unsigned i, unsigned j) {
        T s = 0;
        for (unsigned k = 0; k < n; ++k)
          s += a0[k * n + i] * x.data()[j * n + k];
        return vp_symbolic() ? s : std::abs(s - b0[j * n + i]) <= 1e-3 * scale ? b0[j * n + i] : s;
      },
      "the solution satisfies the system");
    vp_reach("solved");
  }
  else
  {
    if constexpr (n == 1)
      vp_check(a0[0] == 0, "raises only for singular matrices");
    if constexpr (n == 2)
      vp_check(vp_symbolic() ? a0[0] * a0[3] - a0[1] * a0[2] == 0 : std::abs(a0[0] * a0[3] - a0[1] * a0[2]) < 1e-3,
               "raises only for singular matrices");
    vp_reach("singular");
  }
  same(A, a0, "system matrix unchanged");
  same(b, b0, "right-hand side unchanged");
}
template <unsigned int n, unsigned int r, typename T>
void solve_mutable()
{
  SmallMat<n, n, T> A = any_mat<n, n, T>("A");
  SmallMat<n, r, T> b = any_mat<n, r, T>("b");
  const auto a0 = A.data();
  const auto b0 = b.data();
  try
  {
    SmallMat<n, r, T> x = b / A;
    for (unsigned j = 0; j < r; ++j)
      for (unsigned i = 0; i < n; ++i)
      {
        T s = 0, scale = 1;
        for (unsigned k = 0; k < n; ++k)
        {
          s += a0[k * n + i] * x.data()[j * n + k];
          if (!vp_symbolic())
            scale += std::abs(x.data()[j * n + k]);
        }
        if (vp_symbolic() || std::abs(s - b0[j * n + i]) > 1e-3 * scale)
          eq<T>(s, b0[j * n + i], "the solution satisfies the system (operands may be overwritten)");
      }
    vp_reach("solved");
  }
  catch (const Wrapper::LAPACKexception&)
  {
    vp_reach("singular");
  }
}
template <unsigned int n, unsigned int r, typename T>
void solve_raw()
{
  SmallMat<n, n, T> A = any_mat<n, n, T>("A");
  SmallMat<n, r, T> b = any_mat<n, r, T>("b");
  const auto a0 = A.data();
  const auto b0 = b.data();
  std::array<T, n * n> a = a0;
  std::array<T, n * r> rhs = b0;
  try
  {
    const std::array<T, n* r> x = Wrapper::lapack_solve<n, r, T>(a, rhs);
    for (unsigned j = 0; j < r; ++j)
      for (unsigned i = 0; i < n; ++i)
      {
        T s = 0, scale = 1;
        for (unsigned k = 0; k < n; ++k)
        {
          s += a0[k * n + i] * x[j * n + k];
          if (!vp_symbolic())
            scale += std::abs(x[j * n + k]);
        }
        if (vp_symbolic() || std::abs(s - b0[j * n + i]) > 1e-3 * scale)
          eq<T>(s, b0[j * n + i], "array interface: the solution satisfies the system");
      }
    vp_reach("solved");
  }
  catch (const Wrapper::LAPACKexception&)
  {
    vp_reach("singular");
  }
}
#define X(n, r, T)                                                           \
  VP_CONTRACT(solve_const_##n##x##r##_##T) { solve_const<n, r, T>(); }       \
  VP_CONTRACT(solve_mutable_##n##x##r##_##T) { solve_mutable<n, r, T>(); }   \
  VP_CONTRACT(solve_raw_##n##x##r##_##T) { solve_raw<n, r, T>(); }
X(1, 1, double) X(1, 3, double) X(2, 1, double) X(2, 2, double) X(2, 3, double) X(3, 1, double) X(3, 2, double)
X(3, 3, double) X(4, 1, double) X(4, 2, double) X(5, 1, double) X(6, 2, double) X(1, 1, float) X(2, 3, float)
X(3, 1, float) X(4, 2, float) X(8, 1, double) X(9, 3, double) X(12, 1, double)
