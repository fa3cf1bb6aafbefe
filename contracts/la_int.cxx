// P01, P02, P03, P04, P06 for matrices of integers (indices, coordinates on lattices)
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>

template <unsigned int m, unsigned int n, typename T>
SmallMat<m, n, T> any(const char* name, const T lo, const T hi)
{
  std::array<T, m * n> a;
  for (unsigned int i = 0; i < m * n; ++i)
    a[i] = (T)(vp_u32(name, 0, (uint32_t)(hi - lo)) + (uint32_t)lo);
  return SmallMat<m, n, T>(a);
}
template <unsigned int m, unsigned int n, typename T, typename F>
void ensure(const SmallMat<m, n, T>& A, F f, const char* label)
{
  bool ok = true;
  for (unsigned int j = 0; j < n; ++j)
    for (unsigned int i = 0; i < m; ++i)
      ok &= A.data()[j * m + i] == (T)f(i, j);
  vp_check(ok, label);
}
#define ENTRY(x, op, y) [&](unsigned i, unsigned j) { return (T)(x op y); }
template <unsigned int m, unsigned int n, typename T, T lo, T hi>
void entrywise()
{
  using M = SmallMat<m, n, T>;
  const M A = any<m, n, T>("A", lo, hi), B = any<m, n, T>("B", lo, hi);
  const SmallVec<m, T> v = any<m, 1, T>("v", lo, hi);
  const T s = any<1, 1, T>("s", lo, hi)[0];
  const auto a = A.data(), b = B.data();
  ensure(M(A + B), ENTRY(a[j * m + i], +, b[j * m + i]), "matrix + matrix");
  ensure(M(A - B), ENTRY(a[j * m + i], -, b[j * m + i]), "matrix - matrix");
  ensure(M(hada_prod(A, B)), ENTRY(a[j * m + i], *, b[j * m + i]), "entrywise product");
  ensure(M(A + s), ENTRY(a[j * m + i], +, s), "matrix + scalar");
  ensure(M(s + A), ENTRY(a[j * m + i], +, s), "scalar + matrix");
  ensure(M(A - s), ENTRY(a[j * m + i], -, s), "matrix - scalar");
  ensure(M(s - A), ENTRY(s, -, a[j * m + i]), "scalar - matrix");
  ensure(M(A * s), ENTRY(a[j * m + i], *, s), "matrix * scalar");
  ensure(M(s * A), ENTRY(a[j * m + i], *, s), "scalar * matrix");
  ensure(M(A + v), ENTRY(a[j * m + i], +, v.data()[i]), "matrix + column");
  ensure(M(v - A), ENTRY(v.data()[i], -, a[j * m + i]), "column - matrix");
  M X(A), Y(A), Z(A);
  X += X[m * n - 1];
  ensure(X, ENTRY(a[j * m + i], +, a[m * n - 1]), "+= one of the entries");
  Y -= v;
  ensure(Y, ENTRY(a[j * m + i], -, v.data()[i]), "-= column");
  Z *= Z[0];
  ensure(Z, ENTRY(a[j * m + i], *, a[0]), "*= one of the entries");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T, T lo, T hi>
void divisions()
{
  using M = SmallMat<m, n, T>;
  const M A = any<m, n, T>("A", lo, hi), B = any<m, n, T>("B", lo, hi);
  const T s = any<1, 1, T>("s", lo, hi)[0];
  const auto a = A.data(), b = B.data();
  vp_assume(s != 0);
  for (unsigned int i = 0; i < m * n; ++i)
    vp_assume(b[i] != 0);
  ensure(M(A / s), ENTRY(a[j * m + i], /, s), "matrix / scalar");
  ensure(M(s / B), ENTRY(s, /, b[j * m + i]), "scalar / matrix");
  ensure(M(hada_divi(A, B)), ENTRY(a[j * m + i], /, b[j * m + i]), "entrywise quotient");
  M X(A), Y(B);
  X /= s;
  ensure(X, ENTRY(a[j * m + i], /, s), "/= scalar");
  Y /= Y;
  ensure(Y, ENTRY(b[j * m + i], /, b[j * m + i]), "/= itself");
  vp_reach("end");
}
template <unsigned int m, unsigned int k, unsigned int n, typename T, T lo, T hi>
void products()
{
  const SmallMat<m, k, T> A = any<m, k, T>("A", lo, hi);
  const SmallMat<k, n, T> B = any<k, n, T>("B", lo, hi);
  const auto a = A.data();
  const auto b = B.data();
  const auto p = [&](unsigned i, unsigned j) {
    T r = 0;
    for (unsigned int l = 0; l < k; ++l)
      r += a[l * m + i] * b[j * k + l];
    return r;
  };
  ensure(SmallMat<m, n, T>(A * B), p, "product");
  ensure(SmallMat<m, n, T>(transposed_mat_times_mat(transposed(A), B)), p, "transposed times");
  ensure(SmallMat<m, n, T>(mat_times_transposed_mat(A, transposed(B))), p, "times transposed");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T, T lo, T hi>
void structure()
{
  using M = SmallMat<m, n, T>;
  const T s = any<1, 1, T>("s", lo, hi)[0];
  const M zero, fill(s);
  ensure(zero, [&](unsigned, unsigned) { return 0; }, "zero matrix");
  ensure(fill, [&](unsigned, unsigned) { return s; }, "constant matrix");
  const M A = any<m, n, T>("A", lo, hi);
  const auto a = A.data();
  const SmallMat<m, n, double> D(A);
  for (unsigned int j = 0; j < n; ++j)
    for (unsigned int i = 0; i < m; ++i)
    {
      vp_check((A(i, j) == a[j * m + i]) & (A[j * m + i] == a[j * m + i]), "access");
      vp_check_eq(D(i, j), (double)a[j * m + i], "conversion of the entries");
    }
  ensure(transposed(A), [&](unsigned i, unsigned j) { return a[i * m + j]; }, "transposed");
  ensure(diagonal<m, n, T>(s), [&](unsigned i, unsigned j) { return i == j ? s : 0; }, "diagonal");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T, T lo, T hi>
void order()
{
  const auto A = any<m, n, T>("A", lo, hi), B = any<m, n, T>("B", lo, hi);
  const auto a = A.data(), b = B.data();
  bool eq = true, less = false;
  for (unsigned int i = m * n; i > 0; --i)
  {
    less = (a[i - 1] < b[i - 1]) | ((a[i - 1] == b[i - 1]) & less);
    eq &= a[i - 1] == b[i - 1];
  }
  vp_check((A == B) == eq, "equal");
  vp_check((A != B) == !eq, "not equal");
  vp_check((A < B) == less, "lexicographic order");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T, T lo, T hi>
void zero_divisors()
{
  using M = SmallMat<m, n, T>;
  const M A = any<m, n, T>("A", lo, hi), B = any<m, n, T>("B", lo, hi);
  const T s = any<1, 1, T>("s", lo, hi)[0];
  bool zero = false;
  for (unsigned int i = 0; i < m * n; ++i)
    zero |= B.data()[i] == 0;
  bool t1 = false, t2 = false, t3 = false;
  try
  {
    const M Q = hada_divi(A, B);
  }
  catch (SmallMatDivByZeroException&)
  {
    t1 = true;
  }
  try
  {
    const M Q = A / s;
  }
  catch (SmallMatDivByZeroException&)
  {
    t2 = true;
  }
  try
  {
    const M Q = s / B;
  }
  catch (SmallMatDivByZeroException&)
  {
    t3 = true;
  }
  vp_check((t1 == zero) & (t3 == zero), "zero divisors raise");
  vp_check(t2 == (s == 0), "zero scalar divisor raises");
  vp_reach("end");
}
#define X(m, n, T, lo, hi)                                                                \
  VP_CONTRACT(i_entrywise_##m##x##n##_##T) { entrywise<m, n, T, lo, hi>(); }              \
  VP_CONTRACT(i_divisions_##m##x##n##_##T) { divisions<m, n, T, lo, hi>(); }              \
  VP_CONTRACT(i_products_##m##x##n##_##T) { products<m, n, 2, T, lo, hi>(); }             \
  VP_CONTRACT(i_structure_##m##x##n##_##T) { structure<m, n, T, lo, hi>(); }              \
  VP_CONTRACT(i_order_##m##x##n##_##T) { order<m, n, T, lo, hi>(); }                      \
  VP_CONTRACT(i_zero_##m##x##n##_##T) { zero_divisors<m, n, T, lo, hi>(); }
typedef unsigned int uint;
X(1, 1, uint, 0u, 0xffffffffu)
X(3, 1, uint, 0u, 0xffffffffu)
X(2, 3, uint, 0u, 0xffffffffu)
X(3, 1, int, -1000, 1000)
X(2, 2, int, -1000, 1000)
