// P05: scalar product, norms and the product of entries are what their names say
#include "la.hxx"

template <typename T>
T mag(const T x)
{
  return std::fabs(x);
}
template <unsigned int m, unsigned int n, typename T>
void reductions()
{
  const auto A = any_mat<m, n, T>("A"), B = any_mat<m, n, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  T s = 0, p = 1;
  for (unsigned int i = 0; i < m * n; ++i)
  {
    s += a0[i] * b0[i];
    p *= a0[i];
  }
  eq<T>(scalar_product(A, B), s, "scalar product");
  eq<T>(scalar_product(B, A), s, "scalar product is symmetric");
  eq<T>(entries_product(A), p, "product of all entries");
  same(A, a0, "operand unchanged");
  same(B, b0, "second operand unchanged");
  vp_reach("end");
}
// x is the maximum of v[0..k): an upper bound that is attained
template <typename T, std::size_t k>
void is_max(const T x, const std::array<T, k>& v, const char* bound, const char* attained)
{
  bool hit = false;
  for (unsigned int i = 0; i < k; ++i)
  {
    vp_check(vp_symbolic() ? v[i] <= x : v[i] <= x + 1e-3 * (1 + x), bound);
    hit = hit | (vp_symbolic() ? v[i] == x : mag(v[i] - x) <= 1e-3 * (1 + x));
  }
  vp_check(hit, attained);
}
template <unsigned int m, unsigned int n, typename T>
void norms()
{
  const auto A = any_mat<m, n, T>("A");
  const auto a0 = A.data();
  if constexpr (n == 1)
  {
    T s1 = 0, s2 = 0;
    std::array<T, m> abs;
    for (unsigned int i = 0; i < m; ++i)
    {
      abs[i] = mag(a0[i]);
      s1 += abs[i];
      s2 += a0[i] * a0[i];
    }
    eq<T>(norm_1(A), s1, "1-norm of a vector");
    const T n2 = norm_2(A);
    vp_check(n2 >= 0, "2-norm is non-negative");
    eq<T>(n2 * n2, s2, "2-norm squared is the sum of squares");
    is_max<T, m>(norm_infty(A), abs, "infinity norm bounds the entries", "infinity norm is attained");
  }
  else
  {
    std::array<T, n> cs;
    std::array<T, m> rs;
    cs.fill(0);
    rs.fill(0);
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = 0; i < m; ++i)
      {
        cs[j] += mag(a0[j * m + i]);
        rs[i] += mag(a0[j * m + i]);
      }
    is_max<T, n>(norm_1(A), cs, "1-norm bounds the column sums", "1-norm is a column sum");
    is_max<T, m>(norm_infty(A), rs, "infinity norm bounds the row sums", "infinity norm is a row sum");
  }
  same(A, a0, "operand unchanged");
  vp_reach("end");
}
template <unsigned int m, typename T>
void norm_p_contract()
{
  const auto A = any_mat<m, 1, T>("A");
  const auto a0 = A.data();
  T s = 0, s1 = 0, s4 = 0;
  for (unsigned int i = 0; i < m; ++i)
  {
    s1 += mag(a0[i]);
    s += a0[i] * a0[i];
    s4 += a0[i] * a0[i] * a0[i] * a0[i];
  }
  eq<T>(norm_p(A, (T)1.), s1, "p = 1 gives the 1-norm");
  const T n2 = norm_p(A, (T)2.);
  eq<T>(n2 * n2, s, "p = 2 gives the 2-norm");
  vp_check(n2 >= 0, "p = 2: non-negative");
  const T p = any_real<T>("p");
  vp_assume(p >= 1);
  vp_assume(p <= 8);
  T sp = 0;
  for (unsigned int i = 0; i < m; ++i)
    sp += std::pow(std::abs(a0[i]), p);
  eq<T>(norm_p(A, p), std::pow(sp, (T)(1. / p)), "p-norm formula");
  same(A, a0, "operand unchanged");
  vp_reach("end");
}
#define X(m, n, T)                                                         \
  VP_CONTRACT(reductions_##m##x##n##_##T) { reductions<m, n, T>(); }
VP_DIMS(X) VP_DIMS_LARGE(X)
#undef X
#define X(m, n, T) VP_CONTRACT(norms_##m##x##n##_##T) { norms<m, n, T>(); }
X(1, 1, double) X(2, 1, double) X(3, 1, double) X(4, 1, double) X(5, 1, double) X(1, 2, double) X(2, 2, double)
X(2, 3, double) X(3, 2, double) X(3, 3, double) X(1, 4, double) X(2, 1, float) X(3, 2, float) X(9, 1, double) X(4, 5, double)
#undef X
#define X(m, T) VP_CONTRACT(norm_p_##m##_##T) { norm_p_contract<m, T>(); }
X(1, double) X(2, double) X(3, double) X(4, double) X(9, double) X(17, double) X(3, float)
