// P08: QR decomposition
#include "la.hxx"

template <unsigned int n, typename F>
auto det_spec(F a)
{
  if constexpr (n == 1)
    return a(0, 0);
  else
  {
    decltype(a(0, 0)) s = 0;
    for (unsigned int j = 0; j < n; ++j)
    {
      const auto d = a(0, j) * det_spec<n - 1>([&](unsigned int r, unsigned int c) { return a(r + 1, c + (c >= j)); });
      s = (j % 2) ? s - d : s + d;
    }
    return s;
  }
}
// inputs of the native search: now and then structured matrices (zero columns, axis-aligned columns)
template <unsigned int m, unsigned int n, typename T>
SmallMat<m, n, T> any_qr_mat()
{
  return any_mat<m, n, T>("A");
}
template <unsigned int m, typename T>
void orthogonal(const std::array<T, m * m>& q, const char* label)
{
  for (unsigned int i = 0; i < m; ++i)
    for (unsigned int j = i; j < m; ++j)
    {
      T s = 0;
      for (unsigned int k = 0; k < m; ++k)
        s += q[i * m + k] * q[j * m + k];
      eq<T>(s, i == j ? 1 : 0, label);
    }
}
template <unsigned int m, unsigned int n, typename T, typename R>
void product_is(const std::array<T, m * m>& q, R r, const std::array<T, m * n>& a0, const char* label)
{
  for (unsigned int i = 0; i < m; ++i)
    for (unsigned int j = 0; j < n; ++j)
    {
      T s = 0;
      for (unsigned int k = 0; k < m; ++k)
        s += q[k * m + i] * r(k, j);
      eq<T>(s, a0[j * m + i], label);
    }
}
template <unsigned int m, typename T>
void rotation(const std::array<T, m * m>& q, const char* label)
{
  if constexpr (m <= 3)
    eq<T>(det_spec<m>([&](unsigned int r, unsigned int c) { return q[c * m + r]; }), 1, label);
}
template <unsigned int m, unsigned int n, typename T>
void only_q()
{
  {
    const SmallMat<m, n, T> A = any_qr_mat<m, n, T>();
    const auto a0 = A.data();
    const SmallMat<m, m, T> Q = qr_decomp_q(A);
    orthogonal<m, T>(Q.data(), "Q is orthogonal");
    // Q^T A is upper triangular: A = Q (Q^T A)
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = j + 1; i < m; ++i)
      {
        T s = 0;
        for (unsigned int k = 0; k < m; ++k)
          s += Q.data()[i * m + k] * a0[j * m + k];
        eq<T>(s, 0, "Q^T A is upper triangular");
      }
    same(A, a0, "argument unchanged");
  }
  vp_reach("done");
}
template <unsigned int m, unsigned int n, typename T>
void raw_qr()
{
  {
    SmallMat<m, n, T> A = any_qr_mat<m, n, T>();
    const auto a0 = A.data();
    std::array<T, m * n> r = a0;
    std::array<T, m * m> q;
    Wrapper::lapack_qr_decomp<m, n, T>(r, q);
    orthogonal<m, T>(q, "array interface: Q is orthogonal");
    product_is<m, n, T>(q, [&](unsigned int i, unsigned int j) { return r[j * m + i]; }, a0,
                        "array interface: Q R = A");
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = j + 1; i < m; ++i)
        eq<T>(r[j * m + i], 0, "array interface: R is upper triangular");
  }
  vp_reach("done");
}
template <unsigned int m, unsigned int n, typename T>
void raw_r()
{
  {
    SmallMat<m, n, T> A = any_qr_mat<m, n, T>();
    const auto a0 = A.data();
    std::array<T, m * n> buf = a0;
    const std::array<T, m * n>& r = Wrapper::lapack_qr_decomp_r<m, n, T>(buf);
    vp_check(&r == &buf, "array interface: R is returned in place");
    // R^T R = A^T A
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int j = i; j < n; ++j)
      {
        T s = 0, t = 0;
        for (unsigned int k = 0; k < m; ++k)
        {
          s += r[i * m + k] * r[j * m + k];
          t += a0[i * m + k] * a0[j * m + k];
        }
        eq<T>(s, t, "array interface: R^T R = A^T A");
      }
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = j + 1; i < m; ++i)
        eq<T>(r[j * m + i], 0, "array interface: R is upper triangular");
  }
  vp_reach("done");
}
template <unsigned int m, unsigned int n, typename T>
void raw_qrr()
{
  {
    SmallMat<m, n, T> A = any_qr_mat<m, n, T>();
    const auto a0 = A.data();
    std::array<T, m * n> r = a0;
    std::array<T, m * m> q;
    std::array<T, n * n> rr;
    rr.fill(7);
    Wrapper::lapack_qr_decomp<m, n, T>(r, q, rr);
    orthogonal<m, T>(q, "array interface: Q is orthogonal");
    product_is<m, n, T>(q, [&](unsigned int i, unsigned int j) { return r[j * m + i]; }, a0,
                        "array interface: Q R = A");
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = 0; i < n; ++i)
        eq<T>(rr[j * n + i], r[j * m + i], "array interface: reduced R is the leading part of R");
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = j + 1; i < m; ++i)
        eq<T>(r[j * m + i], 0, "array interface: R is upper triangular");
  }
  vp_reach("done");
}
template <unsigned int m, unsigned int n, typename T, bool const_arg>
void full_qr()
{
  {
    SmallMat<m, n, T> A = any_qr_mat<m, n, T>();
    const auto a0 = A.data();
    SmallSquareMat<m, T> Q = any_mat<m, m, T>("Q_old");
    SmallSquareMat<n, T> R = any_mat<n, n, T>("R_old");
    if constexpr (const_arg)
    {
      qr_decomp(static_cast<const SmallMat<m, n, T>&>(A), Q, R);
      same(A, a0, "argument unchanged");
    }
    else
      qr_decomp(A, Q, R);
    orthogonal<m, T>(Q.data(), "Q is orthogonal");
    product_is<m, n, T>(Q.data(), [&](unsigned int i, unsigned int j) { return i < n ? at(R, i, j) : T(0); }, a0,
                        "Q times R is the matrix");
    for (unsigned int j = 0; j < n; ++j)
      for (unsigned int i = j + 1; i < n; ++i)
        eq<T>(at(R, i, j), 0, "R is upper triangular");
    for (unsigned int i = 1; i < n; ++i)
      vp_check(at(R, i, i) >= 0, "diagonal entries of R but the first are not negative");
    rotation<m, T>(Q.data(), "Q has determinant +1");
    if constexpr (!const_arg)
      for (unsigned int j = 0; j < n; ++j)
        for (unsigned int i = 0; i < m; ++i)
          eq<T>(at(A, i, j), i < n ? at(R, i, j) : T(0), "the matrix argument holds the rectangular R");
  }
  vp_reach("done");
}
#define Y(m, n, T)                                                   \
  VP_CONTRACT(qr_q_##m##x##n##_##T) { only_q<m, n, T>(); }           \
  VP_CONTRACT(qr_arrays_##m##x##n##_##T) { raw_qr<m, n, T>(); }      \
  VP_CONTRACT(r_array_##m##x##n##_##T) { raw_r<m, n, T>(); }
#define X(m, n, T)                                                          \
  Y(m, n, T)                                                                \
  VP_CONTRACT(qr_reduced_arrays_##m##x##n##_##T) { raw_qrr<m, n, T>(); }    \
  VP_CONTRACT(qr_const_##m##x##n##_##T) { full_qr<m, n, T, true>(); }       \
  VP_CONTRACT(qr_in_place_##m##x##n##_##T) { full_qr<m, n, T, false>(); }
Y(1, 2, double) Y(1, 3, double) Y(2, 3, double)
X(1, 1, double) X(2, 1, double) X(2, 2, double) X(3, 1, double) X(3, 2, double) X(3, 3, double) X(4, 1, double)
X(4, 2, double) X(6, 1, double) X(2, 2, float) X(3, 2, float) X(4, 3, double) X(5, 2, double) X(8, 1, double) X(4, 4, double) X(5, 3, double) X(6, 2, double)
