// P09: determinants
#include "la.hxx"

template <unsigned int n, typename F>
auto det_spec(F a)
{
  if constexpr (n == 1)
    return a(0, 0);
  else
  {
    decltype(a(0, 0)) s = 0;
    for (unsigned int j = 0; j < n; ++j)
    {
      const auto d = a(0, j) * det_spec<n - 1>([&](unsigned int r, unsigned int c) { return a(r + 1, c + (c >= j)); });
      s = (j % 2) ? s - d : s + d;
    }
    return s;
  }
}
template <unsigned int m, unsigned int n, typename T, int how>
void det()
{
  {
    SmallMat<m, n, T> A = any_mat<m, n, T>("A");
    const auto a0 = A.data();
    T d;
    if constexpr (how == 0)
    {
      d = determinant(static_cast<const SmallMat<m, n, T>&>(A));
      same(A, a0, "argument unchanged");
    }
    else if constexpr (how == 1)
      d = determinant(A);
    else
    {
      std::array<T, m * n> buf = a0;
      d = Wrapper::lapack_det<m, n, T>(buf);
    }
    if constexpr (m == n)
      eq<T>(d, det_spec<m>([&](unsigned int r, unsigned int c) { return a0[c * m + r]; }),
            "the determinant of a square matrix is the standard determinant");
    else if constexpr (m > n)
    {
      const T g = det_spec<n>([&](unsigned int r, unsigned int c) {
        T s = 0;
        for (unsigned int k = 0; k < m; ++k)
          s += a0[r * m + k] * a0[c * m + k];
        return s;
      });
      eq<T>(d * d, g, "the squared determinant of a tall matrix is its Gram determinant");
    }
  }
  vp_reach("done");
}
#define X(m, n, T)                                                        \
  VP_CONTRACT(det_const_##m##x##n##_##T) { det<m, n, T, 0>(); }           \
  VP_CONTRACT(det_in_place_##m##x##n##_##T) { det<m, n, T, 1>(); }        \
  VP_CONTRACT(det_array_##m##x##n##_##T) { det<m, n, T, 2>(); }
X(1, 1, double) X(2, 1, double) X(2, 2, double) X(3, 1, double) X(3, 2, double) X(3, 3, double) X(4, 1, double)
X(4, 2, double) X(6, 1, double) X(2, 2, float) X(3, 2, float) X(5, 2, double) X(4, 4, double) X(8, 1, double)
