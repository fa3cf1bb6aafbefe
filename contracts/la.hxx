// helpers shared by the dense linear algebra contracts
#pragma once
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>

template <typename T>
inline void eq(const T a, const T b, const char* label)
{
  if constexpr (sizeof(T) == 4)
    vp_check_eqf(a, b, label);
  else
    vp_check_eq(a, b, label);
}
template <typename T>
inline T any_real(const char* name)
{
  return (T)vp_real(name);
}
// arbitrary matrix
template <unsigned int m, unsigned int n, typename T>
SmallMat<m, n, T> any_mat(const char* name)
{
  std::array<T, m * n> a;
  for (unsigned int i = 0; i < m * n; ++i)
    a[i] = (T)vp_real(name);
  return SmallMat<m, n, T>(a);
}
// the abstract view of a matrix: entry (i,j) read from the raw column-major storage
template <unsigned int m, unsigned int n, typename T>
T at(const SmallMat<m, n, T>& A, unsigned int i, unsigned int j)
{
  return A.data()[j * m + i];
}
// A is exactly what it was when the snapshot was taken
template <unsigned int m, unsigned int n, typename T>
void same(const SmallMat<m, n, T>& A, const std::array<T, m * n>& old, const char* label)
{
  for (unsigned int i = 0; i < m * n; ++i)
    eq<T>(A.data()[i], old[i], label);
}
template <unsigned int m, unsigned int n, typename T, typename F>
void ensure_mat(const SmallMat<m, n, T>& A, F spec, const char* label)
{
  for (unsigned int j = 0; j < n; ++j)
    for (unsigned int i = 0; i < m; ++i)
      eq<T>(at(A, i, j), (T)spec(i, j), label);
}
#define VP_DIMS_LARGE(X) X(17, 1, double) X(1, 17, double) X(8, 9, double) X(7, 5, float) X(12, 3, double)
#define VP_DIMS(X) \
  X(1, 1, double) \
  X(1, 2, double) \
  X(1, 3, double) \
  X(1, 4, double) \
  X(1, 5, double) \
  X(2, 1, double) \
  X(2, 2, double) \
  X(2, 3, double) \
  X(2, 4, double) \
  X(2, 5, double) \
  X(3, 1, double) \
  X(3, 2, double) \
  X(3, 3, double) \
  X(3, 4, double) \
  X(3, 5, double) \
  X(4, 1, double) \
  X(4, 2, double) \
  X(4, 3, double) \
  X(4, 4, double) \
  X(4, 5, double) \
  X(5, 1, double) \
  X(5, 2, double) \
  X(5, 3, double) \
  X(5, 4, double) \
  X(5, 5, double) \
  X(6, 1, double) \
  X(1, 6, double) \
  X(6, 6, double) \
  X(2, 7, double) \
  X(8, 2, double) \
  X(1, 1, float) \
  X(2, 2, float) \
  X(3, 1, float) \
  X(3, 2, float) \
  X(2, 4, float)
// (m, k, n): products of an m x k and a k x n matrix
#define VP_DIMS3(X) \
  X(1, 1, 1, double) \
  X(1, 2, 3, double) \
  X(2, 1, 2, double) \
  X(2, 2, 2, double) \
  X(2, 3, 1, double) \
  X(3, 1, 1, double) \
  X(3, 2, 4, double) \
  X(2, 4, 3, double) \
  X(4, 3, 2, double) \
  X(3, 3, 3, double) \
  X(1, 5, 1, double) \
  X(5, 1, 5, double) \
  X(4, 4, 4, double) \
  X(6, 2, 3, double) \
  X(2, 6, 5, double) \
  X(2, 3, 2, float) \
  X(1, 3, 3, float)
