// P02: the matrix products are the algebraic products they are named after
#include "la.hxx"

template <unsigned int m, unsigned int k, unsigned int n, typename T>
void plain_product()
{
  const auto A = any_mat<m, k, T>("A");
  const auto B = any_mat<k, n, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  const SmallMat<m, n, T> C = A * B;
  ensure_mat(
    C,
    [&](unsigned i, unsigned j) {
      T s = 0;
      for (unsigned l = 0; l < k; ++l)
        s += a0[l * m + i] * b0[j * k + l];
      return s;
    },
    "A * B is the matrix product");
  same(A, a0, "left operand unchanged");
  same(B, b0, "right operand unchanged");
  vp_reach("end");
}
template <unsigned int m, unsigned int k, unsigned int n, typename T>
void transposed_product()
{
  const auto A = any_mat<k, m, T>("A");
  const auto B = any_mat<k, n, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  const SmallMat<m, n, T> C = transposed_mat_times_mat(A, B);
  ensure_mat(
    C,
    [&](unsigned i, unsigned j) {
      T s = 0;
      for (unsigned l = 0; l < k; ++l)
        s += a0[i * k + l] * b0[j * k + l];
      return s;
    },
    "transposed(A) * B");
  same(A, a0, "left operand unchanged");
  same(B, b0, "right operand unchanged");
  vp_reach("end");
}
template <unsigned int m, unsigned int k, unsigned int n, typename T>
void product_transposed()
{
  const auto A = any_mat<m, k, T>("A");
  const auto B = any_mat<n, k, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  const SmallMat<m, n, T> C = mat_times_transposed_mat(A, B);
  ensure_mat(
    C,
    [&](unsigned i, unsigned j) {
      T s = 0;
      for (unsigned l = 0; l < k; ++l)
        s += a0[l * m + i] * b0[l * n + j];
      return s;
    },
    "A * transposed(B)");
  same(A, a0, "left operand unchanged");
  same(B, b0, "right operand unchanged");
  vp_reach("end");
}
template <unsigned int m, unsigned int ka, unsigned int kb, unsigned int n, typename T>
void unfit_product()
{
  const auto A = any_mat<m, ka, T>("A");
  const auto B = any_mat<kb, n, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  const SmallMat<m, n, T> C = mat_times_mat_unfit(A, B);
  ensure_mat(
    C,
    [&](unsigned i, unsigned j) {
      T s = 0;
      for (unsigned l = 0; l < (ka < kb ? ka : kb); ++l)
        s += a0[l * m + i] * b0[j * kb + l];
      return s;
    },
    "product over the common inner indices");
  same(A, a0, "left operand unchanged");
  same(B, b0, "right operand unchanged");
  vp_reach("end");
}
// algebra of the products: (A B)^T = B^T A^T, associativity
template <unsigned int m, unsigned int k, unsigned int n, typename T>
void product_laws()
{
  const auto A = any_mat<m, k, T>("A");
  const auto B = any_mat<k, n, T>("B");
  const SmallMat<n, m, T> L = transposed(A * B), R = transposed(B) * transposed(A);
  ensure_mat(L, [&](unsigned i, unsigned j) { return at(R, i, j); }, "(A B)^T = B^T A^T");
  const SmallMat<m, n, T> P = A * B, Q = transposed_mat_times_mat(transposed(A), B);
  ensure_mat(P, [&](unsigned i, unsigned j) { return at(Q, i, j); }, "A B = (A^T)^T B");
  vp_reach("end");
}
#define X(m, k, n, T)                                                                            \
  VP_CONTRACT(times_##m##x##k##x##n##_##T) { plain_product<m, k, n, T>(); }                      \
  VP_CONTRACT(transposed_times_##m##x##k##x##n##_##T) { transposed_product<m, k, n, T>(); }      \
  VP_CONTRACT(times_transposed_##m##x##k##x##n##_##T) { product_transposed<m, k, n, T>(); }      \
  VP_CONTRACT(laws_##m##x##k##x##n##_##T) { product_laws<m, k, n, T>(); }
VP_DIMS3(X)
X(6, 7, 8, double) X(2, 17, 3, double) X(9, 1, 9, double) X(17, 2, 1, double) X(1, 6, 17, float) X(10, 10, 10, double)
#undef X
#define X(m, ka, kb, n, T) \
  VP_CONTRACT(unfit_##m##x##ka##_##kb##x##n##_##T) { unfit_product<m, ka, kb, n, T>(); }
X(1, 1, 1, 1, double)
X(2, 3, 2, 2, double)
X(2, 2, 3, 2, double)
X(3, 1, 4, 2, double)
X(1, 4, 1, 3, double)
X(3, 3, 3, 3, double)
X(4, 2, 5, 1, double)
X(2, 5, 3, 4, float)
