// P01: entrywise arithmetic of small matrices and vectors, scalar operands and column broadcasting
#include "la.hxx"

template <unsigned int m, unsigned int n, typename T>
void compound_scalar()
{
  using M = SmallMat<m, n, T>;
  const M A = any_mat<m, n, T>("A");
  const T s = any_real<T>("s");
  {
    M X(A);
    M& r = (X += s);
    vp_check(&r == &X, "+= scalar returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) + s; }, "+= scalar entrywise");
  }
  {
    M X(A);
    M& r = (X -= s);
    vp_check(&r == &X, "-= scalar returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) - s; }, "-= scalar entrywise");
  }
  {
    M X(A);
    M& r = (X *= s);
    vp_check(&r == &X, "*= scalar returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) * s; }, "*= scalar entrywise");
  }
  for (unsigned int k = 0; k < m * n; k += m * n < 4 ? 1 : m * n - 1)
  {
    // the scalar is an entry of the matrix itself
    M X(A), Y(A), Z(A);
    X += X[k];
    ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) + A.data()[k]; }, "+= one of the entries");
    Y -= Y[k];
    ensure_mat(Y, [&](unsigned i, unsigned j) { return at(A, i, j) - A.data()[k]; }, "-= one of the entries");
    Z *= Z[k];
    ensure_mat(Z, [&](unsigned i, unsigned j) { return at(A, i, j) * A.data()[k]; }, "*= one of the entries");
  }
  ensure_mat(M(s + A), [&](unsigned i, unsigned j) { return s + at(A, i, j); }, "scalar + matrix");
  ensure_mat(M(A + s), [&](unsigned i, unsigned j) { return at(A, i, j) + s; }, "matrix + scalar");
  ensure_mat(M(s - A), [&](unsigned i, unsigned j) { return s - at(A, i, j); }, "scalar - matrix");
  ensure_mat(M(A - s), [&](unsigned i, unsigned j) { return at(A, i, j) - s; }, "matrix - scalar");
  ensure_mat(M(s * A), [&](unsigned i, unsigned j) { return s * at(A, i, j); }, "scalar * matrix");
  ensure_mat(M(A * s), [&](unsigned i, unsigned j) { return at(A, i, j) * s; }, "matrix * scalar");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void divisions()
{
  using M = SmallMat<m, n, T>;
  const M A = any_mat<m, n, T>("A");
  const T s = any_real<T>("s");
  vp_assume(s != 0);
  {
    M X(A);
    M& r = (X /= s);
    vp_check(&r == &X, "/= scalar returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) / s; }, "/= scalar entrywise");
  }
  ensure_mat(M(A / s), [&](unsigned i, unsigned j) { return at(A, i, j) / s; }, "matrix / scalar");
  {
    M X(A);
    vp_assume(X[m * n - 1] != 0);
    M Y(A);
    Y /= Y[m * n - 1];
    ensure_mat(Y, [&](unsigned i, unsigned j) { return at(A, i, j) / A.data()[m * n - 1]; }, "/= one of the entries");
    if (X[0] != 0)
    {
      X /= X[0];
      ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) / A.data()[0]; }, "/= the first entry");
    }
  }
  M B = any_mat<m, n, T>("B");
  for (unsigned i = 0; i < m * n; ++i)
    vp_assume(B.data()[i] != 0);
  const M Bc(B);
  ensure_mat(M(s / Bc), [&](unsigned i, unsigned j) { return s / at(Bc, i, j); }, "scalar / matrix");
  ensure_mat(M(hada_divi(A, Bc)), [&](unsigned i, unsigned j) { return at(A, i, j) / at(Bc, i, j); },
             "entrywise quotient");
  {
    M X(A);
    M& r = (X /= Bc);
    vp_check(&r == &X, "/= matrix returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return at(A, i, j) / at(Bc, i, j); }, "/= matrix entrywise");
  }
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void matmat()
{
  using M = SmallMat<m, n, T>;
  const M A = any_mat<m, n, T>("A"), B = any_mat<m, n, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  ensure_mat(M(A + B), [&](unsigned i, unsigned j) { return a0[j * m + i] + b0[j * m + i]; }, "matrix + matrix");
  ensure_mat(M(A - B), [&](unsigned i, unsigned j) { return a0[j * m + i] - b0[j * m + i]; }, "matrix - matrix");
  ensure_mat(M(hada_prod(A, B)), [&](unsigned i, unsigned j) { return a0[j * m + i] * b0[j * m + i]; },
             "entrywise product");
  same(A, a0, "left operand unchanged");
  same(B, b0, "right operand unchanged");
  {
    M X(A);
    M& r = (X += B);
    vp_check(&r == &X, "+= matrix returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return a0[j * m + i] + b0[j * m + i]; }, "+= matrix");
  }
  {
    M X(A);
    M& r = (X -= B);
    vp_check(&r == &X, "-= matrix returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return a0[j * m + i] - b0[j * m + i]; }, "-= matrix");
  }
  {
    M X(A);
    M& r = (X *= B);
    vp_check(&r == &X, "*= matrix returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return a0[j * m + i] * b0[j * m + i]; }, "*= matrix (entrywise)");
  }
  {
    // aliasing: both operands are the same object
    M X(A);
    X += X;
    ensure_mat(X, [&](unsigned i, unsigned j) { return a0[j * m + i] + a0[j * m + i]; }, "X += X");
    M Y(A);
    Y -= Y;
    ensure_mat(Y, [&](unsigned, unsigned) { return (T)0; }, "Y -= Y");
    M Z(A);
    Z *= Z;
    ensure_mat(Z, [&](unsigned i, unsigned j) { return a0[j * m + i] * a0[j * m + i]; }, "Z *= Z");
  }
  same(B, b0, "operand of compound assignment unchanged");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void broadcast()
{
  using M = SmallMat<m, n, T>;
  const M A = any_mat<m, n, T>("A");
  const SmallVec<m, T> v = any_mat<m, 1, T>("v");
  const auto a0 = A.data();
  const auto v0 = v.data();
  ensure_mat(M(A + v), [&](unsigned i, unsigned j) { return a0[j * m + i] + v0[i]; }, "matrix + column vector");
  ensure_mat(M(v + A), [&](unsigned i, unsigned j) { return v0[i] + a0[j * m + i]; }, "column vector + matrix");
  ensure_mat(M(A - v), [&](unsigned i, unsigned j) { return a0[j * m + i] - v0[i]; }, "matrix - column vector");
  ensure_mat(M(v - A), [&](unsigned i, unsigned j) { return v0[i] - a0[j * m + i]; }, "column vector - matrix");
  {
    M X(A);
    M& r = (X += v);
    vp_check(&r == &X, "+= column vector returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return a0[j * m + i] + v0[i]; }, "+= column vector");
  }
  {
    M X(A);
    M& r = (X -= v);
    vp_check(&r == &X, "-= column vector returns the object");
    ensure_mat(X, [&](unsigned i, unsigned j) { return a0[j * m + i] - v0[i]; }, "-= column vector");
  }
  same(A, a0, "matrix operand unchanged");
  same(v, v0, "vector operand unchanged");
  vp_reach("end");
}
#define X(m, n, T)                                                                         \
  VP_CONTRACT(scalar_##m##x##n##_##T) { compound_scalar<m, n, T>(); }                      \
  VP_CONTRACT(division_##m##x##n##_##T) { divisions<m, n, T>(); }                          \
  VP_CONTRACT(matmat_##m##x##n##_##T) { matmat<m, n, T>(); }                               \
  VP_CONTRACT(broadcast_##m##x##n##_##T) { broadcast<m, n, T>(); }
VP_DIMS(X) VP_DIMS_LARGE(X)
