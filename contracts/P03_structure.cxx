// P03: storage is column-major and dense; constructors, accessors, copies and structural builders give
// exactly the entries they promise and write nothing else
#include "la.hxx"

template <unsigned int m, unsigned int n, typename T>
void construct()
{
  using M = SmallMat<m, n, T>;
  vp_check(M::n_rows() == m && M::n_cols() == n && M::size() == m * n, "dimensions reported");
  vp_check(M::dimensions()[0] == m && M::dimensions()[1] == n, "dimension pair");
  vp_check(sizeof(M) == m * n * sizeof(T), "dense storage");
  const T s = any_real<T>("s");
  M Z;
  ensure_mat(Z, [&](unsigned, unsigned) { return (T)0; }, "default is the zero matrix");
  M C(s);
  ensure_mat(C, [&](unsigned, unsigned) { return s; }, "constant matrix");
  std::array<T, m * n> a;
  for (unsigned int i = 0; i < m * n; ++i)
    a[i] = any_real<T>("a");
  const std::array<T, m * n> a0 = a;
  M A(a);
  same(A, a0, "array constructor keeps the column-major order");
  for (unsigned int i = 0; i < m * n; ++i)
    eq<T>(a[i], a0[i], "array argument unchanged");
  M A2(std::move(a));
  same(A2, a0, "array move constructor");
  std::vector<T> v(a0.begin(), a0.end());
  M B(v);
  same(B, a0, "vector constructor keeps the order");
  M Cp(A);
  same(Cp, a0, "copy constructor");
  same(A, a0, "copied-from object unchanged");
  M D;
  M& r = (D = A);
  vp_check(&r == &D, "assignment returns the object");
  same(D, a0, "copy assignment");
  same(A, a0, "assigned-from object unchanged");
  D = D;
  same(D, a0, "self assignment");
  M E(std::move(Cp));
  same(E, a0, "move constructor");
  M F(s);
  F = std::move(E);
  same(F, a0, "move assignment");
  SmallMat<m, n, double> G(A);
  for (unsigned int i = 0; i < m * n; ++i)
    eq<double>(G.data()[i], (double)a0[i], "conversion of the entry type");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void access()
{
  using M = SmallMat<m, n, T>;
  M A = any_mat<m, n, T>("A");
  const auto a0 = A.data();
  const M& Ac = A;
  const unsigned int i = vp_split32(vp_u32("i", 0, m - 1)), j = vp_split32(vp_u32("j", 0, n - 1));
  eq<T>(Ac(i, j), a0[j * m + i], "entry (i,j) is column-major entry");
  eq<T>(A(i, j), a0[j * m + i], "writable entry (i,j)");
  eq<T>(Ac[j * m + i], a0[j * m + i], "flat access");
  eq<T>(A[j * m + i], a0[j * m + i], "writable flat access");
  const T s = any_real<T>("s");
  A(i, j) = s;
  for (unsigned int k = 0; k < m * n; ++k)
    eq<T>(A.data()[k], k == j * m + i ? s : a0[k], "writing (i,j) changes entry (i,j) only");
  A[j * m + i] = a0[j * m + i];
  same(A, a0, "flat write changes that entry only");
  unsigned int k = 0;
  for (auto it = A.begin(); it != A.end(); ++it, ++k)
    eq<T>(*it, a0[k], "iteration visits entries in storage order");
  vp_check(k == m * n, "iteration visits all entries");
  const SmallVec<m, T> col = Ac.get_column(j);
  for (unsigned int l = 0; l < m; ++l)
    eq<T>(col.data()[l], a0[j * m + l], "get_column");
  const SmallVec<m, T> w = any_mat<m, 1, T>("w");
  A.set_column(j, w);
  for (unsigned int jj = 0; jj < n; ++jj)
    for (unsigned int l = 0; l < m; ++l)
      eq<T>(at(A, l, jj), jj == j ? w.data()[l] : a0[jj * m + l], "set_column changes that column only");
  same(SmallVec<m, T>(A.get_column(j)), w.data(), "get_column after set_column");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void builders()
{
  using M = SmallMat<m, n, T>;
  const T s = any_real<T>("s");
  ensure_mat(M(diagonal<m, n, T>(s)), [&](unsigned i, unsigned j) { return i == j ? s : (T)0; },
             "diagonal from a scalar");
  constexpr unsigned int rank = m < n ? m : n;
  const SmallVec<rank, T> d = any_mat<rank, 1, T>("d");
  ensure_mat(M(diagonal<m, n, T, rank>(d)), [&](unsigned i, unsigned j) { return i == j ? d.data()[i] : (T)0; },
             "diagonal from a vector");
  if constexpr (rank > 1)
  {
    const SmallVec<rank - 1, T> e = any_mat<rank - 1, 1, T>("e");
    ensure_mat(M(diagonal<m, n, T, rank - 1>(e)),
               [&](unsigned i, unsigned j) { return i == j && i < rank - 1 ? e.data()[i] : (T)0; },
               "diagonal from a shorter vector");
  }
  const SmallVec<m, T> u = any_mat<m, 1, T>("u");
  const SmallVec<n, T> w = any_mat<n, 1, T>("w");
  ensure_mat(M(rep_mat<m, n, T>(u)), [&](unsigned i, unsigned) { return u.data()[i]; }, "repeated column");
  ensure_mat(M(dyadic_product(u, w)), [&](unsigned i, unsigned j) { return u.data()[i] * w.data()[j]; },
             "dyadic product");
  const M A = any_mat<m, n, T>("A");
  const auto a0 = A.data();
  const SmallMat<n, m, T> At = transposed(A);
  ensure_mat(At, [&](unsigned i, unsigned j) { return a0[i * m + j]; }, "transposed");
  same(M(transposed(At)), a0, "transposing twice is the identity");
  same(A, a0, "operand unchanged");
  vp_reach("end");
}
template <typename T>
void cross()
{
  const SmallVec<3, T> a = any_mat<3, 1, T>("a"), b = any_mat<3, 1, T>("b");
  const auto x = a.data();
  const auto y = b.data();
  const SmallVec<3, T> c = cross_product(a, b);
  eq<T>(c.data()[0], x[1] * y[2] - x[2] * y[1], "cross product 0");
  eq<T>(c.data()[1], x[2] * y[0] - x[0] * y[2], "cross product 1");
  eq<T>(c.data()[2], x[0] * y[1] - x[1] * y[0], "cross product 2");
  const SmallVec<3, T> d = cross_product(b, a);
  for (unsigned int i = 0; i < 3; ++i)
    eq<T>(c.data()[i], -d.data()[i], "antisymmetric");
  eq<T>(scalar_product(a, c), 0, "orthogonal to the first factor");
  eq<T>(scalar_product(b, c), 0, "orthogonal to the second factor");
  same(a, x, "first factor unchanged");
  same(b, y, "second factor unchanged");
  vp_reach("end");
}
VP_CONTRACT(cross_double) { cross<double>(); }
VP_CONTRACT(cross_float) { cross<float>(); }
#define X(m, n, T)                                                       \
  VP_CONTRACT(construct_##m##x##n##_##T) { construct<m, n, T>(); }       \
  VP_CONTRACT(access_##m##x##n##_##T) { access<m, n, T>(); }             \
  VP_CONTRACT(builders_##m##x##n##_##T) { builders<m, n, T>(); }
VP_DIMS(X) VP_DIMS_LARGE(X)
