// P10: affine mapping of the reference hyperedge
#include "la.hxx"
#include <HyperHDG/mapping/linear.hxx>

template <unsigned int n, typename F>
auto det_spec(F a)
{
  if constexpr (n == 1)
    return a(0, 0);
  else
  {
    decltype(a(0, 0)) s = 0;
    for (unsigned int j = 0; j < n; ++j)
    {
      const auto d = a(0, j) * det_spec<n - 1>([&](unsigned int r, unsigned int c) { return a(r + 1, c + (c >= j)); });
      s = (j % 2) ? s - d : s + d;
    }
    return s;
  }
}
// Gram determinant of the columns of the s x d matrix a, leaving out column skip
template <unsigned int s, unsigned int d, unsigned int k, typename T>
T gram(const std::array<T, s * d>& a, unsigned int skip)
{
  if constexpr (k == 0)
    return 1;
  else
    return det_spec<k>([&](unsigned int r, unsigned int c) {
      const unsigned int rr = r + (r >= skip), cc = c + (c >= skip);
      T sum = 0;
      for (unsigned int l = 0; l < s; ++l)
        sum += a[rr * s + l] * a[cc * s + l];
      return sum;
    });
}
template <unsigned int d, unsigned int s, typename T>
struct Setup
{
  const Point<s, T> t;
  const SmallMat<s, d, T> M;
  const std::array<T, s * d> m0;
  const std::array<T, s> t0;
  const Mapping::Linear<d, s, T> map;
  Setup() : t(any_mat<s, 1, T>("t")), M(any_mat<s, d, T>("M")), m0(M.data()), t0(t.data()), map(t, M) {}
};
template <unsigned int d, unsigned int s, typename T>
void accessors()
{
  {
    Setup<d, s, T> S;
    vp_check(S.map.hyEdge_dim() == d && S.map.space_dim() == s, "dimensions");
    ensure_mat(S.map.matrix(), [&](unsigned i, unsigned j) { return S.m0[j * s + i]; }, "matrix is stored as given");
    ensure_mat(S.map.translation(), [&](unsigned i, unsigned) { return S.t0[i]; }, "translation is stored as given");
    for (unsigned c = 0; c < d; ++c)
      ensure_mat(S.map.matrix_column(c), [&](unsigned i, unsigned) { return S.m0[c * s + i]; }, "matrix column");
    // the stored factors
    const auto& Q = S.map.mat_q();
    const auto& R = S.map.mat_r();
    for (unsigned i = 0; i < s; ++i)
      for (unsigned j = 0; j < d; ++j)
      {
        T sum = 0;
        for (unsigned k = 0; k < d; ++k)
          sum += at(Q, i, k) * at(R, k, j);
        eq<T>(sum, S.m0[j * s + i], "stored factors reproduce the matrix");
      }
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int s, unsigned int n, typename T>
void forward()
{
  {
    Setup<d, s, T> S;
    const SmallMat<d, n, T> p = any_mat<d, n, T>("p");
    const SmallMat<s, n, T> y = S.map.map_reference_to_physical(p);
    ensure_mat(
      y,
      [&](unsigned i, unsigned j) {
        T sum = S.t0[i];
        for (unsigned k = 0; k < d; ++k)
          sum += S.m0[k * s + i] * at(p, k, j);
        return sum;
      },
      "reference to physical is A x + b");
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int n, typename T>
void backward()
{
  try
  {
    Setup<d, d, T> S;
    const SmallMat<d, n, T> y = any_mat<d, n, T>("y");
    const SmallMat<d, n, T> p = S.map.map_physical_to_reference(y);
    T scale = 1;
    if (!vp_symbolic())
      for (unsigned i = 0; i < d * n; ++i)
        scale += std::fabs(p.data()[i]);
    ensure_mat(
      y,
      [&](unsigned i, unsigned j) {
        T sum = S.t0[i];
        for (unsigned k = 0; k < d; ++k)
          sum += S.m0[k * d + i] * at(p, k, j);
        if (!vp_symbolic() && std::fabs(sum - at(y, i, j)) < 1e-5 * scale)
          return at(y, i, j);
        return sum;
      },
      "physical to reference inverts A x + b");
    vp_reach("solved");
  }
  catch (const Wrapper::LAPACKexception&)
  {
    vp_reach("singular");
  }
}
template <unsigned int d, unsigned int s, typename T>
void dets()
{
  {
    Setup<d, s, T> S;
    const T v = S.map.functional_determinant_hyEdge();
    if constexpr (d == s)
      eq<T>(v, det_spec<d>([&](unsigned r, unsigned c) { return S.m0[c * s + r]; }),
            "hyperedge functional determinant is the determinant of the matrix");
    else
      eq<T>(v * v, gram<s, d, d, T>(S.m0, d), "squared hyperedge functional determinant is the Gram determinant");
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int s, typename T, unsigned int f>
void face_dets()
{
  {
    Setup<d, s, T> S;
    {
      const T v = S.map.functional_determinant_hyNode(f);
      eq<T>(v * v, gram<s, d, d - 1, T>(S.m0, f), "squared hypernode functional determinant is the face's Gram determinant");
    }
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int s, typename T, unsigned int idx>
void local_normals()
{
  {
    Setup<d, s, T> S;
    const auto& R = S.map.mat_r();
    vp_assume(at(R, 0, 0) != 0);
    if constexpr (d > 1)
      vp_assume(at(R, 1, 1) != 0);
    if constexpr (d > 2)
      vp_assume(at(R, 2, 2) != 0);
    const unsigned i = idx;
    SmallVec<d, T> n;
    bool ok = true;
    try
    {
      n = S.map.local_normal(i);
    }
    catch (...)
    {
      ok = false;
    }
    if (ok)
    {
      T len = 0, in = 0;
      for (unsigned k = 0; k < d; ++k)
      {
        len += n.data()[k] * n.data()[k];
        in += n.data()[k] * at(R, k, i);
      }
      eq<T>(len, 1, "local normal has unit length");
      for (unsigned j = 0; j < d; ++j)
        if (j != i)
        {
          T s2 = 0;
          for (unsigned k = 0; k < d; ++k)
            s2 += n.data()[k] * at(R, k, j);
          eq<T>(s2, 0, "local normal is orthogonal to the face");
        }
      vp_check(in < 0, "local normal points away from the hyperedge");
    }
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int s, typename T>
void normals()
{
  {
    Setup<d, s, T> S;
    for (unsigned i = 0; i < d; ++i)
    {
      const SmallVec<s, T> n = S.map.inner_normal(i);
      ensure_mat(n, [&](unsigned k, unsigned) { return at(S.map.mat_q(), k, i); }, "inner normal is a column of Q");
    }
    for (unsigned i = 0; i + d < s; ++i)
    {
      const SmallVec<s, T> n = S.map.outer_normal(i);
      T len = 0;
      for (unsigned k = 0; k < s; ++k)
        len += n.data()[k] * n.data()[k];
      eq<T>(len, 1, "outer normal has unit length");
      for (unsigned j = 0; j < d; ++j)
      {
        T dot = 0;
        for (unsigned k = 0; k < s; ++k)
          dot += n.data()[k] * S.m0[j * s + k];
        eq<T>(dot, 0, "outer normal is orthogonal to the hyperedge");
      }
      for (unsigned j = 0; j < i; ++j)
      {
        const SmallVec<s, T> n2 = S.map.outer_normal(j);
        T dot = 0;
        for (unsigned k = 0; k < s; ++k)
          dot += n.data()[k] * n2.data()[k];
        eq<T>(dot, 0, "outer normals are mutually orthogonal");
      }
    }
  }
  vp_reach("done");
}
#ifdef VP_FACES
// callee contract (P08, weakened to its frame): the decomposition of a constant matrix changes the two
// results only; the two results are arbitrary here
#ifndef VP_NATIVE
#define C(m, n)                                                                                                   \
  extern "C" void vpc___Z9qr_decompILj##m##ELj##n##EdEvRK8SmallMatIXT_EXT0_ET1_ERS0_IXT_EXT_ES1_ERS0_IXT0_EXT0_ES1_E( \
    const SmallMat<m, n, double>&, SmallSquareMat<m, double>& Q, SmallSquareMat<n, double>& R)                    \
  {                                                                                                               \
    Q = any_mat<m, m, double>("Q");                                                                               \
    R = any_mat<n, n, double>("R");                                                                               \
  }
C(1, 1) C(2, 1) C(3, 1) C(2, 2) C(3, 2) C(3, 3)
#endif
#define F(d, s, f) \
  VP_CONTRACT(mapping_face_det_##d##_##s##_##f) { face_dets<d, s, double, f>(); }
F(1, 1, 0) F(1, 2, 0) F(1, 3, 0) F(2, 2, 0) F(2, 2, 1) F(2, 3, 0) F(2, 3, 1) F(3, 3, 0) F(3, 3, 1) F(3, 3, 2)
#else
#define X(d, s)                                                                   \
  VP_CONTRACT(mapping_accessors_##d##_##s) { accessors<d, s, double>(); }         \
  VP_CONTRACT(mapping_forward1_##d##_##s) { forward<d, s, 1, double>(); }         \
  VP_CONTRACT(mapping_forward3_##d##_##s) { forward<d, s, 3, double>(); }         \
  VP_CONTRACT(mapping_det_##d##_##s) { dets<d, s, double>(); }                    \
  VP_CONTRACT(mapping_local_normal_##d##_##s##_0) { local_normals<d, s, double, 0>(); }  \
  VP_CONTRACT(mapping_local_normal_##d##_##s##_1) { local_normals<d, s, double, d - 1>(); }  \
  VP_CONTRACT(mapping_normals_##d##_##s) { normals<d, s, double>(); }
X(1, 1) X(1, 2) X(1, 3) X(2, 2) X(2, 3) X(3, 3)
VP_CONTRACT(mapping_local_normal_3_3_mid) { local_normals<3, 3, double, 1>(); }
VP_CONTRACT(mapping_forward_float) { forward<2, 3, 2, float>(); }
VP_CONTRACT(mapping_backward_1_1) { backward<1, 1, double>(); }
VP_CONTRACT(mapping_backward_1_3) { backward<1, 3, double>(); }
VP_CONTRACT(mapping_backward_2_1) { backward<2, 1, double>(); }
VP_CONTRACT(mapping_backward_2_2) { backward<2, 2, double>(); }
VP_CONTRACT(mapping_backward_3_1) { backward<3, 1, double>(); }
VP_CONTRACT(mapping_backward_3_2) { backward<3, 2, double>(); }
#endif
