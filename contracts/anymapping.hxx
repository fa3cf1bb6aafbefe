#pragma once
#include <HyperHDG/dense_la.hxx>
#include "vp.hxx"

// an arbitrary mapping: every quantity is an uninterpreted function of the translation and the matrix it is built from
template <unsigned int d, unsigned int s, typename T>
struct AnyMapping
{
  SmallVec<s, T> t;
  SmallMat<s, d, T> m;
  SmallSquareMat<d, T> r;
  SmallSquareMat<s, T> q;
  T value(const char* what, const unsigned int i, const unsigned int j = 0) const
  {
    double a[2 + s + s * d];
    a[0] = i;
    a[1] = j;
    for (unsigned int k = 0; k < s; ++k)
      a[2 + k] = t[k];
    for (unsigned int k = 0; k < s * d; ++k)
      a[2 + s + k] = m[k];
    return vp_ufv(what, 2 + s + s * d, a);
  }
  AnyMapping() {}
  AnyMapping(const Point<s, T>& tr, const SmallMat<s, d, T>& mat) : t(tr), m(mat)
  {
    for (unsigned int i = 0; i < d; ++i)
      for (unsigned int j = 0; j < d; ++j)
        r(i, j) = value("R", i, j);
    for (unsigned int i = 0; i < s; ++i)
      for (unsigned int j = 0; j < s; ++j)
        q(i, j) = value("Q", i, j);
  }
  template <unsigned int n>
  SmallMat<s, n, T> map_reference_to_physical(const SmallMat<d, n, T>& p) const
  {
    return m * p + t;
  }
  SmallVec<s, T> matrix_column(const unsigned int i) const { return m.get_column(i); }
  const SmallSquareMat<d, T>& mat_r() const { return r; }
  const SmallSquareMat<s, T>& mat_q() const { return q; }
  T functional_determinant_hyEdge() const { return value("det", 0); }
  T functional_determinant_hyNode(const unsigned int i) const { return value("det_face", i); }
  SmallVec<d, T> local_normal(const unsigned int i) const
  {
    SmallVec<d, T> n;
    for (unsigned int j = 0; j < d; ++j)
      n[j] = value("local_normal", i, j);
    return n;
  }
  SmallVec<s, T> inner_normal(const unsigned int i) const
  {
    SmallVec<s, T> n;
    for (unsigned int j = 0; j < s; ++j)
      n[j] = value("inner_normal", i, j);
    return n;
  }
  SmallVec<s, T> outer_normal(const unsigned int i) const
  {
    SmallVec<s, T> n;
    for (unsigned int j = 0; j < s; ++j)
      n[j] = value("outer_normal", i, j);
    return n;
  }
};
