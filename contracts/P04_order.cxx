// P04: equality is entrywise; < is the strict lexicographic order of the storage
#include "la.hxx"

template <unsigned int m, unsigned int n, typename T>
bool spec_eq(const SmallMat<m, n, T>& a, const SmallMat<m, n, T>& b)
{
  bool r = true;
  for (unsigned int i = 0; i < m * n; ++i)
    r = r & (a.data()[i] == b.data()[i]);
  return r;
}
template <unsigned int m, unsigned int n, typename T>
bool spec_lt(const SmallMat<m, n, T>& a, const SmallMat<m, n, T>& b)
{
  bool r = false, prefix = true;
  for (unsigned int i = 0; i < m * n; ++i)
  {
    r = r | (prefix & (a.data()[i] < b.data()[i]));
    prefix = prefix & (a.data()[i] == b.data()[i]);
  }
  return r;
}
template <unsigned int m, unsigned int n, typename T>
void relations()
{
  const auto A = any_mat<m, n, T>("A"), B = any_mat<m, n, T>("B");
  const auto a0 = A.data();
  const auto b0 = B.data();
  const bool e = A == B, d = A != B, l = A < B;
  vp_check(e == spec_eq(A, B), "== iff all entries are equal");
  vp_check(d == !spec_eq(A, B), "!= is the negation of ==");
  vp_check(l == spec_lt(A, B), "< is lexicographic");
  vp_check(A == A, "== is reflexive");
  vp_check(!(A != A), "!= is irreflexive");
  vp_check(!(A < A), "< is irreflexive");
  same(A, a0, "left operand unchanged");
  same(B, b0, "right operand unchanged");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void order_laws()
{
  const auto A = any_mat<m, n, T>("A"), B = any_mat<m, n, T>("B");
  vp_check(((int)(A < B) + (int)(B < A) + (int)(A == B)) == 1, "trichotomy");
  vp_reach("end");
}
template <unsigned int m, unsigned int n, typename T>
void transitive()
{
  const auto A = any_mat<m, n, T>("A"), B = any_mat<m, n, T>("B"), C = any_mat<m, n, T>("C");
  if (A < B)
    if (B < C)
      vp_check(A < C, "transitive");
  vp_reach("end");
}
#define X(m, n, T) VP_CONTRACT(relations_##m##x##n##_##T) { relations<m, n, T>(); }
VP_DIMS(X) VP_DIMS_LARGE(X)
#undef X
#define X(m, n, T)                                                       \
  VP_CONTRACT(trichotomy_##m##x##n##_##T) { order_laws<m, n, T>(); }     \
  VP_CONTRACT(transitive_##m##x##n##_##T) { transitive<m, n, T>(); }
X(1, 1, double)
X(2, 1, double)
X(3, 1, double)
X(2, 2, double)
X(3, 1, float)
