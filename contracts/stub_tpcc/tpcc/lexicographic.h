// Stand-in for the submodule TPCC (tensor product chain complexes), which is not part of this checkout.  It states,
// in executable form, the contract that HyperHDG assumes of it: the k-dimensional elements of a lattice of n_0 x ... x
// n_{n-1} cells are given by k ascending directions along the element and integer coordinates; facet 2 * j + i fixes the
// j-th of these directions at its lower (i = 0) or upper (i = 1) end; elements are numbered consecutively from zero.
// A complex whose first size is `abstract_size` is an arbitrary complex: its elements are arbitrary (pairwise different)
// lattice elements and the numbering is an arbitrary injective one (uninterpreted functions).
#pragma once
#include <array>
#include <cstdint>

namespace TPCC
{
template <typename T>
constexpr T binomial(const T n, const T k)
{
  T r = 1;
  for (T i = 0; i < k; ++i)
    r = r * (n - i) / (i + 1);
  return r;
}
enum class boundaries
{
  none,
  lower,
  upper,
  both
};
static constexpr unsigned int abstract_size = 0xabcd;

template <int n, int k, typename Sint, typename Tint>
struct Element
{
  static constexpr unsigned int n_val = n;
  static constexpr unsigned int k_val = k;
  unsigned int mask = 0;    // directions along the element
  std::array<Sint, n> c{};  // coordinates
  static constexpr unsigned int n_facets() { return 2 * k; }
  unsigned int along_direction(const unsigned int i) const
  {
    unsigned int m = i;
    for (unsigned int j = 0; j < n; ++j)
      if (mask & (1u << j))
      {
        if (m == 0)
          return j;
        --m;
      }
    return n;
  }
  unsigned int across_direction(const unsigned int i) const
  {
    unsigned int m = i;
    for (unsigned int j = 0; j < n; ++j)
      if (!(mask & (1u << j)))
      {
        if (m == 0)
          return j;
        --m;
      }
    return n;
  }
  Sint along_coordinate(const unsigned int i) const { return c[along_direction(i)]; }
  Sint across_coordinate(const unsigned int i) const { return c[across_direction(i)]; }
  unsigned int direction_index() const
  {
    unsigned int r = 0;
    for (unsigned int m = 0; m < mask; ++m)
      if (__builtin_popcount(m) == k)
        ++r;
    return r;
  }
  Element<n, k - 1, Sint, Tint> facet(const unsigned int i) const
  {
    Element<n, k - 1, Sint, Tint> f;
    const unsigned int d = along_direction(i / 2);
    f.mask = mask & ~(1u << d);
    f.c = c;
    f.c[d] += i % 2;
    return f;
  }
};

template <int n, int k, boundaries bnd, typename Bint, typename Sint, typename Tint>
struct Lexicographic
{
  std::array<Bint, n> sizes{};
  Lexicographic() {}
  Lexicographic(const std::array<Bint, n>& s) : sizes(s) {}
  bool is_abstract() const { return n > 0 && sizes[0] == abstract_size; }
  Bint range(const unsigned int mask, const unsigned int j) const
  {
    return mask & (1u << j) ? sizes[j] : bnd == boundaries::both ? sizes[j] + 1 : bnd == boundaries::none ? sizes[j] - 1 : sizes[j];
  }
  static constexpr unsigned int first() { return bnd == boundaries::both || bnd == boundaries::lower ? 0 : 1; }
  Bint block(const unsigned int mask) const
  {
    Bint r = 1;
    for (unsigned int j = 0; j < n; ++j)
      r *= range(mask, j);
    return r;
  }
  Bint size() const
  {
#ifdef VP_TPCC_ABSTRACT
    if (is_abstract())
      return vp_tpcc_size(k);
#endif
    Bint r = 0;
    for (unsigned int m = 0; m < (1u << n); ++m)
      if (__builtin_popcount(m) == k)
        r += block(m);
    return r;
  }
  Element<n, k, Sint, Tint> operator[](Bint index) const
  {
    Element<n, k, Sint, Tint> e;
#ifdef VP_TPCC_ABSTRACT
    if (is_abstract())
    {
      vp_tpcc_element(n, k, index, e.mask, e.c.data());
      return e;
    }
#endif
    unsigned int m = 0;
    for (;; ++m)
      if (__builtin_popcount(m) == k)
      {
        const Bint b = block(m);
        if (index < b)
          break;
        index -= b;
      }
    e.mask = m;
    for (unsigned int j = 0; j < n; ++j)
    {
      const Bint r = range(m, j);
      e.c[j] = index % r + (m & (1u << j) ? 0 : first());
      index /= r;
    }
    return e;
  }
  Bint index(const Element<n, k, Sint, Tint>& e) const
  {
#ifdef VP_TPCC_ABSTRACT
    if (is_abstract())
      return vp_tpcc_index(n, k, e.mask, e.c.data());
#endif
    Bint r = 0;
    for (unsigned int m = 0; m < e.mask; ++m)
      if (__builtin_popcount(m) == k)
        r += block(m);
    Bint s = 1;
    for (unsigned int j = 0; j < n; ++j)
    {
      r += s * (e.c[j] - (e.mask & (1u << j) ? 0 : first()));
      s *= range(e.mask, j);
    }
    return r;
  }
  // number of the element among those with the same directions and the same coordinates across
  Bint index_in_slice(const Element<n, k, Sint, Tint>& e) const
  {
    Bint r = 0, s = 1;
    for (unsigned int j = 0; j < n; ++j)
      if (e.mask & (1u << j))
      {
        r += s * e.c[j];
        s *= sizes[j];
      }
    return r;
  }
  template <boundaries b>
  Lexicographic<n, k - 1, b, Bint, Sint, Tint> boundary() const
  {
    return Lexicographic<n, k - 1, b, Bint, Sint, Tint>(sizes);
  }
};
}  // namespace TPCC
