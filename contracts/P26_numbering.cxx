// P26, second unit: numbering of the hypernodes for lattices of every size and arbitrary numberings of the coarse lattice's
// elements (the contract of TPCC only: numberings are injective)
#include "vp.hxx"
static uint32_t n_coarse_cells, n_coarse_faces;
struct Asked
{
  uint32_t index;
  unsigned int k, mask, c[3];
};
static Asked asked[64];
static unsigned int n_asked;
static bool same(const Asked& a, const Asked& b, const unsigned int n)
{
  bool r = a.mask == b.mask;
  for (unsigned int j = 0; j < n; ++j)
    r &= a.c[j] == b.c[j];
  return r;
}
static uint32_t vp_tpcc_size(const unsigned int);
static void vp_tpcc_element(const unsigned int n, const unsigned int k, const uint32_t index, unsigned int& mask, unsigned int* c)
{
  Asked& a = asked[n_asked];
  a.index = index;
  a.k = k;
  uint32_t pick = vp_u32("directions", 0, 2);
  unsigned int count = 0;
  for (unsigned int m = 0; m < (1u << n); ++m)
    if ((unsigned int)__builtin_popcount(m) == k)
      ++count;
  vp_assume(pick < count);
  pick = vp_split32(pick);
  for (unsigned int m = 0; m < (1u << n); ++m)
    if ((unsigned int)__builtin_popcount(m) == k && pick-- == 0)
      mask = m;
  a.mask = mask;
  for (unsigned int j = 0; j < n; ++j)
    a.c[j] = c[j] = vp_u32("coordinate", 0, 50000);
  for (unsigned int i = 0; i < n_asked; ++i)
    if (asked[i].k == k)
      vp_assume((asked[i].index == index) == same(asked[i], a, n));
  ++n_asked;
}
static uint32_t vp_tpcc_index(const unsigned int n, const unsigned int k, const unsigned int mask, const unsigned int* c)
{
  Asked& a = asked[n_asked];
  a.index = vp_u32("number", 0, 50000);
  vp_assume(a.index < vp_tpcc_size(k));
  a.k = k;
  a.mask = mask;
  for (unsigned int j = 0; j < n; ++j)
    a.c[j] = c[j];
  for (unsigned int i = 0; i < n_asked; ++i)
    if (asked[i].k == k)
      vp_assume((asked[i].index == a.index) == same(asked[i], a, n));
  ++n_asked;
  return a.index;
}
#define VP_TPCC_ABSTRACT
#include <HyperHDG/topology/cubic.hxx>
static unsigned int cell_dim;
static uint32_t vp_tpcc_size(const unsigned int k)
{
  return k == cell_dim ? n_coarse_cells : n_coarse_faces;
}

template <unsigned int d, unsigned int s, unsigned int r>
void numbering()
{
  {
    constexpr unsigned int n_ref = Hypercube<d>::pow(r), n_face = Hypercube<d - 1>::pow(r), n_in = d * (r - 1) * n_face;
    cell_dim = d;
    n_coarse_cells = vp_u32("cells", 1, 50000);
    n_coarse_faces = vp_u32("faces", 1, 50000);
    n_asked = 0;
    SmallVec<s, unsigned int> v(TPCC::abstract_size);
    Topology::Cubic<d, s> t(v);
    if (r != 1)
      t.set_refinement(r);
    vp_check(t.n_hyEdges() == n_ref * n_coarse_cells, "number of hyperedges");
    vp_check(t.n_hyNodes() == n_face * n_coarse_faces + n_in * n_coarse_cells, "number of hypernodes");
    // two arbitrary hyperedges
    uint32_t coarse[2], ref[2];
    SmallVec<2 * d, unsigned int> nodes[2];
    unsigned int from[2];
    for (unsigned int i = 0; i < 2; ++i)
    {
      coarse[i] = vp_u32("coarse", 0, 49999);
      vp_assume(coarse[i] < n_coarse_cells);
      ref[i] = vp_u32("ref", 0, n_ref - 1);
#ifndef VP_THOROUGH
      if (i == 0)
        vp_assume(ref[i] == 0 || ref[i] == n_ref - 1 || ref[i] == n_ref / 2);
#endif
      ref[i] = vp_split32(ref[i]);
      from[i] = n_asked;
      nodes[i] = t[n_ref * coarse[i] + ref[i]].get_hyNode_indices();
    }
    // the first record of each is the element, then its faces
    for (unsigned int i = 0; i < 2; ++i)
      for (unsigned int f = 0; f < 2 * d; ++f)
      {
        vp_check(nodes[i][f] < t.n_hyNodes(), "hypernode indices are in range");
        for (unsigned int j = 0; j <= i; ++j)
          for (unsigned int g = 0; g < 2 * d; ++g)
          {
            if (i == j && g >= f)
              continue;
            // position of the faces within their coarse cells
            unsigned int x[2][d];
            for (unsigned int m = 0, q = ref[i], p = ref[j]; m < d; ++m, q /= r, p /= r)
            {
              x[0][m] = q % r + (m == f / 2 ? f % 2 : 0);
              x[1][m] = p % r + (m == g / 2 ? g % 2 : 0);
            }
            const bool in0 = x[0][f / 2] % r != 0, in1 = x[1][g / 2] % r != 0;
            bool coincide;
            if (in0 != in1)
              coincide = false;
            else if (in0)
            {
              coincide = (coarse[i] == coarse[j]) & (f / 2 == g / 2);
              for (unsigned int m = 0; m < d; ++m)
                coincide &= x[0][m] == x[1][m];
            }
            else
            {
              // the same coarse face, and the same position within it (ascending directions)
              coincide = same(asked[from[i] + 1 + f], asked[from[j] + 1 + g], s);
              for (unsigned int m = 0, a = 0, b = 0; m + 1 < d; ++m, ++a, ++b)
              {
                a += a == f / 2;
                b += b == g / 2;
                coincide &= x[0][a] == x[1][b];
              }
            }
            vp_check((nodes[i][f] == nodes[j][g]) == coincide, "hypernodes coincide exactly if the faces do");
          }
      }
  }
  vp_reach("done");
}
VP_CONTRACT(numbering_1_1_1) { numbering<1, 1, 1>(); }
VP_CONTRACT(numbering_1_3_1) { numbering<1, 3, 1>(); }
VP_CONTRACT(numbering_1_2_2) { numbering<1, 2, 2>(); }
VP_CONTRACT(numbering_2_2_1) { numbering<2, 2, 1>(); }
VP_CONTRACT(numbering_2_2_2) { numbering<2, 2, 2>(); }
VP_CONTRACT(numbering_2_3_1) { numbering<2, 3, 1>(); }
VP_CONTRACT(numbering_3_3_1) { numbering<3, 3, 1>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(numbering_1_2_3) { numbering<1, 2, 3>(); }
VP_CONTRACT(numbering_2_2_3) { numbering<2, 2, 3>(); }
VP_CONTRACT(numbering_2_3_2) { numbering<2, 3, 2>(); }
VP_CONTRACT(numbering_3_3_2) { numbering<3, 3, 2>(); }
#endif
