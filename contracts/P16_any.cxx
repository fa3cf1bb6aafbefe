// P16: the assembled matrix on hypergraphs with an arbitrary number of hyperedges and hypernodes.
// Invariant of the loop over the hyperedges: among the triplets of hyperedge e (e arbitrary), if e has been visited, those at
// position (i, j) (i, j arbitrary) sum up to the local responses at i to the unit vector at j.
#include "anygraph.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>

#ifndef VP_NATIVE
// contract of std::vector<unsigned int>(n) and of its destructor: n zeros
extern "C" uint32_t* vp_array_zero32(uint64_t n);
static uint32_t* vec32[4];
static unsigned int n_vec32 = 0;
extern "C" void vpc___ZNSt6vectorIjSaIjEEC2EmRKS0_(uint32_t** self, const uint64_t n, const void*)
{
  self[0] = vp_array_zero32(n);
  self[1] = self[2] = self[0] + n;
  vec32[n_vec32++] = self[0];
}
extern "C" void vpc___ZNSt6vectorIjSaIjEED2Ev(uint32_t**) {}
static const uint32_t* cols() { return vec32[0]; }
static const uint32_t* rows() { return vec32[1]; }
#else
static unsigned int n_vec32 = 0;
static const uint32_t* cols() { return nullptr; }
static const uint32_t* rows() { return nullptr; }
#endif

template <unsigned int d, unsigned int nd>
struct Ctx
{
  const AnyGraph<d>* g;
  bool what;
  double par, time;
  uint64_t e;
  uint32_t i, j;
  static constexpr uint64_t n_loc = 2 * d * nd, m = n_loc * n_loc;
  // local responses of hyperedge e at (i, j)
  double want() const
  {
    double r = 0.;
    for (unsigned int kj = 0; kj < 2 * d; ++kj)
      for (unsigned int dj = 0; dj < nd; ++dj)
      {
        EdgeDofs<d, nd> unit;
        for (unsigned int k = 0; k < 2 * d; ++k)
          for (unsigned int l = 0; l < nd; ++l)
            unit[k][l] = (k == kj) & (l == dj) ? 1. : 0.;
        for (unsigned int ki = 0; ki < 2 * d; ++ki)
          for (unsigned int di = 0; di < nd; ++di)
            r += vp_ite((any_dof<d, nd>(*g, e, ki, di) == i) & (any_dof<d, nd>(*g, e, kj, dj) == j),
                        any_local<d, nd>("trace_to_flux", par, e, e, e, 0., ki, di, time, unit), 0.);
      }
    return r;
  }
  double have(const uint64_t h, const double* val, const uint32_t* row, const uint32_t* col) const
  {
    double r = 0.;
    for (uint64_t t = 0; t < m; ++t)
      r += vp_ite((row[h * m + t] == i) & (col[h * m + t] == j), val[h * m + t], 0.);
    return r;
  }
  bool in_range(const uint64_t h, const unsigned int t, const uint32_t* row, const uint32_t* col) const
  {
    return (row[h * m + t] < nd * g->n_nodes) & (col[h * m + t] < nd * g->n_nodes);
  }
};
template <unsigned int d, unsigned int nd>
static void inv(void* p, uint64_t k)
{
  const Ctx<d, nd>& c = *(Ctx<d, nd>*)p;
  vp_inv(k <= c.g->n_edges, "not more hyperedges are visited than there are");
  if (c.e >= k)
    return;
  const uint64_t e = c.e == k - 1 ? k - 1 : c.e;  // the hyperedge just visited, or an earlier one
  if (c.what)
    vp_inv_eq(c.have(e, OutVec::last, rows(), cols()), c.want(), "the triplets of a hyperedge visited are its local responses");
  else
    for (unsigned int t = 0; t < c.m; ++t)
      vp_inv(c.in_range(e, t, rows(), cols()), "row and column indices of a hyperedge visited exist");
}
template <unsigned int d, unsigned int nd, bool default_time, bool what>
static void matrix()
{
  {
    n_vec32 = 0;
    const AnyGraph<d> g;
    const double par = vp_real("par"), time = default_time ? 0. : vp_real("time");
    AnyLoop<GlobalLoop::Elliptic, d, nd> loop(g, par);
    const uint32_t size = nd * g.n_nodes;
    Ctx<d, nd> c{&g, what, par, time, vp_u64("e", 0, 1u << 24), vp_u32("i", 0, ~0u), vp_u32("j", 0, ~0u)};
    vp_assume((c.e < g.n_edges) & (c.i < size) & (c.j < size));
    if (vp_symbolic())
      vp_invariant("*", inv<d, nd>, &c);
    sparse_mat<OutVec> a = default_time ? loop.trace_to_flux_mat() : loop.trace_to_flux_mat(time);
    vp_invariant_end();
    const uint64_t total = (uint64_t)g.n_edges * c.m;
    vp_check((a.get_values().size() == total) & (a.get_rows().size() == total) & (a.get_cols().size() == total),
             "one triplet per hyperedge and pair of local degrees of freedom");
    if (what)
      vp_check_eq(c.have(c.e, a.get_values().p, a.get_rows().data(), a.get_cols().data()), c.want(),
                  "the triplets of every hyperedge sum up to its local responses to unit vectors");
    else
      for (unsigned int t = 0; t < c.m; ++t)
        vp_check(c.in_range(c.e, t, a.get_rows().data(), a.get_cols().data()), "row and column indices exist");
  }
  vp_reach("done");
}
VP_CONTRACT(any_matrix_1_1) { matrix<1, 1, false, true>(); }
VP_CONTRACT(any_matrix_default_time_1_1) { matrix<1, 1, true, true>(); }
VP_CONTRACT(any_matrix_range_1_1) { matrix<1, 1, false, false>(); }
VP_CONTRACT(any_matrix_1_2) { matrix<1, 2, false, true>(); }
VP_CONTRACT(any_matrix_range_1_2) { matrix<1, 2, false, false>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(any_matrix_2_1) { matrix<2, 1, false, true>(); }
VP_CONTRACT(any_matrix_range_2_1) { matrix<2, 1, false, false>(); }
#endif
