// P16: the assembled sparse matrix consists of the responses to unit vectors
#include "loops.hxx"
using namespace GlobalLoop;

template <unsigned int d, unsigned int nd, bool we, uint32_t e1, uint32_t e2, unsigned int level>
void matrix()
{
  {
    const MockConfig<d> c(VP_GRAPH(e1, e2));
    const double par = vp_real("par"), time = vp_real("time");
    Loop<Elliptic, d, nd, we> loop(c, par);
    const Spec<d, nd, we> spec{c, level, par};
    if (level != 1)
      loop.set_refinement(level);
    sparse_mat<Vec> m = loop.trace_to_flux_mat(time);
    constexpr uint32_t n_loc = 2 * d * nd;
    const uint32_t n_edges = c.n_edges[level], total = n_edges * n_loc * n_loc;
    vp_check((m.get_values().size() == total) & (m.get_cols().size() == total) & (m.get_rows().size() == total),
             "one entry per hyperedge and pair of local degrees of freedom");
    const uint32_t size = spec.size();
    // entry (i, j) of the matrix the triplets describe, against the local responses to unit vectors
    for (uint32_t i = 0; i < size; ++i)
      for (uint32_t j = 0; j < size; ++j)
      {
        double have = 0., want = 0.;
        for (uint32_t t = 0; t < total; ++t)
          have += (m.get_rows()[t] == i) & (m.get_cols()[t] == j) ? m.get_values()[t] : 0.;
        for (uint32_t e = 0; e < n_edges; ++e)
          for (unsigned int kj = 0; kj < 2 * d; ++kj)
            for (unsigned int dj = 0; dj < nd; ++dj)
            {
              Dofs<d, nd> unit;
              for (unsigned int k = 0; k < 2 * d; ++k)
                for (unsigned int l = 0; l < nd; ++l)
                  unit[k][l] = (k == kj) & (l == dj) ? 1. : 0.;
              for (unsigned int ki = 0; ki < 2 * d; ++ki)
                for (unsigned int di = 0; di < nd; ++di)
                  want += (spec.dof(e, ki, di) == i) & (spec.dof(e, kj, dj) == j)
                            ? local_value<d, nd>("trace_to_flux", par, spec.seen(e).s, ki, di, time, unit)
                            : 0.;
            }
        vp_check_eq(have, want, "matrix entry is the sum of the local responses to unit vectors");
      }
    for (uint32_t t = 0; t < total; ++t)
      vp_check((m.get_rows()[t] < size) & (m.get_cols()[t] < size), "row and column indices exist");
    if (level == 1)
    {
      sparse_mat<Vec> m0 = loop.trace_to_flux_mat();
      sparse_mat<Vec> mz = loop.trace_to_flux_mat(0.);
      for (uint32_t t = 0; t < total; ++t)
        vp_check_eq(m0.get_values()[t], mz.get_values()[t], "the default time is zero");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(matrix_edge_1_1_2) { matrix<1, 1, true, 2, 1, 1>(); }
VP_CONTRACT(matrix_edge_1_2_2) { matrix<1, 2, true, 2, 1, 1>(); }
VP_CONTRACT(matrix_free_2_1_1) { matrix<2, 1, false, 1, 1, 1>(); }
VP_CONTRACT(matrix_free_1_2_3) { matrix<1, 2, false, 3, 1, 1>(); }
VP_CONTRACT(matrix_refined_1_1) { matrix<1, 1, true, 1, 3, 2>(); }

// for a linear local solver, the matrix applied to a vector is the matrix-free operator
template <unsigned int d, unsigned int nd>
struct LinearSolver : MockSolver<d, nd, true>
{
  LinearSolver(const double p = 17.) : MockSolver<d, nd, true>(p) {}
  template <typename E>
  Dofs<d, nd>& trace_to_flux(const Dofs<d, nd>& in, Dofs<d, nd>& out, E& e, const double time = 0.) const
  {
    for (unsigned int k = 0; k < 2 * d; ++k)
      for (unsigned int i = 0; i < nd; ++i)
        for (unsigned int l = 0; l < 2 * d; ++l)
          for (unsigned int j = 0; j < nd; ++j)
            out[k][i] += vp_ufr("loc_mat", 6, (double)e.topology.id, (double)k, (double)i, (double)l, (double)j, time) * in[l][j];
    return out;
  }
};
template <unsigned int d, unsigned int nd, uint32_t e1>
void matvec()
{
  {
    const MockConfig<d> c(VP_GRAPH(e1, 1));
    Elliptic<MockTopology<d, d>, MockGeometry<d, d>, MockNodes<d, d>, LinearSolver<d, nd>, Vec, unsigned int> loop(c, 1.);
    const double time = vp_real("time");
    const uint32_t size = loop.size_of_system();
    const Vec x = any_vec("x", size);
    const Vec y = loop.trace_to_flux(x, time);
    sparse_mat<Vec> m = loop.trace_to_flux_mat(time);
    for (uint32_t i = 0; i < size; ++i)
    {
      double s = 0.;
      for (uint32_t t = 0; t < m.get_values().size(); ++t)
        s += m.get_rows()[t] == i ? m.get_values()[t] * x[m.get_cols()[t]] : 0.;
      vp_check_eq(y[i], s, "the matrix applied to a vector is the matrix-free operator");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(matvec_1_1_3) { matvec<1, 1, 3>(); }
VP_CONTRACT(matvec_1_2_2) { matvec<1, 2, 2>(); }
VP_CONTRACT(matvec_2_1_1) { matvec<2, 1, 1>(); }
