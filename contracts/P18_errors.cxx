// P18: errors are accumulated over all hyperedges; sizes and zero vectors
#include "loops.hxx"
using namespace GlobalLoop;

template <template <class, class, class, class, typename, typename> class LoopT, unsigned int d, unsigned int nd, bool we,
          uint32_t n_edges>
void errors()
{
  {
    const MockConfig<d> c(VP_GRAPH(n_edges, 1));
    const double par = vp_real("par"), time = vp_real("time");
    Loop<LoopT, d, nd, we> loop(c, par);
    const Spec<d, nd, we> spec{c, 1, par};
    const uint32_t size = spec.size();
    const Vec x = any_vec("x", size);
    const Vec x0 = x;
    for (unsigned int round = 0; round < 2; ++round)
    {
      const double t = round ? 0. : time;
      const std::vector<double> r = round ? loop.errors(x) : loop.errors(x, t);
      vp_check(r.size() == 2, "one value per error measure");
      double s0 = vp_ufr("err_init", 1, 0.), s1 = vp_ufr("err_init", 1, 1.);
      for (uint32_t e = 0; e < n_edges; ++e)
      {
        s0 += local_value<d, nd>("errors", par, spec.seen(e).s, 0, 0, t, spec.gather(x, e));
        const double v = local_value<d, nd>("errors", par, spec.seen(e).s, 1, 0, t, spec.gather(x, e));
        s1 = s1 < v ? v : s1;
      }
      vp_check_eq(r[0], vp_ufr("err_post", 2, 0., s0), round ? "accumulated error, default time" : "accumulated error");
      vp_check_eq(r[1], s1 + 1., round ? "combined error, default time" : "combined error");
    }
    for (uint32_t j = 0; j < size; ++j)
      vp_check_eq(x[j], x0[j], "the argument is unchanged");
  }
  vp_reach("done");
}
VP_CONTRACT(errors_elliptic_edge_1_2_2) { errors<Elliptic, 1, 2, true, 2>(); }
VP_CONTRACT(errors_elliptic_free_1_1_3) { errors<Elliptic, 1, 1, false, 3>(); }
VP_CONTRACT(errors_elliptic_edge_2_1_1) { errors<Elliptic, 2, 1, true, 1>(); }
VP_CONTRACT(errors_parabolic_edge_1_2_2) { errors<Parabolic, 1, 2, true, 2>(); }
VP_CONTRACT(errors_parabolic_free_1_1_3) { errors<Parabolic, 1, 1, false, 3>(); }
VP_CONTRACT(errors_parabolic_edge_2_1_1) { errors<Parabolic, 2, 1, true, 1>(); }

template <template <class, class, class, class, typename, typename> class LoopT>
void zero()
{
  {
    const MockConfig<1> c(VP_GRAPH(2, 3));
    Loop<LoopT, 1, 2, true> loop(c, 1.);
    for (unsigned int level = 1; level < 3; ++level)
    {
      loop.set_refinement(level);
      const Vec z = loop.zero_vector();
      vp_check((z.size() == loop.size_of_system()) & (z.size() == 2 * c.n_nodes[level]), "size of the zero vector");
      for (unsigned int i = 0; i < z.size(); ++i)
        vp_check_eq(z[i], 0., "the zero vector is zero");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(zero_elliptic) { zero<Elliptic>(); }
VP_CONTRACT(zero_parabolic) { zero<Parabolic>(); }
