// P22: the neighbourhood graph of a point set connects exactly the points closer than epsilon
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>

template <unsigned int s, unsigned int n>
struct Points
{
  double x[n][s], eps;
  // kind 0: arbitrary points; 1: given in ascending order of the first coordinate; 2: the first coordinates and
  // epsilon are small integers; 10 and more: given point sets (one per kind) in which the last point moves a bit along an axis
  Points(const unsigned int kind = 0)
  {
    eps = kind == 2 ? 2. : kind >= 10 ? (s == 1 ? 2.75 : 1.75) : vp_real("epsilon");
    vp_assume(eps > 0.);
    if (kind >= 10)
    {
      given(kind - 10);
      return;
    }
    for (unsigned int i = 0; i < n; ++i)
    {
      for (unsigned int j = 0; j < s; ++j)
        x[i][j] = (kind == 2) & (j == 0) ? (double)vp_split32(vp_u32("integer", 0, 2)) : vp_real("coordinate");
      if (i > 0 && kind == 1)
        vp_assume(x[i - 1][0] < x[i][0]);
    }
  }
  void given(unsigned int z)
  {
    z = 977 * z + 5;
    for (unsigned int i = 0; i < n; ++i)
    {
      bool again = true;
      while (again)
      {
        for (unsigned int j = 0; j < s; ++j)
        {
          z = z * 1103515245u + 12345u;
          x[i][j] = (z >> 16) % (s == 1 ? n + 1 : s == 2 ? 4 : 3);
        }
        again = false;
        for (unsigned int k = 0; k < i; ++k)
          again |= same(i, k);
      }
    }
    const double t = vp_real("coordinate");
    vp_assume((t >= 0.) & (t <= .5));
    x[n - 1][z % s] += t;
  }
  void write(const char* name, const bool comments) const
  {
    std::ofstream f(name);
    f.precision(17);
    if (comments)
      f << "# Comment" << std::endl << std::endl;
    f << "Space_Dim = " << s << ";" << (comments ? "  # Dimension" : "") << std::endl;
    f << "Epsilon   = " << eps << ";" << std::endl;
    if (comments)
      f << std::endl << "# After POINTS:" << std::endl << std::endl;
    f << "POINTS:" << std::endl;
    for (unsigned int i = 0; i < n; ++i)
    {
      for (unsigned int j = 0; j < s; ++j)
        f << (j ? "  " : "") << x[i][j];
      f << std::endl;
    }
  }
  bool same(unsigned int i, unsigned int k) const
  {
    bool r = true;
    for (unsigned int j = 0; j < s; ++j)
      r &= x[i][j] == x[k][j];
    return r;
  }
  bool close(unsigned int i, unsigned int k) const
  {
    double d = 0.;
    for (unsigned int j = 0; j < s; ++j)
      d += (x[i][j] - x[k][j]) * (x[i][j] - x[k][j]);
    return d < eps * eps;
  }
  bool unique() const
  {
    bool r = true;
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int k = 0; k < i; ++k)
        r &= !same(i, k);
    return r;
  }
  bool connected() const
  {
    bool c[n][n];
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int k = 0; k < n; ++k)
        c[i][k] = i == k ? true : i < k ? close(i, k) : c[k][i];
    for (unsigned int m = 0; m < n; ++m)
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int k = 0; k < n; ++k)
          c[i][k] = c[i][k] | (c[i][m] & c[m][k]);
    bool r = true;
    for (unsigned int k = 0; k < n; ++k)
      r &= c[0][k];
    return r;
  }
};

template <unsigned int s, unsigned int n>
void graph(const bool comments, const bool through_read_domain, const unsigned int kind = 0)
{
  {
    const Points<s, n> p(kind);
    p.write("set.pts", comments);
    const bool ok = p.unique() & p.connected();
    vp_abort_expected(!ok, "only repeated points or unconnected sets are rejected");
    std::string name = "set.pts";
    if (!through_read_domain)
    {
      make_epsilon_neighborhood_graph<s, std::vector, Point<s, double>, unsigned int>(name);
      vp_check(name == "set.pts.geo", "name of the domain file");
    }
    const auto g = through_read_domain ? read_domain<1, s>(name) : read_domain_geo<1, s>(name);
    vp_check(ok, "repeated points and unconnected sets are rejected");
    vp_check((g.n_points == n) & (g.n_hyNodes == n), "one hypernode per point");
    vp_check(g.points.size() == n, "one point per point");
    unsigned int at[n];  // position of the points
    for (unsigned int i = 0; i < n; ++i)
    {
      at[i] = n;
      bool found = false;
      for (unsigned int k = 0; k < n; ++k)
      {
        bool eq = true;
        for (unsigned int j = 0; j < s; ++j)
          if (vp_symbolic())
            eq &= g.points[k][j] == p.x[i][j];
          else
            eq &= std::abs(g.points[k][j] - p.x[i][j]) <= 1e-4 * (1. + std::abs(p.x[i][j]));
        if (eq)
          at[i] = k;
      }
      vp_check(at[i] < n, "every point is in the domain");
    }
    if (!vp_symbolic())
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int k = 0; k < i; ++k)
          vp_assume(at[i] != at[k]);  // points that coincide in the precision of the file
    unsigned int n_close = 0;
    for (unsigned int i = 0; i < n; ++i)
      for (unsigned int k = 0; k < i; ++k)
      {
        unsigned int times = 0;
        for (unsigned int e = 0; e < g.n_hyEdges; ++e)
        {
          const unsigned int a = g.hyNodes_hyEdge[e][0], b = g.hyNodes_hyEdge[e][1];
          times += ((a == at[i]) & (b == at[k])) | ((a == at[k]) & (b == at[i]));
        }
        const bool c = p.close(i, k);
        n_close += c ? 1 : 0;
        vp_check(times == (c ? 1 : 0), "exactly the points closer than epsilon are connected, once");
      }
    vp_check(g.n_hyEdges == n_close, "no other hyperedges");
    for (unsigned int e = 0; e < g.n_hyEdges; ++e)
      for (unsigned int i = 0; i < 2; ++i)
      {
        vp_check(g.points_hyEdge[e][i] == g.hyNodes_hyEdge[e][i], "the vertices of a hyperedge are the points of its hypernodes");
        vp_check(g.hyFaces_hyEdge[e][i] == g.hyNodes_hyEdge[e][i], "the type of a hyperface is its hypernode");
      }
    vp_check(g.n_properties == 0, "no properties");
  }
  vp_reach("done");
}
VP_CONTRACT(graph_1_2) { graph<1, 2>(false, false); }
VP_CONTRACT(graph_1_2_read) { graph<1, 2>(true, true); }
VP_CONTRACT(graph_1_3) { graph<1, 3>(true, false); }
VP_CONTRACT(graph_2_2) { graph<2, 2>(false, true); }
VP_CONTRACT(graph_3_2) { graph<3, 2>(false, false); }
VP_CONTRACT(graph_1_4_ascending) { graph<1, 4>(false, false, 1); }
VP_CONTRACT(graph_2_3_integer) { graph<2, 3>(false, false, 2); }
#define G(s, n, k) VP_CONTRACT(given_##s##_##n##_##k) { graph<s, n>(false, k % 2, 10 + k); }
G(1, 7, 0) G(1, 7, 1) G(1, 8, 2) G(1, 8, 3) G(2, 6, 3) G(2, 6, 4) G(2, 7, 0) G(2, 7, 1) G(2, 7, 2) G(2, 7, 3) G(2, 7, 4) G(2, 8, 2) G(2, 8, 3) G(2, 8, 4) G(2, 8, 5) G(3, 8, 0) G(1, 12, 1)
#ifdef VP_THOROUGH
VP_CONTRACT(graph_1_4) { graph<1, 4>(false, false); }
VP_CONTRACT(graph_1_5_ascending) { graph<1, 5>(false, false, 1); }
VP_CONTRACT(graph_2_3) { graph<2, 3>(false, false); }
#endif

VP_CONTRACT(wrong_epsilon)
{
  const double eps = vp_real("epsilon"), x = vp_real("x"), y = vp_real("y");
  vp_assume((x - y) * (x - y) < 1.);
  vp_assume((eps <= 0.) | (eps >= 1.));
  vp_assume(x != y);
  {
    std::ofstream f("eps.pts");
    f.precision(17);
    f << "Space_Dim = 1" << std::endl << "Epsilon = " << eps << std::endl << "POINTS:" << std::endl;
    f << x << std::endl << y << std::endl;
  }
  std::string name = "eps.pts";
  vp_abort_expected(eps <= 0., "only a non-positive epsilon is rejected");
  make_epsilon_neighborhood_graph<1, std::vector, Point<1, double>, unsigned int>(name);
  vp_check(eps > 0., "a non-positive epsilon is rejected");
  vp_reach("done");
}
VP_CONTRACT(wrong_dimension)
{
  const Points<1, 2> p;
  p.write("dim.pts", false);
  std::string name = "dim.pts";
  vp_abort_expected(true, "another space dimension");
  make_epsilon_neighborhood_graph<2, std::vector, Point<2, double>, unsigned int>(name);
  vp_check(false, "points of another dimension are rejected");
}
VP_CONTRACT(wrong_type)
{
  const Points<1, 2> p;
  p.write("points.txt", false);
  std::string name = "points.txt";
  vp_abort_expected(true, "another file type");
  make_epsilon_neighborhood_graph<1, std::vector, Point<1, double>, unsigned int>(name);
  vp_check(false, "files of another type are rejected");
}
VP_CONTRACT(graphs_only)
{
  const Points<2, 2> p;
  p.write("two.pts", false);
  vp_abort_expected(true, "hyperedges of dimension two");
  const auto g = read_domain<2, 2>("two.pts");
  vp_check(false, "point sets only describe graphs");
}
