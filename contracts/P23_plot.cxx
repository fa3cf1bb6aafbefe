// P23: a plot is a VTU file that carries exactly the hypergraph's cells, their vertices and the local solutions there
#include "mock.hxx"
#include <HyperHDG/global_loop/elliptic.hxx>
#include <HyperHDG/global_loop/mass_approx_eigenvalue.hxx>
#include <HyperHDG/global_loop/nonlinear_eigenvalue.hxx>
#include <HyperHDG/global_loop/parabolic.hxx>
#include <HyperHDG/global_loop/shifted_inverse_eigenvalue.hxx>
#include <HyperHDG/plot.hxx>

typedef std::vector<double> Vec;

// an arbitrary geometry: points depend linearly on the abscissae with arbitrary coefficients
static double coord(const uint32_t e, const uint32_t tag, const int bdr, const unsigned int pt, const unsigned int j, const double a0,
                    const double a1, const double scale)
{
  return vp_ufr("p0", 5, (double)e, (double)tag, (double)bdr, (double)pt, (double)j) +
         a0 * vp_ufr("p1", 4, (double)e, (double)bdr, (double)pt, (double)j) +
         a1 * vp_ufr("p2", 4, (double)e, (double)bdr, (double)pt, (double)j) + (bdr < 0 ? 0. : scale * (1. + j));
}
template <unsigned int d, unsigned int s>
struct PlotGeometry
{
  typedef MockConfig<d> constructor_value_type;
  struct hyperedge
  {
    uint32_t id, tag, level;
    template <unsigned int n>
    Point<s, double> lexicographic(const unsigned int pt, const SmallVec<n, float>& a) const
    {
      static_assert(n == 2);
      vp_check(pt < Hypercube<d>::pow(2), "only vertices of the hyperedge are plotted");
      Point<s, double> p;
      for (unsigned int j = 0; j < s; ++j)
        p[j] = coord(id, tag, -1, pt, j, a[0], a[1], 0.);
      return p;
    }
    template <unsigned int n>
    Point<s, double> boundary_lexicographic(const unsigned int pt, const unsigned int bdr, const float scale,
                                            const SmallVec<n, float>& a) const
    {
      static_assert(n == 2);
      vp_check((pt < Hypercube<d - 1>::pow(2)) & (bdr < 2 * d), "only vertices of the faces are plotted");
      Point<s, double> p;
      for (unsigned int j = 0; j < s; ++j)
        p[j] = coord(id, tag, bdr, pt, j, a[0], a[1], scale);
      return p;
    }
  };
  typedef hyperedge value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int space_dim() { return s; }
  const MockConfig<d>* conf;
  unsigned int level = 1;
  PlotGeometry(const constructor_value_type& c) : conf(&c) {}
  PlotGeometry(const MockTopology<d, s>& t) : conf(t.conf) {}
  value_type operator[](const unsigned int i) const
  {
    vp_check(i < conf->n_edges[level], "only existing hyperedges are visited (geometry)");
    return value_type{i, conf->tag, level};
  }
  unsigned int get_refinement() const { return level; }
  void set_refinement(const unsigned int l) { level = l; }
};

// an arbitrary local solution, linear in the abscissae
template <unsigned int d, unsigned int nd>
double value(const double par, const double edge, const double tag, const unsigned int c, const unsigned int pt, const double time,
             const std::array<std::array<double, nd>, 2 * d>& in, const double a0, const double a1)
{
  double a[6 + 2 * d * nd];
  a[0] = par;
  a[1] = edge;
  a[2] = tag;
  a[3] = c;
  a[4] = pt;
  a[5] = time;
  for (unsigned int k = 0; k < 2 * d; ++k)
    for (unsigned int i = 0; i < nd; ++i)
      a[6 + k * nd + i] = in[k][i];
  return vp_ufv("u", 6 + 2 * d * nd, a) + a0 * vp_ufv("u0", 6 + 2 * d * nd, a) + a1 * vp_ufv("u1", 6 + 2 * d * nd, a);
}
template <unsigned int d, unsigned int nd, unsigned int sys, unsigned int node_sys, bool with_edge>
struct PlotSolver
{
  typedef MockData data_type;
  typedef double constructor_value_type;
  static constexpr unsigned int hyEdge_dim() { return d; }
  static constexpr unsigned int n_glob_dofs_per_node() { return nd; }
  static constexpr unsigned int system_dimension() { return sys; }
  static constexpr unsigned int node_system_dimension() { return node_sys; }
  typedef std::array<std::array<double, nd>, 2 * d> Dofs;
  double par;
  PlotSolver(const double p = 17.) : par(p) {}
  std::array<std::array<double, Hypercube<d>::pow(2)>, sys> values(const std::array<float, 2>& a, const Dofs& in, const double edge,
                                                                  const double tag, const double time) const
  {
    std::array<std::array<double, Hypercube<d>::pow(2)>, sys> r;
    for (unsigned int c = 0; c < sys; ++c)
      for (unsigned int pt = 0; pt < Hypercube<d>::pow(2); ++pt)
        r[c][pt] = value<d, nd>(par, edge, tag, c, pt, time, in, a[0], a[1]);
    return r;
  }
  template <typename E>
  auto bulk_values(const std::array<float, 2>& a, const Dofs& in, E& e, const double time) const
    -> std::enable_if_t<with_edge && !std::is_arithmetic<E>::value, std::array<std::array<double, Hypercube<d>::pow(2)>, sys>>
  {
    vp_check((e.topology.id == e.geometry.id) & (e.node_descriptor.id == e.geometry.id), "the hyperedge is handed to the solver");
    return values(a, in, e.topology.id, e.topology.tag, time);
  }
  template <typename T>
  auto bulk_values(const std::array<float, 2>& a, const Dofs& in, const T time) const
    -> std::enable_if_t<!with_edge && std::is_arithmetic<T>::value, std::array<std::array<double, Hypercube<d>::pow(2)>, sys>>
  {
    return values(a, in, -1., -1., time);
  }
};

// reader of the written file
struct Reader
{
  std::string text;
  std::size_t at = 0;
  bool open = false;
  Reader(const std::string& name)
  {
    std::ifstream f(name);
    open = f.is_open();
    std::string line;
    while (open && std::getline(f, line))
    {
      text += line;
      text += '\n';
    }
  }
  bool find(const char* what)
  {
    const std::size_t p = text.find(what, at);
    if (p == std::string::npos)
      return false;
    at = p + __builtin_strlen(what);
    return true;
  }
  uint64_t attribute(const char* name)  // the number in name = "number"
  {
    const std::size_t keep = at;
    if (!find(name) || !find("\""))
      return ~0ull;
    const std::size_t e = text.find('"', at);
    std::istringstream s(text.substr(at, e - at));
    uint64_t v = ~0ull;
    s >> v;
    at = keep;
    return v;
  }
  std::string body()  // the contents of the element whose start tag comes next
  {
    if (!find(">"))
      return "";
    const std::size_t e = text.find('<', at);
    const std::string b = e == std::string::npos ? "" : text.substr(at, e - at);
    at = e == std::string::npos ? text.size() : e;
    return b;
  }
};

static void same(const double a, const double b, const char* label)
{
  if (vp_symbolic())
    vp_check_eq(a, b, label);
  else
    vp_check(std::abs(a - b) <= 2e-3 * (1. + std::abs(b)) + 1e-5 * 1e3, label);
}
static void ended(std::istringstream& s, const char* label)
{
  std::string rest;
  s >> rest;
  vp_check(rest.empty(), label);
}

struct Options
{
  bool edges, bdrs, numbers;
  bool print, increment;
};

template <unsigned int d, unsigned int s, unsigned int nd, unsigned int sys, unsigned int node_sys, bool with_edge>
struct Case
{
  typedef PlotSolver<d, nd, sys, node_sys, with_edge> Solver;
  typedef HDGHyperGraph<nd, MockTopology<d, s>, PlotGeometry<d, s>, MockNodes<d, s>, MockData> Graph;
  static void file(const std::string& name, const MockConfig<d>& c, const Vec& x, const double par, const double time,
                   const PlotOptions& o)
  {
    const unsigned int n_edges = c.n_edges[1], v = 1u << d, bv = 1u << (d - 1);
    const unsigned int n_cells = (o.plot_edges ? n_edges : 0) + (o.plot_edge_boundaries ? 2 * d * n_edges : 0);
    const unsigned int n_points = (o.plot_edges ? v * n_edges : 0) + (o.plot_edge_boundaries ? bv * 2 * d * n_edges : 0);
    Reader r(name);
    vp_check(r.open, "a file with the documented name is written");
    if (!r.open)
      return;
    const double sc = o.scale, bs = o.boundary_scale;
    const double a0 = .5 - .5 * sc, a1 = .5 + .5 * sc, b0 = .5 - .5 * sc * bs, b1 = .5 + .5 * sc * bs;

    vp_check(r.find("<VTKFile") && r.find("<UnstructuredGrid>") && r.find("<Piece"), "VTU header");
    vp_check(r.attribute("NumberOfPoints") == n_points, "number of points");
    vp_check(r.attribute("NumberOfCells") == n_cells, "number of cells");
    vp_check(r.find("<Points>") && r.find("<DataArray") && r.attribute("NumberOfComponents") == 3, "three coordinates per point");
    {
      std::istringstream t(r.body());
      if (o.plot_edges)
        for (unsigned int e = 0; e < n_edges; ++e)
          for (unsigned int p = 0; p < v; ++p)
            for (unsigned int j = 0; j < 3; ++j)
            {
              double z = -777.;
              t >> z;
              same(z, j < s ? coord(e, c.tag, -1, p, j, a0, a1, 0.) : 0., "vertices of the hyperedges");
            }
      if (o.plot_edge_boundaries)
        for (unsigned int e = 0; e < n_edges; ++e)
          for (unsigned int b = 0; b < 2 * d; ++b)
            for (unsigned int p = 0; p < bv; ++p)
              for (unsigned int j = 0; j < 3; ++j)
              {
                double z = -777.;
                t >> z;
                same(z, j < s ? coord(e, c.tag, b, p, j, b0, b1, bs) : 0., "vertices of the faces");
              }
      ended(t, "no further points");
    }
    vp_check(r.find("</Points>") && r.find("<Cells>") && r.find("connectivity"), "cells");
    {
      std::istringstream t(r.body());
      for (unsigned int i = 0; i < n_points; ++i)
      {
        uint64_t k = ~0ull;
        t >> k;
        vp_check(k == i, "the cells consist of their own vertices");
      }
      ended(t, "no further vertices of cells");
    }
    vp_check(r.find("offsets"), "offsets");
    {
      std::istringstream t(r.body());
      unsigned int sum = 0;
      for (unsigned int i = 0; i < n_cells; ++i)
      {
        sum += o.plot_edges && i < n_edges ? v : bv;
        uint64_t k = ~0ull;
        t >> k;
        vp_check(k == sum, "number of vertices of a cell");
      }
      ended(t, "no further offsets");
    }
    vp_check(r.find("types"), "types");
    {
      std::istringstream t(r.body());
      const unsigned int type[] = {1, 3, 8, 11};
      for (unsigned int i = 0; i < n_cells; ++i)
      {
        uint64_t k = ~0ull;
        t >> k;
        vp_check(k == type[o.plot_edges && i < n_edges ? d : d - 1], "type of a cell");
      }
      ended(t, "no further types");
    }
    vp_check(r.find("</Cells>") && r.find("<CellData>"), "cell data");
    if (o.numbers)
    {
      vp_check(r.find("<DataArray"), "numbers of the cells");
      std::istringstream t(r.body());
      for (unsigned int i = 0; i < n_cells; ++i)
      {
        uint64_t k = ~0ull;
        t >> k;
        const bool edge = o.plot_edges && i < n_edges;
        vp_check(k == (edge ? i : i - (o.plot_edges ? n_edges : 0) + 1), "number of a cell");
      }
      ended(t, "no further numbers");
    }
    vp_check(r.find("</CellData>") && r.find("<PointData>"), "point data");
    constexpr unsigned int comps = sys > node_sys ? sys : node_sys;
    vp_check(r.find("<DataArray") && r.attribute("NumberOfComponents") == comps, "number of components");
    {
      std::istringstream t(r.body());
      if (o.plot_edges)
        for (unsigned int e = 0; e < n_edges; ++e)
        {
          typename Solver::Dofs in;
          for (unsigned int k = 0; k < 2 * d; ++k)
            for (unsigned int i = 0; i < nd; ++i)
              in[k][i] = x[nd * c.nodes[1][e][k] + i];
          for (unsigned int p = 0; p < v; ++p)
            for (unsigned int j = 0; j < comps; ++j)
            {
              double z = -777.;
              t >> z;
              same(z,
                   j < sys ? value<d, nd>(par, with_edge ? (double)e : -1., with_edge ? (double)c.tag : -1., j, p, time, in, a0, a1)
                           : 0.,
                   "values at the vertices of the hyperedges");
            }
        }
      if (o.plot_edge_boundaries)
        for (unsigned int i = 0; i < 2 * d * n_edges * bv * comps; ++i)
        {
          double z = -777.;
          t >> z;
          vp_check(!t.fail(), "values at the vertices of the faces");
        }
      ended(t, "one value per component and vertex");
    }
    vp_check(r.find("</PointData>") && r.find("</Piece>") && r.find("</UnstructuredGrid>") && r.find("</VTKFile>"), "VTU footer");
  }
  static PlotOptions options(const Options& k)
  {
#ifdef VP_NATIVE
    std::cout.setstate(std::ios::failbit);
#endif
    PlotOptions o;
    o.outputDir = "plots";
    o.fileName = "solution";
    o.fileNumber = 9;
    o.plot_edges = k.edges;
    o.plot_edge_boundaries = k.bdrs;
    o.numbers = k.numbers;
    o.printFileNumber = k.print;
    o.incrementFileNumber = k.increment;
    o.scale = (float)vp_real("scale");
    o.boundary_scale = (float)vp_real("boundary_scale");
    return o;
  }
  static void unchanged(const PlotOptions& a, const PlotOptions& b)
  {
    vp_check((a.outputDir == b.outputDir) & (a.fileName == b.fileName) & (a.fileEnding == b.fileEnding) &
               (a.printFileNumber == b.printFileNumber) & (a.incrementFileNumber == b.incrementFileNumber) &
               (a.plot_edges == b.plot_edges) & (a.plot_edge_boundaries == b.plot_edge_boundaries) &
               (a.n_subintervals == b.n_subintervals) & (a.numbers == b.numbers),
             "plotting keeps the options");
    vp_check((a.scale == b.scale) & (a.boundary_scale == b.boundary_scale), "plotting keeps the scaling");
  }
  static void run(const uint32_t n_edges, const Options k)
  {
    {
      const MockConfig<d> c(n_edges, 1);
      Graph g(c, c);
      const double par = vp_real("par"), time = vp_real("time");
      const Solver solver(par);
      Vec x(nd * c.n_nodes[1]);
      for (unsigned int i = 0; i < x.size(); ++i)
        x[i] = vp_real("x");
      const Vec x0 = x;
      PlotOptions o = options(k);
      const PlotOptions before = o;
      plot(g, solver, x, o, time);
      unchanged(o, before);
      vp_check(o.fileNumber == (k.increment ? 10u : 9u), "the file number is incremented if asked for");
      file(k.print ? "plots/solution.9.vtu" : "plots/solution.vtu", c, x, par, time, before);
      for (unsigned int i = 0; i < x.size(); ++i)
        vp_check_eq(x[i], x0[i], "the solution is unchanged");
      // a second plot: into the next file, or replacing the first one
      x[0] += 1.;
      plot(g, solver, x, o);
      const bool next = k.print & k.increment;
      file(!k.print ? "plots/solution.vtu" : k.increment ? "plots/solution.10.vtu" : "plots/solution.9.vtu", c, x, par, 0., before);
      if (next)
        file("plots/solution.9.vtu", c, x0, par, time, before);
      vp_check(o.fileNumber == (k.increment ? 11u : 9u), "the file number is incremented again");
    }
    vp_reach("done");
  }
};
VP_CONTRACT(edges_1_1) { Case<1, 1, 1, 1, 1, true>::run(2, {true, false, false, true, true}); }
VP_CONTRACT(edges_1_3) { Case<1, 3, 2, 2, 1, true>::run(3, {true, false, true, true, false}); }
VP_CONTRACT(edges_1_2_free) { Case<1, 2, 1, 1, 3, false>::run(2, {true, false, false, false, false}); }
VP_CONTRACT(edges_2_2) { Case<2, 2, 1, 1, 1, true>::run(2, {true, false, true, false, true}); }
VP_CONTRACT(edges_2_3) { Case<2, 3, 2, 3, 2, true>::run(1, {true, false, false, true, true}); }
VP_CONTRACT(edges_3_3) { Case<3, 3, 1, 4, 1, true>::run(1, {true, false, true, true, false}); }
VP_CONTRACT(boundaries_1_1) { Case<1, 1, 1, 1, 1, true>::run(2, {true, true, true, true, false}); }
VP_CONTRACT(boundaries_1_2) { Case<1, 2, 1, 2, 1, false>::run(2, {false, true, false, true, true}); }
VP_CONTRACT(boundaries_2_3) { Case<2, 3, 1, 1, 1, true>::run(1, {true, true, true, true, false}); }
VP_CONTRACT(boundaries_2_2_only) { Case<2, 2, 1, 3, 1, true>::run(2, {false, true, true, true, false}); }
VP_CONTRACT(boundaries_3_3) { Case<3, 3, 1, 1, 1, true>::run(1, {true, true, false, true, false}); }
VP_CONTRACT(boundaries_node_components) { Case<2, 2, 1, 1, 2, true>::run(1, {true, true, false, true, false}); }
// every combination of the options
template <unsigned int d, unsigned int s>
void any_options()
{
  const bool edges = vp_bool("edges"), bdrs = vp_bool("bdrs"), numbers = vp_bool("numbers"), print = vp_bool("print"),
             increment = vp_bool("increment");
  Options k = {false, false, false, false, false};
  if (edges)
    k.edges = true;
  if (bdrs)
    k.bdrs = true;
  if (numbers)
    k.numbers = true;
  if (print)
    k.print = true;
  if (increment)
    k.increment = true;
  Case<d, s, 1, 1, 1, true>::run(1, k);
}
VP_CONTRACT(options_1_1) { any_options<1, 1>(); }
VP_CONTRACT(options_2_2) { any_options<2, 2>(); }
VP_CONTRACT(nothing) { Case<1, 2, 1, 1, 1, true>::run(2, {false, false, false, true, true}); }

VP_CONTRACT(empty_names)
{
  {
    const MockConfig<1> c(1, 1);
    typedef Case<1, 1, 1, 1, 1, true> C;
    C::Graph g(c, c);
    const C::Solver solver(1.);
    const Vec x(c.n_nodes[1], 0.);
    PlotOptions o = C::options({true, false, false, true, true});
    const bool dir = vp_bool("dir"), name = vp_bool("name");
    if (dir)
      o.outputDir = "";
    if (name)
      o.fileName = "";
    vp_abort_expected(dir | name, "only empty names are rejected");
    plot(g, solver, x, o);
    vp_check(!(dir | name), "empty names are rejected");
  }
  vp_reach("done");
}

// the loops plot their own hypergraph, solver and options
template <template <class, class, class, class, typename, typename> class LoopT>
void loop()
{
  typedef Case<1, 2, 2, 2, 1, true> C;
  {
    const MockConfig<1> c(2, 3);
    const double par = vp_real("par"), time = vp_real("time");
    LoopT<MockTopology<1, 2>, PlotGeometry<1, 2>, MockNodes<1, 2>, C::Solver, Vec, unsigned int> l(c, c, par);
    Vec x(2 * c.n_nodes[1]);
    for (unsigned int i = 0; i < x.size(); ++i)
      x[i] = vp_real("x");
    vp_check(l.plot_option("outputDir") == "output" && l.plot_option("fileName") == "example", "default options");
    l.plot_option("outputDir", "plots");
    l.plot_option("fileName", "loop");
    vp_check(l.plot_option("outputDir") == "plots" && l.plot_option("fileName") == "loop", "options are set");
    l.plot_option("plotEdgeBoundaries", "true");
    PlotOptions before;
    before.plot_edge_boundaries = true;
#ifdef VP_NATIVE
    std::cout.setstate(std::ios::failbit);
#endif
    l.plot_solution(x, time);
    C::file("plots/loop.0.vtu", c, x, par, time, before);
    l.plot_solution(x);
    C::file("plots/loop.1.vtu", c, x, par, 0., before);
  }
  vp_reach("done");
}
VP_CONTRACT(loop_elliptic) { loop<GlobalLoop::Elliptic>(); }
VP_CONTRACT(loop_parabolic) { loop<GlobalLoop::Parabolic>(); }
VP_CONTRACT(loop_mass_approx) { loop<GlobalLoop::MassApproxEigenvalue>(); }
VP_CONTRACT(loop_shifted) { loop<GlobalLoop::ShiftedInverseEigenvalue>(); }
VP_CONTRACT(loop_nonlinear) { loop<GlobalLoop::NonlinearEigenvalue>(); }

// cells of a subdivided hyperedge
template <unsigned int d>
void subdivision(const unsigned int n)
{
  {
    const uint32_t offset = vp_u32("offset", 0, 1000000);
    std::ostringstream out;
    PlotFunctions::vtu_sub_cube_connectivity<d>(out, n, offset);
    std::istringstream t(out.str());
    unsigned int m = 1;
    for (unsigned int k = 0; k < d; ++k)
      m *= n - 1;
    for (unsigned int c = 0; c < m; ++c)
      for (unsigned int p = 0; p < (1u << d); ++p)
      {
        unsigned int i = 0, stride = 1;
        for (unsigned int k = 0, r = c; k < d; ++k, r /= n - 1, stride *= n)
          i += stride * (r % (n - 1) + ((p >> k) & 1));
        uint32_t z = 0xffffffffu;
        t >> z;
        vp_check(z == offset + i, "vertices of a cell of the subdivision");
      }
    ended(t, "no further cells");
  }
  vp_reach("done");
}
VP_CONTRACT(subdivision_1) { subdivision<1>(5); }
VP_CONTRACT(subdivision_2) { subdivision<2>(4); }
VP_CONTRACT(subdivision_3) { subdivision<3>(3); }
