// P27: hypergraphs from a file with arbitrarily many hyperedges, hypernodes and points.  What the file says is arbitrary
// (uninterpreted functions of the indices); reading it is the subject of P21 and of P27_file.
#include "anymapping.hxx"
#include "vp.hxx"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/file.hxx>

static constexpr unsigned int ipow(unsigned int b, unsigned int e) { return e == 0 ? 1 : b * ipow(b, e - 1); }

// what the file says
static uint32_t n_edges, n_nodes, n_points, n_props;
static bool unit;  // the points of all hyperedges are those of the unit cube
template <unsigned int d>
struct FileData
{
  static uint32_t node(const uint32_t e, const unsigned int f)
  {
    const uint64_t r = vp_ufi("node", 2, (uint64_t)e, (uint64_t)(vp_symbolic() ? f : 0));
    return vp_symbolic() ? (uint32_t)r : (uint32_t)((r + f) % n_nodes);
  }
  static uint32_t type(const uint32_t e, const unsigned int f) { return (uint32_t)vp_ufi("type", 2, (uint64_t)e, (uint64_t)f); }
  static uint32_t point(const uint32_t e, const unsigned int v)
  {
    if (unit)
      return v;
    const uint64_t r = vp_ufi("point", 2, (uint64_t)e, (uint64_t)v);
    return vp_symbolic() ? (uint32_t)r : (uint32_t)(r % n_points);
  }
  static double coordinate(const uint32_t p, const unsigned int j)
  {
    return unit ? (double)(j < d ? (p >> j) & 1u : 0u) : vp_uf("coordinate", 2, (uint64_t)p, (uint64_t)j);
  }
  static double property(const uint32_t e, const uint32_t k) { return vp_uf("property", 2, (uint64_t)e, (uint64_t)k); }
  // consistency of the file (P21), for hyperedge e
  static void consistent(const uint32_t e)
  {
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      vp_assume(node(e, f) < n_nodes);
      for (unsigned int g = 0; g < f; ++g)
        vp_assume(node(e, f) != node(e, g));
    }
    for (unsigned int v = 0; v < (1u << d); ++v)
      vp_assume(unit | (point(e, v) < n_points));
  }
};
enum
{
  POINTS,
  NODES,
  TYPES,
  VERTICES,
  PROPERTIES,
  PROPERTY
};
// the entries of the lists, by the role the list plays in the description of the domain
template <typename T>
struct Entry;
template <unsigned int s, typename P>
struct Entry<SmallMat<s, 1, P>>
{
  static const SmallMat<s, 1, P>& get(const int, const uint32_t, const uint32_t i, const unsigned int d)
  {
    SmallMat<s, 1, P>* x = new SmallMat<s, 1, P>();
    for (unsigned int j = 0; j < s; ++j)
      (*x)[j] = d == 1 ? FileData<1>::coordinate(i, j) : d == 2 ? FileData<2>::coordinate(i, j) : FileData<3>::coordinate(i, j);
    return *x;
  }
};
template <std::size_t n>
struct Entry<std::array<unsigned int, n>>
{
  static const std::array<unsigned int, n>& get(const int role, const uint32_t, const uint32_t i, const unsigned int d)
  {
    std::array<unsigned int, n>* x = new std::array<unsigned int, n>();
    for (unsigned int j = 0; j < n; ++j)
      if (role == NODES)
        (*x)[j] = d == 1 ? FileData<1>::node(i, j) : d == 2 ? FileData<2>::node(i, j) : FileData<3>::node(i, j);
      else if (role == TYPES)
        (*x)[j] = d == 1 ? FileData<1>::type(i, j) : d == 2 ? FileData<2>::type(i, j) : FileData<3>::type(i, j);
      else
        (*x)[j] = d == 1 ? FileData<1>::point(i, j) : d == 2 ? FileData<2>::point(i, j) : FileData<3>::point(i, j);
    return *x;
  }
};
template <>
struct Entry<double>
{
  static const double& get(const int, const uint32_t of, const uint32_t i, const unsigned int)
  {
    return *new double(FileData<1>::property(of, i));
  }
};
template <typename... Ts>
struct AnyVector;
template <typename T>
struct AnyVector<T>
{
  typedef T value_type;
  int role = -1;
  uint32_t of = 0, n = 0;
  unsigned int d = 0;
  AnyVector(const uint32_t n_ = 0) : n(n_) {}
  AnyVector(const int r, const uint32_t o, const uint32_t n_, const unsigned int d_) : role(r), of(o), n(n_), d(d_) {}
  std::size_t size() const { return n; }
  bool empty() const { return n == 0; }
  const T& operator[](const std::size_t i) const
  {
    vp_check(i < n, "only existing entries of the file are used");
    return Entry<T>::get(role, of, (uint32_t)i, d);
  }
  const T& at(const std::size_t i) const { return (*this)[i]; }
};
template <typename T>
struct Entry<AnyVector<T>>
{
  static const AnyVector<T>& get(const int, const uint32_t, const uint32_t i, const unsigned int d)
  {
    return *new AnyVector<T>(PROPERTY, i, n_props, d);
  }
};

template <unsigned int d, unsigned int s>
DomainInfo<d, s, AnyVector, Point<s, double>> any_domain()
{
  typedef DomainInfo<d, s, AnyVector, Point<s, double>> D;
  D r(n_points, n_edges, n_nodes, n_points);
  typedef std::decay_t<decltype(r.points)> Points;
  r.points = Points(POINTS, 0u, n_points, d);
  r.hyNodes_hyEdge = std::decay_t<decltype(r.hyNodes_hyEdge)>(NODES, 0u, n_edges, d);
  r.hyFaces_hyEdge = std::decay_t<decltype(r.hyFaces_hyEdge)>(TYPES, 0u, n_edges, d);
  r.points_hyEdge = std::decay_t<decltype(r.points_hyEdge)>(VERTICES, 0u, n_edges, d);
  r.n_properties = n_props;
  r.hyEdge_properties = std::decay_t<decltype(r.hyEdge_properties)>(PROPERTIES, 0u, n_props > 0 ? n_edges : 0u, d);
  return r;
}
#define READ(d, s)                                                                                                 \
  template <>                                                                                                      \
  DomainInfo<d, s, AnyVector, Point<s, double>> read_domain<d, s, AnyVector, Point<s, double>, unsigned int, unsigned int, unsigned int>( \
    std::string)                                                                                                   \
  {                                                                                                                \
    return any_domain<d, s>();                                                                                     \
  }
READ(1, 1) READ(1, 2) READ(1, 3) READ(2, 2) READ(2, 3) READ(3, 3)

// where part i of a refined hyperedge lies within it, read off the geometry of a unit cube
template <unsigned int d, unsigned int s, typename G>
void position(const G& g, const unsigned int r, unsigned int (&c)[d])
{
  const Point<d, double> zero(0.);
  const Point<s, double> o = g.map_ref_to_phys(zero);
  for (unsigned int k = 0; k < d; ++k)
  {
    c[k] = (unsigned int)(o[k] * r + .25);
    const double e = o[k] * r - c[k];
    vp_check((e < 1e-8) & (e > -1e-8) & (c[k] < r), "parts of a refined hyperedge lie on its lattice");
    if (c[k] >= r)
      c[k] = 0;
  }
}
template <unsigned int d, unsigned int s>
struct Case
{
  typedef FileData<d> F;
  typedef Topology::File<d, s, AnyVector> Topo;
  typedef NodeDescriptor::File<d, s, AnyVector> Nodes;
  typedef Geometry::File<d, s, AnyVector, Point<s, double>, AnyMapping> Geo;
  static void file(const uint32_t props)
  {
    n_edges = vp_u32("n_edges", 1, 1u << 20);
    n_nodes = vp_u32("n_nodes", 2 * d, 1u << 20);
    n_points = vp_u32("n_points", 1 << d, 1u << 20);
    n_props = props;
  }
  template <unsigned int r>
  static void positions(unsigned int (&c)[ipow(r, d)][d])
  {
    constexpr unsigned int per = ipow(r, d);
    const uint32_t e = n_edges, p = n_points;
    unit = true;
    n_edges = 1;
    n_points = 1 << d;
    Topo t("unit.geo");
    t.set_refinement(r);
    const Geo g(t);
    bool used[per];
    for (unsigned int i = 0; i < per; ++i)
      used[i] = false;
    for (unsigned int i = 0; i < per; ++i)
    {
      position<d, s>(g[i], r, c[i]);
      unsigned int key = 0;
      for (unsigned int k = d; k > 0; --k)
        key = key * r + c[i][k - 1];
      vp_check(!used[key], "the parts of a refined hyperedge are different");
      used[key] = true;
    }
    unit = false;
    n_edges = e;
    n_points = p;
  }
  // the faces of the parts of hyperedges ea and eb
  template <unsigned int r, bool refined>
  static void topology()
  {
    {
      constexpr unsigned int per = ipow(r, d), per_face = ipow(r, d - 1), inner = d * (r - 1) * per_face;
      file(0);
      const uint32_t E[2] = {vp_u32("e", 0, 1u << 20), vp_u32("e", 0, 1u << 20)};
      unsigned int c[per][d];
      positions<r>(c);
      Topo t("any.geo");
      Nodes nd0(t);
      if (refined)
        nd0.set_refinement(r);
      if (r != 1 || refined)
        t.set_refinement(r);
      const Nodes nd(t);
      const Nodes& types_of = refined ? nd0 : nd;
      vp_check((t.get_refinement() == r) & (types_of.get_refinement() == r), "refinement");
      vp_check(t.n_hyEdges() == n_edges * per, "number of hyperedges");
      vp_check(t.n_hyNodes() == n_nodes * per_face + n_edges * inner, "number of hypernodes");
      uint32_t index[2][per * 2 * d], coarse[2][per * 2 * d];
      unsigned int place[per * 2 * d];
      for (unsigned int a = 0; a < 2; ++a)
      {
        vp_assume(E[a] < n_edges);
        F::consistent(E[a]);
        for (unsigned int i = 0; i < per; ++i)
        {
          const auto nodes = t[E[a] * per + i].get_hyNode_indices();
          const auto types = types_of[E[a] * per + i];
          for (unsigned int f = 0; f < 2 * d; ++f)
          {
            const unsigned int k = f / 2, pos = c[i][k] + f % 2, at = i * 2 * d + f;
            const bool interior = pos != 0 && pos != r;
            unsigned int p = 0;  // position in the face
            for (unsigned int j = d; j > 0; --j)
              if (j - 1 != k)
                p = p * r + c[i][j - 1];
            place[at] = interior ? (k * r + pos) * per_face + p : p;
            coarse[a][at] = interior ? (1u << 31) + E[a] : F::node(E[a], f);
            index[a][at] = nodes[f];
            vp_check(nodes[f] < t.n_hyNodes(), "hypernode indices are in range");
            vp_check(types[f] == (interior ? 0 : F::type(E[a], f)), "types: those of the file, 0 inside of a hyperedge");
          }
        }
      }
      for (unsigned int i = 0; i < per * 2 * d; ++i)
      {
        bool same = true, other = true;
        for (unsigned int k = 0; k < i; ++k)
          same &= (index[0][i] == index[0][k]) == ((coarse[0][i] == coarse[0][k]) & (place[i] == place[k]));
        for (unsigned int k = 0; k < per * 2 * d; ++k)
          other &= (index[0][i] == index[1][k]) == ((coarse[0][i] == coarse[1][k]) & (place[i] == place[k]));
        vp_check(same, "hypernodes of a hyperedge coincide exactly if the faces do");
        vp_check(other, "hypernodes coincide exactly if the faces do");
      }
    }
    vp_reach("done");
  }
  template <unsigned int r, bool refined>
  static void geometry()
  {
    {
      constexpr unsigned int per = ipow(r, d);
      file(d == 2 ? 0 : 2);
      const uint32_t e = vp_u32("e", 0, 1u << 20);
      unsigned int c[per][d];
      positions<r>(c);
      Topo t("any.geo");
      if (!refined)
        t.set_refinement(r);
      Geo G(t);
      if (refined)
        G.set_refinement(r);
      vp_check(G.get_refinement() == r, "refinement");
      vp_assume(e < n_edges);
      F::consistent(e);
      Point<d, double> x;
      for (unsigned int k = 0; k < d; ++k)
      {
        x[k] = vp_real("x");
        vp_assume((x[k] >= 0.) & (x[k] <= 1.));
      }
      for (unsigned int i = 0; i < per; ++i)
      {
        auto g = G[e * per + i];
        Point<s, double> tr;
        SmallMat<s, d, double> m;
        for (unsigned int j = 0; j < s; ++j)
        {
          const double o = F::coordinate(F::point(e, 0), j);
          tr[j] = o;
          for (unsigned int k = 0; k < d; ++k)
          {
            m(j, k) = (F::coordinate(F::point(e, 1u << k), j) - o) / r;
            tr[j] += c[i][k] * m(j, k);
          }
        }
        const AnyMapping<d, s, double> map(tr, m);
        const Point<s, double> y = g.map_ref_to_phys(std::as_const(x));
        for (unsigned int j = 0; j < s; ++j)
        {
          double z = tr[j];
          for (unsigned int k = 0; k < d; ++k)
          {
            z += m(j, k) * x[k];
            vp_check_eq(g.span_vec(k)[j], m(j, k), "spanning vectors");
          }
          vp_check_eq(y[j], z, "the map is that of the part of the hyperedge");
        }
        const double A = map.functional_determinant_hyEdge(), a = g.area();
        vp_check_eq(a * a, A * A, "area");
        vp_check(g.has_extra_data() == (n_props > 0), "properties exist exactly if the file has them");
        if (n_props > 0)
        {
          const auto& ed = g.extra_data();
          vp_check(ed.size() == n_props, "number of properties");
          for (unsigned int k = 0; k < 2; ++k)
            vp_check_eq(ed[k], F::property(e, k), "properties of the hyperedge");
        }
      }
    }
    vp_reach("done");
  }
};
VP_CONTRACT(any_topology_1_1) { Case<1, 1>::topology<1, false>(); }
VP_CONTRACT(any_topology_1_3) { Case<1, 3>::topology<2, true>(); }
VP_CONTRACT(any_topology_1_2) { Case<1, 2>::topology<3, false>(); }
VP_CONTRACT(any_topology_1_2_finer) { Case<1, 2>::topology<5, true>(); }
VP_CONTRACT(any_topology_2_2) { Case<2, 2>::topology<2, false>(); }
VP_CONTRACT(any_topology_2_3) { Case<2, 3>::topology<2, true>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(any_topology_2_3_fine) { Case<2, 3>::topology<3, true>(); }
#endif
VP_CONTRACT(any_topology_3_3) { Case<3, 3>::topology<2, true>(); }
VP_CONTRACT(any_geometry_1_1) { Case<1, 1>::geometry<1, false>(); }
VP_CONTRACT(any_geometry_1_2) { Case<1, 2>::geometry<2, true>(); }
VP_CONTRACT(any_geometry_1_3) { Case<1, 3>::geometry<3, false>(); }
VP_CONTRACT(any_geometry_1_2_finer) { Case<1, 2>::geometry<7, true>(); }
VP_CONTRACT(any_geometry_2_2) { Case<2, 2>::geometry<2, true>(); }
VP_CONTRACT(any_geometry_2_3) { Case<2, 3>::geometry<3, false>(); }
VP_CONTRACT(any_geometry_3_3) { Case<3, 3>::geometry<2, false>(); }

template <unsigned int d, unsigned int s, unsigned int r>
void range()
{
  {
    typedef Case<d, s> C;
    C::file(0);
    const uint32_t i = vp_u32("i", 0, 0xffffffffu);
    const bool bad = i >= n_edges * ipow(r, d);
    const uint32_t which = vp_u32("which", 0, 2);
    typename C::Topo t("any.geo");
    t.set_refinement(r);
    const typename C::Geo g(t);
    const typename C::Nodes nd(t);
    vp_abort_expected(bad, "only hyperedges that do not exist are rejected");
    if (bad)
    {
      if (which == 0)
        const auto e = t[i];
      else if (which == 1)
        const auto e = g[i];
      else
        const auto e = nd[i];
      vp_check(!bad, "hyperedges that do not exist are rejected");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(any_range_1_2) { range<1, 2, 3>(); }
VP_CONTRACT(any_range_2_2) { range<2, 2, 2>(); }
