// P27: the hypergraph that is read from a file: topology, geometry and node types, refined and not
#include "anymapping.hxx"
#include "vp.hxx"
#include <HyperHDG/geometry/file.hxx>
#include <HyperHDG/node_descriptor/file.hxx>
#include <HyperHDG/topology/file.hxx>

static constexpr unsigned int ipow(unsigned int b, unsigned int e) { return e == 0 ? 1 : b * ipow(b, e - 1); }

#ifndef VP_NATIVE
// callee contract (P21): the consistency check tells whether indices are in range and different, and changes nothing
template <unsigned int d, unsigned int s>
bool consistent(const DomainInfo<d, s, std::vector, Point<s, double>>& i)
{
  bool ok = (i.points.size() == i.n_points) & (i.hyNodes_hyEdge.size() == i.n_hyEdges) &
            (i.hyFaces_hyEdge.size() == i.n_hyEdges) & (i.points_hyEdge.size() == i.n_hyEdges);
  for (unsigned int e = 0; e < i.hyNodes_hyEdge.size(); ++e)
    for (unsigned int k = 0; k < 2 * d; ++k)
    {
      ok &= i.hyNodes_hyEdge[e][k] < i.n_hyNodes;
      for (unsigned int l = 0; l < k; ++l)
        ok &= i.hyNodes_hyEdge[e][k] != i.hyNodes_hyEdge[e][l];
    }
  for (unsigned int e = 0; e < i.points_hyEdge.size(); ++e)
    for (unsigned int k = 0; k < (1 << d); ++k)
    {
      ok &= i.points_hyEdge[e][k] < i.n_points;
      for (unsigned int l = 0; l < k; ++l)
        ok &= i.points_hyEdge[e][k] != i.points_hyEdge[e][l];
    }
  for (unsigned int e = 0; e < i.n_hyEdges; ++e)
    for (unsigned int f = 0; f < e; ++f)
    {
      bool same = true, samev = true;
      for (unsigned int k = 0; k < 2 * d; ++k)
        same &= i.hyNodes_hyEdge[e][k] == i.hyNodes_hyEdge[f][k];
      for (unsigned int k = 0; k < (1 << d); ++k)
        samev &= i.points_hyEdge[e][k] == i.points_hyEdge[f][k];
      ok &= !same & !samev;
    }
  for (unsigned int a = 0; a < i.n_points; ++a)
    for (unsigned int b = 0; b < a; ++b)
    {
      bool same = true;
      for (unsigned int j = 0; j < s; ++j)
        same &= i.points[a][j] == i.points[b][j];
      ok &= !same;
    }
  return ok;
}
#define CC(d, s)                                                                                                    \
  extern "C" bool vpc___ZN10DomainInfoILj##d##ELj##s##ESt6vector8SmallMatILj##s##ELj1EdEjjjE17check_consistencyEv( \
    DomainInfo<d, s, std::vector, Point<s, double>>* i)                                                            \
  {                                                                                                                \
    return consistent<d, s>(*i);                                                                                   \
  }
CC(1, 1) CC(1, 2) CC(1, 3) CC(2, 2) CC(2, 3) CC(3, 3)
#endif

// A domain of nE hyperedges.  The points of hyperedge 0 are those of the unit cube, the points of the others are arbitrary.
template <unsigned int d, unsigned int s, unsigned int nE, unsigned int nK>
struct Domain
{
  static constexpr unsigned int nF = 2 * d, nV = 1 << d, nP = nE * nV;
  double pt[nP][s], prop[nE][nK + 1];
  unsigned int node[nE][nF], type[nE][nF], n_nodes;
  enum
  {
    NODES = 1,
    POINTS = 2
  };
  Domain(const unsigned int parts)
  {
    n_nodes = parts & NODES ? vp_u32("n_nodes", 1, 1000) : nE * nF;
    for (unsigned int e = 0; e < nE; ++e)
      for (unsigned int v = 0; v < nV; ++v)
        for (unsigned int j = 0; j < s; ++j)
          pt[e * nV + v][j] = (parts & POINTS) && e > 0 ? vp_real("coordinate") : (j < d ? (v >> j) & 1 : 0) + 2. * e;
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nF; ++i)
      {
        node[e][i] = parts & NODES ? vp_u32("node", 0, 999) : e * nF + i;
        type[e][i] = parts & NODES ? vp_u32("type", 0, 4000000000u) : e + i;
        vp_assume(node[e][i] < n_nodes);
        for (unsigned int j = 0; j < i; ++j)
          vp_assume(node[e][i] != node[e][j]);
      }
      for (unsigned int f = 0; f < e; ++f)
      {
        bool same = true;
        for (unsigned int i = 0; i < nF; ++i)
          same &= node[e][i] == node[f][i];
        vp_assume(!same);
      }
      for (unsigned int i = 0; i < nK; ++i)
        prop[e][i] = vp_real("property");
    }
    for (unsigned int i = nV; i < nP; ++i)
      for (unsigned int k = 0; k < i; ++k)
      {
        bool same = true;
        for (unsigned int j = 0; j < s; ++j)
          same &= pt[i][j] == pt[k][j];
        vp_assume(!same);
      }
  }
  void write(const char* name) const
  {
    std::ofstream f(name);
    f.precision(17);
    f << "Space_Dim = " << s << std::endl;
    f << "HyperEdge_Dim = " << d << std::endl;
    f << "N_Points = " << nP << std::endl;
    f << "N_HyperNodes = " << n_nodes << std::endl;
    f << "N_HyperEdges = " << nE << std::endl;
    f << "POINTS:" << std::endl;
    for (unsigned int i = 0; i < nP; ++i)
    {
      for (unsigned int j = 0; j < s; ++j)
        f << (j ? " " : "") << pt[i][j];
      f << std::endl;
    }
    f << "HYPERNODES_OF_HYPEREDGES:" << std::endl;
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nF; ++i)
        f << (i ? " " : "") << node[e][i];
      f << std::endl;
    }
    f << "TYPES_OF_HYPERFACES:" << std::endl;
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nF; ++i)
        f << (i ? " " : "") << type[e][i];
      f << std::endl;
    }
    f << "POINTS_OF_HYPEREDGES:" << std::endl;
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nV; ++i)
        f << (i ? " " : "") << e * nV + i;
      f << std::endl;
    }
    if (nK > 0)
    {
      f << "HYPEREDGE_PROPERTIES: " << nK << std::endl;
      for (unsigned int e = 0; e < nE; ++e)
      {
        for (unsigned int i = 0; i < nK; ++i)
          f << (i ? " " : "") << prop[e][i];
        f << std::endl;
      }
    }
  }
};

template <unsigned int d, unsigned int s, template <unsigned int, unsigned int, typename> typename map>
using Geo = Geometry::File<d, s, std::vector, Point<s, double>, map>;

// where hyperedge i of a refined hypergraph lies within its coarse hyperedge, read off the geometry of a unit cube
template <unsigned int d, unsigned int s, typename G>
void position(const G& g, const unsigned int r, unsigned int (&c)[d])
{
  const Point<s, double> o = g.map_ref_to_phys(std::as_const(static_cast<const Point<d, double>&>(Point<d, double>(0.))));
  for (unsigned int k = 0; k < d; ++k)
  {
    c[k] = (unsigned int)(o[k] * r + .25);
    const double e = o[k] * r - c[k];
    vp_check((e < 1e-8) & (e > -1e-8) & (c[k] < r), "parts of a refined hyperedge lie on its lattice");
    if (c[k] >= r)
      c[k] = 0;
  }
}

template <unsigned int d, unsigned int s, unsigned int nE, unsigned int nK>
struct Case
{
  typedef Domain<d, s, nE, nK> D;
  typedef Topology::File<d, s> Topo;
  typedef NodeDescriptor::File<d, s> Nodes;
  template <unsigned int r>
  static void topology(const D& dom, const Topo& t, const Nodes& nd, const Geo<d, s, AnyMapping>& g)
  {
    constexpr unsigned int per = ipow(r, d), per_face = ipow(r, d - 1), inner = d * (r - 1) * per_face;
    vp_check((t.get_refinement() == r) & (nd.get_refinement() == r) & (g.get_refinement() == r), "refinement");
    vp_check((t.hyEdge_dim() == d) & (nd.hyEdge_dim() == d) & (g.hyEdge_dim() == d) & (t.space_dim() == s) & (nd.space_dim() == s) &
               (g.space_dim() == s) & (g[0].hyEdge_dim() == d) & (g[0].space_dim() == s),
             "dimensions");
    vp_check(t.n_hyEdges() == nE * per, "number of hyperedges");
    vp_check(t.n_hyNodes() == dom.n_nodes * per_face + nE * inner, "number of hypernodes");
    unsigned int coarse[nE * per * 2 * d], sub[nE * per * 2 * d], index[nE * per * 2 * d];
    bool used[per];
    for (unsigned int i = 0; i < per; ++i)
      used[i] = false;
    for (unsigned int i = 0; i < per; ++i)
    {
      unsigned int c[d], key = 0;
      position<d, s>(g[i], r, c);
      for (unsigned int k = d; k > 0; --k)
        key = key * r + c[k - 1];
      vp_check(!used[key], "the parts of a refined hyperedge are different");
      used[key] = true;
      for (unsigned int e = 0; e < nE; ++e)
      {
        const auto nodes = t[e * per + i].get_hyNode_indices();
        const auto nodes2 = t.get_hyEdge(e * per + i).get_hyNode_indices();
        const auto types = nd[e * per + i];
        vp_check(nodes.size() == 2 * d, "one hypernode per face");
        vp_check((t[e * per + i].n_hyNodes() == 2 * d) & (types.n_hyNodes() == 2 * d), "number of hypernodes of a hyperedge");
        vp_check((types.hyEdge_dim() == d) & (types.space_dim() == s), "dimensions of a hyperedge");
        for (unsigned int f = 0; f < 2 * d; ++f)
        {
          const unsigned int k = f / 2, pos = c[k] + f % 2, at = (e * per + i) * 2 * d + f;
          const bool interior = pos != 0 && pos != r;
          unsigned int p = 0;  // position in the face
          for (unsigned int j = d; j > 0; --j)
            if (j - 1 != k)
              p = p * r + c[j - 1];
          coarse[at] = interior ? 1000 + (e * d + k) * r + pos : dom.node[e][f];
          sub[at] = p;
          index[at] = nodes[f];
          vp_check(nodes[f] == nodes2[f], "both ways to ask for a hyperedge agree");
          vp_check(nodes[f] < t.n_hyNodes(), "hypernode indices are in range");
          vp_check(types[f] == (interior ? 0 : dom.type[e][f]), "types: those of the file, 0 inside of a hyperedge");
          vp_check(types.get_hyFaces_types()[f] == types[f], "both ways to ask for a type agree");
        }
      }
    }
    for (unsigned int a = 0; a < nE * per * 2 * d; ++a)
      for (unsigned int b = 0; b < a; ++b)
        vp_check((index[a] == index[b]) == ((coarse[a] == coarse[b]) & (sub[a] == sub[b])),
                 "hypernodes coincide exactly if the faces do");
  }
  template <unsigned int r1, unsigned int r2>
  static void topologies()
  {
    {
      const D dom(D::NODES);
      dom.write("topology.geo");
      Topo t("topology.geo");
      Geo<d, s, AnyMapping> g(t);
      Nodes nd(t);
      topology<1>(dom, t, nd, g);
      if constexpr (r1 != 1)
      {
        t.set_refinement(r1);
        g.set_refinement(r1);
        nd.set_refinement(r1);
        topology<r1>(dom, t, nd, g);
        const Topo t2(t);
        const Geo<d, s, AnyMapping> g2(t);
        const Nodes nd2(t);
        topology<r1>(dom, t2, nd2, g2);
        const Nodes nd3(nd);
        topology<r1>(dom, t2, nd3, g2);
      }
      if constexpr (r2 != 0)
      {
        t.set_refinement(r2);
        g.set_refinement(r2);
        nd.set_refinement(r2);
        topology<r2>(dom, t, nd, g);
      }
    }
    vp_reach("done");
  }
  template <unsigned int r>
  static void geometry_part(const D& dom, const Geo<d, s, AnyMapping>& G, const unsigned int e, const unsigned int i, const unsigned int (&c)[d],
                            const SmallMat<d, 2, double>& x)
  {
    constexpr unsigned int per = ipow(r, d);
    auto g = G[e * per + i];
    // the affine map of the part
    Point<s, double> tr;
    SmallMat<s, d, double> m;
    for (unsigned int j = 0; j < s; ++j)
    {
      tr[j] = dom.pt[e * D::nV][j];
      for (unsigned int k = 0; k < d; ++k)
      {
        m(j, k) = (dom.pt[e * D::nV + (1 << k)][j] - dom.pt[e * D::nV][j]) / r;
        tr[j] += c[k] * m(j, k);
      }
    }
    const AnyMapping<d, s, double> map(tr, m);
    const SmallMat<s, 2, double> y = g.map_ref_to_phys(x);
    for (unsigned int v = 0; v < 2; ++v)
      for (unsigned int j = 0; j < s; ++j)
      {
        double z = tr[j];
        for (unsigned int k = 0; k < d; ++k)
          z += m(j, k) * x(k, v);
        vp_check_eq(y(j, v), z, "the map is that of the part of the hyperedge");
      }
    if constexpr (d == s)
    {
      SmallMat<s, 2, double> z = x;
      SmallMat<s, 2, double>& w = g.map_ref_to_phys(z);
      vp_check(&w == &z, "the in-place map returns its argument");
      for (unsigned int k = 0; k < z.size(); ++k)
        vp_check_eq(z[k], y[k], "the in-place map is the same");
    }
    for (unsigned int k = 0; k < d; ++k)
      for (unsigned int j = 0; j < s; ++j)
        vp_check_eq(g.span_vec(k)[j], m(j, k), "spanning vectors");
    for (unsigned int k = 0; k < d * d; ++k)
      vp_check_eq(g.mat_r()[k], map.mat_r()[k], "matrix R");
    for (unsigned int k = 0; k < s * s; ++k)
      vp_check_eq(g.mat_q()[k], map.mat_q()[k], "matrix Q");
    const double A = map.functional_determinant_hyEdge(), a = g.area();
    vp_check(a >= 0., "the area is not negative");
    vp_check_eq(a * a, A * A, "area");
    for (unsigned int f = 0; f < 2 * d; ++f)
    {
      const double B = map.functional_determinant_hyNode(f / 2), b = g.face_area(f), sign = f % 2 ? -1. : 1.;
      vp_check(b >= 0., "the area of a face is not negative");
      vp_check_eq(b * b, B * B, "area of a face");
      const Point<d, double> ln = g.local_normal(f), ln0 = map.local_normal(f / 2);
      for (unsigned int k = 0; k < d; ++k)
        vp_check_eq(ln[k], sign * ln0[k], "local normals of opposite faces are opposite");
      const Point<s, double> in = g.inner_normal(f), in0 = map.inner_normal(f / 2), fb = g.face_barycenter(f);
      for (unsigned int j = 0; j < s; ++j)
      {
        vp_check_eq(in[j], sign * in0[j], "inner normals of opposite faces are opposite");
        double z = tr[j];
        for (unsigned int k = 0; k < d; ++k)
          z += m(j, k) * (k == f / 2 ? (double)(f % 2) : .5);
        vp_check_eq(fb[j], z, "face barycentre");
      }
    }
    for (unsigned int k = 0; k < s - d; ++k)
    {
      const Point<s, double> o = g.outer_normal(k), o0 = map.outer_normal(k);
      for (unsigned int j = 0; j < s; ++j)
        vp_check_eq(o[j], o0[j], "outer normals");
    }
    // tensorial points
    SmallVec<3, double> ab;
    for (unsigned int k = 0; k < 3; ++k)
      ab[k] = x[0] * .25 + .25 * k;
    constexpr unsigned int n3 = ipow(3, d);
    for (unsigned int p = 0; p < n3; p += d == 3 ? 5 : 1)
    {
      const Point<s, double> z = g.template lexicographic<3>(p, ab);
      for (unsigned int j = 0; j < s; ++j)
      {
        double w = tr[j];
        for (unsigned int k = 0, q = p; k < d; ++k, q /= 3)
          w += m(j, k) * ab[q % 3];
        vp_check_eq(z[j], w, "lexicographic points");
      }
    }
    const double sc = x[1] * .5 + .5;
    for (unsigned int f = 0; f < 2 * d; ++f)
      for (unsigned int p = 0; p < n3 / 3; p += d == 3 ? 2 : 1)
      {
        const Point<s, double> z = g.template boundary_lexicographic<3>(p, f, (float)sc, ab);
        for (unsigned int j = 0; j < s; ++j)
        {
          double w = tr[j];
          for (unsigned int k = 0, q = p; k < d; ++k)
            if (k == f / 2)
              w += m(j, k) * (sc * ((double)(f % 2) - .5) + .5);
            else
            {
              w += m(j, k) * ab[q % 3];
              q /= 3;
            }
          vp_check_eqf(z[j], w, "lexicographic points of a face");
        }
      }
    vp_check(g.has_extra_data() == (nK > 0), "properties exist exactly if the file has them");
    if constexpr (nK > 0)
    {
      const auto& ed = g.extra_data();
      vp_check(ed.size() == nK, "number of properties");
      for (unsigned int k = 0; k < nK; ++k)
        vp_check_eq(ed[k], dom.prop[e][k], "properties of the hyperedge");
    }
  }
  template <unsigned int r1, unsigned int r2>
  static void geometries()
  {
    {
      const D dom(D::POINTS);
      SmallMat<d, 2, double> x;
      for (unsigned int i = 0; i < x.size(); ++i)
      {
        x[i] = vp_real("x");
        vp_assume((x[i] >= 0.) & (x[i] <= 1.));
      }
      dom.write("geometry.geo");
      Topo t("geometry.geo");
      t.set_refinement(r1);
      Geo<d, s, AnyMapping> g(t);
      vp_check(g.get_refinement() == r1, "the geometry has the refinement of the topology");
      geometry_all<r1>(dom, g, x);
      if constexpr (r2 != 0)
      {
        g.set_refinement(r2);
        vp_check(g.get_refinement() == r2, "refinement of the geometry");
        geometry_all<r2>(dom, g, x);
        const Geo<d, s, AnyMapping> g2(g);
        geometry_all<r2>(dom, g2, x);
      }
    }
    vp_reach("done");
  }
  template <unsigned int r>
  static void geometry_all(const D& dom, const Geo<d, s, AnyMapping>& g, const SmallMat<d, 2, double>& x)
  {
    constexpr unsigned int per = ipow(r, d);
    bool used[per];
    for (unsigned int i = 0; i < per; ++i)
      used[i] = false;
    for (unsigned int i = 0; i < per; ++i)
    {
      unsigned int c[d], key = 0;
      position<d, s>(g[i], r, c);
      for (unsigned int k = d; k > 0; --k)
        key = key * r + c[k - 1];
      vp_check(!used[key], "the parts of a refined hyperedge are different");
      used[key] = true;
      for (unsigned int e = 0; e < nE; ++e)
        geometry_part<r>(dom, g, e, i, c, x);
    }
  }
};
VP_CONTRACT(topology_1_1) { Case<1, 1, 2, 0>::topologies<3, 2>(); }
VP_CONTRACT(topology_1_3) { Case<1, 3, 3, 0>::topologies<2, 1>(); }
VP_CONTRACT(topology_2_2) { Case<2, 2, 2, 0>::topologies<2, 0>(); }
VP_CONTRACT(topology_2_3) { Case<2, 3, 1, 0>::topologies<3, 1>(); }
VP_CONTRACT(topology_3_3) { Case<3, 3, 1, 0>::topologies<2, 0>(); }
VP_CONTRACT(geometry_1_1) { Case<1, 1, 2, 1>::geometries<1, 3>(); }
VP_CONTRACT(geometry_1_2) { Case<1, 2, 3, 2>::geometries<2, 1>(); }
VP_CONTRACT(geometry_1_3) { Case<1, 3, 2, 0>::geometries<1, 2>(); }
VP_CONTRACT(geometry_2_2) { Case<2, 2, 2, 1>::geometries<1, 2>(); }
VP_CONTRACT(geometry_2_3) { Case<2, 3, 2, 0>::geometries<1, 2>(); }
VP_CONTRACT(geometry_3_3) { Case<3, 3, 2, 0>::geometries<1, 0>(); }
VP_CONTRACT(geometry_3_3_refined) { Case<3, 3, 2, 0>::geometries<2, 0>(); }

// hyperedges that do not exist, points outside of the reference element
template <unsigned int d, unsigned int s, unsigned int r, unsigned int which>
void out_of_range()
{
  {
    const Domain<d, s, 2, 0> dom(0);
    dom.write("range.geo");
    Topology::File<d, s> t("range.geo");
    t.set_refinement(r);
    const Geometry::File<d, s> g(t);
    const NodeDescriptor::File<d, s> nd(t);
    const unsigned int i = vp_u32("i", 0, 0xffffffffu);
    const bool bad = i >= 2 * ipow(r, d);
    vp_abort_expected(bad, "only hyperedges that do not exist are rejected");
    if (bad || i == 0)
    {
      if (which == 0)
        const auto e = t[i];
      else if (which == 1)
        const auto e = g[i];
      else
        const auto e = nd[i];
      vp_check(!bad, "hyperedges that do not exist are rejected");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(range_topology) { out_of_range<1, 2, 3, 0>(); }
VP_CONTRACT(range_geometry) { out_of_range<1, 2, 3, 1>(); }
VP_CONTRACT(range_nodes) { out_of_range<2, 2, 2, 2>(); }
template <unsigned int d, unsigned int s>
void out_of_reference()
{
  {
    const Domain<d, s, 1, 0> dom(0);
    dom.write("reference.geo");
    const Topology::File<d, s> t("reference.geo");
    const Geometry::File<d, s> g(t);
    SmallMat<d, 2, double> x;
    bool bad = false;
    for (unsigned int i = 0; i < x.size(); ++i)
    {
      x[i] = vp_real("x");
      bad |= (x[i] < 0.) | (x[i] > 1.);
    }
    const auto e = g[0];
    vp_abort_expected(bad, "only points outside of the reference element are rejected");
    const SmallMat<s, 2, double> y = e.map_ref_to_phys(std::as_const(x));
    vp_check(!bad, "points outside of the reference element are rejected");
  }
  vp_reach("done");
}
VP_CONTRACT(reference_1_2) { out_of_reference<1, 2>(); }
VP_CONTRACT(reference_2_2) { out_of_reference<2, 2>(); }
