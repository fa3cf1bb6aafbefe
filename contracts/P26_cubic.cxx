// P26: the cubic hypergraph: topology, geometry and node descriptor describe the same lattice
#include "vp.hxx"
#include <HyperHDG/geometry/unit_cube.hxx>
#include <HyperHDG/node_descriptor/cubic.hxx>
#include <HyperHDG/topology/cubic.hxx>

// lattice position of hyperedge i, read off the geometry: first corner and directions in units of 1 / (n r)
template <unsigned int d, unsigned int s>
struct Cell
{
  unsigned int dir[d], at[s];
};
static unsigned int whole(const double x, bool& ok)
{
  const unsigned int k = (unsigned int)(x + 0.25);
  const double e = x - k;
  ok &= (e < 1e-8) & (e > -1e-8);
  return k;
}

template <unsigned int d, unsigned int s>
struct Lattice
{
  const unsigned int* n;
  unsigned int r;
  unsigned int n_cells() const
  {
    unsigned int sum = 0;
    for (unsigned int m = 0; m < (1u << s); ++m)
      if (__builtin_popcount(m) == d)
      {
        unsigned int p = 1;
        for (unsigned int j = 0; j < s; ++j)
          p *= m & (1u << j) ? n[j] * r : n[j] + 1;
        sum += p;
      }
    return sum;
  }
  // faces of the refined cells
  unsigned int n_faces() const
  {
    unsigned int sum = 0;
    for (unsigned int m = 0; m < (1u << s); ++m)
    {
      if (__builtin_popcount(m) == d)
        for (unsigned int j = 0; j < s; ++j)
          if (m & (1u << j))
          {
            // interior to the coarse cells, orthogonal to direction j
            unsigned int p = n[j] * (r - 1);
            for (unsigned int i = 0; i < s; ++i)
              if (i != j)
                p *= m & (1u << i) ? n[i] * r : n[i] + 1;
            sum += p;
          }
      if (__builtin_popcount(m) == d - 1)
      {
        unsigned int p = 1;
        for (unsigned int i = 0; i < s; ++i)
          p *= m & (1u << i) ? n[i] * r : n[i] + 1;
        sum += p;
      }
    }
    return sum;
  }
};

template <unsigned int d, unsigned int s, typename G>
void geometry_of(const G& g, const unsigned int* n, const unsigned int r, const SmallMat<d, 2, double>& x, Cell<d, s>& cell)
{
  const Point<s, double> origin = g.map_ref_to_phys(Point<d, double>(0.));
  bool ok = true;
  for (unsigned int j = 0; j < s; ++j)
    cell.at[j] = whole(origin[j] * n[j] * r, ok);
  vp_check(ok, "the corner of a hyperedge is a lattice point");
  bool used[s];
  for (unsigned int j = 0; j < s; ++j)
    used[j] = false;
  double length[d];
  for (unsigned int k = 0; k < d; ++k)
  {
    Point<d, double> unit(0.);
    unit[k] = 1.;
    const Point<s, double> e = g.map_ref_to_phys(std::as_const(unit));
    cell.dir[k] = s;
    for (unsigned int j = 0; j < s; ++j)
      if (e[j] - origin[j] > 1e-8)
        cell.dir[k] = cell.dir[k] == s ? j : s + 1;
    vp_check(cell.dir[k] < s, "the edges of a hyperedge are parallel to the axes");
    if (cell.dir[k] >= s)
      return;
    vp_check(!used[cell.dir[k]], "the edges of a hyperedge are orthogonal");
    used[cell.dir[k]] = true;
    length[k] = 1. / (n[cell.dir[k]] * r);
    for (unsigned int j = 0; j < s; ++j)
    {
      vp_check_eq(e[j], origin[j] + (j == cell.dir[k] ? length[k] : 0.), "size of a hyperedge");
      vp_check_eq(g.span_vec(k)[j], j == cell.dir[k] ? length[k] : 0., "spanning vectors");
    }
  }
  for (unsigned int k = 1; k < d; ++k)
    vp_check(cell.dir[k - 1] < cell.dir[k], "the reference directions follow the axes");
  for (unsigned int j = 0; j < s; ++j)
  {
    vp_check(cell.at[j] + (used[j] ? 1 : 0) <= n[j] * r, "hyperedges lie in the unit cube");
    vp_check(used[j] || cell.at[j] % r == 0, "hyperedges lie on the coarse lattice");
  }
  // the affine map, for all points of the reference cube
  const SmallMat<s, 2, double> y = g.map_ref_to_phys(x);
  for (unsigned int v = 0; v < 2; ++v)
    for (unsigned int j = 0; j < s; ++j)
    {
      double z = origin[j];
      for (unsigned int k = 0; k < d; ++k)
        z += j == cell.dir[k] ? length[k] * x(k, v) : 0.;
      vp_check_eq(y(j, v), z, "the map is affine");
    }
  if constexpr (d == s)
  {
    SmallMat<s, 2, double> z = x;
    SmallMat<s, 2, double>& w = g.map_ref_to_phys(z);
    vp_check(&w == &z, "the in-place map returns its argument");
    for (unsigned int i = 0; i < z.size(); ++i)
      vp_check_eq(z[i], y[i], "the in-place map is the same");
  }
  // metric quantities
  double area = 1.;
  for (unsigned int k = 0; k < d; ++k)
    area *= length[k];
  vp_check_eq(g.area(), area, "area");
  const auto q = g.mat_q();
  const auto R = g.mat_r();
  for (unsigned int i = 0; i < d; ++i)
    for (unsigned int j = 0; j < d; ++j)
      vp_check_eq(R(i, j), i == j ? length[i] : 0., "matrix R");
  for (unsigned int i = 0; i < s; ++i)
    for (unsigned int j = 0; j < s; ++j)
    {
      double p = 0.;
      for (unsigned int k = 0; k < s; ++k)
        p += q(k, i) * q(k, j);
      vp_check_eq(p, i == j ? 1. : 0., "matrix Q is orthogonal");
      if (j < d)
        vp_check_eq(q(i, j), i == cell.dir[j] ? 1. : 0., "Q R are the spanning vectors");
    }
  for (unsigned int f = 0; f < 2 * d; ++f)
  {
    double fa = 1.;
    for (unsigned int k = 0; k < d; ++k)
      fa *= k == f / 2 ? 1. : length[k];
    vp_check_eq(g.face_area(f), fa, "face area");
    Point<d, double> c(0.5);
    c[f / 2] = f % 2;
    const Point<s, double> b = g.map_ref_to_phys(std::as_const(c)), fb = g.face_barycenter(f), in = g.inner_normal(f);
    const Point<d, double> ln = g.local_normal(f);
    for (unsigned int j = 0; j < s; ++j)
    {
      vp_check_eq(fb[j], b[j], "face barycentre");
      vp_check_eq(in[j], j == cell.dir[f / 2] ? 2. * (f % 2) - 1. : 0., "normal of a face within the hyperedge");
    }
    for (unsigned int k = 0; k < d; ++k)
      vp_check_eq(ln[k], k == f / 2 ? 2. * (f % 2) - 1. : 0., "normal of a face in reference coordinates");
  }
  for (unsigned int i = 0; i < s - d; ++i)
  {
    const Point<s, double> o = g.outer_normal(i);
    double sq = 0.;
    for (unsigned int j = 0; j < s; ++j)
    {
      sq += o[j] * o[j];
      if (used[j])
        vp_check_eq(o[j], 0., "outer normals are orthogonal to the hyperedge");
    }
    vp_check_eq(sq, 1., "outer normals are unit vectors");
    for (unsigned int l = 0; l < i; ++l)
    {
      const Point<s, double> o2 = g.outer_normal(l);
      double p = 0.;
      for (unsigned int j = 0; j < s; ++j)
        p += o[j] * o2[j];
      vp_check_eq(p, 0., "outer normals are orthogonal to each other");
    }
  }
  // tensorial points
  SmallVec<3, double> a;
  for (unsigned int i = 0; i < 3; ++i)
    a[i] = x[0] * .25 + .25 * i;
  const unsigned int n3 = d == 1 ? 3 : d == 2 ? 9 : 27;
  for (unsigned int p = 0; p < n3; p += d == 3 ? 5 : 1)
  {
    const Point<s, double> z = g.template lexicographic<3>(p, a);
    for (unsigned int j = 0; j < s; ++j)
    {
      double w = origin[j];
      for (unsigned int k = 0, t = p; k < d; ++k, t /= 3)
        w += j == cell.dir[k] ? length[k] * a[t % 3] : 0.;
      vp_check_eq(z[j], w, "lexicographic points");
    }
  }
  const double sc = x[1] * .5 + .5;
  for (unsigned int f = 0; f < 2 * d; ++f)
    for (unsigned int p = 0; p < n3 / 3; p += d == 3 ? 2 : 1)
    {
      const Point<s, double> z = g.template boundary_lexicographic<3>(p, f, (float)sc, a);
      for (unsigned int j = 0; j < s; ++j)
      {
        double w = origin[j];
        for (unsigned int k = 0, t = p; k < d; ++k)
          if (k == f / 2)
            w += j == cell.dir[k] ? length[k] * (sc * ((double)(f % 2) - .5) + .5) : 0.;
          else
          {
            w += j == cell.dir[k] ? length[k] * a[t % 3] : 0.;
            t /= 3;
          }
        vp_check_eqf(z[j], w, "lexicographic points of a face");
      }
    }
}

// one lattice, one refinement: all hyperedges
template <unsigned int d, unsigned int s, unsigned int max>
struct Case
{
  static void level(const Topology::Cubic<d, s>& t, const Geometry::UnitCube<d, s>& g, const NodeDescriptor::Cubic<d, s>& nd,
                    const unsigned int* n, const unsigned int r, const SmallMat<d, 2, double>& x)
  {
    const Lattice<d, s> l{n, r};
    vp_check((t.get_refinement() == r) & (g.get_refinement() == r) & (nd.get_refinement() == r), "refinement");
    vp_check((t.hyEdge_dim() == d) & (nd.hyEdge_dim() == d) & (g.hyEdge_dim() == d) & (t.space_dim() == s) & (nd.space_dim() == s) &
               (g.space_dim() == s) & (g[0].hyEdge_dim() == d) & (g[0].space_dim() == s),
             "dimensions");
    for (unsigned int j = 0; j < s; ++j)
      vp_check((t.n_elements()[j] == n[j]) & (nd.n_elements()[j] == n[j]), "the numbers of elements are those of the constructor");
    vp_check(t.n_hyEdges() == l.n_cells() && nd.n_hyEdges() == l.n_cells(), "number of hyperedges");
    vp_check(t.n_hyNodes() == l.n_faces(), "number of hypernodes");
    unsigned int stride = 1, strides[s];
    for (unsigned int j = 0; j < s; ++j)
    {
      strides[j] = stride;
      stride *= 2 * n[j] * r + 1;  // doubled lattice coordinates of barycentres determine cells and faces
    }
    unsigned int node_at[max];   // hypernode of the face with this barycentre, + 1
    unsigned int at_node[max];
    bool cell_at[max];
    for (unsigned int i = 0; i < max; ++i)
    {
      node_at[i] = at_node[i] = 0;
      cell_at[i] = false;
    }
    unsigned int n_used = 0;
    for (unsigned int i = 0; i < t.n_hyEdges(); ++i)
    {
      Cell<d, s> c;
      const auto edge = g[i];
      geometry_of<d, s>(edge, n, r, x, c);
      unsigned int key = 0;
      for (unsigned int j = 0; j < s; ++j)
        key += 2 * c.at[j] * strides[j];
      for (unsigned int k = 0; k < d; ++k)
        key += strides[c.dir[k]];
      vp_check(key < max && !cell_at[key], "hyperedges are different from each other");
      cell_at[key] = true;
      const auto nodes = t[i].get_hyNode_indices();
      const auto types = nd[i];
      vp_check(nodes.size() == 2 * d, "one hypernode per face");
      for (unsigned int f = 0; f < 2 * d; ++f)
      {
        const unsigned int fk = f % 2 ? key + strides[c.dir[f / 2]] : key - strides[c.dir[f / 2]];
        vp_check(nodes[f] < t.n_hyNodes(), "hypernode indices are in range");
        if (nodes[f] >= max)
          return;
        if (node_at[fk] == 0)
        {
          vp_check(at_node[nodes[f]] == 0, "different faces belong to different hypernodes");
          ++n_used;
          node_at[fk] = nodes[f] + 1;
          at_node[nodes[f]] = 1;
        }
        else
          vp_check(node_at[fk] == nodes[f] + 1, "coinciding faces belong to the same hypernode");
        // type of the face
        const unsigned int pos = c.at[c.dir[f / 2]] + f % 2;
        unsigned int type = 0, pow3 = 1;
        for (unsigned int j = 0; j < s; ++j)
        {
          bool along = false;
          for (unsigned int k = 0; k < d; ++k)
            along |= c.dir[k] == j && k != f / 2;
          const unsigned int y = j == c.dir[f / 2] ? pos : c.at[j];
          if (!along)
            type += y == 0 ? pow3 : y == n[j] * r ? 2 * pow3 : 0;
          pow3 *= 3;
        }
        const bool interior = pos % r != 0;
        vp_check(types[f] == (interior ? 0 : type), "type of a face: the boundaries of the unit cube it lies on");
        vp_check(types.get_hyFace_types()[f] == types[f], "both ways to ask for the type agree");
      }
    }
    vp_check(n_used == t.n_hyNodes(), "every hypernode belongs to a face");
  }
  static void run(const std::array<unsigned int, s> n, const unsigned int r1, const unsigned int r2)
  {
    {
      SmallMat<d, 2, double> x;
      for (unsigned int i = 0; i < x.size(); ++i)
      {
        x[i] = vp_real("x");
        vp_assume((x[i] >= 0.) & (x[i] <= 1.));
      }
      SmallVec<s, unsigned int> v;
      for (unsigned int j = 0; j < s; ++j)
        v[j] = n[j];
      Topology::Cubic<d, s> t(v);
      Geometry::UnitCube<d, s> g(v);
      NodeDescriptor::Cubic<d, s> nd(v);
      if (r1 != 1)
      {
        t.set_refinement(r1);
        g.set_refinement(r1);
        nd.set_refinement(r1);
      }
      level(t, g, nd, n.data(), r1, x);
      if (r2)
      {
        // copies and parts constructed from the topology carry its refinement
        t.set_refinement(r2);
        g.set_refinement(r2);
        nd.set_refinement(r2);
        level(t, g, nd, n.data(), r2, x);
        const Topology::Cubic<d, s> t2(t);
        const Geometry::UnitCube<d, s> g2(t);
        const NodeDescriptor::Cubic<d, s> nd2(t);
        level(t2, g2, nd2, n.data(), r2, x);
      }
    }
    vp_reach("done");
  }
};
VP_CONTRACT(lattice_1_1) { Case<1, 1, 64>::run({3}, 1, 2); }
VP_CONTRACT(lattice_1_1_finer) { Case<1, 1, 128>::run({2}, 7, 5); }
VP_CONTRACT(lattice_1_2) { Case<1, 2, 128>::run({2, 1}, 2, 1); }
VP_CONTRACT(lattice_1_3) { Case<1, 3, 256>::run({1, 2, 1}, 1, 0); }
VP_CONTRACT(lattice_1_3_refined) { Case<1, 3, 512>::run({1, 1, 1}, 3, 0); }
VP_CONTRACT(lattice_2_2) { Case<2, 2, 128>::run({2, 1}, 1, 2); }
VP_CONTRACT(lattice_2_3) { Case<2, 3, 512>::run({1, 1, 2}, 1, 0); }
VP_CONTRACT(lattice_2_3_refined) { Case<2, 3, 512>::run({1, 1, 1}, 2, 0); }
VP_CONTRACT(lattice_3_3) { Case<3, 3, 512>::run({2, 1, 1}, 1, 0); }
VP_CONTRACT(lattice_3_3_refined) { Case<3, 3, 512>::run({1, 1, 1}, 2, 0); }
VP_CONTRACT(lattice_2_2_more) { Case<2, 2, 1024>::run({2, 3}, 3, 1); }
VP_CONTRACT(lattice_2_3_more) { Case<2, 3, 2048>::run({2, 1, 1}, 3, 2); }
VP_CONTRACT(lattice_3_3_more) { Case<3, 3, 1024>::run({1, 2, 1}, 2, 1); }

template <unsigned int d, unsigned int s>
void out_of_range()
{
  {
    SmallVec<s, unsigned int> v(2);
    Topology::Cubic<d, s> t(v);
    const unsigned int i = vp_u32("i", 0, 0xffffffffu);
    const bool bad = i >= t.n_hyEdges();
    vp_abort_expected(bad, "only hyperedges that do not exist are rejected");
    if (bad || i == 0)
    {
      const auto e = t[i];
      vp_check(!bad, "hyperedges that do not exist are rejected");
    }
  }
  vp_reach("done");
}
VP_CONTRACT(out_of_range_1_2) { out_of_range<1, 2>(); }
VP_CONTRACT(out_of_range_2_2) { out_of_range<2, 2>(); }
