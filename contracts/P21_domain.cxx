// P21: reading a domain file yields exactly what the file says, or it is rejected
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>

// contents of a domain: nP points, nE hyperedges, nN hypernodes, nK properties per hyperedge
template <unsigned int d, unsigned int s, unsigned int nP, unsigned int nE, unsigned int nK>
struct Content
{
  static constexpr unsigned int nF = 2 * d, nV = 1 << d;
  double pt[nP][s], prop[nE][nK + 1];
  unsigned int node[nE][nF], type[nE][nF], vert[nE][nV], n_nodes;
  // parts: arbitrary points (1), hypernodes (2), vertices (4); the other parts are some consistent ones
  static bool some(const unsigned int parts, const unsigned int i) { return !(parts & 8) || i == parts >> 8; }
  Content(unsigned int parts = 7)
  {
    n_nodes = vp_u32("n_nodes", parts & 2 && !(parts & 8) ? 1 : nE * nF, 1000000);
    for (unsigned int i = 0; i < nP; ++i)
      for (unsigned int j = 0; j < s; ++j)
        pt[i][j] = parts & 1 && some(parts, i) ? vp_real("coordinate") : (double)(i * s + j);
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nF; ++i)
      {
        node[e][i] = parts & 2 && some(parts, e) ? vp_u32("node", 0, 2000000) : e * nF + i;
        type[e][i] = vp_u32("type", 0, 4000000000u);
      }
      for (unsigned int i = 0; i < nV; ++i)
        vert[e][i] = parts & 4 && some(parts, e) ? vp_u32("vertex", 0, 4000000000u) : (e + i) % nP;
      for (unsigned int i = 0; i < nK; ++i)
        prop[e][i] = vp_real("property");
    }
  }
  // all conditions on a consistent domain
  bool valid() const
  {
    bool ok = true;
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nF; ++i)
      {
        ok &= node[e][i] < n_nodes;
        for (unsigned int j = 0; j < i; ++j)
          ok &= node[e][i] != node[e][j];
      }
      for (unsigned int i = 0; i < nV; ++i)
      {
        ok &= vert[e][i] < nP;
        for (unsigned int j = 0; j < i; ++j)
          ok &= vert[e][i] != vert[e][j];
      }
      for (unsigned int f = 0; f < e; ++f)
      {
        bool same = true, samev = true;
        for (unsigned int i = 0; i < nF; ++i)
          same &= node[e][i] == node[f][i];
        for (unsigned int i = 0; i < nV; ++i)
          samev &= vert[e][i] == vert[f][i];
        ok &= !same & !samev;
      }
    }
    for (unsigned int i = 0; i < nP; ++i)
      for (unsigned int k = 0; k < i; ++k)
      {
        bool same = true;
        for (unsigned int j = 0; j < s; ++j)
          same &= pt[i][j] == pt[k][j];
        ok &= !same;
      }
    return ok;
  }
  // style: bit 0 comments and blank lines, bit 1 semicolons, bit 2 extra blanks; omit: section left out;
  // cut: the file ends in the middle of that section
  void write(const char* name, unsigned int style = 0, int omit = -1, int cut = -1, unsigned int sd = s,
             unsigned int hd = d, const char* eq = "=") const
  {
    std::ofstream f(name);
    f.precision(17);
    const char *sep = style & 4 ? "   " : " ", *end = style & 2 ? ";" : "";
    if (style & 1)
      f << "# Space of comments" << std::endl << std::endl;
    if (omit != 0)
      f << "Space_Dim" << sep << eq << sep << sd << end << (style & 1 ? "  # Dimension of space" : "") << std::endl;
    if (omit != 1)
      f << "HyperEdge_Dim" << sep << eq << " " << hd << end << std::endl;
    if (style & 1)
      f << std::endl << "# N_ counts" << std::endl;
    if (omit != 2)
      f << "N_Points" << sep << eq << " " << (cut == 2 ? 0u : nP) << end << std::endl;
    if (omit != 3)
      f << "N_HyperNodes" << sep << eq << " " << (cut == 3 ? 0u : n_nodes) << end << std::endl;
    if (omit != 4)
      f << "N_HyperEdges" << sep << eq << " " << (cut == 4 ? 0u : nE) << end << std::endl;
    if (style & 1)
      f << std::endl << "# After POINTS: come the points" << std::endl;
    if (omit != 5)
      f << "POINTS:" << std::endl;
    for (unsigned int i = 0; i < nP && omit != 5; ++i)
    {
      if (cut == 5 && i + 1 == nP)
        return;
      for (unsigned int j = 0; j < s; ++j)
        f << (j ? sep : "") << pt[i][j];
      f << std::endl;
    }
    section(f, 6, "HYPERNODES_OF_HYPEREDGES:", node, sep, style, omit, cut);
    if (cut == 6)
      return;
    section(f, 7, "TYPES_OF_HYPERFACES:", type, sep, style, omit, cut);
    if (cut == 7)
      return;
    section(f, 8, "POINTS_OF_HYPEREDGES:", vert, sep, style, omit, cut);
    if (cut == 8)
      return;
    if (nK > 0)
    {
      f << "HYPEREDGE_PROPERTIES: " << nK << std::endl;
      for (unsigned int e = 0; e < nE; ++e)
      {
        if (cut == 9 && e + 1 == nE)
          return;
        for (unsigned int i = 0; i < nK; ++i)
          f << (i ? sep : "") << prop[e][i];
        f << std::endl;
      }
    }
    if (style & 1)
      f << std::endl << "# the end" << std::endl;
  }
  template <unsigned int n>
  static void section(std::ofstream& f, int nr, const char* key, const unsigned int (&v)[nE][n], const char* sep,
                      unsigned int style, int omit, int cut)
  {
    if (style & 1)
      f << std::endl << "# a comment" << std::endl;
    if (omit == nr)
      return;
    f << key << std::endl;
    for (unsigned int e = 0; e < nE; ++e)
    {
      if (cut == nr && e + 1 == nE)
        return;
      for (unsigned int i = 0; i < n; ++i)
        f << (i ? sep : "") << v[e][i];
      f << std::endl;
    }
  }
  template <typename InfoT>
  void compare(const InfoT& info) const
  {
    vp_check((info.n_points == nP) & (info.n_hyEdges == nE) & (info.n_hyNodes == n_nodes),
             "numbers of points, hyperedges and hypernodes");
    vp_check(info.points.size() == nP && info.hyNodes_hyEdge.size() == nE && info.hyFaces_hyEdge.size() == nE &&
               info.points_hyEdge.size() == nE,
             "lengths of the lists");
    for (unsigned int i = 0; i < nP; ++i)
      for (unsigned int j = 0; j < s; ++j)
        vp_check_eq(info.points[i][j], pt[i][j], "coordinates of the points");
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < nF; ++i)
      {
        vp_check(info.hyNodes_hyEdge[e][i] == node[e][i], "hypernodes of the hyperedges");
        vp_check(info.hyFaces_hyEdge[e][i] == type[e][i], "types of the hyperfaces");
      }
      for (unsigned int i = 0; i < nV; ++i)
        vp_check(info.points_hyEdge[e][i] == vert[e][i], "points of the hyperedges");
    }
    vp_check(info.n_properties == nK, "number of properties");
    vp_check(info.hyEdge_properties.size() == (nK ? nE : 0), "property list");
    if (nK)
      for (unsigned int e = 0; e < nE; ++e)
      {
        vp_check(info.hyEdge_properties[e].size() == nK, "properties per hyperedge");
        for (unsigned int i = 0; i < nK; ++i)
          vp_check_eq(info.hyEdge_properties[e][i], prop[e][i], "properties of the hyperedges");
      }
  }
};

#ifndef NDEBUG
template <unsigned int d, unsigned int s, unsigned int nP, unsigned int nE, unsigned int nK>
void exact(unsigned int style)
{
  {
    const Content<d, s, nP, nE, nK> c;
    c.write("exact.geo", style);
    const auto info = read_domain_geo<d, s>("exact.geo");
    c.compare(info);
  }
  vp_reach("done");
}
VP_CONTRACT(exact_1_1_2_1) { exact<1, 1, 2, 1, 0>(0); }
VP_CONTRACT(exact_1_2_3_3_commented) { exact<1, 2, 3, 3, 0>(7); }
VP_CONTRACT(exact_1_3_2_2_properties) { exact<1, 3, 2, 2, 3>(2); }
VP_CONTRACT(exact_2_2_4_2) { exact<2, 2, 4, 2, 0>(1); }
VP_CONTRACT(exact_2_3_5_1_properties) { exact<2, 3, 5, 1, 1>(5); }
VP_CONTRACT(exact_3_3_8_1) { exact<3, 3, 8, 1, 0>(4); }
VP_CONTRACT(exact_1_2_40_33_properties) { exact<1, 2, 40, 33, 3>(6); }
VP_CONTRACT(exact_2_3_20_17) { exact<2, 3, 20, 17, 0>(2); }
VP_CONTRACT(exact_3_3_30_11_properties) { exact<3, 3, 30, 11, 12>(1); }
VP_CONTRACT(exact_1_1_3_2_many_properties) { exact<1, 1, 3, 2, 40>(2); }
VP_CONTRACT(exact_1_2_9_7_properties) { exact<1, 2, 9, 7, 2>(3); }

// read_domain accepts exactly the consistent domains and returns their contents
template <unsigned int d, unsigned int s, unsigned int nP, unsigned int nE, unsigned int nK, unsigned int parts = 7>
void checked()
{
  {
    const Content<d, s, nP, nE, nK> c(parts);
    c.write("checked.geo", 1);
    vp_abort_expected(!c.valid(), "only inconsistent domains are rejected");
    const auto info = read_domain<d, s>("checked.geo");
    vp_check(c.valid(), "inconsistent domains are rejected");
    c.compare(info);
  }
  vp_reach("done");
}
VP_CONTRACT(checked_1_1_2_1) { checked<1, 1, 2, 1, 0>(); }
VP_CONTRACT(checked_1_1_2_2_nodes) { checked<1, 1, 2, 2, 0, 2>(); }
VP_CONTRACT(checked_1_1_2_2_vertices) { checked<1, 1, 2, 2, 0, 4>(); }
VP_CONTRACT(checked_1_1_2_3_vertices) { checked<1, 1, 2, 3, 0, 4>(); }
VP_CONTRACT(checked_1_2_4_1_points) { checked<1, 2, 4, 1, 0, 1>(); }
VP_CONTRACT(checked_2_1_4_1_nodes) { checked<2, 1, 4, 1, 0, 2>(); }
VP_CONTRACT(checked_2_1_4_1_vertices) { checked<2, 1, 4, 1, 0, 4>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(checked_1_1_2_2) { checked<1, 1, 2, 2, 0>(); }
VP_CONTRACT(checked_1_1_2_3_nodes) { checked<1, 1, 2, 3, 0, 2>(); }
VP_CONTRACT(checked_1_1_3_3_vertices) { checked<1, 1, 3, 3, 0, 4>(); }
VP_CONTRACT(checked_2_1_4_1) { checked<2, 1, 4, 1, 0>(); }
#endif
// larger domains with one arbitrary point or one arbitrary hyperedge (bits 8 and up: which one)
#define ONE(d, s, nP, nE, i)                                                                            \
  VP_CONTRACT(one_point_##d##_##s##_##nP##_##i) { checked<d, s, nP, 2, 0, 9 + 256 * i>(); }             \
  VP_CONTRACT(one_nodes_##d##_##s##_##nE##_##i) { checked<d, s, nP, nE, 0, 10 + 256 * i>(); }           \
  VP_CONTRACT(one_vertices_##d##_##s##_##nE##_##i) { checked<d, s, nP, nE, 0, 12 + 256 * i>(); }
ONE(1, 2, 9, 8, 0)
ONE(1, 2, 9, 8, 7)
ONE(1, 1, 18, 17, 16)
ONE(2, 2, 6, 5, 2)
VP_CONTRACT(checked_1_2_3_1) { checked<1, 2, 3, 1, 1>(); }

// malformed files are rejected
enum
{
  OMIT,
  CUT
};
template <unsigned int kind, int section>
void malformed()
{
  const Content<1, 2, 2, 2, 1> c;
  c.write("bad.geo", 1, kind == OMIT ? section : -1, kind == CUT ? section : -1);
  vp_abort_expected(true, "malformed file");
  const auto info = read_domain_geo<1, 2>("bad.geo");
  vp_check(false, "a file with a missing section, an unset number or too few lines is rejected");
}
VP_CONTRACT(malformed_omit_0) { malformed<OMIT, 0>(); }
VP_CONTRACT(malformed_omit_1) { malformed<OMIT, 1>(); }
VP_CONTRACT(malformed_omit_2) { malformed<OMIT, 2>(); }
VP_CONTRACT(malformed_omit_3) { malformed<OMIT, 3>(); }
VP_CONTRACT(malformed_omit_4) { malformed<OMIT, 4>(); }
VP_CONTRACT(malformed_omit_5) { malformed<OMIT, 5>(); }
VP_CONTRACT(malformed_omit_6) { malformed<OMIT, 6>(); }
VP_CONTRACT(malformed_omit_7) { malformed<OMIT, 7>(); }
VP_CONTRACT(malformed_omit_8) { malformed<OMIT, 8>(); }
VP_CONTRACT(malformed_cut_2) { malformed<CUT, 2>(); }
VP_CONTRACT(malformed_cut_3) { malformed<CUT, 3>(); }
VP_CONTRACT(malformed_cut_4) { malformed<CUT, 4>(); }
VP_CONTRACT(malformed_cut_5) { malformed<CUT, 5>(); }
VP_CONTRACT(malformed_cut_6) { malformed<CUT, 6>(); }
VP_CONTRACT(malformed_cut_7) { malformed<CUT, 7>(); }
VP_CONTRACT(malformed_cut_8) { malformed<CUT, 8>(); }
VP_CONTRACT(malformed_cut_9) { malformed<CUT, 9>(); }
VP_CONTRACT(wrong_dimensions)
{
  const Content<1, 2, 2, 1, 0> c;
  const unsigned int sd = vp_u32("space_dim", 0, 100), hd = vp_u32("hyEdge_dim", 0, 100);
  c.write("dim.geo", 0, -1, -1, sd, hd);
  vp_abort_expected((sd != 2) | (hd != 1), "only other dimensions are rejected");
  const auto info = read_domain_geo<1, 2>("dim.geo");
  vp_check((sd == 2) & (hd == 1), "other dimensions are rejected");
  c.compare(info);
  vp_reach("done");
}
VP_CONTRACT(no_equal_sign)
{
  const Content<1, 2, 2, 1, 0> c;
  c.write("eq.geo", 0, -1, -1, 2, 1, ":");
  vp_abort_expected(true, "no equal sign");
  const auto info = read_domain_geo<1, 2>("eq.geo");
  vp_check(false, "a number without equal sign is rejected");
}
VP_CONTRACT(missing_file)
{
  vp_abort_expected(true, "no such file");
  const auto info = read_domain<1, 2>("does_not_exist.geo");
  vp_check(false, "missing files are rejected");
}
VP_CONTRACT(wrong_type)
{
  const Content<1, 2, 2, 1, 0> c;
  c.write("domain.txt");
  vp_abort_expected(true, "wrong file type");
  const auto info = read_domain_geo<1, 2>("domain.txt");
  vp_check(false, "files of another type are rejected");
}
#else
// without assertions, the consistency check still tells consistent domains from inconsistent ones
template <unsigned int d, unsigned int s, unsigned int nP, unsigned int nE, unsigned int parts = 7>
void consistency()
{
  {
    const Content<d, s, nP, nE, 0> c(parts);
    DomainInfo<d, s, std::vector, Point<s, double>> info(nP, nE, c.n_nodes, nP);
    for (unsigned int i = 0; i < nP; ++i)
      for (unsigned int j = 0; j < s; ++j)
        info.points[i][j] = c.pt[i][j];
    for (unsigned int e = 0; e < nE; ++e)
    {
      for (unsigned int i = 0; i < c.nF; ++i)
      {
        info.hyNodes_hyEdge[e][i] = c.node[e][i];
        info.hyFaces_hyEdge[e][i] = c.type[e][i];
      }
      for (unsigned int i = 0; i < c.nV; ++i)
        info.points_hyEdge[e][i] = c.vert[e][i];
    }
    vp_check(info.check_consistency() == c.valid(), "consistency check without assertions");
    c.compare(info);
  }
  vp_reach("done");
}
VP_CONTRACT(consistency_1_2_9_2_point) { consistency<1, 2, 9, 2, 9 + 256 * 5>(); }
VP_CONTRACT(consistency_1_2_9_8_nodes) { consistency<1, 2, 9, 8, 10 + 256 * 7>(); }
VP_CONTRACT(consistency_1_2_9_8_vertices) { consistency<1, 2, 9, 8, 12 + 256 * 3>(); }
VP_CONTRACT(consistency_1_1_2_1) { consistency<1, 1, 2, 1>(); }
VP_CONTRACT(consistency_1_1_2_2_nodes) { consistency<1, 1, 2, 2, 2>(); }
VP_CONTRACT(consistency_1_1_2_2_vertices) { consistency<1, 1, 2, 2, 4>(); }
VP_CONTRACT(consistency_2_1_4_1_nodes) { consistency<2, 1, 4, 1, 2>(); }
#ifdef VP_THOROUGH
VP_CONTRACT(consistency_1_1_2_2) { consistency<1, 1, 2, 2>(); }
#endif
VP_CONTRACT(consistency_1_2_3_1) { consistency<1, 2, 3, 1>(); }
#endif
