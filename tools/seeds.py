SEEDS = {}
H = 'include/HyperHDG/'


def seed(i, prop, edits, demo, needs, breaks, **kw):
    SEEDS[i] = dict(property=prop, edits=[(H + f, a, b) for f, a, b in edits], demo=demo, needs=needs, breaks=breaks, **kw)


LA = '#include <HyperHDG/dense_la.hxx>\n#include <cmath>\n#include <cstdio>\n'
seed('la_column_minus_matrix', 'P01', [('dense_la.hxx', '''    SmallMat<n_rows, n_cols_right, mat_entry_t> difference;
    for (unsigned int i = 0; i < n_cols_right; ++i)
      difference.set_column(i, left - right.get_column(i));
    return difference;''', '''    SmallMat<n_rows, n_cols_right, mat_entry_t> difference(right);
    return difference -= left;''')], LA + '''
int main()
{
  SmallMat<2, 1, double> c(std::array<double, 2>({1., 2.}));
  SmallMat<2, 3, double> m(std::array<double, 6>({5., 7., 1., 1., 0., 2.}));
  auto r = c - m;
  for (unsigned i = 0; i < 2; ++i)
    for (unsigned j = 0; j < 3; ++j)
      if (r(i, j) != c[i] - m(i, j)) return 1;
  return 0;
}
''', 'a column as left operand of a matrix with several columns', 'column minus matrix gives the negated difference')
seed('la_equal_half', 'P04', [('dense_la.hxx', '''    for (unsigned int index = 0; index < size(); ++index)
      if (entries_[index] != other[index])
        return false;
    return true;''', '''    for (unsigned int index = 0; index < n_rowsT * ((n_colsT + 1) / 2); ++index)
      if (entries_[index] != other[index])
        return false;
    return true;''')], LA + '''
int main()
{
  SmallMat<2, 2, double> a(std::array<double, 4>({1., 2., 3., 4.})), b(std::array<double, 4>({1., 2., 3., 5.}));
  if (a == b) return 1;
  if (!(a == a)) return 3;
  return 0;
}
''', 'matrices with at least two columns that differ in the second half only', 'different matrices compare equal')
seed('la_divzero_first_only', 'P06', [('dense_la.hxx', '''      if (other[index] == 0.)
        throw SmallMatDivByZeroException();
      entries_[index] /= other[index];''', '''      if (index % n_rowsT == 0 && other[index] == 0.)
        throw SmallMatDivByZeroException();
      entries_[index] /= other[index];''')], LA + '''
int main()
{
  SmallMat<2, 2, double> a(1.), b(std::array<double, 4>({1., 1., 1., 0.}));
  try { a /= b; } catch (SmallMatDivByZeroException&) { return 0; }
  return 1;
}
''', 'a zero divisor outside the first row', 'entrywise division by zero returns infinities')
seed('lapack_q_first_reflectors', 'P08', [('wrapper/lapack.hxx', '''  for (unsigned int i = 0; i < rank; ++i)  // i is column index column index, here!
  {
    for (unsigned int j = 0; j < n_rows; ++j)  // j is row index, here!
      if (j < i)''', '''  for (unsigned int i = 0; i < rank && (i == 0 || tau[i - 1] != 0.); ++i)  // i is column index, here!
  {
    for (unsigned int j = 0; j < n_rows; ++j)  // j is row index, here!
      if (j < i)''')], LA + '''
int main()
{
  SmallMat<3, 3, double> a(std::array<double, 9>({2., 0., 0., 1., 3., 4., 1., 2., 5.})), q, r, a0 = a;
  SmallMat<3, 3, double> q2;
  qr_decomp(a, q, r);
  auto d = q * r;
  for (unsigned i = 0; i < 9; ++i)
    if (std::abs(d[i] - a0[i]) > 1e-10) return 1;
  return 0;
}
''', 'a matrix whose first column is already axis-aligned (tau = 0 for the first reflector) and the second is not',
     'Q misses reflectors after a trivial one, so Q R differs from A')
seed('map_normal_orientation', 'P10', [('mapping/linear.hxx', '''      map_float_t scalar_pdct = scalar_product(normal, matrix_r_.get_column(index));''',
     '''      map_float_t scalar_pdct = scalar_product(normal, matrix_r_.get_column(index)) * matrix_r_(0, 0) *
                                matrix_r_(hyEdge_dimT - 1, hyEdge_dimT - 1);''')], '''#include <HyperHDG/mapping/linear.hxx>
#include <cmath>
int main()
{
  // edge vectors (1,0) and (0,-1): the last diagonal entry of R is negative for a left-handed pair
  SmallMat<2, 2, double> m(std::array<double, 4>({1., 0., 0.5, -1.}));
  Mapping::Linear<2, 2, double> map(Point<2, double>(0.), m);
  for (unsigned i = 0; i < 2; ++i)
  {
    auto n = map.local_normal(i);
    double s = 0.;
    for (unsigned j = 0; j < 2; ++j) s += n[j] * map.mat_r()(j, i);
    if (!(s < 0.)) return 1;
  }
  return 0;
}
''', 'a left-handed pair of edge vectors, for which the last diagonal entry of R is negative', 'local normals point inwards')
seed('nodes_set_value_block', 'P11', [('hypernodefactory.hxx', '''        global_dof_vector[initial_dof_index + index] = value;''',
     '''        global_dof_vector[(hyNode_index + index * n_hyNodes_) % (n_hyNodes_ * n_dofs_per_nodeT)] = value;''')],
     '''#include <HyperHDG/hypernodefactory.hxx>
#include <vector>
int main()
{
  HyperNodeFactory<2> f(3);
  std::vector<double> v(6, 1.);
  f.set_dof_values<unsigned int, std::vector<double>>(1, v, 7.);
  for (unsigned i = 0; i < 6; ++i)
    if (v[i] != (i == 2 || i == 3 ? 7. : 1.)) return 1;
  return 0;
}
''', 'more than one degree of freedom per hypernode', 'set_dof_values with a scalar writes to other hypernodes')
seed('cube_decompose_last', 'P12', [('hypercube.hxx', '''      decomposition[dim] = index % range;
      index /= range;
    }
    hy_assert(index == 0,''', '''      decomposition[dim] = dim + 1 == decomposition.size() ? index : index % range;
      index /= range;
    }
    hy_assert(index <= range,''')], '''#include <HyperHDG/hy_assert.hxx>
#include <array>
#include <HyperHDG/hypercube.hxx>
#include <csignal>
#include <cstdlib>
#include <sys/wait.h>
#include <unistd.h>
int main()
{
  // an index beyond range^dim must be rejected (abort)
  pid_t p = fork();
  if (p == 0) { auto d = Hypercube<2>::index_decompose(10, 3); _exit(d[0] < 3 && d[1] < 3 ? 0 : 7); }
  int s;
  waitpid(p, &s, 0);
  return WIFSIGNALED(s) ? 0 : 1;
}
''', 'a tensor index that is out of range', 'an out-of-range tensor index is not rejected and gives a digit outside the range')
MOCK = r'''
#include <array>
#include <vector>
#include <memory>
#include <HyperHDG/dense_la.hxx>
#include <cmath>
#include <algorithm>
struct Topo
{
  struct V { unsigned a, b; SmallVec<2, unsigned int> get_hyNode_indices() const { return SmallVec<2, unsigned int>(std::array<unsigned, 2>({a, b})); } };
  typedef V value_type;
  typedef unsigned constructor_value_type;
  unsigned n, level = 1;
  Topo(unsigned m) : n(m) {}
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned space_dim() { return 1; }
  unsigned n_hyEdges() const { return n * level; }
  unsigned n_hyNodes() const { return n * level + 1; }
  V operator[](unsigned i) const { return V{i, i + 1}; }
  unsigned get_refinement() const { return level; }
  void set_refinement(unsigned l) { level = l; }
};
struct Geom
{
  struct V {};
  typedef V value_type;
  typedef Topo constructor_value_type;
  unsigned level = 1;
  Geom(const Topo&) {}
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned space_dim() { return 1; }
  V operator[](unsigned) const { return V(); }
  unsigned get_refinement() const { return level; }
  void set_refinement(unsigned l) { level = l; }
};
struct Node
{
  struct V {};
  typedef V value_type;
  unsigned level = 1;
  Node(const Topo&) {}
  static constexpr unsigned hyEdge_dim() { return 1; }
  static constexpr unsigned space_dim() { return 1; }
  V operator[](unsigned) const { return V(); }
  unsigned get_refinement() const { return level; }
  void set_refinement(unsigned l) { level = l; }
};
typedef std::array<std::array<double, 2>, 2> D;
struct Solver
{
  struct data_type { double v = 0.; };
  typedef double constructor_value_type;
  struct error_def { typedef std::array<double, 1> error_t; static error_t initial_error() { return {0.}; }
    static error_t sum_error(error_t a, error_t b) { return {a[0] + b[0]}; } static error_t postprocess_error(error_t a) { return a; } };
  static constexpr unsigned int hyEdge_dim() { return 1; }
  static constexpr unsigned int n_glob_dofs_per_node() { return 2; }
  static constexpr unsigned int system_dimension() { return 1; }
  static constexpr unsigned int node_system_dimension() { return 1; }
  Solver(double = 1.) {}
  template <typename E> D& trace_to_flux(const D& x, D& y, E&, double t = 0.) const
  {
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) y[i][j] += 3. * x[i][j] - x[1 - i][j] + 0.5 * x[i][1 - j] + t;
    return y;
  }
  template <typename E> D& residual_flux(const D& x, D& y, E& e, double t = 0.) const { trace_to_flux(x, y, e, t); y[0][0] += 1.; return y; }
  template <typename E> D& trace_to_mass_flux(const D& x, D& y, E& e, double t = 0.) const { return trace_to_flux(x, y, e, t + 1.); }
  template <typename E> D& jacobian_of_trace_to_flux(const D& x, D& y, double ev, const D& v, double evv, E& e) const
  {
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) y[i][j] += 3. * x[i][j] * evv + v[i][j] * ev - x[1 - i][j];
    return y;
  }
  template <typename E> std::array<unsigned, 2> node_types(E& e) const { return {e.topology.a == 0u, 0u}; }
  template <typename E> std::array<double, 1> errors(const D& x, E&, double t = 0.) const { return {x[0][0] + 10. * x[1][0] + t}; }
  template <typename E> D& make_initial(D& x, E& e, double t = 0.) const
  { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) x[i][j] = e.topology.a + i + 0.1 * j + t; e.data.v = t; return x; }
  template <typename E> void set_data(const D& x, E& e, double t = 0.) const { e.data.v = x[0][0] + 2. * x[1][1] + t; }
};
static std::vector<double> expected(const std::vector<double>& x, double t)
{
  Solver s;
  std::vector<double> y(x.size(), 0.);
  int dummy;
  for (unsigned e = 0; 2 * (e + 2) <= x.size(); ++e)
  {
    D in, out{};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) in[i][j] = x[2 * (e + i) + j];
    s.trace_to_flux(in, out, dummy, t);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) y[2 * (e + i) + j] += out[i][j];
  }
  return y;
}
static std::vector<double> sample(unsigned n) { std::vector<double> x(n); for (unsigned i = 0; i < n; ++i) x[i] = 1. + (i * i) % 7; return x; }
'''
seed('graph_refine_data', 'P13', [('hdg_hypergraph.hxx', '''    hyGraph_node_des_->set_refinement(level);
    hyNode_factory_ =''', '''    hyGraph_node_des_->set_refinement(level);
    if (hyGraph_topology_->n_hyNodes() > hyNode_factory_.n_hyNodes())
    hyNode_factory_ =''')], MOCK + '''#include <HyperHDG/hdg_hypergraph.hxx>

int main()
{
  HDGHyperGraph<2, Topo, Geom, Node, Solver::data_type> g(3u);
  g.set_refinement(4);
  if (g.n_hyNodes() != 13) return 1;
  g.set_refinement(2);
  if (g.n_hyNodes() != 7 || g.n_global_dofs() != 14) return 3;
  return 0;
}
''', 'refining and then going back to a coarser level', 'after coarsening the number of hypernodes is still the one of the finer level')
seed('proto_fill_outside', 'P14', [('global_loop/prototype.hxx', '''          hyper_graph_.hyNode_factory().get_dof_values(hyNodes[node], x_vec, dofs_old[node]);     \\
          dofs_new[node].fill(0.);                                                                \\''',
     '''          hyper_graph_.hyNode_factory().get_dof_values(hyNodes[node], x_vec, dofs_old[node]);     \\
          dofs_new[hyNodes[node] % 2].fill(0.);                                                   \\''')],
     MOCK.replace("{ return V{i, i + 1}; }", "{ return V{i % 3, (i + 1) % 3}; }").replace("n * level + 1; }", "3; }") + '''
#include <HyperHDG/global_loop/elliptic.hxx>
int main()
{
  GlobalLoop::Elliptic<Topo, Geom, Node, Solver> loop(3u);
  auto x = sample(6);
  auto y = loop.trace_to_flux(x, 0.25);
  std::vector<double> z(6, 0.);
  Solver s; int dummy;
  for (unsigned e = 0; e < 3; ++e)
  {
    unsigned nd[2] = {e % 3, (e + 1) % 3};
    D in, out{};
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) in[i][j] = x[2 * nd[i] + j];
    s.trace_to_flux(in, out, dummy, 0.25);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) z[2 * nd[i] + j] += out[i][j];
  }
  for (unsigned i = 0; i < 6; ++i)
    if (std::abs(y[i] - z[i]) > 1e-12) return 1;
  return 0;
}
''', 'a hyperedge whose hypernodes have indices of the same parity', 'contributions of an earlier hyperedge are added again')

seed('la_gram_symmetric', 'P02', [('dense_la.hxx', '''      for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
        result(colA, colB) += A(rowA, colA) * B(rowA, colB);''', '''      if (n_colsA == n_colsB && n_colsA > 2 && colA < colB)
        result(colA, colB) = result(colB, colA);
      else
      for (unsigned int rowA = 0; rowA < n_rowsA; ++rowA)
        result(colA, colB) += A(rowA, colA) * B(rowA, colB);''')], LA + '''
int main()
{
  SmallMat<2, 3, double> a(std::array<double, 6>({1., 2., 3., 4., 5., 6.})), b(std::array<double, 6>({0., 1., 1., 2., 3., 5.}));
  auto r = transposed_mat_times_mat(a, b);
  for (unsigned i = 0; i < 3; ++i)
    for (unsigned j = 0; j < 3; ++j)
      if (std::abs(r(i, j) - (a(0, i) * b(0, j) + a(1, i) * b(1, j))) > 1e-12) return 1;
  return 0;
}
''', 'different factors with equal numbers of at least three columns', 'the product with a transposed left factor is made symmetric')
seed('la_rowsum_cancel', 'P05', [('dense_la.hxx', '''      for (unsigned int col = 0; col < n_cols; ++col)
        norm += std::abs(mat(row, col));
      if (norm > max_norms)''', '''      for (unsigned int col = 0; col < n_cols; ++col)
        norm = std::abs(norm + mat(row, col));
      if (norm > max_norms)''')], LA + '''
int main()
{
  SmallMat<2, 2, double> a(std::array<double, 4>({3., 1., -3., 1.}));
  return std::abs(norm_infty(a) - 6.) > 1e-12;
}
''', 'a matrix with a row of entries of different signs', 'the maximum norm of a matrix misses cancelling entries')
seed('lapack_singular_last', 'P07', [('wrapper/lapack.hxx', '''  dgesv_(&system_size, &n_rhs_cols, mat_a, &system_size, ipiv, rhs_b, &system_size, &info);
  delete[] ipiv;
  if (info != 0)''', '''  dgesv_(&system_size, &n_rhs_cols, mat_a, &system_size, ipiv, rhs_b, &system_size, &info);
  delete[] ipiv;
  if (info < 0 || (info > 0 && info < system_size))''')], LA + '''
int main()
{
  SmallMat<2, 2, double> a(std::array<double, 4>({1., 2., 2., 4.}));
  SmallMat<2, 1, double> b(std::array<double, 2>({1., 5.}));
  try { auto x = b / a; (void)x; } catch (...) { return 0; }
  return 1;
}
''', 'a singular matrix whose last pivot only is zero', 'a singular system is reported as solved')
seed('cg_two_pass_combination', 'P20', [('sparse_la.hxx', '''  for (decltype(leftV.size()) i = 0; i < result.size(); ++i)
    result[i] = leftFac * leftV[i] + rightFac * rightV[i];
}''', '''  for (decltype(leftV.size()) i = 0; i < result.size(); ++i)
    result[i] = leftFac * leftV[i];
  for (decltype(leftV.size()) i = 0; i < result.size(); ++i)
    result[i] += rightFac * rightV[i];
}''')], '''#include <cmath>
#include <vector>
#include <HyperHDG/sparse_la.hxx>
int main()
{
  std::vector<double> a({1., 2., 3.}), b({4., 5., 7.}), c(3), b0 = b;
  SparseLA::linear_combination(2., a, 3., b, c);
  for (unsigned i = 0; i < 3; ++i) if (std::abs(c[i] - 2. * a[i] - 3. * b[i]) > 1e-12) return 1;
  SparseLA::linear_combination(2., a, 3., b, b);
  for (unsigned i = 0; i < 3; ++i) if (std::abs(b[i] - 2. * a[i] - 3. * b0[i]) > 1e-12) return 3;
  return 0;
}
''', 'a result vector that is the right operand', 'linear combination into its right operand uses overwritten values')
seed('domain_face_digit', 'P21', [('read_domain.hxx', '''  while (keyword != "POINTS_OF_HYPEREDGES:" && std::getline(infile, line))
  {
    linestream = std::istringstream(line);
    linestream >> keyword;
  }
''', '''  while (keyword != "POINTS_OF_HYPEREDGES:" && std::getline(infile, line))
  {
    keyword = line.substr(0, line.find(' '));
  }
'''), ('read_domain.hxx', '''    for (unsigned int i = 0; i < domain_info.hyFaces_hyEdge[hyEdge_iter].size(); ++i)
      linestream >> domain_info.hyFaces_hyEdge[hyEdge_iter][i];''', '''    for (unsigned int i = 0; i < domain_info.hyFaces_hyEdge[hyEdge_iter].size(); ++i)
    {
      char type = '0';
      linestream >> type;
      domain_info.hyFaces_hyEdge[hyEdge_iter][i] = type - '0';
    }''')], '''#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/read_domain.hxx>
#include <fstream>
#include <vector>
int main()
{
  std::ofstream f("d.geo");
  f << "Space_Dim = 1\\nHyperEdge_Dim = 1\\nN_Points = 3\\nN_HyperNodes = 3\\nN_HyperEdges = 2\\n\\n"
    << "POINTS:\\n0.\\n1.\\n2.\\n\\nHYPERNODES_OF_HYPEREDGES:\\n0 1\\n1 2\\n\\n"
    << "TYPES_OF_HYPERFACES:\\n1 0\\n0 12\\n\\nPOINTS_OF_HYPEREDGES:\\n0 1\\n1 2\\n";
  f.close();
  auto d = read_domain<1, 1, std::vector, Point<1, double>>("d.geo");
  return d.hyFaces_hyEdge[1][1] == 12 && d.hyFaces_hyEdge[0][0] == 1 && d.points_hyEdge[1][1] == 2 ? 0 : 1;
}
''', 'a domain file with a face type of more than one digit', 'types of faces are read as single digits')
seed('epsilon_early_stop', 'P22', [('epsilon_neighborhood_graph.hxx', '''         ind >= 0 && ind < points.size() && std::abs(points[index][0] - points[ind][0]) < epsilon;
         ++ind)''', '''         ind >= 0 && ind < points.size() && (ind < index + 2 || norm_2(points[index] - points[ind - 1]) < epsilon) &&
         std::abs(points[index][0] - points[ind][0]) < epsilon;
         ++ind)''')], '''#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/epsilon_neighborhood_graph.hxx>
#include <fstream>
#include <set>
#include <vector>
int main()
{
  std::ofstream f("p.pts");
  f << "Space_Dim = 2\\nEpsilon = 1.0\\n\\nPOINTS:\\n0. 0.\\n0.5 1.2\\n0.6 0.\\n0.9 0.6\\n";
  f.close();
  std::string name = "p.pts";
  make_epsilon_neighborhood_graph<2, std::vector, Point<2, float>, unsigned int>(name);
  std::ifstream g("p.pts.geo");
  std::string w;
  while (g >> w && w != "HYPERNODES_OF_HYPEREDGES:") ;
  std::set<std::pair<int, int>> s;
  int a, b;
  while (g >> a >> b) s.insert({std::min(a, b), std::max(a, b)});
  return s.count({0, 2}) ? 0 : 1;
}
''', 'points between two neighbours (in the first coordinate) that are far away in the second', 'neighbours behind a distant point are not connected')
seed('dirichlet_merge', 'P15', [('global_loop/elliptic.hxx', '''    dirichlet_indices_.resize(indices.size());
    for (unsigned int i = 0; i < indices.size(); ++i)''', '''    const unsigned int n_old = indices.size() > dirichlet_indices_.size() ? 0 : dirichlet_indices_.size() - indices.size();
    dirichlet_indices_.resize(n_old + indices.size());
    std::rotate(dirichlet_indices_.begin(), dirichlet_indices_.end() - n_old, dirichlet_indices_.end());
    for (unsigned int i = 0; i < indices.size(); ++i)'''), ('global_loop/elliptic.hxx', '''      dirichlet_indices_[i] = (dof_index_t)indices[i];''', '''      dirichlet_indices_[n_old + i] = (dof_index_t)indices[i];''')], MOCK + '''
#include <HyperHDG/global_loop/elliptic.hxx>
int main()
{
  GlobalLoop::Elliptic<Topo, Geom, Node, Solver> loop(3u);
  auto x = sample(8), z = expected(x, 0.);
  loop.read_dirichlet_indices({1, 6});
  auto y = loop.trace_to_flux(x);
  for (unsigned i = 0; i < 8; ++i) if (std::abs(y[i] - (i == 1 || i == 6 ? 0. : z[i])) > 1e-12) return 1;
  loop.read_dirichlet_indices({2});
  y = loop.trace_to_flux(x);
  for (unsigned i = 0; i < 8; ++i) if (std::abs(y[i] - (i == 2 ? 0. : z[i])) > 1e-12) return 3;
  return 0;
}
''', 'a second, shorter list of Dirichlet indices', 'indices of an earlier list stay registered')
seed('matrix_stale_response', 'P16', [('global_loop/prototype.hxx', '''              dofs_old[node].fill(0.);                                                        \\
              dofs_new[node].fill(0.);                                                        \\
            }                                                                                 \\
            dofs_old[node_j][dof_j] = 1.;                                                     \\''', '''              dofs_old[node].fill(0.);                                                        \\
              if (dof_j == 0)                                                                 \\
                dofs_new[node].fill(0.);                                                      \\
            }                                                                                 \\
            dofs_old[node_j][dof_j] = 1.;                                                     \\''')], MOCK + '''
#include <HyperHDG/global_loop/elliptic.hxx>
int main()
{
  GlobalLoop::Elliptic<Topo, Geom, Node, Solver> loop(3u);
  auto m = loop.trace_to_flux_mat();
  auto x = sample(8), z = expected(x, 0.);
  std::vector<double> y(8, 0.);
  for (unsigned i = 0; i < m.get_values().size(); ++i) y[m.get_rows()[i]] += m.get_values()[i] * x[m.get_cols()[i]];
  for (unsigned i = 0; i < 8; ++i) if (std::abs(y[i] - z[i]) > 1e-12) return 1;
  return 0;
}
''', 'more than one degree of freedom per hypernode', 'columns of the assembled matrix contain the responses to other unit vectors')
seed('parabolic_data_loop', 'P17', [('global_loop/parabolic.hxx', '''          hyper_graph_.hyNode_factory().get_dof_values(hyEdge_hyNodes[hyNode], x_vec,
                                                       hyEdge_dofs[hyNode]);

        // Turn degrees of freedom of x_vec that have been stored locally into those of vec_Ax.
        if constexpr (has_set_data''', '''          if (hyNode == 0 || hyEdge_hyNodes[hyNode] != hyEdge_hyNodes[0])
          hyper_graph_.hyNode_factory().get_dof_values(hyEdge_hyNodes[hyNode], x_vec,
                                                       hyEdge_dofs[hyNode]);

        // Turn degrees of freedom of x_vec that have been stored locally into those of vec_Ax.
        if constexpr (has_set_data''')], MOCK.replace("{ return V{i, i + 1}; }", "{ return V{i, 1u - i % 2 + (i == 2)}; }").replace("n * level + 1; }", "3; }")
 .replace("void set_data(const D& x, E& e, double t = 0.) const {", "void set_data(const D& x, E& e, double t = 0.) const { seen[e.topology.a] = x[0][0] + 2. * x[1][1] + t;").replace("struct Solver\n", "static double seen[3];\nstruct Solver\n") + '''
#include <HyperHDG/global_loop/parabolic.hxx>
int main()
{
  GlobalLoop::Parabolic<Topo, Geom, Node, Solver> loop(3u);
  auto x = sample(6);
  loop.set_data(x, 0.5);
  for (unsigned e = 0; e < 3; ++e)
  {
    unsigned b = 1u - e % 2 + (e == 2);
    if (std::abs(seen[e] - (x[2 * e] + 2. * x[2 * b + 1] + 0.5)) > 1e-12) return 1;
  }
  return 0;
}
''', 'a hyperedge that connects a hypernode with itself', 'data of such a hyperedge are computed from values of the hyperedge before')
seed('errors_from_zero', 'P18', [('global_loop/prototype.hxx', '''    error_t result = LocalSolverT::error_def::initial_error();                                     \\
''', '''    error_t result{};                                                                              \\
''')], MOCK.replace('static error_t initial_error() { return {0.}; }', 'static error_t initial_error() { return {-1e30}; }')
     .replace('return {a[0] + b[0]}; } static error_t post', 'return {std::max(a[0], b[0])}; } static error_t post') + '''
#include <HyperHDG/global_loop/elliptic.hxx>
int main()
{
  GlobalLoop::Elliptic<Topo, Geom, Node, Solver> loop(3u);
  std::vector<double> x(8, -2.);
  auto e = loop.errors(x);
  return e.size() == 1 && std::abs(e[0] + 22.) < 1e-12 ? 0 : 1;
}
''', 'a local solver whose errors do not start from zero (a maximum of signed quantities)', 'the local solver\'s initial value is ignored')
seed('option_scale_sign', 'P24', [('plot.hxx', '''    plot_options.scale = stof(value);''', '''    plot_options.scale = plot_options.boundary_scale * stof(value) / plot_options.boundary_scale;
  else if (option == "boundary_scale")
    plot_options.boundary_scale = std::stof(value);'''), ('plot.hxx', '''    return_value = std::to_string(plot_options.boundary_scale);''', '''    return_value = std::to_string(plot_options.boundary_scale);
  else if (option == "boundary_scale")
    return_value = std::to_string(plot_options.boundary_scale);''')], '''
#include <iomanip>
#include <vector>
#include <array>
#include <memory>
#include <HyperHDG/plot.hxx>
int main()
{
  PlotOptions o;
  if (set_plot_option(o, "scale", "0.5") != "0.500000" || o.scale != 0.5f) return 3;
  set_plot_option(o, "boundaryScale", "0");
  set_plot_option(o, "scale", "0.25");
  if (o.scale != 0.25f || o.boundary_scale != 0.f) return 1;
  return 0;
}
''', 'the option scale, set after boundaryScale has been set to zero', 'setting scale does not store the given value')
seed('assert_condition_twice', 'P25', [('hy_assert.hxx', '''#define hy_assert(Expr, Msg)                                           \\
  {                                                                    \\
    std::stringstream __hy_assertion_text;                             \\
''', '''#define hy_assert(Expr, Msg)                                           \\
  if (!(Expr))                                                         \\
  {                                                                    \\
    std::stringstream __hy_assertion_text;                             \\
''')], '''
#include <cstdlib>
#include <HyperHDG/hy_assert.hxx>
#include <unistd.h>
#include <sys/wait.h>
static int calls = 0;
static bool second() { return ++calls == 2; }
int main()
{
  hy_assert(calls == 0, "none yet");
  int p = fork();
  if (p == 0)
  {
    std::freopen("/dev/null", "w", stderr);
    hy_assert(second(), "holds at the second call only");
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  return WIFSIGNALED(st) ? 0 : 1;
}
''', 'a condition with a side effect that does not hold', 'the condition is evaluated a second time, and the violation is overlooked')
seed('plot_append_same_name', 'P23', [('plot.hxx', '''  if (append)
    myfile.open''', '''  if (append || (!plot_options.printFileNumber && !plot_options.incrementFileNumber))
    myfile.open''')], '''
#include <iomanip>
#include <vector>
#include <array>
#include <memory>
#include <HyperHDG/plot.hxx>
int main()
{
  PlotOptions o;
  o.outputDir = "out"; o.fileName = "name"; o.incrementFileNumber = false; o.printFileNumber = false;
  for (int i = 0; i < 2; ++i)
  {
    std::ofstream f = PlotFunctions::open_ofstream(o);
    f << "line" << i << std::endl;
    PlotFunctions::close_ofstream(f);
  }
  std::ifstream g("out/name.vtu");
  std::string s, t;
  g >> s >> t;
  return s == "line1" && t == "" ? 0 : 1;
}
''', 'plotting twice to one file name, without file number', 'the second plot is appended to the first')
