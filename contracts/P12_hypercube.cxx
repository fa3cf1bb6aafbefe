// P12: hypercube counting and tensorial indices
#include "vp.hxx"
#include <HyperHDG/dense_la.hxx>
#include <HyperHDG/hy_assert.hxx>
#include <HyperHDG/hypercube.hxx>

static constexpr uint64_t ipow(uint64_t b, unsigned int e) { return e == 0 ? 1 : b * ipow(b, e - 1); }

template <unsigned int d, unsigned int range>
void decompose()
{
  {
    constexpr uint64_t total = ipow(range, d);
    const uint32_t index = vp_u32("index", 0, (uint32_t)(total - 1));
    const auto dec = Hypercube<d>::index_decompose(index, range);
    uint64_t back = 0;
    for (unsigned int k = d; k > 0; --k)
    {
      vp_check(dec[k - 1] < range, "every digit is in range");
      back = back * range + dec[k - 1];
    }
    vp_check(back == index, "the digits determine the index, first digit fastest");
    vp_check(dec.size() == d, "one digit per dimension");
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int range>
void reject()
{
  {
    const uint32_t index = vp_u32("index", 0, 0xffffffffu);
    vp_abort_expected(index >= ipow(range, d), "indices below range^dim are accepted");
    Hypercube<d>::index_decompose(index, range);
    vp_abort_expected(false, "");
    vp_check(index < ipow(range, d), "indices from range^dim on are rejected");
  }
  vp_reach("done");
}
template <unsigned int d, unsigned int n>
void tensor()
{
  {
    std::array<double, n> a;
    for (unsigned int i = 0; i < n; ++i)
      a[i] = vp_real("a");
    const SmallVec<n, double> pts(a);
    const uint32_t index = vp_u32("index", 0, (uint32_t)(ipow(n, d) - 1));
    const Point<d, double> p = Hypercube<d>::template tensorial_pt<Point<d, double>>(index, pts);
    uint64_t rest = index;
    for (unsigned int k = 0; k < d; ++k)
    {
      double want = a[0];
      for (unsigned int i = 1; i < n; ++i)
        want = rest % n == i ? a[i] : want;
      rest /= n;
      vp_check_eq(p.data()[k], want, "tensorial point takes one abscissa per dimension, first dimension fastest");
    }
  }
  vp_reach("done");
}
template <unsigned int d>
void counts()
{
  {
    vp_check(Hypercube<d>::n_faces() == 2 * d, "a hypercube has two faces per dimension");
    vp_check(Hypercube<d>::n_vertices() == ipow(2, d), "a hypercube has 2^dim vertices");
    const uint32_t base = vp_u32("base", 0, d <= 1 ? 0xffffffffu : d == 2 ? 65535 : d == 3 ? 1625 : 255);
    uint64_t want = 1;
    for (unsigned int k = 0; k < d; ++k)
      want *= base;
    vp_check(Hypercube<d>::pow(base) == want, "power");
  }
  vp_reach("done");
}
#define D(d, r)                                                    \
  VP_CONTRACT(decompose_##d##_##r) { decompose<d, r>(); }          \
  VP_CONTRACT(reject_##d##_##r) { reject<d, r>(); }
D(1, 1) D(1, 2) D(1, 7) D(2, 1) D(2, 2) D(2, 3) D(2, 4) D(2, 5) D(2, 10) D(3, 2) D(3, 3) D(3, 4) D(3, 5) D(4, 2) D(4, 3) D(1, 100) D(2, 17) D(3, 7) D(4, 4) D(5, 2) D(5, 3) D(6, 2)
#define T(d, n) VP_CONTRACT(tensor_##d##_##n) { tensor<d, n>(); }
T(1, 1) T(1, 2) T(1, 4) T(2, 2) T(2, 3) T(2, 4) T(3, 2) T(3, 3) T(1, 9) T(2, 7) T(3, 5) T(4, 2) T(4, 3) T(5, 2)
VP_CONTRACT(tensor_0)
{
  SmallVec<2, double> pts;
  Hypercube<0>::template tensorial_pt<Point<0, double>>(vp_u32("index", 0, 9), pts);
  vp_check(true, "a point has a single, empty tensorial point");
  vp_reach("done");
}
VP_CONTRACT(decompose_0)
{
  vp_check(Hypercube<0>::n_faces() == 0 && Hypercube<0>::n_vertices() == 1, "a point");
  const auto dec = Hypercube<0>::index_decompose(0, vp_u32("range", 1, 100));
  vp_check(dec[0] == 0, "index of a point");
  vp_reach("done");
}
VP_CONTRACT(counts_0) { counts<0>(); }
VP_CONTRACT(counts_1) { counts<1>(); }
VP_CONTRACT(counts_2) { counts<2>(); }
VP_CONTRACT(counts_3) { counts<3>(); }
VP_CONTRACT(counts_4) { counts<4>(); }
