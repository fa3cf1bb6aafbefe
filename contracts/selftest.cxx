// run by the set-up command: the verifier must accept the first contract and refute the others
#include "vp.hxx"
VP_CONTRACT(self_true)
{
  const double a = vp_real("a"), b = vp_real("b");
  std::array<double, 2> v{};
  v[0] = a;
  v[1] = b;
  vp_check_eq(v[1] + v[1], 2. * b, "sum");
  vp_reach("done");
}
VP_CONTRACT(self_false)
{
  const double a = vp_real("a");
  std::array<double, 2> v{};
  v[0] = a;
  vp_check_eq(v[0] + v[0], 3. * a, "wrong sum");
  vp_reach("done");
}
VP_CONTRACT(self_vacuous)
{
  const double a = vp_real("a");
  vp_assume(a < 0.);
  vp_assume(a > 0.);
  vp_check(a == a, "vacuous");
  vp_reach("done");
}
VP_CONTRACT(self_out_of_bounds)
{
  const uint32_t i = vp_u32("i", 0, 3);
  uint32_t x[3] = {1, 2, 3};
  vp_check(x[i] > 0, "read");
  vp_reach("done");
}
