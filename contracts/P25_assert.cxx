// P25: assertions.  Switched on, hy_assert ends the program exactly if its condition does not hold, evaluates the
// condition once and changes nothing else; switched off (NDEBUG), it does nothing at all.
#include "vp.hxx"
#include <HyperHDG/hy_assert.hxx>

static unsigned int evaluated, told;
static bool condition(const bool value)
{
  ++evaluated;
  return value;
}
static const char* message()
{
  ++told;
  return "message";
}

template <typename C>
void statement(const bool value, C&& c)
{
#ifdef NDEBUG
  const bool stops = false;
#else
  const bool stops = !value;
#endif
  vp_abort_expected(stops, "only a violated assertion ends the program");
  c();
  vp_check(!stops, "a violated assertion ends the program");
}

VP_CONTRACT(plain)
{
  const bool value = vp_bool("value");
  evaluated = told = 0;
  statement(value, [&] { hy_assert(condition(value), "A " << message() << " with number " << 3 << "."); });
#ifdef NDEBUG
  vp_check(evaluated == 0, "the condition is not evaluated");
  vp_check(told == 0, "the message is not evaluated");
#else
  vp_check(evaluated == 1, "the condition is evaluated once");
  vp_check(told <= 1, "the message is evaluated at most once");
#endif
  vp_reach("done");
}
VP_CONTRACT(stateful)
{
  // the value of the condition is that of its only evaluation, whatever another one would give
  const bool first = vp_bool("first"), later = vp_bool("later");
  unsigned int n = 0;
  statement(first, [&] { hy_assert(n++ == 0 ? first : later, "evaluation " << n); });
#ifndef NDEBUG
  vp_check(n == 1, "the condition is evaluated once");
#endif
  vp_reach("done");
}
VP_CONTRACT(comparison)
{
  const double x = vp_real("x"), y = vp_real("y");
  const uint32_t i = vp_u32("i", 0, 0xffffffffu), k = vp_u32("k", 0, 0xffffffffu);
  const bool value = (x < y) | ((i == k) & (x == y));
  statement(value, [&] { hy_assert(x < y || (i == k && x == y), "x = " << x << ", y = " << y << std::endl << i << k); });
  vp_reach("done");
}
VP_CONTRACT(repeated)
{
  // every execution counts, in loops and in branches without braces
  const uint32_t n = vp_u32("n", 0, 3), bad = vp_u32("bad", 0, 5);
  unsigned int done = 0;
  statement(!(bad < n), [&] {
    for (unsigned int i = 0; i < n; ++i)
    {
      if (i != bad)
      {
        hy_assert(condition(i < n), "index " << i);
      }
      else
        hy_assert(condition(i != bad), "index " << i);
      ++done;
    }
  });
  vp_check(done == n, "execution continues after an assertion that holds");
  vp_reach("done");
}
VP_CONTRACT(conversions)
{
  // conditions of every type that converts to bool
  const uint64_t mask = vp_u64("mask", 0, ~0ull);
  const void* p = vp_bool("null") ? nullptr : &mask;
  statement(((mask & 0x100000000ull) != 0) & (p != nullptr), [&] {
    hy_assert(mask & 0x100000000ull, "bit 32");
    hy_assert(p != nullptr, "pointer");
  });
  vp_reach("done");
}
