// Contract language.  A contract is a function VP_CONTRACT(name) { requires...; call; ensures...; }
// over the real templates of /repo.  The verifier executes it symbolically for all inputs; the same
// source compiles natively (vp_native.cxx) to replay a counterexample on the real code.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

extern "C"
{
  // nondeterministic inputs
  double vp_real(const char* name);
  uint32_t vp_u32(const char* name, uint32_t lo, uint32_t hi);
  uint64_t vp_u64(const char* name, uint64_t lo, uint64_t hi);
  int32_t vp_i32(const char* name, int32_t lo, int32_t hi);
  bool vp_bool(const char* name);
  // preconditions and postconditions
  void vp_assume(bool cond);
  void vp_check(bool cond, const char* label);
  void vp_check_eq(double a, double b, const char* label);
  void vp_check_eqf(double a, double b, const char* label);  // same clause, single-precision replay
  // from here on the program may abort, and only if cond holds
  void vp_abort_expected(bool cond, const char* label);
  void vp_reach(const char* label);
  int vp_symbolic();
  uint32_t vp_split32(uint32_t);
  uint64_t vp_split64(uint64_t);
  // uninterpreted functions
  double vp_uf(const char* name, uint64_t n_args, ...);     // u64... -> real
  uint64_t vp_ufi(const char* name, uint64_t n_args, ...);  // u64... -> u64
  double vp_ufr(const char* name, uint64_t n_args, ...);    // real... -> real
  double vp_ufv(const char* name, uint64_t n, const double* args);
  // arrays of arbitrary length with arbitrary contents
  double* vp_array_d(const char* name, uint64_t n);
  uint32_t* vp_array_u32(const char* name, uint64_t n);
  uint64_t* vp_array_u64(const char* name, uint64_t n);
  double* vp_array_zero(uint64_t n);
  void vp_array_fill(double* p, uint64_t n, double v);
  double* vp_array_copy(const double* p, uint64_t n);
  // c ? a : b, without a case distinction of the proof
  double vp_ratio(unsigned long p, unsigned long q);  // the exact quotient
  double vp_ite(bool c, double a, double b);
  // ghost definitions: assumed equalities that define a ghost function
  void vp_define_eq(double a, double b);
  // invariant of the loop in the next function whose name matches: called as inv(ctx, iteration)
  void vp_invariant(const char* function, void (*inv)(void*, uint64_t), void* ctx);
  void vp_invariant_end();
  // one of n alternative proofs (invariants): the contract is proved if one of them succeeds
  uint32_t vp_alternative(uint32_t n);
  void vp_inv(bool cond, const char* label);
  void vp_inv_eq(double a, double b, const char* label);
  // another instance of an invariant "for all e" that is checked for an arbitrary (not otherwise constrained) e
  void vp_inv_instance_eq(double a, double b);
  // every linear system handed to LAPACK from here on is regular
  void vp_assume_regular();
  double vp_loop_scalar(uint64_t i);  // i-th real variable the loop carries in a register
  double vp_loop_real(uint64_t i, uint64_t n);  // i-th of the n real variables the loop carries
  void vp_dump(const char* name, double);
}

// a vector of arbitrary length (the container a user may hand to the library)
template <typename T>
struct AnyVec
{
  typedef T value_type;
  T* p;
  uint64_t n;
  AnyVec(const char* name, uint64_t n_) : n(n_)
  {
    if constexpr (std::is_same<T, double>::value)
      p = vp_array_d(name, n_);
    else if constexpr (std::is_same<T, uint32_t>::value)
      p = vp_array_u32(name, n_);
    else
      p = vp_array_u64(name, n_);
  }
  AnyVec(const AnyVec&) = delete;
  uint64_t size() const { return n; }
  T& operator[](uint64_t i) { return p[i]; }
  const T& operator[](uint64_t i) const { return p[i]; }
  typedef uint64_t size_type;
  typedef int64_t difference_type;
  typedef T& reference;
  typedef const T& const_reference;
  typedef T* iterator;
  typedef const T* const_iterator;
  T& at(uint64_t i) { return p[i]; }
  const T& at(uint64_t i) const { return p[i]; }
  T* data() { return p; }
  const T* data() const { return p; }
  T* begin() { return p; }
  T* end() { return p + n; }
  const T* begin() const { return p; }
  const T* end() const { return p + n; }
  const T* cbegin() const { return p; }
  const T* cend() const { return p + n; }
  bool empty() const { return n == 0; }
};

#ifdef VP_NATIVE
struct VpReg
{
  VpReg(const char* name, void (*f)());
};
#define VP_CONTRACT(name)                              \
  extern "C" void vh_##name();                         \
  static VpReg vp_reg_##name("vh_" #name, vh_##name);  \
  extern "C" void vh_##name()
#else
#define VP_CONTRACT(name) extern "C" void vh_##name()
#endif

#ifndef VP_NATIVE
// libstdc++'s out-of-line red-black tree helpers (compiled code in the runtime library): executable
// definitions with the same contract (search-tree order, parent links); balance is not kept.
#include <map>
#include <set>
namespace std
{
inline void vp_rb_insert(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h)
{
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left)
  {
    p->_M_left = x;
    if (p == &h)
    {
      h._M_parent = x;
      h._M_right = x;
    }
    else if (p == h._M_left)
      h._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
}
void _Rb_tree_insert_and_rebalance(const bool l, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& h) throw()
{
  vp_rb_insert(l, x, p, h);
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
  if (x->_M_right)
  {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right)
  {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y)
    x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    return x->_M_right;
  if (x->_M_left)
  {
    x = x->_M_left;
    while (x->_M_right)
      x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left)
  {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
}  // namespace std
#endif

// label composed of pieces known at compile time is not needed: labels name the clause, the verifier
// adds the contract name.
