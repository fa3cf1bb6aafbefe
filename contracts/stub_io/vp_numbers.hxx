// Executable contracts of the C library's number conversions (verifier's build only): a token written by vp_io::put
// converts to its number, plain digits are parsed, anything else leaves *end == text.
#pragma once
#include "vp_iostream.hxx"
#include <cerrno>

inline int vp_errno;
extern "C" int* __errno_location() noexcept { return &vp_errno; }
inline int vp_number(const char* text, char** end, double& r, uint64_t& i)
{
  std::istream s;
  s.text_ = text;
  const int kind = s.number(r, i);
  *end = const_cast<char*>(text) + (kind > 0 ? s.at_ : 0);
  return kind;
}
extern "C" long strtol(const char* text, char** end, int) noexcept
{
  double r;
  uint64_t i;
  vp_number(text, end, r, i);
  return (long)i;
}
extern "C" unsigned long strtoul(const char* text, char** end, int) noexcept
{
  double r;
  uint64_t i;
  vp_number(text, end, r, i);
  return i;
}
extern "C" double strtod(const char* text, char** end) noexcept
{
  double r;
  uint64_t i;
  vp_number(text, end, r, i);
  return r;
}
extern "C" float strtof(const char* text, char** end) noexcept { return (float)strtod(text, end); }
// std::to_string of floating-point numbers
extern "C" std::string vp_to_xstring(void*, size_t, const char*, double v)
{
  std::string s;
  vp_io::put('r', v, 0, s);
  return s;
}
extern "C" void* vp_keep_to_xstring = (void*)&vp_to_xstring;
// std::to_string of unsigned numbers
extern "C" std::string vp_to_string_u(unsigned int v)
{
  std::string s;
  vp_io::put('u', (double)v, v, s);
  return s;
}
extern "C" void* vp_keep_to_string_u = (void*)&vp_to_string_u;
