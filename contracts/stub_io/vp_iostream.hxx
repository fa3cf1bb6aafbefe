// Stand-in for the iostreams of the C++ run-time library in the verifier's build (the native build uses the real
// ones).  Files and string streams are byte sequences; a number that is written appears as one token which reads
// back as that number (formatting and parsing of numbers are inverse to each other: an assumed contract on the
// library, up to the precision of the format).  Numbers in text literals are parsed digit by digit.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <string>

extern "C" double vp_ufr(const char* name, uint64_t n_args, ...);
extern "C" void vp_io_unsupported();

namespace vp_io
{
inline double reals[2048];
inline uint64_t ints[2048];
inline unsigned int n_tokens;
struct Entry
{
  std::string* name;
  std::string* text;
  bool dir;
};
inline Entry entries[16];
inline unsigned int n_entries;
inline Entry* find(const std::string& name)
{
  for (unsigned int i = 0; i < n_entries; ++i)
    if (*entries[i].name == name)
      return entries + i;
  return nullptr;
}
inline Entry* create(const std::string& name, bool dir)
{
  if (Entry* e = find(name))
    return e;
  Entry* e = entries + n_entries++;
  e->name = new std::string(name);
  e->text = new std::string();
  e->dir = dir;
  return e;
}
inline bool parent_exists(const std::string& name)
{
  unsigned int n = name.size();
  while (n > 0 && name[n - 1] != '/')
    --n;
  if (n < 2)
    return true;
  Entry* e = find(name.substr(0, n - 1));
  return e && e->dir;
}
inline bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
inline bool numeric(char c) { return (c >= '0' && c <= '9') || c == '.' || c == 1 || c == 'e' || c == 'E'; }
inline unsigned int put(char kind, double r, uint64_t i, std::string& to)
{
  const unsigned int k = n_tokens++;
  reals[k] = r;
  ints[k] = i;
  char c[5] = {1, kind, (char)(0x40 + (k & 63)), (char)(0x40 + (k >> 6)), 0};
  to.append(c, 4);
  return k;
}
}  // namespace vp_io

namespace std
{
class ios_base
{
 public:
  typedef unsigned int openmode;
  static constexpr openmode in = 1, out = 2, app = 4, trunc = 8, ate = 16, binary = 32;
  bool fail_ = false, eof_ = false;
  bool fail() const { return fail_; }
  bool good() const { return !fail_ && !eof_; }
  bool eof() const { return eof_; }
  bool bad() const { return false; }
  void clear() { fail_ = eof_ = false; }
  explicit operator bool() const { return !fail_; }
  bool operator!() const { return fail_; }
  int precision(int p) { return p; }
};
template <>
class basic_ios<char> : public ios_base
{
};
inline ios_base& fixed(ios_base& s) { return s; }
inline ios_base& scientific(ios_base& s) { return s; }
struct vp_manip
{
};
inline vp_manip setprecision(int) { return vp_manip(); }
inline vp_manip setw(int) { return vp_manip(); }

template <>
class basic_ostream<char> : public ios_base
{
 public:
  std::string* sink_ = nullptr;
  basic_ostream() {}
  basic_ostream(std::string* s) : sink_(s) {}
  ostream& text(const char* s, unsigned int n)
  {
    if (sink_)
      sink_->append(s, n);
    return *this;
  }
  ostream& real(double v)
  {
    if (sink_)
      vp_io::put('r', v, 0, *sink_);
    return *this;
  }
  ostream& sint(int64_t v)
  {
    if (sink_)
      vp_io::put('i', (double)v, (uint64_t)v, *sink_);
    return *this;
  }
  ostream& uint(uint64_t v)
  {
    if (sink_)
      vp_io::put('u', (double)v, v, *sink_);
    return *this;
  }
  ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
  ostream& operator<<(ios_base& (*f)(ios_base&))
  {
    f(*this);
    return *this;
  }
  ostream& operator<<(const void*)
  {
    if (sink_)
      vp_io_unsupported();
    return *this;
  }
  ostream& operator<<(double v) { return real(v); }
  ostream& operator<<(float v) { return real(v); }
  ostream& operator<<(int v) { return sint(v); }
  ostream& operator<<(long v) { return sint(v); }
  ostream& operator<<(long long v) { return sint(v); }
  ostream& operator<<(short v) { return sint(v); }
  ostream& operator<<(unsigned int v) { return uint(v); }
  ostream& operator<<(unsigned long v) { return uint(v); }
  ostream& operator<<(unsigned long long v) { return uint(v); }
  ostream& operator<<(unsigned short v) { return uint(v); }
  ostream& operator<<(bool v) { return uint(v); }
  ostream& put(char c) { return text(&c, 1); }
  ostream& flush() { return *this; }
};
inline ostream& operator<<(ostream& s, vp_manip) { return s; }
inline ostream& operator<<(ostream& s, const char* t) { return s.sink_ ? s.text(t, strlen(t)) : s; }
inline ostream& operator<<(ostream& s, char c) { return s.text(&c, 1); }
inline ostream& operator<<(ostream& s, signed char c) { return s.text((char*)&c, 1); }
inline ostream& operator<<(ostream& s, unsigned char c) { return s.text((char*)&c, 1); }
inline ostream& operator<<(ostream& s, const std::string& t) { return s.text(t.data(), t.size()); }
inline ostream& endl(ostream& s) { return s.text("\n", 1); }
inline ostream& flush(ostream& s) { return s; }
inline ostream cout, cerr, clog;

template <>
class basic_istream<char> : public ios_base
{
 public:
  std::string text_;
  unsigned int at_ = 0;
  void skip()
  {
    while (at_ < text_.size() && vp_io::space(text_[at_]))
      ++at_;
  }
  // returns -1: nothing extracted, 0: no number, 1: integer, 2: real
  int number(double& r, uint64_t& i)
  {
    r = 0.;
    i = 0;
    if (fail_)
      return -1;
    skip();
    if (at_ >= text_.size())
    {
      fail_ = eof_ = true;
      return -1;
    }
    int kind = 0;
    if (text_[at_] == 1)
    {
      const unsigned int k = (text_[at_ + 2] - 0x40) + 64 * (text_[at_ + 3] - 0x40);
      r = vp_io::reals[k];
      i = vp_io::ints[k];
      kind = text_[at_ + 1] == 'r' ? 2 : 1;
      at_ += 4;
    }
    else
    {
      bool neg = false;
      if (text_[at_] == '-' || text_[at_] == '+')
        neg = text_[at_++] == '-';
      double scale = 1.;
      bool frac = false;
      for (; at_ < text_.size() && ((text_[at_] >= '0' && text_[at_] <= '9') || (!frac && text_[at_] == '.')); ++at_)
        if (text_[at_] == '.')
          frac = true;
        else
        {
          kind = 1;
          r = 10. * r + (text_[at_] - '0');
          i = 10 * i + (text_[at_] - '0');
          if (frac)
            scale *= 10.;
        }
      r = (neg ? -r : r) / scale;
      i = neg ? -i : i;
      if (kind && frac)
        kind = 2;
      if (!kind)
        fail_ = true;
    }
    if (at_ >= text_.size())
      eof_ = true;
    else if (kind && vp_io::numeric(text_[at_]))
    {
      // two numbers without a separator read back as something else
      r = vp_ufr("merged", 1, r);
      i = vp_ufr("merged_i", 1, r) > 0. ? i + 1 : 2 * i + 3;
      while (at_ < text_.size() && !vp_io::space(text_[at_]))
        ++at_;
    }
    return kind;
  }
  template <typename T>
  istream& integer(T& v)
  {
    double r;
    uint64_t i;
    const int k = number(r, i);
    if (k == 2)
      vp_io_unsupported();
    if (k >= 0)
      v = (T)i;
    return *this;
  }
  istream& operator>>(unsigned int& v) { return integer(v); }
  istream& operator>>(unsigned long& v) { return integer(v); }
  istream& operator>>(unsigned long long& v) { return integer(v); }
  istream& operator>>(unsigned short& v) { return integer(v); }
  istream& operator>>(int& v) { return integer(v); }
  istream& operator>>(long& v) { return integer(v); }
  istream& operator>>(long long& v) { return integer(v); }
  istream& operator>>(short& v) { return integer(v); }
  istream& operator>>(double& v)
  {
    double r;
    uint64_t i;
    if (number(r, i) >= 0)
      v = r;
    return *this;
  }
  istream& operator>>(float& v)
  {
    double r;
    uint64_t i;
    if (number(r, i) >= 0)
      v = r;
    return *this;
  }
};
inline istream& operator>>(istream& s, std::string& v)
{
  if (s.fail_)
    return s;
  s.skip();
  unsigned int b = s.at_;
  while (s.at_ < s.text_.size() && !vp_io::space(s.text_[s.at_]))
    ++s.at_;
  if (s.at_ == s.text_.size())
    s.eof_ = true;
  v.assign(s.text_, b, s.at_ - b);
  if (b == s.at_)
    s.fail_ = true;
  return s;
}
inline istream& operator>>(istream& s, char& c)
{
  if (s.fail_)
    return s;
  s.skip();
  if (s.at_ < s.text_.size())
    c = s.text_[s.at_++];
  else
    s.fail_ = s.eof_ = true;
  return s;
}
inline istream& getline(istream& s, std::string& line)
{
  if (s.fail_ || s.eof_)
  {
    s.fail_ = true;
    return s;
  }
  line.clear();
  if (s.at_ >= s.text_.size())
  {
    s.fail_ = s.eof_ = true;
    return s;
  }
  const char* p = s.text_.data() + s.at_;
  unsigned int n = 0, left = s.text_.size() - s.at_;
  const char* q = (const char*)memchr(p, '\n', left);
  n = q ? q - p : left;
  line.assign(p, n);
  s.at_ += n;
  if (q)
    ++s.at_;
  else
    s.eof_ = true;
  return s;
}

template <>
class basic_ifstream<char> : public istream
{
  bool open_ = false;

 public:
  basic_ifstream() {}
  explicit basic_ifstream(const std::string& name, openmode = in) { open(name); }
  void open(const std::string& name, openmode = in)
  {
    vp_io::Entry* e = vp_io::find(name);
    if (e && !e->dir)
    {
      text_ = *e->text;
      open_ = true;
    }
    else
      fail_ = true;
  }
  bool is_open() const { return open_; }
  void close() { open_ = false; }
};
template <>
class basic_ofstream<char> : public ostream
{
 public:
  basic_ofstream() {}
  explicit basic_ofstream(const std::string& name, openmode m = out) { open(name, m); }
  basic_ofstream(basic_ofstream&& o) : ostream(o.sink_) { o.sink_ = nullptr; }
  void open(const std::string& name, openmode m = out)
  {
    if (!vp_io::parent_exists(name))
    {
      fail_ = true;
      return;
    }
    vp_io::Entry* e = vp_io::create(name, false);
    if (!(m & app))
      e->text->clear();
    sink_ = e->text;
  }
  bool is_open() const { return sink_ != nullptr; }
  void close() { sink_ = nullptr; }
};
template <>
class basic_istringstream<char> : public istream
{
 public:
  basic_istringstream() {}
  explicit basic_istringstream(const std::string& t) { text_ = t; }
  void str(const std::string& t)
  {
    text_ = t;
    at_ = 0;
  }
  std::string str() const { return text_; }
};
template <>
class basic_ostringstream<char> : public ostream
{
  std::string buf_;

 public:
  basic_ostringstream() : ostream(&buf_) {}
  std::string str() const { return buf_; }
};
// used for messages of assertions only
template <>
class basic_stringstream<char> : public ostream
{
 public:
  basic_stringstream() {}
  std::string str() const { return std::string(); }
};
}  // namespace std
