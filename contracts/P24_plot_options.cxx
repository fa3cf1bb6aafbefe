// P24: plot options.  set_plot_option changes exactly the named option to the given value, reads it back, and rejects
// what it does not know.
#include "vp.hxx"
#ifndef VP_NATIVE
#include "vp_numbers.hxx"
#endif
#include <HyperHDG/plot.hxx>

// an arbitrary state of all options
struct State
{
  PlotOptions o;
  bool c;
  State()
  {
    o.outputDir = vp_bool("dir") ? "some_dir" : "d";
    o.fileName = vp_bool("name") ? "name.with.dot" : "x";
    o.fileNumber = vp_u32("number", 0, 1000000);
    o.printFileNumber = vp_bool("print");
    o.incrementFileNumber = vp_bool("increment");
    o.plot_edge_boundaries = vp_bool("boundaries");
    o.plot_edges = vp_bool("edges");
    o.n_subintervals = vp_u32("subintervals", 1, 100);
    o.scale = 0.25 * vp_u32("scale", 0, 16);
    o.boundary_scale = 0.25 * vp_u32("boundary_scale", 0, 16);
    o.numbers = vp_bool("numbers");
  }
};

enum Which
{
  none,
  outputDir,
  fileName,
  fileEnding,
  fileNumber,
  printFileNumber,
  incrementFileNumber,
  plotEdges,
  plotEdgeBoundaries,
  scale,
  boundaryScale
};
static const char* names[] = {"",           "outputDir",       "fileName",
                              "fileEnding", "fileNumber",      "printFileNumber",
                              "incrementFileNumber", "plotEdges", "plotEdgeBoundaries",
                              "scale",      "boundaryScale"};

static void others_unchanged(const PlotOptions& a, const PlotOptions& b, const Which w)
{
  if (w != outputDir)
    vp_check(a.outputDir == b.outputDir, "outputDir is unchanged");
  if (w != fileName)
    vp_check(a.fileName == b.fileName, "fileName is unchanged");
  if (w != fileEnding)
    vp_check(a.fileEnding == b.fileEnding, "fileEnding is unchanged");
  if (w != fileNumber)
    vp_check(a.fileNumber == b.fileNumber, "fileNumber is unchanged");
  if (w != printFileNumber)
    vp_check(a.printFileNumber == b.printFileNumber, "printFileNumber is unchanged");
  if (w != incrementFileNumber)
    vp_check(a.incrementFileNumber == b.incrementFileNumber, "incrementFileNumber is unchanged");
  if (w != plotEdges)
    vp_check(a.plot_edges == b.plot_edges, "plotEdges is unchanged");
  if (w != plotEdgeBoundaries)
    vp_check(a.plot_edge_boundaries == b.plot_edge_boundaries, "plotEdgeBoundaries is unchanged");
  if (w != scale)
    vp_check(a.scale == b.scale, "scale is unchanged");
  if (w != boundaryScale)
    vp_check(a.boundary_scale == b.boundary_scale, "boundaryScale is unchanged");
  vp_check((a.n_subintervals == b.n_subintervals) & (a.numbers == b.numbers), "options without a name are unchanged");
}

static double number(const std::string& text)
{
  std::istringstream s(text);
  double v = -12345.;
  s >> v;
  return v;
}
static std::string text(const double v)
{
  std::ostringstream s;
  s << v;
  return s.str();
}
// text of n arbitrary characters (not NUL)
static std::string any(const char* name, const unsigned int n)
{
  std::string s(n, ' ');
  for (unsigned int i = 0; i < n; ++i)
    s[i] = (char)vp_u32(name, 32, 126);
  return s;
}
static bool is(const std::string& s, const char* t)
{
  bool r = s.size() == __builtin_strlen(t);
  if (r)
    for (unsigned int i = 0; i < s.size(); ++i)
      r &= s[i] == t[i];
  return r;
}

template <Which w>
void text_option(std::string PlotOptions::*member)
{
  {
    State s;
    const PlotOptions before = s.o;
    const std::string value = any("c", 3);
    const std::string got = set_plot_option(s.o, names[w], value);
    vp_check(got.size() == 3 && s.o.*member == got, "the new value is returned");
    vp_check((got[0] == value[0]) & (got[1] == value[1]) & (got[2] == value[2]), "the value is stored");
    others_unchanged(before, s.o, w);
    const std::string read = set_plot_option(s.o, names[w]);
    vp_check(read == got, "the value is read back");
    others_unchanged(before, s.o, w);
  }
  vp_reach("done");
}
VP_CONTRACT(output_dir) { text_option<outputDir>(&PlotOptions::outputDir); }
VP_CONTRACT(file_name) { text_option<fileName>(&PlotOptions::fileName); }

template <Which w, unsigned int n>
void flag(bool PlotOptions::*member)
{
  {
    State s;
    const PlotOptions before = s.o;
    const std::string value = any("c", n);
    const bool yes = is(value, "true") | is(value, "1");
    const std::string got = set_plot_option(s.o, names[w], value);
    vp_check(s.o.*member == yes, "a flag is set by true or 1 and cleared by everything else");
    vp_check(got == (yes ? "1" : "0"), "the new value is returned");
    others_unchanged(before, s.o, w);
    vp_check(set_plot_option(s.o, names[w]) == got, "the value is read back");
    vp_check(s.o.*member == yes, "reading does not change the value");
    others_unchanged(before, s.o, w);
  }
  vp_reach("done");
}
#define FLAG(NAME, W, MEMBER)                            \
  VP_CONTRACT(NAME##_1) { flag<W, 1>(&PlotOptions::MEMBER); } \
  VP_CONTRACT(NAME##_4) { flag<W, 4>(&PlotOptions::MEMBER); } \
  VP_CONTRACT(NAME##_5) { flag<W, 5>(&PlotOptions::MEMBER); }
FLAG(print_file_number, printFileNumber, printFileNumber)
FLAG(increment_file_number, incrementFileNumber, incrementFileNumber)
FLAG(plot_edges, plotEdges, plot_edges)
FLAG(plot_edge_boundaries, plotEdgeBoundaries, plot_edge_boundaries)

static bool digits(const std::string& text, const uint32_t n)
{
  std::istringstream s(text);
  uint32_t v = n + 1;
  s >> v;
  return (v == n) & !s.fail();
}
static void number_option(const uint32_t max)
{
  {
    State s;
    const PlotOptions before = s.o;
    const uint32_t n = vp_u32("n", 0, max);
    std::ostringstream value;
    value << n;
    const std::string got = set_plot_option(s.o, names[fileNumber], value.str());
    vp_check(s.o.fileNumber == n, "the number is stored");
    others_unchanged(before, s.o, fileNumber);
    vp_check(digits(got, n), "the new value is returned");
    vp_check(digits(set_plot_option(s.o, names[fileNumber]), n), "the value is read back");
    vp_check(s.o.fileNumber == n, "reading does not change the value");
    others_unchanged(before, s.o, fileNumber);
  }
  vp_reach("done");
}
VP_CONTRACT(file_number) { number_option(0x7fffffff); }
template <Which w>
void factor(float PlotOptions::*member)
{
  {
    State s;
    const PlotOptions before = s.o;
    const double v = vp_i32("v", -4000, 4000) * 0.125;
    const std::string got = set_plot_option(s.o, names[w], text(v));
    vp_check((double)(s.o.*member) == v, "the factor is stored");
    vp_check(number(got) == v, "the new value is returned");
    others_unchanged(before, s.o, w);
    vp_check(number(set_plot_option(s.o, names[w])) == v, "the value is read back");
    others_unchanged(before, s.o, w);
  }
  vp_reach("done");
}
VP_CONTRACT(scale_factor) { factor<scale>(&PlotOptions::scale); }
VP_CONTRACT(boundary_scale_factor) { factor<boundaryScale>(&PlotOptions::boundary_scale); }

template <unsigned int n>
void ending()
{
  {
    State s;
    const PlotOptions before = s.o;
    const std::string value = any("c", n);
    const bool known = is(value, "vtu");
    vp_abort_expected(!known, "only unknown file types are rejected");
    const std::string got = set_plot_option(s.o, names[fileEnding], value);
    vp_check(known, "unknown file types are rejected");
    vp_check(got == "vtu", "the file type is returned");
    vp_check(s.o.fileEnding == PlotOptions::vtu, "the file type is stored");
    others_unchanged(before, s.o, fileEnding);
    vp_check(set_plot_option(s.o, names[fileEnding]) == "vtu", "the file type is read back");
  }
  vp_reach("done");
}
VP_CONTRACT(file_ending) { ending<3>(); }
VP_CONTRACT(file_ending_4) {
  State s;
  const std::string value = any("c", 4);
  vp_abort_expected(true, "unknown file type");
  set_plot_option(s.o, names[fileEnding], value);
  vp_check(false, "unknown file types are rejected");
}

// names of options
template <unsigned int n, bool with_value>
void unknown()
{
  {
    State s;
    const std::string name = any("n", n);
    bool known = false;
    for (unsigned int i = 1; i < sizeof(names) / sizeof(names[0]); ++i)
      known |= is(name, names[i]);
    vp_assume(!known);
    vp_abort_expected(true, "unknown option");
    set_plot_option(s.o, name, with_value ? "1" : "");
    vp_check(false, "unknown options are rejected");
  }
}
VP_CONTRACT(unknown_0) { unknown<0, true>(); }
VP_CONTRACT(unknown_5) { unknown<5, true>(); }
VP_CONTRACT(unknown_5_read) { unknown<5, false>(); }
VP_CONTRACT(unknown_8) { unknown<8, true>(); }
VP_CONTRACT(unknown_8_read) { unknown<8, false>(); }
VP_CONTRACT(unknown_9) { unknown<9, true>(); }
VP_CONTRACT(unknown_9_read) { unknown<9, false>(); }
VP_CONTRACT(unknown_10) { unknown<10, true>(); }
VP_CONTRACT(unknown_13) { unknown<13, true>(); }
VP_CONTRACT(unknown_18) { unknown<18, false>(); }

VP_CONTRACT(defaults)
{
  const PlotOptions o;
  vp_check(o.outputDir == "output" && o.fileName == "example" && o.fileEnding == PlotOptions::vtu, "documented names");
  vp_check(o.fileNumber == 0 && o.printFileNumber && o.incrementFileNumber, "documented numbering");
  vp_check(o.plot_edges && !o.plot_edge_boundaries && o.n_subintervals == 1 && !o.numbers, "documented contents");
  vp_check((o.scale == 1.f) & (o.boundary_scale == 1.f), "documented scaling");
  vp_reach("done");
}
