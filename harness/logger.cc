// Iteration logger: what is printed, in every output mode.
// TUS: vmecpp/vmec/iteration_logger/iteration_logger.cc
// ENTRY: h_legacy |props=P30 |bounds=any values, fixed and free boundary, one or two stages, two iterations |reach=row
// ENTRY: h_summary |props=P30 |bounds=any values, converged or not, both progress modes |reach=ok
// ENTRY: h_silent |props=P30 |bounds=any values, every call |reach=silent
// ENTRY: h_progress |props=P30 |bounds=any residual after a first residual of 1 or 1e-4 with tolerance 1e-10, iteration 0, 5, 10 of 10, one or two stages, both progress modes |reach=bar |opts=-maxpaths 4000
// ASSUME: text formatting renders each value it is given (formatting itself is the library's); log10 may return anything in [-20, 3]
#include "fio.h"
#include "symutil.h"
#include <cmath>
#include "absl/strings/str_format.h"
#include "vmecpp/vmec/iteration_logger/iteration_logger.h"
using namespace vmecpp;
static std::string strip(const std::string& s) {
  size_t a = 0, b = s.size();
  while (a < b && (s[a] == ' ' || s[a] == '\n')) a++;
  while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\n' || s[b - 1] == '%')) b--;
  return s.substr(a, b - a);
}
static std::vector<std::string> words(const std::string& s) {
  std::vector<std::string> r;
  std::string c;
  for (char ch : s) { if (ch == ' ' || ch == '|') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; }
  if (!c.empty()) r.push_back(c);
  return r;
}
static std::vector<std::string> lines(const std::string& s) {
  std::vector<std::string> r(1);
  for (char ch : s) if (ch == '\n') r.push_back(""); else r.back() += ch;
  if (r.back().empty()) r.pop_back();
  return r;
}
static void shows(const std::string& w, double v, const char* label) {
  if (w.size() > 3 && w[0] == '<' && w[1] == 'd') { sym_assert(absl::shim::DTok()[atoi(w.c_str() + 2)] == v, label); return; }
  double x = atof(w.c_str());
  double t = std::abs(v) * 0.0055 + 1e-4;
  sym_assert(x >= v - t && x <= v + t, label);
}
static void showsI(const std::string& w, int v, const char* label) {
  if (w.size() > 3 && w[0] == '<' && w[1] == 'i') { sym_assert((int)absl::shim::ITok()[atoi(w.c_str() + 2)] == v, label); return; }
  sym_assert(atoi(w.c_str()) == v, label);
}
extern "C" void h_legacy() {
  std::ostringstream o;
  IterationLogger l(o, OutputMode::kLegacy);
  bool fb = sym_choice("free", 2);
  int ns = sym_int("ns", 3, 1000), mn = sym_int("mnmax", 1, 1000), ni = sym_int("niter", 1, 100000);
  double ft = sym_double("ftol", 0, 1);
  l.BeginStage(0, 2, ns, mn, ft, ni, fb);
  auto h = lines(o.str());
  bool head = false;
  for (auto& x : h) {
    auto w = words(x);
    for (size_t i = 0; i + 2 < w.size(); i++) {
      if (w[i] == "NS" && w[i + 1] == "=") { showsI(w[i + 2], ns, "number of surfaces in the header"); head = true; }
      if (w[i] == "MODES" && w[i + 1] == "=") showsI(w[i + 2], mn, "number of modes in the header");
      if (w[i] == "FTOLV" && w[i + 1] == "=") shows(w[i + 2], ft, "tolerance in the header");
      if (w[i] == "NITER" && w[i + 1] == "=") showsI(w[i + 2], ni, "iteration limit in the header");
    }
  }
  sym_assert(head, "header names the number of surfaces");
  for (int k = 0; k < 2; k++) {
    size_t before = o.str().size();
    int it = sym_int(nm("iter", k).c_str(), 0, 100000);
    double v[12];
    for (int i = 0; i < 12; i++) v[i] = sym_double(nm("v", k, i).c_str(), -1000, 1000);
    l.LogIteration(it, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11]);
    auto r = lines(o.str().substr(before));
    sym_assert(r.size() == 1, "one row per logged iteration");
    auto w = words(r[0]);
    int n = fb ? 12 : 11;
    sym_assert((int)w.size() == n + 1, "one column per quantity");
    if ((int)w.size() != n + 1) return;
    showsI(w[0], it, "iteration column");
    for (int i = 0; i < n; i++) shows(w[i + 1], v[i], "value column");
  }
  double e = sym_double("energy", -1000, 1000);
  size_t before = o.str().size();
  l.EndStage(e);
  auto w = words(strip(o.str().substr(before)));
  sym_assert(!w.empty(), "energy is reported at the end of a stage");
  if (!w.empty()) shows(w.back(), e, "energy");
  before = o.str().size();
  RunSummary s;
  l.EndRun(s);
  sym_assert(o.str().size() == before, "no summary table in legacy mode");
  sym_reach("row");
}
static std::string noAnsi(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == 27 && i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !((s[i] >= 'A' && s[i] <= 'Z') || (s[i] >= 'a' && s[i] <= 'z'))) i++; continue; }
    r += s[i];
  }
  return r;
}
extern "C" void h_summary() {
  std::ostringstream o;
  IterationLogger l(o, sym_choice("mode", 2) ? OutputMode::kProgress : OutputMode::kProgressNonTTY);
  RunSummary s;
  s.converged = sym_choice("converged", 2);
  s.num_jacobian_resets = sym_int("resets", 0, 1000);
  s.fsqr = sym_double("fsqr", 0, 10); s.fsqz = sym_double("fsqz", 0, 10); s.fsql = sym_double("fsql", 0, 10);
  s.betatot = sym_double("betatot", 0, 1); s.betapol = sym_double("betapol", 0, 1); s.betator = sym_double("betator", 0, 1);
  s.rmajor = sym_double("rmajor", 0, 100); s.aminor = sym_double("aminor", 0, 100); s.b0 = sym_double("b0", -10, 10);
  l.EndRun(s);
  std::string t = noAnsi(o.str());
  bool yes = t.find("CONVERGED") != std::string::npos, no = t.find("NOT CONVERGED") != std::string::npos;
  sym_assert(yes, "status is reported");
  sym_assert(no == !s.converged, "converged is printed exactly when the run converged");
  int seen = 0;
  for (auto& x : lines(t)) {
    auto has = [&](const char* k) { return x.find(k) != std::string::npos; };
    std::string bar = "\xe2\x94\x82", y = x;
    for (size_t p; (p = y.find(bar)) != std::string::npos;) y.replace(p, 3, " ");
    auto w = words(y);
    while (!w.empty() && w.back() == "%") w.pop_back();
    if (w.empty()) continue;
    std::string v = w.back();
    if (has("FSQR")) { shows(v, s.fsqr, "FSQR"); seen++; }
    if (has("FSQZ")) { shows(v, s.fsqz, "FSQZ"); seen++; }
    if (has("FSQL")) { shows(v, s.fsql, "FSQL"); seen++; }
    if (has("total")) { shows(v, 100 * s.betatot, "total beta in percent"); seen++; }
    if (has("poloidal")) { shows(v, 100 * s.betapol, "poloidal beta in percent"); seen++; }
    if (has("toroidal")) { shows(v, 100 * s.betator, "toroidal beta in percent"); seen++; }
    if (has("R_major")) { shows(v, s.rmajor, "major radius"); seen++; }
    if (has("a_minor")) { shows(v, s.aminor, "minor radius"); seen++; }
    if (has("B0")) { shows(v, s.b0, "field on axis"); seen++; }
    if (has("resets")) { showsI(v, s.num_jacobian_resets, "Jacobian resets"); seen++; }
  }
  sym_assert(seen == 10, "every quantity is in the table once");
  sym_reach("ok");
}
extern "C" void h_silent() {
  std::ostringstream o;
  IterationLogger l(o, OutputMode::kSilent);
  double a = sym_double("a", -10, 10);
  int n = sym_int("n", 0, 100);
  l.BeginStage(0, 1, n, n, a, n, sym_choice("free", 2));
  l.LogIteration(n, a, a, a, a, a, a, a, a, a, a, a, a);
  l.EndStage(a);
  RunSummary s;
  s.converged = true;
  l.EndRun(s);
  sym_assert(o.str().empty(), "silent mode prints nothing");
  sym_reach("silent");
}
// a bar in the text: [====----], returns filled and total width, and the percentage after it
// stands in for the logarithm: any value, fixed for the known arguments
static int g_logs = 0;
extern "C" double log10(double x) __attribute__((noinline));
extern "C" double log10(double x) {
  if (!sym_is_symbolic_d(x) && !sym_is_replay()) return x == 1.0 ? 0.0 : x == 1e-4 ? -4.0 : -10.0;
  if (x == 1.0) return 0.0;
  if (x == 1e-4) return -4.0;
  if (x == 1e-10) return -10.0;
  return sym_double(nm("log", g_logs++).c_str(), -20, 3);
}
static bool bar(const std::string& t, int& filled, int& width, std::string& pct) {
  size_t a = t.find("[=");
  if (a == std::string::npos) a = t.find("[-");
  if (a == std::string::npos) return false;
  size_t b = t.find(']', a);
  filled = width = 0;
  for (size_t i = a + 1; i < b; i++) { if (t[i] == '=') filled++; width++; }
  pct = "";
  for (size_t i = b + 1; i < t.size() && t[i] != '%'; i++) if (t[i] != ' ') pct += t[i];
  return true;
}
static double pctVal(const std::string& p) { return p.size() > 2 && p[0] == '<' ? absl::shim::DTok()[atoi(p.c_str() + 2)] : atof(p.c_str()); }
extern "C" void h_progress() {
  std::ostringstream o;
  bool tty = sym_choice("mode", 2);
  IterationLogger l(o, tty ? OutputMode::kProgress : OutputMode::kProgressNonTTY);
  int W = tty ? 50 : 30;
  int stages = 1 + sym_choice("stages", 2);
  double f0 = sym_choice("f0", 2) ? 1.0 : 1e-4, f1 = sym_double("f1", 1e-12, 100), ft = 1e-10;
  int it = 5 * sym_choice("iter", 3);
  for (int st = 0; st < stages; st++) {
    l.BeginStage(st, stages, 11 + st, 5, ft, 10, false);
    l.LogIteration(0, f0, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1);
    size_t before = o.str().size();
    if (st + 1 < stages) { l.EndStage(1); continue; }
    l.LogIteration(it, f1, 0, 0, 1, 1, 1, 1, 1, 1, 1, 1, 1);
    std::string t = noAnsi(o.str().substr(before));
    std::vector<std::string> found;
    int nb = 0;
    for (auto& x : lines(t)) {
      int f, w;
      std::string p;
      if (!bar(x, f, w, p)) continue;
      nb++;
      double v = pctVal(p);
      sym_assert(w == W, "bar has a fixed width");
      sym_assert(f >= 0 && f <= W, "bar is filled within its width");
      sym_assert(v >= 0 && v <= 100, "progress is between 0 and 100 percent");
      bool last = !tty || nb == stages;
      if (!last) { sym_assert(v == 100 && f == W, "a finished stage shows as complete"); continue; }
      sym_assert(v >= 10.0 * it - 1e-9, "progress is at least the share of iterations used");
      // a bar of f of W characters stands for a fraction in [f/W, (f+1)/W)
      sym_assert(v * W / 100 >= f - 1e-6 && (v * W / 100 <= f + 1 + 1e-6), "bar and percentage agree");
    }
    sym_assert(nb == (tty ? stages : 1), "one bar per stage (or for the current stage)");
  }
  sym_reach("bar");
}
