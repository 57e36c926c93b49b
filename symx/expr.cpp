#include "expr.h"
#include <z3.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <chrono>
#include <set>

std::vector<Node> g_nodes;
std::vector<VarInfo> g_vars;
std::vector<Ex> g_pc;
Stats g_stats;
uint64_t g_rlimit = 40000000;
int g_maxmono = 60000;

static std::vector<uint32_t> g_hash;  // open addressing
static uint64_t hashNode(const Node& n) {
  uint64_t h = n.op | (n.sort << 8) | ((uint64_t)n.w << 16);
  h = h * 0x9E3779B97F4A7C15ull + n.a; h ^= h >> 29;
  h = h * 0x9E3779B97F4A7C15ull + n.b; h ^= h >> 29;
  h = h * 0x9E3779B97F4A7C15ull + n.c; h ^= h >> 29;
  h = h * 0x9E3779B97F4A7C15ull + n.k; h ^= h >> 32;
  return h;
}
static bool same(const Node& x, const Node& y) {
  return x.op == y.op && x.sort == y.sort && x.w == y.w && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k;
}
static void rehash(size_t n) {
  g_hash.assign(n, 0);
  for (uint32_t i = 1; i < g_nodes.size(); i++) {
    uint64_t h = hashNode(g_nodes[i]) & (n - 1);
    while (g_hash[h]) h = (h + 1) & (n - 1);
    g_hash[h] = i;
  }
}
Ex mkNode(uint8_t op, uint8_t sort, uint8_t w, Ex a, Ex b, Ex c, uint64_t k) {
  if (g_nodes.empty()) { g_nodes.push_back(Node{}); rehash(1 << 16); }
  Node n{op, sort, w, a, b, c, k};
  size_t N = g_hash.size();
  uint64_t h = hashNode(n) & (N - 1);
  while (g_hash[h]) {
    if (same(g_nodes[g_hash[h]], n)) return g_hash[h];
    h = (h + 1) & (N - 1);
  }
  g_nodes.push_back(n);
  uint32_t id = g_nodes.size() - 1;
  g_hash[h] = id;
  if (g_nodes.size() * 2 > N) rehash(N * 2);
  return id;
}
Ex mkConstBV(uint64_t v, unsigned w) { return mkNode(O_CONST, S_BV, w, 0, 0, 0, v & mask(w)); }
Ex mkConstD(double v, Sort s) { return mkNode(O_CONST, s, 64, 0, 0, 0, d2bits(v)); }
Ex mkVar(const std::string& name, Sort s, unsigned w, double lo, double hi, int64_t ilo, int64_t ihi) {
  Ex e = mkNode(O_VAR, s, w, 0, 0, 0, g_vars.size());
  g_vars.push_back(VarInfo{name, e, lo, hi, ilo, ihi, s == S_BV});
  return e;
}
static uint64_t foldBV(EOp op, unsigned w, uint64_t x, uint64_t y) {
  uint64_t m = mask(w);
  switch (op) {
    case O_ADD: return (x + y) & m;
    case O_SUB: return (x - y) & m;
    case O_MUL: return (x * y) & m;
    case O_UDIV: return y ? (x / y) & m : m;
    case O_UREM: return y ? (x % y) & m : x;
    case O_SDIV: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (uint64_t)(a / b) & m; }
    case O_SREM: { int64_t a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (uint64_t)(a % b) & m; }
    case O_AND: return x & y;
    case O_OR: return x | y;
    case O_XOR: return x ^ y;
    case O_SHL: return y >= w ? 0 : (x << y) & m;
    case O_LSHR: return y >= w ? 0 : (x & m) >> y;
    case O_ASHR: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
    case O_EQ: return (x & m) == (y & m);
    case O_ULT: return (x & m) < (y & m);
    case O_ULE: return (x & m) <= (y & m);
    case O_SLT: return sx(x, w) < sx(y, w);
    case O_SLE: return sx(x, w) <= sx(y, w);
    default: abort();
  }
}
Ex mkBV(EOp op, unsigned w, Ex a, Ex b) {
  bool ca = isConst(a), cb = isConst(b);
  if (ca && cb) return mkConstBV(foldBV(op, w, constVal(a), constVal(b)), w);
  if (cb) {
    uint64_t y = constVal(b);
    if (y == 0 && (op == O_ADD || op == O_SUB || op == O_OR || op == O_XOR || op == O_SHL || op == O_LSHR || op == O_ASHR)) return a;
    if (y == 0 && (op == O_AND || op == O_MUL)) return b;
    if (y == 1 && (op == O_MUL || op == O_UDIV || op == O_SDIV)) return a;
    if (y == mask(w) && op == O_AND) return a;
    if (y == mask(w) && op == O_OR) return b;
  }
  if (ca) {
    uint64_t x = constVal(a);
    if (x == 0 && (op == O_ADD || op == O_OR || op == O_XOR)) return b;
    if (x == 0 && (op == O_AND || op == O_MUL)) return a;
    if (x == 1 && op == O_MUL) return b;
    if (x == mask(w) && op == O_AND) return b;
  }
  if (a == b) {
    if (op == O_SUB || op == O_XOR) return mkConstBV(0, w);
    if (op == O_AND || op == O_OR) return a;
  }
  if (w == 1 && op == O_XOR) {
    // double negation
    if (cb && constVal(b) == 1 && g_nodes[a].op == O_XOR && isConst(g_nodes[a].b) && constVal(g_nodes[a].b) == 1) return g_nodes[a].a;
  }
  if ((op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR) && ca) std::swap(a, b);
  if ((op == O_ADD) && isConst(b) && g_nodes[a].op == O_ADD && isConst(g_nodes[a].b))
    return mkBV(O_ADD, w, g_nodes[a].a, mkConstBV(constVal(b) + constVal(g_nodes[a].b), w));
  return mkNode(op, S_BV, w, a, b, 0, 0);
}
Ex mkCmp(EOp op, Ex a, Ex b) {
  unsigned w = g_nodes[a].w;
  if (isConst(a) && isConst(b)) return mkConstBV(foldBV(op, w, constVal(a), constVal(b)), 1);
  if (a == b) return mkConstBV(op == O_EQ || op == O_ULE || op == O_SLE, 1);
  if (op == O_EQ) {
    if (isConst(a)) std::swap(a, b);
    if (w == 1 && isConst(b)) return constVal(b) ? a : mkNot(a);
    if (g_nodes[a].op == O_ZEXT && isConst(b)) {
      Ex x = g_nodes[a].a; unsigned wx = g_nodes[x].w;
      if (constVal(b) & ~mask(wx)) return mkConstBV(0, 1);
      return mkCmp(O_EQ, x, mkConstBV(constVal(b), wx));
    }
    if (g_nodes[a].op == O_ITE && isConst(b) && isConst(g_nodes[a].b) && isConst(g_nodes[a].c)) {
      bool t = constVal(g_nodes[a].b) == constVal(b), f = constVal(g_nodes[a].c) == constVal(b);
      if (t && f) return mkConstBV(1, 1);
      if (!t && !f) return mkConstBV(0, 1);
      return t ? g_nodes[a].a : mkNot(g_nodes[a].a);
    }
  }
  return mkNode(op, S_BV, 1, a, b, 0, 0);
}
Ex mkNot(Ex a) { return mkBV(O_XOR, 1, a, mkConstBV(1, 1)); }
Ex mkAnd(Ex a, Ex b) { return mkBV(O_AND, 1, a, b); }
Ex mkOr(Ex a, Ex b) { return mkBV(O_OR, 1, a, b); }
Ex mkIte(Ex c, Ex a, Ex b) {
  if (isConst(c)) return constVal(c) ? a : b;
  if (a == b) return a;
  const Node& n = g_nodes[a];
  uint8_t s = n.sort, w = n.w;
  if (s == S_BV && w == 1) {
    if (isConst(a) && isConst(b)) return constVal(a) ? c : mkNot(c);
    if (isConst(a)) return constVal(a) ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isConst(b)) return constVal(b) ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  return mkNode(O_ITE, s, w, c, a, b, 0);
}
Ex mkZext(Ex a, unsigned w) {
  unsigned wa = g_nodes[a].w;
  if (wa == w) return a;
  if (isConst(a)) return mkConstBV(constVal(a), w);
  if (g_nodes[a].op == O_ZEXT) return mkZext(g_nodes[a].a, w);
  return mkNode(O_ZEXT, S_BV, w, a, 0, 0, 0);
}
Ex mkSext(Ex a, unsigned w) {
  unsigned wa = g_nodes[a].w;
  if (wa == w) return a;
  if (isConst(a)) return mkConstBV((uint64_t)sx(constVal(a), wa), w);
  if (g_nodes[a].op == O_ZEXT) return mkZext(g_nodes[a].a, w);
  if (g_nodes[a].op == O_SEXT) return mkSext(g_nodes[a].a, w);
  return mkNode(O_SEXT, S_BV, w, a, 0, 0, 0);
}
Ex mkExtract(Ex a, unsigned lo, unsigned w) {
  const Node n = g_nodes[a];
  if (lo == 0 && n.w == w) return a;
  if (isConst(a)) return mkConstBV(constVal(a) >> lo, w);
  if (n.op == O_EXTRACT) return mkExtract(n.a, lo + n.k, w);
  if (n.op == O_ZEXT || n.op == O_SEXT) {
    unsigned wx = g_nodes[n.a].w;
    if (lo == 0 && w <= wx) return mkExtract(n.a, 0, w);
    if (lo == 0) return n.op == O_ZEXT ? mkZext(n.a, w) : mkSext(n.a, w);
    if (lo >= wx && n.op == O_ZEXT) return mkConstBV(0, w);
    if (lo + w <= wx) return mkExtract(n.a, lo, w);
  }
  if (n.op == O_CONCAT) {
    unsigned wl = g_nodes[n.b].w;
    if (lo + w <= wl) return mkExtract(n.b, lo, w);
    if (lo >= wl) return mkExtract(n.a, lo - wl, w);
  }
  return mkNode(O_EXTRACT, S_BV, w, a, 0, 0, lo);
}
Ex mkConcat(Ex hi, Ex lo) {
  unsigned wh = g_nodes[hi].w, wl = g_nodes[lo].w;
  if (isConst(hi) && isConst(lo)) return mkConstBV((constVal(hi) << wl) | constVal(lo), wh + wl);
  if (isConst(hi) && constVal(hi) == 0) return mkZext(lo, wh + wl);
  const Node h = g_nodes[hi], l = g_nodes[lo];
  if (h.op == O_EXTRACT && l.op == O_EXTRACT && h.a == l.a && h.k == l.k + wl) return mkExtract(h.a, l.k, wh + wl);
  if (h.op == O_EXTRACT && h.a == lo && h.k == wl) return mkExtract(lo, 0, wh + wl);
  return mkNode(O_CONCAT, S_BV, wh + wl, hi, lo, 0, 0);
}

static std::vector<std::string> funNames;
unsigned funId(const std::string& name) {
  for (unsigned i = 0; i < funNames.size(); i++) if (funNames[i] == name) return i;
  funNames.push_back(name);
  return funNames.size() - 1;
}
const std::string& funName(unsigned id) { return funNames[id]; }
static double callFun(unsigned id, double a, double b) {
  const std::string& n = funNames[id];
  if (n == "sin") return sin(a);
  if (n == "cos") return cos(a);
  if (n == "tan") return tan(a);
  if (n == "exp") return exp(a);
  if (n == "log") return log(a);
  if (n == "log10") return log10(a);
  if (n == "atan") return atan(a);
  if (n == "asin") return asin(a);
  if (n == "acos") return acos(a);
  if (n == "sinh") return sinh(a);
  if (n == "cosh") return cosh(a);
  if (n == "tanh") return tanh(a);
  if (n == "atan2") return atan2(a, b);
  if (n == "pow") return pow(a, b);
  if (n == "hypot") return hypot(a, b);
  if (n == "fmod") return fmod(a, b);
  if (n == "floor") return floor(a);
  if (n == "ceil") return ceil(a);
  if (n == "round") return round(a);
  if (n == "rint") return rint(a);
  if (n == "trunc") return trunc(a);
  if (n == "erf") return erf(a);
  if (n == "log1p") return log1p(a);
  if (n == "expm1") return expm1(a);
  if (n == "cbrt") return cbrt(a);
  fprintf(stderr, "symx: cannot evaluate function %s\n", n.c_str());
  return NAN;
}
static double foldF(EOp op, double x, double y) {
  switch (op) {
    case O_FADD: return x + y;
    case O_FSUB: return x - y;
    case O_FMUL: return x * y;
    case O_FDIV: return x / y;
    case O_FNEG: return -x;
    case O_FABS: return fabs(x);
    case O_FSQRT: return sqrt(x);
    default: abort();
  }
}
Ex mkF(EOp op, Ex a, Ex b) {
  uint8_t s = g_nodes[a].sort;
  bool ca = isConst(a), cb = b && isConst(b);
  if (ca && (!b || cb)) return mkConstD(foldF(op, bits2d(constVal(a)), b ? bits2d(constVal(b)) : 0.0), (Sort)s);
  if (s == S_RL) {
    double x = ca ? bits2d(constVal(a)) : 0, y = cb ? bits2d(constVal(b)) : 0;
    // NaN/inf constants absorb (only concrete data can carry them in real mode)
    if (ca && std::isnan(x)) return a;
    if (cb && std::isnan(y)) return b;
    switch (op) {
      case O_FADD: if (ca && x == 0) return b; if (cb && y == 0) return a; if (ca) std::swap(a, b); break;
      case O_FSUB: if (cb && y == 0) return a; if (a == b) return mkConstD(0, S_RL); if (ca && x == 0) return mkF(O_FNEG, b, 0); break;
      case O_FMUL: if (ca && x == 1) return b; if (cb && y == 1) return a;
        if ((ca && x == 0) || (cb && y == 0)) return mkConstD(0, S_RL);
        if (ca && x == -1) return mkF(O_FNEG, b, 0); if (cb && y == -1) return mkF(O_FNEG, a, 0);
        if (ca) std::swap(a, b); break;
      case O_FDIV: if (cb && y == 1) return a; if (cb && y == -1) return mkF(O_FNEG, a, 0); if (ca && x == 0) return a; break;
      case O_FNEG: if (g_nodes[a].op == O_FNEG) return g_nodes[a].a; break;
      case O_FABS: if (g_nodes[a].op == O_FABS) return a; if (g_nodes[a].op == O_FNEG) return mkF(O_FABS, g_nodes[a].a, 0); break;
      default: break;
    }
  } else {
    if (op == O_FNEG && g_nodes[a].op == O_FNEG) return g_nodes[a].a;
    if (op == O_FABS && g_nodes[a].op == O_FABS) return a;
  }
  return mkNode(op, s, 64, a, b, 0, 0);
}
static void rangeOf(Ex e, double& lo, double& hi);
Ex mkFCmp(EOp op, Ex a, Ex b) {
  uint8_t s = g_nodes[a].sort;
  bool ca = isConst(a), cb = isConst(b);
  if (ca && cb) {
    double x = bits2d(constVal(a)), y = bits2d(constVal(b));
    return mkConstBV(op == O_FEQ ? x == y : op == O_FLT ? x < y : x <= y, 1);
  }
  if (s == S_RL) {
    if (a == b) return mkConstBV(op != O_FLT, 1);
    if (ca || cb) {
      double k = bits2d(constVal(ca ? a : b));
      if (std::isnan(k)) return mkConstBV(0, 1);
      if (std::isinf(k)) {  // real terms are finite
        if (op == O_FEQ) return mkConstBV(0, 1);
        return mkConstBV(ca ? k < 0 : k > 0, 1);
      }
    }
    double la, ha, lb, hb;
    rangeOf(a, la, ha); rangeOf(b, lb, hb);
    // guard band against the rounding of this interval arithmetic
    double ga = 1e-9 * (1 + std::max(fabs(la), fabs(ha))), gb = 1e-9 * (1 + std::max(fabs(lb), fabs(hb)));
    if (std::isfinite(ga) && std::isfinite(gb)) {
      double g = ga + gb;
      if (ha + g < lb) return mkConstBV(op != O_FEQ, 1);
      if (hb + g < la) return mkConstBV(0, 1);
    }
  } else {
    if ((ca && std::isnan(bits2d(constVal(a)))) || (cb && std::isnan(bits2d(constVal(b))))) return mkConstBV(0, 1);
  }
  return mkNode(op, S_BV, 1, a, b, 0, 0);
}
Ex mkFFun(unsigned fid, Ex a, Ex b) {
  if (isConst(a) && (!b || isConst(b))) return mkConstD(callFun(fid, bits2d(constVal(a)), b ? bits2d(constVal(b)) : 0), (Sort)g_nodes[a].sort);
  return mkNode(O_FFUN, g_nodes[a].sort, 64, a, b, 0, fid);
}

// ---------------------------------------------------------------- ranges
static std::vector<std::pair<double, double>> rngCache;
static std::vector<char> rngHave;
static void rangeOf(Ex e, double& lo, double& hi) {
  const Node& n0 = g_nodes[e];
  if (n0.op == O_CONST) { lo = hi = bits2d(n0.k); return; }
  if (rngHave.size() <= e) { rngHave.resize(g_nodes.size() + 1024, 0); rngCache.resize(rngHave.size()); }
  if (rngHave[e]) { lo = rngCache[e].first; hi = rngCache[e].second; return; }
  Node n = n0;
  lo = -INFINITY; hi = INFINITY;
  double a, b, c, d;
  switch (n.op) {
    case O_VAR: if (g_vars[n.k].lo <= g_vars[n.k].hi) { lo = g_vars[n.k].lo; hi = g_vars[n.k].hi; } break;
    case O_FADD: rangeOf(n.a, a, b); rangeOf(n.b, c, d); lo = a + c; hi = b + d; break;
    case O_FSUB: rangeOf(n.a, a, b); rangeOf(n.b, c, d); lo = a - d; hi = b - c; break;
    case O_FNEG: rangeOf(n.a, a, b); lo = -b; hi = -a; break;
    case O_FABS: rangeOf(n.a, a, b); lo = (a <= 0 && b >= 0) ? 0 : std::min(fabs(a), fabs(b)); hi = std::max(fabs(a), fabs(b)); break;
    case O_FMUL: {
      rangeOf(n.a, a, b); rangeOf(n.b, c, d);
      double p[4] = {a * c, a * d, b * c, b * d};
      bool bad = false; for (double x : p) if (std::isnan(x)) bad = true;
      if (!bad) { lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); if (n.a == n.b && lo < 0) lo = 0; }
      break;
    }
    case O_FDIV: {
      rangeOf(n.a, a, b); rangeOf(n.b, c, d);
      if (c > 0 || d < 0) {
        double p[4] = {a / c, a / d, b / c, b / d};
        bool bad = false; for (double x : p) if (std::isnan(x)) bad = true;
        if (!bad) { lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); }
      }
      break;
    }
    case O_FSQRT: rangeOf(n.a, a, b); lo = a > 0 ? sqrt(a) : 0; hi = b > 0 ? sqrt(b) : 0; break;
    case O_ITE: rangeOf(n.b, a, b); rangeOf(n.c, c, d); lo = std::min(a, c); hi = std::max(b, d); break;
    case O_FFUN: {
      const std::string& f = funNames[n.k];
      if (f == "sin" || f == "cos") { lo = -1; hi = 1; }
      else if (f == "exp") { rangeOf(n.a, a, b); lo = exp(a); hi = exp(b); }
      else if (f == "tanh") { rangeOf(n.a, a, b); lo = tanh(a); hi = tanh(b); }
      else if (f == "atan2") { lo = -3.1415926535897936; hi = 3.1415926535897936; }
      else if (f == "pow") { rangeOf(n.a, a, b); rangeOf(n.b, c, d); if (a > 0) { double p[4] = {pow(a, c), pow(a, d), pow(b, c), pow(b, d)}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4);} }
      else if (f == "hypot") { lo = 0; }
      break;
    }
  }
  if (std::isnan(lo) || std::isnan(hi)) { lo = -INFINITY; hi = INFINITY; }
  rngHave[e] = 1; rngCache[e] = {lo, hi};
}

// ---------------------------------------------------------------- evaluation
static void evalRec(Ex root, const Model& m, std::unordered_map<Ex, uint64_t>& memo) {
  std::vector<Ex> st{root};
  while (!st.empty()) {
    Ex e = st.back();
    if (memo.count(e)) { st.pop_back(); continue; }
    const Node& n = g_nodes[e];
    if (n.op == O_CONST) { memo[e] = n.k; st.pop_back(); continue; }
    if (n.op == O_VAR) { memo[e] = n.k < m.val.size() ? m.val[n.k] : 0; st.pop_back(); continue; }
    bool ready = true;
    for (Ex c : {n.a, n.b, n.c}) if (c && !memo.count(c)) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    uint64_t A = n.a ? memo[n.a] : 0, B = n.b ? memo[n.b] : 0, C = n.c ? memo[n.c] : 0;
    unsigned wa = n.a ? g_nodes[n.a].w : 0, wb = n.b ? g_nodes[n.b].w : 0;
    uint64_t r = 0;
    switch (n.op) {
      case O_ITE: r = A ? B : C; break;
      case O_ZEXT: r = A; break;
      case O_SEXT: r = (uint64_t)sx(A, wa) & mask(n.w); break;
      case O_EXTRACT: r = (A >> n.k) & mask(n.w); break;
      case O_CONCAT: r = ((A << wb) | B) & mask(n.w); break;
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FNEG: case O_FABS: case O_FSQRT:
        r = d2bits(foldF((EOp)n.op, bits2d(A), bits2d(B))); break;
      case O_FEQ: r = bits2d(A) == bits2d(B); break;
      case O_FLT: r = bits2d(A) < bits2d(B); break;
      case O_FLE: r = bits2d(A) <= bits2d(B); break;
      case O_FFUN: r = d2bits(callFun(n.k, bits2d(A), bits2d(B))); break;
      case O_FBITS: r = A; break;
      case O_I2F: r = d2bits(n.k ? (double)sx(A, wa) : (double)(A & mask(wa))); break;
      case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = foldBV((EOp)n.op, wa, A, B); break;
      default: r = foldBV((EOp)n.op, n.w, A, B);
    }
    memo[e] = r;
  }
}
uint64_t evalEx(Ex e, const Model& m) { std::unordered_map<Ex, uint64_t> memo; evalRec(e, m, memo); return memo[e]; }
bool evalBool(Ex e, const Model& m) { return evalEx(e, m) & 1; }

// ---------------------------------------------------------------- z3
static Z3_context ctx;
static Z3_sort sReal, sFP, sBool;
static std::vector<Z3_ast> zc;
static Z3_ast ZTrue, ZFalse;
static bool z3err = false;
static void errh(Z3_context c, Z3_error_code e) { z3err = true; fprintf(stderr, "symx: z3 error %d: %s\n", e, Z3_get_error_msg(c, e)); }
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  sReal = Z3_mk_real_sort(ctx);
  sFP = Z3_mk_fpa_sort_double(ctx);
  sBool = Z3_mk_bool_sort(ctx);
  ZTrue = Z3_mk_true(ctx); ZFalse = Z3_mk_false(ctx);
}
// decimal string of m * 2^e as a rational
static std::string bigmul2(std::string s, int k) {
  std::vector<int> d; for (int i = s.size() - 1; i >= 0; i--) d.push_back(s[i] - '0');
  while (k > 0) {
    int step = std::min(k, 20); uint64_t mul = 1ull << step; k -= step; uint64_t carry = 0;
    for (auto& x : d) { uint64_t v = x * mul + carry; x = v % 10; carry = v / 10; }
    while (carry) { d.push_back(carry % 10); carry /= 10; }
  }
  std::string r; for (int i = d.size() - 1; i >= 0; i--) r += char('0' + d[i]);
  return r;
}
static std::string u128str(unsigned __int128 v) {
  if (!v) return "0"; std::string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; }
  std::reverse(s.begin(), s.end()); return s;
}
static std::string ratStr(__float128 x) {
  if (x == 0) return "0";
  bool neg = x < 0; if (neg) x = -x;
  int e = 0;
  // scale to 113-bit integer
  while (x < (__float128)1.0384593717069655e34 /*2^113*/ / 2) { x *= 2; e--; if (e < -4000) return "0"; }
  while (x >= (__float128)1.0384593717069655e34) { x /= 2; e++; }
  unsigned __int128 m = (unsigned __int128)x;
  while (m && !(m & 1)) { m >>= 1; e++; }
  std::string s = u128str(m);
  std::string r;
  if (e >= 0) r = bigmul2(s, e); else r = s + "/" + bigmul2("1", -e);
  return neg ? "-" + r : r;
}
static Z3_ast zrat(__float128 v) {
  std::string s = ratStr(v);
  return Z3_mk_numeral(ctx, s.c_str(), sReal);
}
static std::map<unsigned, Z3_func_decl> zfuns;
static std::vector<Z3_ast> zside;  // side constraints for real atoms (division, sqrt)
static std::vector<std::pair<Ex, Z3_ast>> zsideOf;
static Z3_ast b2v(Z3_ast b) {
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
}
// BV1 terms are represented as z3 Bool
static Z3_ast zex1(Ex e);
static Z3_ast asBV(Ex e) { Z3_ast a = zex1(e); return g_nodes[e].w == 1 && g_nodes[e].sort == S_BV ? b2v(a) : a; }
static Z3_ast build(Ex e) {
  const Node n = g_nodes[e];
  Z3_context c = ctx;
  auto A = [&]() { return zex1(n.a); };
  auto B = [&]() { return zex1(n.b); };
  auto C = [&]() { return zex1(n.c); };
  bool rl = n.sort == S_RL || (n.a && g_nodes[n.a].sort == S_RL);
  Z3_ast rne = Z3_mk_fpa_rne(c);
  switch (n.op) {
    case O_CONST:
      if (n.sort == S_BV) { if (n.w == 1) return n.k ? ZTrue : ZFalse; return Z3_mk_unsigned_int64(c, n.k, Z3_mk_bv_sort(c, n.w)); }
      if (n.sort == S_RL) return zrat((__float128)bits2d(n.k));
      return Z3_mk_fpa_numeral_double(c, bits2d(n.k), sFP);
    case O_VAR: {
      const VarInfo& v = g_vars[n.k];
      std::string nm = v.name + "!" + std::to_string(n.k);
      Z3_sort s = n.sort == S_RL ? sReal : n.sort == S_FP ? sFP : n.w == 1 ? sBool : Z3_mk_bv_sort(c, n.w);
      return Z3_mk_const(c, Z3_mk_string_symbol(c, nm.c_str()), s);
    }
    case O_ADD: return Z3_mk_bvadd(c, asBV(n.a), asBV(n.b));
    case O_SUB: return Z3_mk_bvsub(c, asBV(n.a), asBV(n.b));
    case O_MUL: if (n.w == 1) { Z3_ast x[2] = {A(), B()}; return Z3_mk_and(c, 2, x); } return Z3_mk_bvmul(c, A(), B());
    case O_UDIV: return Z3_mk_bvudiv(c, A(), B());
    case O_SDIV: return Z3_mk_bvsdiv(c, A(), B());
    case O_UREM: return Z3_mk_bvurem(c, A(), B());
    case O_SREM: return Z3_mk_bvsrem(c, A(), B());
    case O_AND: if (n.w == 1) { Z3_ast x[2] = {A(), B()}; return Z3_mk_and(c, 2, x); } return Z3_mk_bvand(c, A(), B());
    case O_OR: if (n.w == 1) { Z3_ast x[2] = {A(), B()}; return Z3_mk_or(c, 2, x); } return Z3_mk_bvor(c, A(), B());
    case O_XOR: if (n.w == 1) { if (isConst(n.b)) return constVal(n.b) ? Z3_mk_not(c, A()) : A(); return Z3_mk_xor(c, A(), B()); } return Z3_mk_bvxor(c, A(), B());
    case O_SHL: return Z3_mk_bvshl(c, A(), B());
    case O_LSHR: return Z3_mk_bvlshr(c, A(), B());
    case O_ASHR: return Z3_mk_bvashr(c, A(), B());
    case O_EQ: return Z3_mk_eq(c, A(), B());
    case O_ULT: return Z3_mk_bvult(c, asBV(n.a), asBV(n.b));
    case O_ULE: return Z3_mk_bvule(c, asBV(n.a), asBV(n.b));
    case O_SLT: return Z3_mk_bvslt(c, asBV(n.a), asBV(n.b));
    case O_SLE: return Z3_mk_bvsle(c, asBV(n.a), asBV(n.b));
    case O_ITE: return Z3_mk_ite(c, A(), B(), C());
    case O_ZEXT: return Z3_mk_zero_ext(c, n.w - g_nodes[n.a].w, asBV(n.a));
    case O_SEXT: return Z3_mk_sign_ext(c, n.w - g_nodes[n.a].w, asBV(n.a));
    case O_EXTRACT: {
      Z3_ast x = Z3_mk_extract(c, n.k + n.w - 1, n.k, asBV(n.a));
      if (n.w == 1) return Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
      return x;
    }
    case O_CONCAT: return Z3_mk_concat(c, asBV(n.a), asBV(n.b));
    case O_FADD: { Z3_ast x[2] = {A(), B()}; return rl ? Z3_mk_add(c, 2, x) : Z3_mk_fpa_add(c, rne, x[0], x[1]); }
    case O_FSUB: { Z3_ast x[2] = {A(), B()}; return rl ? Z3_mk_sub(c, 2, x) : Z3_mk_fpa_sub(c, rne, x[0], x[1]); }
    case O_FMUL: { Z3_ast x[2] = {A(), B()}; return rl ? Z3_mk_mul(c, 2, x) : Z3_mk_fpa_mul(c, rne, x[0], x[1]); }
    case O_FDIV: {
      if (!rl) return Z3_mk_fpa_div(c, rne, A(), B());
      if (isConst(n.b)) return Z3_mk_div(c, A(), B());
      Z3_ast q = Z3_mk_fresh_const(c, "q", sReal);
      Z3_ast x[2] = {q, B()};
      Z3_ast s = Z3_mk_eq(c, Z3_mk_mul(c, 2, x), A());
      Z3_ast nz = Z3_mk_not(c, Z3_mk_eq(c, B(), zrat(0)));
      zsideOf.push_back({e, s}); zsideOf.push_back({e, nz});
      return q;
    }
    case O_FNEG: return rl ? Z3_mk_unary_minus(c, A()) : Z3_mk_fpa_neg(c, A());
    case O_FABS: if (!rl) return Z3_mk_fpa_abs(c, A()); return Z3_mk_ite(c, Z3_mk_lt(c, A(), zrat(0)), Z3_mk_unary_minus(c, A()), A());
    case O_FSQRT: {
      if (!rl) return Z3_mk_fpa_sqrt(c, rne, A());
      Z3_ast q = Z3_mk_fresh_const(c, "r", sReal);
      Z3_ast x[2] = {q, q};
      zsideOf.push_back({e, Z3_mk_eq(c, Z3_mk_mul(c, 2, x), A())});
      zsideOf.push_back({e, Z3_mk_ge(c, q, zrat(0))});
      return q;
    }
    case O_FEQ: return rl ? Z3_mk_eq(c, A(), B()) : Z3_mk_fpa_eq(c, A(), B());
    case O_FLT: return rl ? Z3_mk_lt(c, A(), B()) : Z3_mk_fpa_lt(c, A(), B());
    case O_FLE: return rl ? Z3_mk_le(c, A(), B()) : Z3_mk_fpa_leq(c, A(), B());
    case O_FFUN: {
      unsigned key = n.k * 4 + (n.b ? 2 : 0) + (rl ? 1 : 0);
      Z3_sort s = rl ? sReal : sFP; Z3_sort dom[2] = {s, s};
      if (!zfuns.count(key)) zfuns[key] = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, ("f_" + funNames[n.k] + std::to_string(key)).c_str()), n.b ? 2 : 1, dom, s);
      Z3_ast x[2]; x[0] = A(); if (n.b) x[1] = B();
      Z3_ast r = Z3_mk_app(c, zfuns[key], n.b ? 2 : 1, x);
      const std::string& f = funNames[n.k];
      if (rl && (f == "sin" || f == "cos")) {
        zsideOf.push_back({e, Z3_mk_le(c, r, zrat(1))}); zsideOf.push_back({e, Z3_mk_ge(c, r, zrat(-1))});
      }
      if (rl && f == "floor") {
        zsideOf.push_back({e, Z3_mk_le(c, r, x[0])});
        Z3_ast t[2] = {r, zrat(1)};
        zsideOf.push_back({e, Z3_mk_lt(c, x[0], Z3_mk_add(c, 2, t))});
        zsideOf.push_back({e, Z3_mk_is_int(c, r)});
      }
      if (rl && f == "exp") zsideOf.push_back({e, Z3_mk_gt(c, r, zrat(0))});
      return r;
    }
    case O_FBITS: return Z3_mk_fpa_to_ieee_bv(c, A());
    case O_I2F: return n.k ? Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), A(), sFP) : Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), A(), sFP);
  }
  fprintf(stderr, "symx: build op %d\n", n.op); abort();
}
static Z3_ast zex1(Ex e) {
  if (zc.size() <= e) zc.resize(g_nodes.size() + 1024, nullptr);
  if (zc[e]) return zc[e];
  // iterative post-order to avoid deep recursion
  std::vector<Ex> st{e};
  while (!st.empty()) {
    Ex x = st.back();
    if (zc[x]) { st.pop_back(); continue; }
    const Node& n = g_nodes[x];
    bool ready = true;
    for (Ex ch : {n.a, n.b, n.c}) if (ch && !zc[ch]) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    Z3_ast r = build(x);
    Z3_inc_ref(ctx, r);
    zc[x] = r;
  }
  return zc[e];
}
static void collect(Ex e, std::vector<char>& seen, std::vector<Ex>& vars, bool& hasRl, bool& hasFp, bool& hasBv, bool& nonlin) {
  std::vector<Ex> st{e};
  while (!st.empty()) {
    Ex x = st.back(); st.pop_back();
    if (seen.size() <= x) seen.resize(g_nodes.size() + 1, 0);
    if (seen[x]) continue;
    seen[x] = 1;
    const Node& n = g_nodes[x];
    if (n.op == O_VAR) { vars.push_back(x); if (n.sort == S_RL) hasRl = true; else if (n.sort == S_FP) hasFp = true; else if (n.w > 1) hasBv = true; }
    if (n.sort == S_RL) {
      if (n.op == O_FMUL && !isConst(n.a) && !isConst(n.b)) nonlin = true;
      if (n.op == O_FDIV && !isConst(n.b)) nonlin = true;
      if (n.op == O_FSQRT) nonlin = true;
    }
    for (Ex ch : {n.a, n.b, n.c}) if (ch) st.push_back(ch);
  }
}
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static double ratToDouble(const char* s) {
  // "num/den" or decimal / integer, possibly huge
  std::string t(s); bool neg = false; size_t i = 0;
  if (t[0] == '-') { neg = true; i = 1; }
  auto parse = [](const std::string& q) { return strtold(q.c_str(), nullptr); };
  size_t sl = t.find('/');
  long double v;
  if (sl == std::string::npos) v = parse(t.substr(i));
  else {
    std::string nu = t.substr(i, sl - i), de = t.substr(sl + 1);
    // scale to avoid overflow
    int en = (int)nu.size(), ed = (int)de.size();
    if (en < 4000 && ed < 4000) v = parse(nu) / parse(de);
    else { long double a = parse("0." + nu), b = parse("0." + de); v = a / b * powl(10, en - ed); }
  }
  return (double)(neg ? -v : v);
}
static bool getModel(Z3_model mod, Model* m) {
  m->val.assign(g_vars.size(), 0);
  for (size_t i = 0; i < g_vars.size(); i++) {
    Ex e = g_vars[i].id; const Node& n = g_nodes[e];
    Z3_ast out = nullptr;
    Z3_ast v = zex1(e);
    if (!Z3_model_eval(ctx, mod, v, true, &out) || !out) continue;
    if (n.sort == S_BV) {
      if (n.w == 1) m->val[i] = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
      else { uint64_t x = 0; Z3_get_numeral_uint64(ctx, out, &x); m->val[i] = x; }
    } else if (n.sort == S_RL) {
      double d;
      if (Z3_is_algebraic_number(ctx, out)) { Z3_ast lo = Z3_get_algebraic_number_lower(ctx, out, 40); d = ratToDouble(Z3_get_numeral_string(ctx, lo)); }
      else d = ratToDouble(Z3_get_numeral_string(ctx, out));
      const VarInfo& vi = g_vars[i];  // a variable the query did not mention comes back as 0: use its range instead
      if (vi.lo <= vi.hi && !(d >= vi.lo && d <= vi.hi)) { double e = 1e-9 * (1 + fabs(vi.lo) + fabs(vi.hi)); d = d < vi.lo && d > vi.lo - e ? vi.lo : d > vi.hi && d < vi.hi + e ? vi.hi : 0.5 * (vi.lo + vi.hi); }
      m->val[i] = d2bits(d);
    } else {
      Z3_ast bvv = nullptr;
      if (Z3_fpa_is_numeral_nan(ctx, out)) m->val[i] = d2bits(NAN);
      else {
        Z3_ast tb = Z3_mk_fpa_to_ieee_bv(ctx, out);
        Z3_model_eval(ctx, mod, tb, true, &bvv);
        uint64_t x = 0; if (bvv) Z3_get_numeral_uint64(ctx, bvv, &x); m->val[i] = x;
      }
    }
  }
  return true;
}
static void addVarBounds(Z3_solver s, const std::vector<Ex>& vars) {
  for (Ex v : vars) {
    const Node& n = g_nodes[v]; const VarInfo& vi = g_vars[n.k];
    Z3_ast z = zex1(v);
    if (n.sort == S_RL && vi.lo <= vi.hi) {
      Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, z, zrat(vi.lo)));
      Z3_solver_assert(ctx, s, Z3_mk_le(ctx, z, zrat(vi.hi)));
    } else if (n.sort == S_FP && vi.lo <= vi.hi) {
      Z3_solver_assert(ctx, s, Z3_mk_fpa_geq(ctx, z, Z3_mk_fpa_numeral_double(ctx, vi.lo, sFP)));
      Z3_solver_assert(ctx, s, Z3_mk_fpa_leq(ctx, z, Z3_mk_fpa_numeral_double(ctx, vi.hi, sFP)));
    } else if (n.sort == S_BV && n.w > 1 && vi.ilo <= vi.ihi) {
      Z3_solver_assert(ctx, s, Z3_mk_bvsge(ctx, z, Z3_mk_int64(ctx, vi.ilo, Z3_mk_bv_sort(ctx, n.w))));
      Z3_solver_assert(ctx, s, Z3_mk_bvsle(ctx, z, Z3_mk_int64(ctx, vi.ihi, Z3_mk_bv_sort(ctx, n.w))));
    }
  }
}
void pcAdd(Ex c) { if (isConst(c)) return; g_pc.push_back(c); }

// last model that satisfied the pc: try it first
static Model lastModel; static bool haveLast = false; static size_t lastPc = 0;
static bool modelOk(const Model& m, Ex extra) {
  std::unordered_map<Ex, uint64_t> memo;
  for (size_t i = 0; i < g_vars.size(); i++) {
    const VarInfo& v = g_vars[i]; uint64_t b = i < m.val.size() ? m.val[i] : 0;
    const Node& n = g_nodes[v.id];
    if (n.sort == S_BV) { if (n.w > 1 && v.ilo <= v.ihi) { int64_t x = sx(b, n.w); if (x < v.ilo || x > v.ihi) return false; } }
    else if (v.lo <= v.hi) { double d = bits2d(b); if (!(d >= v.lo && d <= v.hi)) return false; }
  }
  for (Ex p : g_pc) { evalRec(p, m, memo); if (!(memo[p] & 1)) return false; }
  if (extra) { evalRec(extra, m, memo); if (!(memo[extra] & 1)) return false; }
  return true;
}
static Model boxPoint(int k, uint64_t& seed) {
  Model m; m.val.resize(g_vars.size());
  for (size_t i = 0; i < g_vars.size(); i++) {
    const VarInfo& v = g_vars[i]; const Node& n = g_nodes[v.id];
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    double u = (double)(seed >> 11) / 9007199254740992.0;
    if (n.sort == S_BV) {
      int64_t lo = v.ilo, hi = v.ihi; if (lo > hi) { lo = -4; hi = 100; }
      m.val[i] = (uint64_t)(lo + (int64_t)(u * (double)(hi - lo + 1))) & mask(n.w);
    } else {
      double lo = v.lo, hi = v.hi; if (!(lo <= hi)) { lo = -3; hi = 3; }
      double d = k == 0 ? 0.5 * (lo + hi) : k == 1 ? hi : k == 2 ? lo : k % 3 == 0 ? (u < 0.5 ? lo : hi) : lo + u * (hi - lo);
      m.val[i] = d2bits(d);
    }
  }
  return m;
}
Res pcCheck(Ex extra, Model* m, uint64_t rl) {
  if (extra && isConst(extra) && !constVal(extra)) return R_UNSAT;
  if (haveLast) {
    lastModel.val.resize(g_vars.size(), 0);
    if (modelOk(lastModel, extra)) { g_stats.quick++; if (m) *m = lastModel; return R_SAT; }
  }
  std::vector<char> seen; std::vector<Ex> vars; bool R = false, F = false, B = false, N = false;
  for (Ex p : g_pc) collect(p, seen, vars, R, F, B, N);
  if (extra) collect(extra, seen, vars, R, F, B, N);
  if (R) {  // cheap witnesses for real-valued conditions
    uint64_t seed = 12345;
    for (int k = 0; k < 8; k++) { Model c = boxPoint(k, seed); if (modelOk(c, extra)) { g_stats.quick++; lastModel = c; haveLast = true; if (m) *m = c; return R_SAT; } }
  }
  double t0 = nowS();
  Z3_solver s = R && N ? Z3_mk_solver(ctx) : F ? Z3_mk_solver(ctx) : Z3_mk_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params pr = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, pr);
  Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)std::min<uint64_t>(rl ? rl : g_rlimit, 4000000000u));
  Z3_solver_set_params(ctx, s, pr);
  for (Ex p : g_pc) Z3_solver_assert(ctx, s, zex1(p));
  if (extra) Z3_solver_assert(ctx, s, zex1(extra));
  addVarBounds(s, vars);
  for (auto& q : zsideOf) if (q.first < seen.size() && seen[q.first]) Z3_solver_assert(ctx, s, q.second);
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT) {
    Z3_model mod = Z3_solver_get_model(ctx, s);
    if (mod) { Z3_model_inc_ref(ctx, mod); Model mm; getModel(mod, &mm); if (m) *m = mm; Z3_model_dec_ref(ctx, mod);
      // only cache a model that satisfies everything it should
      Model keep = mm; if (modelOk(keep, extra)) { lastModel = keep; haveLast = true; } }
  }
  Z3_params_dec_ref(ctx, pr);
  Z3_solver_dec_ref(ctx, s);
  g_stats.queries++; g_stats.solver_s += nowS() - t0;
  if (res == R_SAT) g_stats.sat++; else if (res == R_UNSAT) g_stats.unsat++; else g_stats.unknown++;
  return res;
}

// ---------------------------------------------------------------- polynomials
typedef __float128 Q;
typedef std::vector<std::pair<uint32_t, int>> Mono;  // (atom, exponent), sorted
struct Poly { std::map<Mono, Q> t; };
struct Atom { uint8_t kind; Ex e; Poly arg; double lo, hi; unsigned fid; Poly arg2; };  // kind 0: node e; 1: inverse of arg; 2: sqrt of arg; 3: function
static std::vector<Atom> atoms;
static std::unordered_map<Ex, uint32_t> atomOfNode;
static std::unordered_map<Ex, Poly> polyMemo;
static bool polyOverflow;
static Q qabs(Q x) { return x < 0 ? -x : x; }
static void addTerm(Poly& p, const Mono& m, Q c) {
  if (c == 0) return;
  auto it = p.t.find(m);
  if (it == p.t.end()) p.t.emplace(m, c);
  else { Q old = it->second; it->second += c;
    // cancellation below 113-bit resolution is zero
    if (qabs(it->second) <= 1e-30Q * qabs(old)) p.t.erase(it); }
}
static Poly polyMul(const Poly& a, const Poly& b);
static Poly polyConst(Q c) { Poly p; if (c != 0) p.t[Mono()] = c; return p; }
static Poly polyAtom(uint32_t a, int e = 1) { Poly p; p.t[Mono{{a, e}}] = 1; return p; }
static void polyAcc(Poly& a, const Poly& b, Q f) { for (auto& kv : b.t) addTerm(a, kv.first, kv.second * f); if ((int)a.t.size() > g_maxmono) polyOverflow = true; }
static Mono monoMul(const Mono& a, const Mono& b) {
  Mono r; size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); i++; j++; }
  }
  return r;
}
static Poly polyMul(const Poly& a, const Poly& b) {
  Poly r;
  std::vector<std::pair<Mono, Q>> again;
  for (auto& x : a.t) {
    for (auto& y : b.t) {
      if (polyOverflow) return r;
      Mono m = monoMul(x.first, y.first);
      // reduce squares of sqrt atoms
      Poly red; bool need = false;
      for (auto& f : m) if (atoms[f.first].kind == 2 && (f.second >= 2 || f.second <= -2)) need = true;
      if (!need) { addTerm(r, m, x.second * y.second); }
      else {
        Mono rest; Poly acc = polyConst(x.second * y.second);
        for (auto& f : m) {
          if (atoms[f.first].kind == 2 && f.second >= 2) {
            for (int k = 0; k < f.second / 2; k++) acc = polyMul(acc, atoms[f.first].arg);
            if (f.second % 2) rest.push_back({f.first, 1});
          } else rest.push_back(f);
        }
        Poly rp; rp.t[rest] = 1;
        bool still = false; for (auto& f : rest) if (atoms[f.first].kind == 2 && f.second >= 2) still = true;
        if (still) abort();
        Poly z; for (auto& t1 : acc.t) addTerm(z, monoMul(t1.first, rest), t1.second);
        polyAcc(r, z, 1);
      }
      if ((int)r.t.size() > g_maxmono) { polyOverflow = true; return r; }
    }
  }
  return r;
}
static void polyRange(const Poly& p, double& lo, double& hi);
static void monoRange(const Mono& m, double& lo, double& hi) {
  lo = hi = 1;
  for (auto& f : m) {
    double a = atoms[f.first].lo, b = atoms[f.first].hi, x, y; int e = f.second;
    if (e < 0) { if (a > 0 || b < 0) { double t = 1 / b; b = 1 / a; a = t; } else { lo = -INFINITY; hi = INFINITY; return; } e = -e; }
    if (e % 2 == 0) { x = (a <= 0 && b >= 0) ? 0 : std::min(fabs(a), fabs(b)); y = std::max(fabs(a), fabs(b)); x = pow(x, e); y = pow(y, e); }
    else { x = pow(a, e); y = pow(b, e); }
    double q[4] = {lo * x, lo * y, hi * x, hi * y};
    for (double v : q) if (std::isnan(v)) { lo = -INFINITY; hi = INFINITY; return; }
    lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4);
  }
}
static void polyRange(const Poly& p, double& lo, double& hi) {
  lo = hi = 0;
  for (auto& kv : p.t) {
    double a, b; monoRange(kv.first, a, b); double c = (double)kv.second;
    double x = c * a, y = c * b; if (std::isnan(x)) x = 0; if (std::isnan(y)) y = 0;
    lo += std::min(x, y); hi += std::max(x, y);
  }
}
static bool polyClose(const Poly& a, const Poly& b) {  // same support, coefficients equal to rounding
  if (a.t.size() != b.t.size()) return false;
  Q mx = 0; for (auto& x : a.t) mx = std::max(mx, qabs(x.second));
  auto i = a.t.begin(); auto j = b.t.begin();
  for (; i != a.t.end(); ++i, ++j) {
    if (i->first != j->first) return false;
    if (qabs(i->second - j->second) > 1e-11Q * mx) return false;
  }
  return true;
}
// drop coefficients that are rounding noise relative to the rest (only used to key atoms)
static Poly polyClean(const Poly& p) {
  Q mx = 0; for (auto& x : p.t) mx = std::max(mx, qabs(x.second));
  Poly r; for (auto& x : p.t) if (qabs(x.second) > 1e-13Q * mx) r.t.insert(x);
  return r;
}
static uint32_t newAtom(Atom a) { atoms.push_back(a); return atoms.size() - 1; }
static Poly toPoly(Ex root);
static Poly polyInv(const Poly& p0, Ex src) {
  Poly p = polyClean(p0);
  if (p.t.size() == 1) {
    Poly r; Mono m; for (auto f : p.t.begin()->first) m.push_back({f.first, -f.second});
    r.t[m] = 1 / p.t.begin()->second; return r;
  }
  if (p.t.empty()) { polyOverflow = true; return Poly(); }
  // factor out common monomial
  Q lead = p.t.begin()->second;
  Poly mon; for (auto& x : p.t) mon.t[x.first] = x.second / lead;
  for (uint32_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == 1 && polyClose(atoms[i].arg, mon)) { Poly r; r.t[Mono{{i, 1}}] = 1 / lead; return r; }
  Atom a; a.kind = 1; a.e = src; a.arg = mon; double lo, hi; polyRange(mon, lo, hi);
  double l2, h2; if (src) { rangeOf(src, l2, h2); l2 /= (double)lead; h2 /= (double)lead; if (l2 > h2) std::swap(l2, h2); lo = std::max(lo, l2); hi = std::min(hi, h2); }
  if (lo > 0 || hi < 0) { a.lo = 1 / hi; a.hi = 1 / lo; } else { a.lo = -INFINITY; a.hi = INFINITY; }
  uint32_t id = newAtom(a);
  Poly r; r.t[Mono{{id, 1}}] = 1 / lead; return r;
}
static Poly atomPoly(Ex e) {
  auto it = atomOfNode.find(e);
  uint32_t id;
  if (it != atomOfNode.end()) id = it->second;
  else {
    Atom a; a.kind = 0; a.e = e; rangeOf(e, a.lo, a.hi);
    id = newAtom(a); atomOfNode[e] = id;
  }
  return polyAtom(id);
}
static Poly polyOf1(Ex e) {
  const Node n = g_nodes[e];
  switch (n.op) {
    case O_CONST: return polyConst((Q)bits2d(n.k));
    case O_FADD: { Poly p = polyMemo[n.a]; polyAcc(p, polyMemo[n.b], 1); return p; }
    case O_FSUB: { Poly p = polyMemo[n.a]; polyAcc(p, polyMemo[n.b], -1); return p; }
    case O_FNEG: { Poly p; polyAcc(p, polyMemo[n.a], -1); return p; }
    case O_FMUL: return polyMul(polyMemo[n.a], polyMemo[n.b]);
    case O_FDIV: return polyMul(polyMemo[n.a], polyInv(polyMemo[n.b], n.b));
    case O_FSQRT: {
      Poly a = polyClean(polyMemo[n.a]);
      for (uint32_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == 2 && polyClose(atoms[i].arg, a)) return polyAtom(i);
      Atom at; at.kind = 2; at.e = e; at.arg = a; rangeOf(e, at.lo, at.hi);
      return polyAtom(newAtom(at));
    }
    case O_FABS: {
      // |p|: keep sign-canonical atom
      Poly a = polyClean(polyMemo[n.a]);
      double lo, hi; polyRange(a, lo, hi);
      if (lo >= 0) return polyMemo[n.a];
      if (hi <= 0) { Poly p; polyAcc(p, polyMemo[n.a], -1); return p; }
      unsigned fid = funId("fabs");
      Q lead = a.t.begin()->second; Poly mon; for (auto& x : a.t) mon.t[x.first] = x.second / lead;
      for (uint32_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == 3 && atoms[i].fid == fid && polyClose(atoms[i].arg, mon)) { Poly r; r.t[Mono{{i, 1}}] = qabs(lead); return r; }
      Atom at; at.kind = 3; at.fid = fid; at.e = e; at.arg = mon; double l = (double)qabs(lead); rangeOf(e, at.lo, at.hi); at.lo /= l; at.hi /= l;
      uint32_t id = newAtom(at); Poly r; r.t[Mono{{id, 1}}] = qabs(lead); return r;
    }
    case O_FFUN: {
      Poly a = polyClean(polyMemo[n.a]), b; if (n.b) b = polyClean(polyMemo[n.b]);
      for (uint32_t i = 0; i < atoms.size(); i++) if (atoms[i].kind == 3 && atoms[i].fid == n.k && polyClose(atoms[i].arg, a) && polyClose(atoms[i].arg2, b)) return polyAtom(i);
      Atom at; at.kind = 3; at.fid = n.k; at.e = e; at.arg = a; at.arg2 = b; rangeOf(e, at.lo, at.hi);
      return polyAtom(newAtom(at));
    }
    default: return atomPoly(e);  // VAR, ITE, ...
  }
}
static bool polyChildren(const Node& n) {
  switch (n.op) { case O_FADD: case O_FSUB: case O_FNEG: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FABS: case O_FFUN: return true; default: return false; }
}
static Poly toPoly(Ex root) {
  std::vector<Ex> st{root};
  while (!st.empty()) {
    if (polyOverflow) return Poly();
    Ex x = st.back();
    if (polyMemo.count(x)) { st.pop_back(); continue; }
    const Node& n = g_nodes[x];
    bool ready = true;
    if (polyChildren(n)) for (Ex ch : {n.a, n.b}) if (ch && !polyMemo.count(ch)) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    Poly p = polyOf1(x);
    if (!polyOverflow) polyMemo.emplace(x, std::move(p));
  }
  return polyMemo[root];
}
// relaxed query: every monomial an independent variable inside its range.
// The query names its variables by position, so two differences with the same coefficients and ranges are the
// same query: its verdict is kept.
static Res relaxed(const Poly& D, double tol) {
  double t0 = nowS();
  static std::unordered_map<std::string, Res> done;
  std::string key((const char*)&tol, sizeof tol);
  for (auto& kv : D.t) {
    double r[2] = {0, 0};
    if (!kv.first.empty()) monoRange(kv.first, r[0], r[1]);
    key += kv.first.empty() ? 'c' : 'v';
    key.append((const char*)r, sizeof r);
    key.append((const char*)&kv.second, sizeof kv.second);
  }
  auto hit = done.find(key);
  if (hit != done.end()) { g_stats.polyq++; g_stats.quick++; return hit->second; }
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LRA"));
  Z3_solver_inc_ref(ctx, s);
  std::vector<Z3_ast> terms; int k = 0;
  Q c0 = 0; bool unb = false;
  double rest = 0, small = 1e-3 * tol / (D.t.size() + 1);
  for (auto& kv : D.t) {
    if (kv.first.empty()) { c0 = kv.second; continue; }
    double lo, hi; monoRange(kv.first, lo, hi);
    if (!std::isfinite(lo) || !std::isfinite(hi)) { unb = true; break; }
    // outward rounding of the range
    lo -= 1e-12 * fabs(lo); hi += 1e-12 * fabs(hi);
    // rounding residues: all terms that cannot matter share one variable that ranges over their summed bound
    double mag = (double)(kv.second < 0 ? -kv.second : kv.second) * std::max(fabs(lo), fabs(hi)) * (1 + 1e-9);
    if (mag < small) { rest += mag; continue; }
    Z3_ast v = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, k++), sReal);
    Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, v, zrat(lo)));
    Z3_solver_assert(ctx, s, Z3_mk_le(ctx, v, zrat(hi)));
    Z3_ast x[2] = {zrat(kv.second), v};
    terms.push_back(Z3_mk_mul(ctx, 2, x));
  }
  Res res = R_UNKNOWN;
  if (!unb) {
    terms.push_back(zrat(c0));
    if (rest > 0) {
      rest *= 1 + 1e-9;
      Z3_ast v = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, k++), sReal);
      Z3_solver_assert(ctx, s, Z3_mk_ge(ctx, v, zrat(-rest)));
      Z3_solver_assert(ctx, s, Z3_mk_le(ctx, v, zrat(rest)));
      terms.push_back(v);
    }
    Z3_ast sum = Z3_mk_add(ctx, terms.size(), terms.data());
    Z3_ast o[2] = {Z3_mk_gt(ctx, sum, zrat(tol)), Z3_mk_lt(ctx, sum, zrat(-tol))};
    Z3_solver_assert(ctx, s, Z3_mk_or(ctx, 2, o));
    Z3_lbool r = Z3_solver_check(ctx, s);
    res = r == Z3_L_FALSE ? R_UNSAT : r == Z3_L_TRUE ? R_SAT : R_UNKNOWN;
    g_stats.queries++; if (res == R_UNSAT) g_stats.unsat++; else if (res == R_SAT) g_stats.sat++; else g_stats.unknown++;
    g_stats.polyq++;
  }
  Z3_solver_dec_ref(ctx, s);
  g_stats.solver_s += nowS() - t0;
  if (done.size() < 200000) done.emplace(std::move(key), res);
  return res;
}
Res checkClose(Ex a, Ex b, double tol, Model* m, std::string* how) {
  const Node na = g_nodes[a];
  if (na.sort != S_RL) { // IEEE mode: |a-b|<=tol or identical
    Ex d = mkF(O_FABS, mkF(O_FSUB, a, b), 0);
    Ex ok = mkOr(mkFCmp(O_FLE, d, mkConstD(tol, S_FP)), mkFCmp(O_FEQ, a, b));
    *how = "fp";
    return pcCheck(mkNot(ok), m, 0);
  }
  if (a == b) { *how = "identical"; g_stats.quick++; return R_UNSAT; }
  Ex d = mkF(O_FSUB, a, b);
  if (isConst(d)) {
    if (fabs(bits2d(constVal(d))) <= tol) return R_UNSAT;
    *how = "const"; return pcCheck(0, m, 0);
  }
  polyOverflow = false;
  Poly D = toPoly(d);
  if (!polyOverflow) {
    if (D.t.empty()) { *how = "poly0"; g_stats.polyq++; g_stats.quick++; return R_UNSAT; }
    Res r = relaxed(D, tol);
    if (r == R_UNSAT) { *how = "poly-lra"; return r; }
    // try to clear the inverse atoms: D * prod(arg^k) must vanish
    bool hasInv = false;
    for (auto& kv : D.t) for (auto& f : kv.first) if (atoms[f.first].kind == 1) hasInv = true;
    if (hasInv) {
      Poly E = D; double scale = 1; bool ok = true;
      for (int round = 0; round < 12 && ok; round++) {
        uint32_t pick = UINT32_MAX; int mx = 0;
        for (auto& kv : E.t) for (auto& f : kv.first) if (atoms[f.first].kind == 1 && (pick == UINT32_MAX || f.first > pick)) { pick = f.first; }
        if (pick == UINT32_MAX) break;
        for (auto& kv : E.t) for (auto& f : kv.first) if (f.first == pick) mx = std::max(mx, f.second);
        for (auto& kv : E.t) for (auto& f : kv.first) if (f.first == pick && f.second < 0) ok = false;
        if (!ok) break;
        double lo = atoms[pick].lo, hi = atoms[pick].hi;
        double invmax = std::max(fabs(lo), fabs(hi));
        if (!std::isfinite(invmax)) { ok = false; break; }
        scale *= pow(invmax, mx);  // |D| = |E| * |inv|^mx <= |E| * scale
        std::vector<Poly> pw(mx + 1); pw[0] = polyConst(1);
        for (int k = 1; k <= mx; k++) pw[k] = polyMul(pw[k - 1], atoms[pick].arg);
        Poly F;
        for (auto& kv : E.t) {
          Mono rest; int e = 0; for (auto& f : kv.first) if (f.first == pick) e = f.second; else rest.push_back(f);
          Poly one; one.t[rest] = kv.second;
          polyAcc(F, polyMul(one, pw[mx - e]), 1);
        }
        E = F;
        if (polyOverflow) ok = false;
      }
      if (ok) {
        if (E.t.empty()) { *how = "poly-cleared0"; g_stats.polyq++; return R_UNSAT; }
        Res r2 = relaxed(E, tol / scale);
        if (r2 == R_UNSAT) { *how = "poly-cleared-lra"; return r2; }
      }
    }
  }
  if (getenv("SYMX_DBG")) { fprintf(stderr, "close: overflow=%d terms=%zu\n", (int)polyOverflow, D.t.size()); int c = 0; for (auto& kv : D.t) { if (c++ > 12) break; double lo, hi; monoRange(kv.first, lo, hi); fprintf(stderr, "  %g * [%g,%g]", (double)kv.second, lo, hi); for (auto& f : kv.first) fprintf(stderr, " a%u(k%d)^%d", f.first, atoms[f.first].kind, f.second); fprintf(stderr, "\n"); } }
  // bounded difference over the path condition
  Ex bad = mkOr(mkFCmp(O_FLT, mkConstD(tol, S_RL), d), mkFCmp(O_FLT, d, mkConstD(-tol, S_RL)));
  if (isConst(bad)) { if (!constVal(bad)) { *how = "range"; return R_UNSAT; } *how = "range"; return pcCheck(0, m, 0); }
  uint64_t seed = 777;
  for (int k = 0; k < 400; k++) { Model c = boxPoint(k, seed); if (modelOk(c, bad)) { *how = "witness"; if (m) *m = c; g_stats.queries++; g_stats.sat++; return R_SAT; } }
  if (haveLast) {  // perturb the known path model
    for (int k = 0; k < 400; k++) {
      Model c = lastModel; c.val.resize(g_vars.size(), 0);
      for (size_t i = 0; i < g_vars.size(); i++) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; double u = (double)(seed >> 11) / 9007199254740992.0;
        if (g_nodes[g_vars[i].id].sort == S_RL && u < 0.5) { double x = bits2d(c.val[i]); double lo = g_vars[i].lo, hi = g_vars[i].hi; if (!(lo <= hi)) { lo = -3; hi = 3; } seed = seed * 6364136223846793005ull + 1442695040888963407ull; double t = (double)(seed >> 11) / 9007199254740992.0; c.val[i] = d2bits(x + (lo + t * (hi - lo) - x) * (k % 4 == 0 ? 1.0 : k % 4 == 1 ? 0.3 : k % 4 == 2 ? 0.05 : 0.005)); } }
      if (modelOk(c, bad)) { *how = "witness"; if (m) *m = c; g_stats.queries++; g_stats.sat++; return R_SAT; }
    }
  }
  *how = "nra";
  return pcCheck(bad, m, g_rlimit * 3);
}
std::string exStr(Ex e, int depth) {
  if (!e) return "_";
  const Node& n = g_nodes[e];
  char buf[64];
  if (n.op == O_CONST) { if (n.sort == S_BV) snprintf(buf, 64, "%lld", (long long)sx(n.k, n.w)); else snprintf(buf, 64, "%.17g", bits2d(n.k)); return buf; }
  if (n.op == O_VAR) return g_vars[n.k].name;
  static const char* nm[] = {"none","const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","feq","flt","fle","ffun","fbits"};
  std::string s = std::string("(") + (n.op == O_FFUN ? funNames[n.k].c_str() : nm[n.op]);
  if (depth == 0) return s + " ...)";
  for (Ex c : {n.a, n.b, n.c}) if (c) s += " " + exStr(c, depth - 1);
  return s + ")";
}
