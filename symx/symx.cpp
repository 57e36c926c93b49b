// symx: symbolic executor for LLVM-18 IR.
//
// The program under test is run instruction by instruction.  Concrete data
// lives in ordinary memory (an arena with red zones), symbolic data in a shadow
// map from addresses to terms (expr.h).  A branch on a symbolic condition asks
// the solver which sides are feasible and forks the process; each process
// explores one path.  Assertions become queries over the path condition.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <signal.h>
#include <setjmp.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cfloat>
#include <functional>
#include <typeinfo>
#include <cxxabi.h>
#include <deque>
#include <set>
#include <unordered_set>
#include <chrono>
#include <atomic>
using namespace llvm;

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);

struct Val { uint64_t c; Ex s; };

// ------------------------------------------------------------------ shared
struct Shared {
  std::atomic<char> seen[65536];
  std::atomic<int> active, paths, forks, violations, unknowns, errors, asserts, asserts_ok, asserts_trivial, aborted_ok, maxpaths_hit, races;
  std::atomic<uint64_t> insts, queries, sat, unsat, unknown, polyq, quick;
  std::atomic<uint64_t> solver_us;
};
static Shared* SH;
static int g_logfd = -1;
static int g_maxpar = 4, g_maxpaths = 20000;
static uint64_t g_maxinst = 3000000000ull;
static double g_deadline = 0;
static bool g_selfork = true;
static Sort g_mode = S_RL;
static int g_abortok = 0;  // 0: abort/uncaught exception is a violation
static int g_sched = 0;    // >0: fork over scheduling choices (budget)
static int g_raceck = 1;
static uint64_t g_icount;
static std::string g_harness;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string jesc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    unsigned char c = ch;
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}
static void logLine(const std::string& s) {
  std::string t = s + "\n";
  ssize_t n = write(g_logfd, t.data(), t.size()); (void)n;
}
static std::unordered_set<std::string> g_funcs;  // functions executed symbolically
static std::unordered_set<std::string> g_natives;
static std::set<std::string> g_reached;
static std::string modelJson(const Model& m) {
  std::string s = "[";
  for (size_t i = 0; i < g_vars.size(); i++) {
    char b[128];
    const Node& n = g_nodes[g_vars[i].id];
    uint64_t v = i < m.val.size() ? m.val[i] : 0;
    if (n.sort == S_BV) snprintf(b, 128, "\"%lld\"", (long long)sx(v, n.w));
    else snprintf(b, 128, "\"%a\"", bits2d(v));
    if (i) s += ",";
    s += "[\"" + jesc(g_vars[i].name) + "\"," + b + "]";
  }
  return s + "]";
}
[[noreturn]] static void endPath(const char* kind, const std::string& msg) {
  std::string fs, ns, rs;
  // names already reported by another path are not repeated
  auto fresh = [](const std::string& f) { size_t h = std::hash<std::string>()(f) & 0xffff; return SH->seen[h].exchange(1) == 0; };
  for (auto& f : g_funcs) { if (!fresh(f)) continue; if (!fs.empty()) fs += ","; fs += "\"" + jesc(f) + "\""; }
  for (auto& f : g_natives) { if (!fresh("n:" + f)) continue; if (!ns.empty()) ns += ","; ns += "\"" + jesc(f) + "\""; }
  for (auto& f : g_reached) { if (!rs.empty()) rs += ","; rs += "\"" + jesc(f) + "\""; }
  logLine("{\"type\":\"path\",\"end\":\"" + std::string(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"insts\":" + std::to_string(g_icount) +
          ",\"pc\":" + std::to_string(g_pc.size()) + ",\"funcs\":[" + fs + "],\"natives\":[" + ns + "],\"reached\":[" + rs + "]}");
  SH->paths++;
  SH->insts += g_icount;
  SH->queries += g_stats.queries; SH->sat += g_stats.sat; SH->unsat += g_stats.unsat; SH->unknown += g_stats.unknown;
  SH->polyq += g_stats.polyq; SH->quick += g_stats.quick; SH->solver_us += (uint64_t)(g_stats.solver_s * 1e6);
  SH->active--;
  // wait for children forked in parallel
  int st; while (wait(&st) > 0) { if (WIFSIGNALED(st)) { SH->errors++; logLine("{\"type\":\"error\",\"msg\":\"child killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); } }
  _exit(0);
}
static std::string whereStr();
[[noreturn]] static void unsupported(const std::string& msg) {
  SH->errors++;
  std::string w = whereStr();
  logLine("{\"type\":\"error\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(w) + "\"}");
  endPath("error", msg);
}
static void violation(const std::string& kind, const std::string& label, const Model& m, const std::string& detail) {
  SH->violations++;
  logLine("{\"type\":\"violation\",\"kind\":\"" + kind + "\",\"label\":\"" + jesc(label) + "\",\"detail\":\"" + jesc(detail) + "\",\"where\":\"" + jesc(whereStr()) +
          "\",\"model\":" + modelJson(m) + "}");
}
static void pathViolation(const std::string& kind, const std::string& label, const std::string& detail) {
  Model m; Res r = pcCheck(0, &m, 0);
  if (r == R_UNSAT) return;  // infeasible path explored after an unknown answer
  violation(kind, label, m, detail);
}
// fork: returns 0 in child, 1 in parent.
static int doFork() {
  if (SH->paths + SH->active > g_maxpaths) { SH->maxpaths_hit = 1; unsupported("path limit reached"); }
  if (SH->violations >= 80) endPath("stopped", "enough violations");
  SH->forks++;
  fflush(stdout); fflush(stderr);
  // 'active' counts running processes; a parent that waits hands its slot to the child
  bool own = SH->active.fetch_add(1) < g_maxpar;
  if (!own) SH->active--;
  pid_t p = fork();
  if (p < 0) unsupported("fork failed");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    memset(&g_stats, 0, sizeof g_stats);
    g_icount = 0;
    return 0;
  }
  int st;
  if (!own) {
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st)) { SH->errors++; logLine("{\"type\":\"error\",\"msg\":\"child killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); }
    else SH->active++;
  } else {
    pid_t q;
    while ((q = waitpid(-1, &st, WNOHANG)) > 0) if (WIFSIGNALED(st)) { SH->errors++; SH->active--; logLine("{\"type\":\"error\",\"msg\":\"child killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); }
  }
  return 1;
}

// ------------------------------------------------------------------ arena
static const uint64_t AB = 0x200000000000ull;  // arena base
static const uint64_t ASZ = 12ull << 30;
static uint32_t* gran;   // per 16-byte granule: object index (0 none), bit31: may hold symbols
static Ex* shadow;       // per byte
struct Obj { uint64_t start; uint32_t size; uint8_t alive, kind; };  // kind 0 heap 1 stack 2 global
static std::vector<Obj> objs;
static uint64_t abump = AB + 4096;
static std::map<uint64_t, std::deque<uint32_t>> freeLists;  // rounded size -> objects (quarantine)
static size_t quarantined = 0;
static const uint32_t SYMF = 0x80000000u;
static inline bool inArena(uint64_t a) { return a - AB < ASZ; }
static void setGran(uint64_t start, uint64_t size, uint32_t id) {
  for (uint64_t g = (start - AB) >> 4, e = (start + std::max<uint64_t>(size, 1) - 1 - AB) >> 4; g <= e; g++) gran[g] = id;
}
static void clearSymRange(uint64_t a, uint64_t n);
static void raceForget(uint64_t a, uint64_t n);  // a recycled block starts with no access history
static uint64_t arenaAlloc(uint64_t size, int kind, uint8_t fill, uint64_t align = 16) {
  if (size > (1ull << 31)) unsupported("allocation too large: " + std::to_string(size));
  uint64_t rs = (std::max<uint64_t>(size, 1) + 15) & ~15ull;
  if (kind == 0 && align <= 16) {
    auto it = freeLists.find(rs);
    if (it != freeLists.end() && it->second.size() > 64) {
      uint32_t id = it->second.front(); it->second.pop_front();
      Obj& o = objs[id];
      o.size = size; o.alive = 1;
      setGran(o.start, size, id);
      raceForget(o.start, rs);
      memset((void*)o.start, fill, size);
      return o.start;
    }
  }
  uint64_t a = (abump + align - 1) & ~(align - 1);
  uint64_t red = kind == 0 ? 64 : 32;
  abump = a + rs + red;
  if (abump >= AB + ASZ) unsupported("arena exhausted");
  objs.push_back(Obj{a, (uint32_t)size, 1, (uint8_t)kind});
  setGran(a, size, objs.size() - 1);
  if (fill) memset((void*)a, fill, size);
  return a;
}
static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static void arenaFree(uint64_t a) {
  if (!a) return;
  if (!inArena(a)) { __libc_free((void*)a); return; }
  uint32_t id = gran[(a - AB) >> 4] & ~SYMF;
  if (!id || objs[id].start != a || !objs[id].alive || objs[id].kind != 0) {
    pathViolation("memory", "invalid free", "free of " + hexs(a)); endPath("violation", "invalid free");
  }
  Obj& o = objs[id];
  clearSymRange(a, o.size);
  o.alive = 0;
  setGran(a, o.size, 0);
  uint64_t rs = (std::max<uint64_t>(o.size, 1) + 15) & ~15ull;
  if (rs <= 65536) freeLists[rs].push_back(id);
}
// interpose the process-wide deallocation functions so native code may release arena blocks
extern "C" void free(void* p) { if (inArena((uint64_t)p)) { arenaFree((uint64_t)p); return; } __libc_free(p); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static void clearSymRange(uint64_t a, uint64_t n) {
  for (uint64_t g = (a - AB) >> 4, e = (a + n - 1 - AB) >> 4; n && g <= e; g++)
    if (gran[g] & SYMF) {
      uint64_t b = AB + (g << 4);
      bool any = false;
      for (int i = 0; i < 16; i++) { uint64_t x = b + i; if (x >= a && x < a + n) shadow[x - AB] = 0; else if (shadow[x - AB]) any = true; }
      if (!any) gran[g] &= ~SYMF;
    }
}
static inline bool granSym(uint64_t a, unsigned n) {
  uint64_t g = (a - AB) >> 4, e = (a + n - 1 - AB) >> 4;
  for (; g <= e; g++) if (gran[g] & SYMF) return true;
  return false;
}
static inline unsigned exBytes(Ex e) { return (g_nodes[e].w + 7) / 8; }

static uint64_t g_badaddr;
static inline bool okAccess(uint64_t a, uint64_t n) {
  if (inArena(a)) {
    uint32_t id = gran[(a - AB) >> 4] & ~SYMF;
    if (!id) return false;
    const Obj& o = objs[id];
    return a >= o.start && a + n <= o.start + o.size;
  }
  return a >= 65536;  // native memory; faults are caught by the signal handler
}
[[noreturn]] static void badAccess(const char* what, uint64_t a, uint64_t n) {
  std::string d = std::string(what) + " of " + std::to_string(n) + " bytes at " + hexs(a);
  if (inArena(a)) {
    // describe nearest object
    for (uint64_t g = (a - AB) >> 4, k = 0; k < 4096 && g > 0; k++, g--) if (gran[g] & ~SYMF) { Obj& o = objs[gran[g] & ~SYMF]; d += " (" + std::to_string((int64_t)(a - o.start)) + " bytes into an object of size " + std::to_string(o.size) + ")"; break; }
  }
  pathViolation("memory", "out-of-bounds or dangling memory access", d);
  endPath("violation", d);
}

// byte-level symbolic access: returns term for byte at address (or 0 when concrete)
static Ex symByte(uint64_t a) {
  for (int k = 0; k < 8; k++) {
    uint64_t x = a - k;
    if (x < AB) break;
    Ex e = shadow[x - AB];
    if (e) {
      unsigned n = exBytes(e);
      if ((unsigned)k < n) {
        const Node& nd = g_nodes[e];
        if (nd.sort == S_FP) { return mkExtract(mkNode(O_FBITS, S_BV, 64, e, 0, 0, 0), 8 * k, 8); }
        if (nd.sort == S_RL) unsupported("partial access to a symbolic real");
        unsigned w = nd.w;
        if (w % 8) { Ex z = mkZext(e, n * 8); return mkExtract(z, 8 * k, 8); }
        return mkExtract(e, 8 * k, 8);
      }
      return 0;
    }
  }
  return 0;
}
static Val loadMem(uint64_t a, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!inArena(a) || !granSym(a, n)) {
    uint64_t v = 0;
    switch (n) { case 1: v = *(uint8_t*)a; break; case 2: v = *(uint16_t*)a; break; case 4: v = *(uint32_t*)a; break; case 8: v = *(uint64_t*)a; break; default: memcpy(&v, (void*)a, n); }
    return Val{v & mask(w), 0};
  }
  Ex e = shadow[a - AB];
  if (e && exBytes(e) == n) {
    if (g_nodes[e].sort != S_BV || g_nodes[e].w == w) return Val{0, e};
    if (w < g_nodes[e].w) return Val{0, mkExtract(e, 0, w)};
    return Val{0, mkZext(e, w)};
  }
  // assemble from bytes
  bool any = false;
  Ex r = 0;
  for (unsigned i = 0; i < n; i++) {
    Ex b = symByte(a + i);
    if (b) any = true; else b = mkConstBV(*(uint8_t*)(a + i), 8);
    r = i ? mkConcat(b, r) : b;
  }
  if (!any) { uint64_t v = 0; memcpy(&v, (void*)a, n); return Val{v & mask(w), 0}; }
  if (w != n * 8) r = mkExtract(r, 0, w);
  if (isConst(r)) return Val{constVal(r), 0};
  return Val{0, r};
}
static void splitEdge(uint64_t a) {
  // a symbol that starts before a and overlaps it: split into bytes
  for (int k = 1; k < 8; k++) {
    uint64_t x = a - k; if (x < AB) return;
    Ex e = shadow[x - AB];
    if (e) {
      unsigned n = exBytes(e);
      if ((unsigned)k < n) {
        if (g_nodes[e].sort == S_RL) { for (unsigned i = 0; i < n; i++) shadow[x + i - AB] = 0; return; }
        std::vector<Ex> bs(n); for (unsigned i = 0; i < n; i++) bs[i] = symByte(x + i);
        shadow[x - AB] = 0;
        for (unsigned i = 0; i < n; i++) { shadow[x + i - AB] = isConst(bs[i]) ? 0 : bs[i]; if (isConst(bs[i])) *(uint8_t*)(x + i) = constVal(bs[i]); gran[(x + i - AB) >> 4] |= SYMF; }
      }
      return;
    }
  }
}
static void splitEnd(uint64_t a, unsigned n) {
  // symbols starting inside [a,a+n) but extending beyond
  for (unsigned i = 0; i < n; i++) {
    Ex e = shadow[a + i - AB];
    if (e && i + exBytes(e) > n) {
      unsigned m = exBytes(e);
      if (g_nodes[e].sort == S_RL) { shadow[a + i - AB] = 0; continue; }
      std::vector<Ex> bs(m); for (unsigned j = 0; j < m; j++) bs[j] = symByte(a + i + j);
      shadow[a + i - AB] = 0;
      for (unsigned j = 0; j < m; j++) { shadow[a + i + j - AB] = isConst(bs[j]) ? 0 : bs[j]; gran[(a + i + j - AB) >> 4] |= SYMF; }
    }
  }
}
static void storeMem(uint64_t a, unsigned w, Val v) {
  unsigned n = (w + 7) / 8;
  if (!inArena(a)) {
    if (v.s) unsupported("symbolic store to native memory");
    memcpy((void*)a, &v.c, n); return;
  }
  if (granSym(a, n) || ((a & 15) < 8 && a - 8 >= AB && granSym(a - 8, 8))) {
    splitEdge(a); splitEnd(a, n);
    for (unsigned i = 0; i < n; i++) shadow[a + i - AB] = 0;
  }
  if (!v.s) {
    switch (n) { case 1: *(uint8_t*)a = v.c; break; case 2: *(uint16_t*)a = v.c; break; case 4: *(uint32_t*)a = v.c; break; case 8: *(uint64_t*)a = v.c; break; default: memcpy((void*)a, &v.c, n); }
    return;
  }
  memset((void*)a, 0, n);
  Ex e = v.s;
  if (g_nodes[e].sort == S_BV && g_nodes[e].w % 8) e = mkZext(e, n * 8);
  shadow[a - AB] = e;
  gran[(a - AB) >> 4] |= SYMF; gran[(a + n - 1 - AB) >> 4] |= SYMF;
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  bool ss = inArena(s) && granSym(s, n), ds = inArena(d) && (granSym(d, n));
  if (!ss && !ds) { memmove((void*)d, (void*)s, n); return; }
  if (!inArena(d) && ss) {
    for (uint64_t i = 0; i < n; i++) if (symByte(s + i)) unsupported("symbolic copy to native memory");
    memmove((void*)d, (void*)s, n); return;
  }
  std::vector<std::pair<uint64_t, Ex>> mv;
  std::vector<uint8_t> bytes(n); memcpy(bytes.data(), (void*)s, n);
  if (ss) {
    // partial symbol at the start
    uint64_t i = 0;
    while (i < n) {
      Ex e = shadow[s + i - AB];
      if (e && exBytes(e) + i <= n) { mv.push_back({i, e}); i += exBytes(e); continue; }
      Ex b = symByte(s + i);
      if (b) { if (isConst(b)) bytes[i] = constVal(b); else mv.push_back({i, b}); }
      i++;
    }
  }
  splitEdge(d); splitEnd(d, n);
  clearSymRange(d, n);
  memcpy((void*)d, bytes.data(), n);
  for (auto& p : mv) { shadow[d + p.first - AB] = p.second; gran[(d + p.first - AB) >> 4] |= SYMF; gran[(d + p.first + exBytes(p.second) - 1 - AB) >> 4] |= SYMF; }
}

// ------------------------------------------------------------------ code
enum Opc : uint16_t {
  C_MOV, C_BIN, C_ICMP, C_FBIN, C_FNEG, C_FCMP, C_SEL, C_ZEXT, C_SEXT, C_TRUNC,
  C_LOAD, C_STORE, C_GEPK, C_GEPV, C_ALLOCA, C_BR, C_CBR, C_SWITCH, C_RET, C_CALL, C_UNREACH,
  C_SITOFP, C_UITOFP, C_FPTOSI, C_FPTOUI, C_FPEXT, C_FPTRUNC, C_LANDING, C_RESUME, C_EXTELV, C_INSELV, C_UNSUP,
  C_CMPXCHG, C_RMW, C_VAARG, C_WIDE,
};
struct Edge { int target; std::vector<std::pair<int, int>> cp; };
struct CFunc;
struct CallInfo {
  Function* direct = nullptr; CFunc* cf = nullptr; int callee = 0;
  std::vector<int> args; std::vector<int> nsl; std::vector<uint8_t> isfp; std::vector<uint64_t> byval; std::vector<uint8_t> width;
  int nret = 0; bool retfp = false; uint8_t retw = 0;
  bool invoke = false; Edge normal, unwind;
  int handler = -1; void* native = nullptr; bool resolved = false;
  std::string name; const Instruction* inst = nullptr;
  unsigned fixedArgs = 0; bool vararg = false;
};
struct SwitchInfo { std::vector<std::pair<uint64_t, Edge>> cases; Edge def; unsigned w; };
struct LandInfo { bool cleanup; std::vector<std::pair<int, uint64_t>> clauses; };  // kind 0 catch typeinfo addr; 1 filter
struct Op {
  uint16_t code; uint8_t w, w2; int dst, a, b, c; int64_t imm; void* ext;
};
struct CFunc {
  Function* F; std::vector<Op> ops; std::vector<Val> consts; int nregs; std::vector<int> argSlot; std::vector<const Instruction*> src;
  std::string dem; bool named = false;
};
static Module* M;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> faddr;
static std::unordered_map<Function*, CFunc*> cfuncs;

struct Frame { CFunc* f; int pc; std::vector<Val> regs; std::vector<uint32_t> allocas; CallInfo* site; int retdst; uint64_t va; std::vector<Val> vargs; };
struct Team;
struct Thread {
  int id; std::vector<Frame> fr; int st = 0;  // 0 runnable 1 barrier 2 lock 3 join 4 done
  Team* team = nullptr; int tnum = 0; std::vector<uint32_t> vc; uint64_t waitLock = 0; int singleCount = 0; Team* child = nullptr;
  uint64_t curExn = 0; std::vector<uint64_t> caught; int pushThreads = 0;
  Val retv[8];
  uint64_t dispLo=0, dispHi=0;
};
struct Team { int n; int arrived = 0; int done = 0; std::map<int, int> singles; Thread* parent; Team* up; std::vector<Thread*> th; std::vector<std::pair<Val,Val>> cp; };
static std::vector<Thread*> threads;
static Thread* T;
static int g_liveTeams = 0;
static int g_maxThreads = 1;

static std::string whereStr() {
  std::string s;
  if (!T) return s;
  int k = 0;
  for (int i = (int)T->fr.size() - 1; i >= 0 && k < 10; i--, k++) {
    CFunc* f = T->fr[i].f;
    if (k) s += " < ";
    s += llvm::demangle(f->F->getName().str());
    int pc = T->fr[i].pc - 1;
    if (pc >= 0 && pc < (int)f->src.size() && f->src[pc]) if (auto& dl = f->src[pc]->getDebugLoc()) s += ":" + std::to_string(dl.getLine());
  }
  return s;
}

static unsigned nslots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* st = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : st->elements()) n += nslots(e); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nslots(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) return (t->getIntegerBitWidth() + 63) / 64;
  return 1;
}
static unsigned scw(Type* t) {
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
struct Leaf { uint64_t off; Type* ty; };
static void leaves(Type* t, uint64_t off, std::vector<Leaf>& out) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) leaves(at->getElementType(), off + i * es, out); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + i * es, vt->getElementType()}); return; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { Type* i64 = Type::getInt64Ty(t->getContext()); for (unsigned i = 0; i < nslots(t); i++) out.push_back({off + 8 * i, i64}); return; }
  out.push_back({off, t});
}
static uint64_t funcAddr(Function* F);
static uint64_t globalAddr(const GlobalValue* g);
static uint64_t constScalar(const Constant* c);
static void flattenConst(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nslots(t); for (unsigned i = 0; i < n; i++) out.push_back(Val{0, 0}); return; }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) flattenConst(cd->getElementAsConstant(i), out); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (auto& o : ca->operands()) flattenConst(cast<Constant>(o), out); return; }
    unsupported("aggregate constant");
  }
  if (auto* ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { const APInt& v = ci->getValue(); for (unsigned i = 0; i < v.getNumWords(); i++) out.push_back(Val{v.getRawData()[i], 0}); return; }
  out.push_back(Val{constScalar(c), 0});
}
static uint64_t constScalar(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (auto* cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isX86_FP80Ty()) { bool li; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return f.bitcastToAPInt().getZExtValue(); } return cf->getValueAPF().bitcastToAPInt().getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (!gep->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
        return constScalar(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue();
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constScalar(ce->getOperand(0)) & mask(scw(ce->getType()));
      case Instruction::Trunc: return constScalar(ce->getOperand(0)) & mask(scw(ce->getType()));
      case Instruction::Add: return (constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1))) & mask(scw(ce->getType()));
      case Instruction::Sub: return (constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1))) & mask(scw(ce->getType()));
      default: { std::string s; raw_string_ostream os(s); ce->print(os); unsupported("constant expression " + s); }
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + s);
}
static uint64_t fbump = 0x300000000000ull;
static uint64_t funcAddr(Function* F) {
  auto it = gaddr.find(F); if (it != gaddr.end()) return it->second;
  uint64_t a;
  if (F->isDeclaration()) { void* p = dlsym(RTLD_DEFAULT, F->getName().str().c_str()); a = p ? (uint64_t)p : (fbump += 16); }
  else a = (fbump += 16);
  gaddr[F] = a; faddr[a] = F; return a;
}
static uint64_t globalAddr(const GlobalValue* g) {
  if (auto* f = dyn_cast<Function>(g)) return funcAddr(const_cast<Function*>(f));
  if (auto* al = dyn_cast<GlobalAlias>(g)) return constScalar(al->getAliasee());
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  auto* v = cast<GlobalVariable>(g);
  if (v->isDeclaration()) {
    void* p = dlsym(RTLD_DEFAULT, v->getName().str().c_str());
    if (!p) { if (v->hasExternalWeakLinkage()) return 0; p = (void*)arenaAlloc(DL->getTypeAllocSize(v->getValueType()), 2, 0); }
    return gaddr[g] = (uint64_t)p;
  }
  uint64_t sz = DL->getTypeAllocSize(v->getValueType());
  uint64_t a = arenaAlloc(sz, 2, 0, std::max<uint64_t>(16, v->getAlign().valueOrOne().value()));
  gaddr[g] = a;
  return a;
}
static void initConst(const Constant* c, uint64_t a) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void*)a, r.data(), r.size()); return; }
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(cast<Constant>(c->getOperand(i)), a + sl->getElementOffset(i)); return; }
  if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < c->getNumOperands(); i++) initConst(cast<Constant>(c->getOperand(i)), a + i * es); return; }
  if (t->isX86_FP80Ty()) { APInt b = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); memcpy((void*)a, b.getRawData(), 10); return; }
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { APInt b = cast<ConstantInt>(c)->getValue(); memcpy((void*)a, b.getRawData(), (b.getBitWidth() + 7) / 8); return; }
  uint64_t v = constScalar(c); memcpy((void*)a, &v, DL->getTypeStoreSize(t));
}

static CFunc* compileF(Function* F) {
  auto it = cfuncs.find(F); if (it != cfuncs.end()) return it->second;
  CFunc* f = new CFunc; cfuncs[F] = f; f->F = F;
  std::unordered_map<const Value*, int> slot;
  int nr = 0;
  for (auto& A : F->args()) { slot[&A] = nr; f->argSlot.push_back(nr); nr += nslots(A.getType()); }
  for (auto& BB : *F) for (auto& I : BB) if (!I.getType()->isVoidTy()) { slot[&I] = nr; nr += nslots(I.getType()); }
  int tmp = nr; nr += 4;  // scratch
  std::unordered_map<const Constant*, int> cslot;
  auto opn = [&](const Value* v) -> int {
    auto i = slot.find(v); if (i != slot.end()) return i->second;
    if (auto* c = dyn_cast<Constant>(v)) {
      auto j = cslot.find(c); if (j != cslot.end()) return j->second;
      int id = ~(int)f->consts.size(); flattenConst(c, f->consts); cslot[c] = id; return id;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { int id = ~(int)f->consts.size(); f->consts.push_back(Val{0, 0}); return id; }
    std::string s; raw_string_ostream os(s); v->print(os); unsupported("operand " + s);
  };
  auto sub = [](int op, int j) { return op >= 0 ? op + j : op - j; };  // const pool index ~(k+j) = ~k - j
  std::unordered_map<const BasicBlock*, int> bbpc;
  auto emit = [&](Op o, const Instruction* I) { f->ops.push_back(o); f->src.push_back(I); };
  auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = -1;
    for (auto& phi : to->phis()) {
      const Value* v = phi.getIncomingValueForBlock(from);
      if (isa<UndefValue>(v)) continue;
      int s = opn(v), d = slot[&phi]; unsigned n = nslots(phi.getType());
      for (unsigned j = 0; j < n; j++) e.cp.push_back({d + (int)j, sub(s, j)});
    }
    return e;
  };
  std::vector<std::pair<int*, const BasicBlock*>> fix;
  struct Fx { Edge* e; const BasicBlock* b; };
  std::vector<Fx> efix;
  for (auto& BB : *F) {
    bbpc[&BB] = f->ops.size();
    for (auto& I : BB) {
      if (isa<PHINode>(I)) continue;
      int d = I.getType()->isVoidTy() ? -1 : slot[&I];
      Type* ty = I.getType();
      auto unsup = [&]() { std::string* s = new std::string; raw_string_ostream os(*s); I.print(os); os.flush(); emit(Op{C_UNSUP, 0, 0, 0, 0, 0, 0, 0, s}, &I); };
      unsigned n = nslots(ty);
      Type* et = ty; if (auto* vt = dyn_cast<FixedVectorType>(ty)) et = vt->getElementType();
      unsigned op = I.getOpcode();
      if (I.isBinaryOp()) {
        int a = opn(I.getOperand(0)), b = opn(I.getOperand(1));
        if (et->isFloatingPointTy()) {
          if (!et->isDoubleTy() && !et->isFloatTy() && !et->isX86_FP80Ty()) { unsup(); continue; }
          int k = op == Instruction::FAdd ? O_FADD : op == Instruction::FSub ? O_FSUB : op == Instruction::FMul ? O_FMUL : op == Instruction::FDiv ? O_FDIV : -1;
          if (k < 0) { // frem
            k = 100; }
          for (unsigned j = 0; j < n; j++) emit(Op{C_FBIN, (uint8_t)scw(et), (uint8_t)k, d + (int)j, sub(a, j), sub(b, j), 0, 0, nullptr}, &I);
          continue;
        }
        unsigned w = scw(et);
        int k;
        switch (op) {
          case Instruction::Add: k = O_ADD; break; case Instruction::Sub: k = O_SUB; break; case Instruction::Mul: k = O_MUL; break;
          case Instruction::UDiv: k = O_UDIV; break; case Instruction::SDiv: k = O_SDIV; break; case Instruction::URem: k = O_UREM; break; case Instruction::SRem: k = O_SREM; break;
          case Instruction::And: k = O_AND; break; case Instruction::Or: k = O_OR; break; case Instruction::Xor: k = O_XOR; break;
          case Instruction::Shl: k = O_SHL; break; case Instruction::LShr: k = O_LSHR; break; default: k = O_ASHR; break;
        }
        if (w > 64) { emit(Op{C_WIDE, (uint8_t)std::min(w, 255u), (uint8_t)k, d, a, b, 0, 0, nullptr}, &I); continue; }
        for (unsigned j = 0; j < n; j++) emit(Op{C_BIN, (uint8_t)w, (uint8_t)k, d + (int)j, sub(a, j), sub(b, j), 0, 0, nullptr}, &I);
        continue;
      }
      switch (op) {
        case Instruction::FNeg: { int a = opn(I.getOperand(0)); for (unsigned j = 0; j < n; j++) emit(Op{C_FNEG, (uint8_t)scw(et), 0, d + (int)j, sub(a, j), 0, 0, 0, nullptr}, &I); break; }
        case Instruction::ICmp: {
          auto& ic = cast<ICmpInst>(I); Type* ot = ic.getOperand(0)->getType(); if (auto* vt = dyn_cast<FixedVectorType>(ot)) ot = vt->getElementType();
          int a = opn(ic.getOperand(0)), b = opn(ic.getOperand(1));
          if (scw(ot) > 64) { emit(Op{C_WIDE, (uint8_t)std::min(scw(ot), 255u), 200, d, a, b, (int)ic.getPredicate(), 0, nullptr}, &I); break; }
          for (unsigned j = 0; j < n; j++) emit(Op{C_ICMP, (uint8_t)scw(ot), (uint8_t)ic.getPredicate(), d + (int)j, sub(a, j), sub(b, j), 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::FCmp: {
          auto& fc = cast<FCmpInst>(I); Type* ot = fc.getOperand(0)->getType(); if (auto* vt = dyn_cast<FixedVectorType>(ot)) ot = vt->getElementType();
          int a = opn(fc.getOperand(0)), b = opn(fc.getOperand(1));
          for (unsigned j = 0; j < n; j++) emit(Op{C_FCMP, (uint8_t)scw(ot), (uint8_t)fc.getPredicate(), d + (int)j, sub(a, j), sub(b, j), 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::Select: {
          auto& s = cast<SelectInst>(I); int c = opn(s.getCondition()), a = opn(s.getTrueValue()), b = opn(s.getFalseValue());
          bool vc = s.getCondition()->getType()->isVectorTy();
          if (!vc && n > 1) { for (unsigned j = 0; j < n; j++) emit(Op{C_SEL, 64, 0, d + (int)j, sub(a, j), sub(b, j), c, 0, nullptr}, &I); break; }
          for (unsigned j = 0; j < n; j++) emit(Op{C_SEL, (uint8_t)scw(et), 0, d + (int)j, sub(a, j), sub(b, j), vc ? sub(c, j) : c, 0, nullptr}, &I);
          break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
          Type* st = I.getOperand(0)->getType(); unsigned ns = nslots(st); if (auto* vt = dyn_cast<FixedVectorType>(st)) st = vt->getElementType();
          int a = opn(I.getOperand(0));
          if (scw(et) > 64 || scw(st) > 64) {
            if (op == Instruction::Trunc && scw(et) <= 64) { emit(Op{C_TRUNC, (uint8_t)scw(et), 64, d, a, 0, 0, 0, nullptr}, &I); break; }
            if (op == Instruction::ZExt && scw(st) <= 64) { emit(Op{C_MOV, 64, 0, d, a, 0, 0, 0, nullptr}, &I); for (unsigned j = 1; j < n; j++) { int z = ~(int)f->consts.size(); f->consts.push_back(Val{0, 0}); emit(Op{C_MOV, 64, 0, d + (int)j, z, 0, 0, 0, nullptr}, &I); } break; }
            if (op == Instruction::SExt && scw(st) <= 64 && n == 2) { emit(Op{C_SEXT, 64, (uint8_t)scw(st), d, a, 0, 0, 0, nullptr}, &I); int z = ~(int)f->consts.size(); f->consts.push_back(Val{63, 0}); emit(Op{C_BIN, 64, O_ASHR, d + 1, d, z, 0, 0, nullptr}, &I); break; }
            unsup(); break;
          }
          (void)ns;
          for (unsigned j = 0; j < n; j++) emit(Op{(uint16_t)(op == Instruction::ZExt ? C_ZEXT : op == Instruction::SExt ? C_SEXT : C_TRUNC), (uint8_t)scw(et), (uint8_t)scw(st), d + (int)j, sub(a, j), 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          int a = opn(I.getOperand(0)); unsigned w = scw(et), w0 = scw(I.getOperand(0)->getType());
          if (w == w0) emit(Op{C_MOV, 64, 0, d, a, 0, 0, 0, nullptr}, &I);
          else emit(Op{(uint16_t)(w < w0 ? C_TRUNC : C_ZEXT), (uint8_t)w, (uint8_t)w0, d, a, 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: {
          int a = opn(I.getOperand(0));
          if (nslots(I.getOperand(0)->getType()) != n) { unsup(); break; }
          for (unsigned j = 0; j < n; j++) emit(Op{C_MOV, 64, 0, d + (int)j, sub(a, j), 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::Freeze: { int a = opn(I.getOperand(0)); for (unsigned j = 0; j < n; j++) emit(Op{C_MOV, 64, 0, d + (int)j, sub(a, j), 0, 0, 0, nullptr}, &I); break; }
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
          Type* st = I.getOperand(0)->getType(); if (auto* vt = dyn_cast<FixedVectorType>(st)) st = vt->getElementType();
          int a = opn(I.getOperand(0));
          uint16_t code = op == Instruction::SIToFP ? C_SITOFP : op == Instruction::UIToFP ? C_UITOFP : op == Instruction::FPToSI ? C_FPTOSI : op == Instruction::FPToUI ? C_FPTOUI : op == Instruction::FPExt ? C_FPEXT : C_FPTRUNC;
          for (unsigned j = 0; j < n; j++) emit(Op{code, (uint8_t)scw(et), (uint8_t)scw(st), d + (int)j, sub(a, j), 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::Load: {
          auto& L = cast<LoadInst>(I); int a = opn(L.getPointerOperand());
          std::vector<Leaf> ls; leaves(ty, 0, ls);
          // pointer operand may be overwritten by dst only if same slot (never in SSA)
          for (unsigned j = 0; j < ls.size(); j++) emit(Op{C_LOAD, (uint8_t)scw(ls[j].ty), (uint8_t)L.isAtomic(), d + (int)j, a, 0, 0, (int64_t)ls[j].off, nullptr}, &I);
          break;
        }
        case Instruction::Store: {
          auto& S = cast<StoreInst>(I); int a = opn(S.getPointerOperand()), v = opn(S.getValueOperand());
          std::vector<Leaf> ls; leaves(S.getValueOperand()->getType(), 0, ls);
          for (unsigned j = 0; j < ls.size(); j++) emit(Op{C_STORE, (uint8_t)scw(ls[j].ty), (uint8_t)S.isAtomic(), 0, a, sub(v, j), 0, (int64_t)ls[j].off, nullptr}, &I);
          break;
        }
        case Instruction::GetElementPtr: {
          auto& G = cast<GetElementPtrInst>(I);
          if (ty->isVectorTy()) { unsup(); break; }
          int cur = opn(G.getPointerOperand()); int64_t k = 0; bool first = true;
          std::vector<std::tuple<int, int64_t, unsigned>> var;
          for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
            if (StructType* st = gi.getStructTypeOrNull()) { k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) k += ci->getSExtValue() * sc;
            else var.push_back({opn(gi.getOperand()), sc, scw(gi.getOperand()->getType())});
          }
          emit(Op{C_GEPK, 64, 0, d, cur, 0, 0, k, nullptr}, &I); (void)first;
          for (auto& v : var) emit(Op{C_GEPV, (uint8_t)std::get<2>(v), 0, d, d, std::get<0>(v), 0, std::get<1>(v), nullptr}, &I);
          break;
        }
        case Instruction::Alloca: {
          auto& A = cast<AllocaInst>(I); uint64_t es = DL->getTypeAllocSize(A.getAllocatedType());
          emit(Op{C_ALLOCA, (uint8_t)scw(A.getArraySize()->getType()), 0, d, opn(A.getArraySize()), (int)A.getAlign().value(), 0, (int64_t)es, nullptr}, &I); break;
        }
        case Instruction::Br: {
          auto& B = cast<BranchInst>(I);
          if (B.isUnconditional()) { Edge* e = new Edge(mkEdge(&BB, B.getSuccessor(0))); efix.push_back({e, B.getSuccessor(0)}); emit(Op{C_BR, 0, 0, 0, 0, 0, 0, 0, e}, &I); }
          else { Edge* e = new Edge[2]; e[0] = mkEdge(&BB, B.getSuccessor(0)); e[1] = mkEdge(&BB, B.getSuccessor(1)); efix.push_back({&e[0], B.getSuccessor(0)}); efix.push_back({&e[1], B.getSuccessor(1)}); emit(Op{C_CBR, 0, 0, 0, opn(B.getCondition()), 0, 0, 0, e}, &I); }
          break;
        }
        case Instruction::Switch: {
          auto& S = cast<SwitchInst>(I); SwitchInfo* si = new SwitchInfo; si->w = scw(S.getCondition()->getType());
          si->cases.reserve(S.getNumCases());
          for (auto& c : S.cases()) { si->cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&BB, c.getCaseSuccessor())}); }
          { int i = 0; for (auto& c : S.cases()) efix.push_back({&si->cases[i++].second, c.getCaseSuccessor()}); }
          si->def = mkEdge(&BB, S.getDefaultDest()); efix.push_back({&si->def, S.getDefaultDest()});
          emit(Op{C_SWITCH, (uint8_t)si->w, 0, 0, opn(S.getCondition()), 0, 0, 0, si}, &I); break;
        }
        case Instruction::Ret: { auto& R = cast<ReturnInst>(I); int a = R.getReturnValue() ? opn(R.getReturnValue()) : 0; emit(Op{C_RET, 0, 0, R.getReturnValue() ? (int)nslots(R.getReturnValue()->getType()) : 0, a, 0, 0, 0, nullptr}, &I); break; }
        case Instruction::Unreachable: emit(Op{C_UNREACH, 0, 0, 0, 0, 0, 0, 0, nullptr}, &I); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto& C = cast<CallBase>(I);
          if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
            auto id = ii->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::prefetch || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::var_annotation) break;
            if (ty->isVectorTy() && n > 1 && (id == Intrinsic::fabs || id == Intrinsic::sqrt || id == Intrinsic::fmuladd || id == Intrinsic::fma || id == Intrinsic::smax || id == Intrinsic::smin || id == Intrinsic::umax || id == Intrinsic::umin)) { unsup(); break; }
          }
          CallInfo* ci = new CallInfo; ci->inst = &I;
          if (auto* cf = dyn_cast<Function>(C.getCalledOperand()->stripPointerCasts())) { ci->direct = cf; ci->name = cf->getName().str(); }
          else if (auto* ga = dyn_cast<GlobalAlias>(C.getCalledOperand()->stripPointerCasts())) { if (auto* af = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts())) { ci->direct = af; ci->name = af->getName().str(); } else ci->callee = opn(C.getCalledOperand()); }
          else if (C.isInlineAsm()) { if (cast<InlineAsm>(C.getCalledOperand())->getAsmString().empty()) { ci->name = "#asm"; } else { delete ci; unsup(); break; } }
          else ci->callee = opn(C.getCalledOperand());
          for (unsigned k = 0; k < C.arg_size(); k++) {
            Value* av = C.getArgOperand(k);
            ci->args.push_back(opn(av)); ci->nsl.push_back(nslots(av->getType())); ci->isfp.push_back(av->getType()->isFloatingPointTy()); ci->width.push_back(scw(av->getType()));
            ci->byval.push_back(C.isByValArgument(k) ? DL->getTypeAllocSize(C.getParamByValType(k)) : 0);
          }
          ci->fixedArgs = C.getFunctionType()->getNumParams(); ci->vararg = C.getFunctionType()->isVarArg();
          ci->nret = n; ci->retfp = ty->isFloatingPointTy(); ci->retw = scw(ty);
          if (auto* inv = dyn_cast<InvokeInst>(&I)) {
            ci->invoke = true; ci->normal = mkEdge(&BB, inv->getNormalDest()); ci->unwind = mkEdge(&BB, inv->getUnwindDest());
            efix.push_back({&ci->normal, inv->getNormalDest()}); efix.push_back({&ci->unwind, inv->getUnwindDest()});
          }
          emit(Op{C_CALL, 0, 0, d, 0, 0, 0, 0, ci}, &I); break;
        }
        case Instruction::LandingPad: {
          auto& L = cast<LandingPadInst>(I); LandInfo* li = new LandInfo; li->cleanup = L.isCleanup();
          for (unsigned k = 0; k < L.getNumClauses(); k++) {
            if (L.isCatch(k)) li->clauses.push_back({0, constScalar(L.getClause(k))}); else li->clauses.push_back({1, 0});
          }
          emit(Op{C_LANDING, 0, 0, d, 0, 0, 0, 0, li}, &I); break;
        }
        case Instruction::Resume: emit(Op{C_RESUME, 0, 0, 0, opn(I.getOperand(0)), 0, 0, 0, nullptr}, &I); break;
        case Instruction::ExtractValue: {
          auto& E = cast<ExtractValueInst>(I); int a = opn(E.getAggregateOperand()); Type* t = E.getAggregateOperand()->getType(); int off = 0;
          for (unsigned ix : E.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) off += nslots(st->getElementType(q)); t = st->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * nslots(t); } }
          for (unsigned j = 0; j < n; j++) emit(Op{C_MOV, 64, 0, d + (int)j, sub(a, off + j), 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::InsertValue: {
          auto& E = cast<InsertValueInst>(I); int a = opn(E.getAggregateOperand()), v = opn(E.getInsertedValueOperand()); Type* t = E.getAggregateOperand()->getType(); int off = 0;
          for (unsigned ix : E.indices()) { if (auto* st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; q++) off += nslots(st->getElementType(q)); t = st->getElementType(ix); } else { t = t->getArrayElementType(); off += ix * nslots(t); } }
          int nv = nslots(E.getInsertedValueOperand()->getType());
          for (int j = 0; j < (int)n; j++) emit(Op{C_MOV, 64, 0, d + j, (j >= off && j < off + nv) ? sub(v, j - off) : sub(a, j), 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::ExtractElement: {
          int a = opn(I.getOperand(0)); auto* ci = dyn_cast<ConstantInt>(I.getOperand(1));
          if (!ci) { emit(Op{C_EXTELV, 0, 0, d, a, opn(I.getOperand(1)), 0, (int64_t)nslots(I.getOperand(0)->getType()), nullptr}, &I); break; }
          emit(Op{C_MOV, 64, 0, d, sub(a, ci->getZExtValue()), 0, 0, 0, nullptr}, &I); break;
        }
        case Instruction::InsertElement: {
          int a = opn(I.getOperand(0)), v = opn(I.getOperand(1)); auto* ci = dyn_cast<ConstantInt>(I.getOperand(2));
          if (!ci) { unsup(); break; }
          for (int j = 0; j < (int)n; j++) emit(Op{C_MOV, 64, 0, d + j, j == (int)ci->getZExtValue() ? v : sub(a, j), 0, 0, 0, nullptr}, &I);
          break;
        }
        case Instruction::ShuffleVector: {
          auto& S = cast<ShuffleVectorInst>(I); int a = opn(S.getOperand(0)), b = opn(S.getOperand(1)); int na = nslots(S.getOperand(0)->getType());
          auto mk = S.getShuffleMask();
          for (int j = 0; j < (int)n; j++) { int q = mk[j]; if (q < 0) continue; emit(Op{C_MOV, 64, 0, d + j, q < na ? sub(a, q) : sub(b, q - na), 0, 0, 0, nullptr}, &I); }
          break;
        }
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); emit(Op{C_RMW, (uint8_t)scw(ty), (uint8_t)R.getOperation(), d, opn(R.getPointerOperand()), opn(R.getValOperand()), 0, 0, nullptr}, &I); break; }
        case Instruction::AtomicCmpXchg: { auto& R = cast<AtomicCmpXchgInst>(I); emit(Op{C_CMPXCHG, (uint8_t)scw(R.getCompareOperand()->getType()), 0, d, opn(R.getPointerOperand()), opn(R.getCompareOperand()), opn(R.getNewValOperand()), 0, nullptr}, &I); break; }
        default: unsup();
      }
    }
  }
  for (auto& x : efix) x.e->target = bbpc[x.b];
  f->nregs = nr; (void)tmp;
  f->dem = F->getName().str();
  return f;
}

// ------------------------------------------------------------------ values
static inline Ex toEx(Val v, unsigned w) { return v.s ? v.s : mkConstBV(v.c, w); }
static inline Val fromEx(Ex e) { if (isConst(e)) return Val{constVal(e), 0}; return Val{0, e}; }
static Ex asBVx(Val v, unsigned w) {
  if (!v.s) return mkConstBV(v.c, w);
  const Node& n = g_nodes[v.s];
  if (n.sort == S_FP) return mkNode(O_FBITS, S_BV, 64, v.s, 0, 0, 0);
  if (n.sort == S_RL) unsupported("bit-level use of a symbolic real");
  return v.s;
}
static Ex toF(Val v) {
  if (!v.s) return mkConstD(bits2d(v.c), g_mode);
  const Node& n = g_nodes[v.s];
  if (n.sort == S_BV) {
    if (n.op == O_FBITS) return n.a;
    unsupported("symbolic bits used as a double");
  }
  return v.s;
}
// decide a condition: forks if both outcomes are feasible.  returns the outcome on this path
static bool decide(Ex c) {
  if (isConst(c)) return constVal(c);
  Model m;
  Res rt = pcCheck(c, nullptr, g_rlimit / 4);
  if (rt == R_UNSAT) { pcAdd(mkNot(c)); return false; }
  Ex nc = mkNot(c);
  Res rf = pcCheck(nc, nullptr, g_rlimit / 4);
  if (rf == R_UNSAT) { pcAdd(c); return true; }
  if (doFork() == 0) { pcAdd(nc); return false; }
  pcAdd(c); return true;
}
// choose a concrete value for a bit-vector term, forking over the alternatives
static uint64_t concretize(Val v, unsigned w) {
  if (!v.s) return v.c;
  Ex e = asBVx(v, w);
  for (;;) {
    Model m; Res r = pcCheck(0, &m, 0);
    if (r == R_UNSAT) endPath("infeasible", "");
    if (r == R_UNKNOWN) unsupported("cannot concretize");
    uint64_t x = evalEx(e, m);
    Ex eq = mkCmp(O_EQ, e, mkConstBV(x, g_nodes[e].w));
    if (isConst(eq)) return x;
    Res ro = pcCheck(mkNot(eq), nullptr, 0);
    if (ro == R_UNSAT) { pcAdd(eq); return x; }
    if (doFork() == 0) { pcAdd(mkNot(eq)); continue; }
    pcAdd(eq); return x;
  }
}
static int64_t fToInt(Val v, bool up) {
  Ex e = toF(v);
  (void)up;
  for (;;) {
    Model m; Res r = pcCheck(0, &m, 0);
    if (r == R_UNSAT) endPath("infeasible", "");
    if (r == R_UNKNOWN) unsupported("cannot convert symbolic double to int");
    double d = bits2d(evalEx(e, m));
    if (std::isnan(d) || fabs(d) > 9e18) {  // undefined behaviour in C++; report
      Ex fin = mkAnd(mkFCmp(O_FLT, e, mkConstD(9.2e18, g_mode)), mkFCmp(O_FLT, mkConstD(-9.2e18, g_mode), e));
      pathViolation("ub", "double to integer conversion out of range", "");
      pcAdd(fin); if (pcCheck(0, nullptr, 0) == R_UNSAT) endPath("violation", "fptosi"); continue;
    }
    double t = trunc(d);
    auto range = [&](double t) {
      if (t > 0) return mkAnd(mkFCmp(O_FLE, mkConstD(t, g_mode), e), mkFCmp(O_FLT, e, mkConstD(t + 1, g_mode)));
      if (t < 0) return mkAnd(mkFCmp(O_FLE, e, mkConstD(t, g_mode)), mkFCmp(O_FLT, mkConstD(t - 1, g_mode), e));
      return mkAnd(mkFCmp(O_FLT, mkConstD(-1, g_mode), e), mkFCmp(O_FLT, e, mkConstD(1, g_mode)));
    };
    Ex in = range(t);
    if (!isConst(in) && pcCheck(in, nullptr, 0) == R_UNSAT) {
      // the model sits on an integer and double rounding moved it to the neighbour
      double c = 0; bool ok = false;
      for (double k : {t + 1, t - 1}) if (pcCheck(range(k), nullptr, 0) != R_UNSAT) { c = k; ok = true; break; }
      if (!ok) unsupported("cannot convert symbolic double to int");
      t = c; in = range(t);
    }
    if (isConst(in) && constVal(in)) return (int64_t)t;
    Res ro = pcCheck(mkNot(in), nullptr, 0);
    if (ro == R_UNSAT) { pcAdd(in); return (int64_t)t; }
    if (doFork() == 0) { pcAdd(mkNot(in)); continue; }
    pcAdd(in); return (int64_t)t;
  }
}

// ------------------------------------------------------------------ races
struct Acc { uint32_t wt, wc; uint32_t rt, rc; bool multi; std::vector<uint32_t> rs, aw, ar; };  // aw, ar: atomic writes and reads
static std::unordered_map<uint64_t, Acc> accs;
static void raceForget(uint64_t a, uint64_t n) { if (accs.empty()) return; for (uint64_t g = a >> 2, e = (a + n - 1) >> 2; g <= e; g++) accs.erase(g); }
static uint64_t raceEpoch = 0;
static void raceReport(uint64_t a, const char* k, int other) {
  SH->races++;
  pathViolation("race", "data race", std::string(k) + " at " + hexs(a) + " by thread " + std::to_string(T->tnum) + " conflicts with thread " + std::to_string(threads[other]->tnum));
  endPath("violation", "race");
}
static inline void raceAccess(uint64_t a, unsigned n, bool wr, bool atomic = false) {
  if (!inArena(a)) return;
  for (uint64_t g = a >> 2; g <= (a + n - 1) >> 2; g++) {
    Acc& x = accs[g];
    uint32_t me = T->id;
    auto hb = [&](uint32_t t, uint32_t c) { return t == me || (t < T->vc.size() && T->vc[t] >= c); };
    if (x.wc && !hb(x.wt, x.wc)) raceReport(a, wr ? "write" : "read", x.wt);
    auto against = [&](std::vector<uint32_t>& v) { for (uint32_t t = 0; t < v.size(); t++) if (v[t] && !hb(t, v[t])) raceReport(a, wr ? "write" : "read", t); };
    if (wr) against(x.rs);
    if (!atomic) { against(x.aw); if (wr) against(x.ar); }
    if (atomic) {
      auto& v = wr ? x.aw : x.ar;
      if (v.size() <= me) v.resize(me + 1, 0);
      v[me] = T->vc[me];
      continue;
    }
    if (wr) {
      x.wt = me; x.wc = T->vc[me]; x.rs.clear();
    } else {
      if (x.rs.size() <= me) x.rs.resize(me + 1, 0);
      x.rs[me] = T->vc[me];
    }
  }
}
static void vcJoin(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static std::map<uint64_t, std::vector<uint32_t>> lockVC;
static std::map<uint64_t, int> lockOwner;

// ------------------------------------------------------------------ control
static void schedule();
static void yieldBlocked(int st) { T->st = st; schedule(); }
static int g_schedBudget = 0;
static void pickNext(std::vector<Thread*>& run) {
  size_t i = 0;
  if (run.size() > 1 && g_schedBudget > 0) {
    g_schedBudget--;
    for (; i + 1 < run.size(); i++) { if (doFork() == 0) continue; break; }
  } else if (run.size() > 1 && g_sched < 0) {
    i = run.size() - 1;  // descending order
  }
  T = run[i];
}
static void schedule() {
  for (;;) {
    std::vector<Thread*> run;
    for (auto* t : threads) if (t->st == 0) run.push_back(t);
    if (!run.empty()) { pickNext(run); return; }
    // locks released?
    bool any = false;
    for (auto* t : threads) if (t->st == 2 && lockOwner[t->waitLock] == 0) { t->st = 0; any = true; }
    if (any) continue;
    pathViolation("deadlock", "deadlock", "no runnable thread");
    endPath("violation", "deadlock");
  }
}
static void pushFrame(Function* F, const std::vector<Val>& args, CallInfo* site, int retdst, const std::vector<Val>& vargs = {}) {
  CFunc* f = compileF(F);
  if (!f->named) { f->named = true; g_funcs.insert(f->dem); }
  if (T->fr.size() > 4000) { pathViolation("stack", "unbounded recursion", f->dem); endPath("violation", "recursion"); }
  T->fr.emplace_back();
  Frame& fr = T->fr.back();
  fr.f = f; fr.pc = 0; fr.regs.assign(f->nregs, Val{0, 0}); fr.site = site; fr.retdst = retdst; fr.va = 0; fr.vargs = vargs;
  for (size_t i = 0; i < args.size() && i < (size_t)f->nregs; i++) fr.regs[i] = args[i];
}
static void popFrame() {
  Frame& fr = T->fr.back();
  for (auto id : fr.allocas) { Obj& o = objs[id]; if (o.size) clearSymRange(o.start, o.size); setGran(o.start, o.size, 0); o.alive = 0;
    uint64_t rs = (std::max<uint64_t>(o.size, 1) + 15) & ~15ull; freeLists[rs | (1ull << 40)].push_back(id); }
  T->fr.pop_back();
}
static uint64_t stackAlloc(uint64_t size, uint64_t align) {
  uint64_t rs = (std::max<uint64_t>(size, 1) + 15) & ~15ull;
  uint32_t id; uint64_t a;
  auto it = freeLists.find(rs | (1ull << 40));
  if (align <= 16 && it != freeLists.end() && it->second.size() > 8) {
    id = it->second.front(); it->second.pop_front(); Obj& o = objs[id]; o.size = size; o.alive = 1; setGran(o.start, size, id); a = o.start; raceForget(a, rs); memset((void*)a, 0xFF, size);
  } else { a = arenaAlloc(size, 1, 0xFF, std::max<uint64_t>(16, align)); id = objs.size() - 1; }
  T->fr.back().allocas.push_back(id);
  return a;
}
static void takeEdge(Frame& fr, const Edge& e) {
  size_t n = e.cp.size();
  if (n == 1) { int s = e.cp[0].second; fr.regs[e.cp[0].first] = s >= 0 ? fr.regs[s] : fr.f->consts[~s]; }
  else if (n) {
    Val buf[64]; std::vector<Val> big; Val* b = buf; if (n > 64) { big.resize(n); b = big.data(); }
    for (size_t i = 0; i < n; i++) { int s = e.cp[i].second; b[i] = s >= 0 ? fr.regs[s] : fr.f->consts[~s]; }
    for (size_t i = 0; i < n; i++) fr.regs[e.cp[i].first] = b[i];
  }
  fr.pc = e.target;
}
// exceptions: object address -> typeinfo
static std::map<uint64_t, uint64_t> exnType;
static std::map<uint64_t, uint64_t> exnDtor;
static uint64_t typeIdFor(uint64_t ti) { static std::map<uint64_t, uint64_t> ids; if (!ti) return 1; auto it = ids.find(ti); if (it != ids.end()) return it->second; uint64_t v = ids.size() + 2; ids[ti] = v; return v; }
static bool exnMatch(uint64_t catchTi, uint64_t thrTi, uint64_t obj, uint64_t* adj) {
  *adj = obj;
  if (!catchTi) return true;
  if (catchTi == thrTi) return true;
  void* p = (void*)obj;
  const std::type_info* c = (const std::type_info*)catchTi; const std::type_info* t = (const std::type_info*)thrTi;
  if (t->__is_pointer_p()) p = *(void**)p;
  if (c->__do_catch(t, &p, 1)) { *adj = (uint64_t)p; return true; }
  return false;
}
static std::map<uint64_t, uint64_t> exnAdj;
static void abortPath(const std::string& kind, const std::string& msg) {
  if (g_abortok) { SH->aborted_ok++; endPath("refused", msg); }
  pathViolation(kind, msg, ""); endPath("violation", msg);
}
static void unwind(uint64_t obj) {
  uint64_t ti = exnType[obj];
  while (!T->fr.empty()) {
    Frame& fr = T->fr.back();
    // find the call op that is active: pc-1
    const Op& o = fr.f->ops[fr.pc - 1];
    if (o.code == C_CALL && ((CallInfo*)o.ext)->invoke) {
      CallInfo* ci = (CallInfo*)o.ext;
      // inspect landing pad
      const Op& lp = fr.f->ops[ci->unwind.target];
      if (lp.code == C_LANDING) {
        LandInfo* li = (LandInfo*)lp.ext; uint64_t sel = 0; bool land = li->cleanup;
        for (auto& cl : li->clauses) { if (cl.first == 0) { uint64_t adj; if (exnMatch(cl.second, ti, obj, &adj)) { sel = typeIdFor(cl.second); exnAdj[obj] = adj; land = true; break; } } else { land = true; } }
        if (land) {
          takeEdge(fr, ci->unwind);
          fr.regs[lp.dst] = Val{obj, 0}; fr.regs[lp.dst + 1] = Val{sel, 0};
          fr.pc = ci->unwind.target + 1;
          return;
        }
      }
    }
    popFrame();
  }
  std::string nm = ti ? llvm::demangle(((const std::type_info*)ti)->name()) : "?";
  std::string what;
  {
    void* p = (void*)obj;
    if (ti && inArena(obj) == false) {}
    if (ti) { const std::type_info* t = (const std::type_info*)ti; void* q = p; if (typeid(std::exception).__do_catch(t, &q, 1)) { /* virtual what() may be interpreted code: skip */ } }
  }
  abortPath("exception", "uncaught exception " + nm);
}

// ------------------------------------------------------------------ natives
static jmp_buf g_jb; static volatile int g_inNative = 0;
static uint64_t g_faultAddr;
static void onSegv(int, siginfo_t* si, void*) {
  g_faultAddr = (uint64_t)si->si_addr;
  if (g_inNative) siglongjmp(g_jb, 1);
  static const char msg[] = "symx: fault in interpreter\n"; ssize_t r = write(2, msg, sizeof msg - 1); (void)r;
  siglongjmp(g_jb, 2);
}
typedef uint64_t (*NF)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, ...);
struct NRet { uint64_t i0, i1; double d0; };
static NRet nativeCall(void* fn, const std::vector<uint64_t>& iv, const std::vector<double>& dv, const std::vector<uint64_t>& stk, bool retfp) {
  uint64_t i[6] = {0}; double d[8] = {0};
  for (size_t k = 0; k < iv.size(); k++) i[k] = iv[k];
  for (size_t k = 0; k < dv.size(); k++) d[k] = dv[k];
  NRet r{0, 0, 0};
  if (stk.size() > 8) unsupported("too many native stack arguments");
  uint64_t s[8] = {0}; for (size_t k = 0; k < stk.size(); k++) s[k] = stk[k];
  if (retfp) {
    typedef double (*FD)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, ...);
    r.d0 = ((FD)fn)(i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
  } else {
    typedef unsigned __int128 (*FI)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double, double, double, double, double, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, ...);
    unsigned __int128 v = ((FI)fn)(i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    r.i0 = (uint64_t)v; r.i1 = (uint64_t)(v >> 64);
  }
  return r;
}

// handlers: return true if they set pc / frames themselves
struct HC { CallInfo* ci; std::vector<Val>& a; Val* ret; };
typedef std::function<int(HC&)> Handler;  // 0: normal return; 1: control transferred
static std::vector<Handler> handlers;
static std::unordered_map<std::string, int> hname;
static void H(const char* n, Handler h) { hname[n] = handlers.size(); handlers.push_back(h); }
static std::string cstr(uint64_t a) { return a ? std::string((const char*)a) : std::string(); }
static uint64_t CV(const Val& v, unsigned w = 64) { return concretize(v, w); }

static std::map<std::string, int> nameCount;
static std::string uniq(const std::string& n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }

static void doAssert(Ex c, const std::string& label) {
  SH->asserts++;
  if (isConst(c)) {
    if (constVal(c)) { SH->asserts_ok++; SH->asserts_trivial++; return; }
    pathViolation("assert", label, "fails on every value of this path"); endPath("violation", label);
  }
  Model m; Res r = pcCheck(mkNot(c), &m, 0);
  if (r == R_UNSAT) { SH->asserts_ok++; return; }
  if (r == R_SAT) { violation("assert", label, m, ""); pcAdd(c); if (pcCheck(0, nullptr, 0) == R_UNSAT) endPath("violation", label); return; }
  SH->unknowns++;
  logLine("{\"type\":\"unknown\",\"label\":\"" + jesc(label) + "\",\"expr\":\"" + jesc(exStr(c)) + "\"}");
}
static Val fmath1(const std::string& nm, Val x) {
  if (!x.s) { Ex e = mkFFun(funId(nm), mkConstD(bits2d(x.c), g_mode), 0); return Val{constVal(e), 0}; }
  return fromEx(mkFFun(funId(nm), toF(x), 0));
}
static Val fop(EOp op, Val a, Val b) {
  if (!a.s && !b.s) {
    double x = bits2d(a.c), y = bits2d(b.c), r;
    switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FNEG: r = -x; break; case O_FABS: r = fabs(x); break; case O_FSQRT: r = sqrt(x); break; default: abort(); }
    return Val{d2bits(r), 0};
  }
  Ex ea = toF(a), eb = (op == O_FNEG || op == O_FABS || op == O_FSQRT) ? 0 : toF(b);
  if (g_mode == S_RL) {
    // infinities only as concrete data: x + inf = inf, x / inf = 0
    for (int k = 0; k < 2; k++) { Val v = k ? b : a; if (!v.s && eb && std::isinf(bits2d(v.c))) {
      double inf = bits2d(v.c);
      if (op == O_FADD) return v; if (op == O_FSUB) return Val{d2bits(k ? -inf : inf), 0};
      if (op == O_FDIV && k) return Val{0, 0};
      unsupported("arithmetic of a symbolic real with infinity"); } }
    if (op == O_FDIV && !b.s && bits2d(b.c) == 0.0) { return Val{d2bits(NAN), 0}; }
    if (op == O_FDIV && b.s) {
      // division by a possibly-zero real: the zero case is IEEE inf/NaN and outside real mode
      Ex z = mkFCmp(O_FEQ, eb, mkConstD(0, S_RL));
      if (!isConst(z)) {
        Model m; Res r = pcCheck(z, nullptr, g_rlimit / 8);
        if (r != R_UNSAT) { if (decide(z)) { logLine("{\"type\":\"divzero\",\"where\":\"" + jesc(whereStr()) + "\"}"); return Val{d2bits(NAN), 0}; } }
      } else if (constVal(z)) return Val{d2bits(NAN), 0};
    }
  }
  return fromEx(mkF(op, ea, eb));
}
static Ex fcmp(unsigned pred, Val a, Val b) {
  Ex x = toF(a), y = toF(b);
  auto uno = [&]() -> Ex {
    if (g_mode == S_RL) {
      bool n = (isConst(x) && std::isnan(bits2d(constVal(x)))) || (isConst(y) && std::isnan(bits2d(constVal(y))));
      return mkConstBV(n, 1);
    }
    return mkOr(mkNot(mkFCmp(O_FEQ, x, x)), mkNot(mkFCmp(O_FEQ, y, y)));
  };
  switch (pred) {
    case CmpInst::FCMP_FALSE: return mkConstBV(0, 1);
    case CmpInst::FCMP_TRUE: return mkConstBV(1, 1);
    case CmpInst::FCMP_OEQ: return mkFCmp(O_FEQ, x, y);
    case CmpInst::FCMP_OGT: return mkFCmp(O_FLT, y, x);
    case CmpInst::FCMP_OGE: return mkFCmp(O_FLE, y, x);
    case CmpInst::FCMP_OLT: return mkFCmp(O_FLT, x, y);
    case CmpInst::FCMP_OLE: return mkFCmp(O_FLE, x, y);
    case CmpInst::FCMP_ONE: return mkOr(mkFCmp(O_FLT, x, y), mkFCmp(O_FLT, y, x));
    case CmpInst::FCMP_ORD: return mkNot(uno());
    case CmpInst::FCMP_UNO: return uno();
    case CmpInst::FCMP_UEQ: return mkNot(mkOr(mkFCmp(O_FLT, x, y), mkFCmp(O_FLT, y, x)));
    case CmpInst::FCMP_UGT: return mkNot(mkFCmp(O_FLE, x, y));
    case CmpInst::FCMP_UGE: return mkNot(mkFCmp(O_FLT, x, y));
    case CmpInst::FCMP_ULT: return mkNot(mkFCmp(O_FLE, y, x));
    case CmpInst::FCMP_ULE: return mkNot(mkFCmp(O_FLT, y, x));
    case CmpInst::FCMP_UNE: return mkNot(mkFCmp(O_FEQ, x, y));
  }
  abort();
}
static bool cmpMemPred(unsigned pred, double x, double y) {
  switch (pred) {
    case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return x == y; case CmpInst::FCMP_OGT: return x > y; case CmpInst::FCMP_OGE: return x >= y; case CmpInst::FCMP_OLT: return x < y; case CmpInst::FCMP_OLE: return x <= y;
    case CmpInst::FCMP_ONE: return x < y || x > y; case CmpInst::FCMP_ORD: return !(std::isnan(x) || std::isnan(y)); case CmpInst::FCMP_UNO: return std::isnan(x) || std::isnan(y);
    case CmpInst::FCMP_UEQ: return !(x < y || x > y); case CmpInst::FCMP_UGT: return !(x <= y); case CmpInst::FCMP_UGE: return !(x < y); case CmpInst::FCMP_ULT: return !(x >= y); case CmpInst::FCMP_ULE: return !(x > y); case CmpInst::FCMP_UNE: return x != y;
  }
  abort();
}
static void checkRange(const char* what, uint64_t a, uint64_t n) {
  if (!n) return;
  if (inArena(a)) { uint32_t id = gran[(a - AB) >> 4] & ~SYMF; if (!id || a < objs[id].start || a + n > objs[id].start + objs[id].size) badAccess(what, a, n); }
  else if (a < 65536) badAccess(what, a, n);
}
static void raceRange(uint64_t a, uint64_t n, bool wr) { if (g_liveTeams && g_raceck) for (uint64_t i = 0; i < n; i += 4) raceAccess(a + i, std::min<uint64_t>(4, n - i), wr); }
static void setRet(CallInfo* ci, int dst, const Val* r) { Frame& fr = T->fr.back(); for (int j = 0; j < ci->nret; j++) fr.regs[dst + j] = r[j]; }

static void setupHandlers() {
  auto noop = [](HC&) { return 0; };
  // ---- harness interface
  H("sym_double", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); double lo = bits2d(h.a[1].c), hi = bits2d(h.a[2].c); h.ret[0] = Val{0, mkVar(n, g_mode, 64, lo, hi, 1, 0)}; return 0; });
  H("sym_double_any", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); h.ret[0] = Val{0, mkVar(n, g_mode, 64, 1, 0, 1, 0)}; return 0; });
  H("sym_int", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); int64_t lo = (int32_t)CV(h.a[1], 32), hi = (int32_t)CV(h.a[2], 32);
    if (lo == hi) { Ex e = mkVar(n, S_BV, 32, 0, 0, lo, hi); pcAdd(mkCmp(O_EQ, e, mkConstBV((uint64_t)lo, 32))); h.ret[0] = Val{(uint64_t)lo & 0xffffffffu, 0}; return 0; }
    h.ret[0] = Val{0, mkVar(n, S_BV, 32, 0, 0, lo, hi)}; return 0; });
  H("sym_int_any", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); h.ret[0] = Val{0, mkVar(n, S_BV, 32, 0, 0, 1, 0)}; return 0; });
  H("sym_i64", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); h.ret[0] = Val{0, mkVar(n, S_BV, 64, 0, 0, 1, 0)}; return 0; });
  H("sym_byte", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); h.ret[0] = Val{0, mkVar(n, S_BV, 8, 0, 0, 1, 0)}; return 0; });
  H("sym_choice", [](HC& h) { std::string n = uniq(cstr(h.a[0].c)); int64_t k = (int32_t)CV(h.a[1], 32); Val v{0, mkVar(n, S_BV, 32, 0, 0, 0, k - 1)}; h.ret[0] = Val{concretize(v, 32), 0}; return 0; });
  H("sym_concretize", [](HC& h) { h.ret[0] = Val{concretize(h.a[0], 32), 0}; return 0; });
  H("sym_assume", [](HC& h) {
    Ex c = toEx(h.a[0], 32); c = mkNot(mkCmp(O_EQ, c, mkConstBV(0, g_nodes[c].w)));
    if (isConst(c)) { if (!constVal(c)) endPath("assumed-away", ""); return 0; }
    pcAdd(c); if (pcCheck(0, nullptr, 0) == R_UNSAT) endPath("assumed-away", ""); return 0; });
  H("sym_assert", [](HC& h) { Ex c = toEx(h.a[0], 32); c = mkNot(mkCmp(O_EQ, c, mkConstBV(0, g_nodes[c].w))); doAssert(c, cstr(h.a[1].c)); return 0; });
  H("sym_assert_close", [](HC& h) {
    SH->asserts++; std::string label = cstr(h.a[3].c); double tol = bits2d(h.a[2].c);
    Val a = h.a[0], b = h.a[1];
    if (!a.s && !b.s) {
      double x = bits2d(a.c), y = bits2d(b.c);
      if (fabs(x - y) <= tol || x == y || (std::isnan(x) && std::isnan(y))) { SH->asserts_ok++; SH->asserts_trivial++; return 0; }
      char buf[128]; snprintf(buf, 128, "%.17g vs %.17g", x, y); pathViolation("assert", label, buf); endPath("violation", label);
    }
    if (g_mode == S_RL && ((!a.s && !std::isfinite(bits2d(a.c))) || (!b.s && !std::isfinite(bits2d(b.c))))) { pathViolation("assert", label, "non-finite value"); endPath("violation", label); }
    Model m; std::string how; Res r = checkClose(toF(a), toF(b), tol, &m, &how);
    if (r == R_UNSAT) { SH->asserts_ok++; return 0; }
    if (r == R_SAT) {
      char buf[200]; snprintf(buf, 200, "%.17g vs %.17g (%s)", bits2d(evalEx(toF(a), m)), bits2d(evalEx(toF(b), m)), how.c_str());
      violation("assert", label, m, buf); endPath("violation", label); }
    SH->unknowns++; logLine("{\"type\":\"unknown\",\"label\":\"" + jesc(label) + "\",\"expr\":\"" + jesc(exStr(toF(a)) + " ~ " + exStr(toF(b))) + "\"}"); return 0; });
  H("sym_reach", [](HC& h) {
    std::string l = cstr(h.a[0].c);
    if (g_reached.count(l)) return 0;
    if (pcCheck(0, nullptr, 0) == R_SAT) { g_reached.insert(l); } return 0; });
  H("sym_stop", [](HC&) -> int { endPath("done", ""); });
  H("sym_abort_ok", [](HC& h) { g_abortok = (int)CV(h.a[0], 32); return 0; });
  H("sym_mode_fp", [](HC& h) { g_mode = CV(h.a[0], 32) ? S_FP : S_RL; return 0; });
  H("sym_select_fork", [](HC& h) { g_selfork = CV(h.a[0], 32); return 0; });
  H("sym_threads", [](HC& h) { g_maxThreads = (int)CV(h.a[0], 32); return 0; });
  H("sym_schedules", [](HC& h) { g_sched = (int)CV(h.a[0], 32); g_schedBudget = g_sched > 0 ? g_sched : 0; return 0; });
  H("sym_race_check", [](HC& h) { g_raceck = (int)CV(h.a[0], 32); return 0; });
  H("sym_is_replay", [](HC& h) { h.ret[0] = Val{0, 0}; return 0; });
  H("sym_is_symbolic_d", [](HC& h) { h.ret[0] = Val{(uint64_t)(h.a[0].s != 0), 0}; return 0; });
  hname["sym_is_symbolic_i"] = hname["sym_is_symbolic_d"];
  H("sym_print_double", [](HC& h) { if (h.a[1].s) fprintf(stderr, "%s = %s\n", cstr(h.a[0].c).c_str(), exStr(h.a[1].s, 8).c_str()); else fprintf(stderr, "%s = %.17g\n", cstr(h.a[0].c).c_str(), bits2d(h.a[1].c)); return 0; });
  H("sym_print_int", [](HC& h) { if (h.a[1].s) fprintf(stderr, "%s = %s\n", cstr(h.a[0].c).c_str(), exStr(h.a[1].s, 8).c_str()); else fprintf(stderr, "%s = %d\n", cstr(h.a[0].c).c_str(), (int)h.a[1].c); return 0; });
  H("sym_fatal", [](HC& h) -> int { abortPath("abort", "fatal error: " + cstr(h.a[0].c)); return 1; });
  // ---- memory
  auto mal = [](HC& h) { uint64_t n = CV(h.a[0]); h.ret[0] = Val{arenaAlloc(n, 0, 0xFF), 0}; return 0; };
  for (const char* n : {"malloc", "_Znwm", "_Znam", "__cxa_allocate_exception"}) H(n, mal);
  H("_ZnwmRKSt9nothrow_t", mal); H("_ZnamRKSt9nothrow_t", mal);
  auto mala = [](HC& h) { uint64_t n = CV(h.a[0]); h.ret[0] = Val{arenaAlloc(n, 0, 0xFF, std::max<uint64_t>(16, CV(h.a[1]))), 0}; return 0; };
  H("_ZnwmSt11align_val_t", mala); H("_ZnamSt11align_val_t", mala);
  H("calloc", [](HC& h) { uint64_t n = CV(h.a[0]) * CV(h.a[1]); uint64_t a = arenaAlloc(n, 0, 0); memset((void*)a, 0, n); h.ret[0] = Val{a, 0}; return 0; });
  H("aligned_alloc", [](HC& h) { h.ret[0] = Val{arenaAlloc(CV(h.a[1]), 0, 0xFF, std::max<uint64_t>(16, CV(h.a[0]))), 0}; return 0; });
  H("posix_memalign", [](HC& h) { uint64_t a = arenaAlloc(CV(h.a[2]), 0, 0xFF, std::max<uint64_t>(16, CV(h.a[1]))); storeMem(CV(h.a[0]), 64, Val{a, 0}); h.ret[0] = Val{0, 0}; return 0; });
  H("realloc", [](HC& h) { uint64_t p = CV(h.a[0]), n = CV(h.a[1]); uint64_t a = arenaAlloc(n, 0, 0xFF); if (p) { uint64_t os = inArena(p) ? objs[gran[(p - AB) >> 4] & ~SYMF].size : n; copyMem(a, p, std::min<uint64_t>(os, n)); arenaFree(p); } h.ret[0] = Val{a, 0}; return 0; });
  auto fre = [](HC& h) { arenaFree(CV(h.a[0])); return 0; };
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) H(n, fre);
  auto cpy = [](HC& h) { uint64_t d = CV(h.a[0]), s = CV(h.a[1]), n = CV(h.a[2]); checkRange("write", d, n); checkRange("read", s, n); raceRange(s, n, false); raceRange(d, n, true); copyMem(d, s, n); h.ret[0] = Val{d, 0}; return 0; };
  for (const char* n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "llvm.memcpy.p0.p0.i32"}) H(n, cpy);
  auto mset = [](HC& h) { uint64_t d = CV(h.a[0]), n = CV(h.a[2]); Val v = h.a[1]; checkRange("write", d, n); raceRange(d, n, true);
    if (v.s) { for (uint64_t i = 0; i < n; i++) storeMem(d + i, 8, fromEx(mkExtract(v.s, 0, 8))); }
    else { if (inArena(d) && n) { if (granSym(d, n)) { splitEdge(d); splitEnd(d, n); clearSymRange(d, n); } } memset((void*)d, (int)v.c, n); }
    h.ret[0] = Val{d, 0}; return 0; };
  for (const char* n : {"memset", "llvm.memset.p0.i64"}) H(n, mset);
  H("memcmp", [](HC& h) { uint64_t a = CV(h.a[0]), b = CV(h.a[1]), n = CV(h.a[2]); checkRange("read", a, n); checkRange("read", b, n);
    for (uint64_t i = 0; i < n; i++) { Val x = loadMem(a + i, 8), y = loadMem(b + i, 8); if (!x.s && !y.s) { if (x.c != y.c) { h.ret[0] = Val{(uint64_t)(uint32_t)(x.c < y.c ? -1 : 1), 0}; return 0; } continue; }
      Ex ex = toEx(x, 8), ey = toEx(y, 8); if (decide(mkCmp(O_EQ, ex, ey))) continue; h.ret[0] = Val{(uint64_t)(uint32_t)(decide(mkCmp(O_ULT, ex, ey)) ? -1 : 1), 0}; return 0; }
    h.ret[0] = Val{0, 0}; return 0; });
  hname["bcmp"] = hname["memcmp"];
  H("strlen", [](HC& h) { uint64_t a = CV(h.a[0]), n = 0; for (;; n++) { if (!okAccess(a + n, 1)) badAccess("read", a + n, 1); Val v = loadMem(a + n, 8); if (v.s) { if (decide(mkCmp(O_EQ, v.s, mkConstBV(0, 8)))) break; } else if (!v.c) break; } h.ret[0] = Val{n, 0}; return 0; });
  H("memchr", [](HC& h) { uint64_t a = CV(h.a[0]), n = CV(h.a[2]); uint64_t c = CV(h.a[1], 32) & 255; checkRange("read", a, n);
    for (uint64_t i = 0; i < n; i++) { Val v = loadMem(a + i, 8); bool eq = v.s ? decide(mkCmp(O_EQ, v.s, mkConstBV(c, 8))) : v.c == c; if (eq) { h.ret[0] = Val{a + i, 0}; return 0; } } h.ret[0] = Val{0, 0}; return 0; });
  H("strcmp", [](HC& h) { uint64_t a = CV(h.a[0]), b = CV(h.a[1]); for (uint64_t i = 0;; i++) { if (!okAccess(a + i, 1)) badAccess("read", a + i, 1); if (!okAccess(b + i, 1)) badAccess("read", b + i, 1); Ex x = toEx(loadMem(a + i, 8), 8), y = toEx(loadMem(b + i, 8), 8); if (!decide(mkCmp(O_EQ, x, y))) { h.ret[0] = Val{(uint64_t)(uint32_t)(decide(mkCmp(O_ULT, x, y)) ? -1 : 1), 0}; return 0; } if (decide(mkCmp(O_EQ, x, mkConstBV(0, 8)))) { h.ret[0] = Val{0, 0}; return 0; } } });
  // ---- math
  for (const char* n : {"sin", "cos", "tan", "exp", "log", "log10", "atan", "asin", "acos", "sinh", "cosh", "tanh", "floor", "ceil", "round", "rint", "trunc", "erf", "log1p", "expm1", "cbrt"}) {
    std::string nm = n;
    H(n, [nm](HC& h) {
      // over the reals cos(atan2(y, x)) = x / |(x, y)| and sin(atan2(y, x)) = y / |(x, y)|
      if (g_mode == S_RL && h.a[0].s && (nm == "sin" || nm == "cos")) {
        const Node n = g_nodes[h.a[0].s];
        if (n.op == O_FFUN && n.b && n.k == funId("atan2")) {
          Val y = fromEx(n.a), x = fromEx(n.b), q = fop(O_FADD, fop(O_FMUL, x, x), fop(O_FMUL, y, y));
          if (q.s ? decide(mkFCmp(O_FEQ, toF(q), mkConstD(0, S_RL))) : bits2d(q.c) == 0) h.ret[0] = Val{d2bits(nm == "cos" ? 1.0 : 0.0), 0};
          else h.ret[0] = fop(O_FDIV, nm == "cos" ? x : y, fop(O_FSQRT, q, Val{0, 0}));
          return 0;
        }
      }
      h.ret[0] = fmath1(nm, h.a[0]); return 0; });
    std::string in = "llvm." + nm + ".f64"; hname[in] = hname[n];
  }
  hname["nearbyint"] = hname["rint"]; hname["llvm.nearbyint.f64"] = hname["rint"];
  H("sqrt", [](HC& h) { Val x = h.a[0];
    if (x.s && g_mode == S_RL) { Ex neg = mkFCmp(O_FLT, toF(x), mkConstD(0, S_RL)); if (!isConst(neg) ? (pcCheck(neg, nullptr, g_rlimit / 8) != R_UNSAT && decide(neg)) : (bool)constVal(neg)) { h.ret[0] = Val{d2bits(NAN), 0}; return 0; } }
    h.ret[0] = fop(O_FSQRT, x, Val{0, 0}); return 0; });
  hname["llvm.sqrt.f64"] = hname["sqrt"];
  H("fabs", [](HC& h) { h.ret[0] = fop(O_FABS, h.a[0], Val{0, 0}); return 0; });
  hname["llvm.fabs.f64"] = hname["fabs"];
  auto ipow = [](Val x, int64_t n) { Val r{d2bits(1.0), 0}; bool neg = n < 0; if (neg) n = -n; Val b = x; while (n) { if (n & 1) r = fop(O_FMUL, r, b); n >>= 1; if (n) b = fop(O_FMUL, b, b); } if (neg) r = fop(O_FDIV, Val{d2bits(1.0), 0}, r); return r; };
  H("pow", [ipow](HC& h) { Val x = h.a[0], y = h.a[1]; if (!x.s && !y.s) { h.ret[0] = Val{d2bits(pow(bits2d(x.c), bits2d(y.c))), 0}; return 0; }
    if (!y.s) { double e = bits2d(y.c); if (e == trunc(e) && fabs(e) <= 64) { h.ret[0] = ipow(x, (int64_t)e); return 0; } }
    h.ret[0] = fromEx(mkFFun(funId("pow"), toF(x), toF(y))); return 0; });
  hname["llvm.pow.f64"] = hname["pow"];
  H("llvm.powi.f64.i32", [ipow](HC& h) { h.ret[0] = ipow(h.a[0], (int32_t)CV(h.a[1], 32)); return 0; });
  for (const char* n : {"atan2", "hypot", "fmod"}) { std::string nm = n; H(n, [nm](HC& h) { if (!h.a[0].s && !h.a[1].s) { Ex e = mkFFun(funId(nm), mkConstD(bits2d(h.a[0].c), g_mode), mkConstD(bits2d(h.a[1].c), g_mode)); h.ret[0] = Val{constVal(e), 0}; return 0; }
      if (nm == "hypot" && g_mode == S_RL) { h.ret[0] = fop(O_FSQRT, fop(O_FADD, fop(O_FMUL, h.a[0], h.a[0]), fop(O_FMUL, h.a[1], h.a[1])), Val{0, 0}); return 0; }
      h.ret[0] = fromEx(mkFFun(funId(nm), toF(h.a[0]), toF(h.a[1]))); return 0; }); }
  H("llvm.fmuladd.f64", [](HC& h) { h.ret[0] = fop(O_FADD, fop(O_FMUL, h.a[0], h.a[1]), h.a[2]); return 0; });
  H("llvm.fma.f64", [](HC& h) { if (!h.a[0].s && !h.a[1].s && !h.a[2].s) h.ret[0] = Val{d2bits(fma(bits2d(h.a[0].c), bits2d(h.a[1].c), bits2d(h.a[2].c))), 0}; else h.ret[0] = fop(O_FADD, fop(O_FMUL, h.a[0], h.a[1]), h.a[2]); return 0; });
  hname["fma"] = hname["llvm.fma.f64"];
  H("llvm.copysign.f64", [](HC& h) { if (!h.a[0].s && !h.a[1].s) { h.ret[0] = Val{d2bits(copysign(bits2d(h.a[0].c), bits2d(h.a[1].c))), 0}; return 0; }
    Val ab = fop(O_FABS, h.a[0], Val{0, 0});
    bool neg; if (!h.a[1].s) neg = std::signbit(bits2d(h.a[1].c)); else if (g_mode == S_RL) neg = decide(mkFCmp(O_FLT, toF(h.a[1]), mkConstD(0, S_RL))); else neg = decide(mkExtract(mkNode(O_FBITS, S_BV, 64, toF(h.a[1]), 0, 0, 0), 63, 1));
    h.ret[0] = neg ? fop(O_FNEG, ab, Val{0, 0}) : ab; return 0; });
  hname["copysign"] = hname["llvm.copysign.f64"];
  auto mm = [](bool mx) { return [mx](HC& h) { if (!h.a[0].s && !h.a[1].s) { double x = bits2d(h.a[0].c), y = bits2d(h.a[1].c); h.ret[0] = Val{d2bits(mx ? fmax(x, y) : fmin(x, y)), 0}; return 0; }
      Ex x = toF(h.a[0]), y = toF(h.a[1]); Ex c = mx ? mkFCmp(O_FLT, x, y) : mkFCmp(O_FLT, y, x);
      if (g_mode == S_FP) { Ex nx = mkNot(mkFCmp(O_FEQ, x, x)); c = mkOr(c, nx); }
      h.ret[0] = fromEx(mkIte(c, y, x)); return 0; }; };
  H("llvm.maxnum.f64", mm(true)); H("llvm.minnum.f64", mm(false)); H("fmax", mm(true)); H("fmin", mm(false));
  for (unsigned w : {8u, 16u, 32u, 64u}) {
    std::string s = ".i" + std::to_string(w);
    auto ite = [w](EOp op, bool swap) { return [w, op, swap](HC& h) { Ex a = asBVx(h.a[0], w), b = asBVx(h.a[1], w); Ex c = mkCmp(op, a, b); h.ret[0] = fromEx(swap ? mkIte(c, b, a) : mkIte(c, a, b)); return 0; }; };
    H(("llvm.smax" + s).c_str(), ite(O_SLT, true)); H(("llvm.smin" + s).c_str(), ite(O_SLT, false));
    H(("llvm.umax" + s).c_str(), ite(O_ULT, true)); H(("llvm.umin" + s).c_str(), ite(O_ULT, false));
    H(("llvm.abs" + s).c_str(), [w](HC& h) { Ex a = asBVx(h.a[0], w); Ex z = mkConstBV(0, w); h.ret[0] = fromEx(mkIte(mkCmp(O_SLT, a, z), mkBV(O_SUB, w, z, a), a)); return 0; });
    auto ovf = [w](EOp op, bool sg) { return [w, op, sg](HC& h) {
        Ex a = asBVx(h.a[0], w), b = asBVx(h.a[1], w); Ex r = mkBV(op, w, a, b); Ex o;
        if (isConst(a) && isConst(b)) {
          __int128 x = sg ? (__int128)sx(constVal(a), w) : (__int128)constVal(a), y = sg ? (__int128)sx(constVal(b), w) : (__int128)constVal(b);
          __int128 z = op == O_ADD ? x + y : op == O_SUB ? x - y : x * y; __int128 t = sg ? (__int128)sx(constVal(r), w) : (__int128)constVal(r);
          o = mkConstBV(z != t, 1);
        } else if (op == O_MUL && w <= 32) { Ex A = sg ? mkSext(a, 64) : mkZext(a, 64), B = sg ? mkSext(b, 64) : mkZext(b, 64); Ex P = mkBV(O_MUL, 64, A, B); o = mkNot(mkCmp(O_EQ, P, sg ? mkSext(r, 64) : mkZext(r, 64))); }
        else if (op == O_MUL && !sg && (isConst(a) || isConst(b))) { Ex k = isConst(a) ? a : b, v = isConst(a) ? b : a; o = constVal(k) ? mkCmp(O_ULT, mkConstBV(mask(w) / constVal(k), w), v) : mkConstBV(0, 1); }
        else if (op == O_ADD && !sg) o = mkCmp(O_ULT, r, a);
        else if (op == O_SUB && !sg) o = mkCmp(O_ULT, a, b);
        else if (op == O_ADD) { Ex z = mkConstBV(0, w); o = mkNot(mkCmp(O_EQ, mkCmp(O_SLT, b, z), mkCmp(O_SLT, r, a))); }
        else if (op == O_SUB) { Ex z = mkConstBV(0, w); o = mkNot(mkCmp(O_EQ, mkCmp(O_SLT, z, b), mkCmp(O_SLT, r, a))); }
        else unsupported("symbolic 64-bit multiply with overflow");
        h.ret[0] = fromEx(r); h.ret[1] = fromEx(o); return 0; }; };
    H(("llvm.sadd.with.overflow" + s).c_str(), ovf(O_ADD, true)); H(("llvm.uadd.with.overflow" + s).c_str(), ovf(O_ADD, false));
    H(("llvm.ssub.with.overflow" + s).c_str(), ovf(O_SUB, true)); H(("llvm.usub.with.overflow" + s).c_str(), ovf(O_SUB, false));
    H(("llvm.smul.with.overflow" + s).c_str(), ovf(O_MUL, true)); H(("llvm.umul.with.overflow" + s).c_str(), ovf(O_MUL, false));
    H(("llvm.usub.sat" + s).c_str(), [w](HC& h) { Ex a = asBVx(h.a[0], w), b = asBVx(h.a[1], w); h.ret[0] = fromEx(mkIte(mkCmp(O_ULT, a, b), mkConstBV(0, w), mkBV(O_SUB, w, a, b))); return 0; });
    H(("llvm.uadd.sat" + s).c_str(), [w](HC& h) { Ex a = asBVx(h.a[0], w), b = asBVx(h.a[1], w); Ex r = mkBV(O_ADD, w, a, b); h.ret[0] = fromEx(mkIte(mkCmp(O_ULT, r, a), mkConstBV(mask(w), w), r)); return 0; });
    H(("llvm.ctlz" + s).c_str(), [w](HC& h) { uint64_t x = CV(h.a[0], w); h.ret[0] = Val{x ? (uint64_t)(__builtin_clzll(x) - (64 - w)) : w, 0}; return 0; });
    H(("llvm.cttz" + s).c_str(), [w](HC& h) { uint64_t x = CV(h.a[0], w); h.ret[0] = Val{x ? (uint64_t)__builtin_ctzll(x) : w, 0}; return 0; });
    H(("llvm.ctpop" + s).c_str(), [w](HC& h) { uint64_t x = CV(h.a[0], w); h.ret[0] = Val{(uint64_t)__builtin_popcountll(x), 0}; return 0; });
    H(("llvm.bswap" + s).c_str(), [w](HC& h) { uint64_t x = CV(h.a[0], w); h.ret[0] = Val{__builtin_bswap64(x) >> (64 - w), 0}; return 0; });
    for (bool left : {true, false}) H(((left ? "llvm.fshl" : "llvm.fshr") + s).c_str(), [w, left](HC& h) { uint64_t a = CV(h.a[0], w), b = CV(h.a[1], w), k = CV(h.a[2], w) % w; uint64_t r = left ? (k ? (a << k) | (b >> (w - k)) : a) : (k ? (a << (w - k)) | (b >> k) : b); h.ret[0] = Val{r & mask(w), 0}; return 0; });
    H(("llvm.expect" + s).c_str(), [](HC& h) { h.ret[0] = h.a[0]; return 0; });
  }
  H("llvm.abs.i1", [](HC& h) { h.ret[0] = h.a[0]; return 0; });
  H("llvm.expect.i1", [](HC& h) { h.ret[0] = h.a[0]; return 0; });
  H("llvm.is.constant.i64", [](HC& h) { h.ret[0] = Val{0, 0}; return 0; });
  hname["llvm.is.constant.i32"] = hname["llvm.is.constant.i64"]; hname["llvm.is.constant.i1"] = hname["llvm.is.constant.i64"];
  H("llvm.objectsize.i64.p0", [](HC& h) { h.ret[0] = Val{~0ull, 0}; return 0; });
  H("llvm.is.fpclass.f64", [](HC& h) {
    uint64_t mk = CV(h.a[1], 32); Val x = h.a[0];
    if (!x.s) { double d = bits2d(x.c); unsigned cl; bool sg = std::signbit(d); switch (std::fpclassify(d)) { case FP_NAN: cl = 3; break; case FP_INFINITE: cl = sg ? 4 : 512; break; case FP_NORMAL: cl = sg ? 8 : 256; break; case FP_SUBNORMAL: cl = sg ? 16 : 128; break; default: cl = sg ? 32 : 64; } h.ret[0] = Val{(uint64_t)((mk & cl) != 0), 0}; return 0; }
    if (g_mode == S_RL) { // finite reals only
      uint64_t fin = mk & 0x1f8; if (fin == 0x1f8) { h.ret[0] = Val{1, 0}; return 0; } if (!fin) { h.ret[0] = Val{0, 0}; return 0; }
      auto both = [&](uint64_t b) { if ((fin & b) && (fin & b) != b) unsupported("is.fpclass on a symbolic real"); return (fin & b) != 0; };
      Ex e = toF(x), z = mkConstD(0.0, S_RL), r = mkConstBV(0, 1);
      if (both(8 | 16)) r = mkOr(r, mkFCmp(O_FLT, e, z)); if (both(32 | 64)) r = mkOr(r, mkFCmp(O_FEQ, e, z)); if (both(128 | 256)) r = mkOr(r, mkFCmp(O_FLT, z, e));
      h.ret[0] = fromEx(r); return 0; }
    Ex e = toF(x); Ex nan = mkNot(mkFCmp(O_FEQ, e, e)); Ex pinf = mkFCmp(O_FEQ, e, mkConstD(INFINITY, S_FP)), ninf = mkFCmp(O_FEQ, e, mkConstD(-INFINITY, S_FP));
    Ex r = mkConstBV(0, 1); Ex fin = mkNot(mkOr(nan, mkOr(pinf, ninf)));
    if ((mk & 3) == 3) r = mkOr(r, nan); else if (mk & 3) unsupported("signalling nan test");
    if (mk & 4) r = mkOr(r, ninf); if (mk & 512) r = mkOr(r, pinf);
    if ((mk & 0x1f8) == 0x1f8) r = mkOr(r, fin); else if (mk & 0x1f8) unsupported("is.fpclass subset");
    h.ret[0] = fromEx(r); return 0; });
  // ---- runtime
  for (const char* n : {"llvm.stackrestore.p0", "llvm.stackrestore", "__cxa_atexit", "__cxa_free_exception", "__cxa_thread_atexit", "llvm.trap.x", "fflush", "#asm", "puts", "printf", "fprintf", "vprintf", "putchar", "fputs", "fwrite", "fputc", "llvm.experimental.noalias.scope.decl", "pthread_mutex_destroy", "omp_set_nested", "omp_set_dynamic", "omp_set_max_active_levels", "std_print_noop"}) H(n, [](HC& h) { for (int j = 0; j < h.ci->nret; j++) h.ret[j] = Val{0, 0}; return 0; });
  H("llvm.stacksave.p0", [](HC& h) { h.ret[0] = Val{0, 0}; return 0; }); hname["llvm.stacksave"] = hname["llvm.stacksave.p0"];
  H("llvm.trap", [](HC&) -> int { abortPath("abort", "trap"); return 1; });
  H("abort", [](HC&) -> int { abortPath("abort", "abort() called"); return 1; });
  H("exit", [](HC&) -> int { abortPath("abort", "exit() called"); return 1; });
  hname["_exit"] = hname["exit"];
  H("_ZSt9terminatev", [](HC&) -> int { abortPath("abort", "std::terminate called"); return 1; });
  H("__assert_fail", [](HC& h) -> int { g_abortok = 0; abortPath("abort", "assertion failed: " + cstr(h.a[0].c)); return 1; });
  H("__cxa_pure_virtual", [](HC&) -> int { abortPath("abort", "pure virtual call"); return 1; });
  H("__cxa_guard_acquire", [](HC& h) { uint64_t p = CV(h.a[0]); h.ret[0] = Val{(uint64_t)(*(uint8_t*)p == 0), 0}; return 0; });
  H("__cxa_guard_release", [](HC& h) { uint64_t p = CV(h.a[0]); *(uint8_t*)p = 1; return 0; });
  H("__cxa_guard_abort", noop);
  H("__cxa_throw", [](HC& h) { uint64_t o = CV(h.a[0]); exnType[o] = CV(h.a[1]); exnAdj[o] = o; unwind(o); return 1; });
  H("__cxa_begin_catch", [](HC& h) { uint64_t o = CV(h.a[0]); T->caught.push_back(o); h.ret[0] = Val{exnAdj.count(o) ? exnAdj[o] : o, 0}; return 0; });
  H("__cxa_get_exception_ptr", [](HC& h) { uint64_t o = CV(h.a[0]); h.ret[0] = Val{exnAdj.count(o) ? exnAdj[o] : o, 0}; return 0; });
  H("__cxa_end_catch", [](HC&) { if (!T->caught.empty()) T->caught.pop_back(); return 0; });
  H("__cxa_rethrow", [](HC&) { uint64_t o = T->caught.empty() ? 0 : T->caught.back(); if (!T->caught.empty()) T->caught.pop_back(); unwind(o); return 1; });
  H("_Unwind_Resume", [](HC& h) { unwind(CV(h.a[0])); return 1; });
  H("llvm.eh.typeid.for", [](HC& h) { h.ret[0] = Val{typeIdFor(CV(h.a[0])), 0}; return 0; });
  hname["llvm.eh.typeid.for.p0"] = hname["llvm.eh.typeid.for"];
  H("__clang_call_terminate", [](HC&) -> int { abortPath("abort", "exception escapes a noexcept function"); return 1; });
  // ---- threads and OpenMP
  H("pthread_mutex_lock", [](HC& h) { uint64_t p = CV(h.a[0]); if (lockOwner[p] == 0) { lockOwner[p] = T->id + 1; vcJoin(T->vc, lockVC[p]); h.ret[0] = Val{0, 0}; return 0; }
    T->waitLock = p; Frame& fr = T->fr.back(); fr.pc--; yieldBlocked(2); return 1; });
  H("pthread_mutex_unlock", [](HC& h) { uint64_t p = CV(h.a[0]); lockOwner[p] = 0; vcJoin(lockVC[p], T->vc); T->vc[T->id]++; for (auto* t : threads) if (t->st == 2 && t->waitLock == p) t->st = 0; h.ret[0] = Val{0, 0}; return 0; });
  H("__kmpc_critical", [](HC& h) { uint64_t p = CV(h.a[2]); if (lockOwner[p] == 0) { lockOwner[p] = T->id + 1; vcJoin(T->vc, lockVC[p]); return 0; }
    T->waitLock = p; T->fr.back().pc--; yieldBlocked(2); return 1; });
  H("__kmpc_end_critical", [](HC& h) { uint64_t p = CV(h.a[2]); lockOwner[p] = 0; vcJoin(lockVC[p], T->vc); T->vc[T->id]++; for (auto* t : threads) if (t->st == 2 && t->waitLock == p) t->st = 0; return 0; });
  H("__kmpc_global_thread_num", [](HC& h) { h.ret[0] = Val{(uint64_t)T->id, 0}; return 0; });
  H("omp_get_thread_num", [](HC& h) { h.ret[0] = Val{(uint64_t)T->tnum, 0}; return 0; });
  H("omp_get_num_threads", [](HC& h) { h.ret[0] = Val{(uint64_t)(T->team ? T->team->n : 1), 0}; return 0; });
  H("omp_get_max_threads", [](HC& h) { h.ret[0] = Val{(uint64_t)g_maxThreads, 0}; return 0; });
  H("omp_get_num_procs", [](HC& h) { h.ret[0] = Val{(uint64_t)g_maxThreads, 0}; return 0; });
  H("omp_get_wtime", [](HC& h) { h.ret[0] = Val{d2bits(0.0), 0}; return 0; });
  H("omp_in_parallel", [](HC& h) { h.ret[0] = Val{(uint64_t)(T->team && T->team->n > 1), 0}; return 0; });
  H("omp_set_num_threads", [](HC& h) { g_maxThreads = (int)CV(h.a[0], 32); return 0; });
  H("__kmpc_push_num_threads", [](HC& h) { T->pushThreads = (int)CV(h.a[2], 32); return 0; });
  static auto ompBarrier = [](HC&) -> int {
    Team* tm = T->team; if (!tm || tm->n == 1) return 0;
    if (++tm->arrived < tm->n) { yieldBlocked(1); return 1 + 1; }  // 2: blocked, return value none, pc already advanced
    tm->arrived = 0; std::vector<uint32_t> v; for (auto* t : tm->th) vcJoin(v, t->vc);
    for (auto* t : tm->th) { t->vc = v; t->vc[t->id]++; if (t->st == 1) t->st = 0; }
    if (g_schedBudget > 0 || g_sched < 0) { schedule(); return 2; }
    return 0; };
  H("__kmpc_barrier", ompBarrier);
  H("__kmpc_single", [](HC& h) { Team* tm = T->team; if (!tm || tm->n == 1) { h.ret[0] = Val{1, 0}; return 0; } int k = T->singleCount++; bool first = !tm->singles.count(k); if (first) tm->singles[k] = T->tnum; h.ret[0] = Val{(uint64_t)first, 0}; return 0; });
  H("__kmpc_end_single", noop); H("__kmpc_end_master", noop); H("__kmpc_end_masked", noop); H("__kmpc_flush", noop);
  H("__kmpc_master", [](HC& h) { h.ret[0] = Val{(uint64_t)(T->tnum == 0), 0}; return 0; }); hname["__kmpc_masked"] = hname["__kmpc_master"];
  H("__kmpc_for_static_fini", noop);
  H("__kmpc_serialized_parallel", noop); H("__kmpc_end_serialized_parallel", noop);
  auto fsi = [](unsigned w) { return [w](HC& h) {
      // (loc, gtid, sched, *plast, *plb, *pub, *pstr, incr, chunk)
      uint64_t pl = CV(h.a[3]), plb = CV(h.a[4]), pub = CV(h.a[5]), pst = CV(h.a[6]);
      int64_t lb = sx(CV(loadMem(plb, w), w), w), ub = sx(CV(loadMem(pub, w), w), w); int64_t n = T->team ? T->team->n : 1, me = T->tnum;
      int sch = (int)CV(h.a[2], 32); if (sch != 34 && n > 1) unsupported("omp schedule " + std::to_string(sch));
      int64_t tot = ub - lb + 1, sz = tot / n, ex = tot % n; int64_t nlb = lb + me * sz + std::min(me, ex), nub = nlb + sz - 1 + (me < ex ? 1 : 0);
      storeMem(plb, w, Val{(uint64_t)nlb & mask(w), 0}); storeMem(pub, w, Val{(uint64_t)nub & mask(w), 0}); storeMem(pst, w, Val{(uint64_t)tot & mask(w), 0}); storeMem(pl, 32, Val{(uint64_t)(nub == ub && nlb <= nub), 0}); return 0; }; };
  H("__kmpc_for_static_init_4", fsi(32)); H("__kmpc_for_static_init_4u", fsi(32)); H("__kmpc_for_static_init_8", fsi(64)); H("__kmpc_for_static_init_8u", fsi(64));
  H("__kmpc_reduce_nowait", [](HC& h) { uint64_t p = CV(h.a[6]); if (lockOwner[p] == 0) { lockOwner[p] = T->id + 1; vcJoin(T->vc, lockVC[p]); h.ret[0] = Val{1, 0}; return 0; }
    T->waitLock = p; T->fr.back().pc--; yieldBlocked(2); return 1; });
  hname["__kmpc_reduce"] = hname["__kmpc_reduce_nowait"]; hname["__kmpc_end_reduce_nowait"] = hname["__kmpc_end_critical"];
  H("__kmpc_end_reduce", [](HC& h) { uint64_t p = CV(h.a[2]); lockOwner[p] = 0; vcJoin(lockVC[p], T->vc); T->vc[T->id]++; for (auto* t : threads) if (t->st == 2 && t->waitLock == p) t->st = 0; return ompBarrier(h); });
  H("__kmpc_fork_call", [](HC& h) {
    int n = T->pushThreads > 0 ? T->pushThreads : g_maxThreads; T->pushThreads = 0;
    Function* mf = faddr.at(CV(h.a[2]));
    Team* tm = new Team; tm->n = n; tm->parent = T; tm->up = T->team;
    T->child = tm; T->vc[T->id]++;
    Thread* par = T;
    std::vector<Val> shared(h.a.begin() + 3, h.a.end());
    if (n > 1) g_liveTeams++;
    for (int i = 0; i < n; i++) {
      Thread* t = new Thread; t->id = threads.size(); t->tnum = i; t->team = tm; t->vc = par->vc; t->vc.resize(t->id + 1, 0); t->vc[t->id] = 1; tm->th.push_back(t); threads.push_back(t);
      T = t;
      uint64_t g = arenaAlloc(4, 0, 0), b = arenaAlloc(4, 0, 0); *(uint32_t*)g = t->id; *(uint32_t*)b = i;
      std::vector<Val> av{Val{g, 0}, Val{b, 0}}; for (auto& v : shared) av.push_back(v);
      pushFrame(mf, av, nullptr, -1);
      T = par;
    }
    par->st = 3; schedule(); return 2; });
  // ---- C++ library pieces that are simple to model
  H("_ZNSt8ios_base4InitC1Ev", noop); H("_ZNSt8ios_base4InitD1Ev", noop);
  H("_ZSt20__throw_length_errorPKc", [](HC& h) -> int { abortPath("exception", "std::length_error " + cstr(h.a[0].c)); return 1; });
  H("__errno_location", [](HC& h) { static uint64_t e = 0; if (!e) e = arenaAlloc(4, 2, 0); h.ret[0] = Val{e, 0}; return 0; });
  H("__dynamic_cast", [](HC& h) { void* r = nullptr; extern void* dyncast(uint64_t, uint64_t, uint64_t, uint64_t); r = dyncast(CV(h.a[0]), CV(h.a[1]), CV(h.a[2]), CV(h.a[3])); h.ret[0] = Val{(uint64_t)r, 0}; return 0; });
  H("llvm.va_start", [](HC& h) { // build a SysV va_list with everything in the overflow area
    Frame& fr = T->fr.back(); uint64_t l = CV(h.a[0]); uint64_t n = fr.vargs.size(); uint64_t ov = stackAlloc(8 * (n + 1), 16);
    for (uint64_t i = 0; i < n; i++) storeMem(ov + 8 * i, 64, fr.vargs[i]);
    storeMem(l, 32, Val{48, 0}); storeMem(l + 4, 32, Val{176, 0}); storeMem(l + 8, 64, Val{ov, 0}); storeMem(l + 16, 64, Val{0, 0}); return 0; });
  hname["llvm.va_start.p0"] = hname["llvm.va_start"];
  H("llvm.va_end", noop); hname["llvm.va_end.p0"] = hname["llvm.va_end"];
  H("llvm.threadlocal.address.p0", [](HC& h) { h.ret[0] = h.a[0]; return 0; });
  H("llvm.prefetch.p0", noop);
  H("llvm.ptrmask.p0.i64", [](HC& h) { h.ret[0] = Val{CV(h.a[0]) & CV(h.a[1]), 0}; return 0; });
}
extern "C" void* __dynamic_cast(const void*, const abi::__class_type_info*, const abi::__class_type_info*, ptrdiff_t);
void* dyncast(uint64_t p, uint64_t s, uint64_t d, uint64_t h) { return __dynamic_cast((void*)p, (const abi::__class_type_info*)s, (const abi::__class_type_info*)d, (ptrdiff_t)h); }

static void finishThread() {
  Thread* t = T; t->st = 4;
  Team* tm = t->team;
  if (!tm) {  // main thread
    if (SH->asserts == 0) {}
    endPath("done", "");
  }
  if (++tm->done == tm->n) {
    Thread* p = tm->parent; for (auto* x : tm->th) vcJoin(p->vc, x->vc); p->vc[p->id]++;
    p->st = 0; p->child = nullptr; if (tm->n > 1) { g_liveTeams--; if (!g_liveTeams) accs.clear(); }
    for (auto* x : tm->th) x->st = 5;
  }
  schedule();
}

static void wideOp(const Op& o, Frame& fr);

static void step() {
  // runs until the current thread is switched or the path ends
  for (;;) {
    Thread* cur = T;
    Frame* frp = &cur->fr.back();
    Val* R = frp->regs.data();
    const Val* K = frp->f->consts.data();
    const Op* ops = frp->f->ops.data();
    int pc = frp->pc;
#define V(i) ((i) >= 0 ? R[i] : K[~(i)])
    for (;;) {
      const Op& o = ops[pc++];
      g_icount++;
      if ((g_icount & 0xfffff) == 0) { if (g_icount > g_maxinst) { frp->pc = pc; unsupported("instruction limit"); } if (nowS() > g_deadline) { frp->pc = pc; unsupported("time limit"); } }
      switch (o.code) {
        case C_MOV: R[o.dst] = V(o.a); break;
        case C_BIN: {
          Val a = V(o.a), b = V(o.b);
          if (!a.s && !b.s) {
            uint64_t m = mask(o.w), x = a.c, y = b.c, r;
            switch (o.w2) {
              case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break;
              case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
              case O_SHL: r = y >= o.w ? 0 : x << y; break; case O_LSHR: r = y >= o.w ? 0 : (x & m) >> y; break;
              case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
                if (!(y & m)) { frp->pc = pc; pathViolation("ub", "integer division by zero", ""); endPath("violation", "div by zero"); }
                r = constVal(mkBV((EOp)o.w2, o.w, mkConstBV(x, o.w), mkConstBV(y, o.w))); break;
              default: r = constVal(mkBV((EOp)o.w2, o.w, mkConstBV(x, o.w), mkConstBV(y, o.w)));
            }
            R[o.dst] = Val{r & m, 0};
          } else {
            frp->pc = pc;
            // bit tricks on reals
            Ex sr = a.s && g_nodes[a.s].sort == S_RL ? a.s : 0;
            if (sr && !b.s) {
              if (o.w2 == O_AND && b.c == 0x7fffffffffffffffull) { R[o.dst] = fop(O_FABS, a, Val{0, 0}); break; }
              if (o.w2 == O_XOR && b.c == 0x8000000000000000ull) { R[o.dst] = fop(O_FNEG, a, Val{0, 0}); break; }
              if (o.w2 == O_LSHR && b.c == 63) { R[o.dst] = fromEx(mkZext(mkFCmp(O_FLT, sr, mkConstD(0, S_RL)), 64)); break; }
            }
            Ex ea = asBVx(a, o.w), eb = asBVx(b, o.w);
            if (o.w2 == O_UDIV || o.w2 == O_SDIV || o.w2 == O_UREM || o.w2 == O_SREM) {
              Ex z = mkCmp(O_EQ, eb, mkConstBV(0, o.w));
              if (decide(z)) { pathViolation("ub", "integer division by zero", ""); endPath("violation", "div by zero"); }
            }
            R[o.dst] = fromEx(mkBV((EOp)o.w2, o.w, ea, eb));
          }
          break;
        }
        case C_ICMP: {
          Val a = V(o.a), b = V(o.b);
          if (!a.s && !b.s) {
            uint64_t m = mask(o.w), x = a.c & m, y = b.c & m; bool r;
            switch (o.w2) {
              case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
              case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
              case CmpInst::ICMP_SGT: r = sx(x, o.w) > sx(y, o.w); break; case CmpInst::ICMP_SGE: r = sx(x, o.w) >= sx(y, o.w); break; case CmpInst::ICMP_SLT: r = sx(x, o.w) < sx(y, o.w); break; default: r = sx(x, o.w) <= sx(y, o.w);
            }
            R[o.dst] = Val{r, 0};
          } else {
            frp->pc = pc;
            if (a.s && g_nodes[a.s].sort == S_RL) {
              if (!b.s && (o.w2 == CmpInst::ICMP_EQ || o.w2 == CmpInst::ICMP_NE)) { Ex q = mkFCmp(O_FEQ, a.s, mkConstD(bits2d(b.c), S_RL)); R[o.dst] = fromEx(o.w2 == CmpInst::ICMP_EQ ? q : mkNot(q)); break; }
              if (!b.s && b.c == 0 && o.w2 == CmpInst::ICMP_SLT) { R[o.dst] = fromEx(mkFCmp(O_FLT, a.s, mkConstD(0, S_RL))); break; }
              if (!b.s && b.c == ~0ull && o.w2 == CmpInst::ICMP_SGT) { R[o.dst] = fromEx(mkNot(mkFCmp(O_FLT, a.s, mkConstD(0, S_RL)))); break; }
              if (b.s && g_nodes[b.s].sort == S_RL && (o.w2 == CmpInst::ICMP_EQ || o.w2 == CmpInst::ICMP_NE)) { Ex e = mkFCmp(O_FEQ, a.s, b.s); R[o.dst] = fromEx(o.w2 == CmpInst::ICMP_EQ ? e : mkNot(e)); break; }
            }
            Ex x = asBVx(a, o.w), y = asBVx(b, o.w), e;
            switch (o.w2) {
              case CmpInst::ICMP_EQ: e = mkCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: e = mkNot(mkCmp(O_EQ, x, y)); break;
              case CmpInst::ICMP_UGT: e = mkCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: e = mkCmp(O_ULE, y, x); break; case CmpInst::ICMP_ULT: e = mkCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: e = mkCmp(O_ULE, x, y); break;
              case CmpInst::ICMP_SGT: e = mkCmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: e = mkCmp(O_SLE, y, x); break; case CmpInst::ICMP_SLT: e = mkCmp(O_SLT, x, y); break; default: e = mkCmp(O_SLE, x, y);
            }
            R[o.dst] = fromEx(e);
          }
          break;
        }
        case C_FBIN: {
          Val a = V(o.a), b = V(o.b);
          if (o.w2 == 100) {
            if (a.s || b.s) { frp->pc = pc; unsupported("symbolic frem"); }
            if (o.w == 32) { float x, y; uint32_t u = a.c, v = b.c; memcpy(&x, &u, 4); memcpy(&y, &v, 4); float r = fmodf(x, y); memcpy(&u, &r, 4); R[o.dst] = Val{u, 0}; } else R[o.dst] = Val{d2bits(fmod(bits2d(a.c), bits2d(b.c))), 0};
            break;
          }
          if (!a.s && !b.s) {
            if (o.w == 32) { float x, y, r; uint32_t u = a.c, v = b.c; memcpy(&x, &u, 4); memcpy(&y, &v, 4); r = o.w2 == O_FADD ? x + y : o.w2 == O_FSUB ? x - y : o.w2 == O_FMUL ? x * y : x / y; memcpy(&u, &r, 4); R[o.dst] = Val{u, 0}; break; }
            double x = bits2d(a.c), y = bits2d(b.c), r;
            switch (o.w2) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; default: r = x / y; }
            R[o.dst] = Val{d2bits(r), 0};
          } else { frp->pc = pc; R[o.dst] = fop((EOp)o.w2, a, b); }
          break;
        }
        case C_FNEG: { Val a = V(o.a); if (!a.s) R[o.dst] = Val{o.w == 32 ? (a.c ^ 0x80000000u) : (a.c ^ 0x8000000000000000ull), 0}; else R[o.dst] = fop(O_FNEG, a, Val{0, 0}); break; }
        case C_FCMP: {
          Val a = V(o.a), b = V(o.b);
          if (!a.s && !b.s) {
            double x, y;
            if (o.w == 32) { float p, q; uint32_t u = a.c, v = b.c; memcpy(&p, &u, 4); memcpy(&q, &v, 4); x = p; y = q; } else { x = bits2d(a.c); y = bits2d(b.c); }
            R[o.dst] = Val{(uint64_t)cmpMemPred(o.w2, x, y), 0};
          } else { frp->pc = pc; R[o.dst] = fromEx(fcmp(o.w2, a, b)); }
          break;
        }
        case C_SEL: {
          Val c = V(o.c);
          if (!c.s) { R[o.dst] = c.c & 1 ? V(o.a) : V(o.b); break; }
          Val a = V(o.a), b = V(o.b);
          frp->pc = pc;
          bool dbl = (a.s && g_nodes[a.s].sort != S_BV) || (b.s && g_nodes[b.s].sort != S_BV);
          bool fpTy = frp->f->src[pc - 1]->getType()->isDoubleTy();
          if ((dbl || fpTy)) {
            if (!a.s && !b.s && a.c == b.c) { R[o.dst] = a; break; }
            if (g_selfork || (!a.s && !std::isfinite(bits2d(a.c))) || (!b.s && !std::isfinite(bits2d(b.c)))) { bool t = decide(c.s); R[o.dst] = t ? a : b; }
            else R[o.dst] = fromEx(mkIte(c.s, toF(a), toF(b)));
          } else if (frp->f->src[pc - 1]->getType()->isPointerTy()) { bool t = decide(c.s); R[o.dst] = t ? a : b; }
          else R[o.dst] = fromEx(mkIte(c.s, asBVx(a, o.w), asBVx(b, o.w)));
          break;
        }
        case C_ZEXT: { Val a = V(o.a); if (!a.s) R[o.dst] = Val{a.c & mask(o.w2), 0}; else R[o.dst] = fromEx(mkZext(asBVx(a, o.w2), o.w)); break; }
        case C_SEXT: { Val a = V(o.a); if (!a.s) R[o.dst] = Val{(uint64_t)sx(a.c, o.w2) & mask(o.w), 0}; else R[o.dst] = fromEx(mkSext(asBVx(a, o.w2), o.w)); break; }
        case C_TRUNC: { Val a = V(o.a); if (!a.s) R[o.dst] = Val{a.c & mask(o.w), 0}; else { frp->pc = pc; R[o.dst] = fromEx(mkExtract(asBVx(a, o.w2), 0, o.w)); } break; }
        case C_LOAD: {
          Val p = V(o.a);
          if (p.s) { frp->pc = pc - 1; uint64_t x = concretize(p, 64); if (o.a >= 0) R[o.a] = Val{x, 0}; p = Val{x, 0}; }
          uint64_t a = p.c + o.imm; unsigned n = (o.w + 7) / 8;
          if (!okAccess(a, n)) { frp->pc = pc; badAccess("read", a, n); }
          if (g_liveTeams && g_raceck) { frp->pc = pc; raceAccess(a, n, false, o.w2); }
          if (o.w == 80) { long double v = 0; memcpy(&v, (void*)a, 10); R[o.dst] = Val{d2bits((double)v), 0}; break; }
          if (inArena(a) && granSym(a, n)) { frp->pc = pc; R[o.dst] = loadMem(a, o.w); }
          else {
            uint64_t v = 0;
            switch (n) { case 8: v = *(uint64_t*)a; break; case 4: v = *(uint32_t*)a; break; case 1: v = *(uint8_t*)a; break; case 2: v = *(uint16_t*)a; break; default: memcpy(&v, (void*)a, n); }
            R[o.dst] = Val{v & mask(o.w), 0};
          }
          break;
        }
        case C_STORE: {
          Val p = V(o.a);
          if (p.s) { frp->pc = pc - 1; uint64_t x = concretize(p, 64); if (o.a >= 0) R[o.a] = Val{x, 0}; p = Val{x, 0}; }
          uint64_t a = p.c + o.imm; unsigned n = (o.w + 7) / 8;
          if (!okAccess(a, n)) { frp->pc = pc; badAccess("write", a, n); }
          if (g_liveTeams && g_raceck) { frp->pc = pc; raceAccess(a, n, true, o.w2); }
          if (o.w == 80) { long double v = bits2d(V(o.b).c); memcpy((void*)a, &v, 10); break; }
          frp->pc = pc;
          storeMem(a, o.w, V(o.b));
          break;
        }
        case C_GEPK: { Val p = V(o.a); if (!p.s) R[o.dst] = Val{p.c + o.imm, 0}; else R[o.dst] = fromEx(mkBV(O_ADD, 64, p.s, mkConstBV(o.imm, 64))); break; }
        case C_GEPV: {
          Val p = V(o.a), i = V(o.b);
          if (!p.s && !i.s) R[o.dst] = Val{p.c + (uint64_t)(sx(i.c, o.w) * o.imm), 0};
          else { Ex ie = asBVx(i, o.w); if (o.w < 64) ie = mkSext(ie, 64); else if (o.w > 64) abort(); R[o.dst] = fromEx(mkBV(O_ADD, 64, toEx(p, 64), mkBV(O_MUL, 64, ie, mkConstBV(o.imm, 64)))); }
          break;
        }
        case C_ALLOCA: { frp->pc = pc; uint64_t n = concretize(V(o.a), o.w); R[o.dst] = Val{stackAlloc(n * o.imm, o.b), 0}; break; }
        case C_BR: { frp->pc = pc; takeEdge(*frp, *(Edge*)o.ext); pc = frp->pc; break; }
        case C_CBR: {
          Val c = V(o.a); bool t;
          if (!c.s) t = c.c & 1; else { frp->pc = pc; t = decide(c.s); }
          takeEdge(*frp, ((Edge*)o.ext)[t ? 0 : 1]); pc = frp->pc; break;
        }
        case C_SWITCH: {
          SwitchInfo* si = (SwitchInfo*)o.ext; Val c = V(o.a); const Edge* e = &si->def;
          if (!c.s) { for (auto& k : si->cases) if (k.first == (c.c & mask(si->w))) { e = &k.second; break; } }
          else { frp->pc = pc; Ex ce = asBVx(c, si->w); for (auto& k : si->cases) if (decide(mkCmp(O_EQ, ce, mkConstBV(k.first, si->w)))) { e = &k.second; break; } }
          takeEdge(*frp, *e); pc = frp->pc; break;
        }
        case C_RET: {
          int n = o.dst; Val rv[32]; if (n > 32) unsupported("large return"); for (int j = 0; j < n; j++) rv[j] = V(o.a >= 0 ? o.a + j : o.a - j);
          frp->pc = pc;
          CallInfo* site = frp->site; int rd = frp->retdst;
          popFrame();
          if (cur->fr.empty()) { finishThread(); goto reenter; }
          Frame& up = cur->fr.back();
          if (site) { for (int j = 0; j < n && j < site->nret; j++) up.regs[rd + j] = rv[j]; if (site->invoke) takeEdge(up, site->normal); }
          goto reenter;
        }
        case C_UNREACH: frp->pc = pc; pathViolation("ub", "unreachable code reached", ""); endPath("violation", "unreachable");
        case C_SITOFP: case C_UITOFP: {
          Val a = V(o.a);
          if (a.s && g_mode == S_FP && o.w == 64) { R[o.dst] = Val{0, mkNode(O_I2F, S_FP, 64, a.s, 0, 0, o.code == C_SITOFP)}; break; }
          if (a.s) { frp->pc = pc - 1; uint64_t x = concretize(a, o.w2); if (o.a >= 0) R[o.a] = Val{x, 0}; a = Val{x, 0}; }
          double d = o.code == C_SITOFP ? (double)sx(a.c, o.w2) : (double)(a.c & mask(o.w2));
          if (o.w == 32) { float f = o.code == C_SITOFP ? (float)sx(a.c, o.w2) : (float)(a.c & mask(o.w2)); uint32_t u; memcpy(&u, &f, 4); R[o.dst] = Val{u, 0}; } else R[o.dst] = Val{d2bits(d), 0};
          break;
        }
        case C_FPTOSI: case C_FPTOUI: {
          Val a = V(o.a); frp->pc = pc;
          if (a.s) { int64_t v = fToInt(a, false); R[o.dst] = Val{(uint64_t)v & mask(o.w), 0}; break; }
          double d; if (o.w2 == 32) { float f; uint32_t u = a.c; memcpy(&f, &u, 4); d = f; } else d = bits2d(a.c);
          if (std::isnan(d) || d >= 1.8446744073709552e19 || d < -9.3e18) { R[o.dst] = Val{0x8000000000000000ull & mask(o.w), 0}; break; }
          R[o.dst] = Val{(o.code == C_FPTOSI ? (uint64_t)(int64_t)d : (uint64_t)d) & mask(o.w), 0}; break;
        }
        case C_FPEXT: { Val a = V(o.a); if (a.s) { R[o.dst] = a; break; } if (o.w2 == 32) { float f; uint32_t u = a.c; memcpy(&f, &u, 4); R[o.dst] = Val{d2bits(f), 0}; } else R[o.dst] = a; break; }
        case C_FPTRUNC: { Val a = V(o.a); if (a.s) { frp->pc = pc; if (o.w == 32) unsupported("symbolic float"); R[o.dst] = a; break; } if (o.w == 32) { float f = (float)bits2d(a.c); uint32_t u; memcpy(&u, &f, 4); R[o.dst] = Val{u, 0}; } else R[o.dst] = a; break; }
        case C_LANDING: break;
        case C_RESUME: { frp->pc = pc; uint64_t ob = V(o.a).c; popFrame(); if (cur->fr.empty()) { abortPath("exception", "uncaught exception"); } unwind(ob); goto reenter; }
        case C_EXTELV: { frp->pc = pc; uint64_t i = concretize(V(o.b), 64); R[o.dst] = V(o.a >= 0 ? o.a + (int)i : o.a - (int)i); break; }
        case C_RMW: {
          Val p = V(o.a), v = V(o.b); frp->pc = pc; uint64_t a = concretize(p, 64); unsigned n = (o.w + 7) / 8; if (!okAccess(a, n)) badAccess("read", a, n);
          Val old = loadMem(a, o.w), nw = v;
          Ex x = asBVx(old, o.w), y = asBVx(v, o.w);
          switch (o.w2) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: nw = fromEx(mkBV(O_ADD, o.w, x, y)); break; case AtomicRMWInst::Sub: nw = fromEx(mkBV(O_SUB, o.w, x, y)); break; case AtomicRMWInst::And: nw = fromEx(mkBV(O_AND, o.w, x, y)); break; case AtomicRMWInst::Or: nw = fromEx(mkBV(O_OR, o.w, x, y)); break; default: unsupported("atomicrmw"); }
          storeMem(a, o.w, nw); R[o.dst] = old; break;
        }
        case C_CMPXCHG: {
          frp->pc = pc; uint64_t a = concretize(V(o.a), 64); Val old = loadMem(a, o.w); uint64_t x = concretize(old, o.w), y = concretize(V(o.b), o.w);
          if (x == y) storeMem(a, o.w, V(o.c)); R[o.dst] = Val{x, 0}; R[o.dst + 1] = Val{(uint64_t)(x == y), 0}; break;
        }
        case C_WIDE: frp->pc = pc; wideOp(o, *frp); break;
        case C_UNSUP: frp->pc = pc; unsupported("instruction " + *(std::string*)o.ext);
        case C_CALL: {
          frp->pc = pc;
          CallInfo* ci = (CallInfo*)o.ext;
          Function* F = ci->direct; uint64_t addr = 0;
          if (!ci->resolved || !F) {
            if (!F && ci->name.empty()) {
              addr = concretize(V(ci->callee), 64);
              auto it = faddr.find(addr);
              if (it != faddr.end()) { F = it->second; }
              else if (addr < 65536) { pathViolation("memory", "call through a null function pointer", ""); endPath("violation", "null call"); }
            }
            if (ci->direct || !ci->name.empty()) {
              ci->resolved = true;
              auto hi = hname.find(ci->name);
              if (hi != hname.end() && (ci->direct == nullptr || ci->direct->isDeclaration() || ci->name.compare(0, 4, "sym_") == 0 || ci->name == "__clang_call_terminate")) ci->handler = hi->second;
            }
          }
          int hnd = ci->handler;
          if (!ci->direct && F && hnd < 0) { auto hi = hname.find(F->getName().str()); if (hi != hname.end() && F->isDeclaration()) hnd = hi->second; }
          std::vector<Val> args;
          for (size_t k = 0; k < ci->args.size(); k++) for (int j = 0; j < ci->nsl[k]; j++) { int s = ci->args[k]; args.push_back(V(s >= 0 ? s + j : s - j)); }
          if (hnd >= 0) {
            Val ret[8]; for (auto& x : ret) x = Val{0, 0};
            HC hc{ci, args, ret};
            int r = handlers[hnd](hc);
            if (r == 1) goto reenter;
            // frames may have been reallocated (not by handlers); reload
            Frame& me = cur->fr.back();
            for (int j = 0; j < ci->nret; j++) me.regs[o.dst + j] = ret[j];
            if (ci->invoke) takeEdge(me, ci->normal);
            goto reenter;
          }
          if (F && !F->isDeclaration()) {
            // byval copies
            std::vector<Val> vargs;
            size_t ai = 0, nfix = 0;
            for (size_t k = 0; k < ci->args.size(); k++) { if (k < ci->fixedArgs) nfix += ci->nsl[k]; }
            if (ci->vararg && args.size() > nfix) { vargs.assign(args.begin() + nfix, args.end()); args.resize(nfix); }
            std::vector<std::pair<uint64_t, uint64_t>> bv; (void)ai;
            { size_t pos = 0; for (size_t k = 0; k < ci->args.size() && k < ci->fixedArgs; k++) { if (ci->byval[k]) { uint64_t src = concretize(args[pos], 64); uint64_t nb = stackAlloc(ci->byval[k], 16); copyMem(nb, src, ci->byval[k]); args[pos] = Val{nb, 0}; } pos += ci->nsl[k]; } }
            pushFrame(F, args, ci, o.dst, vargs);
            goto reenter;
          }
          // native
          std::string nm = F ? F->getName().str() : ("@" + hexs(addr));
          void* fn = F ? ci->native : (void*)addr;
          if (!fn) { fn = dlsym(RTLD_DEFAULT, nm.c_str()); if (ci->direct) ci->native = fn; }
          if (!fn) unsupported("external function " + llvm::demangle(nm));
          g_natives.insert(nm);
          std::vector<uint64_t> iv, sv; std::vector<double> dv;
          { size_t pos = 0; for (size_t k = 0; k < ci->args.size(); k++) { for (int j = 0; j < ci->nsl[k]; j++, pos++) {
              Val v = args[pos];
              if (ci->byval[k]) { uint64_t src = concretize(v, 64); for (uint64_t q = 0; q < ci->byval[k]; q += 8) { uint64_t t; memcpy(&t, (void*)(src + q), 8); sv.push_back(t); } continue; }
              if (v.s && ci->isfp[k]) unsupported("symbolic double passed to native " + llvm::demangle(nm));
              if (v.s) { v = Val{concretize(v, ci->width[k] ? ci->width[k] : 64), 0}; }
              if (ci->isfp[k]) { if (ci->width[k] == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); double d = 0; memcpy(&d, &f, 4); dv.push_back(d); } else if (dv.size() < 8) dv.push_back(bits2d(v.c)); else sv.push_back(v.c); }
              else { if (iv.size() < 6) iv.push_back(v.c); else sv.push_back(v.c);
                // a native function may look at memory: refuse if the object holds symbols
                if (inArena(v.c) && okAccess(v.c, 1)) { Obj& ob = objs[gran[(v.c - AB) >> 4] & ~SYMF]; if (ob.size && granSym(ob.start, ob.size)) { bool real = false; for (uint64_t q = ob.start; q < ob.start + ob.size; q++) if (shadow[q - AB]) { real = true; break; } if (real) unsupported("native " + llvm::demangle(nm) + " would read symbolic memory"); } } }
          } } }
          NRet nr{0, 0, 0}; uint64_t exo = 0, ext = 0; bool threw = false;
          if (sigsetjmp(g_jb, 1)) { unsupported("fault in native " + llvm::demangle(nm)); }
          g_inNative = 1;
          try { nr = nativeCall(fn, iv, dv, sv, ci->retfp); }
          catch (...) {
            threw = true; ext = (uint64_t)abi::__cxa_current_exception_type();
            std::exception_ptr ep = std::current_exception(); memcpy(&exo, &ep, 8); new std::exception_ptr(ep);
          }
          g_inNative = 0;
          if (threw) { exnType[exo] = ext; exnAdj[exo] = exo; unwind(exo); goto reenter; }
          { Frame& me = cur->fr.back();
            if (ci->nret > 0) { if (ci->retfp) me.regs[o.dst] = Val{d2bits(nr.d0), 0}; else { me.regs[o.dst] = Val{nr.i0 & (ci->retw ? mask(ci->retw) : ~0ull), 0}; if (ci->nret > 1) me.regs[o.dst + 1] = Val{nr.i1, 0}; if (ci->nret > 2) unsupported("native aggregate return"); } }
            if (ci->invoke) takeEdge(me, ci->normal); }
          goto reenter;
        }
        default: unsupported("opcode");
      }
    }
  reenter:;
  }
}
static void wideOp(const Op& o, Frame& fr) {
  Val* R = fr.regs.data(); const Val* K = fr.f->consts.data();
  auto get = [&](int i, int j) { int q = i >= 0 ? i + j : i - j; return V(q); };
  Val a0 = get(o.a, 0), a1 = get(o.a, 1), b0 = get(o.b, 0), b1 = get(o.b, 1);
  if (o.w > 128) unsupported("wide integer > 128");
  if (a0.s || a1.s || b0.s || b1.s) { // equality only
    unsupported("symbolic 128-bit integer");
  }
  unsigned __int128 x = ((unsigned __int128)a1.c << 64) | a0.c, y = ((unsigned __int128)b1.c << 64) | b0.c, r = 0;
  if (o.w2 == 200) {
    bool q = false; __int128 sxx = x, sy = y;
    switch (o.c) { case CmpInst::ICMP_EQ: q = x == y; break; case CmpInst::ICMP_NE: q = x != y; break; case CmpInst::ICMP_UGT: q = x > y; break; case CmpInst::ICMP_UGE: q = x >= y; break; case CmpInst::ICMP_ULT: q = x < y; break; case CmpInst::ICMP_ULE: q = x <= y; break; case CmpInst::ICMP_SGT: q = sxx > sy; break; case CmpInst::ICMP_SGE: q = sxx >= sy; break; case CmpInst::ICMP_SLT: q = sxx < sy; break; default: q = sxx <= sy; }
    R[o.dst] = Val{q, 0}; return;
  }
  switch (o.w2) {
    case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
    case O_SHL: r = y >= 128 ? 0 : x << (int)y; break; case O_LSHR: r = y >= 128 ? 0 : x >> (int)y; break; case O_ASHR: r = (unsigned __int128)((__int128)x >> (int)(y > 127 ? 127 : y)); break;
    case O_UDIV: r = y ? x / y : 0; break; case O_UREM: r = y ? x % y : 0; break; default: unsupported("wide op");
  }
  R[o.dst] = Val{(uint64_t)r, 0}; R[o.dst + 1] = Val{(uint64_t)(r >> 64), 0};
}

int main(int argc, char** argv) {
  // symx module.bc entry log [options]
  if (argc < 4) { fprintf(stderr, "usage: symx module.bc entry log [-paths N] [-par N] [-time S] [-rlimit N] [-insts N]\n"); return 2; }
  double tmax = 300;
  for (int i = 4; i + 1 < argc; i += 2) {
    std::string o = argv[i]; double v = atof(argv[i + 1]);
    if (o == "-paths") g_maxpaths = v; else if (o == "-par") g_maxpar = v; else if (o == "-time") tmax = v; else if (o == "-rlimit") g_rlimit = v; else if (o == "-insts") g_maxinst = v; else if (o == "-mono") g_maxmono = v;
  }
  g_harness = argv[2];
  g_deadline = nowS() + tmax;
  struct rlimit rl{1ull << 29, 1ull << 29}; setrlimit(RLIMIT_STACK, &rl);
  SH = (Shared*)mmap(nullptr, sizeof(Shared) + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (SH) Shared();
  SH->active = 1;
  g_logfd = open(argv[3], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
  auto map = [](uint64_t at, uint64_t n) { void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return p; };
  map(AB, ASZ); gran = (uint32_t*)map(AB + (1ull << 40), ASZ / 4); shadow = (Ex*)map(AB + (2ull << 40), ASZ * 4);
  objs.push_back(Obj{0, 0, 0, 0});
  mkConstBV(0, 1);
  struct sigaction sa{}; sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr);
  solverInit();
  LLVMContext C; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(argv[1], err, C);
  if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  setupHandlers();
  Thread* t0 = new Thread; t0->id = 0; t0->vc.assign(1, 1); threads.push_back(t0); T = t0;
  if (sigsetjmp(g_jb, 1)) { unsupported("memory fault at " + hexs(g_faultAddr)); }
  for (auto& g : M->globals()) if (!g.getName().starts_with("llvm.")) globalAddr(&g);
  for (auto& g : M->globals()) if (!g.isDeclaration() && !g.getName().starts_with("llvm.")) initConst(g.getInitializer(), gaddr[&g]);
  Function* E = M->getFunction(argv[2]);
  if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", argv[2]); return 2; }
  // global constructors then the entry, as frames executed in order
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  pushFrame(E, {}, nullptr, -1);
  for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushFrame(it->second, {}, nullptr, -1);
  pid_t p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (sigsetjmp(g_jb, 1)) { if (g_faultAddr) { pathViolation("memory", "memory fault", "at " + hexs(g_faultAddr)); endPath("violation", "memory fault"); } unsupported("fault"); } step(); _exit(0); }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { SH->errors++; logLine("{\"type\":\"error\",\"msg\":\"root killed by signal " + std::to_string(WTERMSIG(st)) + "\"}"); }
  char buf[2048];
  snprintf(buf, sizeof buf, "{\"type\":\"summary\",\"harness\":\"%s\",\"paths\":%d,\"forks\":%d,\"violations\":%d,\"unknowns\":%d,\"errors\":%d,\"asserts\":%d,\"asserts_ok\":%d,\"asserts_trivial\":%d,\"refused\":%d,\"insts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"polyq\":%llu,\"quick\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f}",
           argv[2], (int)SH->paths, (int)SH->forks, (int)SH->violations, (int)SH->unknowns, (int)SH->errors, (int)SH->asserts, (int)SH->asserts_ok, (int)SH->asserts_trivial, (int)SH->aborted_ok, (unsigned long long)SH->insts, (unsigned long long)SH->queries, (unsigned long long)SH->sat, (unsigned long long)SH->unsat, (unsigned long long)SH->unknown, (unsigned long long)SH->polyq, (unsigned long long)SH->quick, SH->solver_us / 1e6, nowS() - (g_deadline - tmax));
  logLine(buf); puts(buf);
  return 0;
}
