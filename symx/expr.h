// Expression layer of symx: hash-consed terms over bit-vectors and doubles,
// polynomial normal form for double terms read as reals, and the SMT back end.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

typedef uint32_t Ex;  // node id, 0 = "concrete, no expression"

enum Sort : uint8_t { S_BV, S_RL, S_FP };

enum EOp : uint8_t {
  O_NONE, O_CONST, O_VAR,
  // bit-vectors
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT /*k=lo*/, O_CONCAT /*a high, b low*/,
  // doubles (sort of node / of operands decides real vs IEEE)
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT,
  O_FEQ, O_FLT, O_FLE, O_FFUN /*k=function id*/,
  O_FBITS /* IEEE bits of an FP term, BV64 */,
  O_I2F /* integer to IEEE double, k=1 signed */,
};

struct Node {
  uint8_t op, sort, w;  // w: bit width (BV)
  Ex a, b, c;
  uint64_t k;
};

struct VarInfo {
  std::string name;
  Ex id;
  double lo, hi;     // double variables (real mode); lo>hi: unbounded
  int64_t ilo, ihi;  // ints
  bool isInt;
};

extern std::vector<Node> g_nodes;
extern std::vector<VarInfo> g_vars;

static inline double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= mask(w);
  return (int64_t)((v ^ m) - m);
}

Ex mkNode(uint8_t op, uint8_t sort, uint8_t w, Ex a, Ex b, Ex c, uint64_t k);
Ex mkConstBV(uint64_t v, unsigned w);
Ex mkConstD(double v, Sort s);
Ex mkVar(const std::string& name, Sort s, unsigned w, double lo, double hi, int64_t ilo, int64_t ihi);
// simplifying constructors
Ex mkBV(EOp op, unsigned w, Ex a, Ex b);
Ex mkCmp(EOp op, Ex a, Ex b);  // BV compare, result BV1
Ex mkNot(Ex a);
Ex mkAnd(Ex a, Ex b);
Ex mkOr(Ex a, Ex b);
Ex mkIte(Ex c, Ex a, Ex b);
Ex mkZext(Ex a, unsigned w);
Ex mkSext(Ex a, unsigned w);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkConcat(Ex hi, Ex lo);
Ex mkF(EOp op, Ex a, Ex b);     // arithmetic
Ex mkFCmp(EOp op, Ex a, Ex b);  // result BV1
Ex mkFFun(unsigned fid, Ex a, Ex b);
static inline bool isConst(Ex e) { return g_nodes[e].op == O_CONST; }
static inline uint64_t constVal(Ex e) { return g_nodes[e].k; }

unsigned funId(const std::string& name);
const std::string& funName(unsigned id);

// --- solver
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct Stats {
  uint64_t queries, sat, unsat, unknown, polyq, quick;
  double solver_s;
};
extern Stats g_stats;
struct Model { std::vector<uint64_t> val; };  // bits per g_vars index

void solverInit();
void pcAdd(Ex cond);                       // assert BV1 term to path condition
Res pcCheck(Ex extra, Model* m, uint64_t rlimit);  // pc && extra (extra may be 0)
Res pcModelFor(Ex term, Model* m);
uint64_t evalEx(Ex e, const Model& m);     // bits of value
bool evalBool(Ex e, const Model& m);
// |a-b| <= tol for all values satisfying the path condition?
Res checkClose(Ex a, Ex b, double tol, Model* m, std::string* how);
std::string exStr(Ex e, int depth = 6);
extern std::vector<Ex> g_pc;
extern uint64_t g_rlimit;       // default rlimit per query
extern int g_maxmono;
