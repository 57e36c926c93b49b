// Work partitioning over flux surfaces and over tangential grid points.
// TUS: vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc vmecpp/common/util/util.cc
// ENTRY: h_radial |props=P01 |bounds=ns 2..400, threads 1..min(64,ns/2), every pair of neighbouring thread ids, fixed and free boundary |reach=multi,single
// ENTRY: h_tangential |props=P01 |bounds=1..4096 grid points, 1..64 threads, every thread id |reach=t
#include "sym.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
#include "vmecpp/common/util/util.h"
using namespace vmecpp;
extern "C" void h_radial() {
  int ns = sym_int("ns", 2, 400);
  int nt = 1 + sym_choice("threads", 64);
  sym_assume(nt <= ns / 2);
  bool fb = sym_choice("lfreeb", 2);
  int id = sym_int("id", 0, 63);
  sym_assume(id < nt);
  RadialPartitioning p, q;
  p.adjustRadialPartitioning(nt, id, ns, fb, false);
  int top = fb ? ns : ns - 1;
  sym_assert(p.nsMinF < p.nsMaxF, "each thread owns at least one surface");
  sym_assert(p.nsMinF >= 0 && p.nsMaxF <= top, "owned range within grid");
  sym_assert(id != 0 || p.nsMinF == 0, "first thread starts at axis");
  sym_assert(id != nt - 1 || p.nsMaxF == top, "last thread ends at boundary");
  sym_assert(p.nsMinF1 == (p.nsMinF > 0 ? p.nsMinF - 1 : 0), "lower halo");
  sym_assert(p.nsMaxF1 == (p.nsMaxF < ns ? p.nsMaxF + 1 : ns) || nt == 1 && p.nsMaxF1 == ns, "upper halo");
  sym_assert(p.nsMinH == p.nsMinF1 && p.nsMaxH == p.nsMaxF1 - 1, "half grid");
  sym_assert(p.nsMinFi == (p.nsMinF > 1 ? p.nsMinF : 1) && p.nsMaxFi == (p.nsMaxF < ns - 1 ? p.nsMaxF : ns - 1), "interior");
  sym_assert(p.has_boundary() == (p.nsMaxF1 == ns), "boundary");
  sym_assert(p.nsMaxFIncludingLcfs == (id == nt - 1 ? ns : p.nsMaxF), "lcfs");
  if (nt > 1) {
    sym_assume(id + 1 < nt);
    q.adjustRadialPartitioning(nt, id + 1, ns, fb, false);
    sym_assert(p.nsMaxF == q.nsMinF, "neighbours meet");
    sym_reach("multi");
  } else sym_reach("single");
}
extern "C" void h_tangential() {
  int n = sym_int("n", 1, 4096);
  int nt = 1 + sym_choice("threads", 64);
  sym_assume(nt <= n);
  int id = sym_int("id", 0, 63);
  sym_assume(id < nt);
  TangentialPartitioning p(n, nt, id), q(n, nt, id + 1);
  sym_assert(p.ztMin < p.ztMax, "nonempty");
  sym_assert(id != 0 || p.ztMin == 0, "starts at 0");
  sym_assert(id != nt - 1 || p.ztMax == n, "ends at n");
  sym_assert(id == nt - 1 || p.ztMax == q.ztMin, "neighbours meet");
  sym_reach("t");
}
