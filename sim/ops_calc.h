// Registry of vector computations, filled by calc_tu.cpp (one object file per
// ISA, element type and group), used by drv_calc.cpp.
#pragma once
#include "sim.h"
// value classes of the operand lanes
enum VC { VC_ANY, VC_ARITH, VC_DIV, VC_SHIFT, VC_MATH, VC_BENIGN, VC_CVT, VC_CB, VC_SMALL, VC_ORD };
enum CF : uint32_t {
  CF_REF = 1,        // has a scalar reference (exact, under the current rounding direction)
  CF_IGN = 2,        // result must not depend on the rounding direction
  CF_CB = 4,         // calls user code: generator
  CF_CBR = 8,        // calls user code: reduction
  CF_ASSIGN = 16,    // writes to an existing object; on exception it must be unchanged
  CF_PADDED = 32,    // N is smaller than the register
  CF_MASKED = 64,    // operates on the lanes selected by k only
};
// operand slot: +0 a, +2048 b, +4096 c, +8192 k, +10240 k2
struct CalcOp {
  std::string name, opn; int N; uint32_t flags;
  // vc override: -1 = the op's own class
  void (*prep)(void* slot, uint64_t seed, int vc, uint32_t pada, uint32_t padb, uint32_t padk);
  int vc;
  sim::Fn5 run;                               // (slot, -, -, -, out)
  int (*ser)(const void* out, uint8_t* buf);  // lane-wise image, NaNs canonical
  int (*ref)(const void* slot, uint8_t* buf); // same image from scalar code
  int (*preout)(void* out);                   // CF_ASSIGN: construct the old value
  void (*lanes_of_k)(const void* slot, uint8_t* k, uint8_t* a); // CF_MASKED: the mask as bytes, the image of a
  void (*poison)(void* slot, uint64_t seed);  // CF_MASKED: overwrite the unselected lanes of a, b, c and k2
};
std::vector<CalcOp>& calc_ops();
// ---- called from user callbacks inside the operations (drv_calc.cpp)
struct CbThrown { int id; };
extern "C" void cb_event(int kind, int index, const uint64_t* vals, int nvals); // may throw or yield
extern int cb_live;                           // live callback objects
inline void cb_count(int d) { __atomic_fetch_add(&cb_live, d, __ATOMIC_RELAXED); } // one instruction: never torn by a preemption
extern int calc_ref_inline;                   // references: 0 = C library calls, 1 = as the compiler expands them inline
