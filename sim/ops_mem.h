// Registry of vector memory operations, filled by mem_tu.cpp (one object file
// per ISA and element type), used by drv_mem.cpp.
#pragma once
#include "sim.h"
enum Kind { K_MSTORE = 1, K_MLOAD = 2, K_STORE = 4, K_LOAD = 8, K_CTOR = 16 };
struct MemOp {
  std::string name; int kind; bool is_mask; int N, szT, szU, cmpT, cmpU, align;
  bool unit_atomic;                          // element is at most 8 bytes
  bool has_mask;                             // operand k is used
  int known;                                 // the mask is a compile-time constant: 1 all lanes, 3 lanes 1, 4, 7...
  // slot layout: +0 value object (V or mask), +8192 selection mask
  void (*prep)(void* slot, const uint8_t* sel, uint64_t vseed, uint32_t pad);
  sim::Fn5 run;                              // (v, k, -, -, mem) ; v is const for stores
  void (*expectU)(uint64_t vseed, void* outU);
  void (*memfill)(uint64_t mseed, void* outU);
  void (*expectT)(uint64_t mseed, void* outT);
  void (*lanes)(const void* v, void* outT);
  void (*initT)(uint64_t vseed, void* outT);
};
std::vector<MemOp>& mem_ops();
