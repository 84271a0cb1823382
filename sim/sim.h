// Deterministic simulator core: green threads that are preempted at machine
// instruction granularity, memory whose pages fault on demand, and one seeded
// source for every choice.  See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <ucontext.h>

namespace sim {

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t;

// ---------------------------------------------------------------- choices
struct Prng { u64 s; explicit Prng(u64 x = 1) : s(x) {}
  u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u32 below(u32 n) { return n <= 1 ? 0 : u32(next() % n); } };
u64 mix(u64 a, u64 b);
u64 hash_str(const char* s);

// Every decision of a run goes through choose(); a run is a pure function of
// the recorded list.  0 is always the plainest alternative.
struct Chooser {
  bool replay = false; Prng rng; std::vector<u32> list; size_t pos = 0;
  u32 choose(u32 n) {
    if (n <= 1) return 0;
    u32 v;
    if (replay) v = pos < list.size() ? list[pos] % n : 0;
    else { v = rng.below(n); list.push_back(v); }
    ++pos; return v;
  }
  bool chance(u32 num, u32 den) { return choose(den) >= den - num; } // 0 => false
};

// ---------------------------------------------------------------- arena
constexpr u64 PG = 4096;
constexpr int ARENA_PAGES = 4;              // 0 and 3 are always guards
extern u8* const U;                         // user view (permissions vary)
extern u8* const K;                         // simulator view (always RW)
enum PageState : u8 { PS_RW, PS_RO, PS_NONE, PS_DEMAND, PS_DEMAND_RO /* readable, write faults once */ , PS_DEMAND_R /* absent, becomes readable only */ };
constexpr size_t OPSLOT = 16384;            // operand slot per thread
u8* op_rw(int slot);                        // writable view of operand slot
const u8* op_ro(int slot);                  // read-only view (same memory)
constexpr int NSLOTS = 16;

// ---------------------------------------------------------------- threads
enum Why { W_DONE, W_QUANTUM, W_FAULT, W_YIELD, W_ABORT };
struct Thread {
  int id = 0; void* sp = nullptr; u8* stack = nullptr; u64 fs = 0;
  std::function<void()> body; Why why = W_DONE; bool live = false;
  bool stepping = false, in_window = false; u64 steps = 0; u64 quantum = 0;  // preempt when quantum hits 0
  bool nt_next = false;                     // next instruction is a non-temporal store
  int nest = 0;                             // simulated signal handler nesting
  u64 fault_addr = 0;
};
constexpr int NT = 4;

struct Stats {
  u64 runs = 0, steps = 0, switches = 0, demand_faults = 0, preempts = 0, evictions = 0, agent_writes = 0,
      nt_stores = 0, nt_drains = 0, handlers = 0, crashes = 0, throws = 0, ro_pages = 0, absent_pages = 0,
      dirty_regs = 0, dirty_stack = 0, dirty_padding = 0, alloc_denied = 0, fpmodes = 0, yields = 0, second_ops = 0, alloc_faults = 0, fp_traps = 0, futex_wakes = 0, pristine = 0,
      distinct = 0;
};
extern Stats st;

struct Sim {
  Chooser ch;
  u64 hash = 0; bool verbose = false;
  std::string viol;                         // empty: no violation
  Thread th[NT]; Thread* cur = nullptr;
  PageState ps[ARENA_PAGES];
  u64 step_cap = 200000; u64 total_steps = 0; bool force_step = false;
  bool faulted_this_run = false, allow_futex = false; int last_sig = 0;
  // hooks set by the driver
  std::function<void(Thread&, ucontext_t*)> on_step;           // after each instruction
  std::function<bool(Thread&, u64 addr, bool write)> on_fault;  // before a demand page is mapped in
  std::function<bool(Thread&, u64 addr, bool write, u64 rip)> on_segv; // non-arena fault; true = handled
  std::vector<std::string> trace;

  void log(const char* ev, u64 a = 0, u64 b = 0);
  void violate(const std::string& what);    // record; from a green thread: never returns
  void set_page(int p, PageState s);
  void begin_run(bool replay, u64 seed, const std::vector<u32>* list);
  void spawn(int id, std::function<void()> body);
  Why resume(Thread& t);                    // from scheduler
  void yield(Why w);                        // from green thread
  // NT write combining model
  struct Pend { u64 off; u8 oldv, newv; };
  std::vector<Pend> pend[NT];
  bool nt_model = false;
  void nt_hide(int t);  void nt_show(int t);  void nt_drain_some(int t);
  u8 nt_snap[ARENA_PAGES * PG];
};
extern Sim S;

// Calls fn(a,b,c,d,e) on the current green thread with TF set if `step`.  All
// vector registers and 'stackjunk' bytes of dead stack are filled from `junk`
// first when junk != 0.
using Fn5 = void (*)(const void*, const void*, const void*, const void*, void*);
void call_window(Fn5 fn, const void* a, const void* b, const void* c, const void* d, void* e,
                 bool step, u64 junk);
// the same from inside a simulated signal handler (trap context), on the same stack
void call_window_nested(Fn5 fn, const void* a, void* e, bool step, u64 junk);
// Simulator code that runs inside a stepped window (callbacks) is not part of the schedule: it
// clears the trap flag on entry and restores it when it returns to the code under test.
struct StepPause {
  u64 fl;
  [[gnu::always_inline]] StepPause() { asm volatile("pushfq\n\tpopq %0\n\tpushq %0\n\tandq $-257, (%%rsp)\n\tpopfq" : "=r"(fl)::"memory", "cc"); }
  [[gnu::always_inline]] ~StepPause() { asm volatile("pushq %0\n\tpopfq" ::"r"(fl) : "memory", "cc"); }
};
// plain release store, executed inside a stepped window
extern "C" void sim_release_flag(const void*, const void*, const void*, const void*, void* flag);

void init();
bool isa_ok(const char* isa);

// allocator / syscall seam
extern bool alloc_fail, alloc_violates; extern u64 alloc_calls;

// ---------------------------------------------------------------- main loop
// A case = one op instance.  run_case executes one scenario from S.ch.
struct Driver {
  virtual ~Driver() {}
  virtual size_t ncases() = 0;
  virtual std::string case_name(size_t i) = 0;
  virtual void run(size_t i) = 0;           // uses S.ch; sets S.viol
  virtual u32 weight(size_t) { return 1; }
  virtual void extra_json(std::string&) {}
  std::string last_desc;                    // human description of the last run
};
int drive(int argc, char** argv, Driver& d);
} // namespace sim
