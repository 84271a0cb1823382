#include "sim.h"
#include <asm/prctl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cpuid.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>
#include <exception>

namespace sim {
Stats st; Sim S;
u8* const U = (u8*)0x100000000000ull;
u8* const K = (u8*)0x110000000000ull;
static u8* const OPW = (u8*)0x120000000000ull;
static u8* const OPR = (u8*)0x130000000000ull;
static u8* const STK = (u8*)0x140000000000ull;
constexpr size_t STKSZ = 1 << 20;
u8* op_rw(int s) { return OPW + s * OPSLOT; }
const u8* op_ro(int s) { return OPR + s * OPSLOT; }
bool alloc_fail = false, alloc_violates = false; u64 alloc_calls = 0;

u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 32); }
u64 hash_str(const char* s) { u64 h = 1469598103934665603ull; while (*s) h = (h ^ u8(*s++)) * 1099511628211ull; return h; }

// ---------------------------------------------------------------- context switch
extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $16, %rsp
  stmxcsr 0(%rsp)
  fnstcw 8(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr 0(%rsp)
  fldcw 8(%rsp)
  addq $16, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl sim_release_flag
sim_release_flag:
  movb $1, (%r8)
  ret
# sim_call(fn, args*, step, regjunk*, stackjunk)
.globl sim_call
.globl sim_call_end
sim_call:
  pushq %rbp
  movq %rsp, %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  andq $-64, %rsp
  movq %rdi, %rbx
  movq %rsi, %r12
  movq %rdx, %r13
  movq %rcx, %r14
  testq %r8, %r8
  jz 1f
  # fill 3 KiB of dead stack below
  movq %r8, %rax
  leaq -3200(%rsp), %rdi
  movq $400, %rcx
  rep stosq
1:
  testq %r14, %r14
  jz 4f
  movl sim_vec_level(%rip), %eax
  cmpl $2, %eax
  je 2f
  cmpl $1, %eax
  je 3f
  movdqu (%r14), %xmm0
  movdqu 16(%r14), %xmm1
  movdqu 32(%r14), %xmm2
  movdqu 48(%r14), %xmm3
  movdqu 64(%r14), %xmm4
  movdqu 80(%r14), %xmm5
  movdqu 96(%r14), %xmm6
  movdqu 112(%r14), %xmm7
  jmp 4f
3:
)"
#define Y(n) "vmovdqu " #n "*32(%r14), %ymm" #n "\n"
"vmovdqu (%r14),%ymm0\n vmovdqu 32(%r14),%ymm1\n vmovdqu 64(%r14),%ymm2\n vmovdqu 96(%r14),%ymm3\n"
"vmovdqu 8(%r14),%ymm4\n vmovdqu 40(%r14),%ymm5\n vmovdqu 72(%r14),%ymm6\n vmovdqu 104(%r14),%ymm7\n"
"vmovdqu 16(%r14),%ymm8\n vmovdqu 48(%r14),%ymm9\n vmovdqu 80(%r14),%ymm10\n vmovdqu 112(%r14),%ymm11\n"
"vmovdqu 24(%r14),%ymm12\n vmovdqu 56(%r14),%ymm13\n vmovdqu 88(%r14),%ymm14\n vmovdqu 120(%r14),%ymm15\n"
"jmp 4f\n2:\n"
#define Z(n, o) "vmovdqu64 " #o "(%r14), %zmm" #n "\n"
Z(0,0) Z(1,8) Z(2,16) Z(3,24) Z(4,32) Z(5,40) Z(6,48) Z(7,56) Z(8,64) Z(9,72) Z(10,80) Z(11,88) Z(12,96) Z(13,104) Z(14,112) Z(15,120)
Z(16,4) Z(17,12) Z(18,20) Z(19,28) Z(20,36) Z(21,44) Z(22,52) Z(23,60) Z(24,68) Z(25,76) Z(26,84) Z(27,92) Z(28,100) Z(29,108) Z(30,116) Z(31,124)
R"(
  kmovq (%r14), %k1
  kmovq 8(%r14), %k2
  kmovq 16(%r14), %k3
  kmovq 24(%r14), %k4
  kmovq 32(%r14), %k5
  kmovq 40(%r14), %k6
  kmovq 48(%r14), %k7
4:
  movq 0(%r12), %rdi
  movq 8(%r12), %rsi
  movq 16(%r12), %rdx
  movq 24(%r12), %rcx
  movq 32(%r12), %r8
  movq %r14, %rax
  testq %r13, %r13
  jz 5f
  pushfq
  orq $0x100, (%rsp)
  popfq
5:
  call *%rbx
sim_call_end:
  testq %r13, %r13
  jz 6f
  pushfq
  andq $-257, (%rsp)
  popfq
6:
  leaq -32(%rbp), %rsp
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
extern "C" void sim_call(Fn5 fn, const void* const* args, u64 step, const void* regjunk, u64 stackjunk);
extern "C" char sim_call_end[];
extern "C" { int sim_vec_level = 0; }

static void* sched_sp; static u64 sched_fs; static bool have_fsgs;
static inline void set_fs(u64 v) {
  if (have_fsgs) asm volatile("wrfsbase %0" ::"r"(v)); else syscall(SYS_arch_prctl, ARCH_SET_FS, v);
}
static inline u64 get_fs() {
  u64 v; if (have_fsgs) asm volatile("rdfsbase %0" : "=r"(v)); else syscall(SYS_arch_prctl, ARCH_GET_FS, &v); return v;
}

void Sim::log(const char* ev, u64 a, u64 b) {
  hash = mix(hash, u64(u8(ev[0])) | u64(u8(ev[1])) << 8); hash = mix(hash, a); hash = mix(hash, b);
  if (verbose && trace.size() < 4000) {
    bool deny = alloc_fail; alloc_fail = false;      // the simulator's own allocations always succeed
    char buf[160]; snprintf(buf, sizeof buf, "%s %llx %llx", ev, (unsigned long long)a, (unsigned long long)b);
    trace.push_back(buf); alloc_fail = deny;
  }
}
void Sim::violate(const std::string& what) {
  alloc_fail = false;
  if (viol.empty()) viol = what;
  log("VIOLATION", hash_str(what.c_str()));
  if (cur) yield(W_ABORT);
}
void Sim::set_page(int p, PageState s) {
  ps[p] = s;
  int prot = s == PS_RW ? PROT_READ | PROT_WRITE : (s == PS_RO || s == PS_DEMAND_RO) ? PROT_READ : PROT_NONE;
  mprotect(U + p * PG, PG, prot);
}
void Sim::begin_run(bool replay, u64 seed, const std::vector<u32>* list) {
  ch.replay = replay; ch.rng = Prng(seed); ch.pos = 0;
  if (list) ch.list = *list; else ch.list.clear();
  hash = 0x1234; viol.clear(); cur = nullptr; total_steps = 0; trace.clear(); faulted_this_run = false;
  for (auto& t : th) { t.live = false; t.stepping = t.in_window = false; t.nt_next = false; t.nest = 0; }
  for (auto& p : pend) p.clear();
  nt_model = false; on_step = nullptr; on_fault = nullptr; on_segv = nullptr;
  alloc_fail = alloc_violates = false; allow_futex = false; last_sig = 0;
}
// The simulator's own allocations always succeed.
struct Quiet { bool d = alloc_fail; Quiet() { alloc_fail = false; } ~Quiet() { alloc_fail = d; } };
static void tramp() {
  Thread& t = *S.cur;
  try { t.body(); } catch (...) { Quiet q; if (S.viol.empty()) S.viol = "an exception escaped"; }
  t.live = false; S.yield(W_DONE); __builtin_unreachable();
}
void Sim::spawn(int id, std::function<void()> body) {
  Thread& t = th[id]; t.id = id; t.body = std::move(body); t.live = true; t.steps = 0; t.quantum = ~0ull;
  t.stepping = t.in_window = false; t.nt_next = false; t.nest = 0;
  u64* sp = (u64*)(t.stack + STKSZ - 256);
  // frame popped by sim_swap: [mxcsr,fcw](16) r15 r14 r13 r12 rbx rbp ret
  *--sp = 0;                       // alignment / fake return
  *--sp = (u64)(void*)tramp;
  for (int i = 0; i < 6; ++i) *--sp = 0;
  sp -= 2; ((u32*)sp)[0] = 0x1f80; ((u32*)sp)[1] = 0; ((u32*)sp)[2] = 0x37f;
  t.sp = sp;
}
Why Sim::resume(Thread& t) {
  cur = &t; ++st.switches;
  set_fs(t.fs);
  sim_swap(&sched_sp, t.sp);
  set_fs(sched_fs);
  cur = nullptr;
  return t.why;
}
void Sim::yield(Why w) {
  Thread& t = *cur; t.why = w; if (w == W_ABORT) t.live = false;
  sim_swap(&t.sp, sched_sp);
}

// ---------------------------------------------------------------- NT stores
// Returns 1 for a non-temporal store, 2 for an instruction that drains
// write-combining buffers (sfence/mfence/lock/xchg mem), else 0.
static int classify(const u8* p) {
  bool p66 = false, pf3 = false, pf2 = false, lock = false; 
  for (;;) {
    if (*p == 0x66) p66 = true; else if (*p == 0xf3) pf3 = true; else if (*p == 0xf2) pf2 = true;
    else if (*p == 0xf0) lock = true; else if (*p == 0x2e || *p == 0x36 || *p == 0x3e || *p == 0x26 || *p == 0x64 || *p == 0x65) ;
    else break;
    ++p;
  }
  if (lock) return 2;
  if (*p == 0xc5) { u8 op = p[2]; return op == 0x2b || op == 0xe7 || op == 0xf7 ? 1 : 0; }
  if (*p == 0xc4) { if ((p[1] & 0x1f) == 1) { u8 op = p[3]; return op == 0x2b || op == 0xe7 || op == 0xf7; } return 0; }
  if (*p == 0x62) { if ((p[1] & 7) == 1) { u8 op = p[4]; return op == 0x2b || op == 0xe7; } return 0; }
  if ((*p & 0xf0) == 0x40) ++p;
  (void)pf2;
  if (*p == 0x86 || *p == 0x87) return (p[1] >> 6) != 3 ? 2 : 0;
  if (*p == 0x0f) {
    u8 op = p[1];
    if (op == 0x2b || op == 0xe7) return (op == 0xe7 && pf3) ? 0 : 1;
    if (op == 0xf7) return 1;                       // maskmovq / maskmovdqu
    if (op == 0xc3 && !p66) return 1;               // movnti
    if (op == 0xae && (p[2] == 0xf8 || p[2] == 0xf0) ) return 2; // sfence, mfence
  }
  return 0;
}

void Sim::nt_hide(int t) { auto& p = pend[t]; for (size_t i = p.size(); i-- > 0;) K[p[i].off] = p[i].oldv; }
void Sim::nt_show(int t) { auto& p = pend[t]; for (auto& e : p) K[e.off] = e.newv; }
// write-combining buffers drain line by line, in any order, at any time
void Sim::nt_drain_some(int t) {
  auto& p = pend[t]; if (p.empty() || !ch.chance(1, 3)) return;
  u32 line = p[ch.choose(p.size())].off / 64; ++st.nt_drains;
  p.erase(std::remove_if(p.begin(), p.end(), [&](const Pend& e) { return e.off / 64 == line; }), p.end());
  log("drain", t, line);
}

// ---------------------------------------------------------------- signals
static volatile sig_atomic_t alarm_fired;
static bool is_syscall(const u8* p) { return p[0] == 0x0f && (p[1] == 0x05 || p[1] == 0x34); }

static void on_trap(int, siginfo_t*, void* ucv) {
  auto* uc = (ucontext_t*)ucv; greg_t* g = uc->uc_mcontext.gregs;
  Thread* tp = S.cur;
  if (!tp) { g[REG_EFL] &= ~0x100ll; return; }
  Quiet quiet; Thread& t = *tp; u64 rip = g[REG_RIP];
  ++t.steps; ++st.steps; ++S.total_steps;
  S.hash = mix(S.hash, rip ^ (u64(t.id) << 56));
  if (S.verbose && S.trace.size() < 4000) { bool deny = alloc_fail; alloc_fail = false; char b[64]; snprintf(b, sizeof b, "  t%d step %llu rip %llx", t.id, (unsigned long long)t.steps, (unsigned long long)rip); S.trace.push_back(b); alloc_fail = deny; }
  if (S.nt_model) {
    if (t.nt_next) {
      t.nt_next = false;
      for (u64 i = PG; i < 3 * PG; ++i) if (S.nt_snap[i] != K[i]) { S.pend[t.id].push_back({i, S.nt_snap[i], K[i]}); }
      ++st.nt_stores; S.log("nt-store", t.id, S.pend[t.id].size());
    }
    int c = classify((const u8*)rip);
    if (c == 1) { t.nt_next = true; memcpy(S.nt_snap + PG, K + PG, 2 * PG); }
    else if (c == 2 && !S.pend[t.id].empty()) { S.pend[t.id].clear(); ++st.nt_drains; S.log("drain", t.id); }
  }
  if (is_syscall((const u8*)rip) && S.allow_futex && g[REG_RAX] == SYS_futex) { // contended lock: spurious wake-up, someone else runs
    ++st.futex_wakes; S.log("futex", t.id); g[REG_RIP] += 2; g[REG_RAX] = -EINTR; g[REG_RCX] = g[REG_RIP]; S.yield(W_YIELD); return; }
  if (is_syscall((const u8*)rip)) { if (!S.viol.size()) S.viol = "operation enters the operating system (syscall instruction)"; S.violate(S.viol); }
  if (S.on_step) S.on_step(t, uc);
  if (S.total_steps > S.step_cap) S.violate("no progress: operation did not finish within the step bound");
  if (t.quantum != ~0ull && --t.quantum == 0) { ++st.preempts; S.yield(W_QUANTUM); }
}

static void on_segv(int, siginfo_t* si, void* ucv) {
  auto* uc = (ucontext_t*)ucv; greg_t* g = uc->uc_mcontext.gregs;
  u64 a = (u64)si->si_addr; bool wr = g[REG_ERR] & 2; u64 rip = g[REG_RIP];
  Thread* tp = S.cur;
  if (!tp) { fprintf(stderr, "harness fault sig=%d addr=%llx rip=%llx\n", si->si_signo, (unsigned long long)a, (unsigned long long)rip); _exit(70); }
  Quiet quiet; Thread& t = *tp;
  if (si->si_signo == SIGSEGV && g[REG_TRAPNO] == 14 && a >= (u64)U && a < (u64)U + ARENA_PAGES * PG) {
    int p = (a - (u64)U) / PG; PageState s = S.ps[p];
    S.log("fault", a - (u64)U, wr | (s << 4));
    bool demand = s == PS_DEMAND || (s == PS_DEMAND_RO && wr) || (s == PS_DEMAND_R && !wr);
    if (demand) {
      ++st.demand_faults; S.faulted_this_run = true;
      if (++S.total_steps > S.step_cap) S.violate("no progress: endless page faults");
      t.fault_addr = a;
      if (S.on_fault) S.on_fault(t, a, wr);
      S.set_page(p, s == PS_DEMAND_R ? PS_RO : PS_RW);
      return;
    }
    char b[160]; snprintf(b, sizeof b, "%s of memory outside the operation's elements faulted (page %s)", wr ? "write" : "read",
                          s == PS_NONE ? "not mapped" : "read-only");
    S.violate(b);
  }
  S.last_sig = si->si_signo;
  if (S.on_segv && S.on_segv(t, a, wr, rip)) return;
  char b[160];
  if (si->si_signo == SIGFPE) snprintf(b, sizeof b, "arithmetic trap (SIGFPE)");
  else if (si->si_signo == SIGILL) snprintf(b, sizeof b, "illegal instruction");
  else if (si->si_signo == SIGABRT) snprintf(b, sizeof b, "terminate/abort called");
  else if (g[REG_TRAPNO] == 13) snprintf(b, sizeof b, "misaligned access (#GP)");
  else if (a >= (u64)OPR && a < (u64)OPR + NSLOTS * OPSLOT) snprintf(b, sizeof b, "%s", wr ? "write to an operand passed by const reference" : "bad operand access");
  else snprintf(b, sizeof b, "wild %s", wr ? "write" : "read");
  S.log("trap", si->si_signo);
  S.violate(b);
}
static void on_alarm(int) {
  if (alarm_fired > 1) { const char m[] = "simulator stuck\n"; if (write(2, m, sizeof m - 1)) {} _exit(73); }
  ++alarm_fired; itimerval it{}; it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, nullptr);
  Quiet quiet;
  if (S.cur) { if (S.viol.empty()) S.viol = "no progress: operation did not return"; S.yield(W_ABORT); }
}

static void* park(void* p) { *(u64*)p = get_fs(); __atomic_store_n((u64*)p + 1, 1, __ATOMIC_RELEASE); for (;;) pause(); return nullptr; }

void init() {
  have_fsgs = getauxval(AT_HWCAP2) & 2;
  __builtin_cpu_init();
  sim_vec_level = __builtin_cpu_supports("avx512bw") ? 2 : __builtin_cpu_supports("avx") ? 1 : 0;
  int fd = memfd_create("arena", 0); if (fd < 0 || ftruncate(fd, ARENA_PAGES * PG + NSLOTS * OPSLOT)) { perror("memfd"); _exit(71); }
  auto map = [&](u8* at, size_t n, int prot, off_t o) {
    if (mmap(at, n, prot, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, o) != at) { perror("mmap"); _exit(71); } };
  map(U, ARENA_PAGES * PG, PROT_NONE, 0); map(K, ARENA_PAGES * PG, PROT_READ | PROT_WRITE, 0);
  map(OPW, NSLOTS * OPSLOT, PROT_READ | PROT_WRITE, ARENA_PAGES * PG); map(OPR, NSLOTS * OPSLOT, PROT_READ, ARENA_PAGES * PG);
  for (int p = 0; p < ARENA_PAGES; ++p) S.ps[p] = PS_NONE;
  sched_fs = get_fs();
  sigset_t all, old; sigfillset(&all); pthread_sigmask(SIG_SETMASK, &all, &old);
  for (int i = 0; i < NT; ++i) {
    u8* s = STK + i * (STKSZ + 65536);
    if (mmap(s, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != s) { perror("mmap stk"); _exit(71); }
    S.th[i].stack = s; S.th[i].id = i;
    static u64 slot[NT][2]; pthread_t pt; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 65536);
    if (pthread_create(&pt, &at, park, slot[i])) { perror("pthread"); _exit(71); }
    while (!__atomic_load_n(&slot[i][1], __ATOMIC_ACQUIRE)) usleep(100);
    S.th[i].fs = slot[i][0];
  }
  pthread_sigmask(SIG_SETMASK, &old, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, nullptr);
  sa.sa_sigaction = on_segv; for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT}) sigaction(s, &sa, nullptr);
  memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_NODEFER; sigaction(SIGALRM, &sa, nullptr);
}

void call_window(Fn5 fn, const void* a, const void* b, const void* c, const void* d, void* e, bool step, u64 junk) {
  const void* args[5] = {a, b, c, d, e};
  alignas(64) u64 jb[32];
  if (junk) {
    Prng r(junk); u32 kind = junk % 5;
    for (auto& x : jb) x = kind == 0 ? ~0ull : kind == 1 ? 0x7ff0000000000001ull : kind == 2 ? 0x8000000080000000ull : r.next();
    ++st.dirty_regs; ++st.dirty_stack;
  }
  S.cur->stepping = step; S.cur->in_window = true;
  sim_call(fn, args, step || S.force_step, junk ? jb : nullptr, junk ? jb[31] | 1 : 0);
  S.cur->stepping = S.cur->in_window = false;
}

void call_window_nested(Fn5 fn, const void* a, void* e, bool step, u64 junk) {
  const void* args[5] = {a, nullptr, nullptr, nullptr, e};
  alignas(64) u64 jb[32];
  if (junk) { Prng r(junk ^ 0x5555); for (auto& x : jb) x = r.next(); ++st.dirty_regs; }
  u64 q = S.cur->quantum; S.cur->quantum = ~0ull;
  sim_call(fn, args, step || S.force_step, junk ? jb : nullptr, junk ? jb[31] | 1 : 0);
  S.cur->quantum = q;
}

bool isa_ok(const char* isa) {
  std::string s = isa;
  __builtin_cpu_init();
  if (s == "sse2" || s == "sse3") return true;
  if (s == "sse4") return __builtin_cpu_supports("sse4.2") && __builtin_cpu_supports("popcnt");
  if (s == "avx") return __builtin_cpu_supports("avx");
  if (s == "avx2") return __builtin_cpu_supports("avx2") && __builtin_cpu_supports("bmi2") && __builtin_cpu_supports("fma");
  if (s == "knl") return __builtin_cpu_supports("avx512f") && __builtin_cpu_supports("avx512cd") && __builtin_cpu_supports("avx2");
  if (s == "avx512") return __builtin_cpu_supports("avx512vl") && __builtin_cpu_supports("avx512bw") && __builtin_cpu_supports("avx512dq") && __builtin_cpu_supports("avx512cd");
  return false;
}

// ---------------------------------------------------------------- main loop
static std::string jstr(const std::string& s) {
  std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static std::string klass(const std::string& v) { auto p = v.find(" ["); return p == std::string::npos ? v : v.substr(0, p); }

static void arm(int ms) { itimerval it{}; it.it_value.tv_sec = ms / 1000; it.it_value.tv_usec = (ms % 1000) * 1000; setitimer(ITIMER_REAL, &it, nullptr); }

struct Result { std::string viol; u64 hash; std::vector<u32> list; std::string desc; };
static Result exec(Driver& d, size_t c, bool replay, u64 seed, const std::vector<u32>* list) {
  S.begin_run(replay, seed, list);
  S.log("case", hash_str(d.case_name(c).c_str()));
  alarm_fired = 0;
  d.run(c);
  alloc_fail = false;
  Result r{S.viol, S.hash, S.ch.list, d.last_desc};
  return r;
}

int drive(int argc, char** argv, Driver& d) {
  std::map<std::string, std::string> o;
  for (int i = 1; i + 1 < argc; i += 2) o[argv[i]] = argv[i + 1];
  auto geti = [&](const char* k, long long def) { return o.count(k) ? atoll(o[k].c_str()) : def; };
  init();
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  if (o.count("--list")) { for (size_t i = 0; i < d.ncases(); ++i) puts(d.case_name(i).c_str()); return 0; }
  if (o.count("--replay")) {
    // --replay "<case name>" --choices a,b,c
    std::string want = o["--replay"]; std::vector<u32> l;
    for (const char* p = o["--choices"].c_str(); *p;) { l.push_back(strtoul(p, (char**)&p, 10)); if (*p == ',') ++p; }
    S.force_step = geti("--force-step", 0);
    for (size_t i = 0; i < d.ncases(); ++i) if (d.case_name(i) == want) {
      S.verbose = geti("--verbose", 0);
      arm(60000); auto r = exec(d, i, true, 0, &l); arm(0);
      if (S.verbose) for (auto& t : S.trace) printf("# %s\n", t.c_str());
      printf("{\"replay\":true,\"case\":%s,\"violation\":%s,\"hash\":\"%016llx\",\"desc\":%s}\n", jstr(want).c_str(), jstr(r.viol).c_str(), (unsigned long long)r.hash, jstr(r.desc).c_str());
      return r.viol.empty() ? 0 : 1;
    }
    printf("{\"replay\":true,\"error\":\"no such case\"}\n"); return 3;
  }
  u64 seed = geti("--seed", 1); int shard = geti("--shard", 0), shards = geti("--shards", 1); long runs = geti("--runs", 4);
  int maxviol = geti("--maxviol", 3); bool dup = geti("--dup", 0); long first = geti("--first", 0);
  std::string only = o.count("--only") ? o["--only"] : "";
  std::map<std::string, int> seen; u64 cum = 0; std::unordered_set<u64> uniq; std::vector<std::string> samples; size_t ncase = 0;
  timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (size_t i = 0; i < d.ncases(); ++i) {
    if (int(i % shards) != shard) continue;
    std::string nm = d.case_name(i);
    if (!only.empty() && nm.find(only) == std::string::npos) continue;
    ++ncase; u64 ch = hash_str(nm.c_str());
    long nr = runs * d.weight(i);
    for (long r = first; r < first + nr; ++r) {
      u64 sd = mix(mix(mix(seed, ch), r), 77);
      arm(6000);
      auto res = exec(d, i, false, sd, nullptr);
      arm(0);
      ++st.runs; cum = mix(cum, res.hash); if (uniq.size() < 4000000) uniq.insert(res.hash);
      if (dup) { auto l = res.list; arm(20000); auto res2 = exec(d, i, true, 0, &l); arm(0);
        if (res2.hash != res.hash || res2.viol != res.viol) { printf("{\"nondet\":true,\"case\":%s,\"seed\":%llu}\n", jstr(nm).c_str(), (unsigned long long)sd); } }
      if (samples.size() < 3 && (st.runs % 37) == 1) samples.push_back(nm + ": " + res.desc + " hash=" + std::to_string(res.hash));
      if (!res.viol.empty()) {
        bool fs = false;
        if (alarm_fired) { // decide hangs deterministically: rerun single-stepped with a step bound
          S.force_step = true; fs = true; auto l = res.list; arm(60000); res = exec(d, i, true, 0, &l); arm(0); res.list = l;
          if (res.viol.empty()) { // slow machine? then it ends when it is given more time
            S.force_step = false; alarm_fired = 0; arm(60000); res = exec(d, i, true, 0, &l); arm(0); res.list = l;
            if (!alarm_fired && res.viol.empty()) { fs = false; continue; }
            if (alarm_fired) { printf("{\"error\":\"slow run not reproducible\",\"case\":%s}\n", jstr(nm).c_str()); continue; }
            fs = false;
          }
        }
        if (!fs && res.viol.compare(0, 11, "no progress") == 0) { // shrinking is to meet the step bound, not the alarm
          S.force_step = true; auto l = res.list; arm(60000); auto q = exec(d, i, true, 0, &l); arm(0);
          if (klass(q.viol) == klass(res.viol)) { fs = true; res = q; res.list = l; } else S.force_step = false;
        }
        std::string kl = klass(res.viol);
        if (seen[nm + kl]++ >= 1) { S.force_step = false; break; }
        // minimise: shorten, then zero / halve entries, same violation class
        std::vector<u32> best = res.list; int budget = fs ? 60 : 160;
        auto tryit = [&](const std::vector<u32>& l) { if (budget-- <= 0) return false; arm(6000); auto q = exec(d, i, true, 0, &l); arm(0); if (alarm_fired) budget -= 20; return klass(q.viol) == kl; };
        while (!best.empty() && best.back() == 0) best.pop_back();
        for (size_t cut = best.size() / 2; cut >= 1; cut /= 2)
          while (best.size() >= cut) { auto l = best; l.resize(l.size() - cut); if (tryit(l)) best = l; else break; }
        for (size_t k = 0; k < best.size(); ++k) if (best[k]) {
          auto l = best; l[k] = 0; if (tryit(l)) { best = l; continue; }
          l = best; l[k] = 1; if (best[k] > 1 && tryit(l)) { best = l; continue; }
          l = best; l[k] /= 2; if (best[k] > 3 && tryit(l)) best = l;
        }
        while (!best.empty() && best.back() == 0) { auto l = best; l.pop_back(); best = l; }
        arm(60000); auto a = exec(d, i, true, 0, &best); auto b = exec(d, i, true, 0, &best); arm(0);
        bool stable = a.hash == b.hash && a.viol == b.viol && klass(a.viol) == kl;
        printf("{\"viol\":%s,\"case\":%s,\"choices\":[", jstr(a.viol).c_str(), jstr(nm).c_str());
        for (size_t k = 0; k < best.size(); ++k) printf("%s%u", k ? "," : "", best[k]);
        printf("],\"hash\":\"%016llx\",\"stable\":%s,\"seed\":%llu,\"run\":%ld,\"orig_len\":%zu,\"force_step\":%s,\"desc\":%s}\n", (unsigned long long)a.hash, stable ? "true" : "false",
               (unsigned long long)seed, r, res.list.size(), fs ? "true" : "false", jstr(a.desc).c_str());
        fflush(stdout);
        S.force_step = false;
        if (--maxviol <= 0 || fs) goto out;
        break;
      }
    }
  }
out:
  clock_gettime(CLOCK_MONOTONIC, &t1);
  printf("{\"stats\":{");
#define F(x) "\"" #x "\":%llu,"
  printf(F(runs) F(steps) F(switches) F(demand_faults) F(preempts) F(evictions) F(agent_writes) F(nt_stores) F(nt_drains) F(handlers) F(crashes) F(throws),
    (unsigned long long)st.runs, (unsigned long long)st.steps, (unsigned long long)st.switches, (unsigned long long)st.demand_faults, (unsigned long long)st.preempts,
    (unsigned long long)st.evictions, (unsigned long long)st.agent_writes, (unsigned long long)st.nt_stores, (unsigned long long)st.nt_drains, (unsigned long long)st.handlers, (unsigned long long)st.crashes, (unsigned long long)st.throws);
  printf(F(ro_pages) F(absent_pages) F(dirty_regs) F(dirty_stack) F(dirty_padding) F(alloc_denied) F(fpmodes) F(yields) F(second_ops) F(alloc_faults) F(fp_traps) F(futex_wakes) F(pristine),
    (unsigned long long)st.ro_pages, (unsigned long long)st.absent_pages, (unsigned long long)st.dirty_regs, (unsigned long long)st.dirty_stack, (unsigned long long)st.dirty_padding,
    (unsigned long long)st.alloc_denied, (unsigned long long)st.fpmodes, (unsigned long long)st.yields, (unsigned long long)st.second_ops, (unsigned long long)st.alloc_faults, (unsigned long long)st.fp_traps, (unsigned long long)st.futex_wakes, (unsigned long long)st.pristine);
  printf("\"cases\":%zu,\"unique\":%zu},\"cum\":\"%016llx\",\"samples\":[", ncase, uniq.size(), (unsigned long long)cum);
  for (size_t k = 0; k < samples.size(); ++k) printf("%s%s", k ? "," : "", jstr(samples[k]).c_str());
  std::string ex; d.extra_json(ex);
  printf("]%s,\"wall\":%.2f}\n", ex.c_str(), (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9);
  return 0;
}
} // namespace sim

// ---------------------------------------------------------------- allocator seam
// (linked with -Wl,--wrap=malloc,...: every reference in the program, libraries included)
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
static inline bool deny() {
  if (__builtin_expect(sim::alloc_fail, 0) && sim::S.cur && sim::S.cur->in_window) {
    ++sim::alloc_calls; ++sim::st.alloc_denied;
    if (sim::alloc_violates) { sim::StepPause p; sim::alloc_fail = false; sim::S.violate("a vector operation allocates memory"); }
    return true;
  }
  return false;
}
void* __wrap_malloc(size_t n) { if (deny()) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (deny()) { errno = ENOMEM; return nullptr; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { if (deny()) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
}
