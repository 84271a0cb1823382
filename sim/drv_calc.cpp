// Properties C06 C07 C08 C09 C12: vector computations under preemption by other
// vector code, nested signal handlers, foreign floating-point state, dirty
// registers/stack/padding, failing allocator, throwing and suspended callbacks.
#include "ops_calc.h"
#include <algorithm>
#include <cfenv>
#include <cstdarg>
#include <signal.h>
#include <elf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
using namespace sim;
std::vector<CalcOp>& calc_ops() { static std::vector<CalcOp> v; return v; }
int cb_live = 0, calc_ref_inline = 0;
static std::string PROP;

// ---------------------------------------------------------------- statics of the code under test
// img: after the static initialisers; raw: as in the executable file, before any initialiser ran
struct Static { u8* p; size_t n; std::vector<u8> img, raw; };
static std::vector<Static> statics; struct TlsStatic { u64 off; size_t n; std::vector<u8> raw; }; static std::vector<TlsStatic> tls_statics;
thread_local long sim_tls_probe = 0; static u64 tls_delta; // address = thread pointer + tls_delta + offset in the TLS segment
static u64 fs_now() { u64 v; asm("mov %%fs:0, %0" : "=r"(v)); return v; }
static void load_statics(const char* fn) {
  std::vector<u8> exe; { FILE* f = fopen("/proc/self/exe", "r"); u8 buf[65536]; size_t k; while (f && (k = fread(buf, 1, sizeof buf, f))) exe.insert(exe.end(), buf, buf + k); if (f) fclose(f); }
  const Elf64_Ehdr* eh = (const Elf64_Ehdr*)exe.data(); const Elf64_Phdr* ph = (const Elf64_Phdr*)(exe.data() + eh->e_phoff); u64 tlsv = 0;
  for (int i = 0; i < eh->e_phnum; ++i) if (ph[i].p_type == PT_TLS) tlsv = ph[i].p_vaddr;
  auto initial = [&](u64 a, u64 n, std::vector<u8>& r) { r.assign(n, 0);
    for (int i = 0; i < eh->e_phnum; ++i) if (ph[i].p_type == PT_LOAD) for (u64 j = 0; j < n; ++j) if (a + j >= ph[i].p_vaddr && a + j < ph[i].p_vaddr + ph[i].p_filesz) r[j] = exe[a + j - ph[i].p_vaddr + ph[i].p_offset]; };
  FILE* f = fopen(fn, "r"); if (!f) return;
  unsigned long long a, n; char k;
  while (fscanf(f, " %c %llx %llx", &k, &a, &n) == 3) {
    if (k == 'P') { tls_delta = (u64)&sim_tls_probe - fs_now() - a; continue; }
    if (k == 'T') { TlsStatic s{a, (size_t)n, {}}; // (.tbss follows .tdata in the segment only)
      s.raw.assign(n, 0); for (int i = 0; i < eh->e_phnum; ++i) if (ph[i].p_type == PT_TLS) for (u64 j = 0; j < n; ++j) if (a + j < ph[i].p_filesz) s.raw[j] = exe[ph[i].p_offset + a + j];
      tls_statics.push_back(s); continue; }
    Static s{(u8*)a, (size_t)n, {}, {}}; s.img.assign(s.p, s.p + n); initial(a, n, s.raw); statics.push_back(s); }
  (void)tlsv; fclose(f);
}
static void reset_tls(u64 fs) { if (fs) for (auto& s : tls_statics) memcpy((u8*)(fs + tls_delta + s.off), s.raw.data(), s.n); }
static void reset_statics(bool pristine = false) {
  for (auto& s : statics) memcpy(s.p, pristine ? s.raw.data() : s.img.data(), s.n);
  if (tls_statics.size()) { reset_tls(fs_now()); for (auto& t : S.th) reset_tls(t.fs); }
}

// ---------------------------------------------------------------- floating-point state
struct FpState { u32 mx; u16 cw, sw; };
struct FpEnv { u32 w[7]; };
struct FpCall { const CalcOp* op; const void* slot; void* out; FpState in, after; u16 tag; bool done; };
static const FpState FP_DEFAULT = {0x1f80, 0x37f, 0};
static void fp_set(const FpState& s) {
  FpEnv e; asm volatile("fnstenv %0" : "=m"(e)); e.w[0] = (e.w[0] & 0xffff0000u) | s.cw; e.w[1] = (e.w[1] & 0xffff0000u) | (s.sw & 0x3f); e.w[2] |= 0xffff;
  asm volatile("fldenv %0\n\tldmxcsr %1" ::"m"(e), "m"(s.mx) : "memory");
}
static void fp_get(FpState& s, u16& tag) {
  FpEnv e; asm volatile("fnstenv %0\n\tfldenv %0\n\tstmxcsr %1" : "+m"(e), "=m"(s.mx)::"memory");
  s.cw = e.w[0]; s.sw = e.w[1]; tag = e.w[2];
}
[[gnu::noinline]] static void fp_run(const void* c_, const void*, const void*, const void*, void*) {
  FpCall* c = (FpCall*)c_;
  fp_set(c->in);
  c->op->run(c->slot, nullptr, nullptr, nullptr, c->out);
  asm volatile("" ::: "memory");
  fp_get(c->after, c->tag);
  fp_set(FP_DEFAULT);
  c->done = true;
}

// ---------------------------------------------------------------- callbacks
struct CbState { std::vector<u32> idx; std::vector<u64> vals; int calls = 0; int throw_at = -1; u32 yield_mask = 0; int nest_at = -1; bool deep = false; u64 hash = 0; bool bad = false; std::string why; int vc = 0; };
static CbState cbs[NT]; static std::function<void(int)> cb_nested;
[[gnu::noinline]] static int cb_record(int kind, int index, const u64* vals, int n) {
  Thread* t = S.cur; if (!t) return -1; CbState& s = cbs[t->id];
  if (s.deep) return -1;                                   // inside a nested operation
  int k = s.calls++; S.log("cb", kind, index);
  if (kind == 0) s.idx.push_back(index);
  for (int i = 0; i < n; ++i) { s.vals.push_back(vals[i]); s.hash = mix(s.hash, vals[i]); }
  if (s.calls > 4096) { S.violate("callback invoked endlessly"); }
  if (k == s.throw_at) { ++st.throws; return 1000 + k; }
  if (s.yield_mask >> (k & 31) & 1) { ++st.yields; S.yield(W_YIELD); }
  if (k == s.nest_at && cb_nested) { s.deep = true; cb_nested(t->id); s.deep = false; }
  return -1;
}
extern "C" void cb_event(int kind, int index, const u64* vals, int n) {
  int id; { StepPause p; id = cb_record(kind, index, vals, n); }
  if (id >= 0) throw CbThrown{id};
}

struct CalcDriver : Driver {
  std::vector<const CalcOp*> ops, pool;
  void select() {
    for (auto& o : calc_ops()) {
      bool cb = o.flags & (CF_CB | CF_CBR), take = !cb;
      if (PROP == "C09") take = cb;
      if (PROP == "C08") take = true;
      if (PROP == "C13") take = o.flags & CF_MASKED;
      if (take) ops.push_back(&o);
      if (!cb) pool.push_back(&o);
    }
    auto lt = [](auto* a, auto* b) { return a->name < b->name; };
    std::stable_sort(ops.begin(), ops.end(), lt); std::stable_sort(pool.begin(), pool.end(), lt);
    if (pool.empty()) pool = ops;
  }
  size_t ncases() override { return ops.size(); }
  std::string case_name(size_t i) override { return ops[i]->name; }

  // ---- pieces
  using Img = std::vector<u8>;
  static void* out(int s) { return op_rw(4 + s); }
  bool guarded(std::function<void()> f) {         // run harness-side library code inside a green thread
    S.spawn(3, std::move(f)); S.th[3].quantum = ~0ull;
    while (S.th[3].live) { Why w = S.resume(S.th[3]); if (w == W_ABORT) { if (S.viol.empty()) S.viol = "operation aborted"; return false; } }
    return S.viol.empty();
  }
  bool prep(const CalcOp& o, int slot, u64 seed, int vc, u32 pa, u32 pb, u32 pk) {
    memset(op_rw(slot), 0x5a, OPSLOT);
    return guarded([&, slot] { o.prep(op_rw(slot), seed, vc < 0 || (vc == VC_BENIGN && o.vc == VC_SHIFT) ? o.vc : vc, pa, pb, pk); });
  }
  bool preout(const CalcOp& o, int slot, u8 fill = 0xa5) {
    memset(out(slot), fill, OPSLOT);
    if (!o.preout) return true;
    return guarded([&, slot] { o.preout(out(slot)); });
  }
  Img image(const CalcOp& o, int slot) {
    u8 b[8192]; int n = 0; u32 m = 0;
    if (!guarded([&, slot] { n = o.ser(out(slot), b); })) return {};
    (void)m; return Img(b, b + n);
  }
  // one undisturbed execution
  Img solo(const CalcOp& o, int opslot, int outslot) {
    reset_statics();
    if (!preout(o, outslot)) return {};
    if (!guarded([&, opslot, outslot] { call_window(o.run, op_ro(opslot), nullptr, nullptr, nullptr, out(outslot), false, 0); })) return {};
    return image(o, outslot);
  }
  // one undisturbed stepped execution: how many instructions, and after which of them state with static storage duration
  // has just changed (nothing of the kind in the code under test: no need to look)
  struct Prof { u64 len = 0; std::vector<u64> hot; };
  Prof profile(const CalcOp& o, int opslot, int outslot, bool pristine) {
    Prof p; if (statics.empty() && tls_statics.empty()) return p;
    reset_statics(pristine); if (!preout(o, outslot)) return p;
    std::vector<u8> snap; u64 fs = S.th[3].fs;
    auto scan = [&](bool first) { size_t k = 0; bool ch = false;
      auto look = [&](const u8* a, size_t n) { if (first) snap.insert(snap.end(), a, a + n); else if (memcmp(a, &snap[k], n)) { memcpy(&snap[k], a, n); ch = true; } k += n; };
      for (auto& s : statics) look(s.p, s.n);
      if (fs) for (auto& s : tls_statics) look((const u8*)(fs + tls_delta + s.off), s.n);
      return ch; };
    scan(true);
    S.on_step = [&](Thread& t, ucontext_t*) { if (scan(false) && p.hot.size() < 200) p.hot.push_back(t.steps); p.len = t.steps; };
    guarded([&] { call_window(o.run, op_ro(opslot), nullptr, nullptr, nullptr, out(outslot), true, 0); });
    S.on_step = nullptr; reset_statics(); S.total_steps = 0;
    return p;
  }
  static std::string diff(const Img& a, const Img& b) {
    if (a.size() != b.size()) return "size";
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) { char s[80]; snprintf(s, sizeof s, "byte %zu is %02x instead of %02x", i, b[i], a[i]); return s; }
    return "";
  }
  static std::string hex(const u8* p, size_t n) { std::string r = "0x"; char b[4]; while (n--) { snprintf(b, 4, "%02x", p[n]); r += b; } return r; }
  u64 q(u32 kind) { Chooser& c = S.ch; switch (kind) { case 0: return 1 + c.choose(64); case 1: return 1; case 2: return 1 + c.choose(5); case 3: return 1 + c.choose(17); default: return 1 + c.choose(400); } }
  const CalcOp* pick() { return pool[S.ch.choose(pool.size())]; }
  // futex and friends: spurious wake-up of a blocked thread (C06 only)
  void fmt(const char* f, ...) __attribute__((format(printf, 2, 3))) { va_list a; va_start(a, f); char b[600]; vsnprintf(b, sizeof b, f, a); va_end(a); last_desc = b; }

  // ================================================================ C06
  void c06(const CalcOp& o) {
    Chooser& c = S.ch; int n = 2 + (c.choose(4) == 3);
    const CalcOp* op[3] = {&o}; int slot[3] = {0, 1, 2}; u8 keep[3][OPSLOT]; Img exp[3];
    bool shared = false;
    for (int t = 1; t < n; ++t) { op[t] = c.choose(2) ? pick() : &o; }
    for (int t = 0; t < n; ++t) {
      if (t && op[t] == &o && c.choose(3) == 2) { slot[t] = 0; shared = true; }
      else if (!prep(*op[t], t, c.choose(1 << 20), -1, 0, 0, 0)) return;
    }
    for (int t = 0; t < n; ++t) memcpy(keep[t], op_rw(slot[t]), OPSLOT);
    for (int t = 0; t < n; ++t) { exp[t] = solo(*op[t], slot[t], t); if (S.viol.size()) { S.viol += " [alone]"; return; } }
    Prof pr[3]; S.allow_futex = true; for (int t = 0; t < n; ++t) { pr[t] = profile(*op[t], slot[t], t, false); if (S.viol.size()) { S.viol += " [alone]"; return; } }
    int reps = 1 + (c.choose(3) == 2 ? 1 + c.choose(2) : 0); // the same computation again: shows what a call leaves behind
    for (int t = 0; t < n; ++t) { u8 fill = c.choose(2) ? 0xa5 : 0x17; for (int r = 0; r < reps; ++r) if (!preout(*op[t], t + 3 * r, fill)) return; }
    reset_statics();
    u32 qk = c.choose(5), bias = c.choose(3); bool step = c.choose(8) != 0 || bias; u32 junk = c.choose(3) ? 0 : 1 + c.choose(1000);
    S.allow_futex = true;
    for (int t = 0; t < n; ++t) S.spawn(t, [&, t] { for (int r = 0; r < reps; ++r) call_window(op[t]->run, op_ro(slot[t]), nullptr, nullptr, nullptr, out(t + 3 * r), step, junk); });
    fmt("threads=%d ops=%s,%s shared=%d quantum=%u repetitions=%d", n, op[1]->name.c_str(), n > 2 ? op[2]->name.c_str() : "-", shared, qk, reps);
    while (S.viol.empty()) {
      int live[3], m = 0; for (int t = 0; t < n; ++t) if (S.th[t].live) live[m++] = t;
      if (!m) break;
      int t = live[bias == 2 && m > 1 ? (c.choose(4) ? 0 : c.choose(m)) : c.choose(m)];
      S.th[t].quantum = step ? q(qk) : ~0ull;
      if (step && pr[t].hot.size() && c.choose(2)) { // up to just after the next change of static state
        auto h = std::upper_bound(pr[t].hot.begin(), pr[t].hot.end(), S.th[t].steps); if (h != pr[t].hot.end()) S.th[t].quantum = *h - S.th[t].steps + c.choose(3); }
      Why w = S.resume(S.th[t]); S.log("sched", t, w);
      if (w == W_ABORT && S.viol.empty()) S.viol = "operation aborted";
    }
    if (S.viol.size()) return;
    for (int t = 0; t < n; ++t) for (int r = 0; r < reps; ++r) {
      Img g = image(*op[t], t + 3 * r); if (S.viol.size()) return;
      auto d = diff(exp[t], g); if (d.size()) { S.viol = "the result differs from the one computed alone [thread " + std::to_string(t) + (r ? " call " + std::to_string(r + 1) : "") + " " + op[t]->name + ": " + d + "]"; return; }
    }
    for (int t = 0; t < n; ++t) if (memcmp(keep[t], op_rw(slot[t]), OPSLOT)) { S.viol = "an operand passed by const reference changed [thread " + std::to_string(t) + "]"; return; }
  }

  // ================================================================ C14
  // whatever happened before - nothing at all, not even the static initialisers; completed calls; calls that were
  // abandoned somewhere in the middle - an operation computes what it computes in a fresh, initialised program
  void c14(const CalcOp& o) {
    Chooser& c = S.ch; int n = 1 + c.choose(3); bool pristine = c.choose(2); const CalcOp* op[4] = {&o}; Img e;
    for (int j = 1; j <= n; ++j) op[j] = c.choose(3) ? &o : pick();
    int sl[4] = {}; // the same arguments again, or others
    for (int j = 0; j <= n; ++j) { if (op[j] != &o || c.choose(2)) sl[j] = j; if (sl[j] == j && !prep(*op[j], j, c.choose(1 << 20), -1, 0, 0, 0)) return; }
    e = solo(o, 0, 0); if (S.viol.size()) { S.viol += " [alone]"; return; }
    Prof pr[4]; S.allow_futex = true; for (int j = 1; j <= n; ++j) { pr[j] = profile(*op[j], sl[j], j, pristine); if (S.viol.size()) { S.viol += " [alone]"; reset_statics(); return; } }
    for (int j = 0; j <= n; ++j) if (!preout(*op[j], j, 0x33)) return;
    reset_statics(pristine); if (pristine) ++st.pristine;
    u32 junk = c.choose(3) ? 0 : 1 + c.choose(1000); bool gone = false; std::string d = pristine ? "before the static initialisers" : "initialised";
    for (int j = n; j >= 0 && S.viol.empty(); --j) {
      int t = c.choose(NT); bool fresh = c.choose(2), abandon = j && c.choose(4); u64 at = ~0ull;
      if (abandon) { u32 k = c.choose(3); auto& h = pr[j].hot;
        at = k == 2 && h.size() ? h[c.choose(h.size())] + c.choose(4) : 1 + c.choose(k == 0 ? 12 : pr[j].len ? u32(pr[j].len) : k == 1 ? 60 : 400); }
      if (fresh) reset_tls(S.th[t].fs); // a new thread
      bool step = abandon || c.choose(3) == 2 || gone;
      d += ", " + (op[j] == &o ? std::string(j && sl[j] == 0 ? "the same call" : "the operation") : op[j]->name) + " on " + (fresh ? "new " : "") + "thread " + std::to_string(t) + (abandon ? " abandoned after " + std::to_string(at) : "");
      S.spawn(t, [&, j] { call_window(op[j]->run, op_ro(sl[j]), nullptr, nullptr, nullptr, out(j), step, junk); });
      S.th[t].quantum = at; Why w = S.resume(S.th[t]); S.log("call", j, w); if (S.viol.size()) break;
      if (w == W_QUANTUM && abandon) { ++st.crashes; S.th[t].live = false; gone = true; }
      else if (w == W_YIELD) S.viol = "an operation waits for one that was abandoned [" + op[j]->name + "]";
      else if (w == W_ABORT) S.viol = "operation aborted";
    }
    last_desc = d;
    if (S.viol.size()) { reset_statics(); return; }
    Img g = image(o, 0); reset_statics(); if (S.viol.size()) return;
    auto x = diff(e, g); if (x.size()) S.viol = "the result depends on what happened before [" + x + "]";
  }

  // ================================================================ C12
  void c12(const CalcOp& o) {
    Chooser& c = S.ch; int depth = 1 + (c.choose(3) == 2); int n = 1 + depth;
    const CalcOp* op[3] = {&o}; Img exp[3];
    for (int t = 1; t < n; ++t) op[t] = c.choose(2) ? pick() : &o;
    for (int t = 0; t < n; ++t) if (!prep(*op[t], t, c.choose(1 << 20), -1, 0, 0, 0)) return;
    for (int t = 0; t < n; ++t) { exp[t] = solo(*op[t], t, t); if (S.viol.size()) { S.viol += " [alone]"; return; } }
    Prof pr = profile(o, 0, 0, false); if (S.viol.size()) { S.viol += " [alone]"; return; }
    for (int t = 0; t < n; ++t) if (!preout(*op[t], t, 0x33)) return;
    reset_statics();
    alloc_fail = alloc_violates = true; alloc_calls = 0; ++st.alloc_faults;
    // arrival: early instructions are as likely as late ones
    u32 k = c.choose(4); u64 at[2] = {pr.hot.size() && k >= 2 ? pr.hot[c.choose(pr.hot.size())] + c.choose(4) : 1 + c.choose(k == 0 ? 12 : k == 1 ? 60 : k == 2 ? 300 : 2500), 1 + c.choose(c.choose(2) ? 200 : 12)};
    u32 again = c.choose(4) == 3 ? 1 + c.choose(40) : 0;
    u32 junk = c.choose(3) ? 0 : 1 + c.choose(1000); int handled = 0; u64 mark = 0; bool second = false;
    fmt("handlers=%d at %llu,%llu again+%u ops=%s,%s", depth, (unsigned long long)at[0], (unsigned long long)at[1], again, op[1]->name.c_str(), n > 2 ? op[2]->name.c_str() : "-");
    S.on_step = [&](Thread& t, ucontext_t*) {
      auto handler = [&](int level) {
        ++st.handlers; ++handled; ++t.nest; S.log("handler", level, t.steps); mark = t.steps;
        alloc_fail = true;
        call_window_nested(op[level]->run, op_ro(level), out(level), level == 1 && (depth == 2 || c.choose(2)), junk);
        alloc_fail = false; --t.nest; S.log("handler-end", level);
      };
      if (t.nest == 0 && t.steps >= at[0] && !handled) { handler(1); mark = t.steps; }
      else if (t.nest == 1 && depth == 2 && !second && t.steps >= mark + at[1]) { second = true; handler(2); }
      else if (t.nest == 0 && handled && again && t.steps >= mark + again) { // a second signal: compare the first handler's result, then rerun it
        again = 0; handler(1); }
    };
    S.spawn(0, [&] { call_window(o.run, op_ro(0), nullptr, nullptr, nullptr, out(0), true, junk); });
    S.th[0].quantum = ~0ull;
    Why w = S.resume(S.th[0]); S.on_step = nullptr; alloc_fail = false;
    if (w == W_ABORT && S.viol.empty()) S.viol = "operation aborted";
    if (S.viol.size()) return;
    if (alloc_calls) { S.viol = "a vector operation allocates memory"; return; }
    for (int t = 0; t < n; ++t) {
      if (t == 1 && !handled) continue; if (t == 2 && !second) continue;
      Img g = image(*op[t], t); if (S.viol.size()) return;
      auto d = diff(exp[t], g); if (d.size()) { S.viol = std::string(t ? "the handler's result" : "the interrupted operation's result") + " differs from the one computed alone [" + op[t]->name + ": " + d + "]"; return; }
    }
  }

  // ================================================================ C07
  FpState fpmode() {
    Chooser& c = S.ch; FpState s = FP_DEFAULT; ++st.fpmodes;
    u32 rc = c.choose(4); s.mx |= rc << 13; s.cw |= rc << 10;
    u32 fl = c.choose(4); if (fl == 2) { s.mx |= 0x8000; } if (fl == 3) { s.mx |= 0x8040; }
    u32 sticky = c.choose(64); s.mx |= sticky; s.sw |= c.choose(2) ? sticky : c.choose(64);
    return s;
  }
  void c07(const CalcOp& o) {
    Chooser& c = S.ch; bool two = c.choose(3) == 2; int n = 1 + two;
    const CalcOp* op[2] = {&o, nullptr}; FpCall fc[2]; 
    bool unmask = c.choose(6) == 5; int vc = -1;
    if (two) op[1] = c.choose(2) ? pick() : &o;
    for (int t = 0; t < n; ++t) {
      if (unmask) vc = VC_BENIGN;
      if (!prep(*op[t], t, c.choose(1 << 20), vc, 0, 0, 0)) return;
      if (!preout(*op[t], t)) return;
      fc[t] = {op[t], op_ro(t), out(t), fpmode(), {}, 0, false};
      if (unmask) { u32 m = c.choose(16); // any of IE ZE OE UE, never raised by benign lanes unless the C library does so itself
        u32 bits = (m & 1 ? 1 : 0) | (m & 2 ? 4 : 0) | (m & 4 ? 8 : 0) | (m & 8 ? 16 : 0);
        fc[t].in.mx &= ~(bits << 7); fc[t].in.mx &= ~bits; fc[t].in.cw &= ~bits; fc[t].in.sw &= ~bits; }
    }
    bool step = two || c.choose(4) == 3; u32 qk = c.choose(5);
    fmt("threads=%d mxcsr=%04x cw=%03x sw=%02x%s other=%s", n, fc[0].in.mx, fc[0].in.cw, fc[0].in.sw, unmask ? " traps enabled" : "", two ? op[1]->name.c_str() : "-");
    reset_statics();
    bool fpe = false;
    S.on_segv = [&](Thread&, u64, bool, u64) { if (unmask && S.last_sig == SIGFPE) { fpe = true; S.yield(W_ABORT); } return false; };
    S.allow_futex = true;
    for (int t = 0; t < n; ++t) S.spawn(t, [&, t] { call_window(fp_run, &fc[t], nullptr, nullptr, nullptr, nullptr, step, 0); });
    while (S.viol.empty() && !fpe) {
      int m = (S.th[0].live ? 1 : 0) | (two && S.th[1].live ? 2 : 0); if (!m) break;
      int t = m == 3 ? int(c.choose(2)) : m - 1;
      S.th[t].quantum = step ? q(qk) : ~0ull; Why w = S.resume(S.th[t]); S.log("sched", t, w);
      if (w == W_ABORT && S.viol.empty() && !fpe) S.viol = "operation aborted";
    }
    S.on_segv = nullptr;
    if (S.viol.size() || fpe) { if (fpe) { ++st.fp_traps; S.log("fpe"); } return; }
    for (int t = 0; t < n; ++t) {
      FpCall& f = fc[t]; char b[200]; const char* who = op[t]->name.c_str();
      if ((f.in.mx ^ f.after.mx) & 0xffc0) { snprintf(b, sizeof b, "the operation changed the caller's MXCSR control bits [%s: %04x -> %04x]", who, f.in.mx, f.after.mx); S.viol = b; return; }
      if (f.in.mx & ~f.after.mx & 0x3f) { snprintf(b, sizeof b, "the operation cleared SSE exception flags that were already raised [%s: %02x -> %02x]", who, f.in.mx & 63, f.after.mx & 63); S.viol = b; return; }
      if ((f.in.cw ^ f.after.cw) & 0xf3f) { snprintf(b, sizeof b, "the operation changed the x87 control word [%s: %03x -> %03x]", who, f.in.cw, f.after.cw); S.viol = b; return; }
      if (f.in.sw & ~f.after.sw & 0x3f) { snprintf(b, sizeof b, "the operation cleared x87 exception flags that were already raised [%s: %02x -> %02x]", who, f.in.sw & 63, f.after.sw & 63); S.viol = b; return; }
      if (f.tag != 0xffff) { snprintf(b, sizeof b, "the operation left the x87 register stack in use [%s: tag %04x]", who, f.tag); S.viol = b; return; }
    }
    if (!(o.flags & CF_REF) || (fc[0].in.mx & 0x8040)) return;
    Img got = image(o, 0); if (S.viol.size()) return;
    auto ref = [&](FpState m, int inl) { u8 b[8192]; int len = 0; calc_ref_inline = inl; guarded([&] { fp_set(m); asm volatile("" ::: "memory"); len = o.ref(op_ro(0), b); asm volatile("" ::: "memory"); fp_set(FP_DEFAULT); }); return Img(b, b + len); };
    FpState m = FP_DEFAULT; m.mx |= fc[0].in.mx & 0x6000; m.cw |= fc[0].in.cw & 0xc00;
    Img e = ref(m, 0); if (S.viol.size()) return; Img ei = ref(m, 1); if (S.viol.size()) return;
    static const char* rn[] = {"to nearest", "downward", "upward", "toward zero"};
    auto lanes = [&](const Img& a) { if (a.size() != got.size() || ei.size() != got.size()) return std::string("size"); size_t w = got.size() / o.N;
      for (int l = 0; l < o.N; ++l) if (memcmp(&got[l * w], &a[l * w], w) && memcmp(&got[l * w], &ei[l * w], w)) return "lane " + std::to_string(l) + " of " + std::to_string(o.N) + ": " + hex(&got[l * w], w) + " instead of " + hex(&a[l * w], w);
      return std::string(); };
    auto d = lanes(e);
    if (d.size()) { S.viol = "the result is not the one the current rounding direction gives [rounding " + std::string(rn[m.mx >> 13 & 3]) + ": " + d + "]"; return; }
    if (o.flags & CF_IGN) { e = ref(FP_DEFAULT, 0); if (S.viol.size()) return; d = lanes(e);
      if (d.size()) S.viol = "the result depends on the rounding direction [rounding " + std::string(rn[m.mx >> 13 & 3]) + ": " + d + "]"; }
  }

  // ================================================================ C08
  // Operations that must not raise FE_INVALID/FE_DIVBYZERO on ordinary lanes, whatever is in the padding: everything
  // on integers, the operations IEEE 754 calls quiet, and division (whose padding the library promises to defuse).
  static bool quiet(const CalcOp& o) {
    if (o.name.find("float/") == std::string::npos && o.name.find("double/") == std::string::npos) return true;
    static const char* q[] = {"neg", "plus1", "copy", "bcast", "setlane", "where_assign", "where_bcast", "where_mask", "eq", "ne", "div_", "divs", "sdiv", "abs_", "fabs_",
      "isfinite_", "isinf_", "isnan_", "isnormal_", "signbit_", "fpclassify_", "copysign_", "isgreater_", "isless_", "islessgreater_", "isunordered_", "islessequal_", "isgreaterequal_",
      "tofixed", "split2", "split3", "concat2", "concat3", "q_allcmp", "q_nonecmp", "k_div", "k_quot", "k_blend", "k_mask", "split_arr", "concat_arr", "genl"};
    if (o.opn[0] == 'm' && o.opn[1] != 'i' && o.opn[1] != 'a' && o.opn[1] != 'u' && o.opn[1] != 'o' ) return true; // mand mnot ... mask operators
    if (o.opn == "mand" || o.opn == "mor") return true;
    for (auto* n : q) if (o.opn == n) return true;
    return o.opn[0] == 'q' && o.opn[1] == '_' && o.opn != "q_popcmp" && o.opn != "q_cmpchain";
  }
  void c08(const CalcOp& o) {
    Chooser& c = S.ch; u64 seed = c.choose(1 << 20); bool cb = o.flags & (CF_CB | CF_CBR);
    bool traps = c.choose(4) == 3 && quiet(o); int vc = traps ? VC_BENIGN : -1;
    FpState fs = FP_DEFAULT; if (traps) fs.mx &= ~((1 | 4) << 7), fs.cw &= ~(1 | 4); // invalid and divide-by-zero trap
    FpCall fc = {&o, op_ro(0), out(0), fs, {}, 0, false}; bool fpe = false;
    if (cb) cbs[0] = CbState();
    // clean execution
    if (!prep(o, 0, seed, vc, 0, 0, 0) || !preout(o, 0, 0)) return;
    reset_statics();
    S.on_segv = [&](Thread&, u64, bool, u64) { if (traps && S.last_sig == SIGFPE) { fpe = true; S.yield(W_ABORT); } return false; };
    auto go = [&](bool step, u32 junk) {
      S.spawn(0, [&, step, junk] { call_window(fp_run, &fc, nullptr, nullptr, nullptr, nullptr, step, junk); }); 
      while (S.th[0].live) { S.th[0].quantum = ~0ull; Why w = S.resume(S.th[0]); S.log("sched", 0, w); if (w == W_ABORT) { if (!fpe && S.viol.empty()) S.viol = "operation aborted"; break; } }
      return S.viol.empty() && !fpe; };
    cbs[0] = CbState(); go(false, 0);
    if (fpe) { S.on_segv = nullptr; S.viol = "an operation that must not trap for these lanes traps (SIGFPE)"; S.log("VIOLATION"); return; }
    if (S.viol.size()) { S.viol += " [clean environment]"; return; }
    Img e = image(o, 0); if (S.viol.size()) return; u64 cbh = cbs[0].hash; int cbn = cbs[0].calls;
    // dirty execution
    u32 pa = c.choose(6), pb = c.choose(6), pk = c.choose(144); bool step = c.choose(5) == 4; u32 junk = c.choose(4) ? 1 + c.choose(1000) : 0;
    if (pa | pb | pk) ++st.dirty_padding;
    fmt("seed=%llu padding=%u,%u,%u registers/stack=%u %s%s", (unsigned long long)seed, pa, pb, pk, junk, step ? "stepped (signal frames overwrite dead stack)" : "", traps ? " FE_INVALID|FE_DIVBYZERO trap" : "");
    if (!prep(o, 0, seed, vc, pa, pb, pk) || !preout(o, 0, c.choose(2) ? 0xff : 0x7f)) return;
    reset_statics(); cbs[0] = CbState();
    go(step, junk);
    S.on_segv = nullptr;
    if (fpe) { S.viol = "padding or stale data makes the operation trap (SIGFPE)"; S.log("VIOLATION"); return; }
    if (S.viol.size()) { return; }
    Img g = image(o, 0); if (S.viol.size()) return;
    auto d = diff(e, g); if (d.size()) { S.viol = "the result depends on something outside the lanes [" + d + "]"; return; }
    if (cb && (cbs[0].hash != cbh || cbs[0].calls != cbn)) S.viol = "the values handed to user code depend on something outside the lanes";
  }

  // ================================================================ C13
  // the selected lanes alone decide; unselected ones are left alone and never make integer operations trap
  void c13(const CalcOp& o) {
    Chooser& c = S.ch; u64 seed = c.choose(1 << 20), ps = 1 + c.choose(1 << 16); bool two = c.choose(3) == 2;
    u32 pa = c.choose(6), pb = c.choose(6), pk = c.choose(144), junk = c.choose(3) ? 0 : 1 + c.choose(1000); bool step = two || c.choose(4) == 3; u32 qk = c.choose(5);
    bool fp = o.name.find("float/") != std::string::npos || o.name.find("double/") != std::string::npos, traps = !fp && c.choose(3) == 2;
    const CalcOp* p = two ? (c.choose(2) ? pick() : &o) : nullptr; Img e0, e1;
    if (!prep(o, 0, seed, -1, 0, 0, pk) || !preout(o, 0)) return;
    if (!(o.flags & CF_REF)) { e0 = solo(o, 0, 0); if (S.viol.size()) { S.viol += " [harmless unselected lanes]"; return; } }
    if (!prep(o, 0, seed, -1, pa, pb, pk) || !guarded([&] { o.poison(op_rw(0), ps); })) return;
    if (two) { if (!prep(*p, 1, c.choose(1 << 20), -1, 0, 0, 0)) return; e1 = solo(*p, 1, 1); if (S.viol.size()) { S.viol += " [alone]"; return; } if (!preout(*p, 1)) return; }
    u8 keep[OPSLOT]; memcpy(keep, op_rw(0), OPSLOT);
    if (!preout(o, 0, c.choose(2) ? 0xff : 0x11)) return;
    fmt("seed=%llu unselected=%llu padding=%u,%u mask=%u%s other=%s", (unsigned long long)seed, (unsigned long long)ps, pa, pb, pk, traps ? " FE_INVALID|FE_DIVBYZERO|FE_OVERFLOW trap" : "", two ? p->name.c_str() : "-");
    FpState fs = FP_DEFAULT; if (traps) fs.mx &= ~((1 | 4 | 8) << 7), fs.cw &= ~(1 | 4 | 8);
    FpCall fc = {&o, op_ro(0), out(0), fs, {}, 0, false};
    reset_statics(); bool fpe = false; ++st.dirty_padding;
    S.on_segv = [&](Thread& t, u64, bool, u64) { if (S.last_sig == SIGFPE && t.id == 0) { fpe = true; S.yield(W_ABORT); } return false; };
    S.allow_futex = true;
    S.spawn(0, [&] { call_window(fp_run, &fc, nullptr, nullptr, nullptr, nullptr, step, junk); });
    if (two) S.spawn(1, [&] { call_window(p->run, op_ro(1), nullptr, nullptr, nullptr, out(1), step, junk); });
    while (S.viol.empty() && !fpe) {
      int m = (S.th[0].live ? 1 : 0) | (two && S.th[1].live ? 2 : 0); if (!m) break;
      int t = m == 3 ? int(c.choose(2)) : m - 1;
      S.th[t].quantum = step ? q(qk) : ~0ull; Why w = S.resume(S.th[t]); S.log("sched", t, w);
      if (w == W_ABORT && S.viol.empty() && !fpe) S.viol = "operation aborted";
    }
    S.on_segv = nullptr;
    if (fpe) { ++st.fp_traps; S.viol = "unselected lanes make the operation trap (SIGFPE)"; S.log("VIOLATION"); return; }
    if (S.viol.size()) return;
    if (memcmp(keep, op_rw(0), OPSLOT)) { S.viol = "an operand passed by const reference changed"; return; }
    Img g = image(o, 0); if (S.viol.size()) return;
    if (o.flags & CF_REF) { u8 eb[8192]; int n = 0; if (!guarded([&] { n = o.ref(op_ro(0), eb); })) return; e0.assign(eb, eb + n); }
    else if (g.size() == e0.size() && o.opn[0] == 'w') { // differential: only the selected lanes are comparable, the others keep their operand
      u8 kb[256]; int n = o.N; size_t z = g.size() / n; u8 eb[8192]; if (!guarded([&] { o.lanes_of_k(op_ro(0), kb, eb); })) return;
      for (int i = 0; i < n; ++i) if (!kb[i]) memcpy(&e0[i * z], eb + i * z, z);
    }
    auto d = diff(e0, g); if (d.size()) { S.viol = "the result is not what the selected lanes determine [" + d + "]"; return; }
    if (two) { Img g1 = image(*p, 1); if (S.viol.empty()) { auto d = diff(e1, g1); if (d.size()) S.viol = "the other thread's result changed [" + p->name + ": " + d + "]"; } }
  }

  // ================================================================ C09
  void c09(const CalcOp& o) {
    Chooser& c = S.ch; u64 seed = c.choose(1 << 20); u32 pa = 1 + c.choose(5), pk = c.choose(144); int live0;
    bool two = c.choose(2);
    const CalcOp* p = nullptr; if (two) p = c.choose(3) == 2 ? ops[c.choose(ops.size())] : pick();
    for (auto& x : cbs) x = CbState(); cb_live = 0;
    if (!prep(o, 0, seed, VC_CB, pa, pa, pk)) return;
    if (two && !prep(*p, 1, c.choose(1 << 20), -1, 0, 0, 0)) return;
    Img e1; if (two) { e1 = solo(*p, 1, 1); if (S.viol.size()) { S.viol += " [alone]"; return; } if (!preout(*p, 1)) return; }
    if (!preout(o, 0)) return; Img before = image(o, 0); if (S.viol.size()) return;
    u8 keep[OPSLOT]; memcpy(keep, op_rw(0), OPSLOT); reset_statics();
    for (auto& x : cbs) x = CbState(); cb_live = live0 = 0;
    CbState& s = cbs[0]; u32 th = c.choose(3);
    if (th == 2) s.throw_at = (o.flags & CF_CB) ? c.choose(o.N) : c.choose(6);
    s.yield_mask = two ? (c.choose(2) ? ~0u : c.choose(1u << 31)) : 0;
    if (c.choose(4) == 3) { // re-entrant: the callback itself runs vector code
      s.nest_at = (o.flags & CF_CB) ? c.choose(o.N) : c.choose(4);
      const CalcOp* r = pick(); if (!prep(*r, 2, c.choose(1 << 20), -1, 0, 0, 0)) return;
      Img er = solo(*r, 2, 2); if (S.viol.size()) { S.viol += " [alone]"; return; }
      if (!preout(*r, 2)) return; reset_statics();
      cb_nested = [&, r](int) { ++st.second_ops; r->run(op_ro(2), nullptr, nullptr, nullptr, out(2)); };
    }
    bool step = c.choose(12) == 11; u32 qk = c.choose(5); u32 junk = c.choose(2) ? 1 + c.choose(1000) : 0;
    fmt("seed=%llu padding=%u mask-padding=%u throw_at=%d yields=%x nested_at=%d other=%s", (unsigned long long)seed, pa, pk, s.throw_at, s.yield_mask, s.nest_at, two ? p->name.c_str() : "-");
    S.allow_futex = true; S.step_cap = 3000000;
    S.spawn(0, [&] { call_window(o.run, op_ro(0), nullptr, nullptr, nullptr, out(0), step && th != 2, junk); });
    if (two) S.spawn(1, [&] { call_window(p->run, op_ro(1), nullptr, nullptr, nullptr, out(1), step, junk); });
    while (S.viol.empty()) {
      int m = (S.th[0].live ? 1 : 0) | (two && S.th[1].live ? 2 : 0); if (!m) break;
      int t = m == 3 ? int(c.choose(2)) : m - 1;
      S.th[t].quantum = step ? q(qk) : ~0ull; Why w = S.resume(S.th[t]); S.log("sched", t, w);
      if (w == W_ABORT && S.viol.empty()) S.viol = "operation aborted";
    }
    cb_nested = nullptr; S.step_cap = 200000;
    if (S.viol.size()) return;
    char b[240]; int other_live = 0; 
    if (cb_live != live0 + other_live) { snprintf(b, sizeof b, "callback objects leaked or destroyed twice [%d alive afterwards]", cb_live); S.viol = b; return; }
    bool thrown = s.throw_at >= 0 && s.calls > s.throw_at; int id; memcpy(&id, (u8*)out(0) + 8192, 4);
    if (thrown && id != 1000 + s.throw_at) { snprintf(b, sizeof b, "the callback's exception was not delivered [id %d]", id); S.viol = b; return; }
    if (!thrown && id != -1) { S.viol = "an exception nobody threw"; return; }
    if (thrown && s.calls != s.throw_at + 1) { S.viol = "callbacks invoked after one threw"; return; }
    if (o.flags & CF_CB) {
      std::vector<u32> cnt(o.N, 0);
      for (u32 i : s.idx) { if (i >= u32(o.N)) { snprintf(b, sizeof b, "generator invoked for an index that is no lane [%u of %d]", i, o.N); S.viol = b; return; } if (cnt[i]++) { snprintf(b, sizeof b, "generator invoked twice for a lane [%u]", i); S.viol = b; return; } }
      if (!thrown && int(s.idx.size()) != o.N) { snprintf(b, sizeof b, "generator not invoked for every lane [%zu of %d]", s.idx.size(), o.N); S.viol = b; return; }
    } else {
      for (u64 v : s.vals) if (v & 1 || (v == 0 && o.opn != "reduce_where_cb" /* there, 0 is the caller's identity element */) || (o.name.find("float/") != std::string::npos || o.name.find("double/") != std::string::npos ? int64_t(v) < 0 || v > 2000 * 64 * 2 : false)) { snprintf(b, sizeof b, "the reduction handed its callback a value that no lane contributed [%lld]", (long long)v); S.viol = b; return; }
    }
    if (memcmp(keep, op_rw(0), OPSLOT)) { S.viol = "an operand passed by const reference changed"; return; }
    Img g = image(o, 0); if (S.viol.size()) return;
    if (thrown) {
      if (o.flags & CF_ASSIGN) { auto cut = [](Img x) { x.resize(x.size() - 4); return x; }; auto d = diff(cut(before), cut(g)); if (d.size()) S.viol = "the destination changed although the callback threw [" + d + "]"; }
    } else {
      Img e; u8 eb[8192]; int n = 0; if (!guarded([&] { n = o.ref(op_ro(0), eb); })) return; e.assign(eb, eb + n);
      auto d = diff(e, g); if (d.size()) { S.viol = "the result does not consist of every lane exactly once [" + d + "]"; return; }
    }
    if (two && S.viol.empty()) { Img g1 = image(*p, 1); if (S.viol.empty()) { auto d = diff(e1, g1); if (d.size() ) S.viol = "the other thread's result changed [" + p->name + ": " + d + "]"; } }
  }

  void run(size_t i) override {
    const CalcOp& o = *ops[i]; last_desc.clear(); S.allow_futex = false; cb_nested = nullptr;
    if (PROP == "C06") c06(o); else if (PROP == "C12") c12(o); else if (PROP == "C07") c07(o); else if (PROP == "C08") c08(o); else if (PROP == "C13") c13(o); else if (PROP == "C14") c14(o); else c09(o);
  }
};
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) { if (!strcmp(argv[i], "--prop")) PROP = argv[i + 1]; if (!strcmp(argv[i], "--statics")) load_statics(argv[i + 1]); }
  static CalcDriver d; d.select();
  return drive(argc, argv, d);
}
