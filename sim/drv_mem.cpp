// Properties C01 C02 C03 C04 C05 C11: vector <-> memory operations under
// preemption, concurrent neighbours, page faults, weak store ordering, crashes.
#include "ops_mem.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cstdlib>
using namespace sim;
std::vector<MemOp>& mem_ops() { static std::vector<MemOp> v; return v; }

static std::string PROP;
constexpr u64 LO = PG, HI = 3 * PG;   // usable arena bytes [LO,HI)

struct MemDriver : Driver {
  std::vector<const MemOp*> ops;
  MemDriver() {}
  void select() {
    for (auto& o : mem_ops()) {
      bool st = o.kind & (K_MSTORE | K_STORE), take = false;
      if (PROP == "C01") take = !o.is_mask && o.kind == K_MSTORE;
      if (PROP == "C02") take = !o.is_mask && o.kind == K_MLOAD;
      if (PROP == "C03") take = !o.is_mask && (o.kind & (K_STORE | K_LOAD | K_CTOR));
      if (PROP == "C04") take = o.is_mask;
      if (PROP == "C05") take = st;
      if (PROP == "C11") take = st && o.unit_atomic;
      if (take) ops.push_back(&o);
    }
    std::stable_sort(ops.begin(), ops.end(), [](auto* a, auto* b) { return a->name < b->name; });
  }
  size_t ncases() override { return ops.size(); }
  std::string case_name(size_t i) override { return ops[i]->name; }

  // ---- state of one run
  struct Op { const MemOp* o; int slot; u64 vseed, mseed; u8 sel[64]; u64 base; u8 exp[64 * 16]; int tid; bool done; u32 pad = 0; };
  Op A, B; bool haveB; u8 shadow[ARENA_PAGES * PG]; int nagents; Op* owner[HI]; // owner of a byte
  u16 lane_of[HI];
  u64 wlo, whi; u32 agent_mode; bool flag_seen; u64 flag_off; u64 agent_ctr;
  bool is_store(const MemOp* o) { return o->kind & (K_MSTORE | K_STORE); }

  void pick_mask(Op& x) {
    int N = x.o->N; Chooser& c = S.ch;
    if (!x.o->has_mask) { memset(x.sel, 1, N); return; }
    memset(x.sel, 0, 64);
    if (x.o->known) { for (int i = 0; i < N; ++i) x.sel[i] = x.o->known == 1 || i % 3 == 1; return; }
    u32 kind = c.choose(8);
    switch (kind) {
      case 0: x.sel[c.choose(N)] = 1; break;
      case 1: for (int i = 0; i < N; ++i) x.sel[i] = 1; break;
      case 2: break;
      case 3: { int n = c.choose(N + 1); for (int i = 0; i < n; ++i) x.sel[i] = 1; } break;
      case 4: { int n = c.choose(N + 1); for (int i = n; i < N; ++i) x.sel[i] = 1; } break;
      case 5: { memset(x.sel, 1, N); x.sel[c.choose(N)] = 0; } break;
      default: { Prng r(c.choose(65536) + 1); u32 d = 1 + r.below(7); for (int i = 0; i < N; ++i) x.sel[i] = r.below(8) < d; }
    }
  }
  bool check_bytes(const char* when) {
    if (!memcmp(K + wlo, shadow + wlo, whi - wlo)) return true;
    for (u64 i = wlo; i < whi; ++i) if (K[i] != shadow[i]) {
      Op* w = owner[i];
      if (!w || w->done) { char b[200]; snprintf(b, sizeof b, "a byte outside the selected elements changed [%s: offset %lld from the array start, was %02x, is %02x]", when, (long long)i - (long long)A.base, shadow[i], K[i]); S.viol = b; return false; }
      int l = lane_of[i]; u64 e = w->base + l * w->o->szU;
      if (!memcmp(K + e, w->exp + l * w->o->szU, w->o->cmpU)) memcpy(shadow + e, K + e, w->o->szU);
      else if (PROP == "C11" && w->o->unit_atomic && !w->o->is_mask) { // (bool arrays: g++ may legally build a bool in place)
        char b[200]; snprintf(b, sizeof b, "a target element held neither its old nor its new value during the store [%s: element %d]", when, l); S.viol = b; return false; }
      else memcpy(shadow + e, K + e, w->o->szU);   // intermediate value of a selected element
    }
    return true;
  }
  // neighbour thread: plain stores to elements nobody selected
  void agent(bool all) {
    if (agent_mode == 0) return;
    Op& x = A; int sz = x.o->szU; u64 lo = x.base, hi = x.base + x.o->N * sz;
    u64 nb = 24; u64 from = lo > LO + nb ? lo - nb : LO, to = hi + nb < HI ? hi + nb : HI;
    ++agent_ctr; S.log("agent", agent_ctr, all);
    u64 pick = all ? 0 : from + S.ch.choose(to - from);
    for (u64 i = from; i < to; ++i) {
      if (!all && !(i >= pick && i < pick + sz)) continue;
      if (owner[i] || (flag_off && i == flag_off)) continue;
      if (!is_store(x.o)) { // loads: only change whole unselected elements/outside bytes
        if (i >= lo && i < hi && x.sel[(i - lo) / sz]) continue;
      }
      // keep bool arrays valid
      u8 v = x.o->is_mask ? u8(mix(i, agent_ctr) >> 9 & 1) : u8(mix(i, agent_ctr) >> 7);
      K[i] = shadow[i] = v; ++st.agent_writes;
    }
  }

  void run(size_t ci) override {
    Chooser& c = S.ch; A.o = ops[ci]; haveB = false; const MemOp& o = *A.o; A.done = false; A.slot = 0; A.tid = 0; agent_ctr = 0;
    flag_seen = false; flag_off = 0;
    int N = o.N, sz = o.szU; bool store = is_store(&o);
    last_desc.clear();
    pick_mask(A);
    A.vseed = c.choose(1 << 20); A.mseed = c.choose(1 << 20) + 7777777;
    u32 pad = c.choose(144); A.pad = pad; if (pad) ++st.dirty_padding;
    // ---- placement.  B is the boundary between page 1 and page 2.
    u64 BND = 2 * PG; u32 place = c.choose(5); u64 bytes = u64(N) * sz; u64 al = o.align;
    switch (place) {
      case 0: A.base = BND - (bytes + al - 1) / al * al; break;                    // ends at boundary (if aligned so)
      case 1: A.base = BND; break;                                                  // starts at boundary
      case 2: { u64 j = c.choose(N + 1); A.base = BND - j * sz; A.base -= A.base % al; } break; // boundary inside
      case 3: { u64 j = c.choose(128); u64 b0 = (LO + 512 + al - 1) / al * al; A.base = b0 + j * al; if (A.base + bytes + 64 > HI) A.base = b0; } break;
      default: { // boundary at first unselected after / before a selected run
        int f = -1, l = -1; for (int i = 0; i < N; ++i) if (A.sel[i]) { if (f < 0) f = i; l = i; }
        u64 j = f < 0 ? c.choose(N + 1) : c.choose(2) ? f : l + 1; A.base = BND - j * sz; A.base -= A.base % al; }
    }
    if (PROP == "C05" ) { flag_off = LO + 8; }
    memset(owner, 0, sizeof owner);
    bool touched[ARENA_PAGES] = {};
    for (int i = 0; i < N; ++i) if (A.sel[i]) for (int b = 0; b < sz; ++b) {
      u64 p = A.base + i * sz + b; touched[p / PG] = true;
      if (store) { owner[p] = &A; lane_of[p] = i; } }
    // ---- page states
    bool pages = c.choose(4) != 0; u32 second = 0;
    if (PROP == "C05") { pages = false; }
    PageState want[ARENA_PAGES] = {PS_NONE, PS_RW, PS_RW, PS_NONE};
    if (pages) for (int p = 1; p <= 2; ++p) {
      if (!touched[p]) { static const PageState s[] = {PS_NONE, PS_RO, PS_RW}; want[p] = s[c.choose(3)]; if (want[p] == PS_NONE) ++st.absent_pages; if (want[p] == PS_RO) ++st.ro_pages; }
      else if (store) { static const PageState s[] = {PS_RW, PS_DEMAND, PS_DEMAND_RO}; want[p] = s[c.choose(3)]; }
      else { static const PageState s[] = {PS_RW, PS_DEMAND, PS_DEMAND_R, PS_RO}; want[p] = s[c.choose(4)]; if (want[p] == PS_RO) ++st.ro_pages; }
    }
    // ---- memory contents
    { Prng r(A.mseed * 31 + 5); u64 x = 0; for (u64 i = LO; i < HI; ++i) { if ((i & 7) == 0) x = r.next(); shadow[i] = u8(x >> (8 * (i & 7))); if (o.is_mask) shadow[i] &= 1; } }
    u8 mem[64 * 16]; 
    o.memfill(A.mseed, mem);
    if (!store) for (int i = 0; i < N; ++i) if (A.sel[i]) memcpy(shadow + A.base + i * sz, mem + i * sz, sz); 
    if (flag_off) shadow[flag_off] = 0;
    memcpy(K + LO, shadow + LO, HI - LO);
    o.expectU(A.vseed, A.exp);
    wlo = std::max<u64>(LO, A.base > LO + 256 ? A.base - 256 : LO); whi = std::min<u64>(HI, A.base + bytes + 256);
    // ---- schedule
    u32 mode = c.choose(4);           // 0: run to completion; 1..3: stepped
    bool step = mode != 0; if (PROP == "C05" || PROP == "C11") step = true;
    agent_mode = c.choose(3) ? 1 : 0; if (PROP == "C05") agent_mode = 0;
    u32 qkind = c.choose(4);          // quantum style
    // ---- optional second vector operation on the same array
    if (store && o.has_mask && (PROP == "C01" || PROP == "C04") && c.choose(3) == 1) second = 1;
    if (second) {
      // any registered masked store with the same memory element size
      size_t start = c.choose(ops.size()); B.o = nullptr;
      for (size_t k = 0; k < std::min<size_t>(ops.size(), 4000); ++k) { auto* q = ops[(start + k) % ops.size()]; if (q->kind == K_MSTORE && !q->known && q->szU == sz && q->is_mask == o.is_mask && A.base % q->align == 0) { B.o = q; break; } }
      if (B.o) {
        haveB = true; B.slot = 2; B.tid = 1; B.done = false; B.vseed = c.choose(1 << 20) + 99; B.base = A.base; memset(B.sel, 0, 64);
        B.o->expectU(B.vseed, B.exp); Prng r(c.choose(65536) + 3); int n = std::min(N, B.o->N);
        for (int i = 0; i < n; ++i) if (!A.sel[i] && r.below(4)) { // only where the page permits the write
          bool ok = true; for (int b = 0; b < sz; ++b) { auto s = want[(B.base + i * sz + b) / PG]; ok &= s != PS_NONE && s != PS_RO; }
          if (!ok) continue;
          B.sel[i] = 1; for (int b = 0; b < sz; ++b) { u64 p = B.base + i * sz + b; owner[p] = &B; lane_of[p] = i; } }
        B.o->prep(op_rw(B.slot), B.sel, B.vseed, c.choose(144)); ++st.second_ops;
      }
    }
    for (int p = 1; p <= 2; ++p) S.set_page(p, want[p]);
    u32 junk = c.choose(3) ? 0 : 1 + c.choose(1000);
    o.prep(op_rw(A.slot), A.sel, A.vseed, pad);
    u8 opimg[16384]; 
    memcpy(opimg, op_rw(A.slot), OPSLOT);
    S.nt_model = PROP == "C05";
    if (PROP == "C05") step = true;
    u8* flagp = flag_off ? U + flag_off : nullptr;
    u32 crash_at = 0; bool crash = PROP == "C11" && c.choose(3) != 0; if (crash) crash_at = 1 + c.choose(1 + (c.choose(4) ? 40 : 400));
    auto mkbody = [&](Op& x) { return [&, px = &x]() {
      const MemOp& m = *px->o; bool ld = !is_store(&m);
      const void* v = ld ? (const void*)op_rw(px->slot) : op_ro(px->slot);
      call_window(m.run, v, op_ro(px->slot) + 8192, nullptr, nullptr, U + px->base, step, junk);
      if (flagp && px == &A) call_window(sim_release_flag, nullptr, nullptr, nullptr, nullptr, flagp, true, 0);
    }; };
    const char* when = "during the operation";
    S.on_step = [&](Thread& t, ucontext_t*) {
      if (S.nt_model) { if (flagp && !flag_seen && K[flag_off]) { flag_seen = true; S.yield(W_YIELD); } return; }
      if (!check_bytes(when)) S.violate(S.viol);
      if (crash && t.steps >= crash_at) { ++st.crashes; S.yield(W_ABORT); }
    };
    bool any_fault_sched = c.choose(2);
    S.on_fault = [&](Thread&, u64, bool) {
      if (!check_bytes("at a page fault")) S.violate(S.viol);
      if (any_fault_sched) S.yield(W_FAULT);
      return true; };
    S.spawn(0, mkbody(A)); if (haveB) S.spawn(1, mkbody(B));
    auto quantum = [&]() -> u64 { switch (qkind) { case 0: return c.choose(64) + 1; case 1: return 1; case 2: return 1 + c.choose(4); default: return 1 + c.choose(16); } };
    u32 evict_left = pages ? c.choose(3) : 0; bool crashed = false;
    while (S.viol.empty()) {
      int live = (S.th[0].live ? 1 : 0) | (haveB && S.th[1].live ? 2 : 0);
      if (!live) break;
      int t = live == 3 ? int(c.choose(2)) : live - 1;
      S.th[t].quantum = step ? quantum() : ~0ull;
      Why w = S.resume(S.th[t]);
      S.log("sched", t, w);
      if (!S.viol.empty()) break;
      if (w == W_ABORT) { crashed = true; break; }
      if (!S.nt_model && !check_bytes(when)) break;
      if (w == W_DONE) (t ? B : A).done = true;
      if (S.nt_model) consumer();
      if (w == W_QUANTUM || w == W_FAULT) {
        agent(qkind == 1 || w == W_FAULT || c.choose(2));
        if (evict_left && c.choose(6) == 5) { // take a mapped page away again
          int p = 1 + c.choose(2); if (touched[p] && S.ps[p] == PS_RW) { --evict_left; ++st.evictions; S.set_page(p, store && c.choose(2) ? PS_DEMAND_RO : PS_DEMAND); S.log("evict", p); }
        }
      }
    }
    if (S.viol.empty() && crashed && !crash) S.viol = "operation aborted";
    if (S.viol.empty() && crashed) recover(o, junk);
    else if (S.viol.empty()) final_check(opimg);
    describe(place, want, step, qkind, crash_at);
  }
  void consumer() {
    // runs on "another core": sees plain stores at once, weakly ordered ones only when drained
    S.nt_drain_some(0);
    S.nt_hide(0); ++st.switches;
    if (K[flag_off]) {
      for (int i = 0; i < A.o->N && S.viol.empty(); ++i) if (A.sel[i] && memcmp(K + A.base + i * A.o->szU, A.exp + i * A.o->szU, A.o->cmpU)) {
        char b[200]; snprintf(b, sizeof b, "flag acquired but a stored element is not visible [element %d]", i); S.viol = b; S.log("VIOLATION"); }
    }
    S.nt_show(0);
  }
  void recover(const MemOp& o, u32 junk) {
    // only memory survives: old-or-new was checked at every step; now redo the store
    if (!check_bytes("after the crash")) return;
    S.on_step = nullptr; S.log("recover");
    S.spawn(2, [&] { call_window(o.run, op_ro(0), op_ro(0) + 8192, nullptr, nullptr, U + A.base, false, junk); });
    while (S.th[2].live && S.viol.empty()) { S.th[2].quantum = ~0ull; if (S.resume(S.th[2]) == W_ABORT) { if (S.viol.empty()) S.viol = "repeated store aborted"; break; } }
    if (S.viol.empty()) { check_bytes("after the repeated store"); A.done = true; }
    if (S.viol.empty()) complete(A, "after the repeated store");
  }
  void complete(Op& x, const char* when) {
    for (int i = 0; i < x.o->N; ++i) if (x.sel[i] && memcmp(K + x.base + i * x.o->szU, x.exp + i * x.o->szU, x.o->cmpU)) {
      char b[200]; snprintf(b, sizeof b, "a stored element has the wrong value [%s: element %d]", when, i); S.viol = b; return; }
  }
  void final_check(const u8* opimg) {
    const MemOp& o = *A.o; int N = o.N;
    wlo = LO; whi = HI; bool ad = A.done, bd = B.done; A.done = B.done = false;
    if (S.nt_model) { for (u64 i = LO; i < HI; ++i) if (!owner[i]) { if (flag_off == i) shadow[i] = K[i]; } }
    check_bytes("after completion"); A.done = ad; B.done = bd;
    if (!S.viol.empty()) return;
    if (is_store(&o)) {
      complete(A, "after completion"); if (haveB && S.viol.empty()) complete(B, "after completion");
      if (S.viol.empty() && memcmp(opimg, op_rw(A.slot), OPSLOT)) S.viol = "an operand passed by const reference changed";
    } else {
      u8 got[64 * 16], want[64 * 16], init[64 * 16]; o.lanes(op_rw(A.slot), got); o.expectT(A.mseed, want); o.initT(A.vseed, init);
      for (int i = 0; i < N; ++i) {
        const u8* e = A.sel[i] ? want : init;
        if (memcmp(got + i * o.szT, e + i * o.szT, o.cmpT)) { char b[160]; snprintf(b, sizeof b, "%s lane has the wrong value after the load [lane %d]", A.sel[i] ? "a selected" : "an unselected", i); S.viol = b; return; }
      }
      if (memcmp(opimg + 8192, op_rw(A.slot) + 8192, 8192)) S.viol = "the mask operand changed";
    }
  }
  void describe(u32 place, PageState* w, bool step, u32 qk, u32 crash_at) {
    static const char* pn[] = {"rw", "ro", "absent", "demand", "demand-ro", "demand-r"};
    char b[400]; std::string m; for (int i = 0; i < A.o->N; ++i) m += A.sel[i] ? '1' : '0';
    snprintf(b, sizeof b, "mask=%s made=%u array at page boundary%+lld (place %u) pages=%s|%s %s quantum=%u agent=%u second=%s crash_at=%u", m.c_str(), A.pad, (long long)A.base - (long long)(2 * PG), place, pn[w[1]], pn[w[2]], step ? "stepped" : "unstepped", qk, agent_mode, haveB ? B.o->name.c_str() : "-", crash_at);
    last_desc = b;
  }
};
int main(int argc, char** argv) {
  for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--prop")) PROP = argv[i + 1];
  static MemDriver d; d.select(); return drive(argc, argv, d);
}
