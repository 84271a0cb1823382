"""Texts for the evidence files."""
_R = "One case per (ISA, element type, ABI, memory type, flag, operation); each is run under seeded scenarios drawing lanes, mask, address relative to page boundaries, page states, page-fault and preemption points, neighbour activity and stale-register/stack junk. Non-trivial = a run whose complete event log (instruction addresses in schedule order plus all events) differs from every other run of the process."
RULE = {p: _R for p in ("C01", "C02", "C03", "C04", "C05", "C11")}
_K = "One case per (ISA, element type, ABI, computation); each is run under seeded scenarios drawing lanes, masks, padding contents, stale-register/stack junk and %s. Non-trivial = a run whose complete event log (instruction addresses in schedule order plus all events) differs from every other run of the process."
RULE.update(C06=_K % "two or three threads, what they compute, shared operands and every preemption point",
            C07=_K % "rounding direction, flush modes, raised flags, enabled traps for SSE and x87, and a second thread in another mode",
            C08=_K % "enabled floating-point traps",
            C09=_K % "the callback invocation that throws, suspends its thread or re-enters the library, and the other thread's work",
            C14=_K % "which calls came before, on which threads, at which instruction they were abandoned, and whether the static initialisers have run",
            C13=_K % "what the unselected lanes hold, enabled floating-point traps and a second thread's work",
            C12=_K % "the instruction at which up to two nested signal handlers arrive, what they compute, and an allocator that refuses everything")
ASSUME = {"common": [
    "the host CPU executes the instructions as a single-core sequence; multi-core weak ordering is only modelled for non-temporal stores (C05)",
    "compiled with the installed g++ 13 at the listed -march levels; NEON/PPC code is not executed",
    "a clean batch is evidence from sampled schedules and faults, not a proof"]}
