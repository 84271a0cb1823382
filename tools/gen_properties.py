#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the text is readable)."""
import json, os
B = "experimental/bits/"
def P(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    d["anchors"].update(kw)
    return d
MEM = [B + "simd.h", B + "simd_builtin.h", B + "simd_x86.h", B + "simd_fixed_size.h", B + "simd_scalar.h"]
MATHF = [B + "simd.h", B + "simd_builtin.h", B + "simd_x86.h", B + "simd_fixed_size.h", B + "simd_scalar.h", B + "simd_math.h", B + "simd_converter.h", B + "simd_x86_conversions.h"]
props = [
P("C01", "A masked store touches only the selected elements",
  "A store of a vector under a mask writes exactly the elements whose mask lane is set, each with its lane's value converted to the memory element type, and neither writes nor faults on anything else. Whatever another thread does to an unselected element while the store is in progress survives it, and an unselected element may lie on a page that is read-only or not mapped at all. Vector and mask operands are only read.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "For every element type, vector width/ABI, memory element type, alignment flag, mask and target ISA; every placement of the array relative to page boundaries and every page state (writable, read-only, absent, demand-paged); and every interleaving, at machine-instruction granularity, with threads that store to neighbouring unselected elements (scalar or masked vector stores).",
  "The tests that exercise masked stores check the final contents of a private, fully mapped buffer on one thread; the stable ones only look at code generation. A read-modify-write of the whole vector, or a page-crossing access, gives the same final contents there.",
  MEM,
  [("masked store without conversion (x86 intrinsics)", B + "simd_x86.h:_S_masked_store_nocvt"), ("converting masked store", B + "simd_builtin.h:_S_masked_store"), ("bit iteration fallback", B + "simd.h:_S_bit_iteration / simd_builtin.h"), ("fixed_size splitting of the mask", B + "simd_fixed_size.h:_S_masked_store"), ("user entry point", B + "simd.h:const_where_expression::copy_to")]),
P("C02", "A masked load accesses only the selected elements",
  "A load under a mask replaces exactly the lanes whose mask lane is set with the converted memory element and leaves every other lane of the destination as it was. It never faults on, and its result never depends on, unselected elements, even while other threads keep changing them. Memory and the mask are only read.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "For every element type, width/ABI, memory element type, alignment flag, mask and target ISA; every placement relative to page boundaries and page state of unselected elements (readable, absent, demand-paged); and every interleaving with threads changing unselected elements.",
  "Tests load from a fully mapped private array, so reading (or faulting on) unselected elements is invisible.",
  MEM,
  [("masked load (x86 intrinsics)", B + "simd_x86.h:_S_masked_load"), ("bit iteration fallback", B + "simd_builtin.h:_S_masked_load"), ("fixed_size", B + "simd_fixed_size.h:_S_masked_load"), ("entry points", B + "simd.h:where_expression::copy_from, const_where_expression::operator-/copy_to")]),
P("C03", "Loads and stores of N elements touch exactly those N elements",
  "Loading or storing a vector of N elements reads or writes exactly the N elements at the given address, converting each as a scalar conversion would, for any address that satisfies the alignment promised by the flag. It never writes outside those elements, not even temporarily or with the bytes that are already there, so concurrent updates to adjacent data survive. It works when page faults interrupt it at any element and when the elements end at the last byte before unmapped memory.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "For every element type, N/ABI, memory element type, alignment flag, target ISA, every address with the promised alignment and every page placement/state, and every interleaving with threads that write the bytes next to the elements.",
  "Tests use private, fully mapped buffers larger than the vector; over-reads of partial vectors, over-writes followed by repair and lost updates of neighbours are invisible there.",
  MEM,
  [("raw partial loads/stores", B + "simd_builtin.h:_CommonImplBuiltin::_S_load/_S_store, simd_x86.h:_CommonImplX86::_S_store"), ("converting load/store", B + "simd_builtin.h:_S_load/_S_store"), ("fixed_size chunks", B + "simd_fixed_size.h:_S_load/_S_store"), ("entry points", B + "simd.h:simd(const _Up*, _Flags), copy_from, copy_to")]),
P("C04", "Masks and bool arrays convert exactly, touching only their elements",
  "Loading, storing, masked-loading and masked-storing a mask from or to an array of bool transfers lane i to element i for exactly the (selected) elements: stored bools are canonical 0/1, unselected lanes and elements are preserved, and nothing else is read past the end, written or faulted on. Concurrent writers of neighbouring bools lose no update.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "For every mask element type, width/ABI, target ISA, mask contents, alignment, page placement/state, and every interleaving with threads writing neighbouring or unselected bools.",
  "Tests compare bool arrays in private buffers; footprint, transient writes and lost updates of neighbours are not observable there.",
  [B + "simd.h", B + "simd_builtin.h", B + "simd_x86.h", B + "simd_fixed_size.h", B + "simd_scalar.h"],
  [("mask load/store", B + "simd_x86.h:_MaskImplX86::_S_load/_S_store"), ("masked mask load/store", B + "simd_x86.h:_MaskImplX86::_S_masked_load/_S_masked_store"), ("bool array store", B + "simd_builtin.h:_S_store_bool_array"), ("fixed_size masks", B + "simd_fixed_size.h:_MaskImplFixedSize")]),
P("C05", "Stored data is published by a later release, like any other store",
  "Once a (masked or unmasked) vector or mask store has returned, a release store of a flag by the same thread publishes the stored elements: a thread that acquires the flag sees every one of them. The library leaves no stored data in weakly ordered buffers that only an explicit fence would drain.",
  ["schedules", "inputs", "configurations"],
  "For every store operation, type, width/ABI, ISA and mask, and for every interleaving of producer and consumer and every legal moment at which write-combining buffers drain.",
  "Single-threaded tests cannot see store ordering, and on hardware the window is narrow and not controllable.",
  MEM,
  [("masked store with weakly ordered instructions", B + "simd_x86.h:_S_masked_store_nocvt"), ("unmasked stores", B + "simd_builtin.h:_CommonImplBuiltin::_S_store")]),
P("C06", "Vector operations are isolated between threads",
  "A vector operation on thread-private objects gives the result of running it alone, no matter where it is preempted and what other threads compute meanwhile; operands taken by const reference may be shared by any number of threads and are never written. There is no state shared behind the user's back.",
  ["schedules", "inputs", "programs", "configurations"],
  "For every operation (construction, element access, arithmetic, comparison, shifts, where-assignment, reductions, casts, split/concat, min/max, math functions), element type, width/ABI and ISA, and for every interleaving at machine-instruction granularity of threads running any of them.",
  "Tests are single-threaded; a function-local static buffer, a lazily initialised table or a hidden write to a const operand passes all of them.",
  MATHF,
  [("all element-wise implementations", B + "simd_builtin.h:_SimdImplBuiltin, simd_x86.h:_SimdImplX86"), ("fixed_size loops over chunks", B + "simd_fixed_size.h:_SimdImplFixedSize"), ("math", B + "simd_math.h"), ("casts, split, concat", B + "simd.h")]),
P("C07", "The caller's floating-point control state is honoured and never changed",
  "No vector operation changes the calling thread's floating-point control state (rounding direction, exception masks, flush-to-zero modes) nor clears exception flags that were already raised, whatever state it is called in. Operations defined to use the current rounding direction follow the calling thread's one, and operations defined to ignore it (truncation, floor, ceil, round, conversion to integer, integer arithmetic) give the same result under every direction.",
  ["inputs", "configurations", "schedules"],
  "For every floating-point (and integer) operation, type, width/ABI, ISA, every rounding direction, flush mode and set of already raised flags, with threads in different modes preempting each other at any instruction.",
  "Tests run only in the default environment and do not look at it afterwards.",
  [B + "simd_math.h", B + "simd_x86.h", B + "simd_builtin.h", B + "simd_fixed_size.h", B + "simd_scalar.h"],
  [("rounding functions", B + "simd_builtin.h:_S_trunc/_S_round/_S_floor/_S_ceil/_S_nearbyint/_S_rint, simd_x86.h"), ("integer division through floating-point division", B + "simd_x86.h:_S_divides"), ("float to integer conversions", B + "simd_x86_conversions.h, simd_converter.h")]),
P("C08", "Nothing outside the vector's lanes influences an operation",
  "The result of a vector operation and the values it hands to user code depend only on the lanes of its operands: never on unused padding of partially filled registers, on stale stack contents, or on what other code left in the vector registers. Nor can any of these make an operation trap that would otherwise not: an integer division or remainder by a vector without zero lanes never traps, and with floating-point exceptions unmasked neither do integer operations, floating-point divisions, or the floating-point operations that IEEE 754 defines as quiet.",
  ["inputs", "fault_sequences", "configurations"],
  "For every operation, element type, width/ABI (all partially filled ones included) and ISA, and for every content of padding lanes reachable through the public interface, of stale stack memory and of stale vector/mask registers injected before and during the operation.",
  "Tests start from whatever padding the previous expression left, typically zeros or copies of the lanes; results that depend on it agree by luck.",
  MATHF,
  [("padding made harmless for division", B + "simd_builtin.h:__make_padding_nonzero"), ("implicit mask of valid lanes", B + "simd_builtin.h:_S_implicit_mask"), ("bitmask sanitising", B + "simd.h:_BitMask::_M_sanitized"), ("partial reductions", B + "simd_builtin.h:_S_reduce, simd_x86.h mask reductions")]),
P("C09", "User callbacks are called once per lane and may throw or be preempted",
  "A generator is invoked exactly once for each lane index 0..N-1 and for nothing else, and a reduction hands its binary operation only values built from the vector's own lanes (and, if masked, the caller's identity element), each lane contributing exactly once. A callback that throws has its exception delivered to the caller with nothing leaked or modified, and one that is suspended while other threads run vector operations changes no result.",
  ["fault_sequences", "schedules", "inputs", "configurations"],
  "For every element type, width/ABI and ISA; a throw injected at every possible callback invocation; and every interleaving with other threads at callback boundaries and inside.",
  "Tests use pure, non-throwing callbacks and look only at the resulting lanes.",
  [B + "simd.h", B + "simd_builtin.h", B + "simd_fixed_size.h", B + "simd_scalar.h", B + "simd_x86.h"],
  [("generator constructors", B + "simd.h:simd(_Fp&&), _S_generator"), ("reduce with binary operation", B + "simd.h:reduce, simd_builtin.h:_S_reduce, simd_fixed_size.h:_S_reduce")]),
P("C10", "install.sh installs and uninstalls all or reports failure",
  "If the installer exits with status 0, the destination holds every public header byte-identical to the source (or, uninstalling, none of them, with unrelated files untouched); if the compile test fails nothing is changed; and if any step fails the exit status says so. After an interruption at any point, running it again to completion establishes the same result.",
  ["crash_points", "fault_sequences", "configurations"],
  "For every sequence of failures (exec failure, full disk, permission, short write), kills at any step of the tools the installer runs, pre-existing destination contents and directory names, for install, reinstall and uninstall.",
  "No test runs the installer at all.",
  ["install.sh"],
  [("installation sequence", "install.sh: do_install branch"), ("uninstall loop", "install.sh: else branch"), ("compile test gate", "install.sh")]),
P("C11", "An interrupted store leaves each element old or new, and can be redone",
  "If a thread is stopped for good at any point inside a vector store (masked or not) to persistent or shared memory, every target element of at most eight bytes then holds either its complete old or its complete new value and every other byte its old value (floating-point values stored as unsigned 64-bit integers excepted: compilers convert those in place even in a scalar assignment). A mask store stopped in the same way has changed nothing but its target bools. Repeating the interrupted store completes it.",
  ["crash_points", "inputs", "configurations"],
  "For every vector and mask store (masked or not), element type, width/ABI, ISA and alignment, and for every machine-instruction boundary at which the thread can die or be observed by a signal handler.",
  "Tests only look after the store has completed.",
  MEM,
  [("stores", B + "simd_builtin.h:_S_store, simd_x86.h:_S_store/_S_masked_store_nocvt"), ("mask stores", B + "simd_builtin.h:_S_store_bool_array, simd_x86.h")]),
P("C12", "Vector operations are usable inside signal handlers",
  "A vector operation may be interrupted at any instruction by a handler that itself runs vector operations on the same stack, without changing the result of either. No operation allocates memory, takes a lock, blocks or enters the operating system, so it behaves the same when every allocation and system call fails.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "For every operation, element type, width/ABI and ISA, every instruction boundary at which the handler can arrive, nested handlers, and an allocator and operating system that refuse every request.",
  "Tests never interrupt an operation and run with a working allocator.",
  MATHF,
  [("all element-wise implementations", B + "simd_builtin.h, simd_x86.h, simd_fixed_size.h"), ("math functions with scalar fallback", B + "simd_math.h:_GLIBCXX_SIMD_MATH_FALLBACK")]),
P("C13", "Masked operations act on the selected lanes alone",
  "An operation on where(k, x) gives every selected lane exactly what the operation gives for that lane's operands, keeps every unselected lane bit for bit, and a masked reduction is determined by the selected lanes. Nothing that unselected lanes hold (zero divisors, the minimum divided by -1, NaN, infinity, negative zero) changes a selected lane or a reduction, nor makes an integer operation trap, even with floating-point exceptions unmasked. Other threads running at the same time see no effect of it either.",
  ["inputs", "fault_sequences", "schedules", "configurations"],
  "For every masked assignment, compound assignment, increment, decrement, negation, masked mask assignment and masked reduction; every element type, width/ABI and ISA; every mask however obtained, every content of the unselected lanes and of padding; every set of enabled floating-point traps and every preemption by other vector operations.",
  "Tests use few masks and harmless values in unselected lanes; a trap or a leak needs a particular value in a lane that the test would have to consider irrelevant.",
  [B + "simd.h", B + "simd_builtin.h", B + "simd_x86.h", B + "simd_fixed_size.h", B + "simd_scalar.h"],
  [("masked compound assignment", B + "simd.h:where_expression::operator op=, simd_builtin.h:_S_masked_cassign"), ("masked assignment and blending", B + "simd_builtin.h:_S_masked_assign, simd_x86.h:_S_blend"), ("masked increment, decrement, negation", B + "simd_builtin.h:_S_masked_unary"), ("masked reductions", B + "simd.h:reduce/hmin/hmax(const_where_expression)"), ("fixed_size", B + "simd_fixed_size.h:_S_masked_assign/_S_masked_cassign/_S_masked_unary")]),
P("C14", "An operation needs no history and leaves none behind",
  "A vector operation gives the same result at every point of a program's life: in a static initialiser that runs before every other one, on a thread that has just started, as the first or the thousandth call, with the same or other arguments than before, and after other operations were abandoned at any instruction, because their thread was terminated or a signal handler left them with a jump. No later operation waits for an abandoned one.",
  ["crash_points", "schedules", "inputs", "configurations"],
  "For every operation, element type, width/ABI and ISA; every history of completed calls and calls abandoned after any number of instructions, on new and old threads, with static and thread-local data as in the executable file or as after initialisation.",
  "Tests call every operation from main, after all initialisers, and always let it complete.",
  MATHF,
  [("constants of the math functions", B + "simd_math.h:__math_float/__math_double, simd_builtin.h"), ("all element-wise implementations", B + "simd_builtin.h, simd_x86.h, simd_fixed_size.h"), ("stateless abi tags and implementation classes", B + "simd.h")]),
# ---- not addressed by this technique ----
P("N01", "Element-wise arithmetic equals the scalar operation in every lane",
  "Every arithmetic, bitwise, shift and comparison operator yields in lane i exactly the result of the scalar operation on lane i.",
  ["inputs", "configurations"], "All operand values, types, widths and ISAs.",
  "Tests sample operand values.", MATHF, [("operators", B + "simd_builtin.h, simd_x86.h")]),
P("N02", "Math functions are as accurate as documented in every lane",
  "Each math function returns, in every lane, a result within the documented error of the exact value, and the special values prescribed by Annex F.",
  ["inputs", "configurations"], "All argument values, types, widths and ISAs.",
  "Tests sample arguments.", [B + "simd_math.h"], [("sin, cos, log, hypot, ...", B + "simd_math.h")]),
P("N03", "Casts, split, concat and resize preserve every lane",
  "simd_cast, static_simd_cast, to_fixed_size/to_native/to_compatible, split, concat and their mask versions place each source lane, converted as by a scalar conversion, in its specified destination lane.",
  ["inputs", "configurations"], "All lane values and all type/width combinations.",
  "Tests sample values and combinations.", [B + "simd.h", B + "simd_converter.h", B + "simd_x86_conversions.h"], [("casts", B + "simd.h")]),
P("N04", "Reductions and mask queries equal their definition over the lanes",
  "reduce, hmin, hmax, all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set return the value defined over the (selected) lanes.",
  ["inputs", "configurations"], "All lane values, masks, types and widths.",
  "Tests sample values.", [B + "simd.h", B + "simd_builtin.h", B + "simd_x86.h"], [("reductions", B + "simd.h")]),
P("N05", "The type-level interface is constrained as the TS specifies",
  "Which simd types exist, which conversions are implicit, which expressions are ill-formed, and the value of every trait (size, alignment, deduced ABI) follow the specification for every type and ABI tag.",
  ["programs", "configurations"], "All programs naming simd types.",
  "Tests instantiate a finite list of types.", [B + "simd.h"], [("traits and constraints", B + "simd.h")]),
P("N06", "The same source gives the same behaviour on ARM and POWER targets",
  "On NEON and VSX/AltiVec targets every operation has the behaviour specified above.",
  ["configurations", "inputs"], "All operations on non-x86 targets.",
  "The build only syntax-checks these targets.", [B + "simd_neon.h", B + "simd_ppc.h"], [("target specific overrides", B + "simd_neon.h, simd_ppc.h")]),
P("N07", "Translation units built for different instruction sets can be linked together",
  "Linking object files compiled with different target options yields a program in which each keeps the behaviour it was compiled for.",
  ["programs", "configurations"], "All combinations of target flags.",
  "One test links two files built with the same flags.", [B + "simd.h", B + "simd_detail.h"], [("inline namespace and always_inline functions", B + "simd_detail.h")]),
]
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(props))
