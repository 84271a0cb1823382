#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree and runs one check.

  check.py C01                 (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py --replay FILE       rebuild what the replay needs and re-execute it
"""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = HERE + "/sim"
NPROC = os.cpu_count() or 4
ISAS = {
    "sse2": ["-march=x86-64"],
    "sse4": ["-march=x86-64-v2"],
    "avx": ["-march=sandybridge"],
    "avx2": ["-march=haswell"],
    "knl": ["-march=haswell", "-mavx512f", "-mavx512cd"],
    "avx512": ["-march=skylake-avx512"],
}
TYPES = {"char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short",
         "int": "int", "uint": "unsigned", "long": "long", "ulong": "unsigned long", "llong": "long long",
         "ullong": "unsigned long long", "float": "float", "double": "double", "ldouble": "long double",
         "wchar": "wchar_t", "char16": "char16_t", "char32": "char32_t"}
LDWRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"]
K_MSTORE, K_MLOAD, K_STORE, K_LOAD, K_CTOR = 1, 2, 4, 8, 16


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tu(name, src, isa, defs, opt="-O2"):
    return dict(name=name, src=src, isa=isa, defs=defs, opt=opt)


def xs(isa, t):
    """which further widths a translation unit instantiates (sim/maskmaker.h)"""
    return 17 * list(ISAS).index(isa) + 3 * list(TYPES).index(t)


def mem_tus(isas, kinds, plan, opt="-O2", tag=""):
    """plan: list of (type, level); level -1 = memory type equals element type only"""
    out = []
    for k, isa in enumerate(isas):
        for t, lvl in plan:
            d = ["-DUSET=%d" % (k % 2), "-DXS=%d" % xs(isa, t), "-DTT=" + TYPES[t], "-DKINDS=%d" % kinds, "-DLEVEL=%d" % max(lvl, 0), '-DISA="%s%s"' % (isa, tag)]
            if lvl < 0:
                d.append("-DNO_CVT")
            out.append(tu("mem_%s%s_%s" % (isa, tag, t), "mem_tu.cpp", isa, d, opt))
    return out


def mask_tus(isas, kinds, types, opt="-O2", tag=""):
    return [tu("msk_%s%s_%s" % (isa, tag, t), "mem_tu.cpp", isa,
               ["-DTT=" + TYPES[t], "-DXS=%d" % xs(isa, t), "-DMASKS", "-DKINDS=%d" % kinds, "-DLEVEL=0", '-DISA="%s%s"' % (isa, tag)], opt)
            for isa in isas for t in types]


def calc_tus(isas, types, groups, opt="-O2", tag="", extra=()):
    return [tu("calc_%s%s_%s_%s" % (isa, tag, t, g), "calc_tu.cpp", isa,
               ["-DTT=" + TYPES[t], "-DXS=%d" % (xs(isa, t) + g), "-DGROUP=%d" % g, '-DISA="%s%s"' % (isa, tag)] + list(extra), opt)
            for isa in isas for t in types for g in groups]


ALLI = list(ISAS)
ALLT = list(TYPES)
Q_PLAN = [("schar", 1), ("ushort", 1), ("int", 1), ("ulong", 1), ("float", 1), ("double", 1),
          ("uchar", 0), ("short", 0), ("uint", 0), ("long", 0), ("ldouble", 0), ("char", -1), ("char16", -1), ("wchar", -1)]
S_PLAN = [("schar", 0), ("ushort", 0), ("int", 0), ("ulong", 0), ("float", 0), ("double", 0), ("uchar", -1), ("short", -1), ("long", -1), ("ldouble", -1)]
T_PLAN = [(t, 2) for t in ALLT]
M_TYPES = ["schar", "short", "int", "long", "float", "double", "ushort", "ldouble"]


FPT = ["float", "double", "ldouble"]
C_TYPES = ["schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
# In quick runs of the properties that depend little on the element type, each ISA gets half of the integer types.
HALF = [["schar", "ushort", "int", "ulong", "float", "double"], ["uchar", "short", "uint", "long", "float", "double"]]
# prop: (runs per case in the quick tier, {group: element types in the quick tier})
# groups: 1 arithmetic, 2 where/mask/reductions, 3 math, 4 callbacks, 6 memory, 7 conversions/split/concat
# types: all, full = C_TYPES, half = HALF, fp = floating point and 64-bit integers
CALC = {"C06": (10, {1: "half", 2: "half", 3: "half", 6: "half", 7: "half"}),
        "C07": (18, {1: "full", 3: "full", 2: "half", 7: "half", 6: "fp"}),
        "C08": (40, {1: "full", 3: "full", 4: "full", 2: "half", 7: "half"}),
        "C13": (60, {8: "full"}),
        "C09": (150, {4: "all"}),
        "C14": (16, {1: "half", 2: "half", 3: "half", 6: "half", 7: "half"}),
        "C12": (16, {1: "half", 2: "half", 3: "half", 6: "half", 7: "half"})}


def spec(prop, tier):
    q = tier == "quick"
    if prop in ("C01", "C02", "C03"):
        kinds = {"C01": K_MSTORE, "C02": K_MLOAD, "C03": K_STORE | K_LOAD | K_CTOR}[prop]
        tus = mem_tus(ALLI, kinds, Q_PLAN if q else T_PLAN)
        if not q:
            tus += mem_tus(ALLI, kinds, S_PLAN, "-O1", "-O1") + mem_tus(ALLI, kinds, S_PLAN, "-O3", "-O3")
        return dict(driver="drv_mem", tus=tus, runs=60 if q else 1000)
    if prop == "C04":
        tus = mask_tus(ALLI, 31, M_TYPES if q else ALLT)
        if not q:
            tus += mask_tus(ALLI, 31, ALLT, "-O1", "-O1") + mask_tus(ALLI, 31, ALLT, "-O3", "-O3")
        return dict(driver="drv_mem", tus=tus, runs=100 if q else 1500)
    if prop in ("C05", "C11"):
        k = K_MSTORE | K_STORE
        tus = mem_tus(ALLI, k, S_PLAN if q else T_PLAN) + mask_tus(ALLI, k, M_TYPES[:6])
        return dict(driver="drv_mem", tus=tus, runs=50 if q else 600)
    if prop in CALC:
        runs, groups = CALC[prop]
        tus = []
        # (schedule and history depend little on these; the thorough tier has them)
        drop = {"C14": ("sse4", "avx"), "C06": ("sse4",), "C12": ("sse4",)}.get(prop, ()) if q else ()
        for k, isa in enumerate(i for i in ALLI if i not in drop):
            for g, sel in groups.items():
                ts = {"all": ALLT, "full": C_TYPES, "half": HALF[k % 2], "fp": ["long", "ulong", "float", "double"]}[sel if q else "all"]
                if g in (1, 2, 3, 6, 7) and q and isa in ("sse2", "avx2") and prop in ("C06", "C12", "C14"):
                    ts = ts + ["ldouble"]
                if g in (3, 5):
                    ts = [t for t in ts if t in FPT]
                tus += calc_tus([isa], ts, [g], extra=["-DLEVEL=%d" % int(not q)] + (["-DSKIP=%d" % (1 + k % 2)] if q and prop in ("C06", "C12", "C14") else []))
                if not q:
                    tus += calc_tus([isa], ts, [g], "-O1", "-O1", ["-DLEVEL=0"]) + calc_tus([isa], ts, [g], "-O3", "-O3", ["-DLEVEL=0"])
        return dict(driver="drv_calc", tus=tus, runs=runs if q else 20 * runs)
    raise SystemExit("unknown property " + prop)


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, wd):
        self.wd = wd
        self.pch = {}
        self.lock = threading.Lock()

    def cc(self, args):
        r = subprocess.run(args, cwd=self.wd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(" ".join(args) + "\n" + r.stderr[-3000:])

    def base(self, isa, opt):
        return ["g++", "-std=c++17", opt, "-w", "-I" + REPO, "-I" + SIM] + ISAS[isa]

    def make_pch(self, isa, opt):
        d = "%s/pch_%s%s" % (self.wd, isa, opt)
        os.makedirs(d)
        with open(d + "/pch.h", "w") as f:
            f.write("#include <experimental/simd>\n#include <cstring>\n#include <cmath>\n#include <limits>\n#include \"sim.h\"\n")
        self.cc(self.base(isa, opt) + ["-x", "c++-header", d + "/pch.h", "-o", d + "/pch.h.gch"])
        return d

    def build(self, driver, tus):
        """returns {isa: binary}"""
        t0 = time.time()
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(self.cc, ["g++", "-std=c++17", "-O2", "-w", "-I" + SIM, "-c", SIM + "/" + s + ".cpp", "-o", s + ".o"]) for s in ("sim", driver)]
            pch = {k: ex.submit(self.make_pch, *k) for k in {(t["isa"], t["opt"]) for t in tus}}
            pchd = {k: f.result() for k, f in pch.items()}

            def comp(t):
                self.cc(self.base(t["isa"], t["opt"]) + ["-include", pchd[(t["isa"], t["opt"])] + "/pch.h"] + t["defs"] +
                        ["-c", SIM + "/" + t["src"], "-o", t["name"] + ".o"])
            futs += [ex.submit(comp, t) for t in tus]
            for f in futs:
                f.result()
            bins = {}
            for isa in {t["isa"] for t in tus}:
                bins[isa] = "%s/%s_%s" % (self.wd, driver, isa)
            lf = [ex.submit(self.cc, ["g++", "-static", "-no-pie"] + LDWRAP + ["-o", bins[isa], "sim.o", driver + ".o"] +
                            sorted(t["name"] + ".o" for t in tus if t["isa"] == isa) + ["-lpthread"]) for isa in bins]
            for f in lf:
                f.result()
            for isa in bins:
                self.statics(bins[isa], [driver + ".o", "sim.o"], sorted(t["name"] + ".o" for t in tus if t["isa"] == isa))
        log("built %d translation units in %.1f s" % (len(tus), time.time() - t0))
        return bins


    def statics(self, exe, own, objs):
        """addresses of the writable variables that the code under test brings along (restored before every run)"""
        def names(files):
            out = subprocess.run(["nm", "--defined-only", "-P", "-A"] + files, cwd=self.wd, capture_output=True, text=True).stdout
            return {l.split(" ")[1] for l in out.splitlines() if l.split(" ")[2] in "bBdDuVvsS"}
        want = names(objs) - names(own)
        sec = {}
        for l in subprocess.run(["readelf", "-SW", exe], capture_output=True, text=True).stdout.splitlines():
            m = re.match(r"\s*\[\s*\d+\] (\.data|\.bss)\s+\w+\s+(\w+) \w+ (\w+)", l)
            if m:
                sec[m[1]] = (int(m[2], 16), int(m[2], 16) + int(m[3], 16))
        with open(exe + ".statics", "w") as f:
            for l in subprocess.run(["readelf", "-sW", exe], capture_output=True, text=True).stdout.splitlines():
                w = l.split()
                if len(w) >= 8 and w[3] == "TLS" and (w[7] in want or w[7] == "sim_tls_probe"):     # thread-local: offset in the TLS segment
                    f.write("%s %s %x\n" % ("P" if w[7] == "sim_tls_probe" else "T", w[1], int(w[2], 0)))
            for l in subprocess.run(["nm", "--defined-only", "-P", exe], capture_output=True, text=True).stdout.splitlines():
                w = l.split(" ")
                if len(w) >= 4 and w[0] in want and w[1] in "bBdDuVvsS" and any(a <= int(w[2], 16) < b for a, b in sec.values()):
                    f.write("S %s %s\n" % (w[2], w[3] or "8"))


def cpu_flags():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return set(l.split(":")[1].split())
    return set()


NEED = {"sse2": [], "sse4": ["sse4_2", "popcnt"], "avx": ["avx", "popcnt"], "avx2": ["avx2", "bmi2", "fma", "f16c"],
        "knl": ["avx2", "bmi2", "fma", "avx512f", "avx512cd"], "avx512": ["avx512f", "avx512vl", "avx512bw", "avx512dq", "avx512cd"]}


def load_known():
    out = []
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) case=(\S+) viol=\"([^\"]*)\" :: (.*)", l)
            if m:
                out.append(dict(property=m[1], case=m[2], viol=m[3], what=m[4].strip()))
    return out


def run_json(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout: " + " ".join(cmd)
    recs = []
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            recs.append(json.loads(l))
    if r.returncode not in (0, 1) or not recs:
        return recs, "worker exit %d: %s %s" % (r.returncode, " ".join(cmd), r.stderr[-400:])
    return recs, None


def evidence(prop, tier, seed, data):
    os.makedirs(HERE + "/evidence", exist_ok=True)
    data = dict(property=prop, tier=tier, seed=seed, level="exploration", **data)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(data, f, indent=1)


from meta import RULE, ASSUME  # noqa: E402


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sp = spec(prop, tier)
    runs = int(os.environ.get("VERIF_RUNS", sp["runs"]))
    fl = cpu_flags()
    skipped = [i for i in ISAS if not all(f in fl for f in NEED[i])]
    only = os.environ.get("VERIF_ISAS")
    tus = [t for t in sp["tus"] if t["isa"] not in skipped and (not only or t["isa"] in only.split(","))]
    if not tus:
        print("nothing to check: no translation unit for the selected instruction sets"); return 2
    wd = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    try:
        b = Builder(wd)
        try:
            bins = b.build(sp["driver"], tus)
        except BuildError as e:
            log("BUILD FAILED\n" + str(e))
            return 2
        tb = time.time() - t0
        shards = NPROC
        jobs = [(isa, s) for isa in sorted(bins) for s in range(shards)]
        tmo = 700 if tier == "quick" else 24 * 3600
        with cf.ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda j: (j, run_json([bins[j[0]], "--prop", prop, "--seed", str(seed), "--shard", str(j[1]), "--shards", str(shards),
                                                      "--runs", str(runs), "--statics", bins[j[0]] + ".statics"] + sp.get("args", []), tmo)), jobs))
        tr = time.time() - t0 - tb
        stats, errors, viols, samples, extra = {}, [], [], [], {}
        for (isa, s), (recs, err) in res:
            if err:
                errors.append(err)
            for r in recs or []:
                if "viol" in r:
                    r["isa"] = isa
                    viols.append(r)
                elif r.get("nondet") or r.get("error"):
                    errors.append(json.dumps(r))
                elif "stats" in r:
                    for k, v in r["stats"].items():
                        stats[k] = stats.get(k, 0) + v
                    samples += r["samples"][:1]
                    for k, v in r.get("extra", {}).items():
                        extra[k] = extra.get(k, 0) + v if isinstance(v, int) else v
        # gate: same list twice (done by the worker) and a fresh process
        known = [k for k in load_known() if k["property"] == prop]
        hit = {}
        confirmed = []
        classes = {}
        for v in viols:
            if not v["stable"]:
                errors.append("unstable violation: " + json.dumps(v))
                continue
            kf = next((k for k in known if re.search(k["case"], v["case"]) and re.search(k["viol"], v["viol"])), None)
            if kf:
                hit[kf["what"]] = kf
                continue
            cl = (re.sub(r" \[.*", "", v["viol"]), v["case"].split("/")[0], v["case"].split("/")[-1])
            classes[cl] = classes.get(cl, 0) + 1
            if classes[cl] > 1 or len(confirmed) >= 8:
                continue
            rp, err = run_json([bins[v["isa"]], "--prop", prop, "--replay", v["case"], "--choices", ",".join(map(str, v["choices"])),
                                "--force-step", "1" if v["force_step"] else "0", "--verbose", "1", "--statics", bins[v["isa"]] + ".statics"] + sp.get("args", []), 120)
            if err or not rp or rp[-1].get("hash") != v["hash"] or rp[-1].get("violation") != v["viol"]:
                errors.append("replay in a fresh process differs: %s -> %s %s" % (json.dumps(v), rp and rp[-1], err))
                continue
            os.makedirs(HERE + "/replays", exist_ok=True)
            fn = "replays/%s-%s.json" % (prop, v["hash"])
            with open(HERE + "/" + fn, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, run=v["run"], isa=v["isa"], case=v["case"], choices=v["choices"], force_step=v["force_step"],
                               violation=v["viol"], hash=v["hash"], scenario=v["desc"], original_choices=v["orig_len"]), f, indent=1)
            confirmed.append((v, fn))
        for k in known:
            # a listed finding is reported whether or not this run's sample hit it
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        wall = time.time() - t0
        cov = dict(evaluations=stats.get("runs", 0), distinct_nontrivial=stats.get("unique", 0), rule=RULE[prop],
                   samples=samples[:6] or ["(none)"], cases=stats.get("cases", 0),
                   simulated_time_steps=stats.get("steps", 0), simulated_time_unit="machine instructions executed under single-step scheduling",
                   runs_per_hour=int(stats.get("runs", 0) / max(tr, .01) * 3600),
                   faults_and_schedule={k: v for k, v in stats.items() if k not in ("runs", "steps", "unique", "cases", "distinct") and v},
                   distinct_measure="distinct hashes over the complete event log of a run (every instruction address in schedule order, faults, agent and crash events)",
                   real_code="all of experimental/simd compiled from the working tree, glibc, libm, libstdc++, CPU and MMU",
                   stub_code="thread scheduler, neighbour/consumer threads, write-combining buffers, page table changes, crash, allocator refusal",
                   isas=sorted(bins), isas_skipped=skipped, translation_units=len(tus), build_s=round(tb, 1), run_s=round(tr, 1), known_findings_hit=sorted(hit))
        cov.update({"extra": extra} if extra else {})
        evidence(prop, tier, seed, dict(coverage=cov, assumptions=ASSUME["common"] + ASSUME.get(prop, []), wall_s=round(wall, 1), violations=len(confirmed)))
        for v, fn in confirmed:
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            log("  %s\n  %s\n  %s" % (v["case"], v["viol"], v["desc"]))
        log("%s: %d runs, %d steps, build %.1f s, run %.1f s, %d violations (%d raw), %d errors" % (prop, stats.get("runs", 0), stats.get("steps", 0), tb, tr, len(confirmed), len(viols), len(errors)))
        for e in errors[:10]:
            log("ERROR " + e[:1500])
        if confirmed:
            return 1
        return 2 if errors else 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
        else:
            log("kept", wd)


def replay(fn):
    r = json.load(open(fn))
    if r.get("kind") == "install":
        import install_sim
        return install_sim.replay(r)
    sp = spec(r["property"], r["tier"])
    wd = tempfile.mkdtemp(prefix="verif_replay_")
    try:
        # the whole binary of that ISA, so that second operations resolve identically
        bins = Builder(wd).build(sp["driver"], [t for t in sp["tus"] if t["isa"] == r["isa"]])
        p = subprocess.run([bins[r["isa"]], "--prop", r["property"], "--replay", r["case"], "--choices", ",".join(map(str, r["choices"])),
                            "--force-step", "1" if r["force_step"] else "0", "--verbose", "1", "--statics", bins[r["isa"]] + ".statics"] + sp.get("args", []), text=True, capture_output=True)
        print(p.stdout)
        last = json.loads(p.stdout.strip().splitlines()[-1])
        same = last.get("violation") == r["violation"] and last.get("hash") == r["hash"]
        print("replay %s" % ("reproduced the recorded execution exactly" if same else "DIFFERS (the code under test is not the one recorded)"))
        return 1 if last.get("violation") else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "C10":
        import install_sim
        sys.exit(install_sim.check("C10", os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")), evidence))
    sys.exit(check(sys.argv[1]))
