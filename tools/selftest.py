#!/usr/bin/env python3
"""Determinism self-test: the same seeds in different processes, with different numbers of workers at a time and
different sharding of the same cases, must produce the same event logs.   tools/selftest.py [PROP [ISA [SEEDS]]]"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)) + "/..")
import check as C
props = sys.argv[1].split(",") if len(sys.argv) > 1 else ["C01", "C02", "C03", "C04", "C05", "C11", "C06", "C07", "C08", "C09", "C12", "C13", "C14"]
isa = sys.argv[2] if len(sys.argv) > 2 else "avx2"
seeds = int(sys.argv[3]) if len(sys.argv) > 3 else 20
bad = 0
for p in props:
    sp = C.spec(p, "quick")
    wd = tempfile.mkdtemp(prefix="verif_self_")
    try:
        exe = C.Builder(wd).build(sp["driver"], [t for t in sp["tus"] if t["isa"] == isa])[isa]

        def one(a):
            seed, extra = a
            env = dict(os.environ, **{"PAD%d" % i: "x" * 777 for i in range(extra)})   # moves the initial stack
            r = subprocess.run([exe, "--prop", p, "--seed", str(seed), "--runs", "2", "--dup", str(extra % 2), "--shard", str(seed % 5), "--shards", "5", "--statics", exe + ".statics"], capture_output=True, text=True, env=env)
            l = [json.loads(x) for x in r.stdout.splitlines()]
            return [x for x in l if "stats" not in x], l[-1]["cum"] if l and "cum" in l[-1] else r.stderr, l[-1].get("stats", {}).get("runs", 0)
        res = {}
        for workers, extra in ((8, 0), (3, 1), (8, 2)):
            with cf.ThreadPoolExecutor(workers) as ex:
                for s, r in zip(range(1, seeds + 1), ex.map(one, [(s, extra) for s in range(1, seeds + 1)])):
                    res.setdefault(s, []).append(r)
        n = sum(r[2] for v in res.values() for r in v)
        d = [s for s, v in res.items() if len({json.dumps(r[:2]) for r in v}) != 1 or any(r[0] for r in v)]
        print("%s %s: %d seeds x 3 processes, %d runs, %d differ %s" % (p, isa, seeds, n, len(d), [res[s] for s in d][:1] if d else ""), flush=True)
        bad += bool(d)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
sys.exit(bad)
