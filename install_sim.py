"""C10: install.sh as a whole program under file system, process and compiler faults.

The real /bin/sh, install, rm, ... run on a scratch copy as an unprivileged
user with sim/shim.c preloaded; every choice comes from one recorded list.
"""
import concurrent.futures as cf, ctypes, hashlib, json, os, random, re, shlex, shutil, stat, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NOBODY = 65534
KINDS = ["none", "error", "short", "torn", "kill-tool", "kill-all", "torn-kill-all", "eintr", "second-installer"]
ERRNOS = [28, 5, 13, 1, 30, 24, 122]          # ENOSPC EIO EACCES EPERM EROFS EMFILE EDQUOT
DESTS = ["dest", "my dest", "de*t?", "d'e\"s", "-x", "a$HOME", "q;w&"]
CXXM = ["ok", "syntax", "kill", "version", "search", "empty"]


class Ent(ctypes.Structure):
    _fields_ = [("prog", ctypes.c_char * 16), ("inst", ctypes.c_int), ("code", ctypes.c_int)]


class Shared(ctypes.Structure):
    _fields_ = [("leader", ctypes.c_int), ("scratch", ctypes.c_char * 256), ("fprog", ctypes.c_char * 16), ("finst", ctypes.c_int), ("fop", ctypes.c_int),
                ("fkind", ctypes.c_int), ("ferr", ctypes.c_int), ("ninst", ctypes.c_int * 32), ("names", (ctypes.c_char * 16) * 32), ("nnames", ctypes.c_int),
                ("injected", ctypes.c_int), ("escaped", ctypes.c_int), ("esc", ctypes.c_char * 256), ("nlog", ctypes.c_int), ("log", Ent * 256),
                ("nops", ctypes.c_int), ("ops", ctypes.c_ubyte * 256), ("nestrc", ctypes.c_int)]


class Chooser:
    def __init__(self, seed=0, lst=None):
        self.r, self.list, self.replay, self.pos = random.Random(seed), list(lst or []), lst is not None, 0

    def choose(self, n):
        if n <= 1:
            return 0
        if self.replay:
            v = self.list[self.pos] % n if self.pos < len(self.list) else 0
        else:
            v = self.r.randrange(n)
            self.list.append(v)
        self.pos += 1
        return v


def headers(src):
    out = []
    for d, _, fs in os.walk(src + "/experimental"):
        out += [os.path.relpath(os.path.join(d, f), src) for f in fs]
    return sorted(out)


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds:
            out[os.path.relpath(os.path.join(p, n), d)] = ("dir",)
        for n in fs:
            q = os.path.join(p, n)
            st = os.lstat(q)
            if stat.S_ISREG(st.st_mode):
                out[os.path.relpath(q, d)] = ("file", hashlib.sha1(open(q, "rb").read()).hexdigest(), st.st_mode)
            else:
                out[os.path.relpath(q, d)] = ("other", os.readlink(q) if stat.S_ISLNK(st.st_mode) else "")
    return out


class World:
    """One worker's scratch directory with a copy of the sources."""
    def __init__(self, wd, k):
        self.root = "%s/w%d" % (wd, k)
        os.makedirs(self.root)
        os.chmod(self.root, 0o755)
        self.src = self.root + "/src"
        os.makedirs(self.src)
        shutil.copytree(REPO + "/experimental", self.src + "/experimental")
        shutil.copy2(REPO + "/install.sh", self.src + "/install.sh")
        os.chmod(self.src + "/install.sh", 0o755)
        self.hdr = headers(self.src)
        self.srctree = tree(self.src)
        self.hash = {h: self.srctree[h][1] for h in self.hdr}
        self.bin = self.root + "/bin"
        os.makedirs(self.bin)
        for n in ("g++", "mycxx"):
            shutil.copy2(wd + "/cxx_stub", self.bin + "/" + n)
        self.other = self.root + "/elsewhere"
        os.makedirs(self.other)
        self.shm = self.root + "/shared"
        self.probes = {}
        self.shim = wd + "/shim.so"
        self.runs = 0

    def invoke(self, cfg, dest, fault, cxx):
        """fault = (prog, inst, op, kind, errno) or None; returns (status or None if killed, Shared)"""
        sh = Shared()
        sh.scratch = self.root.encode()
        for f in (self.shm, self.shm + "2"):
            with open(f, "wb") as fh:
                fh.write(bytes(sh))
            os.chmod(f, 0o666)
        if fault:
            sh.fprog, sh.finst, sh.fop, sh.fkind, sh.ferr = fault[0].encode(), fault[1], fault[2], fault[3], fault[4]
            with open(self.shm, "wb") as fh:
                fh.write(bytes(sh))
        mode, how, opt = cfg["mode"], cfg["how"], cfg["opt"]
        given = "../" + os.path.basename(dest) if cfg.get("rel") and how == 2 else dest
        cc = self.bin + "/mycxx"
        args = {0: ["--includedir=" + given], 1: ["--includedir", given], 2: [], 3: ["--gxx=" + cc], 4: ["--gxx", cc, "--includedir=" + given], 5: [], 6: ["--includedir=" + given, "--bogus"]}[opt]
        if mode == "uninstall":
            args = ["--uninstall"] + args if cfg["order"] else args + ["--uninstall"]
        cmd, cwd = {0: (["/bin/sh", self.src + "/install.sh"], self.other), 1: ([self.src + "/install.sh"], self.other),
                    2: (["./install.sh"], self.src), 3: (["/bin/sh", "../src/install.sh"], self.other)}[how]
        env = {"PATH": self.bin + ":/usr/bin:/bin", "LD_PRELOAD": self.shim, "SIM_SHARED": self.shm, "SIM_CXX": cxx, "SIM_DEST": dest, "LC_ALL": "C", "HOME": self.other}
        if opt == 5:
            env["CXX"] = cc
        env.update(SIM_SHARED2=self.shm + "2", SIM_NESTCWD=cwd, SIM_NEST="exec " + " ".join(map(shlex.quote, cmd + args)))
        p = subprocess.Popen(cmd + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                             user=NOBODY, group=NOBODY, extra_groups=[])
        try:
            so, se = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            so, se = p.communicate()
            return "hang", None, so + se
        with open(self.shm, "rb") as f:
            sh = Shared.from_buffer_copy(f.read())
        self.runs += 1
        return p.returncode, sh, so + se

    def prestate(self, dest, pre, salt, acc=0):
        if os.path.lexists(dest):
            shutil.rmtree(dest)
        if acc == 1:
            return
        os.makedirs(dest)
        r = random.Random(salt)
        if pre >= 1:
            for n in ("vector", "experimental/filesystem", "experimental/bits/fs_path.h", "experimental/bits/simd_notes.txt", "bits/numeric_traits.h", "experimental/bits/simd_old.h.bak", "simd"):
                os.makedirs(os.path.dirname(dest + "/" + n), exist_ok=True)
                open(dest + "/" + n, "w").write("unrelated " + n)
        if pre >= 2:
            for h in self.hdr:
                if pre == 4 and r.random() < .5:
                    continue
                q = dest + "/" + h
                os.makedirs(os.path.dirname(q), exist_ok=True)
                data = open(self.src + "/" + h, "rb").read()
                if pre == 2:
                    data = b"// older version\n" + data[: len(data) // 2]
                if pre == 4 and r.random() < .6:
                    data = data[: r.randrange(len(data)) if r.random() < .5 else 0]
                if pre == 5:        # the name is a link to somebody else's file
                    o = dest + "/store/" + os.path.basename(h)
                    os.makedirs(dest + "/store", exist_ok=True)
                    k = r.randrange(3)
                    if k < 2:
                        open(o, "wb").write(b"belongs to somebody else " + h.encode())
                        (os.link if k else os.symlink)(o, q)
                        continue
                open(q, "wb").write(data)
                if pre == 4:
                    os.chmod(q, r.choice([0o644, 0o444, 0o600, 0o000]))
        for p, ds, fs in os.walk(dest):
            os.chown(p, NOBODY, NOBODY)
            for n in fs:
                os.chown(os.path.join(p, n), NOBODY, NOBODY, follow_symlinks=False)
        if acc == 2:
            os.chmod(dest, 0o555)
        if acc == 3 and os.path.isdir(dest + "/experimental/bits"):
            os.chmod(dest + "/experimental/bits", 0o555)

    def restore(self, dest, acc):
        if acc == 1:
            os.makedirs(dest)
            os.chown(dest, NOBODY, NOBODY)
        if acc == 2:
            os.chmod(dest, 0o755)
        if acc == 3 and os.path.isdir(dest + "/experimental/bits"):
            os.chmod(dest + "/experimental/bits", 0o755)

    def state_ok(self, mode, dest, before, extra=True):
        """None if the destination is what a successful run must leave."""
        t = tree(dest)
        for h in self.hdr:
            if mode == "install":
                if t.get(h, (0,))[0] != "file":
                    return "a public header is missing in the destination [%s]" % h
                if t[h][1] != self.hash[h]:
                    return "an installed header differs from the source [%s]" % h
            elif h in t:
                return "a public header is still in the destination [%s]" % h
        return self.unrelated_ok(dest, before, t, extra)

    def unrelated_ok(self, dest, before, t=None, extra=False):
        t = t or tree(dest)
        for k, v in before.items():
            if k in self.hash or v[0] == "dir":
                continue
            if t.get(k) != v:
                return "an unrelated file changed or disappeared [%s]" % k
        for k in t if extra else ():        # (a failed or interrupted run may leave temporary files)
            if k not in before and k not in self.hash and t[k][0] != "dir":
                return "an unexpected file appeared in the destination [%s]" % k
        return None

    def probe(self, cfg):
        """the tools an undisturbed run starts (in a separate destination)"""
        key = (cfg["mode"], cfg["opt"], cfg["pre"], cfg["order"], cfg["salt"])
        if key not in self.probes:
            dest = self.root + "/probe"
            self.prestate(dest, cfg["pre"], cfg["salt"])
            rc, sh, out = self.invoke(dict(cfg, rel=False), dest, None, "ok")
            self.probes[key] = sorted((sh.names[i].value.decode(), j) for i in range(min(sh.nnames, 32)) if sh.names[i].value.decode() not in ("g++", "mycxx") for j in range(sh.ninst[i]))
        return self.probes[key]

    def scenario(self, ch):
        """Returns (violation or None, description, hash, stats)."""
        st = {}

        def cnt(k):
            st[k] = st.get(k, 0) + 1
        cfg = dict(mode=["install", "uninstall"][ch.choose(2)], pre=ch.choose(6), how=ch.choose(4), opt=ch.choose(7), order=ch.choose(2), salt=0)
        if cfg["pre"] >= 4:
            cfg["salt"] = ch.choose(8)
        dest = self.root + "/" + (DESTS[1 + ch.choose(len(DESTS) - 1)] if ch.choose(3) == 2 and cfg["opt"] not in (2, 3, 5) else "dest")
        cfg["rel"] = ch.choose(3) == 2
        acc = 1 + ch.choose(3) if ch.choose(8) == 7 else 0
        if acc == 3 and cfg["pre"] == 0:
            acc = 2
        self.prestate(dest, cfg["pre"], cfg["salt"], acc)
        before = tree(dest)
        h = hashlib.sha1()
        h.update(repr((cfg, dest[len(self.root):], acc)).encode())
        viol, leftovers, descs = None, False, []
        # a history of invocations, each with its own fault, and at the end one with which nothing goes wrong
        n = 1 + (ch.choose(4) == 3) + (ch.choose(8) == 7)
        for k in range(n + 1):
            last = k == n
            if k:
                if ch.choose(4) == 3:
                    cfg["mode"] = "uninstall" if cfg["mode"] == "install" else "install"
                    cnt("mode_switches")
                cfg["opt"] = 0 if cfg["opt"] == 6 else cfg["opt"]
                cnt("recovery_runs" if last else "further_faulty_runs")
            v, d, inj = self.session(cfg, dest, before, ch, last, acc, leftovers, h, cnt)
            descs.append(d)
            leftovers |= bool(inj)
            if v:
                viol = (v if k == 0 else "after running it again: " + v)
                break
            if acc:
                self.restore(dest, acc)
                before = tree(dest) if acc == 1 else before
                acc = 0
        desc = "prestate=%s how=%d opt=%d dest=%r: %s" % (["empty", "unrelated", "older", "complete", "partial", "links"][cfg["pre"]], cfg["how"], cfg["opt"], os.path.basename(dest), "; then ".join(descs))
        return viol, desc, h.hexdigest()[:16], st

    def session(self, cfg, dest, before, ch, last, acc, leftovers, h, cnt):
        cxx = CXXM[ch.choose(6)] if not last and ch.choose(4) == 3 else "ok"
        fault = None
        kind = 0 if last or acc or cfg["opt"] == 6 else ch.choose(9)
        if kind:
            p = self.probe(cfg)
            prog, inst = p[ch.choose(len(p))]
            op = ch.choose(6) if prog not in ("install", "sh") or ch.choose(2) else ch.choose(90)
            fault = (prog, inst, op, kind, ERRNOS[ch.choose(len(ERRNOS))])
        t0 = tree(dest)
        rc, sh, out = self.invoke(cfg, dest, fault, cxx)
        viol = None
        desc = "%s compiler=%s%s fault=%s status=%s" % (cfg["mode"], cxx, ["", " dest missing", " dest read-only", " dest/experimental/bits read-only"][acc],
                                                         fault and "%s#%d call %d: %s errno %d%s" % (fault[0], fault[1], fault[2], KINDS[kind], fault[4], "" if sh and sh.injected else " (not reached)"), rc)
        if sh is None:
            return "install.sh does not terminate", desc, 1
        h.update(repr((cfg, cxx, fault, rc, sh.nestrc)).encode())
        inj = sh.injected
        h.update(repr(sorted((e.prog, e.inst, e.code) for e in sh.log[: min(sh.nlog, 256)])).encode())
        h.update(bytes(sh.ops[: sh.nops]))
        t1 = tree(dest)
        h.update(repr(sorted(t1.items())).encode())
        if inj:
            cnt("fault_" + KINDS[kind])
            cnt("fault_in_" + fault[0])
        if cxx != "ok":
            cnt("compiler_" + cxx)
        if acc:
            cnt("destination_not_usable")
        crashed = isinstance(rc, int) and rc < 0
        if crashed:
            cnt("crashes")
        cleanenv = not inj and not leftovers
        needs_cxx = {"ok": False, "syntax": cfg["mode"] == "install", "kill": cfg["mode"] == "install"}.get(cxx, cfg["opt"] in (2, 3, 5))
        if sh.escaped:
            viol = "a file outside the destination would have been changed [%s]" % sh.esc.decode().replace(self.root, "")
        if viol is None and rc == 0 and cfg["opt"] == 6:
            viol = "exit status 0 although an option is not understood"
        if viol is None and rc == 0:
            viol = self.state_ok(cfg["mode"], dest, before, cleanenv)
            if viol:
                viol = "exit status 0, but " + viol
        if viol is None and not crashed and rc == 0:
            bad = [(e.prog.decode(), e.code) for e in sh.log[: min(sh.nlog, 256)] if e.code and e.prog.decode() in ("install", "rm")]
            if bad or (inj and kind == 4 and fault[0] in ("install", "rm")):
                viol = "exit status 0 although a step failed [%s]" % (bad or fault[0])
        if viol is None and inj and kind == 8 and sh.nestrc == 0 and rc == 0:
            cnt("both_installers_succeeded")
        if viol is None and needs_cxx and not crashed:
            if rc == 0:
                viol = "exit status 0 although the compiler failed [%s]" % cxx
            elif t1 != t0 and not (inj and kind == 8):
                viol = "the destination was changed although the compiler failed [%s]" % cxx
        if viol is None and cfg["opt"] == 6 and t1 != t0:
            viol = "the destination was changed although an option is not understood"
        if viol is None and acc in (1, 2) and (t1 != t0 or rc == 0):
            viol = "exit status %s with a destination that cannot be written" % rc
        if viol is None and not inj and not needs_cxx and rc != 0 and not acc and cfg["opt"] != 6:
            viol = "failed although nothing went wrong [status %s: %s]" % (rc, out.decode(errors="replace")[-120:].replace(self.root, "").strip())
        if viol is None:
            viol = self.unrelated_ok(dest, before, t1)
        if viol is None and tree(self.src) != self.srctree:
            viol = "the source directory was modified"
        return viol, desc, inj


def build(wd):
    os.chmod(wd, 0o755)
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", wd + "/shim.so", HERE + "/sim/shim.c", "-ldl"], check=True)
    subprocess.run(["gcc", "-O1", "-w", "-o", wd + "/cxx_stub", HERE + "/sim/cxx_stub.c"], check=True)


def klass(v):
    return re.sub(r" \[.*", "", v, flags=re.S)


def worker(a):
    wd, k, n, seed, shards = a
    w = World(wd, k)
    stats, uniq, samples, viols, seen = {}, set(), [], [], {}
    for i in range(k, n, shards):
        ch = Chooser("%d/%d" % (seed, i))
        v, desc, h, st = w.scenario(ch)
        stats["evaluations"] = stats.get("evaluations", 0) + 1
        uniq.add(h)
        for x, y in st.items():
            stats[x] = stats.get(x, 0) + y
        if len(samples) < 2 and i % 3 == 0:
            samples.append(desc + " hash=" + h)
        if v:
            kl = klass(v)
            seen[kl] = seen.get(kl, 0) + 1
            if seen[kl] > 1 or len(viols) >= 4:
                continue
            best = list(ch.list)

            def bad(lst):
                r = w.scenario(Chooser(lst=lst))
                return r[0] is not None and klass(r[0]) == kl
            while best and bad(best[:-1]):
                best.pop()
            for j in range(len(best)):
                if best[j]:
                    for x in (0, 1, best[j] // 2):
                        if x < best[j] and bad(best[:j] + [x] + best[j + 1:]):
                            best[j] = x
                            break
            a1, a2 = w.scenario(Chooser(lst=best)), w.scenario(Chooser(lst=best))
            viols.append(dict(viol=a1[0], desc=a1[1], hash=a1[2], choices=best, run=i, stable=a1[:3] == a2[:3]))
    stats["script_runs"] = w.runs
    return stats, list(uniq), samples, viols


def check(prop, tier, seed, evidence):
    t0 = time.time()
    n = int(os.environ.get("VERIF_RUNS", 4000 if tier == "quick" else 200000))
    wd = tempfile.mkdtemp(prefix="verif_C10_")
    try:
        build(wd)
        tb = time.time() - t0
        np = os.cpu_count() or 4
        with cf.ProcessPoolExecutor(np) as ex:
            res = list(ex.map(worker, [(wd, k, n, seed, np) for k in range(np)]))
        stats, uniq, samples, viols = {}, set(), [], []
        for s, u, sa, v in res:
            for k, x in s.items():
                stats[k] = stats.get(k, 0) + x
            uniq |= set(u)
            samples += sa[:1]
            viols += v
        errors, confirmed, seen = [], [], set()
        w = World(wd, 99)
        for v in viols:
            if not v["stable"]:
                errors.append("unstable: %s" % v)
                continue
            if klass(v["viol"]) in seen:
                continue
            r = w.scenario(Chooser(lst=v["choices"]))
            if (r[0], r[2]) != (v["viol"], v["hash"]):
                errors.append("replay differs: %s -> %s" % (v, r))
                continue
            seen.add(klass(v["viol"]))
            os.makedirs(HERE + "/replays", exist_ok=True)
            fn = "replays/%s-%s.json" % (prop, v["hash"])
            json.dump(dict(kind="install", property=prop, tier=tier, seed=seed, run=v["run"], choices=v["choices"], violation=v["viol"], hash=v["hash"], scenario=v["desc"]), open(HERE + "/" + fn, "w"), indent=1)
            confirmed.append((v, fn))
        wall = time.time() - t0
        ev = stats.pop("evaluations", 0)
        evidence(prop, tier, seed, dict(coverage=dict(
            evaluations=ev, distinct_nontrivial=len(uniq), samples=samples[:6],
            rule="One scenario = mode, prior contents of the destination, way of invocation, options, compiler behaviour and, for up to three invocations in a row, one fault at one call of one tool (tools taken from a probe run; a second complete installer run at that point is one of the fault kinds), followed by a fault-free last run. Distinct = hash of choices, tools' exit codes, calls seen, exit status and resulting tree.",
            runs_per_hour=int(ev / max(wall - tb, .01) * 3600), faults_and_schedule=stats,
            simulated_time_unit="steps (tool invocations); the script has no timers", distinct_measure="see rule",
            real_code="install.sh, /bin/sh, install, rm, dirname, grep, cut, cat, file system", stub_code="g++ (answers --version, the syntax test and the include search); failing calls come from the preload shim",
            public_headers=w.hdr, build_s=round(tb, 1)), assumptions=["faults are injected at libc calls of the tools and of the shell; at most one fault per invocation, up to three invocations per scenario plus a fault-free one",
            "tools are killed between calls, in the middle of a write, or together with the whole process group"], wall_s=round(wall, 1), violations=len(confirmed)))
        for v, fn in confirmed:
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            print("  %s\n  %s" % (v["viol"], v["desc"]), file=sys.stderr)
        print("C10: %d scenarios, %d script runs, %.1f s, %d violations, %d errors" % (ev, stats.get("script_runs", 0), wall, len(confirmed), len(errors)), file=sys.stderr)
        for e in errors[:5]:
            print("ERROR", e, file=sys.stderr)
        return 1 if confirmed else 2 if errors else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def replay(r):
    wd = tempfile.mkdtemp(prefix="verif_C10r_")
    try:
        build(wd)
        w = World(wd, 0)
        v, desc, h, st = w.scenario(Chooser(lst=r["choices"]))
        print(desc)
        print(v)
        same = (v, h) == (r["violation"], r["hash"])
        print("replay %s" % ("reproduced the recorded execution exactly" if same else "DIFFERS"))
        return 1 if v else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)
