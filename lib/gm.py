"""Shared machinery of the checks: builds drivers from /repo's sources, runs
them, hands the recorded traces to TLC, and reports.  It decides nothing about
the code under test: a violation is a trace that TLC rejects."""
import collections
import glob
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GM_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CMJ = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

PORT = ["-DSUPPORT_SM3_YANG15", "-DSUPPORT_SM4_LANG18"]
SIMD = PORT + [
    "-DCPU_FLAG_SSE2", "-DCPU_FLAG_AVX2", "-DCPU_FLAG_AES", "-DCPU_FLAG_MOVBE",
    "-DCPU_FLAG_BMI2", "-DCPU_FLAG_RDSEED", "-DCPU_FLAG_RDRAND", "-DCPU_FLAG_PCLMUL",
    "-msse2", "-mavx2", "-maes", "-mmovbe", "-mbmi2", "-mrdseed", "-mrdrnd", "-mpclmul"]
CONFIGS = {"base": [], "port": PORT, "simd": SIMD}


TSAN = ["-fsanitize=thread", "-g"]


class CheckError(Exception):
    """the check itself failed (exit 2)"""


def cpu_configs():
    """the build configurations this processor can run"""
    flags = ""
    try:
        flags = open("/proc/cpuinfo").read()
    except OSError:
        pass
    need = ["avx2", "aes", "movbe", "bmi2", "pclmulqdq", "rdrand", "rdseed"]
    return ["base", "port", "simd"] if all(n in flags for n in need) else ["base", "port"]


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = self.tier != "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="gmverif.")
        self.lock = threading.Lock()
        self.states = 0
        self.transitions = 0
        self.traces_ok = 0
        self.evaluations = 0
        self.samples = []
        self.cases = {}
        self.models = []
        self.notes = []
        self.violations = []
        self.known_hits = {}
        self.jobs = {}
        self.jobs_named = []
        self.pending = {}
        self.bg = ThreadPoolExecutor(2)
        self.bgs = []
        self.classes = None
        self.overrides_checked = 0
        self.pool = ThreadPoolExecutor(NCPU)
        self.known = load_known(pid)

    def log(self, what):
        if os.environ.get("GM_VERBOSE"):
            print("[%6.1f] %s" % (time.time() - self.t0, what), file=sys.stderr, flush=True)

    # ---------------------------------------------------------------- build
    def sh(self, cmd, **kw):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

    def _cc(self, args, what):
        p = self.sh(args)
        if p.returncode != 0:
            raise CheckError("cannot compile %s\n%s" % (what, p.stderr.decode(errors="replace")[-3000:]))

    def build(self, name, cfg, sources, extra=(), opt="-O1", drvsrc=None, tag=""):
        """start building driver 'name' in configuration cfg; returns a future of the path.
        The listed sources are those the driver is known to need.  When that does not link,
        everything under src is offered to the linker; a driver that does not compile is
        tried again without the parts that use internal interfaces."""
        out = os.path.join(self.dir, "%s-%s%s" % (name, cfg, tag))
        flags = ["-std=c++17", opt, "-w"] + CONFIGS[cfg] + list(extra) + ["-I" + os.path.join(REPO, "include"), "-I" + DRV]

        def compile(src, more=()):
            fl = flags + list(more)
            o = os.path.join(self.dir, "o" + hashlib.md5((src + "|" + " ".join(fl)).encode()).hexdigest()[:16] + ".o")
            with self.lock:
                if o not in self.jobs:
                    self.jobs[o] = self.pool.submit(self._cc, ["g++"] + fl + ["-c", src, "-o", o], os.path.basename(src))
                return o, self.jobs[o]
        drv = os.path.join(DRV, (drvsrc or name) + ".cpp")
        first = compile(drv)
        have = [os.path.join(REPO, x) for x in sources if os.path.exists(os.path.join(REPO, x))]
        rest = [compile(x) for x in have]
        linkflags = [f for f in extra if f.startswith("-fsanitize") or f.startswith("-l")]

        class Linker:
            done = None

            def path(me):
                if me.done is None:
                    try:
                        first[1].result()
                        obj = first[0]
                    except CheckError:
                        obj, f = compile(drv, ["-DNO_INTERNAL"])
                        f.result()
                        self.notes.append("%s was built without internal interfaces" % name)
                    for _, f in rest:
                        f.result()
                    objs = [obj] + [o for o, _ in rest]
                    try:
                        self._cc(["g++"] + objs + ["-o", out, "-lpthread"] + linkflags, name)
                    except CheckError:
                        others = [compile(x) for x in sorted(glob.glob(os.path.join(REPO, "src/**/*.cpp"), recursive=True)) if x not in have]
                        good = []
                        for o, f in others:
                            try:
                                f.result()
                                good.append(o)
                            except CheckError:
                                pass
                        lib = out + ".a"
                        self._cc(["ar", "rcs", lib] + good, "library")
                        self._cc(["g++"] + objs + [lib, "-o", out, "-lpthread"] + linkflags, name)
                    me.done = out
                    self.log("built " + os.path.basename(out))
                return me.done
        return Linker()

    # ---------------------------------------------------------------- drive
    def _drive_once(self, exe, cmds, env=None, limit=600):
        """run the commands; returns {trace name: [event json text]} in order"""
        fd, cf = tempfile.mkstemp(dir=self.dir, suffix=".cmd")
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(cmds) + "\n")
        of = cf + ".out"
        res = {}
        names = [c.split(" ")[1] for c in cmds if c.startswith("T ")]
        index = {n: i for i, n in enumerate(names)}
        for n in names:
            res[n] = []
        skip = 0
        while True:
            if os.path.exists(of):
                os.unlink(of)
            e = dict(os.environ)
            if not self.quick:
                e["GM_LIMIT"], e["GM_MEET"] = "200", "100"
            e.update(env or {})
            try:
                p = subprocess.run([exe, cf, of, str(skip)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                   env=e, cwd=self.dir, timeout=limit)
                rc, err = p.returncode, p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                rc, err = -99, ""
            last = None
            if os.path.exists(of):
                with open(of) as f:
                    for line in f:
                        if not line.startswith('{"t":"') or not line.endswith("}\n"):
                            continue
                        k = line.index('"', 6)
                        n = line[6:k]
                        ev = "{" + line[k + 2:-1]
                        if n in res:
                            res[n].append(ev)
                            last = n
            if rc == 0:
                break
            if rc == 3:  # a fault was recorded
                nxt = index.get(last, -1) + 1
            elif rc < 0 or rc >= 128 or "ERROR: AddressSanitizer" in err or "ThreadSanitizer" in err or "runtime error" in err:
                m = re.search(r"(AddressSanitizer|ThreadSanitizer|runtime error)[^\n]*", err)
                if last is None:
                    last = names[skip]
                    nxt = skip + 1
                else:
                    nxt = index[last] + 1
                    # the event after the last one recorded did not return
                res[last].append(json.dumps({"op": "fault", "what": "killed %d %s" % (rc, m.group(0)[:120] if m else ""), "call": "?"}))
            else:
                raise CheckError("driver %s ended with %d: %s" % (os.path.basename(exe), rc, err[-500:]))
            if nxt <= skip:
                nxt = skip + 1
            skip = nxt
            if skip >= len(names):
                break
            self.faults = getattr(self, "faults", 0) + 1
            if self.faults > 20 or (last and '"what":"timeout"' in res[last][-1].replace(": ", ":")):
                break
        os.unlink(cf)
        if os.path.exists(of):
            os.unlink(of)
        return {n: v for n, v in res.items() if v}

    def drive(self, exe, cmds, env=None):
        """split the traces over processes, keep their order"""
        groups, left, fresh = [], 0, False
        for c in cmds:
            if c.startswith("PAR "):
                groups.append([c])
                left, fresh = int(c.split()[1]), True
            elif c.startswith("T "):
                if left > 0:
                    left -= 1
                    groups[-1].append(c)
                else:
                    groups.append([c])
            else:
                groups[-1].append(c)
        n = max(1, min(NCPU, len(groups)))
        parts = [[] for _ in range(n)]
        sizes = [0] * n
        for g in groups:
            i = sizes.index(min(sizes))
            parts[i].append(g)
            sizes[i] += sum(len(x) for x in g) + 50
        futs = [self.pool.submit(self._drive_once, exe, [c for g in p for c in g], env) for p in parts if p]
        res = {}
        for f in futs:
            res.update(f.result())
        self.log("drove %d traces" % len(res))
        order = [c.split(" ")[1] for c in cmds if c.startswith("T ")]
        return {n: res[n] for n in order if n in res}

    # ---------------------------------------------------------------- TLC
    def java_classes(self):
        with self.lock:
            if self.classes is None:
                d = os.path.join(self.dir, "cls")
                os.makedirs(d, exist_ok=True)
                self._cc(["javac", "-nowarn", "-cp", JAR, "-d", d] + glob.glob(os.path.join(VERIF, "java/gm/*.java")), "overrides")
                self.classes = d
        return self.classes

    def tlc(self, module, cfg=None, env=None, workers=NCPU, xmx="6g", extra=(), overrides=True, limit=850):
        cls = self.java_classes()
        meta = tempfile.mkdtemp(dir=self.dir, prefix="meta")
        cfgfile = os.path.join(SPEC, cfg or module + ".cfg")
        if cfg and "\n" in cfg:
            cfgfile = os.path.join(meta, "M.cfg")
            with open(cfgfile, "w") as f:
                f.write(cfg)
        ov = "tlc2.overrides.TLCOverrides" + (":gm.Ovr" if overrides else "")
        cmd = ["java"] + (["-XX:TieredStopAtLevel=1"] if self.quick and "GM_FULLJIT" not in (env or {}) else []) + ["-XX:+UseParallelGC", "-Xss64m", "-Xmx" + xmx, "-Dtlc2.overrides.TLCOverrides=" + ov,
               "-Djava.io.tmpdir=" + meta,
               "-cp", ":".join([cls, JAR, CMJ]), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-noGenerateSpecTE", "-config", cfgfile] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=meta, timeout=limit)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s took over %d s" % (module, limit))
        out = p.stdout.decode(errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        self.log("TLC %s done" % module)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        if not m:
            k = re.search(r"number of states generated: (\d+)", out)
            if k:
                return {"rc": p.returncode, "out": out, "gen": int(k.group(1)), "distinct": int(k.group(1)), "left": 0}
        return {"rc": p.returncode, "out": out, "gen": int(m.group(1)) if m else -1,
                "distinct": int(m.group(2)) if m else -1, "left": int(m.group(3)) if m else -1}

    def model(self, module, cfg=None, env=None, workers=NCPU, what="", expect_actions=(), limit=850):
        """exhaustive check of a design model; it must hold (it does not read the code)"""
        t = time.time()
        r = self.tlc(module, cfg, env, workers, extra=["-coverage", "60"] if expect_actions else (), limit=limit)
        if r["rc"] != 0 or r["left"] != 0:
            raise CheckError("model %s/%s does not check:\n%s" % (module, cfg, r["out"][-3000:]))
        for a in expect_actions:
            m = re.findall(r"<%s line[^>]*>: (\d+):(\d+)" % a, r["out"])
            if not m or int(m[-1][1]) == 0:
                raise CheckError("model %s: action %s was never taken" % (module, a))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["gen"]
            self.models.append({"model": module, "what": what, "distinct_states": r["distinct"],
                                "states_generated": r["gen"], "wall_s": round(time.time() - t, 1)})
        return r

    def overrides(self, n=None):
        """the Java forms of the specification's operators agree with their definitions"""
        n = n or (40 if self.quick else 2000)
        self.model("OverrideCheck", env={"GM_N": str(n), "GM_SEED": str(self.seed)}, what="evaluated forms agree with the definitions")

    def background(self, f, *a, **k):
        """run a model check beside the rest"""
        t = self.bg.submit(f, *a, **k)
        self.bgs.append(t)
        return t

    def behaviours(self, module, cfg=None, env=None, workers=NCPU, extra=(), what="behaviour generation"):
        """behaviours the specification prints as "BEH <json>" """
        r = self.tlc(module, cfg, env, workers, extra=extra)
        if r["rc"] != 0:
            raise CheckError("generator %s/%s failed:\n%s" % (module, cfg, r["out"][-3000:]))
        res = []
        for line in r["out"].splitlines():
            if line.startswith('"BEH '):
                res.append(json.loads(line)[4:])
        # workers print in any order
        res = [json.loads(x) for x in sorted(res, key=lambda x: (len(x), x))]
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["gen"]
            self.models.append({"model": module, "what": what, "distinct_states": r["distinct"],
                                "states_generated": r["gen"], "behaviours": len(res)})
        return res

    def _tlc_traces(self, module, items, cfg=None, env=None, workers=NCPU, xmx="6g"):
        """items: [(name, [event json])]; returns {name: (position, reason)} of rejected traces"""
        fd, tf = tempfile.mkstemp(dir=self.dir, suffix=".ndjson")
        with os.fdopen(fd, "w") as f:
            for n, evs in items:
                f.write('{"t":"%s","ev":[%s]}\n' % (n, ",".join(evs)))
        e = {"GM_TRACE": tf}
        e.update(env or {})
        r = self.tlc(module, cfg, e, workers, xmx=xmx)
        os.unlink(tf)
        rej, unlisted = {}, []
        for m in re.finditer(r'<<\s*"REJECT",\s*"([^"]+)",\s*(\d+),\s*(.*?)>>\s*?\n(?=\S)', r["out"] + "\nX", re.S):
            rej[m.group(1)] = (int(m.group(2)), re.sub(r"\s+", " ", m.group(3))[:1500])
        known = {k["tag"]: k["what"] for k in self.known}
        for m in re.finditer(r'<<\s*"KNOWN",\s*"([^"]+)",\s*(\d+),\s*"([^"]+)"\s*>>', r["out"]):
            n, pos, tag = m.group(1), int(m.group(2)), m.group(3)
            if tag in known:
                self.known_hit(tag, known[tag])
            else:
                unlisted.append((n, pos, tag))
        total = sum(len(v) for _, v in items) + len(items)
        okstates = total
        for n, evs in items:
            if n in rej:
                okstates -= len(evs) - (rej[n][0] - 1)
        if r["rc"] != 0 or r["distinct"] != okstates:
            raise CheckError("trace validation with %s failed (rc %d, %d states, expected %d):\n%s"
                             % (module, r["rc"], r["distinct"], okstates, r["out"][-4000:]))
        with self.lock:
            self.states += r["distinct"]
            self.transitions += r["gen"]
        for n, pos, tag in unlisted:
            rej.setdefault(n, (pos, tag))
        return rej

    def validate(self, module, traces, cfg=None, env=None, jvms=1, xmx="6g"):
        items = list(traces.items())
        if not items:
            return {}
        if jvms <= 1:
            return self._tlc_traces(module, items, cfg, env, NCPU, xmx)
        parts = [[] for _ in range(jvms)]
        sizes = [0] * jvms
        for it in sorted(items, key=lambda x: -sum(len(s) for s in x[1])):
            i = sizes.index(min(sizes))
            parts[i].append(it)
            sizes[i] += sum(len(s) for s in it[1]) + 100
        with ThreadPoolExecutor(jvms) as ex:
            futs = [ex.submit(self._tlc_traces, module, p, cfg, env, max(1, NCPU // jvms), xmx) for p in parts if p]
            rej = {}
            for f in futs:
                rej.update(f.result())
        return rej

    # ---------------------------------------------------------------- conformance
    def conform(self, module, exe, cmds, label, cfg=None, env=None, jvms=2, drv_env=None, xmx="6g", defer=False):
        """run the commands on the real code and validate every trace"""
        if not isinstance(exe, str):
            exe = exe.path()
        tr = self.drive(exe, cmds, drv_env)
        want = sum(1 for c in cmds if c.startswith("T "))
        if len(tr) < want and not any('"op": "fault"' in e or '"op":"fault"' in e for v in tr.values() for e in v):
            raise CheckError("%s: %d traces expected, %d recorded" % (label, want, len(tr)))
        job = {"exe": exe, "cmds": cmds, "label": label, "drv_env": drv_env, "tr": tr}
        key = (module, cfg, json.dumps(env))
        with self.lock:
            self.pending.setdefault(key, []).append(job)
        if not defer:
            self.flush(jvms, xmx)
        return tr

    def threads(self, module, exe, tsan, cmds, label, n, width=4, rounds=1, only="", longest=None):
        """n of the traces again, several at a time in threads: on the plain build and under the race detector"""
        every = [t for t in split_traces(cmds) if sum(map(len, t)) < 200000 and len(t) < (longest or 2000) and only in t[0]]
        ts = [t for t in every if sum(map(len, t)) < 20000 and len(t) < 200]
        if len(ts) > n:
            i = self.rng.randrange(len(ts) - n + 1)
            pick = self.rng.sample(ts, n - n // 2) + ts[i:i + n // 2]
            pick = list({t[0]: t for t in pick}.values())
            ts = pick[:len(pick) - len(pick) % width] + together(every, pick, width, self.rng, max(3 * n, 64) if self.quick else 2000)
        tag = "%d" % len(self.jobs_named)
        self.jobs_named.append(label)
        self.conform(module, exe, parallel(ts, "th" + tag, width, rounds), label + ", in threads", defer=True)
        self.conform(module, tsan, parallel(ts, "ts" + tag, width, rounds), label + ", in threads, race detector", defer=True)

    def shared(self, module, exe, tsan, groups, label):
        """groups (prelude, bodies): the bodies in threads, all on the objects the prelude made, which they do not change"""
        tag = "%d" % len(self.jobs_named)
        self.jobs_named.append(label)
        for e, t, what in ((exe, "sh", ""), (tsan, "st", ", race detector")):
            if e:
                cmds = [x for i, (p, bs) in enumerate(groups) for x in shared(p, bs, "%s%s.%d" % (t, tag, i))]
                self.conform(module, e, cmds, label + ", objects shared by threads" + what, defer=True)

    def flush(self, jvms=4, xmx="3g"):
        """validate every trace recorded since the last flush"""
        pend, self.pending = self.pending, {}
        for (module, cfg, envs), jobs in pend.items():
            env = json.loads(envs)
            alltr, owner = {}, {}
            for j in jobs:
                for n, v in j["tr"].items():
                    if n in alltr:
                        raise CheckError("trace name %s is used twice" % n)
                    alltr[n], owner[n] = v, j
            rej = self.validate(module, alltr, cfg, env, jvms, xmx)
            for j in jobs:
                nev = sum(len(v) for v in j["tr"].values())
                self.traces_ok += len(j["tr"])
                self.evaluations += nev
                c = self.cases.setdefault(j["label"], {"traces": 0, "events": 0})
                c["traces"] += len(j["tr"])
                c["events"] += nev
                if len(self.samples) < 12:
                    for n in list(j["tr"])[: 2 if len(self.samples) < 6 else 1]:
                        self.samples.append({"trace": n, "events": [e[:300] for e in j["tr"][n][:3]]})
            self.traces_ok -= len(rej)
            tried = 0
            for n, (pos, why) in sorted(rej.items()):
                j = owner[n]
                if len(self.violations) < 3 and tried < 6:
                    tried += 1
                    self._confirm(module, j["exe"], j["cmds"], n, pos, why, j["tr"][n], j["label"], cfg, env, j["drv_env"])
            if rej and not self.violations:
                # not repeatable alone: does the whole run repeat it?
                for j in {id(owner[n]): owner[n] for n in rej}.values():
                    tr2 = self.drive(j["exe"], j["cmds"], j["drv_env"])
                    rej2 = self.validate(module, tr2, cfg, env, jvms, xmx)
                    if rej2:
                        n = sorted(rej2)[0]
                        pos, why = rej2[n]
                        self.violations.append({
                            "trace": n, "label": j["label"], "module": module, "position": pos, "expected": why,
                            "event": tr2[n][pos - 1] if pos - 1 < len(tr2[n]) else None, "rejected": len(rej2),
                            "commands": j["cmds"][:2000], "driver": os.path.basename(j["exe"]),
                            "note": "needs the calls of other traces in the same process"})
                        break

    def _confirm(self, module, exe, cmds, name, pos, why, evs, label, cfg, env, drv_env):
        mine = extract(cmds, name)
        for _ in range(8 if any(c.startswith("PAR") for c in mine) else 1):
            tr2 = self.drive(exe, mine, drv_env)
            rej2 = self._tlc_traces(module, list(tr2.items()), cfg, env, 2)
            if rej2:
                self.violations.append({"trace": name, "label": label, "module": module, "position": pos, "expected": why,
                                        "event": evs[pos - 1] if pos - 1 < len(evs) else None, "commands": mine,
                                        "driver": os.path.basename(exe)})
                return
        self.notes.append("a rejection of %s did not repeat alone: %s" % (name, why[:200]))

    def known_hit(self, tag, what):
        self.known_hits.setdefault(tag, what)

    # ---------------------------------------------------------------- report
    def finish(self, level="model_checking", assumptions=(), extra_cov=None):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces_ok, "evaluations": self.evaluations,
               "samples": self.samples[:12] or ["no traces"], "models": self.models, "conformance": self.cases,
               "notes": self.notes}
        cov.update(extra_cov or {})
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": list(assumptions), "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for tag, what in self.known_hits.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        rc = 0
        if self.violations:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.pid)
            with open(path, "w") as f:
                json.dump(self.violations, f, indent=1)
            v = self.violations[0]
            print("%s: trace %s event %s rejected by %s" % (self.pid, v.get("trace"), v.get("position"), v.get("module")))
            print("  event:    %s" % str(v.get("event"))[:600])
            print("  expected: %s" % str(v.get("expected"))[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            rc = 1
        else:
            print("%s ok: %d states, %d traces (%d events) validated, %.1f s"
                  % (self.pid, self.states, self.traces_ok, self.evaluations, wall))
        return rc

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def extract(cmds, name):
    """the commands of one trace (with its parallel group)"""
    i = next(k for k, c in enumerate(cmds) if c == "T " + name)
    # the parallel group it belongs to, if any
    k = i
    seen = 0
    while k >= 0 and seen <= 64:
        if cmds[k].startswith("T "):
            seen += 1
        if cmds[k].startswith("PAR "):
            n = int(cmds[k].split()[1])
            if seen > n:
                break
            j, left = k + 1, n
            while j < len(cmds):
                if cmds[j].startswith("T "):
                    left -= 1
                    if left < 0:
                        break
                if cmds[j].startswith("PAR "):
                    break
                j += 1
            return cmds[k:j]
        k -= 1
    j = i + 1
    while j < len(cmds) and not cmds[j].startswith("T ") and not cmds[j].startswith("PAR "):
        j += 1
    return cmds[i:j]


def split_traces(cmds):
    """the traces of a command list, parallel groups dissolved"""
    res = []
    for x in cmds:
        if x.startswith("PAR "):
            continue
        if x.startswith("T "):
            res.append([x])
        else:
            res[-1].append(x)
    return res


def parallel(traces, prefix, width=4, rounds=1):
    """traces (lists of commands) as groups that run in threads of one process"""
    o = []
    for i in range(0, len(traces) - len(traces) % width, width):
        o.append("PAR %d" % width)
        for t in traces[i:i + width]:
            o += ["T %s.%s" % (prefix, t[0][2:])] + t[1:] * rounds
    return o


def operation(cmd):
    """what a command does, without its operands"""
    w = cmd.split(" ")
    form = [w[-1][:2]] if w[0] in ("pdec", "dec") and len(w[-1]) > 60 and w[-1][:2] in ("02", "03", "04", "06") else []
    return " ".join([w[0]] + [x for x in w[1:4] if x.isalpha() and len(x) < 8] + form)


def together(ts, have, width, rng, limit):
    """more groups of traces, so that every operation is done by two threads at the same time;
    for each the traces that do it most of the time"""
    ops = {t[0]: collections.Counter(operation(x) for x in t[1:]) for t in ts}
    share = {t[0]: {o: n / (len(t) + 3) for o, n in ops[t[0]].items()} for t in ts}
    best, by, done = {}, {}, set()
    for t in ts:
        for o, v in share[t[0]].items():
            best[o] = max(best.get(o, 0), v)
            by.setdefault(o, []).append(t)

    def did(g):
        n = collections.Counter(o for t in g for o, v in share[t[0]].items() if v >= best[o] / 2)
        done.update(o for o in n if n[o] > 1)
    for i in range(0, len(have) - len(have) % width, width):
        did(have[i:i + width])
    res, copies = [], 0
    for o in sorted(by, key=lambda o: (len(by[o]), o)):
        if o in done or len(res) >= limit:
            continue
        g = sorted(by[o], key=lambda t: (-share[t[0]][o], len(t), t[0]))
        g = g[:width] if len(g) <= 2 * width else rng.sample(g[:max(width, len(g) // 4)], width)
        did([g[i % len(g)] for i in range(width)])
        for i in range(width):
            res.append([g[i % len(g)][0] + ".w%d" % copies] + g[i % len(g)][1:])
            copies += 1
    return res


def shared(prelude, bodies, prefix):
    """traces in threads that use the same objects, made by the prelude, without changing them"""
    o = ["PAR %d %d" % (len(bodies), len(prelude))]
    for i, b in enumerate(bodies):
        o += ["T %s.%d" % (prefix, i)] + prelude + b
    return o


def load_known(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == pid]


def tweak(r, b, j=None):
    """b with one byte changed"""
    if not b:
        return b
    b = bytearray(b)
    b[r.randrange(len(b)) if j is None else j] ^= r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])
    return bytes(b)


def hx(b):
    return bytes(b).hex() or "-"


def main(pid, body):
    c = Check(pid)
    rc = 2
    try:
        body(c)
        c.flush()
        for t in c.bgs:
            t.result()
        rc = c.finish(*c.fin_args if hasattr(c, "fin_args") else ())
    except CheckError as e:
        print("%s: check error: %s" % (pid, e), file=sys.stderr)
        rc = 2
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
        c.close()
    sys.stdout.flush()
    os._exit(rc)
