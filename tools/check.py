#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for the working tree of /repo.

 1. TLC explores the specifications which state the property (bounded, exhaustive).
 2. The driver (harness/drv) is built from the current tree and runs
      - behaviours which TLC generated from the specifications (replayed),
      - random scripts and concurrent workloads of the property's profile,
    and records what the code did.
 3. TLC validates every recorded history against the specification.
A history which the specification rejects is a violation.
"""
import argparse, glob, json, os, re, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
from plans import PLANS


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLANS[prop]
        self.d = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.viol = []          # (what, replay path)
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.drv = {}
        self.mc = []
        self.errors = []
        self.lock = threading.Lock()
        self.t0 = time.time()
        self.nrep = 0

    # ---- violations ----
    def violation(self, what, replay):
        """replay: JSON object which tools/replay.py understands."""
        with self.lock:
            for k in known_findings():
                if k["property"] == self.prop and re.search(k["match"], what):
                    self.known.append(k["what"])
                    return
            os.makedirs(OUT, exist_ok=True)
            self.nrep += 1
            path = os.path.join(OUT, "%s-%s-%d.json" % (self.prop, self.tier, self.nrep))
            replay = dict(replay, property=self.prop, what=what)
            with open(path, "w") as f:
                json.dump(replay, f, indent=1)
            self.viol.append((what, path))

    # ---- driver ----
    def run_drv(self, sub, name, args, timeout, shards, procs=0):
        """Runs one subcommand. Crashes and hangs of the library are violations."""
        p = Proc([self.d + "/drv", sub, "-dir", self.d, "-name", name, "-shards", str(shards),
                  "-limit", {"ctl": "10s", "bulk": "100s"}.get(sub, "30s")] + args, env=goenv_run(procs), timeout=timeout)
        cur = self.d + "/" + name + ".current"
        if p.rc != 0:
            if p.rc == 2 and p.err.startswith("drv:"):
                raise CheckError("driver: " + p.err[:500])
            try:
                script = json.load(open(cur))
            except (OSError, ValueError):   # the process may have died while it wrote the file
                script = None
            self.crash(sub, name, script, p)
            return None
        i = p.out.rfind('{"scripts":')   # the library may print, too
        try:
            st = json.JSONDecoder().raw_decode(p.out[i:])[0] if i >= 0 else None
        except ValueError:
            st = None
        if st is None:
            raise CheckError("driver: no result: " + p.out[-500:] + p.err[-500:])
        if st.get("hung"):
            script = json.load(open(self.d + "/" + name + ".hung"))
            stacks = ""
            if os.path.exists(self.d + "/" + name + ".stacks"):
                stacks = open(self.d + "/" + name + ".stacks").read()[:6000]
            self.violation("%s: a call does not return (script %s)" % (sub, script["id"]),
                           dict(kind="hang", sub={"ctl": "conc", "seq": "script"}.get(sub, sub), script=script, stacks=stacks))
        return st

    def crash(self, sub, name, script, p):
        """The driver died. It is a violation if it happens again, with the same
        script or (memory corruption shows late) with the same workload."""
        what = first_error(p.err) if not p.timed_out else "time limit of the driver"
        s = {"ctl": "conc", "seq": "script"}.get(sub, sub)
        if script is not None:
            f = self.d + "/" + name + ".again"
            open(f, "w").write(json.dumps(script) + "\n")
            for _ in range(3):
                q = Proc([self.d + "/drv", s, "-in", f, "-dir", self.d, "-name", name + "again", "-limit", "30s" if s != "bulk" else "100s",
                          "-reps", "40" if s == "conc" else "3"], env=goenv_run(), timeout=120 if s != "bulk" else 250)
                if q.rc != 0 or '"hung"' in q.out:
                    self.violation("the process dies: %s (script %s)" % (what, script["id"]),
                                   dict(kind="crash", sub=s, script=script, stderr=q.err[:6000]))
                    return
        with self.lock:
            m = re.search(r"^(fatal error|panic|unexpected fault|SIG(SEGV|BUS))", p.err, re.M)
            i = m.start() if m else 0
            self.crashes.append((sub, name, what, script, p.err[i:i+6000]))

    # ---- trace validation ----
    def validate(self, name, lin, sub):
        """TLC on all shards of a driver run."""
        jobs = []
        for f in sorted(glob.glob(self.d + "/" + name + (".lin" if lin is True else "") + ".[0-9]*.ndjson")):
            if os.path.getsize(f):
                jobs.append(self.pool.submit(self.validate1, f, name, lin, sub))
        return jobs

    def validate1(self, f, name, lin, sub):
        spec = "TraceBulk" if lin == "bulk" else "TraceLin" if lin else "TraceSeq"
        p = tlc(spec + ".tla", spec + ".cfg", env=dict(TRACEFILE=f), workers=2, timeout=1500)
        n = sum(1 for _ in open(f))
        g, dist = tlc_stats(p.out)
        with self.lock:
            self.cov["transitions"] += g
            self.cov["states"] += dist
        if tlc_ok(p):
            with self.lock:
                self.cov["traces_validated_against_impl"] += n
            return
        m = re.findall(r"^/\\ h = (\d+)$", p.out, re.M)
        if "Deadlock reached" not in p.out or not m:
            raise CheckError("TLC on %s: %s" % (os.path.basename(f), p.out[-1500:] + p.err[-500:]))
        h = int(m[-1])
        l = int(re.findall(r"^/\\ l = (\d+)$", p.out, re.M)[-1])
        line = open(f).read().split("\n")[h - 1]
        t = json.loads(line)
        sid = t["id"].split("/")[0]
        script = None
        for sf in glob.glob(self.d + "/" + name + ".scripts") + glob.glob(self.d + "/" + name + ".in"):
            for sl in open(sf):
                if '"id":"%s"' % sid in sl or '"id": "%s"' % sid in sl:
                    script = json.loads(sl)
        ev = t["ev"][l - 1]
        t["ev"] = t["ev"][:l]
        want = re.findall(r"^/\\ (?:want|values) = (.*)$", p.out, re.M)
        what = "%s, event %d %s" % (t["id"], l, shrink_text(json.dumps(ev), 200))
        if want:
            what += " where the specification has " + want[-1]
        self.violation(what, dict(kind={True: "lin", False: "trace"}.get(lin, lin), sub=sub, spec=spec, trace=t, script=script))

    # ---- exploration of the specifications ----
    def model(self, m):
        """One exploration.  expect: the specification is changed (Bug) and must be rejected."""
        cfg = set_consts(m["cfg"], m.get("set", {}), self.d)
        p = tlc(m["tla"], cfg, workers=m.get("workers", 2), timeout=m.get("timeout", 700), heap="6g",
                extra=m.get("extra", ()))
        g, dist = tlc_stats(p.out)
        r = dict(spec=m["tla"], cfg=m["cfg"], constants=m.get("set", {}), checks=m["what"], states_generated=g,
                 distinct_states=dist, wall_s=round(p.wall, 1))
        if m.get("expect"):
            r["checks"] = "a changed algorithm is rejected"
        with self.lock:
            self.mc.append(r)
            self.cov["states"] += dist
            self.cov["transitions"] += g
        if m.get("expect"):
            if tlc_ok(p) or not ("is violated" in p.out or "evaluating" in p.out or "Attempted" in p.out
                                 or "Deadlock reached" in p.out or "violated" in p.out):
                raise CheckError("%s %s accepts %s: %s" % (m["tla"], m["cfg"], m["set"], p.out[-1500:]))
            return
        if p.timed_out:
            r["stopped"] = "time limit, no violation so far"
            return
        if not tlc_ok(p):
            raise CheckError("model checking of %s %s %s fails: %s" % (m["tla"], m["cfg"], m.get("set"), p.out[-3000:]))

    # ---- all of it ----
    def run(self):
        self.crashes = []
        quick = self.tier == "quick"
        how = build(self.d)
        self.cov["build"] = how
        self.pool = ThreadPoolExecutor(4)
        mcpool = ThreadPoolExecutor(2 if quick else 3)
        jobs = []
        for m in self.plan.get("mc", []):
            if quick and m.get("thorough"):
                continue
            jobs.append(mcpool.submit(self.model, m))
        rounds = 1 if quick else 1000
        tl = time.time() + (self.plan.get("thorough_s", 420))
        for rnd in range(rounds):
            seed = self.seed + 1000 * rnd
            stages = []
            for i, b in enumerate(self.plan.get("replay", []) if rnd == 0 else []):
                if quick and b.get("thorough"):
                    continue
                stages.append(("script", "b%d" % i, b))
            if "seq" in self.plan:
                stages.append(("seq", "s%d" % rnd, self.plan["seq"]))
            if "conc" in self.plan:
                stages.append(("conc", "c%d" % rnd, self.plan["conc"]))
            vj = []
            if "ctl" in self.plan:
                vj += self.control(rnd, seed, quick)
            if "bulk" in self.plan:
                vj += self.bulk(rnd, seed, quick)
            for sub, name, n in stages:
                if sub == "script":
                    f = self.d + "/" + name + ".in"
                    cmd = [sys.executable, VERIF + "/tools/" + n["gen"], "--out", f, "--seed", str(seed),
                           "--tier", self.tier, "--prop", self.prop] + n.get("args", [])
                    p = Proc(cmd, timeout=800)
                    if p.rc:
                        raise CheckError("generation of behaviours: " + p.err[-1500:])
                    g = json.loads(p.out)
                    self.cov.setdefault("behaviours", []).append(g)
                    self.cov["states"] += g.get("states", 0)
                    self.cov["transitions"] += g.get("transitions", 0)
                    if n.get("conc"):
                        sub = "conc"
                    st = self.run_drv(sub, name, ["-in", f] + n.get("drv", []), 600, 4)
                else:
                    st = self.run_drv(sub, name, ["-prop", self.prop, "-seed", str(seed), "-n", "1000000",
                                                  "-events", str(n if quick else 2 * n), "-budget", "60s"], 400, 4)
                if st is None:
                    continue
                self.merge(sub, st)
                vj += self.validate(name, False, "conc" if sub == "conc" else "script")
                if sub == "conc":
                    vj += self.validate(name, True, "conc")
            for j in vj:
                j.result()
            for f in glob.glob(self.d + "/[sckg]%d[p.]*" % rnd):
                os.remove(f)
            if self.viol or self.crashes or time.time() > tl:
                break
        for j in jobs:
            j.result()
        if self.crashes and not self.viol:
            # not reproduced by the script alone: the same workload again
            sub, name, what, script, err = self.crashes[0]
            n0 = len(self.crashes)
            for i in range(3):
                if sub in ("ctl", "bulk"):
                    for j in (self.control if sub == "ctl" else self.bulk)(0, self.seed, True):
                        j.result()
                    if len(self.crashes) > n0 or self.viol:
                        break
                    continue
                self.run_drv(sub, name + "r", ["-prop", self.prop, "-seed", str(self.seed), "-n", "1000000",
                                               "-events", str(self.plan[sub]), "-budget", "60s"], 400, 4)
                if len(self.crashes) > n0 or self.viol:
                    break
            if len(self.crashes) > n0 and not self.viol:
                self.violation("the process dies repeatedly: " + what,
                               dict(kind="crash", sub=sub, script=script, stderr=err))
            elif not self.viol and re.search(r"^(fatal error|panic|unexpected fault|SIG(SEGV|BUS))", err, re.M) and \
                    "kazu/skiplistmap" in err and not re.search(r"out of memory|cannot allocate|thread exhaustion", err):
                self.violation("the process dies: " + what, dict(kind="crash", sub=sub, script=script, stderr=err))
            elif not self.viol:
                raise CheckError("driver died once, not reproduced: %s\n%s" % (what, err[:1500]))

    def control(self, rnd, seed, quick):
        """Schedules of small programs: several processes, each on its own programs."""
        c = self.plan["ctl"]
        n = c.get("procs", 6)
        t = c.get("seconds", 20) * (1 if quick else 3)

        def one(j):
            name = "k%dp%d" % (rnd, j)
            return name, self.run_drv("ctl", name, ["-prop", self.prop, "-seed", str(seed * 100 + j), "-n", "10000000",
                                                    "-events", "40000" if quick else "200000", "-budget", "%ds" % t,
                                                    "-per", str(c.get("per", 400) * (1 if rnd % 2 == 0 else 4))],
                                      t + 200, 1, procs=2)
        vj = []
        with ThreadPoolExecutor(n) as ex:
            for name, st in ex.map(one, range(n)):
                if st is None:
                    continue
                self.merge("ctl", st)
                vj += self.validate(name, False, "conc")
                vj += self.validate(name, True, "conc")
        return vj

    def bulk(self, rnd, seed, quick):
        """Histories at scale: blocks of many keys."""
        b = self.plan["bulk"]
        n = b.get("procs", 3)
        t = b.get("seconds", 10) * (1 if quick else 4)

        def one(j):
            name = "g%dp%d" % (rnd, j)
            return name, self.run_drv("bulk", name, ["-prop", self.prop, "-seed", str(seed * 100 + j), "-n", "10000000",
                                                     "-budget", "%ds" % t, "-off", str(j + rnd), "-stride", str(n)],
                                      t + 300, 1)
        vj = []
        with ThreadPoolExecutor(n) as ex:
            for name, st in ex.map(one, range(n)):
                if st is not None:
                    self.merge("bulk", st)
                    vj += self.validate(name, "bulk", "bulk")
        return vj

    def merge(self, sub, st):
        d = self.drv.setdefault(sub, dict(scripts=0, events=0, distinct=0, by_op={}, by_store={}, extra={}))
        for k in ("scripts", "events", "distinct"):
            d[k] += st.get(k, 0)
        for k in ("by_op", "by_store", "extra"):
            for a, b in (st.get(k) or {}).items():
                d[k][a] = d[k].get(a, 0) + b
        d["exact_hash_keys"] = st.get("exact_hash_keys")
        for s in st.get("samples") or []:
            if len(self.cov["samples"]) < 4:
                self.cov["samples"].append(s)

    def evidence(self):
        self.cov["implementation_runs"] = self.drv
        self.cov["model_checking_runs"] = self.mc
        self.cov["rule"] = ("traces: recorded histories of the code that TLC accepted as behaviours of the "
                            "specification; states/transitions: of all TLC runs of this check; distinct: scripts "
                            "with different maps, operations and hash order, more than 3 events")
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=self.cov,
                  assumptions=self.plan.get("assumptions", []) + COMMON_ASSUMPTIONS,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as f:
            json.dump(ev, f, indent=1)


COMMON_ASSUMPTIONS = [
    "the driver records calls and results faithfully (call/return order by one atomic counter)",
    "TLC and the Go toolchain are correct",
    "traces are a sample of all histories; exhaustive only within the bounds of the models",
]


def known_findings():
    """Lines 'known: property=ID match=REGEX what'. Lines 'fixed: ...' suppress nothing."""
    out = []
    for l in open(VERIF + "/known-findings.txt"):
        m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l)
        if m:
            out.append(dict(property=m[1], match=m[2], what=m[3]))
    return out


def first_error(err):
    for l in err.split("\n"):
        if l.startswith(("fatal error:", "panic:", "runtime:", "unexpected fault", "SIG")):
            return l[:200]
    return err[:200]


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a.add_argument("--keep", action="store_true")
    o = a.parse_args()
    c = Check(o.prop, "thorough" if o.tier == "thorough" else "quick", o.seed)
    rc = 0
    try:
        try:
            c.run()
        except CheckError as e:
            c.errors.append(str(e))
        except Exception:
            c.errors.append(traceback.format_exc())
        c.evidence()
        for k in sorted(set(c.known)):
            print("KNOWN-FINDING: property=%s %s" % (o.prop, k))
        for what, path in c.viol:
            print("violated: " + what)
            print("VIOLATION property=%s replay=%s" % (o.prop, path))
            rc = 1
        for e in c.errors:
            print("error: " + e, file=sys.stderr)
            rc = rc or 2
        if rc == 0:
            print("ok: property=%s %s, %d histories validated, %d states, %.0f s" %
                  (o.prop, c.tier, c.cov["traces_validated_against_impl"], c.cov["states"], time.time() - c.t0))
    finally:
        if not o.keep:
            shutil.rmtree(c.d, ignore_errors=True)
        else:
            print(c.d)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
