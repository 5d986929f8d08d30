"""Common parts of the checks: building the driver from /repo, running it, running TLC."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.path.join(VERIF, "out")


class CheckError(Exception):
    """the check could not decide"""


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    g = "/opt/veriftools/go1.23.12/bin"
    if os.path.isdir(g):
        e["PATH"] = g + ":" + e["PATH"]
    return e


def goenv_run(procs=0):
    e = dict(os.environ)
    if procs:
        e["GOMAXPROCS"] = str(procs)
    e["GODEBUG"] = "clobberfree=1"
    e["GOTRACEBACK"] = "all"
    return e


def sh(cmd, env=None, cwd=None, timeout=600):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def build(d):
    """Builds the driver against the working tree of REPO, in d. Returns how.

    The library is compiled as it is, but for an overlay (made by harness/instr from its
    current source) which adds scheduling points and lets some keys choose their hash."""
    env = goenv()
    e1 = dict(env, GO111MODULE="off", GOFLAGS="")
    r = sh(["go", "build", "-o", d + "/instr", "main.go"], env=e1, cwd=VERIF + "/harness/instr")
    if r.returncode:
        raise CheckError("instrumenter does not build:\n" + r.stdout[-2000:])
    mod = open(REPO + "/go.mod").read()
    mod = re.sub(r"^module .*", "module verifdrv", mod, flags=re.M)
    mod = re.sub(r"^go .*", "go 1.23", mod, flags=re.M)
    mod += "\nrequire github.com/kazu/skiplistmap v0.0.0\nreplace github.com/kazu/skiplistmap => %s\n" % REPO
    open(d + "/go.mod", "w").write(mod)
    shutil.copy(REPO + "/go.sum", d + "/go.sum")
    log = ""
    for how in ("full", "full-hashtop", "nosync", "noyield", "plain"):
        cmd = ["go", "build", "-modfile=" + d + "/go.mod"]
        if how != "plain":
            shutil.rmtree(d + "/ov", ignore_errors=True)
            e2 = dict(env)
            if how != "full":
                e2["INSTR_HASHTOP"] = "1"
            if not how.startswith("full"):
                e2["INSTR_NOSYNC"] = "1"
            if how == "noyield":
                e2["INSTR_NOYIELD"] = "1"
            r = sh([d + "/instr", REPO, d + "/ov"], env=e2)
            if r.returncode:
                log += r.stdout[-1500:]
                continue
            cmd += ["-overlay", d + "/ov/overlay.json", "-tags", "verifinstr"]
        r = sh(cmd + ["-o", d + "/drv", "."], env=env, cwd=VERIF + "/harness/drv")
        if r.returncode == 0:
            if how == "full":   # do keys choose their hash in this build?
                q = sh([d + "/drv", "info"], env=goenv_run())
                if q.returncode or '"exact":true' not in q.stdout:
                    continue
            return how
        log += r.stdout[-1500:]
    raise CheckError("driver does not build against " + REPO + ":\n" + log)


def set_consts(cfg, consts, d):
    """A copy of the configuration (in directory d) with other values of constants."""
    if not consts:
        return cfg
    s = open(SPEC + "/" + cfg).read()
    for k, v in consts.items():
        s, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)\s*).*$" % k, lambda m: m[1] + str(v), s)
        assert n == 1, k
    fd, f = tempfile.mkstemp(suffix=".cfg", dir=d)
    with os.fdopen(fd, "w") as o:
        o.write(s)
    return f


class Proc:
    """A command with captured output and a time limit."""

    def __init__(self, cmd, env=None, cwd=None, timeout=600):
        self.t0 = time.time()
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", start_new_session=True)
        self.timed_out = False
        try:
            self.out, self.err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.timed_out = True
            os.killpg(p.pid, signal.SIGKILL)
            self.out, self.err = p.communicate()
        self.rc = p.returncode
        self.wall = time.time() - self.t0


def tlc(tla, cfg, env=None, workers=2, timeout=600, meta=None, heap="4g", extra=()):
    e = dict(os.environ)
    e.update(env or {})
    own = meta is None
    meta = meta or tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        return Proc(["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
                     "-Djava.io.tmpdir=" + meta,
                     "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
                     "-metadir", meta + "/m", "-config", cfg] + list(extra) + [tla],
                    env=e, cwd=SPEC, timeout=timeout)
    finally:
        if own:
            shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out.replace(",", "") and out)
    if not m:
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def tlc_ok(p):
    return p.rc == 0 and "No error has been found" in p.out


def shrink_text(s, n=600):
    return s if len(s) <= n else s[:n] + "..."
