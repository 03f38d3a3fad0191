"""Building, running under the monitor, verdicts, evidence."""
from __future__ import annotations
import datetime as dt
import fcntl
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SFMON_REPO", "/repo")
BUILD = os.environ.get("SFMON_BUILD", os.path.join(VERIF, ".build"))
SHIM_SRC = os.path.join(VERIF, "sfmon", "shim", "sfmon.c")
SHIM = os.path.join(BUILD, "sfmon.so")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
CARGO_BIN = "/root/.cargo/bin"


class Violation(Exception):
    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Inconclusive(Exception):
    pass


class BuildFailed(Exception):
    pass


# ---------------------------------------------------------------- build
def source_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
    for base in ("src", ".cargo"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def _cargo_env(target, toolchain, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("SFMON_", "LD_", "CARGO", "RUST"))}
    env.update(HOME="/root", RUSTUP_TOOLCHAIN=toolchain, RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
               CARGO_TERM_COLOR="never")
    env["PATH"] = CARGO_BIN + ":" + env.get("PATH", "/usr/bin:/bin")
    if extra:
        env.update(extra)
    return env


def _cargo_build(kind):
    if kind == "debug":
        target, tool, extra, args, sub = os.path.join(BUILD, "target"), TOOLCHAIN, {}, [], "debug"
    elif kind == "asan":
        target, tool = os.path.join(BUILD, "target-asan"), NIGHTLY
        extra = {"RUSTFLAGS": "-Zsanitizer=address"}
        args, sub = ["--target", "x86_64-unknown-linux-gnu"], "x86_64-unknown-linux-gnu/debug"
    else:
        raise ValueError(kind)
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "sfmon.hash")
    binary = os.path.join(target, sub, "silverfox")
    want = source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(binary):
        return binary
    env = _cargo_env(target, tool, extra)
    # cargo goes by modification times; force a rebuild of the crate itself whenever its content changed
    for d in (os.path.join(target, "debug", ".fingerprint"), os.path.join(target, sub, ".fingerprint")):
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.startswith("silverfox-"):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(REPO, "Cargo.toml")] + args,
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0:
        raise BuildFailed(r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    return binary


def build(kinds=("debug",)):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want = hashlib.sha256(open(SHIM_SRC, "rb").read()).hexdigest()
        st = SHIM + ".hash"
        if not (os.path.exists(SHIM) and os.path.exists(st) and open(st).read() == want):
            subprocess.check_call(["gcc", "-O1", "-Wall", "-shared", "-fPIC", "-o", SHIM + ".tmp", SHIM_SRC])
            os.rename(SHIM + ".tmp", SHIM)
            open(st, "w").write(want)
        return {k: _cargo_build(k) for k in kinds}


# ---------------------------------------------------------------- running
SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
BIN = {}


class Result:
    __slots__ = ("args", "rc", "sig", "out", "err", "events", "now", "tz", "moves", "imported")

    @property
    def panicked(self):
        return self.sig is not None or self.rc not in (0, 1, 2) or "panicked at" in self.err

    def brief(self):
        return dict(args=self.args, rc=self.rc, sig=self.sig, stdout=self.out[-3000:], stderr=self.err[-2000:], now=self.now, tz=self.tz)


class Proc:
    pass


def epoch(day: dt.date, hour=12, minute=0):
    return int(dt.datetime(day.year, day.month, day.day, hour, minute, tzinfo=dt.timezone.utc).timestamp())


class Box:
    """A scratch directory with the files of one scenario; removed afterwards."""

    def __init__(self, ctx=None):
        self.root = tempfile.mkdtemp(prefix="sfmon-", dir=SCRATCH)
        self.top = os.path.join(self.root, "w")
        os.mkdir(self.top)
        self.ctx = ctx
        self.runs = []
        self.procs = []

    def close(self):
        for p in self.procs:
            try:
                os.kill(p.pid, signal.SIGKILL)
                os.waitpid(p.pid, 0)
            except OSError:
                pass
        try:
            os.chdir("/")
        except OSError:
            pass
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def path(self, rel):
        return os.path.join(self.top, rel)

    def write(self, rel, text):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())

    def read(self, rel):
        with open(self.path(rel), "rb") as f:
            return f.read()

    def text(self, rel):
        return self.read(rel).decode("utf-8", "replace")

    def snapshot(self):
        out = {}
        for d, ds, fs in os.walk(self.top):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.top)
                if os.path.islink(p):
                    out[rel] = b"-> " + os.fsencode(os.readlink(p))
                else:
                    with open(p, "rb") as fh:
                        out[rel] = fh.read()
        return out

    def restore(self, snap):
        cur = self.snapshot()
        for rel in cur:
            if rel not in snap:
                os.unlink(self.path(rel))
        for rel, data in snap.items():
            if cur.get(rel) != data:
                if data.startswith(b"-> "):
                    continue
                self.write(rel, data)

    def start(self, args, today=None, now=None, tz="UTC", cols=120, env=None, cwd=None, fault=None, kind="debug", log=False, tag="", stdin="/dev/null"):
        if now is None:
            now = epoch(today) if today is not None else None
        e = {"PATH": "/usr/bin:/bin", "HOME": self.root, "LD_PRELOAD": SHIM, "SFMON_LIM": "1", "TZ": tz, "RUST_BACKTRACE": "0"}
        if kind == "asan":
            e["SFMON_LIM"] = "2"
            e["ASAN_OPTIONS"] = "detect_leaks=0:verify_asan_link_order=0:abort_on_error=1:halt_on_error=1"
        if now is not None:
            e["SFMON_NOW"] = str(now)
        if cols:
            e["SFMON_COLS"] = str(cols)
        if env:
            e.update(env)
            e = {k: v for k, v in e.items() if v is not None}
        p = Proc()
        p.of, p.ef, p.lf = (os.path.join(self.root, x + tag) for x in ("out", "err", "log"))
        acts = [(os.POSIX_SPAWN_OPEN, 0, stdin, os.O_RDONLY, 0),
                (os.POSIX_SPAWN_OPEN, 1, p.of, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600),
                (os.POSIX_SPAWN_OPEN, 2, p.ef, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)]
        p.logged = bool(log or fault)
        if p.logged:
            acts.append((os.POSIX_SPAWN_OPEN, 63, p.lf, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600))
            e["SFMON_LOG"] = "63"
            if fault:
                e["SFMON_FAULT"] = fault
        os.chdir(cwd if cwd is not None else self.top)
        p.argv = ["silverfox"] + [a if isinstance(a, (str, bytes)) else str(a) for a in args]
        p.now, p.tz = now, tz
        p.pid = os.posix_spawn(BIN[kind], p.argv, e, file_actions=acts)
        self.procs.append(p)
        return p

    def wait(self, p):
        """until it ends (a Result) or stops itself (None)"""
        def onalarm(*_):
            try:
                os.kill(p.pid, signal.SIGKILL)
            except OSError:
                pass
            onalarm.fired = True
        onalarm.fired = False
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(120)
        try:
            while True:
                try:
                    _, st = os.waitpid(p.pid, os.WUNTRACED)
                    break
                except InterruptedError:
                    continue
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if not os.WIFSTOPPED(st):
            self.procs.remove(p)
        if onalarm.fired:
            raise Inconclusive("wall-clock watchdog fired")
        if os.WIFSTOPPED(st):
            return None
        r = Result()
        r.args = [a if isinstance(a, str) else repr(a) for a in p.argv[1:]]
        r.now, r.tz = p.now, p.tz
        r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else None
        r.rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
        with open(p.of, "rb") as f:
            r.out = f.read().decode("utf-8", "replace")
        with open(p.ef, "rb") as f:
            r.err = f.read().decode("utf-8", "replace")
        r.events = []
        if p.logged:
            with open(p.lf, "rb") as f:
                r.events = f.read().decode("utf-8", "replace").splitlines()
        self.runs.append(r)
        if len(self.runs) > 400:
            del self.runs[:200]
        if self.ctx:
            self.ctx.n["processes_run"] += 1
            if r.events:
                self.ctx.n["file_events_recorded"] += len(r.events)
        return r

    def cont(self, p):
        os.kill(p.pid, signal.SIGCONT)
        return self.wait(p)

    def run(self, args, **k):
        p = self.start(args, **k)
        r = self.wait(p)
        while r is None:
            r = self.cont(p)
        return r

    def ok(self, *a, **k):
        """run that has to succeed: a report/no error"""
        r = self.run(*a, **k)
        if r.panicked:
            raise Violation("the program crashed or hung on a valid journal", run=r.brief())
        if r.err:
            raise Violation("a valid journal was answered with an error", run=r.brief())
        return r


# ---------------------------------------------------------------- check driver
class Counter(dict):
    def __missing__(self, k):
        return 0


class Ctx:
    def __init__(self, prop, tier, seed, case):
        self.prop, self.tier, self.seed, self.case = prop, tier, seed, case
        self.n = Counter()
        self.sigs = set()
        self.samples = []
        self.known = []

    def sig(self, *parts):
        h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
        self.sigs.add(h)

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)


def _worker(job):
    prop, tier, seed, cases, bins, deadline = job
    from . import props
    BIN.update(bins)
    fn = props.CHECKS[prop].fn
    n = Counter()
    sigs, samples, viol, known = set(), [], [], set()
    done = 0
    err = None
    inconclusive = []
    for c in cases:
        if time.time() > deadline:
            break
        ctx = Ctx(prop, tier, seed, c)
        rng = random.Random(f"{seed}:{prop}:{c}")
        box = Box(ctx)
        try:
            fn(ctx, rng, box)
        except Violation as v:
            viol.append(save_replay(ctx, box, v))
        except Inconclusive as e:
            inconclusive.append(f"case {c}: {e}")
        except Exception:
            err = f"case {c}:\n" + traceback.format_exc()
        finally:
            box.close()
        done += 1
        for k, v in ctx.n.items():
            n[k] += v
        sigs |= ctx.sigs
        known |= set(ctx.known)
        if ctx.samples and len(samples) < 1:
            samples += ctx.samples
        if viol:
            break
    return dict(n=dict(n), sigs=sigs, samples=samples, viol=viol, known=known, done=done, err=err, inconclusive=inconclusive)


def save_replay(ctx, box, v):
    d = os.path.join(VERIF, "replay", ctx.prop, f"seed{ctx.seed}-case{ctx.case}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for rel, data in box.snapshot().items():
        p = os.path.join(d, "files", rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
    det = dict(property=ctx.prop, seed=ctx.seed, case=ctx.case, tier=ctx.tier, what=v.what, detail=v.detail,
               last_runs=[r.brief() for r in box.runs[-6:]],
               rerun=f"cd {VERIF} && VERIF_SEED={ctx.seed} python3 bin/check {ctx.prop} --tier {ctx.tier} --case {ctx.case}")
    with open(os.path.join(d, "violation.json"), "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(det, f, indent=1, default=str, ensure_ascii=False)
    return dict(path=d, what=v.what, detail=json.loads(json.dumps(v.detail, default=str)))


def main(argv):
    import argparse
    sys.stdout.reconfigure(errors="backslashreplace")
    from . import props
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SFMON_JOBS", "8")))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    chk = props.CHECKS[a.property]
    try:
        bins = build(chk.builds(a.tier))
    except BuildFailed as e:
        print("BUILD FAILED (no verdict)\n" + str(e))
        return 2
    total = a.cases or chk.cases[0 if a.tier == "quick" else 1]
    ids = [a.case] if a.case is not None else list(range(total))
    budget = float(os.environ.get("SFMON_BUDGET", "240" if a.tier == "quick" else "3000"))
    deadline = time.time() + budget
    step = max(1, min(25, len(ids) // (a.jobs * 4) or 1))
    jobs = [(a.property, a.tier, seed, ids[i:i + step], bins, deadline) for i in range(0, len(ids), step)]
    n, sigs, samples, viol, known, done, errs, inc = Counter(), set(), [], [], set(), 0, [], []
    ctxm = mp.get_context("fork")
    with ctxm.Pool(min(a.jobs, len(jobs))) as pool:
        for r in pool.imap_unordered(_worker, jobs):
            for k, v in r["n"].items():
                n[k] += v
            sigs |= r["sigs"]
            known |= r["known"]
            if len(samples) < 3:
                samples += r["samples"]
            viol += r["viol"]
            done += r["done"]
            inc += r["inconclusive"]
            if r["err"]:
                errs.append(r["err"])
            if viol or len(errs) > 50:
                pool.terminate()
                break
    wall = time.time() - t0
    cov = dict(evaluations=done, distinct_nontrivial=len(sigs), rule=chk.rule, samples=samples[:3] or ["(none)"],
               observed=dict(sorted(n.items())), cases_planned=len(ids), inconclusive_cases=inc[:5] + [e[-300:] for e in errs[:3]])
    if chk.exhaustive:
        cov["exhaustive_part"] = chk.exhaustive
    ev = dict(property=a.property, tier=a.tier, seed=seed, level=chk.level, coverage=cov,
              assumptions=chk.assumptions, wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w", encoding="utf-8", errors="backslashreplace") as f:
        json.dump(ev, f, indent=1, default=str, ensure_ascii=False)
    for k in sorted(known):
        print(f"KNOWN-FINDING: property={a.property} {k}")
    if viol:
        v = viol[0]
        print(f"{a.property}: {v['what']}")
        print(json.dumps(v["detail"], indent=1, ensure_ascii=False, default=str)[:4000])
        print(f"VIOLATION property={a.property} replay={v['path']}")
        return 1
    if len(errs) > done // 500:
        print("HARNESS ERROR (no verdict)\n" + errs[0])
        return 2
    if errs:
        print(f"(cases without a verdict, the harness failed on them: {len(errs)})")
    if inc and len(inc) > done // 10:
        print("INCONCLUSIVE: " + "; ".join(inc[:3]))
        return 3
    if a.case is None and (not sigs or done == 0):
        print("INCONCLUSIVE: nothing was observed")
        return 3
    print(f"{a.property}: held on {done} cases, {n['processes_run']} runs, {len(sigs)} distinct; {wall:.1f}s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(n.items())))
    return 0
