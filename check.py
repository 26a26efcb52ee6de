#!/usr/bin/env python3
"""Driver of the runtime monitors (see DESIGN.md).

  check.py C01            quick or thorough run (VERIF_TIER, VERIF_SEED), exit 0 / 1 / 2
  check.py replay FILE    run a recorded violation again
  check.py setup          build the harness once and test the oracles themselves
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
CPUS = os.cpu_count() or 8
HOST = "x86_64-unknown-linux-gnu"


class Trouble(Exception):
    """the check itself cannot give an answer"""


# --------------------------------------------------------------------------------------------------------------- plan
# property -> group feature and list of (variant, seconds cap quick, scale quick, cap thorough, scale thorough)
PLAN = {
    "C01": ("core", [("release", 60, 12, 600, 1)]),
    "C02": ("core", [("release", 60, 12, 600, 1)]),
    "C03": ("core", [("release", 60, 12, 600, 1)]),
    "C04": ("core", [("release", 45, 6, 400, 1), ("checked", 45, 2, 400, 1)]),
    "C05": ("core", [("release", 45, 1.5, 600, 1)]),
    "C06": ("repr", [("release", 60, 10, 600, 1)]),
    "C07": ("repr", [("release", 60, 20, 600, 1)]),
    "C08": ("out", [("release", 60, 10, 600, 1)]),
    "C09": ("out", [("release", 60, 8, 600, 1)]),
    "C10": ("out", [("release", 60, 12, 600, 1)]),
    "C11": ("out", [("release", 60, 15, 600, 1)]),
    "C12": ("env", [("release", 40, 2, 300, 1), ("asan", 30, 0.4, 400, 0.5), ("msan", 25, 0.3, 400, 0.4), ("miri", 25, 1, 400, 1)]),
    "C13": ("env", [("release", 60, 16, 600, 1)]),
    "C14": ("env", [("release", 40, 4, 300, 1), ("tsan", 25, 4, 400, 1), ("miri", 25, 1, 400, 1)]),
    "C15": ("out", [("release", 60, 12, 600, 1)]),
    "C16": ("repr", [("release", 60, 12, 600, 1)]),
    "C17": ("repr", [("release", 60, 10, 600, 1)]),
    "C19": ("any", [("release", 60, 5, 600, 1)]),
    "C20": ("misc", [("release", 60, 10, 600, 1)]),
    "C21": ("misc", [("release", 60, 15, 600, 1)]),
    "C18": ("env,dbg", [("release", 40, 3, 600, 1)]),
}
# properties which promise that some kind of user type suffices: a program using nothing else is built and run as well
WITNESS = {"C06", "C08", "C13", "C17"}
# what rustc says when such a type no longer suffices: unsatisfied bounds and lifetimes (not missing names, methods or arguments)
BOUND_ERRORS = {"E0277", "E0271", "E0275", "E0309", "E0310", "E0311", "E0491", "E0495", "E0499", "E0502", "E0505", "E0506", "E0515", "E0521", "E0597", "E0599", "E0621", "E0700", "E0716"}
LEVEL = {"C09": "fault_enumeration", "C10": "fault_enumeration"}
RULE = json.load(open(os.path.join(VERIF, "rules.json")))


# -------------------------------------------------------------------------------------------------------------- build
def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".txt", ".md")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


def forget_stale(tdir, stamp):
    """cargo decides by modification times; make the decision by content instead"""
    f = os.path.join(tdir, "repo.stamp")
    try:
        if open(f).read() == stamp:
            return
    except OSError:
        pass
    for base, dirs, _ in os.walk(tdir):
        if os.path.basename(base) == ".fingerprint":
            for d in list(dirs):
                if d.startswith(("triangulate-", "tvmon-", "witness-")):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            dirs[:] = []
    os.makedirs(tdir, exist_ok=True)
    with open(f, "w") as fh:
        fh.write(stamp)


class Variant:
    def __init__(self, name, features):
        self.name, self.features = name, features
        self.tdir = os.path.join(TARGET, name)
        self.env = dict(os.environ)
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUST_BACKTRACE", "CARGO_PROFILE_RELEASE_DEBUG", "CARGO_PROFILE_RELEASE_OPT_LEVEL"):
            self.env.pop(k, None)
        for k in list(self.env):
            if k.startswith("TRIANGULATE_"):
                self.env.pop(k)
        self.env["CARGO_TARGET_DIR"] = self.tdir
        self.env["CARGO_NET_OFFLINE"] = "true"
        self.env["CARGO_INCREMENTAL"] = "0"
        self.prefix = []
        self.mem = None
        self.cpu_scale = 1
        self.log = ""
        rel = "release"
        cargo = ["cargo", "build", "--offline", "--features", features]
        if name == "release":
            cargo += ["--release"]
            self.mem = 16
        elif name == "checked":
            cargo += ["--profile", "checked"]
            rel = "checked"
            self.mem = 16
            self.cpu_scale = 3
        elif name == "asan":
            cargo = ["cargo", "+nightly"] + cargo[1:] + ["--release", "--target", HOST]
            # debug assertions off, but std's unsafe preconditions (get_unchecked bounds and the like) on
            self.env["RUSTFLAGS"] = "-Zsanitizer=address -Zub-checks=yes -Cforce-frame-pointers=yes"
            self.env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=0:detect_stack_use_after_return=1"
            rel = HOST + "/release"
            self.cpu_scale = 5
        elif name == "tsan":
            cargo = ["cargo", "+nightly"] + cargo[1:] + ["-Zbuild-std", "--release", "--target", HOST]
            self.env["RUSTFLAGS"] = "-Zsanitizer=thread"
            self.env["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4"
            rel = HOST + "/release"
            self.cpu_scale = 10
        elif name == "msan":
            # hardly optimised: what reads uninitialised memory is not optimised away (and builds sooner)
            cargo = ["cargo", "+nightly"] + cargo[1:] + ["-Zbuild-std", "--release", "--target", HOST]
            self.env["RUSTFLAGS"] = "-Zsanitizer=memory"
            self.env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "1"
            self.env["CARGO_PROFILE_RELEASE_DEBUG"] = "line-tables-only"
            self.env["MSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
            rel = HOST + "/release"
            self.cpu_scale = 8
        elif name == "miri":
            cargo = ["cargo", "+nightly", "miri", "run", "--release", "--offline", "--features", features, "--", "noop"]
            self.env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-preemption-rate=0.05"
        self.cargo = cargo
        self.bin = os.path.join(self.tdir, rel, "tvmon")

    def build(self, stamp):
        forget_stale(self.tdir, stamp)
        t = time.time()
        p = subprocess.run(self.cargo, cwd=HARNESS, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        self.build_s = time.time() - t
        if p.returncode != 0:
            raise Trouble("building variant %s failed:\n%s" % (self.name, p.stdout[-6000:]))
        if self.name != "miri" and not os.path.exists(self.bin):
            raise Trouble("no binary %s" % self.bin)

    def cmd(self, args):
        if self.name == "miri":
            return ["cargo", "+nightly", "miri", "run", "-q", "--release", "--offline", "--features", self.features, "--"] + args
        if self.name in ("tsan", "msan"):
            # address space randomisation beyond what the sanitizer runtime expects makes it refuse to start
            return ["setarch", "-R", self.bin] + args if self.setarch() else [self.bin] + args
        return [self.bin] + args

    def setarch(self):
        if not hasattr(self, "_sa"):
            try:
                self._sa = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
            except OSError:
                self._sa = False
        return self._sa


class Witness(Variant):
    """a program which asks for no more than the property grants: it has to compile and to run"""

    def __init__(self, prop):
        super().__init__("release", "")
        self.name, self.prop = "witness", prop
        self.dir = os.path.join(VERIF, "witness")
        self.tdir = os.path.join(TARGET, "witness")
        self.env["CARGO_TARGET_DIR"] = self.tdir
        self.bin = os.path.join(self.tdir, "release", prop.lower())
        self.broken = None

    def cargo_run(self, *args):
        return subprocess.run(["cargo", "build", "--offline", "--release", *args], cwd=self.dir, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    def build(self, stamp):
        forget_stale(self.tdir, stamp)
        t = time.time()
        p = self.cargo_run("--bin", self.prop.lower())
        self.build_s = time.time() - t
        if p.returncode == 0:
            return
        if self.cargo_run("-p", "triangulate").returncode != 0:
            raise Trouble("building the library failed:\n%s" % p.stdout[-6000:])
        errs = [e for e in re.findall(r"(?m)^error(?:\[(E\d+)\])?: (.*)$", p.stdout) if not e[1].startswith(("could not compile", "aborting due"))]
        # a method which exists but asks for more is a bound, too; any other missing method is a changed interface
        bounds = all((c in BOUND_ERRORS and (c != "E0599" or "trait bounds were not satisfied" in m or "trait bounds" in m)) or (not c and ("lifetime may not live long enough" in m or "cannot be sent between threads" in m or "cannot be shared between threads" in m)) for c, m in errs)
        if not errs or not bounds:
            raise Trouble("building the witness of %s failed:\n%s" % (self.prop, p.stdout[-6000:]))
        self.broken = ("a program which uses only what the property grants no longer compiles: " + "; ".join("%s %s" % e for e in errs[:4]), p.stdout)

    def verdict(self, scratch):
        if self.broken:
            raise Violation("witness", "", *self.broken)
        t = time.time()
        try:
            p = subprocess.run([self.bin], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
        except subprocess.TimeoutExpired:
            raise Violation("witness", "", "the program which uses only what the property grants does not end")
        if p.returncode != 0:
            raise Violation("witness", "", "the program which uses only what the property grants fails: %s" % p.stdout[-1500:], p.stdout)
        return time.time() - t


# ---------------------------------------------------------------------------------------------------------------- run
SAN = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|unsafe precondition\(s\) violated[^\n]*|error: Undefined Behavior: [^\n]*|SUMMARY: [^\n]*|has overflowed its stack|memory allocation of \d+ bytes failed|panic in a function that cannot unwind|error: memory leaked[^\n]*|error: unsupported operation[^\n]*)")


def execute(v, prop, seed, tier, extra, scratch, timeout, cap, scale=1.0, workers=None):
    """one run of the harness; returns (report or None, returncode, stderr/stdout text, cases in flight)"""
    tag = "%s-%d-%d" % (v.name, threading.get_ident() % 1000000, int(time.time() * 1e6) % 10**9)
    out, slots = os.path.join(scratch, tag + ".json"), os.path.join(scratch, tag + ".slots")
    err = os.path.join(scratch, tag + ".err")
    args = ["--prop", prop, "--variant", v.name, "--tier", tier, "--seed", str(seed), "--out", out, "--slots", slots,
            "--workers", str(workers or CPUS), "--cap", str(cap), "--scale", str(scale), "--cpu-scale", str(v.cpu_scale)] + extra
    if v.mem:
        args += ["--mem", str(v.mem)]
    env = dict(v.env)
    env["TVMON_SCRATCH"] = os.path.join(scratch, "fs-" + tag)
    os.makedirs(env["TVMON_SCRATCH"])
    with open(err, "w") as fh:
        p = subprocess.Popen(v.cmd(args), cwd=HARNESS, env=env, stdout=fh, stderr=fh, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        # threads given up on and grandchildren
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    text = open(err, errors="replace").read()
    rep = None
    if rc in (0, 3):
        try:
            rep = json.load(open(out))
        except (OSError, ValueError):
            rep = None
    inflight = []
    try:
        inflight = [l.strip() for l in open(slots).read().split("\n") if l.strip() and l.strip() != "-"]
    except OSError:
        pass
    shutil.rmtree(env["TVMON_SCRATCH"], ignore_errors=True)
    return rep, rc, text, inflight


def streams(v, prop, rel):
    p = subprocess.run([rel.bin, "streams", prop, v.name], stdout=subprocess.PIPE, text=True)
    return dict(l.split() for l in p.stdout.splitlines())


def finding(text):
    m = [x if isinstance(x, str) else x[0] for x in SAN.findall(text)]
    return "; ".join(dict.fromkeys(m))[:600]


class Violation(Exception):
    def __init__(self, variant, case, msg, detail=""):
        self.variant, self.case, self.msg, self.detail = variant, case, msg, detail


def died(rc):
    return "signal %d" % -rc if rc is not None and rc < 0 else "exit code %s" % rc


def classify_crash(v, prop, text, rc, case, may_hang):
    """message if this abnormal end refutes the property, None if it only withholds a verdict, Trouble if it is ours"""
    f = finding(text)
    if "unsupported operation" in f and "Undefined Behavior" not in f:
        raise Trouble("Miri cannot run this: %s" % f)
    if rc is None or rc == -9 or rc == 137:
        return None
    if "memory allocation of" in f or "out of memory" in text or "allocation-size-too-big" in f:
        return None if may_hang else "exhausted memory (%s)" % f
    if "overflowed its stack" in text or "stack-overflow" in f:
        return None if may_hang else "overflowed the call stack"
    if f:
        return "%s (%s)" % (f, died(rc))
    if rc in (-11, -7, -4, -8, -6, 134, 139, 135, 132, 136):
        return "the process was killed by %s" % died(rc)
    raise Trouble("%s ended with %s:\n%s" % (v.name, died(rc), text[-3000:]))


def run_variant(v, rel, prop, seed, tier, cap, scale, scratch, agg):
    if v.name == "miri":
        return run_miri(v, rel, prop, seed, tier, cap, scale, scratch, agg)
    skip = []
    kinds = streams(v, prop, rel if v.name != "checked" else v)
    for attempt in range(6):
        extra = ["--skip", ",".join(skip)] if skip else []
        rep, rc, text, inflight = execute(v, prop, seed, tier, extra, scratch, cap * 3 + 240, cap, scale)
        if rep is not None:
            return judge(v, prop, seed, tier, rep, scratch, agg, kinds)
        # the process died: find the case
        hit = False
        for case in inflight:
            r2, rc2, t2, _ = execute(v, prop, seed, tier, ["--case", case], scratch, 300, 120, scale, 1)
            if r2 is not None:
                if r2["violations"]:
                    return judge(v, prop, seed, tier, r2, scratch, agg, kinds)
                continue
            may = kinds.get(case.split(":")[0]) == "may-hang"
            m = classify_crash(v, prop, t2, rc2, case, may)
            if m:
                raise Violation(v.name, case, m, t2)
            skip.append(case)
            agg["no_verdict"].append("%s %s: %s" % (v.name, case, finding(t2) or died(rc2)))
            hit = True
        if not hit:
            m = classify_crash(v, prop, text, rc, "", False) if rc is not None else None
            if m and ("memory" in m and "exhausted" in m):
                m = None
            if m:
                raise Violation(v.name, inflight[0] if inflight else "", m + " (cases in flight: %s)" % " ".join(inflight), text)
            raise Trouble("%s ended with %s and no case repeats it:\n%s" % (v.name, died(rc), text[-2000:]))
    raise Trouble("%s: too many cases without a verdict: %s" % (v.name, agg["no_verdict"]))


def judge(v, prop, seed, tier, rep, scratch, agg, kinds):
    for x in rep["violations"]:
        if x["msg"].startswith("HARNESS:"):
            raise Trouble("%s %s: %s" % (v.name, x["case"], x["msg"][:3000]))
    for x in rep["violations"]:
        if x["msg"].startswith("HANG"):
            # a slow machine is not a violation: again, alone, with four times the CPU time
            old = v.cpu_scale
            v.cpu_scale = old * 3
            r2, rc2, t2, _ = execute(v, prop, seed, tier, ["--case", x["case"]], scratch, 700, 600, 1, 1)
            v.cpu_scale = old
            if r2 is not None and not r2["violations"]:
                agg["no_verdict"].append("%s %s: slow, but finished when run alone" % (v.name, x["case"]))
                continue
            if r2 is not None:
                x = r2["violations"][0]
            elif rc2 is None:
                pass
        raise Violation(v.name, x["case"], x["msg"], x["msg"])
    agg["evaluations"] += rep["evaluations"]
    agg["distinct"] += rep["distinct"]
    agg["inconclusive"] += rep["inconclusive"]
    for k, n in rep["streams"].items():
        agg["streams"]["%s/%s" % (v.name, k)] = agg["streams"].get("%s/%s" % (v.name, k), 0) + n
    for k, n in rep["count"].items():
        agg["observed"][k] = agg["observed"].get(k, 0) + n
    for k, n in rep["max"].items():
        agg["largest"][k] = max(agg["largest"].get(k, 0), n)
    if len(agg["samples"]) < 12:
        agg["samples"] += [s[:600] for s in rep["samples"][:4]]
    agg["entropy"] += rep["entropy_calls"]
    agg["capped"] = agg["capped"] or rep["capped"]
    for k in kinds:
        if not rep["streams"].get(k) and v.name != "miri":
            if rep["capped"]:
                agg["no_verdict"].append("%s: stream %s not reached within the time cap" % (v.name, k))
                continue
            raise Trouble("%s: stream %s observed nothing" % (v.name, k))


def run_miri(v, rel, prop, seed, tier, cap, scale, scratch, agg):
    kinds = streams(v, prop, rel)
    n = CPUS
    res = [None] * n

    def one(i):
        res[i] = execute(v, prop, seed, tier, ["--shard", "%d/%d" % (i, n)], scratch, cap * 2 + 300, cap, scale, 1)

    ts = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    done = 0
    for rep, rc, text, inflight in res:
        if rep is None:
            m = classify_crash(v, prop, text, rc, "", True) if rc is not None else None
            if m:
                raise Violation(v.name, inflight[0] if inflight else "", m, text)
            f = finding(text)
            if rc not in (None, -9):
                raise Trouble("miri ended with %s:\n%s" % (died(rc), text[-3000:]))
            agg["no_verdict"].append("miri %s: %s" % (" ".join(inflight), f or died(rc)))
            continue
        done += rep["evaluations"]
        judge(v, prop, seed, tier, rep, scratch, agg, kinds)
    if not done:
        raise Trouble("miri observed nothing: %s" % agg["no_verdict"])
    for k in kinds:
        if not agg["streams"].get("miri/" + k):
            agg["no_verdict"].append("miri: stream %s not reached within the time cap" % k)


# --------------------------------------------------------------------------------------------------------------- main
def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    features, plan = PLAN[prop]
    features += ",p" + prop[1:]
    agg = dict(evaluations=0, distinct=0, inconclusive=0, streams={}, observed={}, largest={}, samples=[], entropy=0, capped=False, no_verdict=[])
    scratch = tempfile.mkdtemp(prefix="tvmon-")
    violation = None
    times = {}
    vs = {n: Variant(n, features) for n, *_ in plan}
    try:
        stamp = source_hash()
        errs = []
        lock = threading.Lock()
        wit = Witness(prop) if prop in WITNESS else None

        def mk(v):
            try:
                v.build(stamp)
            except Trouble as e:
                with lock:
                    errs.append(e)

        ts = [threading.Thread(target=mk, args=(v,)) for v in [*vs.values(), *([wit] if wit else [])]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if wit and wit.broken:
            wit.verdict(scratch)
        if errs:
            raise errs[0]
        if wit:
            times["witness"] = {"build_s": round(wit.build_s, 1), "run_s": round(wit.verdict(scratch), 1)}
        built = time.time() - t0
        rel = vs["release"]
        for name, cq, sq, ct, st in plan:
            cap, scale = (cq, sq) if tier == "quick" else (ct, st)
            t1 = time.time()
            run_variant(vs[name], rel, prop, seed, tier, cap, scale, scratch, agg)
            times[name] = {"build_s": round(vs[name].build_s, 1), "run_s": round(time.time() - t1, 1)}
    except Violation as e:
        violation = e
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    cov = {
        "evaluations": agg["evaluations"],
        "distinct_nontrivial": agg["distinct"],
        "rule": RULE[prop],
        "samples": agg["samples"] or ["(no sample)"],
        "cases_per_variant_and_stream": agg["streams"],
        "observed": agg["observed"],
        "largest": agg["largest"],
        "cases_without_verdict": agg["inconclusive"],
        "runs_without_verdict": agg["no_verdict"],
        "time_cap_reached": agg["capped"],
        "entropy_requests_served": agg["entropy"],
        "variants": times,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov, "wall_s": round(wall, 2), "violations": 1 if violation else 0,
          "assumptions": ["verdicts concern the executions observed in this run only", "the library's randomness is served by a seeded stand-in for the getrandom crate"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if violation:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_-]", "-", violation.case or "run")
        path = os.path.join(VERIF, "replays", "%s-%s-%d-%s.json" % (prop, violation.variant, seed, safe))
        with open(path, "w") as fh:
            json.dump({"property": prop, "variant": violation.variant, "features": features, "tier": tier, "seed": seed, "case": violation.case, "message": violation.msg[:20000], "detail": violation.detail[-20000:]}, fh, indent=1)
        cov["violation"] = {"variant": violation.variant, "case": violation.case, "message": violation.msg[:2000]}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if violation:
        print("%s: variant %s, case %s: %s" % (prop, violation.variant, violation.case, violation.msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if agg["evaluations"] == 0 or agg["distinct"] == 0:
        raise Trouble("nothing was observed")
    print("%s held on %d cases (%d distinct observations), %d without verdict, built in %.0f s, %.0f s in all" % (prop, agg["evaluations"], agg["distinct"], agg["inconclusive"], built, wall))
    return 0


def replay(path):
    d = json.load(open(path))
    if d["variant"] == "witness":
        w = Witness(d["property"])
        w.build(source_hash())
        try:
            w.verdict("/")
        except Violation as e:
            print("reproduced: %s\n%s" % (e.msg, e.detail[-6000:]))
            return 1
        print("did not reproduce")
        return 0
    v = Variant(d["variant"], d["features"])
    v.build(source_hash())
    scratch = tempfile.mkdtemp(prefix="tvmon-")
    try:
        extra = ["--case", d["case"]] if d["case"] else []
        rep, rc, text, _ = execute(v, d["property"], d["seed"], d["tier"], extra, scratch, 900, 600, 1, 1)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.write(text[-8000:])
    bad = rep is None or rep["violations"]
    print("reproduced" if bad else "did not reproduce", "(%s)" % died(rc))
    return 1 if bad else 0


def setup():
    v = Variant("release", "core,repr,out,env,any,misc," + ",".join("p%02d" % i for i in (*range(1, 18), 19, 20, 21)))
    v.build(source_hash())
    p = subprocess.run([v.bin, "selftest"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(p.stdout[-2000:])
    for prop in sorted(WITNESS):
        w = Witness(prop)
        w.build(source_hash())
        try:
            w.verdict("/")
        except Violation as e:
            print("witness of %s: %s" % (prop, e.msg))
            return 1
    return p.returncode


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "setup":
            return setup()
        if a and a[0] == "replay":
            return replay(a[1])
        if a and a[0] in PLAN:
            return check(a[0])
        print(__doc__)
        return 2
    except Trouble as e:
        print("NO ANSWER: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
