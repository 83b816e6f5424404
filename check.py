#!/usr/bin/env python3
"""Decide one property: rebuild the monitors against /repo, run the workloads, judge what they saw.

usage: check.py <property> [--tier quick|thorough] [--seed N]
exit 0: held on everything explored; 1: violated (VIOLATION line); 2: no verdict (build or harness error)
"""
import concurrent.futures as cf
import hashlib, json, os, resource, shutil, signal, struct, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import checks  # noqa: E402

REPO = "/repo"
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.path.join(ROOT, "target")
TRIPLE = "x86_64-unknown-linux-gnu"
GB = 1 << 30
T0 = time.time()

# variant -> (rustflags, cargo arguments, output directory, environment at run time)
VARIANTS = {
    "dbg": dict(flags="", args=[], out="debug", env={}),
    "rel": dict(flags="", args=["--release"], out="release", env={}),
    "asan": dict(
        flags="-Zsanitizer=address",
        args=["--target", TRIPLE, "--features", "plain"],
        out=TRIPLE + "/debug",
        env={"ASAN_OPTIONS": "halt_on_error=1:abort_on_error=1:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1"},
    ),
    "tsan": dict(
        flags="-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer",
        args=["--target", TRIPLE, "--features", "plain"],
        out=TRIPLE + "/debug",
        env={"TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:report_signal_unsafe=0"},
    ),
    "miri": dict(flags="", args=["--no-default-features", "--features", "plain"], out=None, env={}),
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks"


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base, sub in ((REPO, ("src",)), (HARNESS, ("src",))):
        for s in sub:
            for d, _, fs in os.walk(os.path.join(base, s)):
                files += [os.path.join(d, f) for f in fs]
        for f in ("Cargo.toml", "Cargo.lock"):
            p = os.path.join(base, f)
            if os.path.exists(p):
                files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build_env(variant):
    v = VARIANTS[variant]
    env = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_TARGET_DIR"] = os.path.join(TARGET, variant)
    env["RUSTFLAGS"] = ("-Awarnings " + v["flags"]).strip()
    env["CARGO_TERM_COLOR"] = "never"
    env["CARGO_NET_OFFLINE"] = "true"
    if variant == "miri":
        env["MIRIFLAGS"] = MIRIFLAGS
    return env


def cargo_cmd(variant, bins, no_default):
    v = VARIANTS[variant]
    args = list(v["args"])
    if no_default and "--no-default-features" not in args:
        args.append("--no-default-features")
    bb = []
    for b in bins:
        bb += ["--bin", b]
    if variant == "miri":
        return None
    return ["cargo", "+nightly", "build", "--offline"] + args + bb


def fresh(variant):
    """Never trust time stamps: when the sources differ from what was last built here, rebuild."""
    d = os.path.join(TARGET, variant)
    os.makedirs(d, exist_ok=True)
    stamp = os.path.join(d, "sources.sha256")
    now = tree_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for r, ds, _ in os.walk(d):
            # both layouts cargo has used: .fingerprint/<package>-<hash> and build/<package>/<hash>
            if os.path.basename(r) in (".fingerprint", "build"):
                for x in ds:
                    if x in ("eastl-rs", "mon") or x.startswith(("eastl-rs-", "mon-")):
                        shutil.rmtree(os.path.join(r, x), ignore_errors=True)
                ds[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
    return stamp, now


def build(variant, bins):
    stamp, now = fresh(variant)
    if variant == "miri":
        # `cargo miri run` builds; the sysroot must exist first
        r = subprocess.run(["cargo", "+nightly", "miri", "setup"], env=build_env(variant), cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            raise NoVerdict("miri setup failed:\n" + r.stdout[-3000:])
        r = miri_run(bins[0], ["list"], 600)
        if r.returncode:
            raise NoVerdict("building under miri failed:\n" + (r.stdout + r.stderr)[-3000:])
        open(stamp, "w").write(now)
        return
    for no_default in (False, True):
        r = subprocess.run(cargo_cmd(variant, bins, no_default), cwd=HARNESS, env=build_env(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode == 0:
            if no_default:
                log("built without the nightly-only list:", variant)
            open(stamp, "w").write(now)
            return
    raise NoVerdict("build failed (%s):\n%s" % (variant, r.stdout[-4000:]))


def miri_cmd(b, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q"] + VARIANTS["miri"]["args"] + ["--bin", b, "--"] + args


def miri_run(b, args, timeout):
    return subprocess.run(miri_cmd(b, args), cwd=HARNESS, env=build_env("miri"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def binary(variant, b):
    return os.path.join(TARGET, variant, VARIANTS[variant]["out"], b)


def command(variant, b, args):
    return miri_cmd(b, args) if variant == "miri" else [binary(variant, b)] + args


def run_env(variant):
    env = build_env(variant)
    env.update(VARIANTS[variant]["env"])
    env["RUST_BACKTRACE"] = "0"
    return env


def limits(variant):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if variant in ("dbg", "rel"):
            resource.setrlimit(resource.RLIMIT_AS, (6 * GB, 6 * GB))
        os.setpgid(0, 0)

    return f


LIVE = set()
LOCK = threading.Lock()


def spawn(variant, cmd, timeout):
    p = subprocess.Popen(cmd, cwd=HARNESS, env=run_env(variant), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits(variant))
    with LOCK:
        LIVE.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return p.returncode, out, err, True
    finally:
        with LOCK:
            LIVE.discard(p)


class Run:
    """One process: a shard of one workload binary in one variant."""

    def __init__(self, prop, tier, seed, job, shard, nshards, wd):
        self.prop, self.tier, self.seed, self.job = prop, tier, seed, job
        self.shard, self.nshards, self.wd = shard, nshards, wd
        self.viols, self.done, self.errors, self.hist = [], [], [], []
        self.crashes_not_mine = 0

    def tag(self):
        return "%s-%s-%s%d" % (self.job["variant"], self.job["bin"], self.job.get("rig") or "", self.shard)

    def base_args(self):
        j = self.job
        a = ["--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed)]
        if j["variant"] == "miri":
            a += ["--cpu", "1000000"]
        elif j["variant"] in ("asan", "tsan"):
            a += ["--cpu", "90"]
        else:
            a += ["--cpu", "30"]
        return a

    def go(self):
        j = self.job
        skip = None
        for attempt in range(6):
            t = "%s.%d" % (self.tag(), attempt)
            out, prog = os.path.join(self.wd, t + ".out"), os.path.join(self.wd, t + ".prog")
            args = ["run"] + self.base_args() + [
                "--mult", repr(j["mult"]), "--shard", str(self.shard), "--nshards", str(self.nshards),
                "--budget", str(j["budget"]), "--out", out, "--progress", prog]
            if j.get("rig"):
                args += ["--rig", j["rig"]]
            if skip:
                args += ["--after", skip]
            rc, so, se, late = spawn(j["variant"], command(j["variant"], j["bin"], args), j["budget"] * 2 + 120)
            before = len(self.done)
            self.read(out)
            if late:
                self.errors.append("%s: no end within its wall-clock limit (inconclusive)" % t)
                return self
            # Miri too ends with status 1 when it stops a case: only a run that said it is done (or, 3,
            # that it stopped a case that would not end) has ended by itself
            if rc == 3 or (rc in (0, 1) and len(self.done) > before):
                return self
            if rc == 4:
                self.errors.append("%s: harness error: %s" % (t, se[-2000:]))
                return self
            # crashed: which case was it?
            again = self.crash(prog, rc, se)
            if not again:
                return self
            skip = again
        return self

    def read(self, out):
        if not os.path.exists(out):
            return
        for line in open(out, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "viol":
                d.update(variant=self.job["variant"], bin=self.job["bin"])
                self.viols.append(d)
            elif d["t"] == "done":
                self.done.append(d)
        h = out + ".hist"
        if os.path.exists(h):
            b = open(h, "rb").read()
            self.hist += struct.unpack("<%dQ" % (len(b) // 8), b)

    def crash(self, prog, rc, se):
        j = self.job
        try:
            ri, idx = struct.unpack("<QQ", open(prog, "rb").read(16))
        except Exception:
            self.errors.append("%s died (%s) before its first case: %s" % (self.tag(), rc, se[-2000:]))
            return None
        if j["variant"] == "miri":
            rigs = miri_run(j["bin"], ["list"], 600).stdout
        else:
            rigs = subprocess.run([binary(j["variant"], j["bin"]), "list"], stdout=subprocess.PIPE, text=True).stdout
        rig = rigs.splitlines()[ri].split()[0]
        what = first_lines(se) or ("signal %d" % -rc if rc < 0 else "exit status %d" % rc)
        if se.find("harness:") >= 0 and "panicked" in se and rc == 101:
            self.errors.append("%s: harness panic: %s" % (self.tag(), se[-2000:]))
            return None
        if j["variant"] == "miri" and "unsupported operation" in se:
            self.errors.append("%s: miri cannot run it: %s" % (self.tag(), what))
            return None
        if self.prop == "C28":
            a = ["replay", "--rig", rig, "--index", str(idx), "--nomoves"] + self.base_args()
            rc2, _, _, _ = spawn(j["variant"], command(j["variant"], j["bin"], a), 300)
            if rc2 not in (0, 1):
                self.crashes_not_mine += 1
                return "%s:%d" % (rig, idx)
        self.viols.append(dict(t="viol", rig=rig, index=idx, kind="Crash", accepted=True, msg="the process died (%s): %s" % (("signal %d" % -rc) if rc < 0 else "status %d" % rc, what), variant=j["variant"], bin=j["bin"]))
        return None


def first_lines(se):
    keep = []
    for l in se.splitlines():
        l = l.strip()
        if not l or l.startswith("="):
            continue
        if "ERROR" in l or "error" in l or "WARNING" in l or l.startswith(("#", "SUMMARY", "-->", "READ", "WRITE", "is located", "thread", "panicked", "Direct leak", "memory allocation", "malloc", "free", "double")):
            keep.append(l)
        if len(keep) >= 12:
            break
    return " | ".join(keep)[:1500]


def write_replay(prop, tier, seed, v, n):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.sh" % (prop, n))
    env = build_env(v["variant"])
    env.update(VARIANTS[v["variant"]]["env"])
    names = ["CARGO_TARGET_DIR", "RUSTFLAGS", "MIRIFLAGS", "ASAN_OPTIONS", "TSAN_OPTIONS"]
    args = ["replay", "--rig", v["rig"], "--index", str(v["index"]), "--prop", prop, "--tier", tier, "--seed", str(seed)]
    with open(path, "w") as f:
        f.write("#!/bin/bash\n# %s: %s\n" % (prop, v["kind"]))
        for l in v["msg"].splitlines() or [""]:
            f.write("# %s\n" % l)
        f.write("# prints the operations of the failing case and what the monitors found; exit 0 if it holds\n")
        f.write("cd %s || exit 2\n" % HARNESS)
        for k in names:
            if k in env:
                f.write("export %s='%s'\n" % (k, env[k]))
        b = cargo_cmd(v["variant"], [v["bin"]], False)
        if b:
            f.write(" ".join(b) + " || exit 2\n")
        f.write(" ".join(command(v["variant"], v["bin"], args)) + "\n")
    os.chmod(path, 0o755)
    return path


def known_findings(prop):
    """(signature) of the listed findings of this property"""
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                sig = l.split("sig=", 1)[1].split(" ", 1)
                out.append((sig[0].strip('"'), sig[1] if len(sig) > 1 else ""))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    a = sys.argv[2:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--seed":
            seed = int(a[1])
        a = a[2:]
    if prop == "C30":
        return subprocess.call([sys.executable, os.path.join(ROOT, "tools", "borrow.py"), "run", "--tier", tier, "--seed", str(seed)])
    chk = checks.CHECKS[prop]
    plan = chk.plan(tier)
    wd = os.path.join(TARGET, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(wd, exist_ok=True)
    try:
        return decide(prop, tier, seed, chk, plan, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def decide(prop, tier, seed, chk, plan, wd):
    need = {}
    for j in plan:
        need.setdefault(j["variant"], [])
        if j["bin"] not in need[j["variant"]]:
            need[j["variant"]].append(j["bin"])
    failures = []
    built = set()
    with cf.ThreadPoolExecutor(4) as ex:
        fs = {ex.submit(build, v, b): v for v, b in need.items()}
        for f in cf.as_completed(fs):
            try:
                f.result()
                built.add(fs[f])
                log("built", fs[f])
            except (NoVerdict, subprocess.TimeoutExpired) as e:
                failures.append(str(e))
    if failures:
        print("\n".join(failures), file=sys.stderr)
        print("NO VERDICT property=%s: the monitors could not be built" % prop)
        return 2
    runs = []
    for j in plan:
        n = j["shards"]
        for s in range(n):
            runs.append(Run(prop, tier, seed, j, s, n, wd))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda r: r.go(), runs))
    log("ran", len(runs), "processes")

    # merge
    errors = [e for r in runs for e in r.errors]
    viols = [v for r in runs for v in r.viols]
    mine = [v for v in viols if v["accepted"]]
    other = {}
    for v in viols:
        if not v["accepted"]:
            other[v["kind"]] = other.get(v["kind"], 0) + 1
    hist = set()
    for r in runs:
        hist.update(r.hist)
    tot = {k: 0 for k in ("evaluations", "nontrivial", "ops", "skipped", "allocs", "frees", "toks", "tokdrops")}
    counts, rigs, samples, per_variant = {}, {}, [], {}
    for r in runs:
        for d in r.done:
            for k in tot:
                tot[k] += d[k]
            pv = per_variant.setdefault(r.job["variant"], dict(cases=0, operations=0))
            pv["cases"] += d["evaluations"]
            pv["operations"] += d["ops"]
            for k, n in d["counts"].items():
                counts[k] = max(counts.get(k, 0), n) if k.startswith("max ") else counts.get(k, 0) + n
            for k, (n, o) in d["rigs"].items():
                e = rigs.setdefault(k, [0, 0])
                e[0] += n
                e[1] += o
            samples += d["samples"]
    seen, ss = set(), []
    for s in samples:
        k = s["case"].split()[0]
        if k not in seen:
            seen.add(k)
            ss.append(s)

    known, new = [], []
    kf = known_findings(prop)
    for v in mine:
        hit = next((k for k in kf if k[0] in v["msg"]), None)
        (known if hit else new).append((v, hit))
    cov = dict(
        evaluations=tot["evaluations"],
        distinct_nontrivial=len(hist),
        rule=chk.rule,
        samples=ss[:6],
        operations_executed=tot["ops"],
        cases_and_operations_per_workload={k: dict(cases=v[0], operations=v[1]) for k, v in sorted(rigs.items())},
        per_build=per_variant,
        observed=dict(sorted(counts.items())),
    )
    if tot["allocs"]:
        cov["allocator_events_observed"] = dict(allocations=tot["allocs"], releases=tot["frees"])
    if tot["toks"]:
        cov["tracked_elements"] = dict(created=tot["toks"], destroyed=tot["tokdrops"])
    if tot["skipped"]:
        cov["cases_not_run_for_lack_of_time"] = tot["skipped"]
    if other:
        cov["findings_that_concern_other_properties"] = other
    ev = dict(property=prop, tier=tier, seed=seed, level=chk.level, coverage=cov, assumptions=chk.assumptions, wall_s=round(time.time() - T0, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(ROOT, "evidence", prop + ".json"))

    for k in kf:
        if any(h is k for _, h in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, k[1] or k[0]))
    if new:
        shown = set()
        n = 0
        for v, _ in sorted(new, key=lambda x: (x[0]["kind"] in ("Hang",), x[0]["index"])):
            key = (v["bin"], v["rig"], v["kind"])
            if key in shown or n >= 5:
                continue
            shown.add(key)
            p = write_replay(prop, tier, seed, v, n)
            n += 1
            print("%s case %d [%s, %s]: %s: %s" % (v["rig"], v["index"], v["bin"], v["variant"], v["kind"], v["msg"][:700].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        print("NO VERDICT property=%s: %d run(s) without a result" % (prop, len(errors)))
        return 2
    if not tot["evaluations"] or not hist or tot["nontrivial"] == 0:
        print("NO VERDICT property=%s: nothing was observed" % prop)
        return 2
    ran = set(rigs)
    for j in plan:
        if j.get("rig") and j["rig"] not in ran:
            print("NO VERDICT property=%s: workload %s did not run" % (prop, j["rig"]))
            return 2
    print("HELD property=%s on %d cases (%d distinct histories, %d operations) in %.1f s" % (prop, tot["evaluations"], len(hist), tot["ops"], time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print("NO VERDICT", e)
        sys.exit(2)
