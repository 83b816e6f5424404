#!/usr/bin/env python3
"""C30: run every hostile program the compiler accepts, and watch.

usage: borrow.py run [--tier T] [--seed N] | borrow.py replay NAME
exit 0: no accepted program broke the borrow rules; 1: violated (VIOLATION line); 2: no verdict
"""
import collections, concurrent.futures as cf, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import borrow_programs as bp  # noqa: E402

REPO, BH, TARGET = "/repo", os.path.join(ROOT, "borrow"), os.path.join(ROOT, "target", "borrow")
TRIPLE = "x86_64-unknown-linux-gnu"
T0 = time.time()
ASAN = "halt_on_error=1:abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1"


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class NoVerdict(Exception):
    pass


def sources():
    h = hashlib.sha256()
    for base in (REPO, BH):
        fs = [os.path.join(base, f) for f in ("Cargo.toml", "Cargo.lock")]
        for d, _, x in os.walk(os.path.join(base, "src")):
            fs += [os.path.join(d, f) for f in x]
        for f in sorted(fs):
            if os.path.exists(f):
                h.update(f.encode() + open(f, "rb").read())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    stamp, now = os.path.join(TARGET, "sources.sha256"), sources()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        for r, ds, _ in os.walk(TARGET):
            if os.path.basename(r) in (".fingerprint", "build"):
                for x in ds:
                    if x in ("eastl-rs", "bh") or x.startswith(("eastl-rs-", "bh-")):
                        shutil.rmtree(os.path.join(r, x), ignore_errors=True)
                ds[:] = []
        if os.path.exists(stamp):
            os.remove(stamp)
    env = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env.update(CARGO_TARGET_DIR=TARGET, RUSTFLAGS="-Awarnings -Zsanitizer=address", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for conf in (True, False):
        cmd = ["cargo", "+nightly", "build", "--offline", "--target", TRIPLE, "--message-format=json"] + ([] if conf else ["--no-default-features"])
        r = subprocess.run(cmd, cwd=BH, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        if r.returncode == 0:
            break
    else:
        raise NoVerdict("building failed:\n" + r.stderr[-3000:])
    dirs, ext = set(), []
    for l in r.stdout.splitlines():
        d = json.loads(l)
        if d.get("reason") != "compiler-artifact":
            continue
        for f in d["filenames"]:
            if f.endswith((".rlib", ".rmeta", ".so")):
                dirs.add(os.path.dirname(f))
                if d["target"]["name"] == "bh":
                    ext += ["--extern", "bh=" + f]
    open(stamp, "w").write(now)
    return conf, ["rustc", "+nightly", "--edition", "2021", "-Zsanitizer=address", "--target", TRIPLE, "--error-format=short", "-Ccodegen-units=4"] + [x for d in sorted(dirs) for x in ("-L", "dependency=" + d)] + ext


def compile_(rustc, src, out):
    r = subprocess.run(rustc + [src, "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return r.returncode == 0, r.stdout


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def execute(exe, args=()):
    try:
        r = subprocess.run([exe] + list(args), env=dict(os.environ, ASAN_OPTIONS=ASAN, RUST_BACKTRACE="0"), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60, preexec_fn=limits)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace"), "no end within 60 s"


def consequence(rc, so, se):
    """What the monitors saw of one accepted hostile program; None if it did not do what it set out to."""
    ev = [l[6:] for l in so.splitlines() if l.startswith("EVENT ")]
    m = re.search(r"ERROR: AddressSanitizer: ([a-z-]+)", se)
    if m:
        at = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*?) (/repo/\S+)", se)
        ev.append("AddressSanitizer: %s%s" % (m.group(1)[:120], " in %s" % at[0][1] if at else ""))
    elif rc < 0:
        ev.append("died of signal %d" % -rc)
    if ev:
        return "; ".join(sorted(set(ev)))[:500]
    if "REACHED" in so:
        return "ran to its end holding what the borrow rules forbid"
    return None


def slug(n):
    return re.sub(r"[^a-z0-9]+", "_", n.lower()).strip("_")


def codes(msg):
    c = set(re.findall(r"error\[(E\d+)\]", msg))
    if not c and "lifetime may not live long enough" in msg:
        c = {"lifetime"}
    return c or {"other"}


BORROW = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0594", "E0596", "E0597", "E0382", "E0373", "E0521", "E0700", "E0712", "E0713", "E0716", "E0621", "E0310", "E0311", "E0716", "lifetime"}
# no such method, or a thread may not have it: as good a refusal where that is the point
OTHER_OK = {"E0599", "E0277"}


def run(tier, seed):
    conf, rustc = build()
    log("built")
    th = tier == "thorough"
    ps = [p for p in bp.programs(th) if conf or not p.needs]
    wd = os.path.join(TARGET, "work-%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    try:
        return decide(tier, seed, rustc, ps, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def check_controls(rustc, ps, wd):
    """Run what is allowed: programs whose control does not compile or does not run clean are set aside."""
    n = 16
    chunks = [ps[i::n] for i in range(n)]
    good, bad, looks = [], [], [0]

    def one(i, c, depth=0):
        if not c:
            return
        src, exe = os.path.join(wd, "ctl%s.rs" % i), os.path.join(wd, "ctl%s" % i)
        open(src, "w").write(bp.controls(c))
        ok, msg = compile_(rustc, src, exe)
        rc, so, se = execute(exe) if ok else (1, "", msg)
        if ok and rc == 0 and "EVENT" not in so and so.count("REACHED") == len(c):
            good.extend(c)
            looks[0] += max([int(x) for x in re.findall(r"REACHED looks=(\d+)", so)] or [0])
            return
        if len(c) == 1:
            bad.append((c[0], ("does not compile: " if not ok else "does not run clean: ") + (msg if not ok else so + se)[-600:]))
            return
        k = max(1, len(c) // 4)
        for j in range(0, len(c), k):
            one("%s_%d" % (i, j), c[j:j + k], depth + 1)

    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda t: one(*t), enumerate(chunks)))
    return good, bad, looks[0]


def decide(tier, seed, rustc, ps, wd):
    random.Random(seed).shuffle(ps)
    good, bad, looks = check_controls(rustc, ps, wd)
    log("%d controls ran clean, %d did not" % (len(good), len(bad)))
    refused, accepted, viols, idle = collections.Counter(), [], [], []

    def one(t):
        i, p = t
        src, exe = os.path.join(wd, "h%d.rs" % i), os.path.join(wd, "h%d" % i)
        open(src, "w").write(bp.hostile(p))
        ok, msg = compile_(rustc, src, exe)
        if not ok:
            os.remove(src)
            return p, None, codes(msg)
        r = execute(exe)
        os.remove(exe)
        return p, r, None

    stale = []
    with cf.ThreadPoolExecutor(8) as ex:
        for p, r, cs in ex.map(one, enumerate(good)):
            if r is None:
                for c in cs:
                    refused[c] += 1
                if not cs & (BORROW | OTHER_OK):
                    stale.append(p.name)
                continue
            accepted.append(p)
            what = consequence(*r)
            if what:
                viols.append((p, what))
            else:
                idle.append(p.name)
    log("%d hostile programs, %d accepted and run" % (len(good), len(accepted)))

    known = []
    kf = []
    f = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for l in open(f) if os.path.exists(f) else []:
        if l.startswith("finding: property=C30 "):
            sig = l.strip().split("sig=", 1)[1].split(" ", 1)
            kf.append((sig[0].strip('"'), sig[1] if len(sig) > 1 else sig[0]))
    new = []
    for p, w in viols:
        k = next((k for k in kf if k[0] == slug(p.name)), None)
        (known.append((p, k)) if k else new.append((p, w)))
    cov = dict(
        evaluations=len(good) + len(accepted),
        distinct_nontrivial=len({p.control for p in good}) + len(accepted),
        rule="An evaluation is one program run to its end under AddressSanitizer with values that notice being used after their end and references that compare addresses: "
             "every control (the same steps in an allowed order), and every hostile program the compiler accepts. Programs differ in container, way of borrowing and conflicting step. "
             "A hostile program that is accepted and gets to the point where both the reference and the conflict exist is a violation.",
        samples=[dict(name=p.name, hostile=p.hostile, control=p.control) for p in good[:4]],
        hostile_programs_tried=len(good),
        hostile_programs_refused_by_error=dict(sorted(refused.items())),
        hostile_programs_accepted_and_run=len(accepted),
        accepted_but_ended_before_the_conflict=idle[:20],
        programs_per_container=dict(sorted(collections.Counter(p.name.split("/")[0] for p in good).items())),
        values_looked_at_by_controls=looks,
        programs_set_aside_because_their_control_failed=[dict(name=p.name, why=w[:200]) for p, w in bad[:10]],
        refused_for_another_reason=stale[:20],
    )
    ev = dict(property="C30", tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["the programs tried are a finite family; a program no one wrote here may be accepted and harmful", "the installed nightly compiler stands for every compiler"],
              wall_s=round(time.time() - T0, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", ".C30.%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(ROOT, "evidence", "C30.json"))
    for k in kf:
        if any(x is k for _, x in known):
            print("KNOWN-FINDING: property=C30 %s" % k[1])
    if new:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        # those with visible damage first, one per container and borrow
        new.sort(key=lambda x: ("ran to its end" in x[1], x[0].name))
        shown = set()
        for n, (p, w) in enumerate(x for x in new):
            key = p.name.split(" ")[0]
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            path = os.path.join(d, "C30-%d.sh" % (len(shown) - 1))
            with open(path, "w") as fh:
                fh.write("#!/bin/bash\n# C30: the compiler accepts this program: %s\n# %s\nexec python3 %s replay %s\n" % (p.name, w, os.path.abspath(__file__), "'%s'" % p.name.replace("'", "")))
            os.chmod(path, 0o755)
            print("%s: the compiler accepts this safe program, and: %s\n    %s" % (p.name, w, p.hostile))
            print("VIOLATION property=C30 replay=%s" % path)
        print("%d accepted hostile program(s) in all" % len(new))
        return 1
    if len(good) < len(ps) * 0.8:
        for p, w in bad[:3]:
            print(p.name, w, file=sys.stderr)
        print("NO VERDICT property=C30: %d of %d controls do not work" % (len(bad), len(ps)))
        return 2
    if len(stale) > len(good) * 0.1:
        print("NO VERDICT property=C30: %d programs refused for a reason that is not theirs: %s" % (len(stale), stale[:3]))
        return 2
    print("HELD property=C30: %d hostile programs, %d accepted and run; %d controls ran clean, %.1f s" % (len(good), len(accepted), len(good), time.time() - T0))
    return 0


def replay(name):
    conf, rustc = build()
    wd = os.path.join(TARGET, "work-%d" % os.getpid())
    os.makedirs(wd, exist_ok=True)
    try:
        for p in bp.programs(True):
            if p.name.replace("'", "") != name:
                continue
            src, exe = os.path.join(wd, "r.rs"), os.path.join(wd, "r")
            open(src, "w").write(bp.hostile(p))
            print(bp.hostile(p))
            ok, msg = compile_(rustc, src, exe)
            print(msg)
            if not ok:
                print("refused by the compiler")
                return 0
            rc, so, se = execute(exe)
            print(so, se)
            return 1 if consequence(rc, so, se) else 0
        print("no such program")
        return 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main(a):
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1)
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "warm":
        build()
        return 0
    a = a[1:]
    while a:
        if a[0] == "--tier":
            tier = a[1]
        elif a[0] == "--seed":
            seed = int(a[1])
        a = a[2:]
    return run(tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except (NoVerdict, subprocess.TimeoutExpired) as e:
        print("NO VERDICT property=C30", e)
        sys.exit(2)
