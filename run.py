#!/usr/bin/env python3
"""Supervisor of the generated-input checks.

    run.py PROPERTY            run the check of a property (VERIF_SEED, VERIF_TIER from the environment)
    run.py --replay FILE       run a saved failing case again, with its trace
    run.py --setup             build everything once

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
"""
import hashlib, json, os, re, resource, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, ASSUMPTIONS  # noqa: E402

HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, ".build")
WORK = os.path.join(HERE, ".build", "work")
REPLAYS = os.path.join(HERE, "replays")
CORPUS = os.path.join(HERE, "cases")
JOBS = 8
THREADED = ("C16", "C18")  # specs whose cases run threads, so that a schedule may not repeat
CASE_CPU = 10  # CPU seconds after which a single case counts as never finishing (a case takes well below 10 ms)
START = time.time()


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "MIRIFLAGS", "MIRI_SYSROOT", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def limits(cpu, profile="release", mem=6 << 30):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if profile not in SAN:  # the sanitizers reserve terabytes of address space
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


# ---- native harness ------------------------------------------------------------------------------------

def build(features):
    """Build the harness against /repo's working tree, in both profiles."""
    def one(profile):
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
               "--target-dir", BUILD, "--features", features]
        if profile == "release":
            cmd.append("--release")
        r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errs = [l for l in r.stdout.splitlines() if l.startswith("error")]
            raise CheckError("harness does not build (%s):\n%s" % (profile, "\n".join(r.stdout.splitlines()[-60:] if errs else r.stdout.splitlines()[-30:])))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, ["debug", "release"]))


SAN = {
    "asan": (["-Zsanitizer=address"], []),
    # the standard library is instrumented too, so that what it initialises is known
    "msan": (["-Zsanitizer=memory", "-Cllvm-args=-msan-eager-checks=1"], ["-Zbuild-std"]),
}
TARGET = "x86_64-unknown-linux-gnu"


def build_san(features):
    """The harness with the address and the memory sanitizer."""
    def one(kind):
        flags, more = SAN[kind]
        e = env()
        e["RUSTFLAGS"] = " ".join(flags)
        e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "1"
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q", "--release", "--target", TARGET, "--manifest-path",
                            os.path.join(HARNESS, "Cargo.toml"), "--target-dir", os.path.join(BUILD, kind),
                            "--features", features + "," + kind] + more, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("harness does not build with %s:\n%s" % (kind, r.stdout[-4000:]))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(one, SAN))


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1:symbolize=0"
    e["MSAN_OPTIONS"] = "abort_on_error=1:handle_segv=0:allocator_may_return_null=1:symbolize=0"
    return e


def binary(profile):
    if profile in SAN:
        return os.path.join(BUILD, profile, TARGET, "release", "lokky-pbt")
    return os.path.join(BUILD, profile, "lokky-pbt")


def exec_case(profile, spec, path, trace=False, cpu=CASE_CPU):
    """(outcome, output): outcome is 'ok', 'fail', 'crash', 'hang' or 'error'."""
    cmd = [binary(profile), "exec", spec, path] + ([] if trace else ["-q"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(cpu, profile), env=run_env())
    out = r.stdout.decode("utf8", "replace")
    rc = r.returncode
    if rc == 0:
        return "ok", out
    if rc == 1:
        return "fail", out
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        return "hang", out
    if rc < 0 or rc == 4:
        return "crash", out + "\n(ended by signal %s)" % (-rc if rc < 0 else "runaway")
    return "error", out


def parse(text):
    cfg, ops = [0, 0, 0, 0], []
    for l in text.splitlines():
        f = l.split()
        if f and f[0] == "cfg":
            cfg = [int(x) for x in f[1:5]]
        elif f and f[0] == "op":
            ops.append([int(x) for x in f[1:6]])
    return cfg, ops


def text_of(cfg, ops):
    return "cfg %d %d %d %d\n" % tuple(cfg) + "".join("op %d %d %d %d %d\n" % tuple(o) for o in ops)


def shrink(profile, spec, text, budget=45.0):
    """Delta-debug the operations, then simplify the arguments. Any failure of the same spec counts."""
    os.makedirs(WORK, exist_ok=True)
    path = os.path.join(WORK, "shrink-%d.case" % os.getpid())
    t0 = time.time()
    tries = [0]

    def bad(cfg, ops):
        if time.time() - t0 > budget:
            return False
        tries[0] += 1
        with open(path, "w") as f:
            f.write(text_of(cfg, ops))
        return exec_case(profile, spec, path, cpu=2)[0] in ("fail", "crash")

    cfg, ops = parse(text)
    if not bad(cfg, ops):
        return text, 0
    # the failing operation is usually late: cut the tail first
    lo, hi = 0, len(ops)
    while lo < hi:
        mid = (lo + hi) // 2
        if bad(cfg, ops[:mid]):
            hi = mid
        else:
            lo = mid + 1
    if hi < len(ops) and bad(cfg, ops[:hi]):
        ops = ops[:hi]
    n = 2
    while len(ops) >= 2:
        size = max(1, len(ops) // n)
        done = False
        i = 0
        while i < len(ops):
            cand = ops[:i] + ops[i + size:]
            if bad(cfg, cand):
                ops = cand
                done = True
            else:
                i += size
        if not done:
            if size == 1:
                break
            n = min(len(ops), n * 2)
        if time.time() - t0 > budget:
            break
    if len(ops) == 1 and bad(cfg, []):
        ops = []
    for round_ in range(2):
        changed = False
        for i in range(len(ops)):
            for j in range(1, 5):
                for v in (0, 1, ops[i][j] & 0xff, ops[i][j] & 0xffff):
                    if v < ops[i][j]:
                        cand = [list(o) for o in ops]
                        cand[i][j] = v
                        if bad(cfg, cand):
                            ops = cand
                            changed = True
                            break
        for j in range(4):
            for v in (0, cfg[j] & 0xff):
                if v < cfg[j]:
                    c2 = list(cfg)
                    c2[j] = v
                    if bad(c2, ops):
                        cfg = c2
                        break
        if not changed:
            break
    return text_of(cfg, ops), tries[0]


def save_replay(prop, spec, profile, text, message, kind="case"):
    os.makedirs(REPLAYS, exist_ok=True)
    h = hashlib.sha256((spec + text).encode()).hexdigest()[:12]
    path = os.path.join(REPLAYS, "%s-%s.%s" % (prop, h, kind))
    with open(path, "w") as f:
        f.write("# property %s\n# spec %s\n# profile %s\n" % (prop, spec, profile))
        for l in message.splitlines()[:40]:
            f.write("# %s\n" % l[:400])
        f.write("# again: python3 run.py --replay %s\n" % os.path.relpath(path, HERE))
        f.write(text)
    return os.path.relpath(path, HERE)


def first_message(out):
    for l in out.splitlines():
        if l.startswith("VIOLATED"):
            return l[9:]
    tail = [l for l in out.splitlines() if l.strip()][-3:]
    return " | ".join(tail)


def run_spec(prop, spec, seed, count, profiles=("debug", "release")):
    """Run `count` generated cases of a spec over all workers. Returns (stats, violation or None)."""
    os.makedirs(WORK, exist_ok=True)
    procs = []
    per = max(1, count // JOBS)
    for w in range(JOBS):
        profile = profiles[w % len(profiles)]
        prog = os.path.join(WORK, "%s.%d.prog" % (spec, w))
        hashes = os.path.join(WORK, "%s.%d.hash" % (spec, w))
        for p in (prog, hashes):
            if os.path.exists(p):
                os.remove(p)
        out = open(os.path.join(WORK, "%s.%d.out" % (spec, w)), "w+b")
        p = subprocess.Popen([binary(profile), "worker", spec, str(seed), str(w), str(per), str(JOBS), prog, hashes],
                             stdout=out, stderr=subprocess.STDOUT, preexec_fn=limits(20000, profile), env=run_env())
        procs.append(dict(p=p, w=w, profile=profile, prog=prog, hashes=hashes, out=out, last=None, cpu0=0.0))

    def progress(x):
        try:
            b = open(x["prog"], "rb").read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else None
        except OSError:
            return None

    def cpu_of(pid):
        try:
            f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return None

    # What hangs in some schedules only may not do so again, so there the first time has to be convincing.
    patience = (6 if spec in THREADED else 2) * CASE_CPU
    failing = []  # (index, profile, reason)
    while True:
        alive = [x for x in procs if x["p"].poll() is None]
        if not alive:
            break
        for x in alive:
            i, c = progress(x), cpu_of(x["p"].pid)
            if c is None:
                continue
            if i != x["last"]:
                x["last"], x["cpu0"] = i, c
            elif c - x["cpu0"] > patience and i is not None:
                x["p"].kill()
                x["hang"] = i
        time.sleep(0.05)
    stats = dict(evals=0, ops=0, nontrivial=0, labels={}, rule="")
    for x in procs:
        x["out"].seek(0)
        text = x["out"].read().decode("utf8", "replace")
        x["out"].close()
        rc = x["p"].returncode
        for l in text.splitlines():
            if l.startswith("STATS "):
                s = json.loads(l[6:])
                stats["evals"] += s["evals"]
                stats["ops"] += s["ops"]
                stats["nontrivial"] += s["nontrivial"]
                stats["rule"] = s["rule"]
                for k, v in s["labels"].items():
                    stats["labels"][k] = stats["labels"].get(k, 0) + v
            elif l.startswith("VIOL "):
                _, i, msg = l.split(" ", 2)
                failing.append((int(i), x["profile"], "fail", msg))
        if "hang" in x:
            failing.append((x["hang"], x["profile"], "hang", "a single case did not finish"))
        elif rc is not None and (rc < 0 or rc == 4):
            i = progress(x)
            failing.append((i if i is not None else x["w"], x["profile"], "crash", "worker ended by signal %d: %s" % (-rc, text[-300:])))
        elif rc not in (0, None):
            raise CheckError("worker of %s ended with %s: %s" % (spec, rc, text[-2000:]))
    hs = [x["hashes"] for x in procs if os.path.exists(x["hashes"])]
    stats["distinct"] = 0
    if hs:
        r = subprocess.run([binary("release"), "merge"] + hs, stdout=subprocess.PIPE, text=True)
        stats["distinct"] = int(r.stdout or 0)
        for h in hs:
            os.remove(h)
    if not failing:
        return stats, None
    failing.sort()
    return stats, confirm(prop, spec, seed, failing)


def confirm(prop, spec, seed, failing):
    """Reproduce a failure from its case alone, shrink it and write the replay file."""
    for i, profile, how, msg in failing:
        r = subprocess.run([binary(profile), "gen", spec, str(seed), str(i)], stdout=subprocess.PIPE, text=True)
        text = r.stdout
        path = os.path.join(WORK, "confirm.case")
        open(path, "w").write(text)
        got, out = exec_case(profile, spec, path)
        if got == "hang":
            again, _ = exec_case(profile, spec, path)
            if again == "hang":
                m = "does not finish: %d s of CPU time spent on one short history" % CASE_CPU
                return dict(replay=save_replay(prop, spec, profile, text, m), message=m, ops=len(parse(text)[1]))
            continue
        if got == "error":
            raise CheckError("harness error on case %d of %s: %s" % (i, spec, out[-1500:]))
        if got in ("fail", "crash"):
            small, tries = shrink(profile, spec, text)
            open(path, "w").write(small)
            got2, out2 = exec_case(profile, spec, path, trace=True)
            if got2 not in ("fail", "crash"):
                small, out2 = text, out
            m = first_message(out2)
            return dict(replay=save_replay(prop, spec, profile, small, m + "\n" + out2[-3000:]), message=m,
                        ops=len(parse(small)[1]), shrink_execs=tries)
    # Not reproducible from one case: the damage built up over several. Replay the window before it.
    for i, profile, how, msg in failing:
        if how == "hang":
            continue
        for back in (40, 400, 4000):
            start = max(i % JOBS, i - back * JOBS)
            n = (i - start) // JOBS + 1
            r = subprocess.run([binary(profile), "worker", spec, str(seed), str(start), str(n), str(JOBS),
                                os.path.join(WORK, "again.prog")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               preexec_fn=limits(200, profile), env=run_env())
            o = r.stdout.decode("utf8", "replace")
            if r.returncode < 0 or "VIOL " in o:
                t = "range %s %d %d %d %d\n" % (spec, seed, start, n, JOBS)
                return dict(replay=save_replay(prop, spec, profile, t, msg, "range"), message=msg, ops=n)
        t = "range %s %d %d %d %d\n" % (spec, seed, i % JOBS, i // JOBS + 1, JOBS)
        return dict(replay=save_replay(prop, spec, profile, t, msg, "range"), message=msg, ops=0)
    for i, profile, how, msg in failing:
        if spec in THREADED:
            m = "does not finish in every schedule: %d s of CPU time spent on one short history" % (6 * CASE_CPU)
            t = "range %s %d %d %d %d\n" % (spec, seed, i % JOBS, i // JOBS + 1, JOBS)
            return dict(replay=save_replay(prop, spec, profile, t, m, "range"), message=m, ops=0)
    raise CheckError("a worker of %s made no progress but its case finishes alone" % spec)


def corpus(prop, specs):
    """Saved cases (shrunk failures of the past) of this property, run in both profiles."""
    n = 0
    for spec in specs:
        d = os.path.join(CORPUS, spec)
        if not os.path.isdir(d):
            continue
        for f in sorted(os.listdir(d)):
            for profile in ("debug", "release"):
                n += 1
                p = os.path.join(d, f)
                got, out = exec_case(profile, spec, p)
                if got == "error":
                    raise CheckError("harness error on %s: %s" % (p, out[-1500:]))
                if got != "ok":
                    m = first_message(out)
                    return n, dict(replay=save_replay(prop, spec, profile, open(p).read(), m + "\n" + out[-3000:]), message=m,
                                   ops=len(parse(open(p).read())[1]))
    return n, None


def samples(spec, seed, n=2):
    out = []
    path = os.path.join(WORK, "sample.case")
    i = 0
    while len(out) < n and i < 60:
        text = subprocess.run([binary("release"), "gen", spec, str(seed), str(i)], stdout=subprocess.PIPE, text=True).stdout
        i += 1
        open(path, "w").write(text)
        got, o = exec_case("release", spec, path, trace=True)
        if got == "ok" and "nontrivial=true" in o:
            ls = [l.strip()[:160] for l in o.splitlines() if l.startswith("  ")]
            out.append({"spec": spec, "case": i - 1, "history": ls[:40] + (["... %d more" % (len(ls) - 40)] if len(ls) > 40 else [])})
    return out


# ---- main ----------------------------------------------------------------------------------------------

def write_evidence(prop, tier, seed, cov, violations):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
             assumptions=ASSUMPTIONS + CHECKS[prop].get("assumptions", []), wall_s=round(time.time() - START, 2),
             violations=violations)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    c = CHECKS[prop]
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], classes={})
    rules = []
    viol = None
    native = c.get("specs", [])
    if native:
        build(c["features"])
        n, viol = corpus(prop, [s[0] for s in native])
        cov["saved_cases_replayed"] = n
        for spec, quick, thorough in native:
            if viol:
                break
            st, viol = run_spec(prop, spec, seed, quick if tier == "quick" else thorough)
            cov["evaluations"] += st["evals"]
            cov["distinct_nontrivial"] += st["distinct"]
            cov["operations"] = cov.get("operations", 0) + st["ops"]
            cov["classes"][spec] = dict(cases=st["evals"], nontrivial=st["nontrivial"], distinct=st["distinct"], **st["labels"])
            rules.append("%s: %s" % (spec, st["rule"]))
            if not viol:
                cov["samples"] += samples(spec, seed, 1 if len(native) > 2 else 2)
    if not viol and "san" in c:
        build_san(c["features"])
        build(c["features"])
        for spec, quick, thorough in c["san"]:
            if viol:
                break
            st, viol = run_spec(prop, spec, seed, quick if tier == "quick" else thorough, ("asan", "msan"))
            cov["evaluations"] += st["evals"]
            cov["distinct_nontrivial"] += st["distinct"]
            cov["operations"] = cov.get("operations", 0) + st["ops"]
            cov["classes"][spec] = dict(cases=st["evals"], nontrivial=st["nontrivial"], distinct=st["distinct"], **st["labels"])
            rules.append("%s: %s" % (spec, st["rule"]))
            if not viol and len(cov["samples"]) < 4:
                cov["samples"] += samples(spec, seed, 1)
    if not viol and "miri" in c:
        import miri_runner
        viol = miri_runner.run(sys.modules[__name__], prop, c["miri"], seed, tier, cov, rules)
    cov["rule"] = "; ".join(rules)
    if viol:
        cov["violation"] = viol
        if not cov["samples"]:
            cov["samples"] = [viol]
    write_evidence(prop, tier, seed, cov, 1 if viol else 0)
    if viol:
        print("  " + viol["message"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
        return 1
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - START))
    return 0


def replay(path):
    text = open(path).read()
    head = dict(l[2:].split(" ", 1) for l in text.splitlines() if l.startswith("# ") and l.count(" ") >= 2)
    prop, spec, profile = head["property"], head["spec"], head["profile"]
    if path.endswith(".miri"):
        import miri_runner
        return miri_runner.replay(sys.modules[__name__], prop, text)
    build(CHECKS[prop]["features"])
    if profile in SAN:
        build_san(CHECKS[prop]["features"])
    os.makedirs(WORK, exist_ok=True)
    for l in text.splitlines():
        if l.startswith("range "):
            _, spec, seed, start, n, stride = l.split()
            r = subprocess.run([binary(profile), "worker", spec, seed, start, n, stride, os.path.join(WORK, "replay.prog")], env=run_env())
            return 0 if r.returncode == 0 else 1
    got, out = exec_case(profile, spec, path, trace=True)
    print(out)
    print(got)
    return 0 if got == "ok" else 1


def setup():
    os.makedirs(BUILD, exist_ok=True)
    build("all")
    return 0


def main():
    try:
        a = sys.argv[1:]
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--replay"]:
            return replay(a[1])
        if a[0] not in CHECKS:
            print("unknown property %s" % a[0])
            return 3
        return check(a[0])
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
