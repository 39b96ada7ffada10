"""Generated cases executed under Miri: schedules, memory orderings, uninitialised and out-of-bounds accesses.

Miri runs isolated (no host time, no host randomness), so a process is a function of its arguments, the Miri
seed and the code: failures are replayed exactly.
"""
import os, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor

STALL = 240   # seconds of wall time after which a single case counts as never finishing under Miri
RATES = ["0.01", "0.1", "0.03", "0.3", "0.01", "0.05", "0.2", "0.5"]
WEAK = ["0.8", "0.2", "0.5", "0.8", "0.1", "0.8", "0.4", "0.8"]


def flags(miriseed, variant):
    return ("-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks -Zmiri-seed=%d -Zmiri-preemption-rate=%s "
            "-Zmiri-compare-exchange-weak-failure-rate=%s -Zmiri-provenance-gc=100000"
            % (miriseed, RATES[variant % 8], WEAK[variant % 8]))


def command(R, features, args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--release", "--manifest-path",
            os.path.join(R.HARNESS, "Cargo.toml"), "--target-dir", os.path.join(R.BUILD, "miri"),
            "--features", features, "--"] + args


def environment(R, miriseed, variant):
    e = R.env()
    e["MIRIFLAGS"] = flags(miriseed, variant)
    e["RUST_MIN_STACK"] = "8388608"
    return e


def prebuild(R, features, spec):
    r = subprocess.run(command(R, features, ["rule", spec]), env=environment(R, 1, 0), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise R.CheckError("harness does not build under Miri:\n" + r.stdout[-4000:])


def classify(rc, text):
    """What a Miri process that ended says: ok, fail (with message), or a harness error."""
    if "error: Undefined Behavior" in text:
        i = text.index("error: Undefined Behavior")
        where = [l.strip() for l in text[i:].splitlines() if "-->" in l][:1]
        return "fail", text[i + 7:].splitlines()[0][:400] + " " + " ".join(where)
    for l in text.splitlines():
        if l.startswith("VIOL "):
            return "fail", l.split(" ", 2)[2]
        if l.startswith("VIOLATED "):
            return "fail", l[9:]
    for sign in ("error: deadlock", "error: the evaluated program deadlocked", "error: abnormal termination",
                 "error: the main thread terminated"):
        if sign in text:
            i = text.index(sign)
            return "fail", text[i + 7:].splitlines()[0][:400]
    if rc == 0:
        return "ok", ""
    if "unsafe precondition(s) violated" in text or "panic in a function that cannot unwind" in text or "panic in a destructor during cleanup" in text:
        return "fail", "the process was aborted: " + text[-300:].replace("\n", " ")
    return "error", text[-3000:]


def exec_case(R, features, spec, cfg, ops, miriseed, variant, repeat, timeout):
    text = "text:" + R.text_of(cfg, ops).strip().replace("\n", ";")
    p = subprocess.Popen(command(R, features, ["exec", spec, text, "-q", str(repeat)]), env=environment(R, miriseed, variant),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return "hang", "does not finish under Miri"
    return classify(p.returncode, out.decode("utf8", "replace"))


def run(R, prop, cfgs, seed, tier, cov, rules):
    for spec, features, quick, thorough, repeat in cfgs:
        prebuild(R, features, spec)
        v = run_spec(R, prop, spec, features, seed, quick if tier == "quick" else thorough, repeat, cov)
        if v:
            return v
    rules.append("Miri cases count by the same rule")
    return None


def run_spec(R, prop, spec, features, seed, count, repeat, cov):
    os.makedirs(R.WORK, exist_ok=True)
    per = max(1, count // R.JOBS)
    procs = []
    for w in range(R.JOBS):
        # starting points far from those of the native runs
        start = 10 ** 9 + w
        ms = (seed * 8 + w) % (1 << 31)
        path = os.path.join(R.WORK, "miri.%s.%d.out" % (spec, w))
        f = open(path, "wb")
        p = subprocess.Popen(command(R, features, ["worker", spec, str(seed), str(start), str(per), str(R.JOBS), "-"]),
                             env=environment(R, ms, w), stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        f.close()
        procs.append(dict(p=p, w=w, ms=ms, start=start, path=path, size=0, t=time.time(), hang=False))
    while True:
        alive = [x for x in procs if x["p"].poll() is None]
        if not alive:
            break
        if any(x["p"].returncode not in (None, 0) for x in procs):
            # one has failed; the others need not finish
            for x in alive:
                x["stopped"] = True
                os.killpg(x["p"].pid, signal.SIGKILL)
                x["p"].wait()
            break
        for x in alive:
            n = os.path.getsize(x["path"])
            if n != x["size"]:
                x["size"], x["t"] = n, time.time()
            elif time.time() - x["t"] > STALL:
                x["hang"] = True
                os.killpg(x["p"].pid, signal.SIGKILL)
        time.sleep(0.1)
    import json
    st = dict(cases=0, nontrivial=0, operations=0)
    hashes = set()
    failing = []
    for x in procs:
        text = open(x["path"], "rb").read().decode("utf8", "replace")
        os.remove(x["path"])
        last = x["start"]
        for l in text.splitlines():
            if l.startswith("@"):
                last = int(l[1:])
            elif l.startswith("#"):
                hashes.add(l)
            elif l.startswith("STATS "):
                s = json.loads(l[6:])
                st["cases"] += s["evals"]
                st["nontrivial"] += s["nontrivial"]
                st["operations"] += s["ops"]
                for k, v in s["labels"].items():
                    st[k] = st.get(k, 0) + v
        if x.get("stopped"):
            continue
        if x["hang"]:
            failing.append((last, x, "does not finish under Miri"))
            continue
        how, m = classify(x["p"].returncode, text)
        if how == "error":
            raise R.CheckError("Miri worker of %s ended with %s: %s" % (spec, x["p"].returncode, m))
        if how == "fail":
            failing.append((last, x, m))
    st["distinct"] = len(hashes)
    cov["evaluations"] += st["cases"]
    cov["operations"] = cov.get("operations", 0) + st["operations"]
    cov["distinct_nontrivial"] += len(hashes)
    cov["classes"]["miri:" + spec] = st
    cov["miri"] = "isolated; aliasing model off; preemption rates %s; weak-memory emulation and race detection on" % ",".join(RATES)
    if not failing:
        return None
    failing.sort(key=lambda f: f[0])
    return confirm(R, prop, spec, features, seed, failing, repeat)


def confirm(R, prop, spec, features, seed, failing, repeat):
    R.build(features)
    i, x, msg = failing[0]
    text = subprocess.run([R.binary("release"), "gen", spec, str(seed), str(i)], stdout=subprocess.PIPE, text=True).stdout
    cfg, ops = R.parse(text)
    wait = 120 if "not finish" not in msg else STALL

    def tries(c, o, seeds, reps, timeout):
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda sv: exec_case(R, features, spec, c, o, sv[0], sv[1], reps, timeout), seeds))
        for sv, (how, m) in zip(seeds, rs):
            if how == "fail" or (how == "hang" and "not finish" in msg):
                return sv, m
        return None

    seeds = [(x["ms"], x["w"])] + [(1000 + k, x["w"] if k % 2 else k) for k in range(7)]
    hit = tries(cfg, ops, seeds if repeat > 1 else seeds[:1], repeat, wait)
    if not hit:
        # depends on what the process did before: replay its whole run
        t = "range %s %s %d %d %d %d %d %d\n" % (spec, features, seed, x["start"], (i - x["start"]) // R.JOBS + 1, R.JOBS, x["ms"], x["w"])
        return dict(replay=R.save_replay(prop, spec, "miri", t, msg, "miri"), message=msg, ops=len(ops))
    sv, m = hit
    if "not finish" not in msg:
        cfg, ops, m = shrink(R, features, spec, cfg, ops, sv, m, repeat)
    t = "miri %s %d %d %d\n" % (features, sv[0], sv[1], repeat) + R.text_of(cfg, ops)
    return dict(replay=R.save_replay(prop, spec, "miri", t, m, "miri"), message=m, ops=len(ops))


def shrink(R, features, spec, cfg, ops, sv, msg, repeat, budget=float(os.environ.get("PBT_SHRINK_S", "45"))):
    """Remove operations, several candidates at a time, while it still fails with this Miri seed."""
    end = time.time() + budget
    size = max(1, len(ops) // 2)
    with ThreadPoolExecutor(8) as ex:
        while time.time() < end and ops:
            cands = [ops[:i] + ops[i + size:] for i in range(0, len(ops), size)]
            found = None
            for b in range(0, len(cands), 8):
                if time.time() > end:
                    break
                rs = list(ex.map(lambda o: exec_case(R, features, spec, cfg, o, sv[0], sv[1], repeat, 60), cands[b:b + 8]))
                for o, (how, m) in zip(cands[b:b + 8], rs):
                    if how == "fail":
                        found = (o, m)
                        break
                if found:
                    break
            if found:
                ops, msg = found
                size = min(size, max(1, len(ops) // 2))
            elif size == 1:
                break
            else:
                size = max(1, size // 2)
    return cfg, ops, msg


def replay(R, prop, text):
    spec = [l.split()[2] for l in text.splitlines() if l.startswith("# spec ")][0]
    for l in text.splitlines():
        f = l.split()
        if f[:1] == ["range"]:
            _, spec, features, seed, start, n, stride, ms, w = f
            r = subprocess.run(command(R, features, ["worker", spec, seed, start, n, stride, "-"]), env=environment(R, int(ms), int(w)),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode("utf8", "replace")
            how, m = classify(r.returncode, out)
            print("\n".join(l for l in out.splitlines() if not l.startswith(("@", "#")))[-6000:])
            print(how, m)
            return 0 if how == "ok" else 1
        if f[:1] == ["miri"]:
            _, features, ms, w, repeat = f
            cfg, ops = R.parse(text)
            t = "text:" + R.text_of(cfg, ops).strip().replace("\n", ";")
            r = subprocess.run(command(R, features, ["exec", spec, t, "-t", repeat]), env=environment(R, int(ms), int(w)),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode("utf8", "replace")
            how, m = classify(r.returncode, out)
            print(out[-8000:])
            print(how, m)
            return 0 if how == "ok" else 1
    return 3
