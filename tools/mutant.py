#!/usr/bin/env python3
"""Development aid: run specs against a changed copy of /repo, outside /repo and /verif.

    mutant.py [--features F] [--count N] (--patch FILE | --revert COMMIT | --none) SPEC...
"""
import argparse, os, subprocess, sys, shutil
S = "/tmp/mut"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--features", default="seq")
    p.add_argument("--count", type=int, default=400000)
    p.add_argument("--seed", default="7")
    p.add_argument("--patch")
    p.add_argument("--revert")
    p.add_argument("--none", action="store_true")
    p.add_argument("specs", nargs="+")
    a = p.parse_args()
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(S + "/repo"):
        sh("git", "clone", "-q", "/repo", S + "/repo")
    sh("git", "-C", S + "/repo", "reset", "-q", "--hard")
    sh("git", "-C", S + "/repo", "pull", "-q")
    name = "unchanged"
    if a.patch:
        name = a.patch
        r = sh("git", "-C", S + "/repo", "apply", os.path.abspath(a.patch))
        if r.returncode:
            print(name, "DOES NOT APPLY", r.stdout); return
    if a.revert:
        name = sh("git", "-C", S + "/repo", "log", "-1", "--format=%h %s", a.revert).stdout.strip()
        r = sh("git", "-C", S + "/repo", "revert", "--no-commit", a.revert)
        if r.returncode:
            sh("git", "-C", S + "/repo", "revert", "--abort"); sh("git", "-C", S + "/repo", "reset", "-q", "--hard")
            print(name, "CONFLICT"); return
    h = S + "/harness"
    if not os.path.isdir(h):
        shutil.copytree(V + "/harness", h)
    sh("cp", "-r", "-u", "--preserve=timestamps", V + "/harness/src", h)
    t = open(V + "/harness/Cargo.toml").read().replace('path = "/repo"', 'path = "%s/repo"' % S)
    if not os.path.exists(h + "/Cargo.toml") or open(h + "/Cargo.toml").read() != t:
        open(h + "/Cargo.toml", "w").write(t)
    ps = [subprocess.Popen(["cargo", "build", "--offline", "-q", "--features", a.features, "--target-dir", S + "/target"] + x, cwd=h,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for x in ([], ["--release"])]
    for q in ps:
        o = q.communicate()[0]
        if q.returncode:
            print(name, "DOES NOT BUILD", o[-1500:]); return
    res = []
    for spec in a.specs:
        ws = []
        for w in range(8):
            b = S + "/target/" + ("debug", "release")[w % 2] + "/lokky-pbt"
            ws.append(subprocess.Popen("ulimit -v 6000000; ulimit -t 60; exec %s worker %s %s %d %d 8 %s/prog%d" % (b, spec, a.seed, w, a.count // 8, S, w),
                                       shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace"))
        hit = 0; msg = ""; first = None
        for w in ws:
            o = w.communicate()[0]
            v = [l for l in o.splitlines() if l.startswith("VIOL")]
            if v:
                hit += 1; i = int(v[0].split()[1])
                if first is None or i < first: first = i; msg = v[0]
            elif w.returncode != 0:
                hit += 1; msg = msg or "exit %d %s" % (w.returncode, o[-120:].replace("\n", " "))
        res.append("%s:%s" % (spec, "%d/8@%s" % (hit, first) if hit else "-"))
        if hit and os.environ.get("MSG"): res.append("\n      " + msg[:220])
    print(name[:70].ljust(70), " ".join(res), flush=True)


main()
