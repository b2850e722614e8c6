#!/usr/bin/env python3
"""Development aid: apply one source mutation at a time to scratch copies of
/repo and report which checks fire.  mut.py MUTFILE [-k name] [-j N]
MUTFILE is python: M = [(name, "ID ID", file, old, new), ...]; file/old/new may be lists of triples via M2."""
import os, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
import queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def setup(i):
    d = "/tmp/mut%d" % i
    if not os.path.isdir(d + "/repo"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["rsync", "-a", "--exclude", "target", "--exclude", ".git", R + "/", d + "/repo/"], check=False) if shutil.which("rsync") else \
            subprocess.run("mkdir -p %s/repo && cd %s && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C %s/repo" % (d, R, d), shell=True, check=True)
    if not os.path.isdir(d + "/work") and os.path.isdir(V + "/.work"):
        subprocess.run(["cp", "-a", V + "/.work", d + "/work"])
    # a private copy of the checks, so evidence does not clash
    subprocess.run("rm -rf %s/v && mkdir -p %s/v && cd %s && cp -a check.py analysis scripts driver stubs properties.jsonl %s/v/ && cp known-findings.txt %s/v/ 2>/dev/null; true" % (d, d, V, d, d), shell=True)
    return d


def one(m, d):
    name, ids, edits = m
    saved = {}
    if isinstance(edits, str):
        rel = [l[6:].strip() for l in open(edits) if l.startswith("+++ b/")]
        for fn in rel:
            p = d + "/repo/" + fn
            saved[p] = open(p, encoding="utf-8").read()
        r = subprocess.run(["patch", "-s", "-p1", "-i", edits], cwd=d + "/repo", capture_output=True, text=True)
        if r.returncode:
            for p, t in saved.items():
                open(p, "w", encoding="utf-8").write(t)
            return name, "NOAPPLY", r.stdout[-200:]
        edits = []
    try:
        for fn, old, new in edits:
            p = d + "/repo/" + fn
            s = open(p, encoding="utf-8").read()
            saved.setdefault(p, s)
            if old is None:
                s = s + new
            else:
                if s.count(old) < 1:
                    return name, "NOMATCH", fn
                s = s.replace(old, new, 1)
            open(p, "w", encoding="utf-8").write(s)
        env = dict(os.environ, EU_REPO=d + "/repo", EU_WORK=d + "/work")
        p = subprocess.run([sys.executable, d + "/v/check.py"] + ids.split(), env=env, capture_output=True, text=True, cwd=d + "/v")
        out = p.stdout
        fired = [l.split("property=")[1].split()[0] for l in out.splitlines() if l.startswith("VIOLATION")]
        det = [l.strip() for l in out.splitlines() if l.startswith("  - ")]
        if "facts" in out and "could be extracted" in out:
            return name, "NOBUILD", out[-1500:]
        return name, ",".join(fired) or "quiet", " | ".join(det[:4]) + ((" ..+%d" % (len(det) - 4)) if len(det) > 4 else "") + (p.stderr[-300:] if p.returncode not in (0, 1) else "")
    finally:
        for p, s in saved.items():
            open(p, "w", encoding="utf-8").write(s)


def main():
    g = {}
    ms = []
    if sys.argv[1] == "--seeds":
        import json
        g["M"] = []
        for n in sorted(os.listdir(V + "/seeded")):
            pid = json.load(open(V + "/seeded/%s/meta.json" % n))["property"]
            ms.append((n + " [" + pid + "]", "all", V + "/seeded/%s/patch.diff" % n))
    else:
        exec(open(sys.argv[1]).read(), g)
    for m in g["M"]:
        ms.append((m[0], m[1], [tuple(m[2:5])]) if len(m) == 5 else m)
    if "-k" in sys.argv:
        k = sys.argv[sys.argv.index("-k") + 1].split(",")
        ms = [m for m in ms if any(x in m[0] for x in k)]
    n = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    n = min(n, len(ms))
    q = queue.Queue()
    with ThreadPoolExecutor(n) as ex:
        for d in ex.map(setup, range(n)):
            q.put(d)

    def go(m):
        d = q.get()
        try:
            return one(m, d)
        finally:
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(go, ms):
            print("%-36s %-14s %s" % r, flush=True)


main()
