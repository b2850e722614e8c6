#!/usr/bin/env python3
"""seed.py SPEC.py [id...] [-n] [-j N]: writes seeded/<id>/ from a spec file and confirms each in a scratch copy.

The spec holds S = [dict(id, prop, edits=[(file, old, new)...], demo=<main.rs text> | demo_sh=<sh text>, needs, breaks)].
Confirmation runs in a private mount namespace with a copy of /repo bound over /repo: demo passes on the
unchanged build, the patched tree builds, its stable tests pass and the demo fails."""
import json, os, shutil, subprocess, sys, importlib.util
from concurrent.futures import ThreadPoolExecutor
from threading import Lock
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Run in /repo after the build.  Exit 0: behaves; 1: broken.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
D=/repo/target/debug
CS=$(ls -t $D/deps/libcodespan_reporting-*.rlib | head -1)
RC=rustc; [ -x /root/.cargo/bin/rustc ] && RC=/root/.cargo/bin/rustc
RUSTUP_TOOLCHAIN=stable $RC --edition 2021 -A warnings -C debuginfo=0 --extern eucalypt=$D/deps/libeucalypt.rlib %s\\
  --extern codespan_reporting=$CS -L dependency=$D/deps "$H/main.rs" -o "$T/demo" || exit 2
cd "$T" && timeout 200 ./demo
R=$?
[ $R -eq 0 ] || exit 1
exit 0
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def gen(s):
    d = os.path.join(V, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = ""
    import difflib
    texts = {}
    for f, old, new in s["edits"]:
        t = texts.get(f) or open("/repo/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        texts[f] = t.replace(old, new)
    for f, t in texts.items():
        o = open("/repo/" + f).read()
        diff += "diff --git a/%s b/%s\n" % (f, f)
        diff += "".join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(diff)
    if "demo_sh" in s:
        open(d + "/demo.sh", "w").write("#!/bin/bash\n" + s["demo_sh"])
    else:
        ex = ""
        for c in s.get("crates", ()):
            ex += "--extern %s=$(ls -t $D/deps/lib%s-*.rlib | head -1) " % (c, c)
        open(d + "/demo.sh", "w").write(SH % ex)
        open(d + "/main.rs", "w").write(s["demo"])
        if "mod eu_eval" in s["demo"]:
            shutil.copy(os.path.join(V, "seedlib", "eu_eval.rs"), d)
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d


POOL, L = [], Lock()


def confirm(s, n, notest):
    with L:
        w = POOL.pop()
    try:
        if not os.path.exists(w + "/repo"):
            os.makedirs(w, exist_ok=True)
            sh("cp -a --reflink=auto /repo %s/repo && cp -a /opt/vp %s/vp" % (w, w))
        d = os.path.join(V, "seeded", s["id"])
        dd = w + "/demo"
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        script = """
set -u
mount --bind %(w)s/repo /repo && mount --bind %(w)s/vp /opt/vp || exit 90
cd /repo && git checkout -q -- . && git pull -q /dev/null 2>/dev/null
touch -c src/lib.rs
bash /opt/vp/build.sh > %(w)s/b0.log 2>&1 || { echo BASE-BUILD-FAILS; exit 91; }
bash %(w)s/demo/demo.sh > %(w)s/d0.log 2>&1; echo demo-clean=$?
git apply %(d)s/patch.diff || { echo NO-APPLY; exit 92; }
bash /opt/vp/build.sh > %(w)s/b1.log 2>&1 || { echo BUILD-FAILS; tail -30 %(w)s/b1.log; git checkout -q -- .; exit 93; }
bash %(w)s/demo/demo.sh > %(w)s/d1.log 2>&1; echo demo-patched=$?
if [ %(t)d = 1 ]; then bash /opt/vp/test.sh %(w)s/out.json > %(w)s/t.log 2>&1; fi
git checkout -q -- .
exit 0
""" % dict(w=w, d=d, t=0 if notest else 1)
        if os.path.exists(w + "/out.json"):
            os.unlink(w + "/out.json")
        r = subprocess.run(["unshare", "-m", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip().replace("\n", " | ")
        ok = r.returncode == 0 and "demo-clean=0" in out and "demo-patched=1" in out
        if not notest and r.returncode == 0:
            base = set(names(json.load(open("/opt/vp/BASELINE.json"))))
            got = json.load(open(w + "/out.json"))
            miss = sorted(base - set(names(got)))
            out += " | tests-missing=%d %s" % (len(miss), miss[:4])
            ok = ok and not miss
        print(("OK   " if ok else "FAIL ") + s["id"], out, flush=True)
        if not ok:
            for f in ("d0.log", "d1.log"):
                if os.path.exists(w + "/" + f):
                    print("   ", f, open(w + "/" + f).read()[-600:].replace("\n", "\n     "), flush=True)
        return ok
    finally:
        with L:
            POOL.append(w)


def names(j):
    if isinstance(j, dict):
        for k in ("passed", "pass", "stable", "tests"):
            if k in j:
                v = j[k]
                return list(v) if not isinstance(v, dict) else [a for a, b in v.items() if b in ("passed", "pass", True)]
    return list(j)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = int(a[a.index("-j") + 1]) if "-j" in a else 2
    notest = "-n" in a
    ids = [x for i, x in enumerate(a[1:], 1) if not x.startswith("-") and a[i - 1] != "-j"]
    sp = importlib.util.spec_from_file_location("spec", a[0]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    ss = [s for s in m.S if not ids or s["id"] in ids]
    for s in ss:
        gen(s)
    POOL.extend("/tmp/sw%d" % i for i in range(j))
    with ThreadPoolExecutor(j) as ex:
        res = list(ex.map(lambda z: confirm(z[1], z[0], notest), enumerate(ss)))
    sys.exit(0 if all(res) else 1)
