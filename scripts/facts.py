#!/usr/bin/env python3
"""Produce the fact dump of /repo's current working tree.

Builds the driver (rustc_private, nightly), lays out a symlink overlay of /repo
in which the unobtainable git dependency yaml-rust is replaced by a
signature-only stub (stubs/yaml-rust), and runs `cargo +nightly check` over it
with the driver as RUSTC_WORKSPACE_WRAPPER.  Everything lives under
/verif/.work; /repo and /opt/vp are only read.

The dump is keyed by a hash of every input (sources, manifests, driver, stub),
so a run on an unchanged tree reuses it and any change regenerates it.
"""
import hashlib, os, re, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("EU_REPO", "/repo")
WORK = os.environ.get("EU_WORK", os.path.join(VERIF, ".work"))
CARGO_BIN = "/root/.cargo/bin"
TOOL = "nightly"
CRATES = ["eucalypt", "eu"]


class FactsError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = CARGO_BIN + ":" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER",
              "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sysroot():
    p = subprocess.run([CARGO_BIN + "/rustc", "+" + TOOL, "--print", "sysroot"], env=env(), capture_output=True, text=True)
    if p.returncode:
        raise FactsError("no nightly toolchain: " + p.stderr)
    return p.stdout.strip()


def fhash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()


def inputs():
    out = []
    for base in ("src", "xtask", "lib"):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs", "build-meta.yaml"):
        out.append(os.path.join(REPO, f))
    for d, ds, fs in os.walk(os.path.join(VERIF, "stubs")):
        ds.sort()
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    out.append(os.path.join(VERIF, "driver", "main.rs"))
    out.append(os.path.abspath(__file__))
    return out


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    exe = os.path.join(WORK, "eufacts")
    stamp = exe + ".stamp"
    want = fhash([src])
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe
    p = subprocess.run([CARGO_BIN + "/rustc", "+" + TOOL, "--edition", "2021", "-O", "-A", "warnings", src, "-o", exe],
                       env=env(), capture_output=True, text=True)
    if p.returncode:
        raise FactsError("driver does not build:\n" + p.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    return exe


SKIP = {".git", "target", "fuzz"}
YAML_FILES = ("src/import/yaml.rs", "src/import/jsonl.rs", "src/export/yaml.rs")


def put(path, text):
    if os.path.islink(path):
        os.unlink(path)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def links(over, rel, own, skip=()):
    src, dst = os.path.join(REPO, rel), os.path.join(over, rel)
    os.makedirs(dst, exist_ok=True)
    want = set(os.listdir(src)) - (SKIP if rel == "" else set()) - set(skip)
    for name in os.listdir(dst):
        path = os.path.join(dst, name)
        if name in own:
            continue
        if name in want and os.path.islink(path) and os.readlink(path) == os.path.join(src, name):
            continue
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)
    for name in want - set(own):
        path = os.path.join(dst, name)
        if not os.path.lexists(path):
            os.symlink(os.path.join(src, name), path)


def blank(text, mods):
    names = "|".join(mods)
    drop_line = re.compile(
        rf"^\s*(?:pub(?:\([^)]*\))?\s+)?(?:mod\s+(?:{names})\s*;|use\s+(?:self::|super::)?(?:{names})::.*;)\s*$")
    formats = "|".join(f'"{m}"' for m in mods)
    arm = re.compile(rf'^\s*(?:"\w+"\s*\|\s*)*(?:{formats})(?:\s*\|\s*"\w+")*\s*=>')
    out, depth = [], 0
    for line in text.split("\n"):
        if depth:
            depth += line.count("{") + line.count("(") - line.count("}") - line.count(")")
            out.append("")
        elif drop_line.match(line):
            out.append("")
        elif m := arm.match(line):
            rest = line[m.end():]
            depth = rest.count("{") + rest.count("(") - rest.count("}") - rest.count(")")
            out.append("")
        else:
            out.append(line)
    return "\n".join(out)


def rd(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8") as f:
        return f.read()


def overlay(mode):
    over = os.path.join(WORK, "overlay-" + mode)
    os.makedirs(over, exist_ok=True)
    toml, lock = rd("Cargo.toml"), rd("Cargo.lock")
    head, *packages = lock.split("[[package]]\n")
    if mode == "full":
        links(over, "", {"Cargo.toml", "Cargo.lock"})
        stub = os.path.join(VERIF, "stubs", "yaml-rust")
        toml = re.sub(r"(?m)^yaml-rust\s*=.*$", f'yaml-rust = {{ path = "{stub}" }}', toml)
        keep = []
        for p in packages:
            if p.startswith('name = "yaml-rust"\n'):
                p = 'name = "yaml-rust"\nversion = "0.4.5"\n\n'
            keep.append(p)
        if not any('\n "linked-hash-map"' in p for p in keep):
            keep = [p for p in keep if not p.startswith('name = "linked-hash-map"\n')]
    else:
        links(over, "", {"src", "Cargo.toml", "Cargo.lock"})
        links(over, "src", {"import", "export"})
        links(over, "src/import", {"mod.rs"}, [os.path.basename(f) for f in YAML_FILES if "import" in f])
        links(over, "src/export", {"mod.rs"}, [os.path.basename(f) for f in YAML_FILES if "export" in f])
        put(os.path.join(over, "src/import/mod.rs"), blank(rd("src/import/mod.rs"), ["yaml", "jsonl"]))
        put(os.path.join(over, "src/export/mod.rs"), blank(rd("src/export/mod.rs"), ["yaml"]))
        toml = re.sub(r"(?m)^yaml-rust\s*=.*\n", "", toml)
        keep = [p for p in packages if not p.startswith('name = "yaml-rust"\n')]
        keep = [p.replace(' "yaml-rust",\n', "") for p in keep]
        if not any('\n "linked-hash-map"' in p for p in keep):
            keep = [p for p in keep if not p.startswith('name = "linked-hash-map"\n')]
    put(os.path.join(over, "Cargo.toml"), toml)
    put(os.path.join(over, "Cargo.lock"), "[[package]]\n".join([head] + keep))
    return over


def extract(mode, exe, outdir):
    over = overlay(mode)
    target = os.path.join(WORK, "target")
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    # a warm target dir must not let cargo skip the wrapper
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for n in os.listdir(fp):
            if n.startswith("eucalypt-"):
                shutil.rmtree(os.path.join(fp, n))
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e["RUSTC_WORKSPACE_WRAPPER"] = exe
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["EUFACTS_CRATES"] = ",".join(CRATES)
    e["EUFACTS_OUT"] = outdir
    e["EUFACTS_ROOT"] = over
    p = subprocess.run([CARGO_BIN + "/cargo", "+" + TOOL, "check", "--offline", "-p", "eucalypt", "--lib", "--bin", "eu"],
                       cwd=over, env=e, capture_output=True, text=True)
    if p.returncode:
        raise FactsError("cargo check failed (%s):\n%s" % (mode, p.stderr[-6000:]))
    for want in ("eucalypt.jsonl", "eu.bin.jsonl"):
        f = os.path.join(outdir, want)
        if not os.path.exists(f):
            raise FactsError("no facts for " + want)


def ensure(verbose=True):
    """Return (facts dir, mode, info)."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = fhash(inputs())
        outdir = os.path.join(WORK, "facts")
        stamp = os.path.join(WORK, "facts.stamp")
        if os.path.exists(stamp):
            k, mode = open(stamp).read().split()
            if k == key:
                return outdir, mode, key
            os.unlink(stamp)
        t = time.time()
        exe = build_driver()
        for attempt in range(4):
            try:
                extract("full", exe, outdir)
                mode = "full"
            except FactsError as ex:
                if verbose:
                    print("facts: stub overlay failed, using the overlay without yaml: " + str(ex)[-1500:], file=sys.stderr)
                extract("noyaml", exe, outdir)
                mode = "noyaml"
            now = fhash(inputs())
            if now == key:
                break
            key = now
        else:
            raise FactsError("the sources changed while they were being analysed")
        with open(stamp, "w") as f:
            f.write(key + " " + mode)
        if verbose:
            print("facts: extracted (%s) in %.1fs" % (mode, time.time() - t), file=sys.stderr)
        return outdir, mode, key


if __name__ == "__main__":
    try:
        d, m, k = ensure()
        print(d, m, k)
    except FactsError as ex:
        print("facts: " + str(ex), file=sys.stderr)
        sys.exit(2)
