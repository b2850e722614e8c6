"""Failures reach the exit status (S04, the exit-status part of F02)."""
from db import *
from rule import where
from status import Status, is_fallible, may_be_zero, lname, CLEAR
from gate import index_sites


def payload(x, c):
    """abstract Ok payloads of a Result-returning call"""
    T = x.r["T"]
    ty = T[x.ty(c.dest[0])]
    ga = ty.get("ga") or ty.get("a") or []
    s = T.s(x.ty(c.dest[0]))
    inner = s[s.index("<") + 1:] if "<" in s else ""
    if inner.startswith("bool"):
        return ["Z", "N"], True
    return ["U"], False


def fmt_status(r, db):
    roots = [f for f in db.fns.values() if f.file.endswith("src/driver/format.rs") and f.kind != "closure" and any(db.fns[a].crate == "eu" for a, _ in index_sites(db).get(f.id, ()))]
    r.floor("formatter entry points", len(roots), 1)
    labels = set()

    def events(c, x, args):
        if lname(c.path) in ("branch", "from_residual", "map_err", "from_output") or not is_fallible(x, c) or "result::Result" in c.path:
            return None
        ts = db.targets(c)
        if any(db.fns[t].file.endswith("src/driver/format.rs") for t in ts):
            return None
        nm = lname(c.path)
        pl, verdict = payload(x, c)
        labels.add(nm)
        out = [(("V", "Ok", v), ("it needs formatting (%s)" % nm) if verdict and ts and v == "N" else None) for v in pl]
        out.append((("V", "Err", "U"), "%s failed" % nm))
        return out
    S = Status(db, events, lambda g: g.file.endswith("src/driver/format.rs"))
    check(r, db, S, roots, "status")
    r.floor("fallible operations of the formatter", len(labels), 4)
    r.count("functions executed abstractly", len(S.analysed))


def check(r, db, S, roots, key):
    for f in roots:
        res = S.run(f, tuple("U" for _ in range(f.argc)))
        bads = {}
        n = 0
        for v, bad, line in sorted(res, key=str):
            n += 1
            if bad and bad != "#clear" and may_be_zero(v):
                bads.setdefault(bad, line)
        for lab in sorted({b for _, b, _ in res if b}):
            r.ob("%s:%s:%s" % (key, f.short, lab), lab not in bads, "after `%s` the function can still report success" % lab, where(f, bads.get(lab)))
        r.count("outcomes of %s" % f.short, n)
    for x, line, v, bad in S.exits:
        if bad:
            r.ob("%s:exit:%s:%s" % (key, x.short, bad), not may_be_zero(v), "after `%s` the process can exit with success" % bad, where(x, line))


# ------------------------------------------------------------------ S04
# failures that by documented design do not decide the status: (function, callee) -> (how many call sites, reason)
ADVISORY = {
    ("check", "run_type_checker"): (1, "the type check is advisory: a pipeline failure there is a warning"),
    ("run", "run_type_checker"): (1, "as above: evaluation itself reports the failure"),
    ("run", "run_type_checker_from_blob_core"): (1, "as above"),
    ("run_type_checker", "verify"): (1, "content findings of the advisory check"),
    ("run_type_checker_from_blob_core", "verify"): (1, "content findings of the advisory check"),
    ("try_execute", "compile"): (2, "recompilation of the tool's own argument and environment blocks over their built-in defaults"),
    ("detect_and_load_prelude_override", "read_fs_input"): (1, "a look ahead; loading the same input reports the failure"),
}


def s04_scope(db):
    eu = [f for f in db.fns.values() if f.crate == "eu"]
    R = db.closure_reach({f.id for f in eu})
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if f.id not in R or f.kind == "closure":
            continue
        if not f.file.startswith(("src/driver/", "src/bin/", "src/import/")) or "/lsp/" in f.file or f.file.endswith("tester.rs"):
            continue
        rt = f.r["T"].s(f.ty(0))
        if rt.startswith("std::result::Result<") or (rt == "i32" and f.file.startswith("src/bin/")) or f.id.endswith("::main"):
            yield f, rt


def s04(r, db):
    r.rules += ["in every driver function that reports success or failure, after any of its fallible operations has failed no return value shows success: not Ok, not a zero status, not an exit with zero",
                "a non-zero status handed up by a stage stays non-zero up to the process exit"]
    r.assumptions += ["calls into other files report their failures in their Result (those in the driver are themselves checked)"]
    tot = nfn = 0
    for f, rt in s04_scope(db):
        labels = {}

        def events(c, x, args):
            if lname(c.path) in ("branch", "from_residual", "map_err", "from_output") or "result::Result" in c.path:
                return None
            nm = lname(c.path)
            ts = db.targets(c)
            if rt.startswith("std::result::Result<std::option::Option<"):
                from r_lost import absent       # a look-up may answer "there is none"
                w = absent(c, x)
                if w is not None:
                    return w
            if f.id.endswith("::main") and nm == "join" and "thread" in c.path:
                labels.setdefault(nm, set()).add(c.bb)
                return [(("V", "Ok", "Z"), None), (("V", "Ok", "N"), ("the run's failure status", c.bb)), (("V", "Err", "U"), ("a panicking run", c.bb))]
            if nm == "is_output_stream_closed":
                return [("N", None, "clear"), ("Z", None)]     # a reader that went away is success by design
            if not is_fallible(x, c):
                return None
            if not ts and not c.rpath.startswith(("std::fs", "std::io")):
                return None
            if ts and all(db.fns[t].file == f.file and db.fns[t].kind != "closure" and same_status(db, db.fns[t]) for t in ts):
                return None
            labels.setdefault(nm, set()).add(c.bb)
            inner = x.r["T"].s(x.ty(c.dest[0]))
            if inner.startswith("std::result::Result<i32"):
                return [(("V", "Ok", "Z"), None), (("V", "Ok", "N"), ("%s's failure code" % nm, c.bb)), (("V", "Err", "U"), (nm, c.bb))]
            ec = exit_field(db, x, c) if f.crate == "eu" else None
            if ec is not None:
                return [(("V", "Ok", ("S", ((ec, ("V", "None", "U")),))), None), (("V", "Ok", ("S", ((ec, ("V", "Some", "N")),))), ("%s's exit code" % nm, c.bb)), (("V", "Err", "U"), (nm, c.bb))]
            v = "T" if inner.startswith("std::result::Result<bool") else "U"
            return [(("V", "Ok", v), None), (("V", "Err", "U"), (nm, c.bb))]
        S = Status(db, events, lambda g: g.file == f.file and same_status(db, g))
        # a failure inside a followed function that its result does not show is reported there, once
        S.relabel = lambda c, g, v, bd: None if bd is None or lost(v, g.r["T"].s(g.ty(0))) else (lname(c.path), c.bb)
        res = S.run(f, tuple("U" for _ in range(f.argc)))
        lostat = {}
        seen = set()
        for v, b, line in res:
            if b and b != "#clear":
                seen.add(b[0])
                if lost(v, rt):
                    lostat.setdefault(b[0], {})[b[1]] = line
        for x, line, v, b in S.exits:
            if b and b != "#clear":
                seen.add(b[0])
                if may_be_zero(v):
                    lostat.setdefault(b[0], {})[b[1]] = line
        if labels:
            nfn += 1
        tot += len(seen)
        for nm in sorted(seen):
            k = len(lostat.get(nm, ()))
            al = ADVISORY.get((lname(f.id), nm))
            ok = k == 0 or (al is not None and k <= al[0])
            r.ob("lost:%s:%s" % (f.short, nm), ok, "after %s the function can still report success" % (nm if " " in nm else "`%s` fails" % nm), where(f, next(iter(lostat.get(nm, {}).values()), None)))
        if S.overflow:
            r.count("functions too large to follow", 1)
    r.floor("driver functions that report a status", nfn, 40)
    r.floor("kinds of failure followed", tot, 100)


def same_status(db, g):
    rt = g.r["T"].s(g.ty(0))
    return rt == "i32" or rt.startswith("std::result::Result<")


def exit_field(db, x, c):
    """index of an `exit_code`-like Option<integer> field of the struct a call's Ok carries"""
    T = x.r["T"]
    s = T.s(x.ty(c.dest[0]))
    if not s.startswith("std::result::Result<"):
        return None
    inner = s[len("std::result::Result<"):].split(",")[0].split("<")[0]
    for p, a in db.adts.items():
        if short(p) == inner or p == inner or p.endswith("::" + inner.split("::")[-1]) and inner.endswith(p.split("::")[-1]):
            if len(a["vars"]) == 1:
                for i, (n, t) in enumerate(a["vars"][0][2]):
                    if n == "exit_code":
                        return i
    return None


def lost(v, rt):
    """the returned value does not show the failure"""
    if rt.startswith("std::result::Result"):
        return isinstance(v, tuple) and v[0] == "V" and not shows(v)
    return v in ("Z", "T")


def shows(v):
    if v == "N":
        return True
    if isinstance(v, tuple) and v[0] == "V":
        return v[1] in ("Err", "Break") or (v[1] in ("Ok", "Some", "Continue") and shows(v[2]))
    if isinstance(v, tuple) and v[0] == "S":
        return any(shows(w) for _, w in v[1])
    return False


# ------------------------------------------------------------------ T01
from gate import Gate, strip, const_bool, local_expr_of_call, FAM
import inl


def t01(r, db):
    r.rules += ["in every function of the test driver that reports a status, after a fallible operation failed or a summary was not a pass, no return shows success",
                "a test whose preparation or execution failed is recorded without a zero exit code",
                "an error test passes only where every expectation it declares was compared and met; a passing verdict is written only over a successful validation",
                "a run without an exit code is not recorded with exit code 0",
                "the test driver nowhere drops the failing elements of a sequence of results"]
    fs = [f for f in db.fns.values() if f.file.endswith("src/driver/tester.rs") and f.kind != "closure"]
    R = db.closure_reach({f.id for f in db.fns.values() if f.crate == "eu"})
    followed = lambda g: g.file.endswith("src/driver/tester.rs") and same_status(db, g)
    n = nl = rec = 0
    for f in sorted(fs, key=lambda f: f.id):
        rt = f.r["T"].s(f.ty(0))
        if not rt.startswith("std::result::Result<") or f.id not in R and "Result<i32" not in rt:
            continue

        def events(c, x, args):
            nm = lname(c.path)
            if nm in ("branch", "from_residual", "map_err", "from_output") or "result::Result" in c.path or "fmt::" in c.path:
                return None
            if nm == "starts_with" and len(c.args) > 1:
                e = strip(expr_of(x, c.args[1]))
                if e[0] == "str" and e[1] == "PASS":
                    return [("N", None), ("Z", ("a summary that is not a pass", 0))]
            if nm == "eq" and any(y == ("str", "PASS") for a in c.args for y in subexprs(expr_of(x, a))):
                return [("N", None), ("Z", ("a summary that is not a pass", 0))]
            if not is_fallible(x, c):
                return None
            ts = db.targets(c)
            if not ts and not c.rpath.startswith(("std::fs", "std::io", "std::process")):
                return None
            if nm == "validate" and any("ErrorExpectation" in t for t in ts):
                if "i32" in rt:
                    return [(("V", "Ok", "U"), None), (("V", "Err", "U"), ("an unmet expectation", c.bb))]
                return [(("V", "Ok", "U"), None), (("V", "Err", "U"), None)]
            if ts and all(followed(db.fns[t]) for t in ts) and "i32" in x.r["T"].s(x.ty(c.dest[0])):
                return None
            if "Result<i32" in x.r["T"].s(x.ty(c.dest[0])):
                return [(("V", "Ok", "Z"), None), (("V", "Ok", "N"), ("%s's failure code" % nm, c.bb)), (("V", "Err", "U"), (nm, c.bb))]
            out = [(("V", "Ok", "U"), None), (("V", "Err", "U"), (nm, c.bb))]
            return out
        S = Status(db, events, followed)
        S.relabel = lambda c, g, v, bd: None if bd is None or lost(v, g.r["T"].s(g.ty(0))) else (lname(c.path), c.bb)
        recs = []

        def on_agg(x, env, a, ops, bad):
            if lname(a["p"]) != "TestResult" or "exit_code" not in a["f"]:
                return bad
            v = S.deref(env, S.op(x, env, ops[a["f"].index("exit_code")]))
            recs.append((bad, v))
            return CLEAR if bad and bad != CLEAR else bad
        S.on_agg = on_agg
        res = S.run(f, tuple("U" for _ in range(f.argc)))
        lostat, seen = {}, set()
        for v, b, line in res:
            if b and b != CLEAR:
                seen.add(b[0])
                if lost(v, rt):
                    lostat[b[0]] = line
        n += 1
        nl += len(seen)
        for nm in sorted(seen):
            r.ob("lost:%s:%s" % (f.short, nm), nm not in lostat, "after %s the test run can still report success" % (nm if " " in nm else "`%s` fails" % nm), where(f, lostat.get(nm)))
        for b, v in recs:
            if b and b != CLEAR:
                rec += 1
                ok = (isinstance(v, tuple) and v[0] == "V" and (v[1] == "None" or v[2] == "N"))
                r.ob("recorded:%s:%s" % (f.short, b[0]), ok, "a test whose `%s` failed is recorded with an exit code that may be zero" % b[0], where(f))
    r.floor("test driver functions that report a status", n, 8)
    r.floor("kinds of failure followed", nl, 15)
    r.floor("failed tests recorded", rec, 2)
    # a verdict is written only over a successful validation
    g = Gate(db, lambda f, e: None, lambda f, e, v: v == "Ok" and any(y[0] == "call" and any("ErrorExpectation" in t and lname(t) == "validate" for t in [y[1] or ""]) for y in subexprs(e)))
    np = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if not f.file.endswith("src/driver/tester.rs") or f.kind == "closure":
            continue
        x = inl.comb(f)
        for b in sorted(x.reach):
            t = x.bbs[b]["t"]
            hit = [c for c in x.calls() if c.bb == b and lname(c.path) in ("to_string", "from", "into", "to_owned") and c.args and strip(expr_of(x, c.args[0])) == ("str", "PASS")]
            if hit:
                np += 1
                r.ob("verdict:%s" % f.short, g.guarded(x, b), "a passing verdict is written without the expectations having been met", where(f, t[5]))
    r.count("passing verdicts written", np)
    # expectations
    m = 0
    for p, a in sorted(db.adts.items()):
        if not p.endswith("::ErrorExpectation"):
            continue
        vs = [f for f in db.fns.values() if lname(f.id) == "validate" and p.split("::")[-1] in f.id and f.kind != "closure" and "testplan" in f.file]
        for f in vs:
            x = inl.comb(f)
            for fld, ty in a["vars"][0][2]:
                m += 1

                def has(h, e, fld=fld):
                    return any(y[0] == "field" and y[1] == fld for y in deps(h, e))

                def atom(h, e, has=has):
                    e = strip(e)
                    if e[0] == "bin" and e[1] in ("Eq", "Ne") and (has(h, e[2]) or has(h, e[3])):
                        return e[1] == "Eq"
                    if e[0] == "call" and lname(e[1]) in ("eq", "ne", "is_match") and any(has(h, y) for y in e[2]):
                        return lname(e[1]) != "ne"
                    return None
                gv = Gate(db, atom, lambda h, e, v, fld=fld: v == "None" and any(y[0] == "field" and y[1] == fld for y in subexprs(e)) and not any(y[0] == "call" and lname(y[1]) not in ("as_ref", "as_deref", "clone", "as_mut") for y in subexprs(e)))
                r.ob("expectation:%s:%s" % (f.short, fld), gv.returns_variant(f, "Ok", None, 10), "an error test can pass without its `%s` expectation having been met" % fld, where(f))
    r.floor("declared expectations", m, 2)
    killed(r, db)
    # dropped elements
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if not f.file.endswith(("src/driver/tester.rs", "src/core/analyse/testplan.rs")):
            continue
        for c in f.calls():
            nm = lname(c.path)
            if nm in ("filter_map", "flat_map", "map_while", "flatten", "take_while") and "Iterator" in c.path:
                drop = any(e[0] == "fnc" and lname(e[1]) == "ok" and "Result" in e[1] for a in c.args for e in [strip(expr_of(f, a))])
                T = f.r["T"]
                it = T.s(T[f.ty(c.args[0][1][0])] and f.ty(c.args[0][1][0])) if c.args[0][0] in ("cp", "mv") else ""
                if nm == "flatten" and "ReadDir" in it:
                    drop = True
                for a in c.args[1:]:
                    from r_eff import closure_of
                    k = closure_of(db, f, a)
                    if k is not None and any(lname(y.path) == "ok" and "Result" in y.path for y in k.calls()) and "ReadDir" in it:
                        drop = True
                r.ob("dropped:%s:%s" % (f.short, nm), not drop, "elements that could not be read are skipped instead of failing the run", where(f, c.line))


def killed(r, db):
    """the exit code of a process that was killed (it has none) is not taken for success"""
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if not f.file.endswith("src/driver/tester.rs") or not any(lname(c.path) == "code" and "ExitStatus" in c.path for c in f.calls()):
            continue
        n += 1
        x = inl.expand(f, None, 6, True)
        ok, line = True, None
        srcs = {c.dest[0] for c in x.calls() if lname(c.path) == "code" and "ExitStatus" in c.path}
        grown = True
        while grown:
            grown = False
            for b in x.reach:
                for s in x.bbs[b]["s"]:
                    if s[0] == "=" and not s[1][1] and s[1][0] not in srcs and s[2][0] in ("use", "ref"):
                        p = s[2][1][1] if s[2][0] == "use" and s[2][1][0] != "c" else s[2][2] if s[2][0] == "ref" else None
                        if p is not None and p[0] in srcs and not p[1]:
                            srcs.add(s[1][0])
                            grown = True
        for c in x.calls():
            if c.args and c.args[0][0] != "c" and c.args[0][1][0] in srcs and not c.args[0][1][1]:
                if lname(c.path) in ("unwrap_or_default",):
                    ok, line = False, c.line
        dom = x.dom()
        some, takes = set(), set()
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] != "=":
                    continue
                if s[2][0] == "discr" and s[2][1][0] in srcs and not s[2][1][1] and x.bbs[b]["t"][0] == "switch":
                    t = x.bbs[b]["t"]
                    some.add(next((m for v, m in t[3] if int(v) == 1), t[4]))
                if not s[1][1] and s[2][0] == "use" and s[2][1][0] != "c" and s[2][1][1][0] in srcs and len(s[2][1][1][1]) == 2:
                    takes.add(s[1][0])
        grown = True
        while grown:
            grown = False
            for b in x.reach:
                for s in x.bbs[b]["s"]:
                    if s[0] == "=" and not s[1][1] and s[2][0] in ("use", "cast") and s[1][0] not in takes:
                        o = s[2][1] if s[2][0] == "use" else s[2][2]
                        if o[0] != "c" and o[1][0] in takes and not o[1][1]:
                            takes.add(s[1][0])
                            grown = True
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and not s[1][1] and s[1][0] in takes and s[2][0] == "use" and s[2][1][0] == "c" and str(s[2][1][1].get("v")) == "0" and not dom[b] & some:
                    ok, line = False, s[3] if len(s) > 3 else None
        r.ob("killed:%s" % f.short, ok, "a run that was killed, and so has no exit code, is taken to have ended with status 0", where(f, line))
    r.count("exit codes read", n)
