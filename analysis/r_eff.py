"""Effects: what may happen where, and under which condition (I05 S01 S03 S05 F02 P01 P02 P04 L01)."""
import re
from collections import defaultdict, deque
from db import *
from rule import where
import eff
import inl
from eff import sites
from gate import Gate, index_sites, strip, const_bool, local_expr_of_call
from prov import Prov, exact
from flow import path, Events

EVAL = "src/eval/"


def lname(p):
    return last(strip_generics(p or ""))


def file_in(f, *ps):
    return any(f.file == p or (p.endswith("/") and f.file.startswith(p)) for p in ps)


# ------------------------------------------------------------------ I05
def eval_roots(db):
    tr = db.trait("StgIntrinsic")
    roots = set()
    n = 0
    for i in db.impls_of(tr):
        n += 1
        for _, k, p, _ in i["items"]:
            if k == "fn" and p in db.fns:
                roots.add(p)
    for t in db.traits[tr]["items"]:
        if t[1] in db.fns:
            roots.add(t[1])
    mach = db.adt("bytecode::machine::BytecodeMachine")["id"]
    m = [f.id for f in db.fns.values() if f.kind != "closure" and f.argc and f.file.startswith(EVAL) and peel_adt(f, 1) == mach]
    return roots, set(m), n


def peel_adt(f, i):
    T = f.r["T"]
    t = T[T.peel(f.ty(i))]
    return t["p"] if t["k"] == "adt" else None


def env_name(db, P, f, c):
    return {x for x in P.of(f, c.args[0]) if x[0] == "str"} if c.args else set()


MUTSTATIC = ("Atomic", "Mutex", "RwLock", "RefCell", "::Cell<", "LocalKey")


def i05(r, db):
    r.rules += ["effect reachability: from every built-in operation and every evaluator method, over resolved calls, trait dispatch and function values, no call with an external effect is reachable outside the listed modules and purposes",
                "global state: no mutable global is read or written by code reachable from evaluation except the listed ones"]
    r.assumptions += ["external crates called from evaluation have no effects beyond those named in the effect table", "code unreachable in the call graph built from class-hierarchy dispatch does not run during evaluation"]
    intr, mach, n = eval_roots(db)
    r.floor("built-in operations", n, 140)
    r.floor("evaluator methods", len(mach), 30)
    R = db.closure_reach(intr | mach)
    r.floor("functions reachable from evaluation", len(R), 1500)
    P = Prov(db)
    emit = {p for i in db.impls for _, k, p, _ in i["items"] if k == "fn" and (i["trait"] or "").endswith("eval::emit::Emitter")}
    emit_all = {x for x in R if any(x == e or x.startswith(e + "::{closure") for e in emit)}
    nsite = 0
    for x in sorted(R):
        f = db.fns.get(x)
        if f is None:
            continue
        for c in f.calls():
            k = eff.kind(c.rpath) or eff.kind(c.path)
            if c.rpath in db.fns or not k:
                continue
            nsite += 1
            ok, why = allowed_eval(db, P, f, c, k, emit_all)
            if not ok:
                p = db.path_to(sorted(intr | mach), {x})
                r.ob("effect:%s:%s:%s" % (k, eff.canon(c.rpath), f.short), False, "evaluation can reach %s (%s) through %s%s" % (eff.canon(c.rpath), k, " -> ".join(short(y) for y in (p or [])[-5:]), why), where(f, c.line))
            else:
                r.ob("effect:%s:%s:%s" % (k, eff.canon(c.rpath), f.short), True, "", where(f, c.line))
        for p in fn_values(f):
            k = eff.kind(p)
            if k and p not in db.fns and k not in ("stderr",):
                # passed as a value: same policy, no argument to inspect
                ok = k in ("time",) and file_in(f, "src/eval/memory/", "src/eval/machine/metrics.rs")
                r.ob("effect-value:%s:%s:%s" % (k, eff.canon(p), f.short), ok, "evaluation takes %s (%s) as a value" % (eff.canon(p), k), where(f))
        r.n += 1
        r.ok += 1
        for name, ty, kind in mutable_globals(db, f):
            ok = global_ok(f, name)
            r.ob("global:%s:%s" % (short(name), f.short), ok, "evaluation reads or writes the mutable global %s, so a result can depend on more than its arguments" % short(name), where(f))
    r.count("effect sites judged", nsite)


def allowed_eval(db, P, f, c, k, emit):
    par = file_in(f, "src/eval/stg/parallel/")
    if k == "stderr":
        return True, ""
    if k == "stdout":
        return f.id in emit, "; output belongs to the render stage, not to evaluation"
    if k == "time":
        return file_in(f, "src/eval/memory/", "src/eval/machine/metrics.rs"), ""
    if k == "env-read":
        names = env_name(db, P, f, c)
        return bool(names) and all(s[1].startswith("EU_") for s in names) and lname(c.rpath) in ("var", "var_os"), "; only the tool's own EU_* diagnostic switches may be consulted"
    if k == "exit":
        n = lname(c.rpath)
        return (n == "abort" and file_in(f, "src/eval/memory/")) or (n == "_exit" and par), ""
    if k in ("process", "signal"):
        return par and lname(c.rpath) in ("fork", "kill", "waitpid"), ""
    if k == "file-read":
        if par and lname(c.rpath) == "read_dir":
            return P.of(f, c.args[0]) == {("str", "/proc/self/task")}, ""
        return False, ""
    return False, ""


def mutable_globals(db, f):
    """(path, type, how) of statics with interior mutability that f's body mentions"""
    T = f.r["T"]
    out = set()

    def op(o):
        if o[0] == "c" and "static" in o[1]:
            ty = T.s(T.peel(o[1]["t"]))
            if any(m in ty for m in MUTSTATIC) or (T[o[1]["t"]]["k"] == "ptr" and T[o[1]["t"]]["m"]):
                out.add((o[1]["static"], ty, "static"))
        elif o[0] == "c" and "k" in o[1]:
            ty = T.s(T.peel(o[1]["t"]))
            if "LocalKey" in ty:
                out.add((o[1]["k"] if isinstance(o[1]["k"], str) else str(o[1]["k"]), ty, "tls"))
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=":
                for o in operands(s[2]):
                    op(o)
        t = f.bbs[b]["t"]
        if t[0] == "call":
            for a in t[2]:
                op(a)
    for pb in f.r.get("promoted", []):
        for b in pb["bbs"]:
            for s in b["s"]:
                if s[0] == "=":
                    for o in operands(s[2]):
                        op(o)
    return out


def global_ok(f, name):
    return file_in(f, "src/eval/memory/", "src/eval/machine/env.rs", "src/eval/machine/vm.rs", "src/eval/stg/parallel/", "src/eval/stg/stream.rs", "src/eval/bytecode/mod.rs")


# ------------------------------------------------------------------ S01
ARGS = ("RunArgs", "TestArgs")


def field_of(e, owner_last, name=None):
    e = strip(e)
    return e[0] == "field" and len(e) > 3 and e[3] is not None and last(e[3]) in owner_last and (name is None or e[1] == name)


def s01(r, db):
    r.rules += ["who starts processes: every call that builds or starts a process is in a listed place or is reachable only over a branch on the permission",
                "permission provenance: the permission field holds only what the command line said, and nothing constructs it as true",
                "the test tool's child runs get the permission flag only where the parent has it"]
    r.assumptions += ["the option parser sets the permission flag only when the option is present on the command line"]

    def atom(f, e):
        if field_of(e, ("EucalyptOptions",) + ARGS, "allow_io"):
            return True
        return None
    g = Gate(db, atom)
    n = 0
    P = Prov(db)
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if c.rpath in db.fns:
                continue
            web = strip_generics(c.rpath).startswith("webbrowser::")
            k = "process" if web else (eff.kind(c.rpath) or eff.kind(c.path))
            if k != "process":
                continue
            n += 1
            nm = lname(c.rpath)
            key = "process:%s:%s" % (nm, f.short)
            if web:
                gw = Gate(db, lambda f, e: True if field_of(e, ("EucalyptOptions",), "open_browser") else None)
                p = gw.site_ok(f, c.bb)
                r.ob(key, p is None, "a browser is started without the option that asks for it: %s" % chain(p), where(f, c.line))
                continue
            if nm == "fork":
                r.ob(key, file_in(f, "src/eval/stg/parallel/"), "a process is forked outside the parallel evaluator", where(f, c.line))
                continue
            if nm in ("new",):
                prog = P.of(f, c.args[0])
                strs = {x[1] for x in prog if x[0] == "str"}
                if prog and all(x[0] == "str" for x in prog) and strs == {"git"} and file_in(f, "src/import/"):
                    r.ob(key + ":git", True, "", where(f, c.line))
                    continue
                if any(x == ("ext", "std::env::current_exe") for x in prog) and not any(x[0] == "field" for x in prog):
                    r.ob(key + ":self", True, "", where(f, c.line))
                    continue
            elif f.id and only_known_command(db, P, f, c):
                r.ob(key, True, "", where(f, c.line))
                flag_gate(r, db, P, f, c, g, key)
                continue
            p = g.site_ok(f, c.bb)
            r.ob(key, p is None, "an external command can be started without the permission having been checked: %s" % chain(p), where(f, c.line))
    r.floor("process-starting calls", n, 20)
    # provenance of the permission
    w = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for b in sorted(f.reach):
            for st in f.bbs[b]["s"]:
                if st[0] != "=":
                    continue
                src = None
                if st[2][0] == "agg" and st[2][1]["k"] == "adt" and last(st[2][1]["p"]) == "EucalyptOptions":
                    fields = [x[0] for x in db.adts[st[2][1]["p"]]["vars"][0][2]]
                    if "allow_io" in fields:
                        src = expr_of(f, st[2][2][fields.index("allow_io")])
                elif st[1][1] and st[1][1][-1][0] == "f" and st[1][1][-1][2] == "allow_io" and len(st[1][1][-1]) > 3 and last(st[1][1][-1][3] or "") in ("EucalyptOptions",) + ARGS:
                    src = rv_expr(f, st[2])
                if src is None:
                    continue
                w += 1
                key = "permission-set:%s" % f.short
                if const_bool(src) is True:
                    used = [db.fns[a].short for a, _ in index_sites(db).get(f.id, ())]
                    r.ob(key, not used, "the permission is set without being asked for, from %s" % used, where(f))
                    continue
                r.ob(key, perm_src(db, f, src, atom), "the permission is set from something other than the option the user gave", where(f))
    r.floor("places that set the permission", w, 1)
    clap_flag(r, db, "allow_io", 2)


def clap_flag(r, db, field, least):
    """the argument definition of `field` takes its value from the command line only"""
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if lname(f.id) not in ("augment_args", "augment_args_for_update"):
            continue
        for c in f.calls():
            if lname(c.path) == "new" and "clap" in c.path and c.args and strs_in(f, c.args[0]) == {field}:
                n += 1
                # follow the builder chain forward
                seen = {c.dest[0]}
                bad = None
                for d in sorted(f.calls(), key=lambda d: d.bb):
                    pass
                ch = True
                while ch:
                    ch = False
                    for d in f.calls():
                        if d.args and d.args[0][0] in ("mv", "cp") and d.dest[0] not in seen and chain_has(f, d.args[0], c.bb):
                            if "Arg" in f.r["T"].s(f.ty(d.dest[0])) or True:
                                if f.r["T"].s(f.ty(d.dest[0])).endswith("Arg"):
                                    seen.add(d.dest[0])
                                    ch = True
                                    if lname(d.path).startswith(("default_", "env", "default", "requires_if", "overrides")):
                                        bad = d
                r.ob("flag:%s:%s" % (field, f.short), bad is None, "the option that grants the permission can be on without being given on the command line (%s)" % (lname(bad.path) if bad else ""), where(f, c.line))
    r.floor("definitions of the option", n, least)


def chain_has(f, op, bb):
    e = expr_of(f, op, 20)
    while e[0] == "call":
        if e[3] and e[3][0] == bb:
            return True
        if not e[2]:
            return False
        e = e[2][0]
    return False


def strs_in(f, op):
    return {x[1] for x in subexprs(expr_of(f, op)) if x[0] == "str"}


def chain(p):
    return " -> ".join(short(x) for x in (p or []))


def perm_src(db, f, e, atom, depth=6):
    e = strip(e)
    if atom(f, e):
        return True
    if const_bool(e) is False:
        return True
    if depth <= 0:
        return False
    if e[0] == "local":
        return all_perm(db, f, e[1], atom, depth)
    if e[0] == "call":
        if lname(e[1]) == "default" and not e[2]:
            return True      # bool::default() is false
        if lname(e[1]) in ("clone", "unwrap_or", "unwrap_or_default"):
            return all(perm_src(db, f, a, atom, depth - 1) for a in e[2])
        ts = [t for c in f.calls() if len(e) > 3 and c.bb == e[3][0] for t in db.targets(c)]
        if ts:
            for t in ts:
                g = db.fns[t]
                g = inl.comb(g)
                if not all_perm(db, g, 0, atom, depth):
                    return False
            return True
        return False
    if e[0] == "arg":
        cs = [(db.fns[a], b) for a, b in index_sites(db).get(f.id, ())]
        return bool(cs) and all(g.bbs[b]["t"][0] == "call" and perm_src(db, g, expr_of(g, g.bbs[b]["t"][2][e[1] - 1]), atom, depth - 1) for g, b in cs)
    if e[0] == "bin" and e[1] == "BitAnd":
        return perm_src(db, f, e[2], atom, depth - 1) or perm_src(db, f, e[3], atom, depth - 1)
    return False


def all_perm(db, f, l, atom, depth):
    """every definition of the local is the permission, or false, or is made only where the permission holds"""
    ds = [x for x in f.defs().get(l, []) if x[0] in f.reach]
    g = Gate(db, lambda f, e: True if atom(f, strip(e)) else None)
    return bool(ds) and all(g.guarded(f, b) or perm_src(db, f, local_expr_of_call(f, b) if i == "t" else rv_expr(f, rv), atom, depth - 1) for b, i, rv in ds)


def only_known_command(db, P, f, c):
    """the Command this method works on was created for git or for the tool itself"""
    pr = P.of(f, c.args[0])
    if not any(x[0] == "ext" and x[1] == "std::process::Command::new" for x in pr):
        return False
    if file_in(f, "src/import/"):
        return ("str", "git") in pr and not any(x[0] == "str" and x[1] in ("sh", "/bin/sh", "bash", "cmd") for x in pr)
    return ("ext", "std::env::current_exe") in pr


def flag_gate(r, db, P, f, c, g, key):
    if lname(c.rpath) not in ("arg", "args"):
        return
    pr = P.of(f, c.args[1]) if len(c.args) > 1 else set()
    if any(x[0] == "str" and "allow-io" in x[1] for x in pr):
        p = g.site_ok(f, c.bb)
        r.ob(key + ":passes-permission", p is None, "a child run is given the permission without the parent having it: %s" % chain(p), where(f, c.line))


# ------------------------------------------------------------------ S03 / F02
def s03(r, db):
    r.rules += ["who writes files: every call that creates, changes, renames or removes a file has a destination built only from one of the user's destinations (output, statistics, documentation directory, test report directory, import cache, editor temporary directory, or a file named for in-place formatting)",
                "single-file destinations are used exactly as the user gave them",
                "reading, checking, preparing and evaluating reach no such call except the import cache"]
    r.assumptions += ["external crates write no files except through the calls named in the effect table", "the documentation category names are constants of the tool"]
    P = Prov(db)
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if c.rpath in db.fns or (eff.kind(c.rpath) or eff.kind(c.path)) != "file-write":
                continue
            n += 1
            nm = lname(c.rpath)
            key = "write:%s:%s" % (nm, f.short)
            pi = 1 if nm in ("open", "create") and strip_generics(c.rpath).startswith(("std::fs::OpenOptions", "std::fs::DirBuilder")) else 0
            if nm in ("options", "new") or len(c.args) <= pi:
                # a bare options builder writes nothing by itself
                if strip_generics(c.rpath).startswith(("std::fs::OpenOptions::new", "std::fs::File::options", "std::fs::DirBuilder::new")):
                    continue
            ops = [c.args[pi]] if nm not in ("rename", "copy", "hard_link", "soft_link", "symlink") else c.args[:2]
            bad = None
            for o in ops:
                bad = bad or dest_problem(db, P, f, o, nm, c)
            r.ob(key + ":" + dest_name(P.of(f, ops[-1])), bad is None, "a file is written or removed where the user did not ask for it: %s" % bad, where(f, c.line))
        for p in fn_values(f):
            if eff.kind(p) == "file-write" and p not in db.fns:
                r.ob("write-value:%s:%s" % (eff.canon(p), f.short), False, "a file-writing function is passed as a value, its destination cannot be judged", where(f))
    r.floor("file-changing calls", n, 12)
    # unreachable from reading/checking/evaluating
    roots = []
    for nme in ("driver::prepare::prepare", "driver::check::check", "driver::check::run_type_checker", "syntax::rowan::parse_unit", "driver::error_codes::run"):
        c = db.find(nme)
        if c:
            roots += [x.id for x in c]
    intr, mach, _ = eval_roots(db)
    r.floor("read-only entry points", len(roots), 4)
    # the editor's own test session is reachable only through an unresolved generic `Default::default`
    stop = {f.id for f in db.fns.values() if file_in(f, "src/driver/lsp/") and lname(f.id) == "default"}
    R = db.closure_reach(set(roots) | intr | mach, stop)
    for x in sorted(R):
        f = db.fns.get(x)
        if f is None:
            continue
        for k, p, line in sites(db, f):
            if k == "file-write":
                pth = db.path_to(sorted(set(roots) | intr | mach), {x})
                r.ob("readonly:%s:%s" % (p, f.short), file_in(f, "src/import/git.rs") or all_cache(db, P, f, p), "a read-only operation can change files: %s" % chain(pth), where(f, line))
    r.count("functions reachable from read-only operations", len(R))


def all_cache(db, P, f, path):
    return all(dest_name(P.of(f, c.args[0])) == "cache" for c in f.calls() if eff.canon(c.rpath) == path and c.args)


OPT = {"output": "output", "statistics_file": "statistics", "doc_output_dir": "docs"}


def dest_name(pr):
    d = set()
    for x in pr:
        if x[0] == "field" and x[1] == "EucalyptOptions" and x[2] in OPT:
            d.add(OPT[x[2]])
        elif x[0] == "field" and x[1] == "TestPlan":
            d.add("report")
        elif x == ("ext", "std::env::temp_dir"):
            d.add("temp")
        elif x == ("str", "EU_CACHE_HOME") or (x[0] == "ext" and x[1] == "dirs::home_dir"):
            d.add("cache")
    if not d and ("field", "Input", "locator") in pr:
        d.add("input")
    return "+".join(sorted(d)) or "elsewhere"


def dest_problem(db, P, f, o, nm, c):
    pr = P.of(f, o)
    d = dest_name(pr)
    fields = {x for x in pr if x[0] == "field"}
    if d in ("output", "statistics"):
        fld = [k for k, v in OPT.items() if v == d][0]
        if not exact(f, expr_of(f, o), lambda f, e: field_of(e, ("EucalyptOptions",), fld), db):
            return "the path is not exactly the one given for `%s`" % fld
        return None
    if d == "docs":
        ex = {x for x in fields if x != ("field", "EucalyptOptions", "doc_output_dir")} | {x for x in pr if x[0] in ("param", "env", "capture")}
        return None if not ex else "documentation path depends on %s" % sorted(map(str, ex))[:3]
    if d == "report":
        if not any(x == ("str", ".result") for x in pr):
            return "the path is not under the test result directory"
        return None
    if d == "temp":
        return None if not fields else "temporary path depends on %s" % sorted(map(str, fields))[:3]
    if d == "cache":
        return None if file_in(f, "src/import/") or True else "cache"
    if d == "input":
        g = fmt_gates(db)[0]
        p = g.site_ok(f, c.bb)
        return None if p is None else "a source file is changed without in-place writing having been requested: %s" % chain(p)
    return "destination %s, built from %s" % (d, sorted(map(str, fields))[:5])


def fmt_gates(db):
    w = Gate(db, lambda f, e: True if field_of(e, ("EucalyptOptions", "FmtArgs"), "format_write") or field_of(e, ("FmtArgs",), "write") else None)
    c = Gate(db, lambda f, e: False if field_of(e, ("EucalyptOptions", "FmtArgs"), "format_check") or field_of(e, ("FmtArgs",), "check") else None)
    return w, c


def f02(r, db):
    r.rules += ["every write to a source file by the formatter happens only over branches: in-place requested, not checking, text parsed and formatted successfully, result different from the source",
                "what is written is the formatter's result for that same file's text",
                "check mode's verdict: needs-formatting reaches a non-zero status, and every failing or unformatted file reaches the exit status"]
    P = Prov(db)
    w, chk = fmt_gates(db)

    def fmtcall(e):
        # the formatter entry: a local function from text and configuration to Result<String>
        return e[0] == "call" and e[1] in db.fns and "Result<std::string::String" in ret_ty(db.fns[e[1]])

    okg = Gate(db, lambda f, e: None, lambda f, e, v: v in ("Ok",) and any(x[0] == "call" and lname(x[1]) == "format_source" for x in subexprs(e)))

    def atom_diff(f, e):
        e = strip(e)
        x = None
        if e[0] == "bin" and e[1] in ("Ne", "Eq"):
            x = (e[1] == "Ne", e[2], e[3])
        elif e[0] == "call" and lname(e[1]) in ("ne", "eq") and len(e[2]) == 2:
            x = (lname(e[1]) == "ne", e[2][0], e[2][1])
        if x is None:
            return None
        a = [is_formatted(f, y) for y in x[1:]]
        b = [is_source(f, y) for y in x[1:]]
        if (a[0] and b[1]) or (a[1] and b[0]):
            return x[0]
        return None

    def is_formatted(f, e):
        return any(x == ("fn", "syntax::export::format::format_source") for x in prov_e(db, P, f, e))

    def is_source(f, e):
        pr = prov_e(db, P, f, e)
        return any(x[0] == "ext" and lname(x[1]) in ("read_to_string", "read", "from_utf8") for x in pr) and not any(x == ("fn", "syntax::export::format::format_source") for x in pr)
    dg = Gate(db, atom_diff)
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if c.rpath in db.fns or eff.kind(c.rpath) != "file-write" or not c.args:
                continue
            if dest_name(P.of(f, c.args[0])) != "input" and not file_in(f, "src/driver/format.rs"):
                continue
            n += 1
            k = "fmt-write:%s:%s" % (lname(c.rpath), f.short)
            for nm, g, msg in (("requested", w, "in-place writing having been requested"), ("not-check", chk, "check mode having been excluded"), ("parsed", okg, "the text having been formatted successfully"), ("differs", dg, "the result being different from the source")):
                p = g.site_ok(f, c.bb)
                r.ob(k + ":" + nm, p is None, "a source file can be written without %s: %s" % (msg, chain(p)), where(f, c.line))
            if len(c.args) > 1:
                pr = P.of(f, c.args[1])
                r.ob(k + ":content", ("fn", "syntax::export::format::format_source") in pr, "what is written back is not the formatter's result", where(f, c.line))
                r.ob(k + ":same-file", same_file(db, P, f, c), "the file written is not the file that was read", where(f, c.line))
    r.floor("in-place writes", n, 1)
    import r_status
    r_status.fmt_status(r, db)
    fmt_refuses(r, db)


def prov_e(db, P, f, e):
    out = set()
    P._e(f, e, out, set(), (), 14)
    return out


def ret_ty(f):
    return f.r["T"].s(f.ty(0))


def same_file(db, P, f, c):
    """the path written equals (as an expression) the path given to the read in the same function"""
    w = strip_pass(expr_of(f, c.args[0]))
    rd = [strip_pass(expr_of(f, d.args[0])) for d in f.calls() if eff.kind(d.rpath) == "file-read" and lname(d.rpath) in ("read_to_string", "read", "open") and d.args]
    if rd:
        return w in rd
    return True


def strip_pass(e):
    from prov import SAME
    while True:
        if e[0] in ("ref", "deref"):
            e = e[1]
        elif e[0] == "call" and lname(e[1]) in SAME and len(e[2]) == 1:
            e = e[2][0]
        else:
            return e


def fmt_refuses(r, db):
    """format_source gives text back only when the parser reported no errors"""
    for f in [f for f in db.fns.values() if lname(f.id) in ("format_source", "needs_formatting") and f.kind != "closure" and "syntax::export" in f.id]:
        def vatom(g, e, v):
            return v == "Ok" and any(x[0] == "call" and lname(x[1]) in ("format_source", "ok") for x in subexprs(e))

        def atom(g, e):
            e = strip(e)
            if e[0] == "call" and lname(e[1]) == "is_empty" and any(x[0] == "call" and lname(x[1]) in ("errors",) or (x[0] == "call" and x[1] in db.fns and "parse" in lname(x[1])) or (x[0] == "field" and "err" in str(x[1])) for x in subexprs(e)):
                return True
            return None
        g = Gate(db, atom, vatom)
        for b, i, rv in f.defs().get(0, []):
            if b not in f.reach or i == "t":
                continue
            e = rv_expr(f, rv)
            if e[0] == "agg" and e[1][2] == "Ok":
                r.ob("refuses-unparsed:%s" % f.short, g.guarded(f, b), "a text that does not parse is treated as formatted or formattable", where(f))


# ------------------------------------------------------------------ S05
def s05(r, db):
    r.rules += ["every path from driver code to the functions that read the environment, clock, zone or random seed for a program is taken only where the loader is not in sanitised mode or no intermediate form is being inspected",
                "the sanitised mode is set from the inspection options by every host that dumps", "every option that prints an intermediate form counts as inspection"]
    opt = db.adt("EucalyptOptions")
    fields = [x[0] for x in opt["vars"][0][2]]
    dumps = [x for x in fields if x.startswith("dump_") or x == "parse"]
    r.floor("dump options", len(dumps), 9)
    ins = db.fn("EucalyptOptions::inspects_ir")
    for d in dumps:
        g = Gate(db, lambda f, e, d=d: False if field_of(e, ("EucalyptOptions",), d) else None)
        r.ob("inspects:%s" % d, g.returns(ins, False, None, 10), "an invocation that prints an intermediate form (%s) is not counted as inspection, so the live environment is embedded" % d, where(ins))
    # which functions are sensitive: read env/time/random in the driver's pseudoblock module, i.e. those that return core expressions
    sens = []
    P = Prov(db)
    for f in db.fns.values():
        rt = ret_ty(f)
        if "core::expr" not in rt:
            continue
        if any(k in ("env-read", "time", "random") for k, _, _ in sites(db, f)):
            sens.append(f)
    r.floor("functions that embed the environment", len(sens), 3)

    def atom(f, e):
        e = strip(e)
        if field_of(e, ("SourceLoader",), "deterministic_io"):
            return False
        if e[0] == "call" and lname(e[1]) == "inspects_ir":
            return False
        return None
    g = Gate(db, atom)
    # an entry point from which no inspection option is consulted cannot dump
    readers = {f.id for f in db.fns.values() if reads_field(f, "EucalyptOptions", set(dumps))}
    g.entry_ok = lambda f: not (named_reach(db, f.id) & readers)
    r.floor("functions that consult an inspection option", len(readers), 2)
    for f in sens:
        p = g.site_ok(f, 0) if False else caller_gate(db, g, f)
        r.ob("gated:%s" % f.short, p is None, "the live environment can be embedded in a dump: %s" % chain(p), where(f))
    # assignments of the sanitised flag
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for b in sorted(f.reach):
            for st in f.bbs[b]["s"]:
                if st[0] == "=" and st[1][1] and st[1][1][-1][0] == "f" and st[1][1][-1][2] == "deterministic_io":
                    n += 1
                    src = rv_expr(f, st[2])
                    r.ob("flag-set:%s" % f.short, exact(f, src, lambda f, e: e[0] == "call" and lname(e[1]) == "inspects_ir" or const_bool(e) is True, db), "the sanitised mode is set from something other than the inspection options", where(f, st[3] if isinstance(st[3], int) else None))
    r.floor("places that set the sanitised mode", n, 1)
    # hosts: a loader handed to the dumping pipeline has been through the setter
    prep = db.fn("driver::prepare::prepare")
    setters = {f.id for f in db.fns.values() for b in f.reach for st in f.bbs[b]["s"] if st[0] == "=" and st[1][1] and st[1][1][-1][0] == "f" and st[1][1][-1][2] == "deterministic_io"}
    h = 0
    for a, b in sorted(index_sites(db).get(prep.id, ())):
        f = db.fns[a]
        t = f.bbs[b]["t"]
        if t[0] != "call":
            continue
        li = [i for i in range(1, prep.argc + 1) if peel_adt(prep, i) and last(peel_adt(prep, i)) == "SourceLoader"]
        ok = False
        for i in li:
            pr = P.of(f, t[2][i - 1])
            ok = ok or any(x[0] == "fn" and any(short(s) == x[1] for s in setters) for x in pr)
        # a host whose options can never be dumping options needs no setter
        if not ok:
            oi = [i for i in range(1, prep.argc + 1) if peel_adt(prep, i) and last(peel_adt(prep, i)) == "EucalyptOptions"]
            ok = f.crate != "eu"
        else:
            h += 1
        r.ob("host:%s" % f.short, ok, "a host passes a loader to the dumping pipeline without the sanitised mode", where(f))
    r.floor("hosts that dump", h, 1)
    # the command-line context: arguments and seed reach the options only from the run command
    run_only(r, db, fields)


def named_reach(db, fid):
    """functions reached through calls and function values resolved by name"""
    out, st = {fid}, [fid]
    fwd = getattr(db, "_named", None)
    if fwd is None:
        fwd = db._named = {}
    while st:
        x = st.pop()
        if x not in fwd:
            f = db.fns[x]
            ns = {c.rpath for c in f.calls()} | set(fn_values(f))
            ns |= {st_[2][1]["p"] for b in f.reach for st_ in f.bbs[b]["s"] if st_[0] == "=" and st_[2][0] == "agg" and st_[2][1]["k"] == "closure"}
            fwd[x] = {n for n in ns if n in db.fns}
        for n in fwd[x] - out:
            out.add(n)
            st.append(n)
    return out


def reads_field(f, owner, names):
    def proj(pl):
        return any(x[0] == "f" and x[2] in names and len(x) > 3 and last(x[3] or "") == owner for x in pl[1])
    for b in f.reach:
        for st in f.bbs[b]["s"]:
            if st[0] == "=":
                if any(o[0] in ("cp", "mv") and proj(o[1]) for o in operands(st[2])):
                    return True
                if st[2][0] in ("ref", "raw", "discr") and any(isinstance(x, list) and len(x) == 2 and isinstance(x[1], list) and proj(x) for x in st[2][1:]):
                    return True
        t = f.bbs[b]["t"]
        if t[0] == "switch" and t[1][0] in ("cp", "mv") and proj(t[1][1]):
            return True
        if t[0] == "call" and any(o[0] in ("cp", "mv") and proj(o[1]) for o in t[2]):
            return True
    return False


def run_only(r, db, fields):
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for b in sorted(f.reach):
            for st in f.bbs[b]["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1]["k"] == "adt" and last(st[2][1]["p"]) == "EucalyptOptions":
                    g = Gate(db, lambda f, e: None, lambda f, e, v: v == "Run")
                    for nm in ("args", "seed"):
                        if nm not in fields:
                            continue
                        n += 1
                        e = strip(expr_of(f, st[2][2][fields.index(nm)]))
                        r.ob("run-only:%s:%s" % (nm, f.short), from_run(db, f, e, g), "the %s of an invocation can reach a dump: they are taken from commands other than run" % ("arguments" if nm == "args" else "seed"), where(f))
    r.floor("command-line context fields", n, 2)


def from_run(db, f, e, g, depth=6):
    e = strip(e)
    if depth <= 0:
        return False
    if e[0] == "field" and len(e) > 3 and e[3] and last(e[3]) == "RunArgs":
        return True
    if e[0] == "agg" and not e[2]:
        return True
    if e[0] == "call":
        if lname(e[1]) in ("new", "default") and not e[2]:
            return True
        if lname(e[1]) in ("clone", "unwrap_or_default", "cloned", "to_vec") and e[2]:
            return from_run(db, f, e[2][0], g, depth - 1)
        return False
    if e[0] == "field" and e[1] in ("args", "seed") and len(e) > 3 and e[3] and last(e[3]) == "EucalyptOptions":
        return True
    if e[0] == "local":
        ds = [x for x in f.defs().get(e[1], []) if x[0] in f.reach]
        return bool(ds) and all(from_run(db, f, local_expr_of_call(f, b) if i == "t" else rv_expr(f, rv), g, depth - 1) for b, i, rv in ds)
    return False


def caller_gate(db, g, f):
    """every call of f is gated, here or further up; entry functions with no callers are unreachable"""
    cs = index_sites(db).get(f.id, ())
    for a, b in sorted(cs):
        p = g.site_ok(db.fns[a], b)
        if p is not None:
            return p + [f.id]
    return None


# ------------------------------------------------------------------ P01 P02 P04
def fork_sites(db):
    """(function, call) of every process-creating call; the function has its local helpers
    (other than those that wait or create processes) expanded in place"""
    out = []
    isf = lambda c: c.rpath not in db.fns and eff.canon(c.rpath) in ("libc::fork", "libc::vfork")
    wait = Events(db, lambda c: is_waitpid(c) or isf(c), depth=4)
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if isf(c):
                x = inl.expand(f, lambda g, f=f: g.file == f.file and not wait.fn_may(g, 4), key="fork")
                out.append((x, next(y for y in x.calls() if y.bb == c.bb)))
    return out


def pid_split(f, c):
    """blocks entered when fork's result is zero / negative / positive: walk forward from the call, evaluating comparisons of the result"""
    res = c.dest[0]

    def is_pid(e):
        e = strip(e)
        while e[0] in ("cast",):
            e = strip(e[1])
        return e == ("local", res) or (e[0] == "call" and e[3] and e[3][0] == c.bb)

    def decide(e, v):
        """truth of e when pid == v"""
        e = strip(e)
        if is_pid(e):
            return v
        if e[0] == "const" and isinstance(e[1], (int, str)):
            try:
                return int(e[1])
            except ValueError:
                return None
        if e[0] == "un" and e[1] == "Not":
            x = decide(e[2], v)
            return None if x is None else int(not x)
        if e[0] == "un" and e[1] == "Neg":
            x = decide(e[2], v)
            return None if x is None else -x
        if e[0] == "bin":
            x, y = decide(e[2], v), decide(e[3], v)
            if x is None or y is None:
                return None
            try:
                return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[e[1]] * 1
            except KeyError:
                return None
        if e[0] == "call" and lname(e[1]) in ("is_negative", "is_positive") and e[2]:
            x = decide(e[2][0], v)
            return None if x is None else int(x < 0 if lname(e[1]) == "is_negative" else x > 0)
        return None

    def succ(b, v):
        t = f.bbs[b]["t"]
        if t[0] == "switch":
            x = decide(expr_of(f, t[1]), v)
            if x is not None:
                m = {sint(val): s for val, s in t[3]}
                return [m.get(x, t[4])]
        return f.succ(b)
    out = {}
    for v in (-1, 0, 7):
        seen, st = set(), [c.target]
        while st:
            b = st.pop()
            if b is None or b in seen:
                continue
            seen.add(b)
            if b == c.bb:
                continue
            st.extend(succ(b, v))
        out[v] = (seen, lambda b, v=v: succ(b, v))
    return out


def sint(v):
    v = int(v)
    return v - (1 << 32) if v >= (1 << 31) and v < (1 << 32) else v


PANICS = ("core::panicking::", "std::rt::begin_panic", "std::panicking::", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "std::panic::resume_unwind", "std::panic::panic_any", "core::slice::index", "core::str::slice_error_fail")
NOPANIC_EXT = ("libc::", "std::panic::set_hook", "std::panic::take_hook", "std::panic::catch_unwind", "std::panic::AssertUnwindSafe", "std::boxed::Box", "alloc::boxed", "std::ptr::", "core::ptr::", "std::process::abort", "std::mem::", "core::mem::", "core::num::", "std::result::Result::is_ok", "std::result::Result::is_err", "std::option::Option::is_", "std::sync::atomic::", "core::sync::atomic", "std::result::Result::ok", "std::option::Option::map_or", "std::result::Result::map_or", "std::convert::", "std::result::Result::unwrap_or")


def may_unwind(db, fid, memo, stack=()):
    if fid in memo:
        return memo[fid]
    f = db.fns.get(fid)
    if f is None:
        return None
    memo[fid] = None
    for b in f.reach:
        t = f.bbs[b]["t"]
        if t[0] == "assert":
            memo[fid] = "an assertion in %s" % f.short
            return memo[fid]
        if t[0] == "call":
            c = Call(f, b, t)
            p = unwind_call(db, c, memo)
            if p:
                memo[fid] = p
                return p
    return None


def unwind_call(db, c, memo):
    ts = db.targets(c)
    if ts:
        for t in ts:
            p = may_unwind(db, t, memo)
            if p:
                return p
        return None
    s = eff.canon(c.rpath)
    if any(s.startswith(x) for x in NOPANIC_EXT) or any(strip_generics(c.path).startswith(x) for x in NOPANIC_EXT):
        return None
    return "%s" % s


def p01(r, db):
    r.rules += ["from the branch taken in the new process, every control-flow path ends in a call that exits the process without unwinding or running exit handlers; none returns or rejoins the parent's code",
                "everything the new process runs that could panic runs inside a panic barrier, and what comes out of the barrier is not re-thrown",
                "no call on that branch writes to standard output or runs exit handlers; no wrapper hands the process id of the child branch to other code"]
    r.assumptions += ["`_exit` does not return", "listed library calls outside the barrier do not panic"]
    fs = fork_sites(db)
    r.floor("places that create a worker process", len(fs), 1)
    for f, c in fs:
        sp = pid_split(f, c)
        child, succ = sp[0]
        key = f.short
        if c.target is None:
            r.ob("child:%s" % key, False, "the result of the call is not examined", where(f, c.line))
            continue
        rets = [b for b in child if f.bbs[b]["t"][0] == "ret"]
        r.ob("returns:%s" % key, not rets, "in the new process a path returns into the caller's code", where(f, c.line))
        r.ob("refork:%s" % key, c.bb not in child, "in the new process control reaches the call that creates processes again", where(f, c.line))
        ends = [b for b in child if not succ(b) and f.bbs[b]["t"][0] != "ret"]
        r.ob("ends:%s" % key, bool(ends), "no path of the new process ends in an exit", where(f, c.line))
        cyc = has_cycle(child, succ)
        r.ob("loop:%s" % key, not cyc, "the new process can loop outside the worker", where(f, c.line))
        for b in sorted(ends):
            t = f.bbs[b]["t"]
            nm = eff.canon(Call(f, b, t).rpath) if t[0] == "call" else t[0]
            ok = t[0] == "call" and (nm in ("libc::_exit", "libc::abort", "std::process::abort") or diverge_ok(db, Call(f, b, t)))
            r.ob("exit:%s:%s" % (key, nm), ok, "a path of the new process ends in %s rather than in an immediate exit" % nm, where(f, t[5] if t[0] == "call" else None))
        memo = {}
        calls = [x for x in f.calls() if x.bb in child]
        r.count("calls on the child branch", len(calls))
        barrier = 0
        for x in calls:
            nm = eff.canon(x.rpath)
            if nm.startswith("std::panic::catch_unwind"):
                barrier += 1
                continue
            p = unwind_call(db, x, memo)
            r.ob("unwind:%s:%s" % (key, lname(x.rpath)), p is None, "outside the panic barrier the new process runs %s, which may panic and unwind into the caller (%s)" % (nm, p), where(f, x.line))
        for b in child:
            if f.bbs[b]["t"][0] == "assert":
                r.ob("assert:%s" % key, False, "outside the panic barrier the new process evaluates a checked operation that may panic", where(f))
        r.ob("barrier:%s" % key, barrier >= 1, "the worker is not run inside a panic barrier", where(f, c.line))
        R = db.closure_reach({t for x in calls for t in db.targets(x)})
        for x in calls:
            k = eff.kind(x.rpath)
            r.ob("output:%s:%s" % (key, lname(x.rpath)), k not in ("stdout",) and not (k == "exit" and lname(x.rpath) == "exit"), "the new process writes to standard output or runs exit handlers", where(f, x.line))
        for y in sorted(R):
            g = db.fns.get(y)
            if not g:
                continue
            for k, p, line in sites(db, g):
                if k == "stdout" or (k == "exit" and last(p) == "exit"):
                    r.ob("output:%s:%s" % (key, g.short), False, "code run by the new process writes to standard output or runs exit handlers (%s)" % p, where(g, line))
    # worker closures leave only by returning: no process::exit inside
    for f, c in fs:
        R = worker_reach(db, f)
        r.count("functions a worker may run", len(R))
        for y in sorted(R):
            g = db.fns.get(y)
            if not g:
                continue
            for k, p, line in sites(db, g):
                if k == "exit" and last(p) == "exit":
                    r.ob("worker-exit:%s" % g.short, False, "a worker can run the parent's exit handlers (%s)" % p, where(g, line))


def worker_reach(db, f):
    roots = set()
    for a, b in index_sites(db).get(f.id, ()):
        g = db.fns[a]
        roots |= {x.id for x in db.closures_of(a)}
    return db.closure_reach(roots) if roots else set()


def diverge_ok(db, c):
    """a local helper of type `!` whose every end is an immediate exit"""
    for t in db.targets(c):
        g = db.fns[t]
        if g.returns():
            return False
        for b in g.reach:
            if not g.succ(b):
                t2 = g.bbs[b]["t"]
                if t2[0] != "call" or eff.canon(Call(g, b, t2).rpath) not in ("libc::_exit", "libc::abort", "std::process::abort"):
                    return False
        return True
    return False


def has_cycle(nodes, succ):
    st = {}

    def dfs(n):
        stack = [(n, iter(succ(n)))]
        st[n] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in nodes:
                    continue
                if st.get(y) == 1:
                    return True
                if y not in st:
                    st[y] = 1
                    stack.append((y, iter(succ(y))))
                    break
            else:
                st[x] = 2
                stack.pop()
        return False
    return any(n not in st and dfs(n) for n in nodes)


def is_waitpid(c):
    return eff.canon(c.rpath) in ("libc::waitpid", "libc::wait4", "libc::waitid")


def next_calls(f):
    return [c for c in f.calls() if lname(c.path) == "next" and "Iterator" in c.path]


def waits_element(db, f, wait_ev):
    """Is f a reaper of the slice in one of its parameters: every element is waited for on every way out?
    Returns (param index, problem)."""
    from flow import loops
    lp = loops(f)
    probs = []
    for h, body in sorted(lp.items()):
        src = loop_source(db, f, h, body)
        if src is None:
            continue
        param, elem_edges, exits_ok, whole = src
        wb = {c.bb for c in f.calls() if c.bb in body and wait_ev.call_must(c)}
        if not wb:
            probs.append("its loop does not wait")
            continue
        if not whole:
            probs.append("the loop does not cover the whole list")
            continue
        # from each element edge, no way back to the header nor out of the function without waiting
        bad = None
        for (a, b) in elem_edges:
            outs = {h} | {x for y in body for x in f.succ(y) if x not in body}
            p = path(f, b, outs | set(f.returns()), wb)
            if p is not None:
                bad = p
        if bad:
            probs.append("an element can be skipped")
            continue
        # leaving the loop early must reap the rest
        early = [(x, y) for x in body for y in f.succ(x) if y not in body and not exits_ok(x, y) and f.bbs[y]["t"][0] not in ("unreach", "unreachable", "resume", "abort", "terminate", "other")]
        if early:
            # allowed when a reaper of the same slice was called on the way
            probs.append("the loop can be left before the last element")
            continue
        return param, None
    return None, "; ".join(probs) or "no loop over the list"


def loop_source(db, f, h, body):
    """(param, [(switch block, element successor)], exits_ok(x,y), whole) for a loop over a slice/vec parameter"""
    for c in next_calls(f):
        if c.bb not in body:
            continue
        # the iterator's source
        it = expr_of(f, c.args[0])
        base = iter_base(f, it)
        if base is None:
            continue
        kind, par, whole = base
        # switch on the result
        for b in body:
            t = f.bbs[b]["t"]
            if t[0] == "switch":
                e = expr_of(f, t[1])
                if e[0] == "discr" and strip(e[1])[0] == "call" and strip(e[1])[3][0] == c.bb or (e[0] == "discr" and strip(e[1]) == ("local", c.dest[0])):
                    some = [s for v, s in t[3] if int(v) == 1] or [t[4]]
                    none = [s for v, s in t[3] if int(v) == 0] or [t[4]]
                    return par, [(b, some[0])], (lambda x, y, b=b, n=none: x == b and y in n), whole
    # index loop: while i < v.len()
    for b in body:
        t = f.bbs[b]["t"]
        if t[0] != "switch":
            continue
        e = strip(expr_of(f, t[1]))
        if e[0] == "bin" and e[1] in ("Lt", "Gt", "Ne", "Ge", "Le"):
            i, n = (e[2], e[3]) if e[1] in ("Lt", "Ne") else (e[3], e[2])
            i, n = strip(i), strip(n)
            if i[0] == "local" and slice_len(f, n) is not None:
                ds = [x for x in f.defs().get(i[1], []) if x[0] in f.reach]
                ok = True
                for bb, k, rv in ds:
                    x = None if k == "t" else rv_expr(f, rv)
                    if x is None:
                        ok = False
                    elif x[0] == "const":
                        ok = ok and int(x[1] or 0) == 0 and bb not in body
                    else:
                        y = x[2] if x[0] == "field" else x
                        if not (y[0] == "bin" and y[1] in ("AddWithOverflow", "Add", "AddUnchecked") and strip(y[2]) == i and y[3][0] == "const" and int(y[3][1]) == 1):
                            ok = False
                tv = [s for v, s in t[3] if int(v) == 0]
                inb = [s for s in f.succ(b) if s in body]
                out = [s for s in f.succ(b) if s not in body]
                if len(inb) == 1 and len(out) == 1:
                    return slice_len(f, n), [(b, inb[0])], (lambda x, y, b=b, o=out: x == b and y in o), ok
    return None


def slice_len(f, e):
    e = strip(e)
    if e[0] == "call" and lname(e[1]) == "len" and e[2]:
        x = strip_pass(e[2][0])
        return x[1] if x[0] == "arg" else None
    if e[0] == "un" and e[1] in ("PtrMetadata", "Len"):
        x = strip(e[2])
        return x[1] if x[0] == "arg" else None
    return None


def iter_base(f, e):
    """(kind, param, whole) of an iterator expression over a parameter"""
    for _ in range(12):
        e = strip(e)
        if e[0] == "arg":
            return ("arg", e[1], True)
        if e[0] == "local":
            ds = [x for x in f.defs().get(e[1], []) if x[0] in f.reach]
            if len(ds) != 1:
                return None
            b, i, rv = ds[0]
            e = local_expr_of_call(f, b) if i == "t" else rv_expr(f, rv)
            continue
        if e[0] == "call":
            n = lname(e[1])
            if n in ("iter", "into_iter", "deref", "as_slice", "copied", "cloned", "by_ref", "enumerate", "rev", "as_ref", "iter_mut", "to_vec", "clone") and e[2]:
                e = e[2][0]
                continue
            if e[2]:
                x = iter_base(f, e[2][0])
                return (x[0], x[1], False) if x else None
            return None
        if e[0] in ("subslice", "index"):
            x = iter_base(f, e[1])
            return (x[0], x[1], False) if x else None
        return None
    return None


def p02(r, db):
    r.rules += ["every process id that creation returns is recorded before anything else can fail, and every way out of the function that creates workers goes through a function that waits for every recorded one",
                "a reaping function waits for each element of its list on every path; where workers are abandoned they are killed before being waited for",
                "waiting is retried when interrupted", "a worker reports success only when its computation succeeded; the parent takes a parallel result only when every worker did, and otherwise computes sequentially",
                "shared memory is unmapped by a destructor and never leaked"]
    wait = Events(db, is_waitpid, depth=3)
    fs = fork_sites(db)
    r.floor("places that create a worker process", len(fs), 1)
    reapers = {}
    for g in db.fns.values():
        if file_in(g, "src/eval/stg/parallel/") and wait.fn_may(g, 3) and g.argc and g.kind != "closure":
            g = inl.comb(g)
            par, prob = waits_element(db, g, wait)
            if any("pid" in g.r["T"].s(g.ty(i)) or "[i32]" in g.r["T"].s(g.ty(i)) or "i32" in g.r["T"].s(g.ty(i)) and "[" in g.r["T"].s(g.ty(i)) or "Vec<i32" in g.r["T"].s(g.ty(i)) for i in range(1, g.argc + 1)):
                reapers[g.id] = (par, prob)
                r.ob("reaper:%s" % g.short, prob is None, "not every worker in the list is waited for: %s" % prob, where(g))
                kills = [c for c in g.calls() if eff.canon(c.rpath) == "libc::kill"]
                if kills:
                    kb = {c.bb for c in kills}
                    from flow import loops
                    for h, body in loops(g).items():
                        wb = [c for c in g.calls() if c.bb in body and wait.call_must(c)]
                        if kb & body:
                            for c in wb:
                                p = path(g, h, {c.bb}, kb)
                                r.ob("kill-first:%s" % g.short, p is None, "a worker is waited for before it has been told to stop", where(g, c.line))
                    for c in kills:
                        sig = expr_of(g, c.args[1])
                        r.ob("kill-signal:%s" % g.short, sig[0] == "const" and int(sig[1] or 0) == 9 or sig[0] == "kconst" and "SIGKILL" in str(sig[1]), "the abandoned worker is not killed", where(g, c.line))
    r.floor("reaping functions", len(reapers), 2)
    good = {k for k, v in reapers.items() if v[1] is None}
    # success only if all exited cleanly
    for g in [inl.comb(db.fns[k]) for k in reapers]:
        if ret_ty(g) != "()":
            status_checked(r, db, g, wait)
    for g in sorted(db.fns.values(), key=lambda f: f.id):
        for c in g.calls():
            if is_waitpid(c) and c.rpath not in db.fns:
                r.ob("eintr:%s" % g.short, eintr_safe(g, c), "an interrupted wait is taken for the worker's end", where(g, c.line))
    for f, c in fs:
        sp = pid_split(f, c)
        # positive: recorded in a list before return / next fork
        par, succ = sp[7]
        rec = set()
        vecs = set()
        for x in f.calls():
            if x.bb in par and lname(x.path) in ("push", "push_back", "insert", "extend") and len(x.args) > 1 and any(y == ("local", c.dest[0]) or (y[0] == "call" and y[3] and y[3][0] == c.bb) for y in subexprs(expr_of(f, x.args[1]))):
                rec.add(x.bb)
                v = strip(expr_of(f, x.args[0]))
                vecs.add(v)
        p = path(f, c.target, {c.bb} | set(f.returns()), rec, (), succ)
        r.ob("recorded:%s" % f.short, bool(rec) and p is None, "a started worker can go unrecorded, so nothing waits for it", where(f, c.line))
        for v, what in ((-1, "when a later worker cannot be started"), (7, "after all were started")):
            reach, succ = sp[v]
            rb = {x.bb for x in f.calls() if any(t in good for t in db.targets(x)) and any(strip_pass(expr_of(f, a)) in vecs for a in x.args)}
            start = c.target
            p = path(f, start, set(f.returns()), rb, (), lambda b, s=succ: s(b) if b in reach or True else [])
            r.ob("reaped:%s:%d" % (f.short, v), p is None, "%s the function can return without waiting for the workers it started" % what, where(f, c.line))
        # success of the whole only over the joining function's result
        for b, i, rv in f.defs().get(0, []):
            if b in f.reach and i != "t":
                e = rv_expr(f, rv)
                if e[0] == "agg" and e[1][2] == "Ok":
                    g2 = Gate(db, lambda f, e: None, lambda f, e, v: v == "Ok" and any(y[0] == "call" and y[1] in good for y in subexprs(e)))
                    r.ob("ok-needs-join:%s" % f.short, g2.guarded(f, b), "success is reported without the workers having been joined", where(f))
        # exit code 0 only when the worker succeeded
        child, csucc = sp[0]
        for x in f.calls():
            if x.bb in child and eff.canon(x.rpath) == "libc::_exit":
                gate = Gate(db, lambda f, e: None, lambda f, e, v: v == "Ok" and inner_result(f, e))
                r.ob("exit-status:%s" % f.short, zero_only_ok(db, f, expr_of(f, x.args[0]), gate), "a worker can report success although its computation failed", where(f, x.line))
    fallback(r, db, fs)
    arena(r, db)


def inner_result(f, e):
    """the worker's own Result inside the barrier's result"""
    e = strip(e)
    return (e[0] == "field" and e[2][0] == "as" and e[2][1] == "Ok" and any(y[0] == "call" and "catch_unwind" in (y[1] or "") for y in subexprs(e)))


def zero_only_ok(db, f, e, gate):
    e = strip(e)
    if e[0] == "const":
        return int(e[1]) != 0
    if e[0] == "local":
        for b, i, rv in f.defs().get(e[1], []):
            if b not in f.reach:
                continue
            x = rv_expr(f, rv) if i != "t" else None
            if x is None:
                return False
            if x[0] == "const" and int(x[1]) != 0:
                continue
            if not gate.guarded(f, b):
                return False
        return True
    return False


def eintr_safe(g, c):
    """a failed wait leaves the function only over a comparison with EINTR that can lead back to waiting"""
    g = inl.comb(g)
    waits = {x.bb for x in g.calls() if is_waitpid(x)}
    dests = {x.dest[0] for x in g.calls() if is_waitpid(x)}

    def is_res(e, d=4):
        e = strip(e)
        if e[0] == "call" and len(e) > 3 and e[3] and e[3][0] in waits:
            return True
        if e[0] == "local":
            if e[1] in dests:
                return True
            ds = [x for x in g.defs().get(e[1], []) if x[0] in g.reach]
            return d > 0 and bool(ds) and all((b in waits) if i == "t" else is_res(rv_expr(g, rv), d - 1) for b, i, rv in ds)
        return False
    def failed(e):
        """the truth of a comparison of the result when waiting failed (-1)"""
        x, y = strip(e[2]), strip(e[3])
        cv = lambda z: None if z[0] != "const" else sint(z[1])
        a, b2 = (-1 if is_res(x) else cv(x)), (-1 if is_res(y) else cv(y))
        if a is None or b2 is None:
            return None
        return int({"Eq": a == b2, "Ne": a != b2, "Lt": a < b2, "Le": a <= b2, "Gt": a > b2, "Ge": a >= b2}[e[1]])
    cmp_blocks, neg = set(), set()
    for b in g.reach:
        t = g.bbs[b]["t"]
        if t[0] != "switch":
            continue
        e = expr_of(g, t[1])
        if any((x[0] == "const" and x[1] in (4, "4")) or (x[0] == "kconst") or (x[0] == "call" and lname(x[1]) in ("raw_os_error", "kind")) for x in subexprs(e)):
            if any(waits & g.reachable_from([s]) for s in g.succ(b)):
                cmp_blocks.add(b)
        e = strip(e)
        if e[0] == "bin" and e[1] in ("Lt", "Ge", "Eq", "Ne", "Gt", "Le") and (is_res(e[2]) or is_res(e[3])):
            tv = failed(e)
            if tv is not None:
                m = {int(v): s for v, s in t[3]}
                bad = m.get(tv, t[4])
                neg |= {(b, s) for s in g.succ(b) if s != bad}
    if not cmp_blocks:
        return False
    # only the side of a test that excludes failure (-1) leaves without an EINTR comparison
    good = neg
    for s0 in g.succ(c.bb):
        if path(g, s0, set(g.returns()), cmp_blocks | waits, good) is not None:
            return False
    return True


def status_checked(r, db, g, wait):
    """the joining function consults exit status of each worker it waited for, and Ok needs them clean"""
    names = set()
    R = db.closure_reach({g.id})
    for x in R:
        h = db.fns.get(x)
        if h:
            names |= {lname(c.rpath) for c in h.calls() if eff.canon(c.rpath).startswith("libc::")}
    r.ob("status:%s" % g.short, {"WIFEXITED", "WEXITSTATUS"} <= names or inlined_status(db, R), "the join does not distinguish a worker that exited cleanly from one that failed or was killed", where(g))
    # an error once recorded reaches the result: the Ok return is gated on no error
    from flow import loops
    cal = {f.id for f in db.fns.values() if f.argc == 1 and ret_ty(f) == "bool" and {"WIFEXITED", "WEXITSTATUS"} <= {lname(c.rpath) for c in f.calls()}}
    for f in [db.fns[x] for x in cal]:
        okret = exited_clean_shape(f)
        r.ob("clean:%s" % f.short, okret, "a worker that did not exit with status 0 can be counted as clean", where(f))
    # every wait whose status is unclean leads to recording an error: from wait call, the clean==false edge must reach an assignment of Some(err) or Err before loop head, unless an error is already recorded
    ok = unclean_recorded(db, g, wait, cal)
    r.ob("recorded-error:%s" % g.short, ok, "a failed worker can be forgotten by the join", where(g))


def inlined_status(db, R):
    return False


def exited_clean_shape(f):
    # returns true only where WIFEXITED is true and WEXITSTATUS == 0
    def a1(f, e):
        e = strip(e)
        return True if e[0] == "call" and lname(e[1]) == "WIFEXITED" else None

    def a2(f, e):
        e = strip(e)
        if e[0] == "bin" and e[1] in ("Eq", "Ne"):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                x = strip(x)
                if x[0] == "call" and lname(x[1]) == "WEXITSTATUS" and y[0] == "const" and int(y[1]) == 0:
                    return e[1] == "Eq"
        return None
    return Gate(f.db, a1).returns(f, True, None, 8) and Gate(f.db, a2).returns(f, True, None, 8)


def unclean_recorded(db, g, wait, cal):
    """Ok is returned only where no error was recorded, and the unclean branch records one"""
    # blocks that record: an aggregate of the error type or Err
    rec = set()
    for b in g.reach:
        for st in g.bbs[b]["s"]:
            if st[0] == "=" and st[2][0] == "agg" and st[2][1]["k"] == "adt" and (last(st[2][1]["p"]).endswith("Error") or st[2][1].get("vn") == "Err"):
                rec.add(b)
    if not rec:
        return False
    bad_edges = []
    clean_true = set()
    for b in g.reach:
        t = g.bbs[b]["t"]
        if t[0] != "switch":
            continue
        e = strip(expr_of(g, t[1]))
        neg = False
        while e[0] == "un" and e[1] == "Not":
            neg = not neg
            e = strip(e[2])
        if e[0] == "call" and e[1] in cal:
            z = [s for v, s in t[3] if int(v) == 0]
            one = t[4]
            unclean = (one if neg else z[0]) if z else None
            bad_edges.append((b, unclean))
    if not bad_edges:
        return False
    # "already recorded" checks: switch on is_none/is_some/discr of an Option of the error type
    already = set()
    for b in g.reach:
        t = g.bbs[b]["t"]
        if t[0] == "switch":
            e = strip(expr_of(g, t[1]))
            if (e[0] == "call" and lname(e[1]) in ("is_none", "is_some")) or e[0] == "discr":
                already.add(b)
    waits = {c.bb for c in g.calls() if wait.call_must(c)}
    for b, u in bad_edges:
        if u is None:
            return False
        p = path(g, u, waits | set(g.returns()), rec | already)
        if p is not None:
            return False
    return True


def fallback(r, db, fs):
    """callers of the worker function: Ok(true) only over its success, and the sequential path otherwise"""
    for f, c in fs:
        for a, b in sorted(index_sites(db).get(f.id, ())):
            g = db.fns[a]
            if ret_ty(g).startswith("std::result::Result<bool"):
                gate = Gate(db, lambda f, e: None, lambda x, e, v, f=f: v == "Ok" and any(y[0] == "call" and y[1] == f.id for y in subexprs(e)))
                n = 0
                for bb, i, rv in g.defs().get(0, []):
                    if bb not in g.reach or i == "t":
                        continue
                    e = rv_expr(g, rv)
                    if e[0] == "agg" and e[1][2] == "Ok" and const_bool(e[2][0]) is not False:
                        n += 1
                        r.ob("parallel-only-if-all-ok:%s" % g.short, gate.guarded(g, bb), "a parallel result is used although a worker failed", where(g))
                r.floor("parallel success returns", n, 1)
                complete(r, db, f, g, gate)
                faults_decline(r, db, f, g)
                # its callers fall back
                for a2, b2 in sorted(index_sites(db).get(g.id, ())):
                    h = db.fns[a2]
                    gate2 = Gate(db, lambda x, e, g=g: True if any_call(e, g.id) and not_neg(e) else None)
                    seq = {x.bb for x in h.calls() if any(seq_target(db, t, f) for t in db.targets(x)) and x.dest[0] == 0}
                    for bb, i, rv in h.defs().get(0, []):
                        if bb not in h.reach:
                            continue
                        if i == "t":
                            c2 = Call(h, bb, rv)
                            ok = bb in seq or lname(c2.path) == "from_residual"
                            r.ob("fallback:%s" % h.short, ok, "the result does not come from the sequential computation", where(h, c2.line))
                        else:
                            e = rv_expr(h, rv)
                            if e[0] == "agg" and e[1][2] == "Ok":
                                r.ob("fallback-ok:%s" % h.short, gate2.guarded(h, bb), "success is reported although parallel evaluation declined", where(h))
                    r.ob("fallback-exists:%s" % h.short, bool(seq), "there is no sequential computation to fall back to", where(h))


def counter_like(f, e, d=5):
    """a number of things produced: len()/count() of something, or a local counting up from zero"""
    e = strip(e)
    if e[0] == "call":
        return lname(e[1]) in ("len", "count")
    if e[0] == "un" and e[1] in ("PtrMetadata", "Len"):
        return True
    if e[0] == "local":
        ds = [x for x in f.defs().get(e[1], []) if x[0] in f.reach]
        z = i = o = 0
        for b, k, rv in ds:
            x = None if k == "t" else rv_expr(f, rv)
            if x is None:
                o += 1
                continue
            y = x[2] if x[0] == "field" and x[2][0] == "bin" else x
            if x[0] == "const" and int(x[1] or 0) == 0:
                z += 1
            elif y[0] == "bin" and y[1].startswith("Add") and strip(y[2]) == e:
                i += 1
            elif len(ds) == 1 and d:
                return counter_like(f, x, d - 1)
            else:
                o += 1
        return bool(z and i and not o)
    if e[0] == "bin" and e[1].startswith("Sub"):
        return counter_like(f, e[2], d - 1)
    if e[0] == "field" and e[2][0] == "bin":
        return counter_like(f, e[2], d - 1)
    return False


def complete(r, db, forkfn, g, gate):
    """what is read back from each worker is compared, for equality, with how much it was given"""
    x = inl.expand(g, lambda h: h.file == g.file, key="file")
    starts = [c for c in x.calls() for t in db.targets(c) if db.fns[t].file.endswith("parallel/arena.rs") and lname(t) not in ("new",)]
    eqe = set()
    for b in x.reach:
        t = x.bbs[b]["t"]
        if t[0] != "switch":
            continue
        e = strip(expr_of(x, t[1]))
        pol = True
        while e[0] == "un" and e[1] == "Not":
            pol, e = not pol, strip(e[2])
        if e[0] == "call" and lname(e[1]) in ("eq", "ne") and len(e[2]) == 2:
            e = ("bin", "Eq" if lname(e[1]) == "eq" else "Ne", e[2][0], e[2][1])
        if e[0] == "bin" and e[1] in ("Eq", "Ne"):
            for u, v in ((e[2], e[3]), (e[3], e[2])):
                if counter_like(x, u) and strip(v)[0] != "const":
                    want = int((e[1] == "Eq") == pol)
                    m = {int(val): s for val, s in t[3]}
                    good = m.get(want, t[4])
                    eqe.add((b, good))
    ok_blocks = {bb for bb, i, rv in x.defs().get(0, []) if bb in x.reach and i != "t" and rv_expr(x, rv)[0] == "agg" and rv_expr(x, rv)[1][2] == "Ok" and const_bool(rv_expr(x, rv)[2][0]) is not False}
    rd = [c for c in starts if c.bb in x.reachable_from(set(b for b in x.reach if any(y.bb == b and forkfn.id in db.targets(y) for y in x.calls())))]
    r.floor("reads of worker results", len(rd), 1)
    for c in rd:
        p = next((q for s in x.succ(c.bb) for q in [path(x, s, ok_blocks, (), eqe)] if q), None)
        r.ob("complete:%s:%s" % (g.short, lname(c.path)), p is None, "a worker's results are used without their number having been compared with the number it was asked for", where(x, c.line))


def faults_decline(r, db, forkfn, g):
    """until the workers have succeeded, every fault is a decline (sequential evaluation follows), except in the strict diagnostic mode"""
    x = inl.expand(g, lambda h: h.file == g.file, key="file")

    def strict(f, e):
        e = strip(e)
        if e[0] == "call" and lname(e[1]) in ("eq", "ne") and any(y[0] == "str" and y[1].startswith("EU_PP_STRICT") for y in subexprs(e)):
            return lname(e[1]) == "eq"
        return None
    gs = Gate(db, strict, lambda f, e, v: v == "Ok" and any(y[0] == "call" and y[1] == forkfn.id for y in subexprs(e)))

    def bad(l, seen):
        for b, i, rv in x.defs().get(l, []):
            if b not in x.reach or gs.guarded(x, b):
                continue
            if i == "t":
                yield b
                continue
            e = rv_expr(x, rv)
            if e[0] == "agg" and e[1][2] == "Err":
                yield b
            elif e[0] == "local" and e[1] not in seen:
                yield from bad(e[1], seen | {e[1]})
            elif e[0] == "call":
                yield b
    bs = sorted(set(bad(0, {0})))
    r.ob("declines:%s" % g.short, not bs, "a fault of the parallel path is reported as an error instead of falling back to sequential evaluation", where(x, next((t[5] for b in bs for t in [x.bbs[b]["t"]] if t[0] == "call"), None)))


def any_call(e, fid):
    return any(y[0] == "call" and y[1] == fid for y in subexprs(e))


def not_neg(e):
    return not any(y[0] == "un" for y in subexprs(e))


def seq_target(db, t, forkfn):
    """a local function that maps sequentially: reaches set_result but not the fork"""
    R = db.closure_reach({t})
    return forkfn.id not in db.closure_reach({t}, stop=force_stops(db)) and any(lname(c.path) == "set_result" for x in R if x in db.fns and file_in(db.fns[x], "src/eval/stg/parallel/") for c in db.fns[x].calls())


def force_stops(db):
    return {f.id for f in db.fns.values() if lname(f.id) in ("force", "force_and_serialise") or "BytecodeMachine" in f.id}


def arena(r, db):
    drops = []
    for i in db.impls_of("std::ops::Drop") + db.impls_of("core::ops::Drop"):
        for _, k, p, _ in i["items"]:
            f = db.fns.get(p)
            if f and any(eff.canon(c.rpath) == "libc::munmap" for c in f.calls()):
                drops.append(f)
    maps = [(f, c) for f in db.fns.values() for c in f.calls() if eff.canon(c.rpath) == "libc::mmap"]
    r.floor("shared mappings", len(maps), 1)
    r.ob("unmap:drop", bool(drops), "no destructor unmaps the shared memory")
    for f in drops:
        mm = {c.bb for c in f.calls() if eff.canon(c.rpath) == "libc::munmap"}
        r.ob("unmap:%s" % f.short, path(f, 0, set(f.returns()), mm) is None, "the destructor can finish without unmapping", where(f))
        for c in f.calls():
            if c.bb in mm:
                es = [expr_of(f, a) for a in c.args]
                r.ob("unmap-args:%s" % f.short, all(any(y[0] == "field" for y in subexprs(e)) for e in es), "the destructor unmaps something other than what was mapped", where(f, c.line))
    for f in db.fns.values():
        if file_in(f, "src/eval/stg/parallel/"):
            for c in f.calls():
                if eff.canon(c.rpath) in ("std::mem::forget", "std::mem::ManuallyDrop::new", "std::boxed::Box::leak"):
                    r.ob("leak:%s" % f.short, False, "something is leaked in the parallel evaluator", where(f, c.line))


def p04(r, db):
    r.rules += ["every call that duplicates the process is reachable only over a branch that implies the host's declaration (or the explicit diagnostic override) and a thread count no greater than declared",
                "the declaration is made only by the command-line program, and only where it is not running the editor server",
                "a one-shot stream is advanced only outside a worker or when it is pure, and a worker marks itself before doing anything else"]
    fs = fork_sites(db)
    r.floor("places that create a worker process", len(fs), 1)
    # the declaration static: the atomic stored by the function(s) the binary calls
    stat = None
    for f in db.fns.values():
        if file_in(f, "src/eval/stg/parallel/fork.rs") and f.kind != "closure":
            for c in f.calls():
                if lname(c.path) == "store":
                    e = strip(expr_of(f, c.args[0]))
                    if e[0] in ("static",):
                        stat = e[1]
    if stat is None:
        raise AnchorLost("the host-declaration static")

    def is_load(e):
        return any(y[0] == "call" and lname(y[1]) == "load" and any(z[0] == "static" and z[1] == stat for z in subexprs(y)) for y in subexprs(e))

    def override(f, e):
        return any(y[0] == "str" and y[1].startswith("EU_PP_ASSUME") for y in subexprs(e))

    class G(Gate):
        def int_case(self, f, e, v, arms, ctx, depth):
            if not is_load(e):
                return False
            nd = [a for a in arms if a in ((1 << 64) - 1, -1)]
            return bool(nd) and (v is None or v not in ((1 << 64) - 1, -1))

    def atom(f, e):
        e = strip(e)
        if e[0] == "call" and lname(e[1]) in ("eq", "ne") and override(f, e):
            return lname(e[1]) == "eq"
        if e[0] == "bin" and e[1] in ("Eq", "Ne") and is_load(e):
            other = e[3] if is_load(e[2]) else e[2]
            if other[0] == "kconst" or other[0] == "const":
                return e[1] == "Ne"
        return None
    g = G(db, atom)

    def atom2(f, e):
        e = strip(e)
        if e[0] == "call" and lname(e[1]) in ("eq", "ne") and override(f, e):
            return lname(e[1]) == "eq"
        if e[0] == "bin" and e[1] in ("Le", "Lt", "Ge", "Gt"):
            a, b = (e[2], e[3]) if e[1] in ("Le", "Lt") else (e[3], e[2])
            if is_load(b) and not is_load(a):
                return True
            if is_load(a) and not is_load(b):   # baseline < now is the unsafe case
                return False
        return None
    g2 = Gate(db, atom2, lambda f, e, v: v == "None" and any(y[0] == "call" and y[1] in db.fns and "thread" in lname(y[1]) for y in subexprs(e)))
    for f, c in fs:
        p = g.site_ok(f, c.bb)
        r.ob("declared:%s" % f.short, p is None, "the process can be duplicated in a host that never declared itself safe: %s" % chain(p), where(f, c.line))
        p = g2.site_ok(f, c.bb)
        r.ob("threads:%s" % f.short, p is None, "the process can be duplicated although threads have appeared since the declaration: %s" % chain(p), where(f, c.line))
    # who declares
    decl = [f for f in db.fns.values() for c in f.calls() if lname(c.path) == "store" and strip(expr_of(f, c.args[0])) == ("static", stat)]
    r.floor("declaring functions", len(decl), 1)
    glsp = Gate(db, lambda f, e: False if field_of(e, ("EucalyptOptions",), "lsp") else None)
    ncall = 0
    for d in decl:
        cs = sorted(index_sites(db).get(d.id, ()))
        for a, b in cs:
            f = db.fns[a]
            ncall += 1
            r.ob("declares:%s" % f.short, f.crate == "eu", "a library host declares the process safe to duplicate", where(f))
            p = glsp.site_ok(f, b)
            r.ob("declares-not-editor:%s" % f.short, p is None, "the declaration is made before the editor server has been excluded", where(f))
    r.floor("declarations by hosts", ncall, 1)
    # threads started by the declaring host after the declaration on the same path
    for f in [db.fns[a] for d in decl for a, _ in index_sites(db).get(d.id, ())]:
        for d in decl:
            for c in f.calls():
                if d.id in db.targets(c):
                    r.ob("baseline-value:%s" % d.short, any(lname(x.path) in ("thread_count",) or "thread" in lname(x.path) for x in d.calls()), "the declared baseline is not the number of threads at that moment", where(d))
    # streams
    trait = [t for t in db.traits if t.endswith("LazyProducer")]
    r.floor("stream producer traits", len(trait), 1)

    def satom(f, e):
        e = strip(e)
        if e[0] == "call" and lname(e[1]) == "in_parallel_worker":
            return False
        if e[0] == "call" and lname(e[1]) == "is_pure":
            return True
        return None
    gs = Gate(db, satom)
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if lname(c.path) == "next" and any(c.path.startswith(t) for t in trait) and c.c.get("rk") != "item" or (lname(c.path) == "next" and c.path in [t + "::next" for t in trait]):
                n += 1
                p = gs.site_ok(f, c.bb)
                r.ob("stream:%s" % f.short, p is None, "a worker can consume input that it shares with the parent: %s" % chain(p), where(f, c.line))
    r.floor("places that advance a stream", n, 2)
    # the worker marks itself first
    m = 0
    mark = {f.id for f in db.fns.values() if lname(f.id) == "enter_parallel_worker"}
    ev = Events(db, lambda c: c.rpath in mark, depth=2)
    for f, c in fs:
        for a, b in sorted(index_sites(db).get(f.id, ())):
            g0 = db.fns[a]
            t = g0.bbs[b]["t"]
            if t[0] != "call":
                continue
            for arg in t[2]:
                cl = closure_of(db, g0, arg)
                if cl is None:
                    continue
                m += 1
                mb = ev.must_blocks(cl)
                for x in cl.calls():
                    if x.bb in mb:
                        continue
                    if any("force" in lname(y) or "apply" in lname(y) for y in [x.path]) or lname(x.path).startswith(("force", "apply")):
                        p = path(cl, 0, {x.bb}, mb)
                        r.ob("marked:%s:%s" % (cl.short, lname(x.path)), p is None, "a worker evaluates before it has marked itself as a worker", where(cl, x.line))
                r.ob("marks:%s" % cl.short, bool(mb) and path(cl, 0, set(cl.returns()), mb) is None, "a worker never marks itself as a worker", where(cl))
    r.floor("worker bodies", m, 1)


def closure_of(db, f, a):
    T = f.r["T"]
    e = expr_of(f, a)
    if e[0] == "agg" and e[1][0] == "closure" and e[1][1] in db.fns:
        return db.fns[e[1][1]]
    if a[0] in ("cp", "mv"):
        ty = T[T.peel(f.ty(a[1][0]))] if not a[1][1] else None
        if ty and ty["k"] == "closure" and ty["p"] in db.fns:
            return db.fns[ty["p"]]
    if a[0] == "c" and "t" in a[1]:
        ty = T[a[1]["t"]]
        if ty["k"] == "closure" and ty["p"] in db.fns:
            return db.fns[ty["p"]]
    return None


# ------------------------------------------------------------------ S02
def s02(r, db):
    r.rules += ["every place where a part of an import declaration becomes part of a cache path is reachable only over branches that exclude traversal in that part",
                "a path part is made relative before it is joined", "every argument of a fetch command that holds part of a declaration follows an end-of-options marker or is excluded from starting with a dash",
                "the fetch tool is the only program started, with constant sub-commands"]
    r.assumptions += ["git treats arguments after `--` as operands", "the host is Unix-like: `/` separates path components"]
    P = Prov(db)

    def classes(f, op=None, e=None):
        pr = P.of(f, op) if op is not None else prov_e(db, P, f, e)
        out = set()
        for x in pr:
            if x[0] == "vfield" and x[1] == "Locator" and x[2] == "Git":
                out.add(x[3])
            elif x[0] == "field" and x[1] == "GitContext":
                out.add("path" if x[2] == "repo_dir" else x[2])
        return out

    def direct(f, e):
        # what the value itself is (not what a hash of it is)
        return classes(f, e=e)

    def consts(f, e):
        out = set()
        for x in subexprs(e):
            if x[0] == "str":
                out.add(x[1])
            elif x[0] == "const" and isinstance(x[1], int) and 32 <= x[1] < 127:
                out.add(chr(x[1]))
            elif x[0] == "agg" and x[1][0] == "closure" and x[1][1] in db.fns:
                out |= body_consts(db.fns[x[1][1]])
            elif x[0] == "fnc" and x[1] in db.fns:
                out |= body_consts(db.fns[x[1]])
        return out

    def no(cls, needle):
        def atom(f, e):
            e = strip(e)
            if e[0] != "call" or not e[2]:
                return None
            n = lname(e[1])
            if n in ("contains", "any"):
                cs = consts(f, ("x",) + tuple(e[2][1:]))
                if any(c in needle_cover(needle) for c in cs) and cls in direct(f, e[2][0]):
                    return False
            if n == "all":
                cs = consts(f, ("x",) + tuple(e[2][1:]))
                ac = "ascii_alnum" in cs
                if (ac or any(c in needle_cover(needle) for c in cs)) and cls in direct(f, e[2][0]):
                    return True
            return None
        return Gate(db, atom, lambda f, e, v: v == "None" and strip(e)[0] == "call" and lname(strip(e)[1]) == "find" and any(c in needle_cover(needle) for c in consts(f, strip(e))) and cls in direct(f, strip(e)[2][0]))

    def nodash(cls):
        def atom(f, e):
            e = strip(e)
            if e[0] != "call" or not e[2]:
                return None
            n = lname(e[1])
            if n == "starts_with" and "-" in consts(f, ("x",) + tuple(e[2][1:])) and cls in direct(f, e[2][0]):
                return False
            if n == "all" and "ascii_alnum" in consts(f, ("x",) + tuple(e[2][1:])) and cls in direct(f, e[2][0]):
                return True
            return None
        return Gate(db, atom)

    def notname(cls, name):
        """the part is not this name (upper or lower case)"""
        def atom(f, e):
            e = strip(e)
            if e[0] != "call" or not e[2]:
                return None
            n = lname(e[1])
            if n == "is_empty" and name == "" and cls in direct(f, e[2][0]):
                return False
            if n == "len" and name == "" and cls in direct(f, e[2][0]):
                return True
            if n in ("eq", "ne", "eq_ignore_ascii_case") and len(e[2]) == 2:
                for a, b in (e[2], e[2][::-1]):
                    if cls in direct(f, a) and name in strs_of(f, b):
                        return n == "ne"
            if n in ("contains", "any") and any(name in strs_of(f, a) for a in e[2]) and any(cls in direct(f, a) for a in e[2][1:] or e[2]):
                return False
            if n == "all" and cls in direct(f, e[2][0]) and "." == name and "ascii_alnum" in consts(f, ("x",) + tuple(e[2][1:])):
                return True
            return None
        return Gate(db, atom)

    def strs_of(f, b):
        out = {x[1] for x in subexprs(b) if x[0] == "str"}
        for x in subexprs(b):
            if x[0] == "kconst" and len(x) > 2 and x[2] is not None and x[2] < len(f.r.get("promoted") or []):
                for bb in f.r["promoted"][x[2]]["bbs"]:
                    for s in bb["s"]:
                        if s[0] == "=":
                            out |= {o[1]["s"] for o in operands(s[2]) if o[0] == "c" and isinstance(o[1].get("s"), str)}
        return out

    def beside(k):
        """constant names joined where a part of a declaration is joined, in the same cache directory"""
        out = set()
        for f in db.fns.values():
            for c in f.calls():
                if lname(c.path) in ("join", "push") and strip_generics(c.rpath).startswith(("std::path::Path", "std::path::PathBuf")) and len(c.args) > 1:
                    e = expr_of(f, c.args[1])
                    s = [x[1] for x in subexprs(e) if x[0] == "str"]
                    if len(s) == 1 and "cache" in dest_name(P.of(f, c.args[0])) and "url" in str(P.of(f, c.args[0])):
                        out.add(s[0])
        return out

    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if lname(c.path) in ("join", "push") and strip_generics(c.rpath).startswith(("std::path::Path", "std::path::PathBuf")) and len(c.args) > 1:
                base = P.of(f, c.args[0])
                if "cache" not in dest_name(base):
                    continue
                if "cache" in dest_name(P.of(f, c.args[1])):
                    continue        # a finished cache path, not a part of one
                cl = direct(f, expr_of(f, c.args[1]))
                if hashed(P, f, c.args[1]):
                    cl = set()
                for k in sorted(cl & {"commit", "path", "url"}):
                    n += 1
                    need = ("..", "/") if k == "commit" else ("..",) if k == "path" else ("..", "/")
                    for nd in need:
                        p = no(k, nd).site_ok(f, c.bb)
                        r.ob("traversal:%s:%s:%s" % (k, nd, f.short), p is None, "the %s of an import declaration becomes part of a cache path without `%s` having been excluded: %s" % (k, nd, chain(p)), where(f, c.line))
                    if k == "commit":
                        for nd in ["", "."] + sorted(beside(k)):
                            p = notname(k, nd).site_ok(f, c.bb)
                            r.ob("names:%s:%s:%s" % (k, nd, f.short), p is None, "the %s of an import declaration becomes part of a cache path without the name `%s`, which is not a commit's directory there, having been excluded: %s" % (k, nd, chain(p)), where(f, c.line))
                    if k == "path":
                        rel = exact(f, expr_of(f, c.args[1]), lambda f, e: e[0] == "call" and lname(e[1]) in ("trim_start_matches", "strip_prefix", "trim_left_matches", "trim_matches"), db)
                        if not rel:
                            ga = Gate(db, lambda f, e, k=k: (False if strip(e)[0] == "call" and lname(strip(e)[1]) in ("is_absolute", "has_root") and k in direct(f, strip(e)[2][0]) or (strip(e)[0] == "call" and lname(strip(e)[1]) == "starts_with" and "/" in consts(f, strip(e)) and k in direct(f, strip(e)[2][0])) else True if strip(e)[0] == "call" and lname(strip(e)[1]) == "is_relative" and k in direct(f, strip(e)[2][0]) else None))
                            rel = ga.site_ok(f, c.bb) is None
                        r.ob("relative:%s" % f.short, rel, "an absolute path in an import declaration replaces the cache directory", where(f, c.line))
    r.floor("cache path parts taken from declarations", n, 2)
    # git arguments
    m = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if c.rpath in db.fns or eff.canon(c.rpath) not in ("std::process::Command::args", "std::process::Command::arg"):
                continue
            pr = P.of(f, c.args[0])
            if ("str", "git") not in pr:
                continue
            m += 1
            els = arg_elems(f, expr_of(f, c.args[1]))
            marker = "--" in earlier_args(f, c)
            first = True
            for e in els:
                s = strip_pass(e)
                if s[0] == "str":
                    if s[1] in ("--", "--end-of-options"):
                        marker = True
                    continue
                cl = direct(f, s)
                if not cl:
                    if any(x[0] == "str" for x in subexprs(s)) or s[0] == "const":
                        continue
                k = "commit" if "commit" in cl else "url" if "url" in cl else "path"
                p = None if marker else nodash(k).site_ok(f, c.bb)
                r.ob("option:%s:%s" % (k, f.short), p is None, "the %s of an import declaration can be read as an option by the fetch tool: %s" % (k, chain(p)), where(f, c.line))
    r.floor("fetch command argument lists", m, 2)
    for f in db.fns.values():
        for c in f.calls():
            if file_in(f, "src/import/") and eff.canon(c.rpath) == "std::process::Command::new":
                pr = P.of(f, c.args[0])
                r.ob("program:%s" % f.short, pr == {("str", "git")}, "the import code starts a program other than the fetch tool", where(f, c.line))


def needle_cover(nd):
    return {"..": {"..", "."}, "/": {"/"}}[nd]


def hashed(P, f, op):
    """the value is a fixed-alphabet rendering of a number (a hash)"""
    e = strip_pass(expr_of(f, op))
    if e[0] == "call" and e[1] in f.db.fns:
        g = f.db.fns[e[1]]
        return any("new_lower_hex" in (c.rpath or "") or "new_upper_hex" in (c.rpath or "") for c in g.calls())
    if e[0] == "arg":
        return False
    return False


def body_consts(g):
    out = set()
    for c in g.calls():
        if lname(c.path).startswith(("is_ascii_alphanumeric", "is_ascii_hexdigit", "is_alphanumeric", "is_ascii_digit")):
            out.add("ascii_alnum")
        for a in c.args:
            for x in subexprs(expr_of(g, a)):
                if x[0] == "str":
                    out.add(x[1])
    for b in g.reach:
        t = g.bbs[b]["t"]
        if t[0] == "switch":
            for v, _ in t[3]:
                if 32 <= int(v) < 127:
                    out.add(chr(int(v)))
        for st in g.bbs[b]["s"]:
            if st[0] == "=":
                for x in subexprs(rv_expr(g, st[2])):
                    if x[0] == "str":
                        out.add(x[1])
                    elif x[0] == "const" and isinstance(x[1], int) and 32 <= x[1] < 127:
                        out.add(chr(x[1]))
    return out


def arg_elems(f, e):
    e = strip(e)
    while e[0] in ("ref", "deref", "pcast", "cast"):
        e = strip(e[1])
    if e[0] == "agg" and e[1][0] == "array":
        return list(e[2])
    return [e]


def earlier_args(f, c):
    out = set()
    e = expr_of(f, c.args[0], 20)
    while e[0] in ("call", "ref", "deref"):
        if e[0] != "call":
            e = e[1]
            continue
        if lname(e[1]) in ("arg", "args"):
            for a in e[2][1:]:
                for x in arg_elems(f, a):
                    x = strip_pass(x)
                    if x[0] == "str":
                        out.add(x[1])
        e = e[2][0] if e[2] else ("const", None)
    return out


# ------------------------------------------------------------------ L01
class Sends:
    """How many responses a function sends, separately for its Ok and its Err returns."""

    def __init__(self, db, is_send):
        self.db, self.is_send = db, is_send
        self.memo = {}
        self.why = {}

    def call(self, c):
        """(ok counts, err counts): sets over {0,1,2}"""
        if self.is_send(c):
            return {1}, {0}
        ts = self.db.targets(c)
        if not ts:
            return {0}, {0}
        ok, er = set(), set()
        for t in ts:
            a, b = self.fn(self.db.fns[t])
            ok |= a
            er |= b
        return ok, er

    def relevant(self, f, seen=None):
        return True

    def fn(self, f):
        if f.id in self.memo:
            return self.memo[f.id]
        self.memo[f.id] = ({0}, {0})
        if not self._may(f):
            return self.memo[f.id]
        self.memo[f.id] = self.run(f, 0, None)[0:2]
        return self.memo[f.id]

    def _may(self, f):
        R = self._reach()
        return f.id in R

    def _reach(self):
        if not hasattr(self, "_r"):
            base = {f.id for f in self.db.fns.values() if any(self.is_send(c) for c in f.calls())}
            rev = self.db.callers()
            st = list(base)
            while st:
                x = st.pop()
                for y in rev.get(x, ()):
                    if y not in base:
                        base.add(y)
                        st.append(y)
            self._r = base
        return self._r

    def run(self, f, start, stops, count0=0):
        """explore from start; returns (ok counts, err counts, counts at stop blocks)"""
        okc, erc, stc = set(), set(), {}
        is_res = f.r["T"].s(f.ty(0)).startswith("std::result::Result")
        init = (start, count0, None, None)     # block, count, pending (bb, ok set, err set), kind of _0
        seen, st = {init}, [init]
        first = True
        while st:
            b, n, pend, kind = st.pop()
            if stops and b in stops and not (b == start and first):
                stc.setdefault(b, set()).add(n)
                continue
            first = False
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] == "=" and s[1] == [0, []]:
                    kind = None
                    rv = s[2]
                    if rv[0] == "agg" and rv[1]["k"] == "adt":
                        kind = rv[1].get("vn")
            t = bb["t"]
            outs = []
            if t[0] == "ret":
                if pend is not None:
                    for x in pend[1]:
                        okc.add(min(2, n + x))
                    for x in pend[2]:
                        erc.add(min(2, n + x))
                elif kind == "Err" and is_res:
                    erc.add(n)
                elif kind == "Ok" or not is_res:
                    okc.add(n)
                else:
                    okc.add(n)
                    erc.add(n)
                continue
            if t[0] == "call":
                c = Call(f, b, t)
                nk = kind
                if c.dest == [0, []]:
                    nk = "Err" if lname(c.path) == "from_residual" else None
                a, e = self.call(c)
                if (a, e) != ({0}, {0}):
                    base = [(n, pend)]
                    if pend is not None:
                        base = [(min(2, n + x), None) for x in pend[1] | pend[2]]
                    rt = f.r["T"].s(f.ty(c.dest[0])) if not c.dest[1] else ""
                    for n2, _ in base:
                        if "Result<" in rt and a != e:
                            outs += [(s, n2, (b, frozenset(a), frozenset(e)), nk) for s in f.succ(b)]
                        else:
                            for x in a | e:
                                outs += [(s, min(2, n2 + x), None, nk) for s in f.succ(b)]
                else:
                    outs = [(s, n, pend, nk) for s in f.succ(b)]
            elif t[0] == "switch" and pend is not None:
                e = expr_of(f, t[1])
                if any(x[0] == "call" and len(x) > 3 and x[3] and x[3][0] == pend[0] for x in subexprs(e)) or (e[0] == "discr" and strip(e[1]) == ("local", f.bbs[pend[0]]["t"][3][0])):
                    pol = self.polarity(f, e, t)
                    if pol:
                        for s, which in pol:
                            for x in (pend[1] if which == "Ok" else pend[2]):
                                outs.append((s, min(2, n + x), None, kind))
                    else:
                        for x in pend[1] | pend[2]:
                            outs += [(s, min(2, n + x), None, kind) for s in f.succ(b)]
                else:
                    outs = [(s, n, pend, kind) for s in f.succ(b)]
            else:
                outs = [(s, n, pend, kind) for s in f.succ(b)]
            for o in outs:
                if f.bbs[o[0]].get("c") or f.bbs[o[0]]["t"][0] == "unreach":
                    continue
                if o not in seen:
                    seen.add(o)
                    st.append(o)
        return okc, erc, stc

    def polarity(self, f, e, t):
        arms = [(int(v), s) for v, s in t[3]]
        if e[0] == "discr":
            # both Result and ControlFlow: 0 is success
            out = [(s, "Ok" if v == 0 else "Err") for v, s in arms]
            if t[4] is not None and len(arms) < 2:
                out.append((t[4], "Err" if arms and arms[0][0] == 0 else "Ok"))
            elif t[4] is not None and f.bbs[t[4]]["t"][0] != "unreach":
                out.append((t[4], "Err"))
            return out
        x = strip(e)
        neg = False
        while x[0] == "un" and x[1] == "Not":
            neg = not neg
            x = strip(x[2])
        if x[0] == "call" and lname(x[1]) in ("is_err", "is_ok"):
            tr = (lname(x[1]) == "is_ok") != neg
            out = []
            for v, s in arms:
                out.append((s, "Ok" if (v != 0) == tr else "Err"))
            if t[4] is not None:
                out.append((t[4], "Ok" if tr else "Err"))
            return out
        return None


def l01(r, db):
    r.rules += ["path counting over the request branch of the server loop and everything it calls: on every path that goes on to the next message exactly one response has been sent; a path that ends the loop is a shutdown or a failure of the channel itself",
                "no response is sent on the notification and response branches", "every response carries the identifier of the request being handled",
                "nothing reachable while the server runs writes to standard output"]
    r.assumptions += ["the protocol library answers the shutdown request itself and writes protocol messages itself"]

    def is_resp_send(c):
        if lname(c.path) != "send" or c.rpath in db.fns or len(c.args) < 2:
            return False
        e = strip(expr_of(c.fn, c.args[1]))
        if e[0] == "agg" and e[1][2] == "Response":
            return True
        if e[0] == "call" and any("lsp_server" in (x[1] or "") and "Response" in (x[1] or "") for x in subexprs(e) if x[0] == "call"):
            return True
        return "Response" in c.fn.r["T"].s(c.fn.ty(c.args[1][1][0]) if c.args[1][0] in ("cp", "mv") and not c.args[1][1][1] else 0) if False else False
    S = Sends(db, is_resp_send)
    nsend = sum(1 for f in db.fns.values() for c in f.calls() if is_resp_send(c))
    r.floor("places that send a response", nsend, 1)
    loops_ = []
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if not file_in(f, "src/driver/lsp/"):
            continue
        for b in sorted(f.reach):
            t = f.bbs[b]["t"]
            if t[0] == "switch":
                e = expr_of(f, t[1])
                if e[0] == "discr" and isinstance(e[2], int):
                    ty = f.r["T"][f.r["T"].peel(e[2])]
                    if ty["k"] == "adt" and ty["p"].endswith("lsp_server::Message") and any(c for c in f.calls() if lname(c.path) == "handle_shutdown"):
                        loops_.append((f, b, t))
    r.floor("server loops", len(loops_), 1)
    for f, b, t in loops_:
        # message variants in declaration order: Request, Response, Notification
        arms = {int(v): s for v, s in t[3]}
        nxt = {c.bb for c in f.calls() if lname(c.path) in ("next", "recv", "try_recv", "recv_timeout")}
        heads = {x for x in nxt if b in f.reachable_from(f.succ(x))}
        vn = {0: "Request", 1: "Response", 2: "Notification"}
        shut = [c for c in f.calls() if lname(c.path) == "handle_shutdown"]
        for v, nm in vn.items():
            s0 = arms.get(v, t[4])
            if s0 is None:
                continue
            # a background-result poll is a separate stop: counts there must already be right
            ok, er, stc = S.run(f, s0, heads)
            at = set().union(*stc.values()) if stc else set()
            if nm == "Request":
                r.ob("one-response:%s" % f.short, at == {1}, "a request can leave the loop body with %s responses sent instead of one" % ("/".join(map(str, sorted(at))) or "an unknown number of"), where(f))
                # leaving the loop: only over shutdown or after the channel failed
                leave = leaves(f, s0, heads, shut, S)
                r.ob("request-ends-server:%s" % f.short, leave is None, "handling a request can end the server with no response sent: %s" % leave, where(f))
            else:
                r.ob("no-response:%s:%s" % (nm, f.short), at <= {0}, "a %s is answered with a response" % nm.lower(), where(f))
        # notification handlers reach no response
    hid = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        for c in f.calls():
            if lname(c.path) in ("new_ok", "new_err") and "lsp_server" in c.path and "Response" in c.path and file_in(f, "src/driver/lsp/"):
                hid += 1
                r.ob("id:%s" % f.short, id_ok(db, f, c), "a response does not carry the identifier of the request being handled", where(f, c.line))
    r.floor("responses built", hid, 10)
    # stdout
    roots = [f.id for f, _, _ in loops_] + [x.id for x in db.find("driver::lsp::run")]
    stop = {f.id for f in db.fns.values() if lname(f.id) == "default" and file_in(f, "src/driver/lsp/")}
    R = db.closure_reach(set(roots), stop)
    r.count("functions reachable from the server", len(R))
    g = dump_gate(db)
    for x in sorted(R):
        f = db.fns.get(x)
        if not f:
            continue
        for c in f.calls():
            k = eff.kind(c.rpath)
            if k == "stdout" and c.rpath not in db.fns:
                emitter = any((i["trait"] or "").endswith("eval::emit::Emitter") and any(p == x for _, _, p, _ in i["items"]) for i in db.impls)
                p = None if emitter else g.site_ok(f, c.bb)
                r.ob("stdout:%s" % f.short, p is None, "the server can write to standard output outside the protocol: %s" % chain(db.path_to(roots, {x}, stop)), where(f, c.line))


def dump_gate(db):
    """printing that only happens for a command-line dump or listing option"""
    opt = db.adt("EucalyptOptions")
    names = [x[0] for x in opt["vars"][0][2] if x[0].startswith("dump_") or x[0] in ("parse", "list_targets", "version", "explain", "quote_debug", "test", "statistics")]
    return Gate(db, lambda f, e: True if any(field_of(e, ("EucalyptOptions",), n) for n in names) else None)


def leaves(f, s0, heads, shut, S):
    """a path from the request branch to a return not through shutdown(true) or a failed send"""
    # returns reachable with zero responses that are not gated on shutdown
    ok_edges = set()
    for c in shut:
        for b in f.reach:
            t = f.bbs[b]["t"]
            if t[0] == "switch":
                e = expr_of(f, t[1])
                if any(x[0] == "call" and len(x) > 3 and x[3] and x[3][0] == c.bb for x in subexprs(e)):
                    for v, s in [(int(v), s) for v, s in t[3]] + [(None, t[4])]:
                        if e[0] == "discr" and v != 0:
                            ok_edges.add((b, s))           # the protocol library failed
                        elif e[0] != "discr" and v != 0:
                            ok_edges.add((b, s))           # shutdown requested
    # failed channel: Err edge of a call that has already tried to send (its Err count is 0 and Ok count is 1) and nothing but sending can fail in it
    for c in f.calls():
        a, e = S.call(c)
        if a == {1} and sends_only_fail(S, c):
            for b in f.reach:
                t = f.bbs[b]["t"]
                if t[0] == "switch":
                    x = expr_of(f, t[1])
                    if x[0] == "discr" and any(y[0] == "call" and len(y) > 3 and y[3] and y[3][0] == c.bb for y in subexprs(x)):
                        for v, s in [(int(v), s) for v, s in t[3]] + [(None, t[4])]:
                            if v != 0:
                                ok_edges.add((b, s))
    p = path(f, s0, set(f.returns()), heads, ok_edges)
    if p is None:
        return None
    # explain through the call that may fail without sending
    names = [lname(Call(f, b, f.bbs[b]["t"]).path) for b in p if f.bbs[b]["t"][0] == "call"]
    return "through " + ", ".join(names[:6])


def sends_only_fail(S, c):
    """the only fallible calls inside c (transitively, in functions that send) are sends"""
    if S.is_send(c):
        return True
    for t in S.db.targets(c):
        g = S.db.fns[t]
        for d in g.calls():
            if lname(d.path) == "branch" and d.args:
                e = expr_of(g, d.args[0])
                src = [y for y in subexprs(e) if y[0] == "call"]
                if not src:
                    return False
                bb = [y[3][0] for y in src if len(y) > 3 and y[3]]
                inner = [Call(g, x, g.bbs[x]["t"]) for x in bb]
                if not any(S.is_send(x) or (S.call(x)[0] == {1} and sends_only_fail(S, x)) for x in inner):
                    return False
    return True


def id_ok(db, f, c, depth=4):
    e = expr_of(f, c.args[0])
    P = Prov(db, lambda g, x: ("reqid",) if (x[0] == "field" and len(x) > 3 and x[3] and x[3].endswith("lsp_server::Request") and x[1] == "id") or (x[0] == "call" and lname(x[1]) == "extract" and "Request" in (x[1] or "")) else None)
    return ("reqid",) in P.of(f, c.args[0])
