"""X01, X05: failures of writing and of reading data are never swallowed."""
from db import *
from rule import where
from status import Status, is_fallible, lname, CLEAR
from r_status import lost, shows
from gate import Gate, strip, FAM, index_sites
from prov import Prov
from flow import path
import inl
from thread import Threads
import r_diag
from r_diag import types_of
from ceval import Eval, A, V, P, OpaqueV, SOME, NONE, Unknown

SKIP = {"branch", "from_residual", "map_err", "from_output", "clone", "map", "and_then", "or_else", "as_ref", "as_mut", "unwrap_or", "cloned", "copied", "transpose", "ok_or", "ok_or_else", "context", "into", "from"}


# types whose value is itself the report of a failure
SHOWN = {"eucalypt::eval::error::ExecutionError", "eucalypt::import::error::SourceError", "eucalypt::driver::error::EucalyptError", "eucalypt::export::error::RenderError"}
# conversions that say "no" with None
NONE_IS_FAILURE = {"from_f64", "resolve_predefined_entity", "from_u32", "from_digit", "to_digit", "from_timestamp", "from_i128", "from_u128", "from_string_unchecked", "to_str", "checked_add", "checked_mul", "checked_sub", "checked_neg"}


def res_depth(s):
    """'Result' / 'Option<Result' / None: how a value of this type carries a failure"""
    if s.startswith("std::result::Result<"):
        return "R"
    if s.startswith("std::option::Option<std::result::Result<"):
        return "OR"
    return None


class Lost(Status):
    """as Status, with calls that hand out Option<Result<..>> (iterators, pull producers) as fallible too"""


def carried(v, rt):
    """does the returned value show the failure?  rt: type string of the return"""
    if rt.startswith("std::option::Option<std::result::Result<"):
        if isinstance(v, tuple) and v[0] == "V":
            if v[1] == "Some":
                w = v[2]
                return not (isinstance(w, tuple) and w[0] == "V" and w[1] == "Ok") and w != "U" or (isinstance(w, tuple) and w[0] == "V" and w[1] == "Err")
            return False
        return True
    if rt.startswith("std::result::Result<"):
        return not lost(v, rt)
    if rt in SHOWN:
        return True
    return False


def absent(c, x):
    """a question whose answer says that there was nothing to read: no failure"""
    nm = lname(c.path)
    if nm == "exists" and ("path::Path" in c.path or "fs::exists" in c.path):
        return [("Z", None, "clear"), ("N", None)]
    if nm == "is_file" and "path::Path" in c.path:
        return [("Z", None, "clear"), ("N", None)]
    if nm == "is_dir" and "path::Path" in c.path:
        return [("N", None, "clear"), ("Z", None)]
    if nm in ("eq", "ne") and "ErrorKind" in (c.rpath or ""):
        w = {last(str(e[2])) for a in c.args for e in kinds_in(x, a)}
        if w and w <= {"NotFound", "IsADirectory", "NotADirectory"}:
            return [("N" if nm == "eq" else "Z", None, "clear"), ("Z" if nm == "eq" else "N", None)]
    if nm == "kind" and "io::Error" in c.path and not any(lname(k.path) in ("eq", "ne") and "ErrorKind" in (k.rpath or "") for k in x.calls()):
        return [("U", None, "clear")]
    return None


def kinds_in(x, a):
    """ErrorKind constants an operand refers to: (_, _, variant)"""
    out = []
    if a[0] in ("cp", "mv"):
        for d in x.defs().get(a[1][0], []):
            rv = d[2]
            if d[1] in ("t", "a") or rv is None:
                continue
            for pl in rv_places(rv):
                if pl[0] != a[1][0]:
                    out += kinds_in(x, ["cp", [pl[0], []]])
            if rv[0] == "use" and rv[1][0] == "c":
                out += kinds_in(x, rv[1])
            if rv[0] == "agg" and rv[1]["k"] == "adt" and "ErrorKind" in rv[1]["p"]:
                out.append(("agg", 0, rv[1].get("vn")))
    elif a[0] == "c" and a[1].get("pr") is not None:
        for b in (x.r.get("promoted") or [])[a[1]["pr"]]["bbs"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1]["k"] == "adt":
                    out.append(("agg", 0, s[2][1].get("vn")))
    return out


def swallowed(db, f, fallible, follow, presence=False):
    """{callee: line} of fallible calls of f whose failure f's result does not show; and the set of all followed"""
    rt = f.r["T"].s(f.ty(0))
    seen_calls = {}
    stores = set()

    def events(c, x, args):
        nm = lname(c.path)
        if c.dest[1]:
            return None
        if presence:
            w = absent(c, x)
            if w is not None:
                return w
        s = x.r["T"].s(x.ty(c.dest[0]))
        k = res_depth(s)
        if k is None:
            if s.startswith("std::option::Option<") and nm in NONE_IS_FAILURE:
                lab = fallible(c, x)
                if lab:
                    seen_calls.setdefault(lab, c.line)
                    return [(("V", "Some", "U"), None), (("V", "None", "U"), (lab, c.line))]
            return None
        if k == "R" and ("result::Result" in c.path or "option::Option" in c.path or nm in SKIP and ("Try" in c.path or "Residual" in c.path)):
            return None
        if k == "OR" and ("option::Option" in c.path or "result::Result" in c.path):
            return None
        if nm in ("branch", "from_residual", "from_output"):
            return None
        lab = fallible(c, x)
        if not lab:
            return None
        seen_calls.setdefault(lab, c.line)
        if k == "R":
            return [(("V", "Ok", "U"), None), (("V", "Err", "U"), (lab, c.line))]
        return [(("V", "None", "U"), None), (("V", "Some", ("V", "Ok", "U")), None), (("V", "Some", ("V", "Err", "U")), (lab, c.line))]
    S = Lost(db, events, follow)
    S.relabel = lambda c, g, v, bd: bd
    # what the function is given has not failed: a failure it returns is its own
    T = f.r["T"]
    args = []
    for i in range(f.argc):
        a = T.s(f.ty(i + 1))
        args.append(("V", "Ok", "U") if a.startswith("std::result::Result<") and f.kind != "closure" else "U")
    res = S.run(f, tuple(args))
    out = {}
    for v, b, line in res:
        if b and b != CLEAR and not carried(v, rt):
            out.setdefault(b[0], b[1])
    return seen_calls, out, S.overflow



def tests(f):
    return f.kind == "const" or "::tests" in f.id or "_tests::" in f.id


def is_fmt(f):
    """Debug / Display of an error or a syntax node: text for people, through a String"""
    return f.name == "fmt" and ("std::fmt::" in f.id or "core::fmt::" in f.id)


def judge(r, db, f, fallible, exempt, tag, presence=False):
    seen, out, over = swallowed(db, f, fallible, lambda g: False, presence)
    n = 0
    for lab in sorted(seen):
        n += 1
        if lab in out and exempt(f, lab, out[lab]):
            continue
        r.ob("%s:%s:%s" % (tag, f.short, lab), lab not in out, "in %s a failure of %s is not passed on: the function can still answer as if it had not happened" % (f.short, lab), where(f, out.get(lab)))
    for o in over:
        r.ob("overflow:%s" % f.short, False, "the paths of %s could not be enumerated" % o, where(f))
    return n


DROPPERS = {"flatten", "filter_map", "flat_map", "map_while", "flatten_ok", "filter", "take_while", "skip_while"}


def dropped_items(r, f, tag):
    """iterator adapters that leave failed items out"""
    T = f.r["T"]
    n = 0
    for c in f.calls():
        nm = lname(c.path)
        if nm not in DROPPERS or "Iterator" not in c.path and "iter" not in c.path:
            continue
        n += 1
        own = [T.s(g) if isinstance(g, int) else str(g) for g in (c.c.get("ga") or [])]
        fns = [str(a[1].get("fn")) for a in c.args if a[0] == "c" and a[1].get("fn")]
        if nm in ("filter", "take_while", "skip_while"):
            # a predicate over the results themselves
            bad = any(item_is_result(T.s(g.ty(i))) for g in preds(f, c) for i in range(1, g.argc + 1)) or any(lname(x) in ("is_ok", "is_err") for x in fns)
        else:
            bad = False
        bad = bad or (nm in ("flatten", "flatten_ok") and own and item_is_result(own[0])) or any(lname(x) == "ok" and "result::Result" in x for x in fns) or any("result::Result" in o and lname(o.split("{")[0]) == "ok" for o in own[1:])
        r.ob("items:%s:%s:%s" % (tag, f.short, nm), not bad, "%s in %s leaves out the items that failed" % (nm, f.short), where(f, c.line))
    return n


def preds(f, c):
    """the closures a call is given"""
    out = []
    for a in c.args:
        e = strip(expr_of(f, a))
        if e[0] == "agg" and e[1][0] == "closure" and e[1][1] in f.db.fns:
            out.append(f.db.fns[e[1][1]])
    return out


def item_is_result(s):
    return "Result<" in s or "csv::StringRecordsIter" in s or "csv::StringRecordsIntoIter" in s or "std::io::Lines<" in s or "Attributes<" in s or "std::fs::ReadDir" in s


def lossy(r, f, tag):
    n = 0
    for c in f.calls():
        nm = lname(c.path)
        if nm in ("from_utf8_lossy", "from_utf8_lossy_owned", "from_utf16_lossy", "to_string_lossy"):
            n += 1
            if "stderr" in str(expr_of(f, c.args[0])):
                continue        # what a command said about its failure
            r.ob("lossy:%s:%s" % (tag, f.short), False, "%s in %s replaces what is not text by a placeholder" % (nm, f.short), where(f, c.line))
    return n


# ------------------------------------------------------------------ X01
KINDS = {"NotFound": 0, "PermissionDenied": 1, "ConnectionReset": 3, "ConnectionAborted": 6, "NotConnected": 7, "WouldBlock": 13, "InvalidInput": 20, "InvalidData": 21, "TimedOut": 22, "WriteZero": 23, "StorageFull": 24,
         "Interrupted": 35, "UnexpectedEof": 37, "OutOfMemory": 38, "Other": 40}
PIPE = 11


class Pipe(Eval):
    """which execution error a write failure becomes"""

    def __init__(self, db, err):
        Eval.__init__(self, db)
        self.err = err

    def invoke(self, f, c, args):
        n = lname(c["p"])
        d = [self.deref(a) for a in args]
        if n == "kind" and d and isinstance(d[0], A) and d[0].p == "std::io::Error":
            return d[0].fs[0]
        if n == "raw_os_error" and d and isinstance(d[0], A) and d[0].p == "std::io::Error":
            return SOME({"BrokenPipe": 32, "NotFound": 2, "PermissionDenied": 13, "StorageFull": 28}.get(d[0].fs[0].vn, 5))
        if n in ("eq", "ne") and len(d) == 2 and all(isinstance(x, A) and x.p == "std::io::ErrorKind" for x in d):
            return int((d[0].vn == d[1].vn) == (n == "eq"))
        g = self.db.fns.get(c.get("r") or "")
        if g is not None:
            return Eval.invoke(self, f, c, args)
        try:
            return Eval.invoke(self, f, c, args)
        except Unknown:
            return OpaqueV("result of " + n)

    def call(self, f, env, bb, t):
        # a rendering step of this function fails with the error under consideration
        if self.err is not None and not t[3][1]:
            s = f.r["T"].s(f.ty(t[3][0]))
            if s.startswith("std::result::Result<") and s.endswith("export::error::RenderError>"):
                self.asked = True
                return A("std::result::Result", 1, "Err", [self.err])
            if s.startswith("std::result::Result<") and s.endswith("std::io::Error>") and self.err.vn == "Io":
                self.asked = True
                return A("std::result::Result", 1, "Err", [self.err.fs[0]])
        return Eval.call(self, f, env, bb, t)


def x01(r, db):
    r.rules.append("in every output writer, and in every function that calls one, a failed write, flush, serialisation or event is a failed result of that function on every path (abstract interpretation of the function's own paths); no partial write has its count ignored; no buffering writer is dropped unflushed; no iterator adapter leaves failed items out; a write failure becomes the silent end of output exactly when it is a broken pipe, decided for every kind of I/O error")
    r.assumptions.append("a write into memory does not fail (render-as); text already handed to the operating system was delivered; print! reports a failed write by ending the process")
    # --- what can fail
    def out_call(c, x):
        p, tr = c.path, c.c.get("tr") or ""
        s = x.r["T"].s(x.ty(c.dest[0])) if not c.dest[1] else ""
        if "io::Write" in p or "io::Write" in tr or "Emitter" in p or "MarkupSerialiser" in p or "export::error::RenderError" in s:
            return lname(p)
        if p in ("std::fs::write", "std::fs::File::create"):
            return lname(p)
        return None

    def any_call(c, x):
        return lname(c.path)

    def exempt(f, lab, line):
        rt = f.r["T"].s(f.ty(0))
        if "AsKey" in f.id:
            return True         # the key a writer was asked to accept and refused: see X02
        for c in f.calls():
            if c.line == line and lname(c.path) == lab:
                g = " ".join([c.path, c.rpath or ""] + [f.r["T"].s(t) if isinstance(t, int) else str(t) for t in (c.c.get("ga") or [])])
                if lab == "to_string" and "serde_json" in g:
                    return True     # a string always serialises; the fallback quotes it
                if lab == "from_str" and "Datetime" in g:
                    return True     # the fallback keeps the whole timestamp as text
        return False
    nfn = ncall = 0
    flushless = []
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if tests(f) or is_fmt(f) or not f.id.startswith(("eucalypt::", "<eucalypt::", "eu::")) and f.crate not in ("eucalypt", "eu"):
            continue
        export = f.file.startswith("src/export/") or f.file in ("src/eval/emit.rs",)
        render = export or f.file.startswith("src/eval/stg/emit") or f.file.startswith("src/eval/stg/render") or f.file == "src/driver/eval.rs" or f.file.startswith("src/eval/bytecode/")
        for c in f.calls():
            nm = lname(c.path)
            if nm in ("write", "write_vectored") and "io::Write" in (c.path + (c.c.get("tr") or "")) and not ("io::Write" in f.id and f.name in ("write", "write_vectored")):
                r.ob("partial:%s" % f.short, counted(f, c), "%s writes with %s and ignores how much was written" % (f.short, nm), where(f, c.line))
            if nm in ("new", "with_capacity") and ("BufWriter" in c.path or "LineWriter" in c.path):
                flushless.append((f, c))
        if not render or "wasm" in f.file:
            continue
        if export and any(True for c in f.calls()):
            n = judge(r, db, f, any_call, exempt, "write")
            dropped_items(r, f, "write")
        elif any(out_call(c, f) for c in f.calls()):
            if diagnostic_only(f):
                continue
            n = judge(r, db, f, out_call, exempt, "write")
            dropped_items(r, f, "write")
        else:
            continue
        nfn += 1
        ncall += n
    r.floor("functions on the way from a value to the output", nfn, 20)
    r.floor("fallible operations on that way", ncall, 25)
    for f, c in flushless:
        ok = any(lname(k.path) in ("flush", "into_inner", "into_parts") for k in inl.comb(f).calls())
        r.ob("buffer:%s" % f.short, ok, "%s wraps the output in %s and never flushes it: the last part is written, and its failure ignored, when the wrapper is dropped" % (f.short, short(c.path)), where(f, c.line))
    r.count("buffering writers", len(flushless))
    pipes(r, db)

    ended(r, db)


def ended(r, db):
    """a stream that was started is ended before the result is reported"""
    enders = set()
    for f in db.fns.values():
        if tests(f) or "wasm" in f.file:
            continue
        if any("Emitter" in c.path and lname(c.path) == "stream_end" for c in f.calls()) and f.crate in ("eucalypt", "eu") and "Emitter" not in f.id:
            enders.add(f.id)
    n = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if tests(f) or "wasm" in f.file or not f.file.startswith("src/driver/"):
            continue
        if not any("Emitter" in c.path and lname(c.path) == "stream_start" for c in f.calls()):
            continue
        n += 1
        rt = f.r["T"].s(f.ty(0))

        def events(c, x, args):
            nm = lname(c.path)
            ts = db.targets(c)
            if "Emitter" in c.path and nm == "stream_start":
                return [(("V", "Ok", "U"), ("started", c.line)), (("V", "Err", "U"), None)]
            if "Emitter" in c.path and nm == "stream_end" or any(t in enders for t in ts):
                if is_fallible(x, c):
                    return [(("V", "Ok", "U"), None, "clear"), (("V", "Err", "U"), None, "clear")]
                return [("U", None, "clear")]
            return None
        S = Lost(db, events, lambda g: False)
        res = S.run(f, tuple("U" for _ in range(f.argc)))
        bad = [l for v, b, l in res if b and b != CLEAR and lost(v, rt)]
        r.ob("ended:%s" % f.short, not bad and not S.overflow, "%s can report success for an output stream it started and never ended: the document is never written" % f.short, where(f, bad[0] if bad else None))
    r.floor("functions that start an output stream", n, 1)


def diagnostic_only(f):
    """writes only to the error sink: what is said about a failure, not output"""
    T = f.r["T"]
    return T.s(f.ty(0)) == "()" and f.name in ("flush_diagnostics", "write_json_to_stderr") or "stderr" in f.name


def counted(f, c):
    """the number of bytes written is looked at"""
    x = f
    P_ = c.dest[0]
    seen, st = {P_}, [P_]
    while st:
        l = st.pop()
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] != "=":
                    continue
                if any(p[0] == l for p in rv_places(s[2])):
                    if s[2][0] == "bin":
                        return True
                    if s[1][0] not in seen:
                        seen.add(s[1][0])
                        st.append(s[1][0])
            t = x.bbs[b]["t"]
            if t[0] == "call":
                for a in t[2]:
                    if a[0] in ("cp", "mv") and a[1][0] == l:
                        if lname(t[1].get("p")) in ("branch", "map_err", "unwrap", "expect"):
                            if t[3][0] not in seen:
                                seen.add(t[3][0])
                                st.append(t[3][0])
    return False


def pipes(r, db):
    EE = next((a for a in db.adts if a.endswith("::ExecutionError")), None)
    RE = next((a for a in db.adts if a.endswith("export::error::RenderError")), None)
    if EE is None or RE is None:
        raise AnchorLost("ExecutionError / RenderError")
    names = [v[0] for v in db.adts[EE]["vars"]]
    closed = [n for n in names if "Closed" in n]
    if len(closed) != 1:
        raise AnchorLost("the execution error for a closed output stream")
    closed = closed[0]
    makers = {}
    for f in db.fns.values():
        if tests(f) or f.crate not in ("eucalypt", "eu"):
            continue
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1]["k"] == "adt" and s[2][1]["p"] == EE and s[2][1].get("vn") == closed and "clone" not in f.name:
                    makers[f.id] = f
    r.floor("places where the output stream is found closed", len(makers), 1)
    iov = [i for i, v in enumerate(db.adts[RE]["vars"]) if any("io::Error" in types_of(db, RE).s(t) for _, t in v[2])]
    if len(iov) != 1:
        raise AnchorLost("the I/O variant of RenderError")
    for f in sorted(makers.values(), key=lambda f: f.id):
        cases = [("BrokenPipe", True)] + [(k, False) for k in KINDS] + [(None, False)]
        T = f.r["T"]
        undecided = 0
        for k, want in cases:
            io = A("std::io::Error", 0, "Error", [A("std::io::ErrorKind", KINDS.get(k, PIPE), k, [])]) if k else None
            alts = []
            if io is not None:
                alts = [A(RE, iov[0], db.adts[RE]["vars"][iov[0]][0], [io])]
            else:
                alts = [A(RE, i, v[0], [OpaqueV("x") for _ in v[2]]) for i, v in enumerate(db.adts[RE]["vars"]) if i != iov[0]]
            for re_ in alts:
                ev = Pipe(db, re_)
                args, has = [], False
                for i in range(f.argc):
                    s = T.s(f.ty(i + 1)).lstrip("&").replace("mut ", "").strip()
                    if s.endswith("export::error::RenderError"):
                        args.append(re_)
                        has = True
                    elif s.endswith("std::io::Error"):
                        args.append(io if io is not None else OpaqueV("io"))
                        has = True
                    elif s.startswith("std::result::Result<"):
                        args.append(A("std::result::Result", 0, "Ok", [OpaqueV("value")]))
                    else:
                        args.append(OpaqueV("argument %d" % i))
                v = answer(ev, f, args)
                if v is None or not (has or getattr(ev, "asked", False)):
                    undecided += 1
                    continue
                got = closed in v
                r.ob("pipe:%s:%s" % (f.short, k or re_.vn), got == want, "%s: a write failure of kind %s %s the silent end of the output" % (f.short, k or re_.vn, "becomes" if got else "does not become"), where(f))
        r.ob("pipe-decided:%s" % f.short, not undecided, "%s reports the output stream as closed, and nothing shows that only a broken pipe leads there" % f.short, where(f))
    # --- who treats it as success
    asks = 0
    for g in sorted(db.fns.values(), key=lambda f: f.id):
        if tests(g) or g.crate != "eucalypt" or g.argc != 1 or g.r["T"].s(g.ty(0)) != "bool" or "closed" not in g.name:
            continue
        t = g.r["T"][g.r["T"].peel(g.ty(1))]
        if t["k"] != "adt" or t["p"] != EE:
            continue
        asks += 1
        for i, vn in enumerate(names):
            if r_diag.self_payload(db, EE, i) is not None:
                continue
            for w in (None, ) + tuple(j for j in range(len(names)) if r_diag.self_payload(db, EE, j) is not None):
                v = r_diag.err_value(db, EE, i)
                if w is not None:
                    v = r_diag.err_value(db, EE, w, v)
                try:
                    got = Pipe(db, None).run(g, [P({0: v}, 0, [])])
                except Unknown as e:
                    got = "unknown (%s)" % e
                label = vn if w is None else "%s(%s)" % (names[w], vn)
                r.ob("closed:%s:%s" % (g.short, label), got in (0, 1, True, False) and bool(got) == (vn == closed), "%s answers %s for %s" % (g.short, got, label), where(g))

    r.floor("questions whether an error is the closed output", asks, 1)


def answer(ev, f, args):
    try:
        v = ev.run(f, [P({0: a}, 0, []) if f.r["T"][f.ty(i + 1)]["k"] == "ref" else a for i, a in enumerate(args)])
    except Unknown:
        return None
    out = set()

    def walk(v, d=0):
        v = ev.deref(v)
        if isinstance(v, A) and d < 6:
            out.add(v.vn)
            for x in v.fs:
                walk(x, d + 1)
    walk(v)
    return out



# ------------------------------------------------------------------ X05
# what a document can hold that is not data
NOT_DATA = {"Comment", "Decl", "PI", "DocType"}
# library reader types whose variants carry data: the reader must look at each
READER_ENUMS = ("quick_xml::events::Event", "edn_format::Value", "toml::Value", "serde_json::Value")
# receivers of unwrap / expect that cannot fail, by what produced the value
SAFE_SOURCES = [
    ({"try_into", "try_from", "buffer_position"}, "a position in a text held in memory fits its index type"),
    ({"from_utf8", "valid_up_to"}, "the part of the bytes already found valid"),
    ({"Regex::new", "RegexSet::new"}, "a pattern that is a constant of the program"),
    ({"and_hms_opt"}, "midnight exists"),
]


def x05(r, db):
    r.rules.append("in every data reader (src/import), every stream producer and every function that asks one for data, a failed read, parse or conversion is a failed result on every path; no adapter leaves failed items out; bytes are never turned into text with replacement; library readers are not told to tolerate malformed documents; every kind of content a library reader reports is looked at, and the end of input ends the reading; no reader can stop the program on what it reads")
    r.assumptions.append("the library parsers (quick_xml, csv, toml, edn_format, serde_json, yaml_rust) report what is malformed")

    def any_call(c, x):
        return lname(c.path)

    def src_call(c, x):
        s = x.r["T"].s(x.ty(c.dest[0])) if not c.dest[1] else ""
        if "import::error::SourceError" in s or "LazyProducer" in c.path or "driver::error::EucalyptError" in s or c.path in ("std::fs::read", "std::fs::read_to_string") or lname(c.path) in ("read_to_string", "read_to_end", "read_line"):
            return lname(c.path)
        return None

    def exempt(f, lab, line):
        # several formats of one thing are tried in turn; what fits none is answered with None
        rt = f.r["T"].s(f.ty(0))
        if lab.startswith("parse_from_") and "Option<" in rt:
            return True
        if stores_error(f):
            return True
        for c in f.calls():
            if c.line == line and lname(c.path) == lab and lab == "new" and "regex" in c.path:
                return True
            if c.line == line and lname(c.path) == lab == "next" and "yaml" in f.file:
                return False
        return False
    nfn = ncall = 0
    readers = []
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if tests(f) or is_fmt(f) or f.crate not in ("eucalypt", "eu") or "wasm" in f.file or "__static_ref_initialize" in f.id:
            continue
        imp = f.file.startswith("src/import/")
        rt = f.r["T"].s(f.ty(0))
        if imp:
            readers.append(f)
            n = judge(r, db, f, any_call, exempt, "read")
            dropped_items(r, f, "read")
            lossy(r, f, "read")
        elif f.file.startswith("src/driver/source.rs") and ("Result<" in rt) or (f.file.startswith("src/eval/stg/") or f.file.startswith("src/driver/io")) and any(src_call(c, f) and "EucalyptError" not in f.r["T"].s(f.ty(c.dest[0])) for c in f.calls()):
            if look_ahead(f):
                continue
            n = judge(r, db, f, src_call, exempt, "read", True)
        else:
            continue
        nfn += 1
        ncall += n
    r.floor("functions that read data", nfn, 30)
    r.floor("fallible operations of reading", ncall, 40)
    tolerance(r, db, readers)
    contents(r, db, readers)
    aborts(r, db, readers)


def look_ahead(f):
    """reads a file early for a setting in it; the same file is read again, and reported, when it is loaded"""
    return "prelude_override" in f.name


def stores_error(f):
    """the failure is kept in the reader (a field named error) for the caller to find"""
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "error":
                return True
        t = f.bbs[b]["t"]
        if t[0] == "call" and t[3][1] and t[3][1][-1][0] == "f" and t[3][1][-1][2] == "error":
            return True
    return False


def tolerance(r, db, readers):
    n = 0
    for f in readers:
        for c in f.calls():
            nm = lname(c.path)
            if nm == "flexible" and "csv" in c.path:
                n += 1
                r.ob("tolerant:%s:flexible" % f.short, not truthy(f, c.args[1]), "%s lets records have any number of fields: what does not fit the headers is dropped" % f.short, where(f, c.line))
            elif nm in ("trim_text",):
                n += 1
                r.ob("tolerant:%s:trim_text" % f.short, not truthy(f, c.args[1]), "%s has the reader trim each fragment of a text on its own: space next to a reference is lost" % f.short, where(f, c.line))
            elif nm in ("check_end_names", "check_comments") and "quick_xml" in c.path:
                n += 1
                r.ob("tolerant:%s:%s" % (f.short, nm), nm == "check_comments" or truthy(f, c.args[1]), "%s has the reader accept mismatched tags" % f.short, where(f, c.line))
            elif nm == "comment" and "csv" in c.path:
                n += 1
                r.ob("tolerant:%s:comment" % f.short, False, "%s skips records that start with a comment sign" % f.short, where(f, c.line))
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and "quick_xml" in str(s[1][1][-1][3]):
                    nm = s[1][1][-1][2]
                    n += 1
                    v = s[2][1] if s[2][0] == "use" else None
                    on = truthy(f, v) if v is not None else True
                    bad = (nm == "check_end_names" and not on) or (nm in ("allow_unmatched_ends", "allow_dangling_amp") and on) or (nm in ("trim_text_start", "trim_text_end") and on)
                    r.ob("tolerant:%s:%s" % (f.short, nm), not bad, "%s sets %s: malformed documents are accepted" % (f.short, nm), where(f, s[3]))
    r.count("reader settings", n)


def truthy(f, o):
    e = strip(expr_of(f, o))
    if e[0] == "const":
        return str(e[1]) not in ("0", "False", "false")
    return True


def contents(r, db, readers):
    """matches over what a library reader hands out"""
    n = 0
    docs = []
    xmls = [f for f in readers if f.file.endswith("xml.rs")]

    def own(f):
        return bool(reads(f)) or any(p.startswith("quick_xml") for _, p, _, _ in kind_switches(f))
    for f0 in readers:
        f = f0
        if f0 in xmls:
            if not own(f0):
                continue
            f = inl.expand(f0, lambda g: g.file == f0.file and g.id != f0.id and any(("quick_xml" in g.r["T"].s(g.ty(i))) for i in range(len(g.locals))), 3, True)
        sw = kind_switches(f)
        evs = {b for b, p, _, _ in sw if p.startswith("quick_xml")}
        front = set()
        for rb in reads(f):
            # the decision taken on an event just read; what happens to the value when it goes out of scope is none
            front |= frontier(f, rb, evs, reads(f))
        if f0 in xmls:
            docs.append((f, sw, front))
        for b, name, arms, t in sw:
            vs = db.adts.get(name, {}).get("vars")
            if name.startswith("quick_xml"):
                if b in front:
                    n += 1
                    xml(r, db, f, b, arms, t[4], vs, front)
                continue
            n += 1
            # a kind without an arm of its own may only be refused
            if t[4] is not None and f.bbs[t[4]]["t"][0] != "unreach":
                ok = only_errors(db, f, t[4])
                missing = [v[0] for i, v in enumerate(vs) if v[1] not in arms and i not in arms] if vs else ["?"]
                if missing:
                    r.ob("kinds:%s" % f.short, ok, "%s has no case of its own for %s of %s, and does not refuse them" % (f.short, ", ".join(missing), name), where(f, t[5]))
    inner = set()
    for f, sw, front in docs:
        inner |= {q for q in getattr(f, "inlined", ()) if q != f.id}
    for f, sw, front in docs:
        if f.id in inner or not front:
            continue
        closing = set()
        for q in front:
            t = f.bbs[q]["t"]
            a = {int(x): y for x, y in t[3]}
            ends = {a.get(i, t[4]) for i in (1, 2)}
            closing |= ends - {a.get(i, t[4]) for i, vn in enumerate(XML_NAMES) if i not in (1, 2)}
        r.ob("closed:%s" % f.short, only_errors(db, f, 0, closing), "%s can hand back a document none of whose elements was closed" % f.short, where(f, f.line))
    r.floor("decisions on the kind of content read", n, 4)


def kind_switches(f):
    """(block, enum, arms, terminator) of each decision on the variant of a library's value; one per place, its first"""
    T = f.r["T"]
    first = {}
    out = []
    for b in sorted(f.reach):
        t = f.bbs[b]["t"]
        if t[0] != "switch":
            continue
        dv = None
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[2][0] == "discr" and t[1][0] in ("cp", "mv") and t[1][1] == s[1]:
                dv = s[2]
        if dv is None:
            continue
        ti = T.peel(dv[2]) if isinstance(dv[2], int) else None
        ty = T[ti] if ti is not None else None
        if ty is None or ty["k"] != "adt" or not ty["p"].startswith(READER_ENUMS):
            continue
        if not ty["p"].startswith("quick_xml"):
            if any(q in f.dom()[b] and q != b for q in first.get(str(dv[1]), ())):
                continue
            first.setdefault(str(dv[1]), []).append(b)
        out.append((b, ty["p"], {int(a): s for a, s in t[3]}, t))
    return out


def frontier(f, start, stops, walls):
    """the stops met first on the ways on from a successful call"""
    out, seen, st = set(), set(), list(f.succ(start))
    while st:
        b = st.pop()
        if b in seen or b in walls:
            continue
        seen.add(b)
        if b in stops:
            out.add(b)
            continue
        t = f.bbs[b]["t"]
        good = None
        if t[0] == "switch" and t[1][0] in ("cp", "mv"):
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and s[1] == t[1][1] and isinstance(s[2][2], int):
                    ty = f.r["T"][f.r["T"].peel(s[2][2])]
                    if ty["k"] == "adt" and last(ty["p"]) in ("Result", "ControlFlow"):
                        good = [y for v, y in t[3] if int(v) == 0]
        st.extend(good if good else f.succ(b))
    return out


def only_errors(db, f, start, walls=(), th=None, starts=()):
    """every way on from this block ends in a failed result"""
    S = Lost(db, lambda c, x, a: None, lambda g: False)
    rt = f.r["T"].s(f.ty(0))
    x = S.body(f)
    if x is not f and len(x.bbs) != len(f.bbs) and start >= len(x.bbs):
        return True
    out = set()
    th = th if x is f else None
    seen = set()
    st = [(start, S.norm(x, start, {}), None, q) for q in (starts if th else (None,))]
    while st:
        bb, envt, bad, q = st.pop()
        if (bb, envt, q) in seen or bb in walls:
            continue
        seen.add((bb, envt, q))
        env = dict(envt)
        for s in x.bbs[bb]["s"]:
            if s[0] == "=":
                S.assign(x, env, s[1], S.rv(x, env, s[2]))
            elif s[0] == "dead":
                env.pop(s[1], None)
        for nb, e2, bd in S.term(x, bb, env, bad, out):
            for q2 in ([n for n in th.succs.get(q, ()) if n[0] == nb] if th else (None,)):
                st.append((nb, S.norm(x, nb, e2), bd, q2))
    return all(not lost(v, rt) for v, _, _ in out)


XML_NAMES = ["Start", "End", "Empty", "Text", "CData", "Comment", "Decl", "PI", "DocType", "GeneralRef", "Eof"]


def xml(r, db, f, b, arms, other, vs, front):
    names = {}
    if vs:
        for i, v in enumerate(vs):
            names[int(v[1]) if v[1] is not None else i] = v[0]
    else:
        names = dict(enumerate(XML_NAMES))
    at = where(f, f.bbs[b]["t"][5])
    eof = [i for i, vn in names.items() if vn == "Eof"][0]
    T = f.r["T"]
    th = Threads(f)

    def uses(c):
        for a in c.args:
            if a[0] in ("cp", "mv"):
                ty = T.s(f.ty(a[1][0])) if not a[1][1] else "?"
                if ty.startswith("&mut") and "quick_xml::Reader" not in ty or "quick_xml::events::Bytes" in ty or ty == "?":
                    return True
        return False
    acts = {c.bb for c in f.calls() if lname(c.path) not in ("clear", "drop", "clone", "new", "default") and c.bb not in front and uses(c)}
    for i, vn in sorted(names.items()):
        if vn in NOT_DATA:
            continue
        tgt = arms.get(i, other)
        if vn == "Eof":
            # at the end of the input no further event may be asked for
            again = th.path(th.arm(b, i), set(front))
            r.ob("kinds:%s:Eof" % f.short, tgt is not None and again is None, "%s goes on reading at the end of the input: a document that ends too soon is never reported" % f.short, at)
        else:
            quiet = th.path(th.arm(b, i), set(front), acts - reads(f))
            r.ob("kinds:%s:%s" % (f.short, vn), tgt is not None and quiet is None, "%s passes over %s content: it is dropped from the document" % (f.short, vn), at)
    # the document is only complete once the end of the input was seen
    walls = set()
    for q in front:
        t = f.bbs[q]["t"]
        a = {int(x): y for x, y in t[3]}
        e = a.get(eof, t[4])
        if all(a.get(i, t[4]) != e for i, vn in names.items() if vn not in NOT_DATA and vn != "Eof"):
            walls.add(e)
    bad = [vn for i, vn in sorted(names.items()) if vn != "Eof" and arms.get(i, other) is not None and not only_errors(db, f, arms.get(i, other), walls, th, th.arm(b, i))]
    r.ob("whole:%s" % f.short, not bad, "%s can hand back a document after %s without having reached the end of the input: what follows is never read" % (f.short, ", ".join(bad)), at)


def reads(f):
    return {c.bb for c in f.calls() if "quick_xml" in c.path and lname(c.path).startswith("read_")}


def aborts(r, db, readers):
    n = 0
    for f in readers:
        if "yaml" in f.file:
            continue    # see below: judged for swallowing only, not compiled in this configuration
        for c in f.calls():
            nm = lname(c.path)
            p = c.path
            what = None
            if nm in ("unwrap", "expect", "unwrap_err", "expect_err") and ("Option" in p or "Result" in p):
                what = nm
            elif "panicking" in p and nm not in ("panic_const_async_fn_resumed",):
                what = "panic"
            elif nm in ("index", "index_mut") and "ops::Index" in p or nm in ("split_at", "split_at_mut", "copy_from_slice", "swap_remove", "split_off"):
                what = nm
            if what is None:
                continue
            n += 1
            src = producers(f, c.args[0]) if c.args else set()
            ok = any(src & ss for ss, _ in SAFE_SOURCES)
            if what == "panic":
                ok = dead_variant(db, f, c)
            if what == "split_at":
                ok = bool(producers(f, c.args[1]) & {"valid_up_to", "len", "find", "char_indices"})
            r.ob("abort:%s:%s:%s" % (f.short, what, "+".join(sorted(src))[:60]), ok, "%s can stop the program: %s of %s depends on what was read" % (f.short, what, "+".join(sorted(src)) or "a condition"), where(f, c.line))
        for b in sorted(f.reach):
            t = f.bbs[b]["t"]
            if t[0] == "assert" and t[6] and str(t[6][0]).startswith(("bounds", "div", "rem")):
                n += 1
                r.ob("abort:%s:%s" % (f.short, t[6][0]), const_index(f, t), "%s can stop the program: an index or divisor depends on what was read" % f.short, where(f, t[4]))
    r.count("operations of readers that could stop the program", n)


def const_index(f, t):
    return False


def producers(f, op, depth=6):
    """names of the calls an operand is computed from"""
    out = set()

    def go(e, d):
        if d <= 0 or not isinstance(e, tuple):
            return
        if e[0] == "call":
            nm = lname(e[1]) if isinstance(e[1], str) else ""
            if nm:
                out.add(nm)
                if nm == "new" and isinstance(e[1], str):
                    out.add(last(strip_generics(e[1]).rsplit("::", 1)[0]) + "::new")
        for x in e[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    go(x, d - 1)
                else:
                    for y in x:
                        go(y, d - 1)
            elif isinstance(x, list):
                for y in x:
                    go(y, d - 1)
    go(expr_of(f, op), depth)
    return out


def dead_variant(db, f, c):
    """SourceError::Files is an unknown file id, which is the caller's and not in the document"""
    return f.name == "file_id" and f.file.endswith("error.rs")
