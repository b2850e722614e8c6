"""D01: error codes."""
from db import *
import db as D
import os, re
import inl
from ceval import Eval, A, V, P, OpaqueV, TUP, SOME, NONE, Unknown
from prov import Prov
from flow import path, path_after
from rule import where

CODE = re.compile(r"^EU-[A-Z0-9]+(-[A-Z0-9]+)+$")
DIAG = "codespan_reporting::diagnostic::Diagnostic"


def lname(p):
    return last(strip_generics(p or ""))


def is_diag(T, i):
    t = T[T.peel(i)]
    return t["k"] == "adt" and t["p"].startswith("codespan_reporting::") and last(t["p"]) == "Diagnostic"


class Says(Eval):
    """constant propagation that remembers what is printed and answers one question about the options"""

    def __init__(self, db, asked):
        Eval.__init__(self, db)
        self.asked = asked      # code the user named
        self.out = []           # (stream, [pieces])

    def invoke(self, f, c, args):
        p = c["p"]
        n = lname(p)
        g = self.db.fns.get(c.get("r") or "")
        if g is not None and self.asked is not None and lname(self_name(self.db, g)) == "EucalyptOptions" and option_str(g):
            return SOME(self.asked)
        if n in ("_print", "_eprint"):
            self.out.append((n, texts(self, args)))
            return TUP()
        if n in ("write_fmt", "write_all", "write_str", "write"):
            self.out.append(("_print" if any("Stdout" in str(a) or "stdout" in repr(self.deref(a)) for a in args[:1]) else "_eprint", texts(self, args[1:])))
            return A("std::result::Result", 0, "Ok", [TUP()])
        if "fmt::" in p and ("Argument" in p) and n != "none":
            return A("fmt", 0, n, list(args))
        if "fmt" in p and n == "format":
            return "".join(texts(self, args))
        if "must_use" == n:
            return args[0]
        if n in ("eq_ignore_ascii_case", "contains", "find", "to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase", "trim", "strip_prefix", "strip_suffix"):
            d = [self.deref(a) for a in args]
            if isinstance(d[0], str):
                a = d[0]
                b = d[1] if len(d) > 1 else None
                if n == "eq_ignore_ascii_case" and isinstance(b, str):
                    return int(a.lower() == b.lower())
                if n == "contains" and isinstance(b, str):
                    return int(b in a)
                if n.endswith("uppercase"):
                    return a.upper()
                if n.endswith("lowercase"):
                    return a.lower()
                if n == "trim":
                    return a.strip()
                if n in ("strip_prefix", "strip_suffix") and isinstance(b, str):
                    ok = a.startswith(b) if n == "strip_prefix" else a.endswith(b)
                    return (SOME(a[len(b):] if n == "strip_prefix" else a[:len(a) - len(b)])) if ok else NONE()
        return Eval.invoke(self, f, c, args)


def texts(ev, vs, d=0):
    out = []
    for v in vs:
        v = ev.deref(v)
        if isinstance(v, str):
            out.append(v)
        elif d < 12 and isinstance(v, A):
            out += texts(ev, v.fs, d + 1)
        elif d < 12 and isinstance(v, V):
            out += texts(ev, list(v), d + 1)
    return out


def self_name(db, g):
    if not g.argc:
        return ""
    T = g.r["T"]
    t = T[T.peel(g.ty(1))]
    return t["p"] if t["k"] == "adt" else ""


def option_str(g):
    s = g.r["T"].s(g.ty(0))
    return g.argc == 1 and "Option<" in s and ("str" in s.lower())


def err_value(db, adt, k, payload=None):
    name, _, fields = db.adts[adt]["vars"][k]
    fs = [OpaqueV("payload") for _ in fields]
    if payload is not None:
        for i in range(len(fields)):
            if self_payload(db, adt, k) == i:
                fs[i] = payload
    return A(adt, k, name, fs)


def self_payload(db, adt, k):
    T = types_of(db, adt)
    for i, (_, t) in enumerate(db.adts[adt]["vars"][k][2]):
        x = T[T.peel(t)]
        if x["k"] == "adt" and x["p"] == adt:
            return i
    return None


def types_of(db, adt):
    return db.adts[adt]["T"] if "T" in db.adts[adt] else db.types(adt)


def d01(r, db):
    r.rules.append("every value given to Diagnostic::with_code is the result of a method evaluated for every variant of its error type; the codes so found are exactly the codes of the catalogue (each entered once, each entry headed by its own code) and of the documentation's headings; a variant wrapping the same error type has the code of what it wraps; the code survives to every diagnostic returned and to the JSON form; the catalogue command prints exactly the entry of the code asked for and fails for any other")
    r.assumptions.append("codespan renders the code of a diagnostic it is given")
    P_ = Prov(db)
    # --- where codes enter diagnostics
    codefns = {}
    attach = []
    for f in db.fns.values():
        if not f.id.startswith("eucalypt::"):
            continue
        for c in f.calls():
            if lname(c.path) == "with_code" and "Diagnostic" in c.path:
                attach.append((f, c))
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "code" and last(str(s[1][1][-1][3])) == "Diagnostic":
                    r.ob("overwrite:%s" % f.short, False, "the code field of a diagnostic is assigned directly in %s" % f.short, where(f, s[3]))
    r.floor("places where a code is attached to a diagnostic", len(attach), 1)
    for f, c in attach:
        for g in code_source(db, f, c.args[1]):
            codefns[g.id] = g
        ok = bool(code_source(db, f, c.args[1]))
        r.ob("attach:%s" % f.short, ok, "the code attached in %s is not the result of the error type's own code method" % f.short, where(f, c.line))
    # --- codes per variant
    can = {}
    for gid, g in sorted(codefns.items()):
        adt = self_name(db, g)
        if adt not in db.adts:
            continue
        vals = {}
        n = len(db.adts[adt]["vars"])
        for k in range(n):
            vn = db.adts[adt]["vars"][k][0]
            if self_payload(db, adt, k) is not None:
                continue
            v = ev_code(db, g, err_value(db, adt, k))
            vals[k] = v
            ok = v is None or (isinstance(v, str) and CODE.match(v))
            r.ob("code:%s::%s" % (last(adt), vn), bool(ok), "the code of %s::%s is %r, not a constant code" % (last(adt), vn, v), where(g))
            if isinstance(v, str):
                can.setdefault(v, []).append("%s::%s" % (last(adt), vn))
        for k in range(n):
            if self_payload(db, adt, k) is None:
                continue
            vn = db.adts[adt]["vars"][k][0]
            for j, want in vals.items():
                inner = err_value(db, adt, j)
                got = ev_code(db, g, err_value(db, adt, k, inner))
                r.ob("wrapped:%s::%s(%s)" % (last(adt), vn, db.adts[adt]["vars"][j][0]), got == want, "%s::%s around %s has code %r, the error inside has %r" % (last(adt), vn, db.adts[adt]["vars"][j][0], got, want), where(g))
                if want is not None:
                    twice = ev_code(db, g, err_value(db, adt, k, err_value(db, adt, k, inner)))
                    r.ob("wrapped2:%s::%s(%s)" % (last(adt), vn, db.adts[adt]["vars"][j][0]), twice == want, "wrapped twice, the code is %r instead of %r" % (twice, want), where(g))
    r.floor("codes that can occur", len(can), 4)
    # --- the catalogue
    cat, cf = catalogue_of(db)
    seen = {}
    for code, text in cat:
        r.ob("entry-once:%s" % code, code not in seen, "the catalogue has two entries for %s" % code, where(cf))
        seen[code] = text
        r.ob("entry-live:%s" % code, code in can, "the catalogue describes %s, which no error carries" % code, where(cf))
        head = re.match(r"\s*(EU-[A-Z0-9-]+)", text or "")
        r.ob("entry-head:%s" % code, bool(head) and head.group(1) == code, "the catalogue entry for %s is headed %r" % (code, (text or "")[:40]), where(cf))
        r.ob("entry-text:%s" % code, len((text or "").split("\n")) > 3, "the catalogue entry for %s explains nothing" % code, where(cf))
    r.floor("catalogue entries", len(cat), 4)
    for code, by in sorted(can.items()):
        r.ob("catalogued:%s" % code, code in seen, "%s (of %s) has no catalogue entry" % (code, ", ".join(by)), where(cf))
    # --- the reference
    p = os.path.join(os.environ.get("EU_REPO", "/repo"), "docs/reference/error-codes.md")
    try:
        doc = open(p, encoding="utf-8").read()
    except OSError as e:
        raise AnchorLost("docs/reference/error-codes.md: %s" % e)
    heads = re.findall(r"(?m)^#+\s+`?(EU-[A-Z0-9-]+)`?", doc)
    for code in sorted(set(can) | set(seen)):
        r.ob("documented:%s" % code, heads.count(code) == 1, "%s has %d sections in docs/reference/error-codes.md" % (code, heads.count(code)), "docs/reference/error-codes.md")
    for code in sorted(set(heads)):
        r.ob("doc-live:%s" % code, code in can, "the reference documents %s, which no error carries" % code, "docs/reference/error-codes.md")
    # --- the command
    runs = [f for f in db.fns.values() if f.kind == "fn" and f.file == cf.file and f.argc == 1 and "EucalyptOptions" in f.r["T"].s(f.ty(1)) and "Result<i32" in f.r["T"].s(f.ty(0))]
    if not runs:
        raise AnchorLost("the command that prints catalogue entries")
    for f in runs:
        asks = [(c, t) for c, t in cat] + [(x, None) for c, _ in cat for x in (c[:-1], c + "X", c.split("-", 1)[1])] + [("EU", None), ("EU-NONE-SUCH", None), ("", None)]
        for code, want in asks:
            if want is None and code in seen:
                continue
            try:
                ev = Says(db, code)
                res = ev.run(f, [OpaqueV("options")])
                st = ev.deref(res.fs[0]) if isinstance(res, A) and res.vn == "Ok" else "error"
                said = " ".join(x for s, xs in ev.out if s == "_print" for x in xs)
            except Unknown as e:
                r.ob("explain:%s" % code, False, "what `eu error %s` does cannot be followed: %s" % (code, e), where(f))
                continue
            if want is None:
                r.ob("unknown:%s" % code, st not in (0,) and not any(t in said for _, t in cat), "`eu error %s` succeeds although there is no such code" % code, where(f))
            else:
                r.ob("explain:%s" % code, st == 0 and want in said and not any(t in said for c, t in cat if c != code), "`eu error %s` does not print that code's entry and succeed (status %s)" % (code, st), where(f))
    # --- the code survives
    survive(r, db, codefns, attach)
    delegate(r, db)
    json_form(r, db, P_)


def ev_code(db, g, v):
    try:
        e = Eval(db)
        x = e.deref(e.run(g, [P({0: v}, 0, [])]))
    except Unknown as ex:
        return ("?", str(ex))
    if not isinstance(x, A) or x.vn not in ("Some", "None"):
        return ("?", repr(x))
    return None if x.vn == "None" else e.deref(x.fs[0])


def code_source(db, f, op, depth=8):
    """methods whose Option<&str> result reaches this operand through unwrapping only"""
    out = set()
    seen = set()

    def go(e, d):
        if d <= 0 or str(e) in seen:
            return
        seen.add(str(e))
        k = e[0]
        if k in ("ref", "deref", "cast", "pcast"):
            go(e[1], d)
        elif k == "as":
            go(e[2], d)
        elif k == "field":
            go(e[2], d)
        elif k == "local":
            for b, i, rv in f.defs().get(e[1], []):
                if i == "t":
                    go(("call", Call(f, b, rv).rpath, tuple(expr_of(f, a) for a in rv[2]), (b,)), d - 1)
                elif i != "a":
                    go(rv_expr(f, rv), d - 1)
        elif k == "call":
            g = db.fns.get(e[1] or "")
            if g is not None:
                T = g.r["T"]
                if g.argc == 1 and T.s(g.ty(0)).startswith("std::option::Option<&str") or "Option<&'static str" in T.s(g.ty(0)):
                    out.add(g)
                return
            for a in e[2][:1]:
                go(a, d - 1)
    go(expr_of(f, op), depth)
    if not out and f.kind == "closure":
        # the code handed to a closure by Option::map and the like
        par = db.fns.get(f.id.rsplit("::{closure", 1)[0])
        if par is not None:
            for c in par.calls():
                g = db.fns.get(c.rpath or "")
                if g is not None and g.argc == 1 and "Option<&" in g.r["T"].s(g.ty(0)) and "str" in g.r["T"].s(g.ty(0)):
                    out.add(g)
    return out


def catalogue_of(db):
    best = None
    for f in db.fns.values():
        if f.kind in ("const", "static") and f.file.startswith("src/driver/"):
            s = f.r["T"].s(f.ty(0))
            if "(&str,&str)" in s.replace(" ", ""):
                try:
                    ev = Eval(db)
                    v = ev.deref(ev.run(f, []))
                    rows = [tuple(ev.deref(x) for x in ev.deref(row).fs) for row in v]
                except Unknown as e:
                    continue
                if rows and all(isinstance(a, str) and a.startswith("EU-") for a, _ in rows):
                    if best is None or len(rows) > len(best[0]):
                        best = (rows, f)
    if best is None:
        raise AnchorLost("the constant catalogue of error codes")
    return best


# ------------------------------------------------------------- survival
def survive(r, db, codefns, attach):
    """in every function that makes diagnostics of a coded error, the code that was found is attached and is not lost again"""
    n = 0
    for adt in sorted({self_name(db, g) for g in codefns.values()}):
        for f in db.fns.values():
            T = f.r["T"]
            if f.kind == "closure" or not f.argc or self_name(db, f) != adt or not is_diag(T, f.ty(0)):
                continue
            n += 1
            x = inl.expand(f, lambda g: g.crate == f.crate and g.kind != "closure" and not (self_name(db, g) == adt and is_diag(g.r["T"], g.ty(0))) and any(c.rpath and lname(c.path) == "with_code" for c in g.calls()), 3, True, "d01" + adt)
            calls = [c for c in x.calls() if (c.rpath or "") in codefns]
            att = {c.bb for c in x.calls() if lname(c.path) == "with_code"}
            other = {c.bb for c in x.calls() if (c.rpath or "") in db.fns and c.rpath != f.id and is_diag(db.fns[c.rpath].r["T"], db.fns[c.rpath].ty(0)) and (self_name(db, db.fns[c.rpath]) == adt or (self_name(db, db.fns[c.rpath]) and lname(c.path) == lname(f.id)))}
            att |= {c.bb for c in x.calls() if (c.rpath or "") in db.fns and c.rpath != f.id and self_name(db, db.fns[c.rpath]) == adt and is_diag(db.fns[c.rpath].r["T"], db.fns[c.rpath].ty(0))}
            r.ob("asks-code:%s" % f.short, bool(calls or other), "%s makes a diagnostic without asking for the error's code" % f.short, where(f))
            rets = set(x.returns())
            p = path(x, 0, rets, {c.bb for c in calls} | other)
            r.ob("always-asks:%s" % f.short, p is None, "a path through %s returns a diagnostic without asking for the error's code" % f.short, where(f))
            for c in calls:
                # the branch in which a code was found
                some = some_edges(x, c)
                r.ob("code-tested:%s" % f.short, bool(some) or not att, "the code found in %s is not looked at" % f.short, where(f, c.line))
                for (a, b) in some:
                    q = path(x, b, rets, att)
                    r.ob("code-attached:%s" % f.short, q is None, "a path through %s has a code and returns a diagnostic it was not attached to" % f.short, where(f, c.line))
            # lost again: a diagnostic not built from the coded one replaces it
            chain = diag_chain(x)
            for a in att:
                for l in chain:
                    for b, i, rv in x.defs().get(l, []):
                        if b == a or i == "a" or b < 0:
                            continue
                        if from_chain(x, b, i, rv, chain):
                            continue
                        if path_after(x, a, {b}) is not None:
                            r.ob("kept:%s" % f.short, False, "after its code was attached, the diagnostic in %s is replaced by a new one" % f.short, where(f, x.bbs[b]["t"][5] if i == "t" else None))
            r.ob("chain:%s" % f.short, bool(chain), "the diagnostic returned by %s cannot be followed" % f.short, where(f))
    r.floor("functions making diagnostics of coded errors", n, 1)


def some_edges(x, c):
    out = []
    l = c.dest[0]
    als = {l}
    for b in sorted(x.reach):
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and not s[2][1][1][1] and s[2][1][1][0] in als and not s[1][1]:
                als.add(s[1][0])
    for b in x.reach:
        t = x.bbs[b]["t"]
        if t[0] != "switch" or t[1][0] == "c":
            continue
        d = t[1][1][0]
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and s[1] == [d, []] and s[2][0] == "discr" and s[2][1][0] in als and not s[2][1][1]:
                for v, to in t[3]:
                    if int(v) == 1:
                        out.append((b, to))
                if not any(int(v) == 1 for v, _ in t[3]):
                    out.append((b, t[4]))
    return out


def diag_chain(x):
    """locals of Diagnostic type that the returned value is built from"""
    T = x.r["T"]
    seen = set()
    st = [0]
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        for b, i, rv in x.defs().get(l, []):
            ops = rv[2] if i == "t" else operands(rv) if i != "a" else []
            for o in ops:
                if o[0] in ("cp", "mv") and is_diag(T, x.ty(o[1][0])):
                    st.append(o[1][0])
            if i not in ("t", "a"):
                for pl in rv_places(rv):
                    if is_diag(T, x.ty(pl[0])):
                        st.append(pl[0])
    return {l for l in seen if is_diag(T, x.ty(l))}


def from_chain(x, b, i, rv, chain):
    ops = rv[2] if i == "t" else operands(rv)
    pls = [o[1][0] for o in ops if o[0] in ("cp", "mv")] + ([] if i == "t" else [p[0] for p in rv_places(rv)])
    return any(p in chain for p in pls)


# ------------------------------------------------------------- delegation
def delegate(r, db):
    """an error type that wraps another one with a diagnostic form of its own uses that form"""
    forms = {}
    for f in db.fns.values():
        if f.kind in ("fn", "method", "assoc") or f.kind != "closure":
            if f.argc and is_diag(f.r["T"], f.ty(0)) and f.name == "to_diagnostic" and self_name(db, f) in db.adts:
                forms[self_name(db, f)] = f
    n = 0
    for adt, f in sorted(forms.items()):
        if db.adts[adt]["kind"] != "enum":
            continue
        T = types_of(db, adt)
        for k, (vn, _, fields) in enumerate(db.adts[adt]["vars"]):
            for fn_, t in fields:
                x = T[T.peel(t)]
                if x["k"] == "adt" and x["p"] in forms and x["p"] != adt:
                    if not coded(db, forms, x["p"]):
                        continue
                    n += 1
                    r.ob("delegates:%s::%s" % (last(adt), vn), variant_calls(db, f, k, forms[x["p"]].id), "a %s inside %s::%s can be turned into a diagnostic without its own form, losing its code" % (last(x["p"]), last(adt), vn), where(f))
    r.floor("wrapped error types with coded diagnostics", n, 1)


def coded(db, forms, adt, seen=()):
    f = forms[adt]
    if adt in seen:
        return False
    if any(lname(c.path) == "with_code" for g in [f] + [db.fns[t] for c in f.calls() for t in db.targets(c)] for c in g.calls()):
        return True
    T = types_of(db, adt)
    return any(T[T.peel(t)]["k"] == "adt" and T[T.peel(t)]["p"] in forms and T[T.peel(t)]["p"] != adt and coded(db, forms, T[T.peel(t)]["p"], seen + (adt,)) for _, _, fs in db.adts[adt]["vars"] for _, t in fs)


def variant_calls(db, f, k, goal):
    """with self of variant k, every path to return calls goal"""
    x = inl.comb(f)
    cut = set()
    for b in x.reach:
        t = x.bbs[b]["t"]
        if t[0] != "switch" or t[1][0] == "c":
            continue
        d = t[1][1][0]
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and s[1] == [d, []] and s[2][0] == "discr" and self_place(x, s[2][1]):
                to = next((y for v, y in t[3] if int(v) == k), t[4])
                for y in x.succ(b):
                    if y != to:
                        cut.add((b, y))
    good = {c.bb for c in x.calls() if c.rpath == goal or (c.rpath in db.fns and any(c2.rpath == goal for c2 in db.fns[c.rpath].calls()))}
    return path(x, 0, set(x.returns()), good, cut) is None


def self_place(x, pl):
    e = place_expr(x, pl)
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e == ("arg", 1)


# ------------------------------------------------------------- JSON
def json_form(r, db, P_):
    adts = [a for a in db.adts if last(a) == "JsonDiagnostic"]
    if not adts:
        raise AnchorLost("the JSON form of a diagnostic")
    n = 0
    for adt in adts:
        fields = [x[0] for x in db.adts[adt]["vars"][0][2]]
        if "code" not in fields:
            r.ob("json-field", False, "the JSON form of a diagnostic has no code", adt)
            continue
        ix = fields.index("code")
        for f in db.fns.values():
            if not f.id.startswith("eucalypt::") or "Deserialize" in f.id or "::tests" in f.id or "Clone" in f.id:
                continue
            for b in f.reach:
                for s in f.bbs[b]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "adt" and s[2][1].get("p") == adt:
                        n += 1
                        fs = P_.of(f, s[2][2][ix])
                        has = any(x[0] == "field" and x[1] == "Diagnostic" and x[2] == "code" for x in fs) or reads_code(f, s[2][2][ix])
                        fnl = f.short
                        src = coded_input(db, f)
                        r.ob("json-code:%s" % fnl, has or not src, "the JSON diagnostic built in %s does not carry the code of the diagnostic it is built from" % fnl, where(f, s[3]))
    r.floor("JSON diagnostics built", n, 1)


def reads_code(f, op):
    def go(e, d):
        if d <= 0 or not isinstance(e, tuple) or not e:
            return False
        if e[0] == "field" and e[1] == "code" and (len(e) < 4 or last(str(e[3])) == "Diagnostic"):
            return True
        return any(go(y, d - 1) for y in e if isinstance(y, tuple)) or any(go(z, d - 1) for y in e if isinstance(y, tuple) for z in y if isinstance(z, tuple))
    return go(expr_of(f, op), 10)


def coded_input(db, f):
    """does f hold a codespan diagnostic it could take the code from?"""
    T = f.r["T"]
    return any(is_diag(T, t) for t, _ in f.locals)
