"""Where a value comes from, across functions: the set of leaves (fields, named
calls, constants, parameters with no callers) an operand's value is built from."""
from db import *
from gate import index_sites

# external calls that hand their argument through unchanged (for exactness)
SAME = {"as_ref", "as_mut", "as_deref", "as_deref_mut", "deref", "deref_mut", "borrow", "borrow_mut", "clone", "cloned", "copied", "to_owned", "to_path_buf",
        "as_path", "into", "from", "as_str", "as_os_str", "unwrap", "expect", "unwrap_or_default", "ok_or_else", "ok_or", "map_err", "branch", "as_bytes", "to_string",
        "into_boxed_path", "into_path_buf", "to_vec", "as_slice", "iter", "into_iter", "next", "by_ref", "unwrap_unchecked", "new", "into_inner", "get", "get_ref", "take"}


class Prov:
    def __init__(self, db, stop=None, maxdepth=40):
        self.db = db
        self.sites = index_sites(db)
        self.stop = stop or (lambda f, e: None)   # -> leaf tuple to stop at
        self._ctor = None

    def of(self, f, op, depth=14):
        out = set()
        self._op(f, op, out, set(), (), depth)
        return out

    def _op(self, f, op, out, seen, stack, d):
        self._e(f, expr_of(f, op), out, seen, stack, d)

    def _e(self, f, e, out, seen, stack, d):
        if d <= 0:
            out.add(("deep",))
            return
        key = (f.id, e if len(str(e)) < 400 else id(e), stack[-1:] )
        try:
            if key in seen:
                return
            seen.add(key)
        except TypeError:
            pass
        s = self.stop(f, e)
        if s is not None:
            out.add(s)
            return
        k = e[0]
        if k in ("const", "str", "static", "kconst"):
            out.add((k, e[1] if len(e) > 1 else None))
        elif k == "fnc":
            out.add(("fnc", e[1]))
        elif k in ("deref", "ref"):
            self._e(f, e[1], out, seen, stack, d)
        elif k in ("cast", "pcast"):
            self._e(f, e[1], out, seen, stack, d)
        elif k == "bin":
            self._e(f, e[2], out, seen, stack, d)
            self._e(f, e[3], out, seen, stack, d)
        elif k == "un":
            self._e(f, e[2], out, seen, stack, d)
        elif k == "as":
            self._e(f, e[2], out, seen, stack, d)
        elif k in ("index", "cindex", "subslice", "discr", "proj"):
            self._e(f, e[1], out, seen, stack, d)
        elif k == "repeat":
            self._e(f, e[1], out, seen, stack, d)
        elif k == "agg":
            for x in e[2]:
                self._e(f, x, out, seen, stack, d)
        elif k == "field":
            b = e[2]
            while b[0] in ("deref", "ref", "as"):
                b = b[1] if b[0] != "as" else b[2]
            owner = e[3] if len(e) > 3 else None
            if b[0] == "arg" and f.kind == "closure" and b[1] == 1 and (owner is None or "closure" in str(owner)):
                self._capture(f, e[1], out, seen, stack, d)
                return
            if owner and owner in self.db.adts and self.db.adts[owner]["kind"] == "struct":
                out.add(("field", last(owner), e[1]))
                return
            if owner and e[2][0] == "as" and owner in self.db.adts:
                out.add(("vfield", last(owner), e[2][1], e[1]))
            self._e(f, e[2], out, seen, stack, d)
        elif k == "arg":
            self._arg(f, e[1], out, seen, stack, d)
        elif k == "local":
            self._local(f, e[1], out, seen, stack, d)
        elif k == "call":
            self._call(f, e, out, seen, stack, d)
        else:
            out.add(("?", k))

    def _arg(self, f, i, out, seen, stack, d):
        if stack and stack[-1][0] == f.id:
            _, g, args, rest = stack[-1]
            if i - 1 < len(args):
                self._e(g, args[i - 1], out, seen, stack[:-1], d - 1)
                return
        if f.kind == "closure":
            if i == 1:
                out.add(("env", f.id))
            else:
                # parameters of a closure: whatever the call that takes the closure works on
                for a, b in self.sites.get(f.id, ()):
                    self._closure_user(self.db.fns[a], f.id, out, seen, d)
            return
        n = 0
        for a, b in self.sites.get(f.id, ()):
            g = self.db.fns[a]
            t = g.bbs[b]["t"]
            if t[0] == "call" and len(t[2]) >= i and any(x == f.id for x in self.db.targets(Call(g, b, t))):
                n += 1
                self._op(g, t[2][i - 1], out, seen, (), d - 1)
        if not n:
            out.add(("param", f.id, i))

    def _closure_user(self, g, cid, out, seen, d):
        """the other arguments of calls in g that are passed closure cid"""
        for c in g.calls():
            hit = False
            for a in c.args:
                e = expr_of(g, a)
                if e[0] == "agg" and e[1][0] == "closure" and e[1][1] == cid or (a[0] == "c" and g.r["T"][a[1]["t"]].get("p") == cid if a[0] == "c" and "t" in a[1] else False):
                    hit = True
            if hit:
                for a in c.args:
                    e = expr_of(g, a)
                    if not (e[0] == "agg" and e[1][0] == "closure"):
                        self._e(g, e, out, seen, (), d - 1)

    def _capture(self, f, idx, out, seen, stack, d):
        parent = self.db.fns.get(f.id.rsplit("::{closure", 1)[0])
        hit = False
        if parent is not None:
            for b in parent.reach:
                for s in parent.bbs[b]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1]["k"] == "closure" and s[2][1]["p"] == f.id:
                        try:
                            op = s[2][2][int(idx)] if not isinstance(idx, str) or idx.isdigit() else None
                        except (ValueError, IndexError):
                            op = None
                        for o in ([op] if op is not None else s[2][2]):
                            hit = True
                            self._op(parent, o, out, seen, (), d - 1)
        if not hit:
            out.add(("capture", f.id, idx))

    def _local(self, f, l, out, seen, stack, d):
        if ("L", f.id, l, stack[-1:]) in seen:
            return
        seen.add(("L", f.id, l, stack[-1:]))
        for b, i, rv in f.defs().get(l, []):
            if i == "a":
                self._arg(f, l, out, seen, stack, d)
            elif i == "t":
                c = Call(f, b, rv)
                self._e(f, ("call", c.rpath, tuple(expr_of(f, a) for a in c.args), (b,)), out, seen, stack, d)
            else:
                self._e(f, rv_expr(f, rv), out, seen, stack, d)
        self._mutators(f, l, out, seen, stack, d)

    def _mutators(self, f, l, out, seen, stack, d):
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[1][0] == l and s[1][1]:
                    self._e(f, rv_expr(f, s[2]), out, seen, stack, d)
        for c in f.calls():
            for j, a in enumerate(c.args):
                if a[0] in ("cp", "mv") and self._mutref(f, a, l):
                    for m, o in enumerate(c.args):
                        if m != j:
                            self._op(f, o, out, seen, stack, d)

    def _mutref(self, f, a, l):
        T = f.r["T"]
        if a[1][1]:
            return False
        t = T[f.ty(a[1][0])]
        if t["k"] not in ("ref", "ptr") or not t["m"]:
            return False
        e = expr_of(f, a)
        while e[0] in ("ref", "deref", "field", "as"):
            e = e[1] if e[0] in ("ref", "deref") else e[2]
        return e == ("local", l)

    def _call(self, f, e, out, seen, stack, d):
        if len(e) > 3 and e[3]:
            c = next((c for c in f.calls() if c.bb == e[3][0]), None)
            ts = self.db.targets(c) if c else []
        else:
            ts = [e[1]] if e[1] in self.db.fns else []
        if not ts:
            out.add(("ext", strip_generics(e[1] or "")))
            for a in e[2]:
                self._e(f, a, out, seen, stack, d)
            # values built by a call through a destination that is then mutated
            if len(e) > 3:
                c = next((c for c in f.calls() if c.bb == e[3][0]), None)
                if c is not None and not c.dest[1] and ("M", f.id, c.dest[0]) not in seen:
                    seen.add(("M", f.id, c.dest[0]))
                    self._mutators1(f, c.dest[0], out, seen, stack, d)
            return
        for t in ts:
            g = self.db.fns[t]
            out.add(("fn", short(t)))
            if any(s[0] == t for s in stack) or len(stack) > 6:
                for a in e[2]:
                    self._e(f, a, out, seen, stack, d)
                continue
            self._local(g, 0, out, seen, stack + ((t, f, e[2], None),), d - 1)

    def _mutators1(self, f, l, out, seen, stack, d):
        # follow `let mut x = call(); x.push(..)`: x is single-definition so expr_of inlines it
        for c in f.calls():
            for j, a in enumerate(c.args):
                if a[0] in ("cp", "mv") and not a[1][1]:
                    t = f.r["T"][f.ty(a[1][0])]
                    if t["k"] == "ref" and t["m"]:
                        ds = f.defs().get(a[1][0], [])
                        if len(ds) == 1 and ds[0][1] not in ("t", "a") and ds[0][2][0] == "ref" and ds[0][2][2][0] == l:
                            for m, o in enumerate(c.args):
                                if m != j:
                                    self._op(f, o, out, seen, stack, d)


def exact(f, e, ok, db, depth=12, stack=()):
    """e is (a borrow / clone / unwrapped payload of) an expression accepted by ok(f, e),
    looking through pass-through calls, local helper functions and parameters (all callers)."""
    if depth <= 0:
        return False
    if ok(f, e):
        return True
    k = e[0]
    if k in ("ref", "deref", "cast", "pcast"):
        return exact(f, e[1], ok, db, depth - 1, stack)
    if k == "as":
        return exact(f, e[2], ok, db, depth - 1, stack)
    if k == "field" and e[2][0] == "as" and e[2][1] in ("Some", "Ok", "Continue"):
        return exact(f, e[2][2], ok, db, depth - 1, stack)
    if k == "field":
        return False
    if k == "call":
        ts = [t for c in f.calls() if len(e) > 3 and c.bb == e[3][0] for t in db.targets(c)]
        if ts:
            return all(_ret_exact(db.fns[t], ok, db, depth - 1) for t in ts)
        return last(strip_generics(e[1] or "")) in SAME and bool(e[2]) and exact(f, e[2][0], ok, db, depth - 1, stack)
    if k == "local":
        ds = [x for x in f.defs().get(e[1], []) if x[0] in f.reach]
        return bool(ds) and all(exact(f, ("call", Call(f, b, rv).rpath, tuple(expr_of(f, a) for a in rv[2]), (b,)) if i == "t" else rv_expr(f, rv), ok, db, depth - 1, stack) for b, i, rv in ds)
    if k == "arg":
        if f.kind == "closure":
            return False
        cs = [(db.fns[a], b) for a, b in index_sites(db).get(f.id, ())]
        cs = [(g, g.bbs[b]["t"]) for g, b in cs if g.bbs[b]["t"][0] == "call" and f.id in db.targets(Call(g, b, g.bbs[b]["t"]))]
        if not cs or (f.id, e[1]) in stack:
            return False
        return all(len(t[2]) >= e[1] and exact(g, expr_of(g, t[2][e[1] - 1]), ok, db, depth - 1, stack + ((f.id, e[1]),)) for g, t in cs)
    return False


def _ret_exact(g, ok, db, depth):
    ds = [x for x in g.defs().get(0, []) if x[0] in g.reach]
    return bool(ds) and all(exact(g, ("call", Call(g, b, rv).rpath, tuple(expr_of(g, a) for a in rv[2]), (b,)) if i == "t" else rv_expr(g, rv), ok, db, depth) for b, i, rv in ds)
