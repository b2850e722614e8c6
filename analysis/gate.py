"""Decides whether a program point is reachable only where a given condition is
known to hold ("gated"): per-function over control-flow edges whose branch
implies the condition, through helpers returning booleans/Results, and across
callers."""
from collections import defaultdict, deque
from inl import comb
from db import expr_of, rv_expr, local_expr, place_expr, last, strip_generics, operands, normal_succ

FAM = {"Ok": "r", "Err": "r", "Some": "o", "None": "o", "Continue": "c", "Break": "c"}
KEEP = ("map", "and_then", "map_err", "ok_or", "ok_or_else", "inspect", "copied", "cloned", "as_ref", "as_deref", "as_mut", "filter", "ok", "into", "from", "take", "then", "then_some", "transpose", "flatten", "and", "zip")


def other(have, want):
    """a value built as variant `have` is certainly not variant `want` (of the same type)"""
    return have != want and FAM.get(have) == FAM.get(want)


def index_sites(db):
    """callee id -> [(fn, bb)] of every place that calls it, builds it as a closure or takes its address"""
    if getattr(db, "_sites", None) is not None:
        return db._sites
    s = defaultdict(set)
    tim = db.trait_impl_methods()
    for f in db.fns.values():
        for c in f.calls():
            for t in db.targets(c):
                s[t].add((f.id, c.bb))
        for b in f.reach:
            bb = f.bbs[b]

            def op(o):
                if o[0] == "c" and "fn" in o[1]:
                    fn = o[1]["fn"]
                    p = fn.get("r") if fn.get("rk") in ("item", "shim") and fn.get("r") else fn["p"]
                    if p in db.fns:
                        s[p].add((f.id, b))
                    else:
                        for x in tim.get(p, []):
                            s[x].add((f.id, b))
            for st in bb["s"]:
                if st[0] == "=":
                    for o in operands(st[2]):
                        op(o)
                    if st[2][0] == "agg" and st[2][1]["k"] == "closure":
                        s[st[2][1]["p"]].add((f.id, b))
            if bb["t"][0] == "call":
                for a in bb["t"][2]:
                    op(a)
        T = f.r["T"]
        for t, _ in f.locals:
            ty = T[t]
            if ty["k"] == "closure" and ty["p"] in db.fns and not any(x[0] == f.id for x in s[ty["p"]]):
                s[ty["p"]].add((f.id, 0))
    db._sites = s
    return s


class Gate:
    """atom(fn, expr) -> True: expr true implies the condition; False: expr false implies it; None: neither.
    vatom(fn, expr, variant) -> True when expr being that variant implies it."""

    def __init__(self, db, atom, vatom=None):
        self.db, self.atom, self.vatom = db, atom, vatom or (lambda f, e, v: False)
        self.sites = index_sites(db)
        self._pp = {}
        self._open = {}
        self._so = {}
        self.entry_ok = lambda f: False     # an entry point that needs no gate

    # -- does (e == val) imply the condition?
    def implied(self, f, e, val, ctx=None, depth=10):
        if depth <= 0:
            return False
        a = self.atom(f, e)
        if a is not None and a == val:
            return True
        k = e[0]
        if k == "const":
            return False
        if k == "un" and e[1] == "Not":
            return self.implied(f, e[2], not val, ctx, depth - 1)
        if k in ("deref", "ref"):
            return self.implied(f, e[1], val, ctx, depth - 1)
        if k == "bin":
            op, x, y = e[1], e[2], e[3]
            if op == "BitAnd" and val:
                return self.implied(f, x, True, ctx, depth - 1) or self.implied(f, y, True, ctx, depth - 1)
            if op == "BitOr" and not val:
                return self.implied(f, x, False, ctx, depth - 1) or self.implied(f, y, False, ctx, depth - 1)
            if op == "BitAnd" and not val:
                return self.implied(f, x, False, ctx, depth - 1) and self.implied(f, y, False, ctx, depth - 1)
            if op == "BitOr" and val:
                return self.implied(f, x, True, ctx, depth - 1) and self.implied(f, y, True, ctx, depth - 1)
            if op in ("Eq", "Ne"):
                for p, q in ((x, y), (y, x)):
                    if q[0] == "const" and q[1] in (0, 1, "0", "1", True, False, "true", "false"):
                        c = q[1] in (1, "1", True, "true")
                        w = c if (op == "Eq") == val else (not c)
                        return self.implied(f, p, w, ctx, depth - 1)
        if k == "arg":
            if ctx is not None and e[1] in ctx:
                return ctx[e[1]](val)
            return self.param(f, e[1], val)
        if k == "local":
            ds = f.defs().get(e[1], [])
            if not ds:
                return False
            for b, i, rv in ds:
                if b not in f.reach:
                    continue
                if i == "t":
                    x = local_expr_of_call(f, b)
                else:
                    x = rv_expr(f, rv)
                cv = const_bool(x)
                if cv is not None and cv != val:
                    continue
                if self.guarded(f, b, ctx, depth - 1):
                    continue
                if cv is not None or not self.implied(f, x, val, ctx, depth - 1):
                    return False
            return True
        if k == "call":
            n = last(strip_generics(e[1] or ""))
            if n in ("is_some", "is_ok") and e[2]:
                return self.variant(f, e[2][0], ("Some" if n == "is_some" else "Ok"), ctx, depth - 1) if val else self.variant(f, e[2][0], ("None" if n == "is_some" else "Err"), ctx, depth - 1)
            if n in ("is_none", "is_err") and e[2]:
                return self.variant(f, e[2][0], ("None" if n == "is_none" else "Err"), ctx, depth - 1) if val else self.variant(f, e[2][0], ("Some" if n == "is_none" else "Ok"), ctx, depth - 1)
            if n == "not" and e[2]:
                return self.implied(f, e[2][0], not val, ctx, depth - 1)
            if n in ("eq", "ne") and len(e[2]) == 2:
                return self.implied(f, ("bin", "Eq" if n == "eq" else "Ne", strip(e[2][0]), strip(e[2][1])), val, ctx, depth - 1)
            if n in ("unwrap_or", "unwrap_or_default") and e[2] and val:
                return False
            ts = [self.db.fns[t] for t in self.call_targets(f, e)]
            return bool(ts) and all(self.returns(g, val, self.ctx_for(f, e, ctx, depth), depth - 1) for g in ts)
        if k == "field":
            return False
        return False

    def call_targets(self, f, e):
        if len(e) > 3:
            for c in f.calls():
                if c.bb == e[3][0]:
                    return [t for t in self.db.targets(c)]
        return [e[1]] if e[1] in self.db.fns else []

    def ctx_for(self, f, e, ctx, depth):
        out = {}
        for i, a in enumerate(e[2]):
            out[i + 1] = (lambda val, a=a: self.implied(f, a, val, ctx, depth - 1))
        return out

    def returns(self, g, val, ctx, depth):
        """does g returning `val` imply the condition?"""
        g = comb(g)
        if depth <= 0:
            return False
        for b, i, rv in g.defs().get(0, []):
            if b not in g.reach:
                continue
            x = local_expr_of_call(g, b) if i == "t" else rv_expr(g, rv)
            cv = const_bool(x)
            if cv is not None and cv != val:
                continue
            if self.guarded(g, b, ctx, depth - 1):
                continue
            if cv is not None or not self.implied(g, x, val, ctx, depth - 1):
                return False
        return True

    # -- does (e is variant v) imply the condition?
    def variant(self, f, e, v, ctx=None, depth=10):
        if depth <= 0:
            return False
        if self.vatom(f, e, v):
            return True
        k = e[0]
        if k in ("deref", "ref"):
            return self.variant(f, e[1], v, ctx, depth - 1)
        if k == "agg" and e[1][0] == "enum":
            return other(e[1][2], v)
        if k == "call":
            n = last(strip_generics(e[1] or ""))
            if n == "branch" and e[2]:
                if v == "Continue":
                    return self.variant(f, e[2][0], "Ok", ctx, depth - 1) or self.variant(f, e[2][0], "Some", ctx, depth - 1)
                return self.variant(f, e[2][0], "Err", ctx, depth - 1) or self.variant(f, e[2][0], "None", ctx, depth - 1)
            if n in ("then", "then_some") and e[2] and v == "Some" and ("bool" in (e[1] or "")):
                return self.implied(f, e[2][0], True, ctx, depth - 1)
            ts = [self.db.fns[t] for t in self.call_targets(f, e)]
            if ts:
                return all(self.returns_variant(g, v, self.ctx_for(f, e, ctx, depth), depth - 1) for g in ts)
            if n in KEEP and e[2] and v in ("Ok", "Some"):
                return self.variant(f, e[2][0], "Ok", ctx, depth - 1) or self.variant(f, e[2][0], "Some", ctx, depth - 1)
            return False
        if k == "local":
            ds = f.defs().get(e[1], [])
            if not ds:
                return False
            for b, i, rv in ds:
                if b not in f.reach:
                    continue
                x = local_expr_of_call(f, b) if i == "t" else rv_expr(f, rv)
                if x[0] == "agg" and x[1][0] == "enum" and other(x[1][2], v):
                    continue
                if not (self.guarded(f, b, ctx, depth - 1) or (x[0] != "agg" and self.variant(f, x, v, ctx, depth - 1))):
                    return False
            return True
        return False

    def returns_variant(self, g, v, ctx, depth):
        g = comb(g)
        if depth <= 0:
            return False
        ds = [d for d in g.defs().get(0, []) if d[0] in g.reach]
        if not ds:
            return False
        for b, i, rv in ds:
            x = local_expr_of_call(g, b) if i == "t" else rv_expr(g, rv)
            if x[0] == "agg" and x[1][2] is not None and other(x[1][2], v):
                continue
            if i == "t" and last(strip_generics(x[1] or "")) == "from_residual" and v in ("Ok", "Some"):
                continue
            if self.guarded(g, b, ctx, depth - 1):
                continue
            if x[0] == "agg" or not self.variant(g, x, v, ctx, depth - 1):
                return False
        return True

    # -- parameters: every caller passes something that implies it
    def param(self, f, i, val):
        key = (f.id, i, val)
        if key in self._pp:
            return self._pp[key]
        self._pp[key] = True     # coinductive
        sites = [(self.db.fns[a], b) for a, b in self.sites.get(f.id, ())]
        ok = bool(sites)
        for g, b in sites:
            t = g.bbs[b]["t"]
            if t[0] != "call" or len(t[2]) < i:
                ok = False
                break
            if self.guarded(g, b):
                continue
            if not self.implied(g, expr_of(g, t[2][i - 1]), val):
                ok = False
                break
        self._pp[key] = ok
        return ok

    # -- control flow
    def true_edges(self, f, ctx=None, depth=8):
        out = set()
        for b in f.reach:
            t = f.bbs[b]["t"]
            if t[0] == "call" and False:
                pass
            if t[0] != "switch":
                continue
            e = expr_of(f, t[1])
            arms = list(t[3])
            edges = [(v, s) for v, s in arms]
            if e[0] == "discr":
                vn = self._variants(f, e, t)
                seen = set(int(v) for v, _ in arms)
                by = defaultdict(list)
                for v, s in edges:
                    by[s].append(vn.get(int(v)))
                rest = [n for i, n in vn.items() if i not in seen]
                if t[4] is not None:
                    if vn:
                        by[t[4]].extend(rest)
                    else:
                        by[t[4]].append(None)
                for s, ns in by.items():
                    if ns and all(n is not None and self.variant(f, e[1], n, ctx, depth) for n in ns):
                        out.add((b, s))
            else:
                by = defaultdict(list)
                for v, s in edges:
                    by[s].append(int(v))
                if t[4] is not None:
                    by[t[4]].append(None)
                isb = f.r["T"].s(t[2]) == "bool" if isinstance(t[2], int) else True
                for s, vs in by.items():
                    ok = True
                    for v in vs:
                        if isb:
                            val = (v != 0) if v is not None else True
                            if v is None and not arms:
                                ok = False
                                break
                            if v is None and int(arms[0][0]) == 1:
                                val = False
                        else:
                            ok = self.int_case(f, e, v, [int(a) for a, _ in arms], ctx, depth)
                            if not ok:
                                break
                            continue
                        if not self.implied(f, e, val, ctx, depth):
                            ok = False
                            break
                    if ok and vs:
                        out.add((b, s))
        return out

    def int_case(self, f, e, v, arms, ctx, depth):
        return False

    def _variants(self, f, e, t):
        """variant index -> name of the scrutinised enum"""
        x = e[2] if len(e) > 2 else None
        T = f.r["T"]
        names = {}
        if isinstance(x, int):
            ty = T[T.peel(x)] if T[x]["k"] in ("ref", "ptr") else T[x]
            if ty["k"] == "adt":
                adt = self.db.adts.get(ty["p"])
                if adt:
                    return {int(v[1]): v[0] for v in adt["vars"]}
                n = last(ty["p"])
                names = {"Option": {0: "None", 1: "Some"}, "Result": {0: "Ok", 1: "Err"}, "ControlFlow": {0: "Continue", 1: "Break"}}.get(n, {})
        return names

    def open_set(self, f, ctx, depth):
        """blocks of f reachable without crossing an edge that implies the condition"""
        k = (f.id, depth) if ctx is None else None
        if k is not None and k in self._open:
            return self._open[k]
        te = self.true_edges(f, ctx, depth - 1)
        seen, q = {0}, deque([0])
        while q:
            n = q.popleft()
            for s in f.succ(n):
                if (n, s) in te or s in seen:
                    continue
                seen.add(s)
                q.append(s)
        if k is not None:
            self._open[k] = seen
        return seen

    def guarded(self, f, bb, ctx=None, depth=8):
        """bb is reachable in f only over an edge that implies the condition"""
        f = comb(f)
        if depth <= 0:
            return False
        return bb not in self.open_set(f, ctx, depth)

    def site_ok(self, f, bb, depth=12, seen=frozenset()):
        """the point is gated here or in every caller; otherwise the unguarded chain"""
        key = (f.id, bb)
        if key in self._so:
            return self._so[key]
        r = self._site_ok(f, bb, depth, seen)
        if r is not None or not seen:
            self._so[key] = r
        return r

    def _site_ok(self, f, bb, depth, seen):
        if self.guarded(f, bb):
            return None
        # closure handed to `cond.then(|| ...)`: judged at its creation
        t = f.bbs[bb]["t"] if bb < len(f.bbs) else ("", )
        if t[0] == "call" and last(strip_generics((t[1].get("r") or t[1].get("p") or ""))) == "then" and t[2]:
            if self.implied(f, expr_of(f, t[2][0]), True):
                return None
        if f.id in seen or depth <= 0:
            return None if f.id in seen else [f.id]
        callers = self.sites.get(f.id, ())
        if not callers:
            return None if self.entry_ok(f) else [f.id]
        for a, b in sorted(callers):
            g = self.db.fns[a]
            # a closure run in place is judged where it runs, not where it is built
            bs = comb(g).entries.get(f.id) if f.kind == "closure" else None
            for b2 in bs or [b]:
                p = self.site_ok(g, b2, depth - 1, seen | {f.id})
                if p is not None:
                    return p + [f.id]
        return None


def strip(e):
    while e[0] in ("ref", "deref"):
        e = e[1]
    return e


def local_expr_of_call(f, b):
    t = f.bbs[b]["t"]
    from db import Call
    c = Call(f, b, t)
    return ("call", c.rpath, tuple(expr_of(f, a, 10) for a in c.args), (b,))


def const_bool(e):
    if e[0] == "const" and e[1] in (0, 1, "0", "1", True, False, "true", "false"):
        return e[1] in (1, "1", True, "true")
    return None
