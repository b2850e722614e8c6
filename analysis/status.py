"""Does every failure reach the exit status?  An abstract execution of the
functions that compute a status: integers and booleans are zero / non-zero /
either, Results and Options are variant plus payload, everything else is
opaque.  Fallible calls fork into their outcomes; a failing outcome is remembered
(`bad`) and at the end a remembered failure must not coexist with a zero status.

values:  "Z" zero/false, "N" non-zero/true, "T" either (data dependent),
         "U" opaque, ("V", variant, payload value), ("R", local) reference to a local,
         ("S", ((idx, value),...)) tuple/closure/struct with known parts"""
from db import *
import db as D
import inl
from gate import FAM

INTS = {"bool", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"}


CLEAR = "#clear"     # what failed turned out to be no failure


def merge(bad, new):
    if new == CLEAR:
        return CLEAR
    if new is None or (bad is not None and bad != CLEAR):
        return bad
    return new


def lname(p):
    return last(strip_generics(p or ""))


def neg(v):
    return {"Z": "N", "N": "Z"}.get(v, v)


class Status:
    """events(call, fn, argvals) -> None (no opinion) or a list of (value, bad-label or None) outcomes.
    follow(fn) -> interpret this function's body at calls (otherwise opaque)."""

    LIMIT = 60000

    def __init__(self, db, events, follow, expand=None):
        self.db, self.events, self.follow = db, events, follow
        self.memo, self.active = {}, set()
        self.exits = []          # (fn, line, value, bad)
        self.overflow = []
        self.analysed = set()
        self.live_memo = {}
        self.on_agg = None
        self.merge = merge
        self.body = inl.comb

    # ---- types
    def kind(self, f, l):
        T = f.r["T"]
        t = f.ty(l)
        s = T.s(t)
        s0 = s.lstrip("&").replace("mut ", "").strip()
        if s0 in INTS:
            return "int"
        ty = T[T.peel(t)] if T[t]["k"] in ("ref", "ptr") else T[t]
        if ty["k"] == "adt":
            n = last(strip_generics(ty["p"]))
            if n in ("Result", "Option", "ControlFlow"):
                return n
        return "other"

    # ---- summaries
    def summary(self, f, args):
        k = (f.id, args)
        if k in self.memo:
            return self.memo[k]
        if k in self.active or len(self.active) > 14:
            return {(self.top(f, 0), None, None)}
        self.active.add(k)
        r = self.run(f, args)
        self.active.discard(k)
        self.memo[k] = r
        return r

    def top(self, f, l):
        k = self.kind(f, l)
        return "T" if k == "int" else "U"

    def run(self, f, args):
        """{(return value, bad label or None, line of the return)}"""
        x = self.body(f)
        self.analysed.add(f.id)
        env0 = {}
        for i, v in enumerate(args):
            env0[i + 1] = v
        out = set()
        start = (0, self.norm(x, 0, env0), None)
        seen, st = {start}, [start]
        while st:
            if len(seen) > self.LIMIT:
                self.overflow.append(f.id)
                break
            bb, envt, bad = st.pop()
            env = dict(envt)
            b = x.bbs[bb]
            for s in b["s"]:
                if s[0] == "=":
                    if self.on_agg is not None and s[2][0] == "agg" and s[2][1]["k"] == "adt":
                        bad = self.on_agg(x, env, s[2][1], s[2][2], bad)
                    self.assign(x, env, s[1], self.rv(x, env, s[2]))
                elif s[0] == "dead":
                    env.pop(s[1], None)
            for nb, e2, bd in self.term(x, bb, env, bad, out):
                k = (nb, self.norm(x, nb, e2), bd)
                if k not in seen:
                    seen.add(k)
                    st.append(k)
        return out

    def live(self, x):
        """locals read at or after each block"""
        if id(x) in self.live_memo:
            return self.live_memo[id(x)][1]
        use, dfn = {}, {}
        for b in x.reach:
            u, d = set(), set()

            def rd(pl):
                if pl[0] not in d:
                    u.add(pl[0])
                for p in pl[1]:
                    if p[0] == "i" and p[1] not in d:
                        u.add(p[1])
            for s in x.bbs[b]["s"]:
                if s[0] == "=":
                    for pl in rv_places(s[2]):
                        rd(pl)
                    if s[1][1]:
                        rd(s[1])
                    else:
                        d.add(s[1][0])
            t = x.bbs[b]["t"]
            if t[0] == "switch" and t[1][0] in ("cp", "mv"):
                rd(t[1][1])
            elif t[0] == "call":
                for a in t[2]:
                    if a[0] in ("cp", "mv"):
                        rd(a[1])
                if t[1].get("ptr") and t[1]["ptr"][0] in ("cp", "mv"):
                    rd(t[1]["ptr"][1])
            elif t[0] == "assert" and t[1][0] in ("cp", "mv"):
                rd(t[1][1])
            elif t[0] == "ret":
                u.add(0) if 0 not in d else None
            use[b], dfn[b] = u, d
        L = {b: set(use[b]) for b in x.reach}
        ch = True
        order = sorted(x.reach, reverse=True)
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in x.succ(b):
                    o |= L.get(s, set())
                n = use[b] | (o - dfn[b])
                t = x.bbs[b]["t"]
                if n != L[b]:
                    L[b] = n
                    ch = True
        self.live_memo[id(x)] = (x, L)
        return L

    def norm(self, x, bb, env):
        L = self.live(x).get(bb, set())
        keep = set(k for k in env if k in L)
        # what live references point at stays
        ch = True
        while ch:
            ch = False
            for k in list(keep):
                for r in self.refs(env.get(k)):
                    if r in env and r not in keep:
                        keep.add(r)
                        ch = True
        return frozenset((k, env[k]) for k in keep if env[k] != "U")

    def refs(self, v):
        if isinstance(v, tuple):
            if v[0] == "R":
                yield v[1]
            elif v[0] == "V":
                yield from self.refs(v[2])
            elif v[0] == "S":
                for _, w in v[1]:
                    yield from self.refs(w)

    # ---- values
    def assign(self, x, env, pl, v):
        l, proj = pl
        if not proj:
            env[l] = v
            return
        if proj[0][0] == "*":
            r = env.get(l)
            if isinstance(r, tuple) and r[0] == "R":
                self.assign(x, env, [r[1], proj[1:]], v)
            return
        if len(proj) == 1 and proj[0][0] == "f":
            cur = env.get(l)
            d = dict(cur[1]) if isinstance(cur, tuple) and cur[0] == "S" else {}
            d[proj[0][1]] = v
            env[l] = ("S", tuple(sorted(d.items(), key=lambda z: z[0])))

    def op(self, x, env, o):
        if o[0] in ("cp", "mv"):
            return self.place(x, env, o[1])
        c = o[1] if o[0] == "c" else {}
        if "v" in c and c["v"] is not None and not isinstance(c["v"], bool):
            try:
                return "Z" if int(c["v"]) == 0 else "N"
            except (ValueError, TypeError):
                return "U"
        if "v" in c and isinstance(c["v"], bool):
            return "N" if c["v"] else "Z"
        return "U"

    def place(self, x, env, pl):
        l, proj = pl
        v = env.get(l)
        if v is None:
            v = "U"
            if 1 <= l <= x.argc and not proj:
                v = self.top(x, l)
        for p in proj:
            k = p[0]
            if k == "*":
                v = env.get(v[1], "U") if isinstance(v, tuple) and v[0] == "R" else v
            elif k == "d":
                pass
            elif k == "f":
                if isinstance(v, tuple) and v[0] == "V":
                    v = v[2] if p[1] == 0 else "U"
                elif isinstance(v, tuple) and v[0] == "S":
                    v = dict(v[1]).get(p[1], "U")
                elif v == "T":
                    v = "T"
                else:
                    v = "U"
            else:
                v = "U"
        if v == "U" and proj:
            # a field of something opaque: data dependent when it is a number
            t = proj[-1]
            v = "U"
        return v

    def rv(self, x, env, rv):
        k = rv[0]
        if k == "use":
            return self.op(x, env, rv[1])
        if k in ("ref", "raw"):
            pl = rv[2]
            if not pl[1]:
                return ("R", pl[0])
            if pl[1] == [["*"]]:
                v = env.get(pl[0], "U")
                return v if isinstance(v, tuple) and v[0] == "R" else v
            return self.place(x, env, pl)
        if k == "cast":
            v = self.op(x, env, rv[2])
            return v
        if k == "un":
            v = self.op(x, env, rv[2])
            return neg(v) if rv[1] == "Not" else v
        if k == "bin":
            a, b = self.op(x, env, rv[2]), self.op(x, env, rv[3])
            return self.binop(rv[1], a, b)
        if k == "discr":
            v = self.place(x, env, rv[1])
            return ("D", v) if isinstance(v, tuple) and v[0] == "V" else "U"
        if k == "agg":
            a = rv[1]
            ops = [self.op(x, env, o) for o in rv[2]]
            if a["k"] == "adt" and a.get("vn") in FAM:
                return ("V", a["vn"], ops[0] if ops else "U")
            if a["k"] in ("tuple", "closure") or (a["k"] == "adt" and a.get("vn") == last(a["p"])):
                if any(o != "U" for o in ops):
                    return ("S", tuple((i, o) for i, o in enumerate(ops) if o != "U"))
            return "U"
        return "U"

    def binop(self, op, a, b):
        ab = {a, b}
        if op.endswith("WithOverflow"):
            return ("S", ((0, self.binop(op[:-12], a, b)), (1, "Z")))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("BitOr", "Add"):
            if a == "Z":
                return b
            if b == "Z":
                return a
            if op == "BitOr" and "N" in ab:
                return "N"
            if op == "Add" and ab == {"N"}:
                return "N"       # counts and codes are non-negative
            if op == "Add" and "N" in ab and ab <= {"N", "T"}:
                return "N"
            return "T" if "T" in ab else "U"
        if op in ("BitAnd", "Mul"):
            if "Z" in ab:
                return "Z"
            if a == "N" and b == "N":
                return "N" if op == "Mul" else "T"
            return "T" if ab <= {"T", "N"} else "U"
        if op in ("Eq", "Ne"):
            r = "U"
            if a == "Z" and b == "Z":
                r = "N"
            elif ab == {"Z", "N"}:
                r = "Z"
            elif ab <= {"Z", "N", "T"}:
                r = "T"
            return neg(r) if op == "Ne" else r
        if op == "Gt":          # unsigned / non-negative
            if a == "N" and b == "Z":
                return "N"
            if a == "Z":
                return "Z"
            return "T" if ab <= {"Z", "N", "T"} else "U"
        if op == "Lt":
            return self.binop("Gt", b, a)
        if op == "Ge":
            return neg(self.binop("Lt", a, b))
        if op == "Le":
            return neg(self.binop("Gt", a, b))
        return "U"

    # ---- control
    def term(self, x, bb, env, bad, out):
        t = x.bbs[bb]["t"]
        k = t[0]
        if k == "goto":
            yield t[1], env, bad
        elif k == "drop":
            yield t[2], env, bad
        elif k == "assert":
            yield t[3], env, bad
        elif k == "ret":
            out.add((self.deref(env, env.get(0, "U")), bad, self.line_of(x, bb)))
        elif k == "switch":
            yield from self.switch(x, t, env, bad)
        elif k == "call":
            yield from self.call(x, bb, t, env, bad)

    def deref(self, env, v):
        if isinstance(v, tuple) and v[0] == "R":
            return self.deref(env, env.get(v[1], "U")) if v[1] in env else "U"
        return v

    def line_of(self, x, bb):
        ls = [s[3] for s in x.bbs[bb]["s"] if s[0] == "=" and isinstance(s[3], int)]
        return ls[-1] if ls else None

    def switch(self, x, t, env, bad):
        v = self.op(x, env, t[1])
        arms = [(int(a), s) for a, s in t[3]]
        src = t[1][1][0] if t[1][0] in ("cp", "mv") and not t[1][1][1] else None
        if isinstance(v, tuple) and v[0] == "D":
            idx = {"Ok": 0, "Err": 1, "None": 0, "Some": 1, "Continue": 0, "Break": 1}[v[1][1]]
            s = dict(arms).get(idx, t[4])
            yield s, env, bad
            return
        for a, s in arms:
            if v == "Z" and a != 0:
                continue
            if v == "N" and a == 0:
                continue
            e = dict(env)
            if src is not None:
                e[src] = "Z" if a == 0 else "N"
                self.learn(x, bb_def(x, src), e, "Z" if a == 0 else "N")
            yield s, e, bad
        if v == "Z" and any(a == 0 for a, _ in arms):
            return
        e = dict(env)
        if src is not None and any(a == 0 for a, _ in arms):
            e[src] = "N"
            self.learn(x, bb_def(x, src), e, "N")
        if t[4] is not None:
            yield t[4], e, bad

    def learn(self, x, rv, env, val):
        """the switched temporary is a comparison of a tracked local with zero"""
        if rv is None:
            return
        if rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1]:
            env[rv[1][1][0]] = val
        elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("cp", "mv") and not rv[2][1][1]:
            env[rv[2][1][0]] = neg(val)
        elif rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Gt"):
            a, b = rv[2], rv[3]
            if b[0] == "c" and str(b[1].get("v")) == "0" and a[0] in ("cp", "mv") and not a[1][1]:
                z = val if rv[1] != "Eq" else neg(val)
                env[a[1][0]] = z
                # the temporary is a copy of something
                r2 = bb_def(x, a[1][0])
                if r2 is not None and r2[0] == "use" and r2[1][0] == "cp" and not r2[1][1][1]:
                    env[r2[1][1][0]] = z

    def call(self, x, bb, t, env, bad):
        c = Call(x, bb, t)
        n = lname(c.path)
        nxt = t[4]
        args = [self.op(x, env, a) for a in t[2]]
        dargs = [self.deref(env, a) for a in args]

        def go(v, bd=bad):
            e = dict(env)
            self.assign(x, e, t[3], v)
            return nxt, e, bd
        if n == "exit" and "process" in (c.rpath or ""):
            self.exits.append((x, t[5], dargs[0] if dargs else "U", bad))
            return
        if nxt is None:
            return
        ev = self.events(c, x, dargs)
        if ev is not None:
            for o in ev:
                v, bd = o[0], o[1]
                yield go(v, CLEAR if len(o) > 2 else self.merge(bad, bd))
            return
        w = self.vecs(x, env, c, n, args, dargs)
        if w is not None:
            e = dict(env)
            if w[0] is not None:
                e[w[0]] = w[1]
            self.assign(x, e, t[3], w[2])
            yield nxt, e, bad
            return
        m = self.model(x, c, n, args, dargs)
        if m is not None:
            for v in m:
                yield go(v)
            return
        ts = [self.db.fns[z] for z in self.db.targets(c)]
        if ts and all(self.follow(g) for g in ts) and len(ts) <= 4:
            for g in ts:
                a = tuple(self.passed(g, i, v) for i, v in enumerate(dargs[:g.argc]))
                for v, bd, _ in sorted(self.summary(g, a), key=str):
                    e = dict(env)
                    self.havoc(x, e, args, g)
                    self.assign(x, e, t[3], v)
                    yield nxt, e, self.merge(bad, self.relabel(c, g, v, bd) if bd != CLEAR else CLEAR)
            return
        e = dict(env)
        self.havoc(x, e, args, None, t)
        v = self.opaque(x, t)
        self.assign(x, e, t[3], v)
        yield nxt, e, bad

    def relabel(self, c, g, v, bd):
        return bd

    def passed(self, g, i, v):
        if isinstance(v, tuple) and (v[0] in ("R", "D") or any(True for _ in self.refs(v))):
            return "U"
        return v

    def opaque(self, x, t):
        if t[3][1]:
            return "U"
        s = x.r["T"].s(x.ty(t[3][0]))
        if s == "bool":
            return "T"
        c = Call(x, 0, t)
        if s in INTS and self.db.targets(c):
            return "T"
        return "U"

    def havoc(self, x, env, args, g, t=None):
        """a mutable reference handed out may be written through"""
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "R":
                o = t[2][i] if t is not None else None
                l = a[1]
                if o is not None and o[0] in ("cp", "mv") and not o[1][1]:
                    ty = x.r["T"].s(x.ty(o[1][0]))
                    if not ty.startswith("&mut"):
                        continue
                if g is not None and i < g.argc and not g.r["T"].s(g.ty(i + 1)).startswith("&mut"):
                    continue
                env[l] = "U"
            elif isinstance(a, tuple) and a[0] == "S" and t is not None:
                for r in self.refs(a):
                    env[r] = "U"

    def vecs(self, x, env, c, n, args, d):
        """collections of failures: empty / non-empty"""
        p = strip_generics(c.path)
        if n in ("new", "with_capacity", "default") and self.kind(x, c.dest[0]) == "other" and not c.dest[1]:
            t = x.r["T"].s(x.ty(c.dest[0]))
            if t.startswith(("std::vec::Vec<", "std::collections::", "alloc::vec::Vec<")):
                return None, None, "Z"
        if not args:
            return None
        a = args[0]
        tgt = a[1] if isinstance(a, tuple) and a[0] == "R" else None
        if n in ("push", "push_back", "push_front", "insert") and tgt is not None and ("vec::Vec" in p or "collections" in p):
            return tgt, "N", "U"
        if n in ("extend", "append", "extend_from_slice") and tgt is not None and ("Vec" in p or "Extend" in p):
            cur = env.get(tgt, "U")
            return tgt, ("N" if cur == "N" else "T"), "U"
        if n in ("is_empty", "len", "count", "iter", "into_iter", "next", "deref", "as_slice", "first", "last", "pop", "any", "drain") and d[0] in ("Z", "N", "T"):
            v = d[0]
            if n == "is_empty":
                return None, None, neg(v)
            if n in ("len", "count", "iter", "into_iter", "deref", "as_slice"):
                return None, None, v
            if n in ("next", "first", "last", "pop"):
                return None, None, {"Z": ("V", "None", "U"), "N": "U"}.get(v, "U")
        return None

    def model(self, x, c, n, args, d):
        p = strip_generics(c.path)
        if n in ("max",) and len(d) == 2:
            a, b = d
            if "N" in (a, b):
                return ["N"]
            if a == b:
                return [a]
            return ["T"] if set((a, b)) <= {"Z", "N", "T"} else ["U"]
        if n in ("min",) and len(d) == 2 and "Z" in d:
            return ["Z"]
        if n in ("from", "into", "clone", "to_owned", "try_into", "try_from", "as_ref", "as_mut", "as_deref", "copied", "cloned", "borrow", "deref", "identity", "black_box") and len(d) == 1 and d[0] != "U":
            v = d[0]
            if n in ("try_into", "try_from"):
                return [("V", "Ok", v)]
            return [v]
        if n == "bitor_assign" or n == "add_assign":
            return None
        if n == "unwrap_or_default" and isinstance(d[0], tuple) and d[0][0] == "V":
            return [d[0][2]] if d[0][1] in ("Ok", "Some") else ["Z"]
        if n in ("unwrap_or",) and isinstance(d[0], tuple) and d[0][0] == "V":
            return [d[0][2] if d[0][1] in ("Ok", "Some") else d[1]]
        v = d[0] if d else "U"
        if isinstance(v, tuple) and v[0] == "V":
            good = v[1] in ("Ok", "Some", "Continue")
            if n == "branch":
                return [("V", "Continue", v[2])] if good else [("V", "Break", v)]
            if n == "from_residual":
                return [("V", "Err" if FAM.get(v[1]) == "r" or v[1] == "Err" else "None", "U")]
            if n in ("map_err",):
                return [v if good else ("V", "Err", "U")]
            if n in ("map", "inspect", "inspect_err", "as_ref"):
                return [("V", v[1], "U") if n == "map" and good else v]
            if n in ("is_ok", "is_some"):
                return ["N" if good else "Z"]
            if n in ("is_err", "is_none"):
                return ["Z" if good else "N"]
            if n == "ok":
                return [("V", "Some", v[2]) if good else ("V", "None", "U")]
            if n == "err":
                return [("V", "None", "U") if good else ("V", "Some", "U")]
            if n in ("ok_or", "ok_or_else"):
                return [("V", "Ok", v[2]) if good else ("V", "Err", "U")]
            if n in ("unwrap", "expect"):
                return [v[2]] if good else []
            if n in ("unwrap_err", "expect_err"):
                return [] if good else [v[2]]
            if n in ("and_then",):
                return None if good else [v]
            if n == "or_else":
                return [v] if good else None
        if n == "from_residual":
            return [("V", "Err" if "result" in p.lower() or "Result" in x.r["T"].s(x.ty(c.dest[0])) else "None", "U")]
        return None


def bb_def(x, l):
    ds = x.defs().get(l, [])
    if len(ds) == 1 and ds[0][1] not in ("t", "a"):
        return ds[0][2]
    return None


def is_fallible(x, c):
    """the call's result is a Result"""
    t = x.r["T"]
    ty = t[x.ty(c.dest[0])] if not c.dest[1] else None
    return ty is not None and ty["k"] == "adt" and last(strip_generics(ty["p"])) == "Result"


def may_be_zero(v):
    if v in ("Z", "T"):
        return True
    if isinstance(v, tuple) and v[0] == "V":
        if v[1] in ("Err",):
            return False
        return v[2] in ("Z", "T") or v[1] == "None"
    return False
