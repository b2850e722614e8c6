"""Normalisation: a function's body with chosen local helpers, closures and the
common Option/Result/iterator combinators expanded in place, so that rules see
the same control flow however the code is cut into functions."""
import copy
from db import *
import db as D


def lname(p):
    return last(strip_generics(p or ""))


def _pl(pl, off, o0=None):
    return [pl[0] + off, [(["i", p[1] + off] if p[0] == "i" else p) for p in pl[1]]]


def _op(o, off):
    return [o[0], _pl(o[1], off)] if o[0] in ("cp", "mv") else o


def _rv(rv, off):
    k = rv[0]
    if k == "use":
        return [k, _op(rv[1], off)]
    if k == "repeat":
        return [k, _op(rv[1], off)] + rv[2:]
    if k in ("ref", "raw"):
        return [k, rv[1], _pl(rv[2], off)]
    if k == "cast":
        return [k, rv[1], _op(rv[2], off), rv[3]]
    if k == "bin":
        return [k, rv[1], _op(rv[2], off), _op(rv[3], off)]
    if k == "un":
        return [k, rv[1], _op(rv[2], off)]
    if k == "discr":
        return [k, _pl(rv[1], off)] + rv[2:]
    if k == "agg":
        return [k, rv[1], [_op(o, off) for o in rv[2]]]
    return rv


def _term(t, off, boff):
    k = t[0]
    if k == "goto":
        return [k, t[1] + boff]
    if k == "switch":
        return [k, _op(t[1], off), t[2], [[v, s + boff] for v, s in t[3]], t[4] + boff] + t[5:]
    if k == "drop":
        return [k, _pl(t[1], off), t[2] + boff] + t[3:]
    if k == "call":
        c = t[1]
        if c.get("ptr"):
            c = dict(c, ptr=_op(c["ptr"], off))
        return [k, c, [_op(a, off) for a in t[2]], _pl(t[3], off), None if t[4] is None else t[4] + boff, t[5], t[6], None if len(t) < 8 or t[7] is None else t[7] + boff]
    if k == "assert":
        m = t[6]
        if len(m) > 3:
            m = [m[0], m[1], _op(m[2], off), _op(m[3], off) if m[3] else m[3]] + m[4:]
        return [k, _op(t[1], off), t[2], t[3] + boff] + t[4:6] + [m]
    return list(t)


class XFn(Fn):
    __slots__ = ("org", "stack", "inlined", "entries")


CLOSURE_CALLS = ("call_once", "call_mut", "call", "call_async")


class Expander:
    def __init__(self, f, want, depth=6, comb=True, limit=6000):
        self.db, self.want, self.depth, self.comb, self.limit = f.db, want, depth, comb, limit
        r = dict(f.r)
        r["bbs"] = [dict(b, s=list(b["s"])) for b in f.bbs]
        r["locals"] = list(f.r["locals"])
        self.x = XFn(r, f.db, f.crate)
        self.x.org = {i: f for i in range(len(f.bbs))}
        self.x.stack = {i: (f.id,) for i in range(len(f.bbs))}
        self.x.inlined = set()
        self.x.entries = {}
        self.T = f.r["T"]
        self.base = f

    def run(self):
        x = self.x
        done = set()
        while len(x.bbs) < self.limit:
            b = next((b for b in range(len(x.bbs)) if b not in done), None)
            if b is None:
                break
            done.add(b)
            if x.bbs[b].get("c"):
                continue
            t = x.bbs[b]["t"]
            if t[0] != "call":
                continue
            self.flush()
            if self.comb and self.combinator(b, t):
                continue
            self.call(b, t)
        self.flush()
        return x

    def flush(self):
        x = self.x
        x._succ = x._pred = x._defs = x._dom = x._pdom = x._reach = x._cd = x._calls = x._uses = None

    def new_local(self, ty, name=None):
        self.x.r["locals"].append([ty, name])
        return len(self.x.locals) - 1

    def new_block(self, at, s, t):
        self.x.r["bbs"].append({"s": s, "t": t})
        n = len(self.x.bbs) - 1
        self.x.org[n] = self.x.org[at]
        self.x.stack[n] = self.x.stack[at]
        return n

    # ---- calls
    def closure_of(self, op):
        e = expr_of(self.x, op)
        while e[0] in ("ref", "deref", "pcast"):
            e = e[1]
        if e[0] == "agg" and e[1][0] == "closure" and e[1][1] in self.db.fns:
            return self.db.fns[e[1][1]]
        if e[0] == "fnc" and e[1] in self.db.fns:
            return self.db.fns[e[1]]
        if op[0] in ("cp", "mv") and not op[1][1]:
            i = self.T.peel(self.x.ty(op[1][0]))
            t = self.T[i]
            if t["k"] == "closure" and t["p"] in self.db.fns:
                return self.db.fns[t["p"]]
        if op[0] == "c":
            t = self.T[self.T.peel(op[1]["t"])] if "t" in op[1] else None
            if t and t["k"] == "closure" and t["p"] in self.db.fns:
                return self.db.fns[t["p"]]
        return None

    def call(self, b, t):
        c = Call(self.x, b, t)
        if lname(c.path) in CLOSURE_CALLS and "::ops::" in c.path and len(c.args) == 2:
            g = self.db.fns.get(c.c.get("clo")) if c.c.get("clo") else None
            g = g or self.closure_of(c.args[0])
            if g is None or not self.ok(b, g):
                return
            if g.kind == "closure":
                args = [c.args[0]] + [self.tuple_field(b, c.args[1], i) for i in range(g.argc - 1)]
            else:
                args = [self.tuple_field(b, c.args[1], i) for i in range(g.argc)]
            self.splice(b, t, g, args)
            return
        ts = self.db.targets(c)
        if len(ts) != 1:
            return
        g = self.db.fns[ts[0]]
        if g.crate != self.base.crate or not self.want(g) or not self.ok(b, g) or len(c.args) != g.argc:
            return
        self.splice(b, t, g, list(c.args))

    def ok(self, b, g):
        st = self.x.stack[b]
        return (g.id not in st or self.again(g) and st.count(g.id) < 3) and len(st) <= self.depth and g.crate == self.base.crate

    again = staticmethod(lambda g: False)

    def tuple_field(self, b, op, i):
        if op[0] in ("cp", "mv"):
            return [op[0], [op[1][0], op[1][1] + [["f", i, str(i), None]]]]
        return ["c", {"t": 0}]

    def splice(self, b, t, g, args):
        x = self.x
        off, boff = len(x.locals), len(x.bbs)
        x.r["locals"].extend(g.r["locals"])
        line = t[5]
        st = x.stack[b] + (g.id,)
        dest, target = t[3], t[4]
        for i, bb in enumerate(g.bbs):
            s = []
            for q in bb["s"]:
                if q[0] == "=":
                    s.append(["=", _pl(q[1], off), _rv(q[2], off)] + q[3:])
                elif q[0] == "dead":
                    s.append(["dead", q[1] + off])
                elif q[0] == "sd":
                    s.append(["sd", _pl(q[1], off)] + q[2:])
                else:
                    s.append(q)
            tt = bb["t"]
            if tt[0] == "ret":
                if target is None:
                    nt = ["unreach"]
                else:
                    s.append(["=", dest, ["use", ["mv", [off, []]]], line])
                    nt = ["goto", target]
            else:
                nt = _term(tt, off, boff)
            nb = {"s": s, "t": nt}
            if bb.get("c"):
                nb["c"] = 1
            x.r["bbs"].append(nb)
            x.org[boff + i] = g
            x.stack[boff + i] = st
        for i, a in enumerate(args):
            x.bbs[b]["s"].append(["=", [off + 1 + i, []], ["use", a], line])
        x.bbs[b]["t"] = ["goto", boff]
        x.inlined.add(g.id)
        x.entries.setdefault(g.id, []).append(b)

    # ---- combinators
    def combinator(self, b, t):
        c = Call(self.x, b, t)
        n = lname(c.path)
        p = c.path
        fam = "Option" if "option::Option" in p else "Result" if "result::Result" in p else "bool" if "bool" in p else "Iterator" if "Iterator" in p else None
        fn = getattr(self, "c_%s_%s" % (fam, n), None) if fam else None
        if fn is None and fam in ("Option", "Result"):
            fn = getattr(self, "c_OR_" + n, None)
        if fn is None or t[4] is None:
            return False
        return fn(b, t, c, fam)

    def tyof(self, op):
        if op[0] in ("cp", "mv") and not op[1][1]:
            return self.x.ty(op[1][0])
        if op[0] == "c" and "t" in op[1]:
            return op[1]["t"]
        return None

    def split(self, b, t, op, fam):
        """turn block b into a match on op; returns (success block, failure block, payload operands)"""
        ty = self.tyof(op)
        if ty is None:
            ty = self.x.ty(t[3][0])
        l = self.new_local(ty)
        d = self.new_local(0)
        x = self.x
        line = t[5]
        x.bbs[b]["s"] += [["=", [l, []], ["use", op], line], ["=", [d, []], ["discr", [l, []], ty], line]]
        un = self.new_block(b, [], ["unreach"])
        y = self.new_block(b, [], ["unreach"])
        n = self.new_block(b, [], ["unreach"])
        if fam == "Option":
            x.bbs[b]["t"] = ["switch", ["mv", [d, []]], 0, [[0, n], [1, y]], un, line, None]
            pay = ["mv", [l, [["d", 1, "Some"], ["f", 0, "0", "std::option::Option"]]]]
            epay = None
        else:
            x.bbs[b]["t"] = ["switch", ["mv", [d, []]], 0, [[0, y], [1, n]], un, line, None]
            pay = ["mv", [l, [["d", 0, "Ok"], ["f", 0, "0", "std::result::Result"]]]]
            epay = ["mv", [l, [["d", 1, "Err"], ["f", 0, "0", "std::result::Result"]]]]
        return y, n, pay, epay, l

    def clo_call(self, at, clo, args, dest, target, line):
        """terminator calling closure operand with args"""
        tl = self.new_local(0)
        self.x.bbs[at]["s"].append(["=", [tl, []], ["agg", {"k": "tuple"}, args], line])
        g = self.closure_of(clo)
        c = {"p": "std::ops::FnOnce::call_once", "ga": [], "rk": "shim" if g is not None else "generic"}
        if g is not None:
            c["clo"] = g.id
        self.x.bbs[at]["t"] = ["call", c, [clo, ["mv", [tl, []]]], dest, target, line, None, None]

    def put(self, at, dest, rv, target, line):
        self.x.bbs[at]["s"].append(["=", dest, rv, line])
        self.x.bbs[at]["t"] = ["goto", target]

    def variant(self, fam, ok, ops):
        if fam == "Option":
            return ["agg", {"k": "adt", "p": "std::option::Option", "v": 1 if ok else 0, "vn": "Some" if ok else "None", "f": ["0"] if ok else []}, ops]
        return ["agg", {"k": "adt", "p": "std::result::Result", "v": 0 if ok else 1, "vn": "Ok" if ok else "Err", "f": ["0"]}, ops]

    def known(self, op):
        g = self.closure_of(op)
        return g is not None and g.crate == self.base.crate and g.id

    def c_OR_map_or(self, b, t, c, fam):
        if not self.known(c.args[2]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.clo_call(y, c.args[2], [pay], t[3], t[4], t[5])
        self.put(n, t[3], ["use", c.args[1]], t[4], t[5])
        return True

    def c_OR_map_or_else(self, b, t, c, fam):
        if not (self.known(c.args[1]) or self.known(c.args[2])):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.clo_call(y, c.args[2], [pay], t[3], t[4], t[5])
        self.clo_call(n, c.args[1], [ep] if ep else [], t[3], t[4], t[5])
        return True

    def c_OR_unwrap_or_else(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.put(y, t[3], ["use", pay], t[4], t[5])
        self.clo_call(n, c.args[1], [ep] if ep else [], t[3], t[4], t[5])
        return True

    def c_OR_unwrap_or(self, b, t, c, fam):
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.put(y, t[3], ["use", pay], t[4], t[5])
        self.put(n, t[3], ["use", c.args[1]], t[4], t[5])
        return True

    def c_OR_map(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        r = self.new_local(0)
        k = self.new_block(b, [], ["unreach"])
        self.clo_call(y, c.args[1], [pay], [r, []], k, t[5])
        self.put(k, t[3], self.variant(fam, True, [["mv", [r, []]]]), t[4], t[5])
        self.put(n, t[3], self.variant(fam, False, [ep] if ep else []), t[4], t[5])
        return True

    def c_OR_map_err(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        r = self.new_local(0)
        k = self.new_block(b, [], ["unreach"])
        self.put(y, t[3], self.variant(fam, True, [pay]), t[4], t[5])
        self.clo_call(n, c.args[1], [ep], [r, []], k, t[5])
        self.put(k, t[3], self.variant(fam, False, [["mv", [r, []]]]), t[4], t[5])
        return True

    def c_OR_and_then(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.clo_call(y, c.args[1], [pay], t[3], t[4], t[5])
        self.put(n, t[3], self.variant(fam, False, [ep] if ep else []), t[4], t[5])
        return True

    def c_OR_or_else(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.put(y, t[3], self.variant(fam, True, [pay]), t[4], t[5])
        self.clo_call(n, c.args[1], [ep] if ep else [], t[3], t[4], t[5])
        return True

    def c_Option_ok_or_else(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        r = self.new_local(0)
        k = self.new_block(b, [], ["unreach"])
        self.put(y, t[3], self.variant("Result", True, [pay]), t[4], t[5])
        self.clo_call(n, c.args[1], [], [r, []], k, t[5])
        self.put(k, t[3], self.variant("Result", False, [["mv", [r, []]]]), t[4], t[5])
        return True

    def c_Option_ok_or(self, b, t, c, fam):
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.put(y, t[3], self.variant("Result", True, [pay]), t[4], t[5])
        self.put(n, t[3], self.variant("Result", False, [c.args[1]]), t[4], t[5])
        return True

    def c_OR_is_some_and(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y, n, pay, ep, l = self.split(b, t, c.args[0], fam)
        self.clo_call(y, c.args[1], [pay], t[3], t[4], t[5])
        self.put(n, t[3], ["use", ["c", {"t": self.x.ty(t[3][0]), "v": 0}]], t[4], t[5])
        return True
    c_OR_is_ok_and = c_OR_is_some_and

    def c_bool_then(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        y = self.new_block(b, [], ["unreach"])
        n = self.new_block(b, [], ["unreach"])
        r = self.new_local(0)
        k = self.new_block(b, [], ["unreach"])
        ty = self.tyof(c.args[0])
        self.x.bbs[b]["t"] = ["switch", c.args[0], ty if ty is not None else 0, [[0, n]], y, t[5], None]
        self.clo_call(y, c.args[1], [], [r, []], k, t[5])
        self.put(k, t[3], self.variant("Option", True, [["mv", [r, []]]]), t[4], t[5])
        self.put(n, t[3], self.variant("Option", False, []), t[4], t[5])
        return True

    # iterators: a loop over next()
    def loop(self, b, t, it):
        x = self.x
        h = self.new_block(b, [], ["unreach"])
        m = self.new_block(b, [], ["unreach"])
        y = self.new_block(b, [], ["unreach"])
        n = self.new_block(b, [], ["unreach"])
        un = self.new_block(b, [], ["unreach"])
        il = self.new_local(self.tyof(it) or 0)
        o = self.new_local(0)
        d = self.new_local(0)
        rl = self.new_local(0)
        x.bbs[b]["s"].append(["=", [il, []], ["use", it], t[5]])
        x.bbs[b]["t"] = ["goto", h]
        x.bbs[h]["s"].append(["=", [rl, []], ["ref", "mut", [il, []]], t[5]])
        x.bbs[h]["t"] = ["call", {"p": "std::iter::Iterator::next", "ga": [], "rk": "generic"}, [["mv", [rl, []]]], [o, []], m, t[5], None, None]
        x.bbs[m]["s"].append(["=", [d, []], ["discr", [o, []], 0], t[5]])
        x.bbs[m]["t"] = ["switch", ["mv", [d, []]], 0, [[0, n], [1, y]], un, t[5], None]
        return h, y, n, ["mv", [o, [["d", 1, "Some"], ["f", 0, "0", "std::option::Option"]]]]

    def c_Iterator_for_each(self, b, t, c, fam):
        if not self.known(c.args[1]):
            return False
        h, y, n, el = self.loop(b, t, c.args[0])
        r = self.new_local(0)
        self.clo_call(y, c.args[1], [el], [r, []], h, t[5])
        self.put(n, t[3], ["agg", {"k": "tuple"}, []], t[4], t[5])
        return True

    def c_Iterator_try_for_each(self, b, t, c, fam):
        return self._fold(b, t, c, None, c.args[1], True)

    def c_Iterator_fold(self, b, t, c, fam):
        return self._fold(b, t, c, c.args[1], c.args[2], False)

    def c_Iterator_try_fold(self, b, t, c, fam):
        return self._fold(b, t, c, c.args[1], c.args[2], True)

    def _fold(self, b, t, c, init, clo, tried):
        if not self.known(clo):
            return False
        x = self.x
        dt = x.r["T"].s(x.ty(t[3][0]))
        fam = "Result" if dt.startswith("std::result::Result") else "Option" if dt.startswith("std::option::Option") else None
        if tried and fam is None:
            return False
        it = c.args[0]
        acc = None
        if init is not None:
            acc = self.new_local(self.tyof(init) or 0)
            x.bbs[b]["s"].append(["=", [acc, []], ["use", init], t[5]])
        h, y, n, el = self.loop(b, t, it)
        r = self.new_local(x.ty(t[3][0]) if not t[3][1] else 0)
        args = ([["mv", [acc, []]]] if acc is not None else []) + [el]
        if not tried:
            k = self.new_block(b, [], ["unreach"])
            self.clo_call(y, clo, args, [r, []], k, t[5])
            x.bbs[k]["s"].append(["=", [acc, []], ["use", ["mv", [r, []]]], t[5]])
            x.bbs[k]["t"] = ["goto", h]
            self.put(n, t[3], ["use", ["mv", [acc, []]]], t[4], t[5])
            return True
        k = self.new_block(b, [], ["unreach"])
        self.clo_call(y, clo, args, [r, []], k, t[5])
        good, bad, pay, epay, l = self.split(k, t, ["mv", [r, []]], fam)
        if acc is not None:
            x.bbs[good]["s"].append(["=", [acc, []], ["use", pay], t[5]])
        x.bbs[good]["t"] = ["goto", h]
        self.put(bad, t[3], self.variant(fam, False, [epay] if epay else []), t[4], t[5])
        if acc is not None:
            done = ["mv", [acc, []]]
        else:
            u = self.new_local(0)
            x.bbs[n]["s"].append(["=", [u, []], ["agg", {"k": "tuple"}, []], t[5]])
            done = ["mv", [u, []]]
        self.put(n, t[3], self.variant(fam, True, [done]), t[4], t[5])
        return True

    def _anyall(self, b, t, c, stop):
        if not self.known(c.args[1]):
            return False
        h, y, n, el = self.loop(b, t, c.args[0])
        r = self.new_local(self.x.ty(t[3][0]))
        k = self.new_block(b, [], ["unreach"])
        w = self.new_block(b, [], ["unreach"])
        bt = self.x.ty(t[3][0])
        self.clo_call(y, c.args[1], [el], [r, []], k, t[5])
        self.x.bbs[k]["t"] = ["switch", ["mv", [r, []]], bt, [[0, h if stop else w]], w if stop else h, t[5], None]
        self.put(w, t[3], ["use", ["c", {"t": bt, "v": 1 if stop else 0}]], t[4], t[5])
        self.put(n, t[3], ["use", ["c", {"t": bt, "v": 0 if stop else 1}]], t[4], t[5])
        return True

    def c_Iterator_any(self, b, t, c, fam):
        return self._anyall(b, t, c, True)

    def c_Iterator_all(self, b, t, c, fam):
        return self._anyall(b, t, c, False)


_MEMO = {}


def expand(f, want=None, depth=6, comb=True, key=None, again=None, cls=None):
    """again(g): a higher-order helper that may be expanded within itself (its closure calls it)"""
    k = (id(f.db), f.id, key, depth, comb) if key is not None else None
    if k is not None and k in _MEMO:
        return _MEMO[k]
    E = (cls or Expander)(f, want or (lambda g: False), depth, comb)
    if again is not None:
        E.again = again
    x = E.run()
    if k is not None:
        _MEMO[k] = x
    return x


def comb(f):
    """f with its own closures run by known combinators, or called directly, in place"""
    if isinstance(f, XFn):
        return f
    return expand(f, None, 6, True, "comb")
