"""Coverage engine: on every path of a function through which a given part of
a parameter may matter, a discharging operation on that part is performed.

A Client says which calls discharge what; everything else (variant-consistent
paths, whole-range loops, delegation to helpers and closures) is here."""
from paths import *


class Client:
    """per-rule semantics"""
    def discharges(self, an, c, leaf, R):      # call c discharges leaf?
        return False

    def stmt_discharges(self, an, b, s, leaf, R):
        return False

    def excuse_call(self, an, c, leaf, R):     # returns 'false'/'true' if that outcome of bool call c excuses leaf
        return None

    delegate_names = ()

    def may_delegate(self, g):
        return True


class An:
    """analysis of one function for leaves under one parameter"""
    def __init__(self, db, fn, client, stack=()):
        self.db, self.fn, self.client, self.stack = db, fn, client, stack
        self.why = ""

    # ---- variant-reduced CFG ----
    def reduced(self, leaf):
        """succ map with edges inconsistent with the leaf's variants removed"""
        f = self.fn
        live = set(f.reach)
        # iterate: resolution depends on liveness, liveness on resolution
        for _ in range(6):
            R = Resolver(f, live)
            succ = {}
            excused = set()
            for b in live:
                t = f.bbs[b]["t"]
                ss = f.succ(b)
                if t[0] == "switch":
                    keep = self.filter_switch(R, b, t, leaf, excused)
                    if keep is not None:
                        ss = keep
                succ[b] = [s for s in dict.fromkeys(ss)]
            nl, st = {0}, [0]
            while st:
                x = st.pop()
                for s in succ.get(x, []):
                    if s not in nl:
                        nl.add(s)
                        st.append(s)
            if nl == live:
                break
            live = nl
        self.R, self.S, self.live, self.excused = R, succ, live, excused
        return R, succ, live

    def filter_switch(self, R, b, t, leaf, excused):
        f = self.fn
        op, edges, other = t[1], t[3], t[4]
        if op[0] not in ("cp", "mv") or op[1][1]:
            return None
        l = op[1][0]
        src = self.sw_source(l, R.live)
        if src is None:
            return None
        neg = False
        while src[0] == "not":
            neg = not neg
            src = src[1]
        if src[0] == "discr":
            q = R.place(src[1])
            if q is None:
                return None
            T = f.r["T"]
            vn = variant_names(self.db, T, src[2])
            if vn is None:
                return None
            # does the leaf fix the variant of q?
            if len(leaf) > len(q) and is_prefix(q, leaf) and leaf[len(q)][0] == "v":
                want = leaf[len(q)][1]
                out = []
                listed = set()
                for v, tgt in edges:
                    nm = vn.get(int(v))
                    listed.add(nm)
                    if nm == want:
                        out.append(tgt)
                if want not in listed:
                    out.append(other)
                return out
            if q and q[-1] == ("#b",) and is_prefix(q[:-1], leaf):
                # allocated_data(): None means there is nothing to visit
                for v, tgt in edges:
                    if vn.get(int(v)) == "None":
                        excused.add((b, tgt))
                if "None" not in {vn.get(int(v)) for v, _ in edges}:
                    excused.add((b, other))
                return None
            if q == leaf + (("fwd",),) or (q and q[-1] == ("fwd",)):
                return None
            return None
        if src[0] == "call":
            c = src[1]
            r = self.client.excuse_call(self, c, leaf, R) or self.std_excuse(R, c, leaf)
            if r:
                want_false = (r == "false") != neg
                # switchInt on bool: value 0 = false edge
                zero = [tgt for v, tgt in edges if int(v) == 0]
                if zero:
                    if want_false:
                        excused.add((b, zero[0]))
                    else:
                        excused.add((b, other))
            return self.opt_filter(R, c, leaf, edges, other, neg)
        if src[0] == "cmp":
            return None
        return None

    def opt_filter(self, R, c, leaf, edges, other, neg):
        """is_some()/is_none() on a prefix of the leaf"""
        if c.name not in ("is_some", "is_none") or not c.args:
            return None
        q = R.op(c.args[0])
        if q is None or not (len(leaf) > len(q) and is_prefix(q, leaf) and leaf[len(q)][0] == "v"):
            return None
        want = leaf[len(q)][1] == "Some"
        truth = want if c.name == "is_some" else not want
        if neg:
            truth = not truth
        zero = [tgt for v, tgt in edges if int(v) == 0]
        if not zero:
            return None
        return [other] if truth else [zero[0]]

    def std_excuse(self, R, c, leaf):
        if c.name == "is_empty" and c.args:
            q = R.op(c.args[0])
            if q is not None and is_prefix(q, leaf) and len(leaf) > len(q) and leaf[len(q)] == ("[]",):
                return "true"
        return None

    def sw_source(self, l, live, depth=6):
        ds = self.fn.defs().get(l, [])
        if live is not None:
            ds = [d for d in ds if d[1] == "a" or d[0] in live]
        if len(ds) != 1 or depth == 0:
            return None
        b, i, rv = ds[0]
        if i == "a":
            return None
        if i == "t":
            return ("call", Call(self.fn, b, rv))
        if rv[0] == "discr":
            return ("discr", rv[1], rv[2])
        if rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("cp", "mv") and not rv[2][1][1]:
            s = self.sw_source(rv[2][1][0], live, depth - 1)
            return ("not", s) if s else None
        if rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1]:
            return self.sw_source(rv[1][1][0], live, depth - 1)
        return None

    # ---- main question ----
    def covered(self, leaf):
        """None if every path discharges the leaf, else a description of a path that does not"""
        R, S, live = self.reduced(leaf)
        dis_b, dis_e = set(), set(self.excused)
        f = self.fn
        for b in live:
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] == "=" and self.client.stmt_discharges(self, b, s, leaf, R):
                    dis_b.add(b)
            t = bb["t"]
            if t[0] == "call":
                c = Call(f, b, t)
                if self.client.discharges(self, c, leaf, R) or self.delegated(R, c, leaf):
                    dis_b.add(b)
        # whole-range loops, innermost element last
        for k in range(len(leaf) - 1, 1, -1):
            if leaf[k] == ("[]",):
                src = leaf[:k]
                for b in live:
                    t = f.bbs[b]["t"]
                    if t[0] == "call":
                        c = Call(f, b, t)
                        if c.name in ("next", "next_back") and c.args:
                            a0 = R.op(c.args[0])
                            base = a0[:-1] if a0 and a0[-1] == ("E",) else a0
                            if a0 is not None and (base == src or a0 == ("rangeiter",) + src):
                                e = self.loop_ok(R, S, live, b, c, dis_b, dis_e)
                                if e is not None:
                                    dis_e.add(e)
                    elif t[0] == "switch":
                        e = self.counter_loop(R, S, live, b, t, src, dis_b, dis_e)
                        if e is not None:
                            dis_e.add(e)
        return self.escape(S, 0, dis_b, dis_e, {x for x in live if f.bbs[x]["t"][0] == "ret"})

    def counter_loop(self, R, S, live, b, t, src, dis_b, dis_e):
        """while i < xs.len() { .. xs[i] ..; i += 1 }"""
        f = self.fn
        if t[1][0] not in ("cp", "mv") or t[1][1][1]:
            return None
        ds = [d for d in f.defs().get(t[1][1][0], []) if d[0] in live]
        if len(ds) != 1 or ds[0][1] in ("a", "t") or ds[0][2][0] != "bin":
            return None
        rv = ds[0][2]
        op, x, y = rv[1], rv[2], rv[3]
        if op == "Gt":
            op, x, y = "Lt", y, x
        if op not in ("Lt", "Ne") or x[0] not in ("cp", "mv") or x[1][1]:
            return None
        ctr = R.counter(x[1][0])
        if ctr is None or R.length_of(y) != src:
            return None
        zero = [tgt for v, tgt in t[3] if int(v) == 0]
        if not zero:
            return None
        body = t[4]
        rets = {q for q in live if f.bbs[q]["t"][0] == "ret"}
        if self.escape(S, body, dis_b, dis_e, {b} | rets) is not None:
            return None
        if self.escape(S, body, set(), set(), rets, stop={b}) is not None:
            return None
        return (b, zero[0])

    def loop_ok(self, R, S, live, b, c, dis_b, dis_e):
        """next() at b: if every iteration discharges and only exhaustion leaves the loop, the exhaustion edge"""
        f = self.fn
        # find the switch on the discriminant of the returned Option
        d = c.dest[0]
        sw = c.target
        seen = set()
        while sw is not None and sw not in seen:
            seen.add(sw)
            t = f.bbs[sw]["t"]
            if t[0] == "switch":
                break
            ss = S.get(sw, [])
            sw = ss[0] if len(ss) == 1 else None
        if sw is None or f.bbs[sw]["t"][0] != "switch":
            return None
        t = f.bbs[sw]["t"]
        src = self.sw_source(t[1][1][0], live) if t[1][0] in ("cp", "mv") else None
        if not src or src[0] != "discr" or src[1][0] != d:
            return None
        some = none = None
        for v, tgt in t[3]:
            if int(v) == 1:
                some = tgt
            elif int(v) == 0:
                none = tgt
        if some is None:
            some = t[4]
        if none is None:
            none = t[4]
        rets = {x for x in live if f.bbs[x]["t"][0] == "ret"}
        # every iteration discharges
        if self.escape(S, some, dis_b, dis_e, {b} | rets) is not None:
            return None
        # no way out of the loop but exhaustion
        if self.escape(S, some, set(), set(), rets, stop={b}) is not None:
            return None
        return (sw, none)

    def escape(self, S, start, dis_b, dis_e, goals, stop=()):
        """a path start..goal avoiding discharging blocks and edges"""
        if start in dis_b:
            return None
        par = {start: None}
        st = [start]
        first = True
        while st:
            n = st.pop(0)
            if n in goals and not (first and n == start and False):
                if n not in dis_b:
                    out = []
                    while n is not None:
                        out.append(n)
                        n = par[n]
                    return out[::-1]
            first = False
            if n in dis_b or n in stop:
                continue
            for s in S.get(n, []):
                if (n, s) in dis_e or s in par or s in dis_b:
                    continue
                par[s] = n
                st.append(s)
        return None

    # ---- delegation ----
    def delegated(self, R, c, leaf):
        tg = self.db.targets(c)
        # closures passed to for_each & friends
        if c.name in ("for_each", "try_for_each") and len(c.args) == 2:
            it = R.op(c.args[0])
            if it is not None:
                base = it[:-1] if it[-1:] == (("E",),) else it
                if is_prefix(base, leaf) and len(leaf) > len(base) and leaf[len(base)] == ("[]",):
                    g = closure_fn(self.db, self.fn, c.args[1])
                    if g is not None and it == base:
                        return self.sub(g, ("arg", 2) + leaf[len(base) + 1:], c)
        if c.c.get("rk") == "shim" and len(tg) == 1:
            return False
        # an Option handed to a combinator taking a closure
        if len(tg) != 1:
            return False
        g = self.db.fns[tg[0]]
        if g.kind == "closure" or g.id in self.stack or len(self.stack) > 5 or not self.client.may_delegate(g):
            return False
        for i, a in enumerate(c.args):
            p = R.op(a)
            if p is not None and is_prefix(p, leaf) and (len(p) > 2 or len(c.args) > 0):
                if i + 1 > g.argc:
                    continue
                if self.sub(g, ("arg", i + 1) + leaf[len(p):], c):
                    return True
        return False

    def sub(self, g, leaf, c):
        if g.id in self.stack or len(self.stack) > 5:
            return False
        a = An(self.db, g, self.client, self.stack + (self.fn.id,))
        return a.covered(leaf) is None


def closure_fn(db, f, o):
    if o[0] == "c":
        t = f.r["T"][o[1]["t"]]
        if t["k"] == "closure":
            return db.fns.get(t["p"])
        return None
    if o[0] in ("cp", "mv"):
        t = f.r["T"][f.ty(o[1][0])]
        while t["k"] == "ref":
            t = f.r["T"][t["t"]]
        if t["k"] == "closure":
            return db.fns.get(t["p"])
    return None


def variant_names(db, T, tid):
    t = T[tid]
    while t["k"] in ("ref", "ptr"):
        t = T[t["t"]]
    if t["k"] != "adt":
        return None
    a = db.adts.get(t["p"])
    if a is None:
        n = last(t["p"])
        if n == "Option":
            return {0: "None", 1: "Some"}
        if n == "Result":
            return {0: "Ok", 1: "Err"}
        return None
    if a["kind"] != "enum":
        return None
    return {v[1]: v[0] for v in a["vars"]}
