"""Traversal coverage: which sub-expressions of a construct does a recursive
function reach?

A traversal is a function that tells the variants of a tree type apart and
belongs to a cycle of the call graph, or hands the parts to a function it was
given.  For every variant and every part of it that is a sub-tree, each normal
path from that variant's arm to the function's end must visit the part: pass it
to a function of the same cycle, to a callable parameter, to a generic helper
together with such a callable, or onto the worklist the function drains.
Whether a value is (made from) a part is decided by a forward origin analysis;
a part that went through skip/take/filter/get and the like is only partly there."""
from db import *

PARTIAL = {"filter", "skip", "take", "step_by", "take_while", "skip_while", "first", "last", "nth", "get", "split_first", "split_last",
           "get_mut", "first_mut", "last_mut", "pop", "retain", "truncate", "find", "position", "rposition", "len", "is_empty",
           "is_some", "is_none", "is_some_and", "contains", "contains_key", "ptr_eq", "eq", "ne", "smid", "count", "min", "max", "sum"}
DEAD = {"len", "is_empty", "is_some", "is_none", "contains", "contains_key", "ptr_eq", "eq", "ne", "smid", "count", "capacity"}
CALLS = {"call", "call_mut", "call_once"}


def tarjan(g):
    idx, low, on, st, out, n = {}, {}, set(), [], {}, [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(sorted(g.get(root, ()))))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g.get(w, ())))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                for w in comp:
                    out[w] = frozenset(comp)
    return out


class Tree:
    """the tree type: an enum generic in, or recursive through, its child type"""
    def __init__(self, db, adt, child):
        self.db = db
        self.adt = db.adts[adt]
        self.id = adt
        self.child = child          # predicate on (T, tid) peeled: is this the child type?
        self.vars = {v[1]: v[0] for v in self.adt["vars"]}
        self._has = {}
        self.leaves = {}
        T = self.adt["T"]
        for name, d, fields in self.adt["vars"]:
            ls = []
            for i, (fn, ft) in enumerate(fields):
                for sub in self.parts(T, ft):
                    ls.append((i,) + sub)
            self.leaves[name] = ls

    def has(self, T, tid, seen=()):
        """does a value of this type hold a child?"""
        k = (id(T), tid)
        if k in self._has:
            return self._has[k]
        if k in seen:
            return False
        t = T[tid]
        if self.child(T, tid):
            r = True
        elif t["k"] == "adt":
            r = any(self.has(T, a, seen + (k,)) for a in t["a"])
            if not r and t["p"] in self.db.adts and not t["a"]:
                a = self.db.adts[t["p"]]
                r = any(self.has(a["T"], x, seen + (k,)) for v in a["vars"] for _, x in v[2])
        elif t["k"] in ("ref", "ptr", "slice", "array"):
            r = self.has(T, t["t"], seen + (k,))
        elif t["k"] == "tuple":
            r = any(self.has(T, a, seen + (k,)) for a in t["a"])
        else:
            r = False
        self._has[k] = r
        return r

    def parts(self, T, tid):
        """sub-paths (field names) of the parts of a field: a scope has several"""
        if not self.has(T, tid):
            return []
        t = T[tid]
        if t["k"] == "adt" and t["p"] in self.db.adts and last(t["p"]) == "Scope":
            a = self.db.adts[t["p"]]
            out = []
            gens = [g for g in a["gen"] if not g.startswith("'")]
            env = dict(zip(gens, t["a"]))
            for _, _, fs in a["vars"]:
                for n, x in fs:
                    xt = a["T"][x]
                    if xt["k"] == "param":
                        if self.has(T, env.get(xt["p"], tid)):
                            out.append((str(n),))
                    elif self.has(a["T"], x):
                        out.append((str(n),))
            return out
        return [()]


class Fun:
    """one function or closure with what is known about its inputs"""
    def __init__(self, an, f, tree, scc, seeds=None, caps=None, params=None, vis=None, depth=0, loose=False):
        self.loose = loose         # partial uses and visits on some path only count
        self.an, self.f, self.tree, self.scc = an, f, tree, scc
        self.caps, self.params, self.vis = caps or {}, params or {}, vis or set()
        self.depth = depth
        self.base = seeds          # (locals denoting the matched value, variant) or None
        self.org = {}
        self.grp = {}
        self.solve()

    def succ(self, n):
        return [self.grp[n]] if n in self.grp else self.f.succ(n)

    def reach_from(self, starts):
        seen, st = set(starts), list(starts)
        while st:
            n = st.pop()
            for x in self.succ(n):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return seen

    # origins: local -> {leaf: full?}
    def get(self, l):
        return self.org.get(l, {})

    def of_place(self, pl):
        l, proj = pl
        f = self.f
        T = f.r["T"]
        cur = dict(self.get(l))
        tid = f.ty(l)
        wh = self.base is not None and l in self.base[0]
        i = 0
        whole = wh
        if l == 1 and f.kind == "closure":
            # captured values
            for k, e in enumerate(proj):
                if e[0] == "f":
                    cur = dict(self.caps.get(e[1], {}))
                    proj = proj[k + 1:]
                    return self.project(cur, proj)
            return {}
        if whole:
            for k, e in enumerate(proj):
                if e[0] == "d":
                    if e[2] != self.base[1]:
                        return {}
                elif e[0] == "f":
                    if k and proj[k - 1][0] == "d":
                        rest = proj[k + 1:]
                        names = [str(x[2] if x[2] is not None else x[1]) for x in rest if x[0] == "f"]
                        out = {}
                        for lf in self.tree.leaves[self.base[1]]:
                            if lf[0] == e[1]:
                                sub = lf[1:]
                                if all(a == b for a, b in zip(sub, names)):
                                    out[lf] = True
                        rr = [x for x in rest if x[0] == "f"][len(next(iter(out))[1:]):] if out and len(next(iter(out))) > 1 and names else [x for x in rest if x[0] != "f"] if not names else rest
                        if out and names and len(next(iter(out))) == 1:
                            rr = rest
                        return self.project(out, rr)
            return {("*",): True}
        return self.project(cur, proj)

    def project(self, cur, proj):
        if not cur:
            return cur
        for e in proj:
            if e[0] in ("i", "ci", "ss"):
                cur = {k: (v if e[0] == "i" or self.loose else False) for k, v in cur.items()}
                if e[0] == "i":
                    pass
            elif e[0] == "f":
                owner = e[3] if len(e) > 3 else None
                if owner and owner in self.tree.db.adts:
                    a = self.tree.db.adts[owner]
                    nm = str(e[2] if e[2] is not None else e[1])
                    keep = None
                    if last(owner) == "Scope":
                        # narrow to the part of this name
                        sel = {k: v for k, v in cur.items() if len(k) < 2 or k[1] == nm}
                        cur = sel
                        continue
                    for v in a["vars"]:
                        for n, x in v[2]:
                            if str(n) == nm:
                                keep = self.tree.has(a["T"], x) or a["T"][x]["k"] == "param" or holds_param(a["T"], x)
                    if keep is False:
                        return {}
        return cur

    def of_op(self, o):
        if o[0] in ("cp", "mv"):
            return self.of_place(o[1])
        return {}

    def merge(self, l, d):
        if not d:
            return False
        cur = self.org.setdefault(l, {})
        ch = False
        for k, v in d.items():
            if k not in cur or (v and not cur[k]):
                cur[k] = v or cur.get(k, False)
                ch = True
        return ch

    def rv(self, rv):
        k = rv[0]
        if k in ("use", "repeat"):
            return self.of_op(rv[1])
        if k in ("ref", "raw"):
            return self.of_place(rv[2])
        if k == "cast":
            return self.of_op(rv[2])
        if k == "agg":
            out = {}
            if rv[1]["k"] == "closure":
                return {}
            for o in rv[2]:
                for kk, v in self.of_op(o).items():
                    out[kk] = out.get(kk, False) or v
            return out
        return {}

    def solve(self):
        f = self.f
        for l, d in self.params.items():
            self.merge(l, d)
        for _ in range(60):
            ch = False
            for b in f.reach:
                bb = f.bbs[b]
                for s in bb["s"]:
                    if s[0] == "=":
                        d = self.rv(s[2])
                        ch |= self.merge(s[1][0], d)
                        if d and s[1][1] and s[1][1][0][0] == "*":
                            # written through a pointer: what it was made from holds the value too
                            l = s[1][0]
                            for _ in range(6):
                                ds = f.defs().get(l, [])
                                if len(ds) != 1 or ds[0][1] in ("a", "t"):
                                    break
                                rv = ds[0][2]
                                o = rv[2] if rv[0] == "cast" else rv[1] if rv[0] == "use" else ["cp", rv[2]] if rv[0] in ("ref", "raw") else None
                                if o is None or o[0] not in ("cp", "mv"):
                                    break
                                l = o[1][0]
                                ch |= self.merge(l, d)
                t = bb["t"]
                if t[0] == "call":
                    c = Call(f, b, t)
                    d = self.call_result(c)
                    if d:
                        ch |= self.merge(c.dest[0], d)
                    # a value pushed into a collection
                    if c.name in ("push", "push_back", "extend", "insert", "append", "extend_from_slice", "push_front") and len(c.args) >= 2:
                        tgt = self.root(c.args[0])
                        if tgt is not None:
                            for a in c.args[1:]:
                                ch |= self.merge(tgt, self.of_op(a))
            if not ch:
                break

    def root(self, o, depth=6):
        """the local a reference operand refers to"""
        if o[0] not in ("cp", "mv"):
            return None
        l = o[1][0]
        if o[1][1] and any(e[0] != "*" for e in o[1][1]):
            return None
        ds = self.f.defs().get(l, [])
        if len(ds) == 1 and depth and ds[0][1] not in ("a", "t"):
            rv = ds[0][2]
            if rv[0] == "ref" and not [e for e in rv[2][1] if e[0] != "*"]:
                return self.root(["cp", [rv[2][0], []]], depth - 1)
            if rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1]:
                return self.root(rv[1], depth - 1)
        return l

    def call_result(self, c):
        if c.name in DEAD:
            if c.name == "len" and c.args:
                # the number of elements, as the bound of a counting loop
                return {("#",) + k: True for k, v in self.of_op(c.args[0]).items() if v and k[0] != "*" and k[0] != "#"}
            return {}
        out = {}
        for a in c.args:
            for k, v in self.of_op(a).items():
                out[k] = out.get(k, False) or v
        if c.name in PARTIAL:
            out = {k: self.loose for k in out}
        # the whole value only makes sense through projections and derefs
        if ("*",) in out and self.base:
            for t in self.an.db.targets(c):
                g = self.an.db.fns[t]
                if g is not self.f and self.an.is_child_list(g):
                    for lf in self.tree.leaves[self.base[1]]:
                        if self.an.covers(g, self.tree, self.base[1], lf):
                            out[lf] = True
        if ("*",) in out and c.name not in ("deref", "as_ref", "clone", "borrow", "inner", "to_owned"):
            out.pop(("*",))
        return out

    # ---- visiting ----
    def callable(self, o, depth=5):
        """is this operand a visitor handed to us (a parameter or a captured one)?"""
        if o[0] == "c":
            fn = o[1].get("fn")
            if fn:
                p = fn.get("r") or fn.get("p") if isinstance(fn, dict) else fn
                if p in self.scc:
                    return True
                if isinstance(fn, dict) and fn.get("tr"):
                    return any(x in self.scc for x in self.an.db.trait_impl_methods().get(fn["p"], ()))
            return False
        f = self.f
        l, proj = o[1]
        T = f.r["T"]
        if f.kind == "closure" and l == 1:
            for e in proj:
                if e[0] == "f":
                    return e[1] in self.vis
            return False
        if any(e[0] == "f" for e in proj):
            return False
        t = T[T.peel(f.ty(l))]
        if 1 <= l <= f.argc:
            return t["k"] in ("param", "dyn", "fnptr") or (t["k"] == "adt" and last(t["p"]) == "Box") if f.kind != "closure" else False
        if depth == 0:
            return False
        ds = f.defs().get(l, [])
        if len(ds) != 1 or ds[0][1] in ("a",):
            return False
        if ds[0][1] == "t":
            c = Call(f, ds[0][0], ds[0][2])
            return c.name in ("by_ref", "deref", "as_ref", "borrow_mut") and bool(c.args) and self.callable(c.args[0], depth - 1)
        rv = ds[0][2]
        if rv[0] in ("ref", "raw"):
            return self.callable(["cp", rv[2]], depth - 1)
        if rv[0] == "use":
            return self.callable(rv[1], depth - 1)
        if rv[0] == "cast":
            return self.callable(rv[2], depth - 1)
        return False

    def closure_of(self, o, depth=5):
        """(closure fn, captured operands) behind an operand"""
        f = self.f
        if o[0] == "c":
            t = f.r["T"][o[1]["t"]]
            if t["k"] == "closure" and t["p"] in self.an.db.fns:
                return self.an.db.fns[t["p"]], []
            return None
        l, proj = o[1]
        if any(e[0] == "f" for e in proj) or depth == 0:
            return None
        ds = f.defs().get(l, [])
        if len(ds) != 1 or ds[0][1] in ("a", "t"):
            return None
        rv = ds[0][2]
        if rv[0] == "agg" and rv[1]["k"] == "closure":
            g = self.an.db.fns.get(rv[1]["p"])
            return (g, rv[2]) if g else None
        if rv[0] in ("ref", "raw"):
            return self.closure_of(["cp", rv[2]], depth - 1)
        if rv[0] == "use":
            return self.closure_of(rv[1], depth - 1)
        if rv[0] == "cast":
            return self.closure_of(rv[2], depth - 1)
        return None

    def visits(self, c, leaf):
        """does this call visit the leaf?"""
        args = c.args
        full = [self.of_op(a).get(leaf, None) for a in args]
        has = any(x for x in full)
        wholes = any(("*",) in self.of_op(a) for a in args)
        tg = self.an.db.targets(c)
        name = c.name
        if has:
            if any(t in self.scc and self.an.db.fns[t].kind != "closure" and self.helper(c, t, leaf) for t in tg):
                return True
            if name in CALLS and args and self.callable(args[0]):
                return True
            if any(self.callable(a) for i, a in enumerate(args) if not full[i]) and name not in CALLS:
                return True
            if name in ("push", "push_back", "extend", "append", "extend_from_slice", "insert"):
                r = self.root(args[0])
                if r is not None and self.worklist(r):
                    return True
        if wholes:
            for t in tg:
                g = self.an.db.fns[t]
                if g.kind == "closure":
                    continue
                if self.an.covers(g, self.tree, self.base[1] if self.base else None, leaf):
                    # a generic helper visits through the callable it is given
                    if self.an.generic(g):
                        for a in args:
                            if self.callable(a):
                                return True
                            k = self.closure_of(a)
                            if k and self.sub(k, leaf, {leaf: True}, c):
                                return True
                    elif t in self.scc or self.an.scc(g):
                        return True
        # closures created here and consumed by this call
        for i, a in enumerate(args):
            k = self.closure_of(a)
            if not k:
                continue
            if name in CALLS and i == 0:
                given = {}
                for j, b in enumerate(args):
                    if j != i:
                        given.update(self.of_op(b))
            else:
                given = {}
                for j, b in enumerate(args):
                    if j != i:
                        for kk, v in self.of_op(b).items():
                            given[kk] = given.get(kk, False) or v
            if (given.get(leaf) or self.cap_has(k, leaf)) and self.sub(k, leaf, given, c):
                return True
        return False

    def helper(self, c, t, leaf):
        """a function of the cycle: given the part itself it is the recursion, given something
        that holds the part it has to visit it in turn"""
        f, g = self.f, self.an.db.fns[t]
        T = g.r["T"]
        for i, a in enumerate(c.args):
            if self.of_op(a).get(leaf) and i < g.argc:
                if self.tree.child(T, T.peel(g.ty(i + 1))) or T[T.peel(g.ty(i + 1))]["k"] == "param" or T[T.peel(g.ty(i + 1))].get("p") == self.tree.id:
                    return True
        if self.depth > 3:
            return True
        ps = {i + 1: {leaf: True} for i, a in enumerate(c.args) if self.of_op(a).get(leaf)}
        key = (t, leaf, frozenset(ps), self.scc, self.loose)
        if key not in self.an.helpers:
            self.an.helpers[key] = True
            s = Fun(self.an, g, self.tree, self.scc, None, {}, ps, set(), self.depth + 1, self.loose)
            self.an.helpers[key] = s.covered(leaf)
        return self.an.helpers[key]

    def cap_has(self, k, leaf):
        return any(self.of_op(o).get(leaf) for o in k[1])

    def sub(self, k, leaf, given, c):
        g, caps = k
        if self.depth > 5:
            return False
        cc = {i: self.of_op(o) for i, o in enumerate(caps)}
        vis = {i for i, o in enumerate(caps) if self.callable(o) or self.clo_vis(o, leaf)}
        ps = {i: dict(given) for i in range(2, g.argc + 1)}
        s = Fun(self.an, g, self.tree, self.scc, None, cc, ps, vis, self.depth + 1, self.loose)
        return s.covered(leaf)

    def clo_vis(self, o, leaf):
        """a captured local closure that itself visits what it is given"""
        k = self.closure_of(o)
        if not k or self.depth > 4:
            return False
        return self.sub(k, leaf, {leaf: True}, None)

    def worklist(self, l):
        f = self.f
        if self.an.is_child_list(f):
            return l == 0 or self.flows_to_ret(l)
        for c in f.calls():
            if c.name in ("pop", "pop_front", "pop_back") and c.args and self.root(c.args[0]) == l:
                return True
        return False

    def flows_to_ret(self, l):
        ds = self.f.defs().get(0, [])
        return any(i not in ("a", "t") and rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1][0] == l for b, i, rv in ds)

    # ---- paths ----
    def covered(self, leaf):
        bad = self.uncovered(leaf, [0])
        return self.some if self.loose else bad is None

    def uncovered(self, leaf, starts):
        """a path from one of the starts to a normal end that does not visit the leaf, or None"""
        f = self.f
        self.some = False       # is the leaf visited on any path?
        dis_b, dis_e = set(), set()
        reach = self.reach_from(starts)
        vis_b = set()
        listing = self.an.is_child_list(f) and self.get(0).get(leaf)
        for b in reach:
            bb = f.bbs[b]
            for s in bb["s"]:
                if listing and s[0] == "=" and s[2][0] == "agg" and s[2][1]["k"] == "array" and any(self.of_op(o).get(leaf) for o in s[2][2]):
                    vis_b.add(b)
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("vn") == "Err":
                    dis_b.add(b)
            t = bb["t"]
            if t[0] == "call":
                c = Call(f, b, t)
                if c.name == "from_residual":
                    dis_b.add(b)
                elif self.visits(c, leaf):
                    vis_b.add(b)
                elif listing and c.name in ("collect", "from_iter", "into_iter", "into_vec", "box_assume_init_into_vec_unsafe", "to_vec", "cloned", "push", "extend", "append", "insert") and any(self.of_op(a).get(leaf) for a in c.args) \
                        and (c.name in ("push", "extend", "append", "insert") or is_vec(f, c.dest[0])):
                    vis_b.add(b)
        self.some = bool(vis_b)
        loops = {}
        # loops over the part
        for b in reach:
            t = f.bbs[b]["t"]
            if t[0] == "call":
                c = Call(f, b, t)
                if c.name in ("next", "next_back") and c.args and self.of_op(c.args[0]).get(leaf):
                    e = self.loop(b, c, vis_b | dis_b, leaf)
                    if e is not None:
                        dis_e.add(e[0])
                        loops[b] = e[1]
                elif c.name in ("next", "next_back") and c.args and self.of_op(c.args[0]).get(("#",) + leaf) and self.from_zero(c.args[0]):
                    e = self.loop(b, c, vis_b | dis_b, leaf)
                    if e is not None:
                        dis_e.add(e[0])
            elif t[0] == "switch":
                e = self.counting(b, t, vis_b | dis_b, leaf)
                if e is not None:
                    dis_e.add(e)
        body = set().union(*loops.values()) if loops else set()
        dis_b |= {b for b in vis_b}
        for b in reach:
            t = f.bbs[b]["t"]
            if t[0] == "switch":
                dis_e |= self.absent(b, t, leaf)
                dis_e |= self.short(b, t, vis_b, dis_b)
        par = {s: None for s in starts}
        st = list(starts)
        while st:
            n = st.pop(0)
            if n in dis_b:
                continue
            if f.bbs[n]["t"][0] == "ret":
                out = []
                while n is not None:
                    out.append(n)
                    n = par[n]
                return out[::-1]
            for s in self.succ(n):
                if s in par or (n, s) in dis_e:
                    continue
                par[s] = n
                st.append(s)
        return None

    def loop(self, b, c, dis, leaf):
        f = self.f
        sw, seen = c.target, set()
        while sw is not None and sw not in seen:
            seen.add(sw)
            t = f.bbs[sw]["t"]
            if t[0] == "switch":
                break
            ss = self.succ(sw)
            sw = ss[0] if len(ss) == 1 else None
        if sw is None or f.bbs[sw]["t"][0] != "switch":
            return None
        t = f.bbs[sw]["t"]
        some = none = None
        for v, tgt in t[3]:
            if int(v) == 1:
                some = tgt
            elif int(v) == 0:
                none = tgt
        some = t[4] if some is None else some
        none = t[4] if none is None else none
        # every iteration visits
        par = {some}
        st = [some]
        while st:
            n = st.pop()
            if n in dis:
                continue
            if n == b or f.bbs[n]["t"][0] == "ret":
                return None
            for s in self.succ(n):
                if s not in par:
                    par.add(s)
                    st.append(s)
        return ((sw, none), par)

    def from_zero(self, o):
        """is this iterator a range that starts at nought?"""
        f, st, seen = self.f, [o], set()
        while st:
            o = st.pop()
            if o[0] not in ("cp", "mv") or o[1][0] in seen:
                continue
            seen.add(o[1][0])
            for b, i, rv in f.defs().get(o[1][0], []):
                if i == "t":
                    st += Call(f, b, rv).args[:1]
                elif i == "a":
                    continue
                elif rv[0] == "agg" and rv[1].get("p", "").endswith("Range"):
                    return zero(rv[2][0])
                elif rv[0] == "use":
                    st.append(rv[1])
                elif rv[0] == "ref":
                    st.append(["cp", rv[2]])
        return False

    def counting(self, b, t, dis, leaf):
        """the exit edge of a loop that counts from nought to the number of elements and visits each"""
        f, op = self.f, t[1]
        if op[0] not in ("cp", "mv") or op[1][1]:
            return None
        ds = f.defs().get(op[1][0], [])
        if len(ds) != 1 or ds[0][1] in ("a", "t") or ds[0][2][0] != "bin" or ds[0][2][1] not in ("Lt", "Gt", "Ne", "Ge", "Le", "Eq"):
            return None
        kind, x, y = ds[0][2][1:4]
        n = [o for o in (x, y) if self.of_op(o).get(("#",) + leaf)]
        if len(n) != 1:
            return None
        i = y if n[0] is x else x
        if not self.starts_zero(i):
            return None
        more = {"Lt": n[0] is y, "Gt": n[0] is x, "Ne": True, "Ge": False, "Le": False, "Eq": False}[kind]
        z = [tgt for v, tgt in t[3] if int(v) == 0]
        if not z:
            return None
        body, out = (t[4], z[0]) if more else (z[0], t[4])
        if b not in self.reach_from([body]):
            return None
        seen, st = {body}, [body]
        while st:
            m = st.pop()
            if m in dis:
                continue
            if m == b or f.bbs[m]["t"][0] == "ret":
                return None
            for s in self.succ(m):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return (b, out)

    def starts_zero(self, o):
        f, st, seen, got = self.f, [o], set(), False
        while st:
            o = st.pop()
            if o[0] == "c":
                if not zero(o):
                    return False
                got = True
                continue
            l = o[1][0]
            if l in seen:
                continue
            seen.add(l)
            for b, i, rv in f.defs().get(l, []):
                if i in ("a", "t"):
                    return False
                if rv[0] == "use":
                    st.append(rv[1])
                elif rv[0] == "bin":
                    st += [a for a in rv[2:4] if a[0] != "c"]
        return got

    def absent(self, b, t, leaf):
        """edges on which the part is not there"""
        f = self.f
        op = t[1]
        if op[0] not in ("cp", "mv") or op[1][1]:
            return set()
        ds = f.defs().get(op[1][0], [])
        if len(ds) != 1 or ds[0][1] == "a":
            return set()
        T = f.r["T"]
        if ds[0][1] == "t":
            c = Call(f, ds[0][0], ds[0][2])
            if c.name in ("is_empty", "is_none", "is_some") and c.args and self.of_op(c.args[0]).get(leaf):
                zero = [tgt for v, tgt in t[3] if int(v) == 0]
                if not zero:
                    return set()
                return {(b, zero[0])} if c.name == "is_some" else {(b, t[4])}
            return set()
        rv = ds[0][2]
        if rv[0] == "discr":
            ty = T[T.peel(rv[2])]
            if ty["k"] == "adt" and last(ty["p"]) == "Option":
                d = self.of_place(rv[1])
                # the part itself, not an element of it
                if d.get(leaf) and not self.is_next(rv[1][0]):
                    e = {(b, tgt) for v, tgt in t[3] if int(v) == 0}
                    return e or {(b, t[4])}
        return set()

    def is_next(self, l):
        return any(i == "t" and Call(self.f, b, rv).name in ("next", "next_back", "pop", "pop_front", "pop_back") for b, i, rv in self.f.defs().get(l, []))

    def short(self, b, t, vis_b, dis_b):
        """a search that has found what it looks for may stop: an edge on the boolean a recursive visit returned"""
        f = self.f
        T = f.r["T"]
        rt = T[f.ty(0)]
        if not (rt["k"] == "prim" and rt["p"] == "bool" or rt["k"] == "adt" and last(rt["p"]) in ("Option",)):
            return set()
        op = t[1]
        if op[0] not in ("cp", "mv") or op[1][1]:
            return set()
        l = op[1][0]
        ds = f.defs().get(l, [])
        if len(ds) == 1 and ds[0][1] not in ("a", "t"):
            rv = ds[0][2]
            if rv[0] in ("discr",):
                l = rv[1][0]
            elif rv[0] == "un":
                l = rv[2][1][0] if rv[2][0] in ("cp", "mv") else l
            ds = f.defs().get(l, [])
        if not any(i == "t" and self.any_visit(Call(f, bb, rv)) for bb, i, rv in ds):
            if rt["k"] == "prim" and ds and all(i == "t" for _, i, _ in ds):
                # a search that the test of some other predicate decides: ends with the answer a hit below gives
                pol = self.polarity()
                es = [tgt for v, tgt in t[3]] + [t[4]]
                if len(pol) == 1:
                    return {(b, e) for e in es if not any(x in dis_b or x in vis_b for x in self.reach_from([e])) and self.answers(e) == pol}
            return set()
        # the edge that ends the search, as opposed to the one that continues to a visit
        out = set()
        es = [tgt for v, tgt in t[3]] + [t[4]]
        going = [e for e in es if any(x in dis_b or x in vis_b for x in self.reach_from([e]))]
        if going and len(going) < len(set(es)):
            out |= {(b, e) for e in es if e not in going}
        return out

    def answers(self, e):
        """the constants an end reached from here may return; None in the set when it returns something else"""
        f, out = self.f, set()
        for b in self.reach_from([e]):
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[1] == [0, []]:
                    rv = s[2]
                    out.add(int(rv[1][1]["v"]) if rv[0] == "use" and rv[1][0] == "c" and "v" in rv[1][1] else None)
            t = f.bbs[b]["t"]
            if t[0] == "call" and t[3][0] == 0:
                out.add(None)
        return out

    def polarity(self):
        """what this search returns when a part has what it looks for"""
        f, out = self.f, set()
        for c in f.calls():
            if c.name in ("any", "all") and any(self.closure_of(a) for a in c.args):
                out.add(1 if c.name == "any" else 0)
            elif any(t in self.scc for t in self.an.db.targets(c)) and c.target is not None and not c.dest[1]:
                t = f.bbs[c.target]["t"]
                if t[0] == "switch" and t[1][0] in ("cp", "mv") and t[1][1] == c.dest:
                    z = [tgt for v, tgt in t[3] if int(v) == 0]
                    for e, k in ((z[0] if z else None, 0), (t[4], 1)):
                        if e is not None and self.answers(e) == {k}:
                            out.add(k)
        return out

    def any_visit(self, c):
        if any(t in self.scc for t in self.an.db.targets(c)):
            return True
        if any(self.closure_of(a) for a in c.args):
            return True
        return c.name in CALLS and bool(c.args) and self.callable(c.args[0])


def zero(o):
    return o[0] == "c" and str(o[1].get("v")) == "0"


def is_vec(f, l):
    t = f.r["T"][f.ty(l)]
    return t["k"] == "adt" and last(t["p"]) == "Vec"


def holds_param(T, tid, seen=()):
    t = T[tid]
    if t["k"] == "param":
        return True
    if t["k"] == "adt":
        return any(holds_param(T, a) for a in t["a"])
    if t["k"] in ("ref", "ptr", "slice", "array"):
        return holds_param(T, t["t"])
    if t["k"] == "tuple":
        return any(holds_param(T, a) for a in t["a"])
    return False


class Trav:
    def __init__(self, db):
        self.db = db
        self.sccs = tarjan({k: v for k, v in db.callgraph().items()})
        self.memo = {}
        self.helpers = {}
        self.some = {}

    def scc(self, f):
        s = self.sccs.get(f.id, frozenset())
        return s if len(s) > 1 or f.id in self.db.callgraph().get(f.id, ()) else frozenset()

    def generic(self, f):
        """takes a callable"""
        T = f.r["T"]
        return any(self.callable_ty(T, f.ty(i)) for i in range(1, f.argc + 1))

    def callable_ty(self, T, tid):
        t = T[T.peel(tid)]
        return t["k"] in ("dyn", "fnptr") or (t["k"] == "param" and t["p"] not in ("Self", "T"))

    def is_child_list(self, f):
        """hands its parts back in a list and does not recurse"""
        T = f.r["T"]
        t = T[f.ty(0)]
        return t["k"] == "adt" and last(t["p"]) == "Vec" and f.kind != "closure" and not self.scc(f)

    def drains(self, f):
        """empties a worklist"""
        return any(c.name in ("pop", "pop_front", "pop_back") for c in f.calls())

    def switches(self, f, tree):
        """[(block, base locals, {variant: target})] the points that tell the variants apart"""
        out = []
        T = f.r["T"]
        for b in sorted(f.reach):
            t = f.bbs[b]["t"]
            if t[0] != "switch" or t[1][0] not in ("cp", "mv"):
                continue
            d = t[1][1][0]
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[1][0] == d and s[2][0] == "discr":
                    ty = T[T.peel(s[2][2])]
                    if ty["k"] == "adt" and ty["p"] == tree.id:
                        m = {tree.vars[int(v)]: tgt for v, tgt in t[3]}
                        rest = [n for n in tree.vars.values() if n not in m]
                        out.append((b, s[2][1], m, rest, t[4]))
        return out

    def main_switch(self, f, tree):
        sw = self.switches(f, tree)
        # the first one dominating most of the work
        return sw

    def bases(self, f, pl):
        """locals that denote the matched value: the matched place's local and whatever it was made from"""
        out = {pl[0]}
        st = [pl[0]]
        while st:
            l = st.pop()
            for b, i, rv in f.defs().get(l, []):
                o = None
                if i == "t":
                    c = Call(f, b, rv)
                    if c.name in ("deref", "as_ref", "clone", "borrow") and c.args and c.args[0][0] in ("cp", "mv"):
                        o = c.args[0][1]
                elif i != "a" and rv[0] in ("ref", "raw"):
                    o = rv[2]
                elif i != "a" and rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                    o = rv[1][1]
                if o is not None and not any(e[0] in ("d", "i", "ci") for e in o[1]) and o[0] not in out:
                    out.add(o[0])
                    st.append(o[0])
        # copies made from those
        ch = True
        while ch:
            ch = False
            for b in f.reach:
                for s in f.bbs[b]["s"]:
                    if s[0] == "=" and not s[1][1] and s[2][0] in ("ref", "use") and s[1][0] not in out:
                        o = s[2][2] if s[2][0] == "ref" else (s[2][1][1] if s[2][1][0] in ("cp", "mv") else None)
                        if o is not None and o[0] in out and not any(e[0] in ("d", "i", "ci") for e in o[1]) and all(e[0] != "f" or e[2] in ("inner",) or True for e in o[1]):
                            if not (o[0] == 1 and f.kind != "closure" and any(e[0] == "f" and e[2] != "inner" for e in o[1])):
                                out.add(s[1][0])
                                ch = True
        return out

    def analyse(self, f, tree):
        """{(variant, leaf): path or None} judged from the switch with most variants"""
        key = (f.id, tree.id)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {}
        sw = self.switches(f, tree)
        scc = self.scc(f)
        if not sw:
            # no arms of its own: judged on what it does with the whole value
            T = f.r["T"]
            ps = {i for i in range(1, f.argc + 1) if tree.child(T, T.peel(f.ty(i))) or T[T.peel(f.ty(i))].get("p") == tree.id}
            if len(ps) != 1 or f.kind == "closure":
                return {}
            base = self.bases(f, [next(iter(ps)), []])
            res = {}
            for v, leaves in tree.leaves.items():
                if leaves:
                    F = Fun(self, f, tree, scc, (base, v))
                    for lf in leaves:
                        res[(v, lf)] = F.uncovered(lf, [0])
            self.memo[key] = res
            return res
        # the group of switches on the same value as the widest one
        best = max(sw, key=lambda s: len(s[2]))
        base = self.bases(f, best[1])
        group = [s for s in sw if s[1][0] in base and not any(e[0] in ("d",) for e in s[1][1])]
        order, st, seen = [], [0], {0}
        while st:
            n = st.pop(0)
            order.append(n)
            for x in f.succ(n):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        if not group:
            return {}
        first = min(group, key=lambda s: order.index(s[0]))
        res = {}
        for v, leaves in tree.leaves.items():
            if not leaves:
                continue
            F = Fun(self, f, tree, scc, (base, v))
            F.grp = {s[0]: s[2].get(v, s[4]) for s in group}
            for lf in leaves:
                res[(v, lf)] = F.uncovered(lf, [first[0]])
        self.memo[key] = res
        return res

    def sometimes(self, f, tree, v, lf):
        """is the part visited on some path at least?"""
        sw = self.switches(f, tree)
        best = max(sw, key=lambda s: len(s[2]))
        base = self.bases(f, best[1])
        group = [s for s in sw if s[1][0] in base and not any(e[0] == "d" for e in s[1][1])]
        F = Fun(self, f, tree, self.scc(f), (base, v), loose=True)
        F.grp = {s[0]: s[2].get(v, s[4]) for s in group}
        F.uncovered(lf, [0])
        return F.some

    def covers(self, g, tree, variant, leaf):
        r = self.analyse(g, tree)
        return bool(r) and (variant, leaf) in r and r[(variant, leaf)] is None

