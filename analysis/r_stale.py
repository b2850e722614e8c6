"""G03: a heap reference copied into running code is not used after a call
that may run the collector.

Which calls may collect is read off the call graph (with constant flags
followed).  What is live across such a call is computed from MIR; a live value
is a violation when its type carries a managed pointer, or when it borrows
from a value that does, unless it borrows from the roots."""
import re
from collections import defaultdict
from db import *
from paths import ty_subst, ty_str
from paths import adt_fields as _adt_fields
import r_gc

HARMLESS = {"len", "is_empty", "is_some", "is_none", "is_ok", "is_err", "capacity", "drop", "forget"}
BORROWS = re.compile(r"::(Iter|IterMut|Keys|Values|ValuesMut|Windows|Chunks\w*|RChunks\w*|Split\w*|Drain|Chars|CharIndices|Bytes|Lines|Cow|Ref|RefMut)$")
FNTRAIT = re.compile(r"(^|::)(FnOnce|FnMut|Fn)::call")


def adt_fields(db, n):
    x = _adt_fields(db, n)
    return x[0] if x else None


def short(i):
    return i.replace("eucalypt::", "", 1)


class Stale:
    def __init__(self, db):
        self.db = db
        self.gc = r_gc.Gc(db)
        self.collects = {i for i in db.fns if re.search(r"memory::collect::collect\w*$", i)}
        self.machines = set()
        self.roots = set()
        self._h = {}
        self._v = {}
        self._live = {}
        self._mc = {}
        self._node_edges = {}
        self._sw = {}
        self.find_roots()
        self.may = self.back_closure()
        self.hofs()

    # ---------------------------------------------------------- machine types
    def find_roots(self):
        """the type handed to the collector as its roots, and everything that
        has one (or the heap itself) inside"""
        db = self.db
        heap = set()
        for i in self.collects:
            f = db.fns[i]
            for l in range(1, f.argc + 1):
                n = self.node(f, l)
                if n[0] == "ref" and n[1][0] == "adt" and last(n[1][1]) == "Heap":
                    heap.add(n[1][1])
        for f in db.fns.values():
            if f.id in self.collects:
                continue
            for c in f.calls():
                if set(db.targets(c)) & self.collects:
                    for a in c.args:
                        n = self.unsized(f, a)
                        if n is not None:
                            self.roots.add(n)
        self.heap = heap
        self.drivers = self.containing(self.roots)
        self.machines = self.drivers | self.containing(heap)

    def unsized(self, f, a, depth=5):
        """the local type behind an argument that is a trait object"""
        if a[0] == "c" or depth == 0:
            return None
        if self.peeled(f, a[1][0])[0] != "dyn" and depth == 5:
            return None
        n = self.peeled(f, a[1][0])
        if n[0] == "adt":
            return n[1]
        for d in f.defs().get(a[1][0], []):
            if d[1] in ("t", "a"):
                continue
            rv = d[2]
            src = rv[2] if rv[0] == "cast" else rv[1] if rv[0] == "use" else ("cp", [rv[2][0], []]) if rv[0] == "ref" else None
            if src is not None:
                n = self.unsized(f, src, depth - 1)
                if n is not None:
                    return n
        return None

    def peeled(self, f, l):
        n = self.node(f, l)
        while n[0] in ("ref", "ptr"):
            n = n[1]
        return n

    def containing(self, base):
        """these types and every type with one of them inside, or a reference to one"""
        db = self.db
        m = set(base)
        ch = True
        while ch:
            ch = False
            for i, a in db.adts.items():
                if i in m or a.get("T") is None:
                    continue
                gens = [g for g in a.get("gen", []) if not g.startswith("'")]
                for v in adt_fields(db, ("adt", i, tuple(("param", g) for g in gens))) or []:
                    for fd, n in v[1]:
                        while n[0] in ("ref", "ptr"):
                            n = n[1]
                        if n[0] == "adt" and n[1] in m:
                            m.add(i)
                            ch = True
        return m

    # ---------------------------------------------------------------- types
    def node(self, f, l):
        return ty_subst(f.r["T"], f.ty(l), {})

    def vnode(self, f, v):
        if isinstance(v, tuple):
            T = f.r["T"]
            e = T[T.peel(f.ty(1))]
            return ty_subst(T, e["u"][v[1]], {})
        return self.node(f, v)

    def tid(self, f, v):
        if isinstance(v, tuple):
            T = f.r["T"]
            return T[T.peel(f.ty(1))]["u"][v[1]]
        return f.ty(v)

    def holds_t(self, T, tid, byref):
        """does a value of this type hold a managed pointer (through references too, if byref)"""
        t = T[tid]
        if t["k"] == "closure":
            return any(self.holds_t(T, u, byref) for u in t.get("u", ()))
        if t["k"] in ("ref", "ptr"):
            return byref and self.holds_t(T, t["t"], byref)
        if t["k"] in ("slice", "array"):
            return self.holds_t(T, t["t"], byref)
        if t["k"] == "tuple":
            return any(self.holds_t(T, u, byref) for u in t["a"])
        if t["k"] == "adt" and t["p"] not in self.db.adts:
            if not byref and BORROWS.search(t["p"]):
                return False
            return any(self.holds_t(T, u, byref) for u in t["a"])
        return self.holds(ty_subst(T, tid, {}), byref)

    def holds(self, n, byref, seen=()):
        k = (n, byref)
        if k in self._h:
            return self._h[k]
        if n in seen:
            return False
        r = self._holds(n, byref, seen + (n,))
        self._h[k] = r
        return r

    def _holds(self, n, byref, seen):
        k = n[0]
        if k in ("ref", "ptr"):
            return byref and self.holds(n[1], byref, seen)
        if k in ("slice", "array"):
            return self.holds(n[1], byref, seen)
        if k == "tuple":
            return any(self.holds(x, byref, seen) for x in n[1])
        if k != "adt":
            return False
        if n[1] in self.machines:
            return False
        if n[1] not in self.db.adts:
            if not byref and BORROWS.search(n[1]):
                return False
            return any(self.holds(x, byref, seen) for x in n[2])
        if self.scoped(n):
            return True
        if self.gc.carries(n):
            return True
        for v in adt_fields(self.db, n) or []:
            if any(self.holds(x, byref, seen) for _, x in v[1]):
                return True
        return False

    def scoped(self, n):
        """a guard that is a reference to a heap object of its parameter type"""
        gen = [g for g in self.db.adts[n[1]].get("gen", []) if not g.startswith("'")]
        if len(gen) != 1 or "::memory::" not in n[1]:
            return False
        me = ("adt", n[1], (("param", gen[0]),))
        return any(x == ("ref", ("param", gen[0])) for v in adt_fields(self.db, me) or [] for _, x in v[1])

    def hasref(self, n, seen=()):
        """can a value of this type be a borrow of something"""
        k = n[0]
        if k in ("ref", "ptr"):
            m = n[1]
            while m[0] in ("ref", "ptr"):
                m = m[1]
            return not (m[0] == "adt" and m[1] in self.machines) and m[0] not in ("dyn",)
        if k in ("slice", "array"):
            return self.hasref(n[1], seen)
        if k == "tuple":
            return any(self.hasref(x, seen) for x in n[1])
        if k == "adt":
            if n in seen:
                return False
            if n[1] not in self.db.adts:
                if BORROWS.search(n[1]):
                    return True
                return any(self.hasref(x, seen + (n,)) for x in n[2])
            if n[1] in self.machines:
                return False
            if self.view_like(n):
                return False
            return any(self.hasref(x, seen + (n,)) for v in adt_fields(self.db, n) or [] for _, x in v[1])
        if k == "closure":
            return True
        return False

    def view_like(self, n):
        """a handle on the heap as a whole, not on one object"""
        fs = [x for v in adt_fields(self.db, n) or [] for _, x in v[1]]
        return bool(fs) and all(x[0] in ("ref",) and x[1][0] == "adt" and last(x[1][1]) == "Heap" for x in fs)

    def holdsv(self, f, v, byref):
        k = (f.id, v, byref)
        if k not in self._v:
            self._v[k] = self.holds_t(f.r["T"], self.tid(f, v), byref)
        return self._v[k]

    def place_node(self, f, pl):
        """type of a place, None where it cannot be followed"""
        T = f.r["T"]
        pr = list(pl[1])
        v, pr = self.var(f, pl)
        t = T[self.tid(f, v)]
        n = self.vnode(f, v)
        variant = None
        for e in pr:
            if e[0] == "*":
                if n[0] in ("ref", "ptr"):
                    n = n[1]
                elif n[0] == "adt" and last(n[1]) == "Box":
                    n = n[2][0]
                else:
                    return None
            elif e[0] == "d":
                variant = e[1]
                continue
            elif e[0] == "f":
                if n[0] == "tuple":
                    n = n[1][e[1]]
                elif n[0] == "adt":
                    if n[1] in self.db.adts:
                        vs = adt_fields(self.db, n)
                        try:
                            n = vs[variant or 0][1][e[1]][1]
                        except (IndexError, TypeError):
                            return None
                    elif last(n[1]) in ("Option", "Result", "ControlFlow", "Poll"):
                        k = last(n[1])
                        if k in ("Option", "Poll"):
                            n = n[2][0]
                        elif k == "Result":
                            n = n[2][variant or 0]
                        else:
                            n = n[2][1 - (variant or 0)] if len(n[2]) > 1 else n[2][0]
                    else:
                        return None
                else:
                    return None
            elif e[0] in ("i", "ci"):
                if n[0] not in ("slice", "array"):
                    return None
                n = n[1]
            elif e[0] == "ss":
                pass
            variant = None
        return n

    # ------------------------------------------------------------- variables
    def var(self, f, pl):
        """a local, or one captured variable of a closure; and the rest of the path"""
        l, pr = pl[0], list(pl[1])
        if f.kind == "closure" and l == 1:
            q = pr[1:] if pr and pr[0][0] == "*" else pr
            if q and q[0][0] == "f":
                return ("up", q[0][1]), q[1:]
        return l, pr

    # ------------------------------------------------------ may it collect?
    def back_closure(self):
        g = self.db.callgraph()
        rev = defaultdict(set)
        for a, bs in g.items():
            for b in bs:
                rev[b].add(a)
        seen, st = set(self.collects), list(self.collects)
        while st:
            for m in rev.get(st.pop(), ()):
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        return seen

    def hofs(self):
        self.hof = set()
        for i in self.may:
            f = self.db.fns[i]
            for c in f.calls():
                if self.closure_args(f, c):
                    self.hof.update(self.db.targets(c))
        ch = True
        while ch:
            # a function that passes its own callable on
            ch = False
            for i in list(self.hof):
                f = self.db.fns[i]
                for c in f.calls():
                    if FNTRAIT.search(c.path):
                        continue
                    for a in c.args:
                        if a[0] != "c" and self.callable_param(f, a[1][0]):
                            for t in self.db.targets(c):
                                if t not in self.hof:
                                    self.hof.add(t)
                                    ch = True

    def callable_param(self, f, l):
        n = self.node(f, l)
        while n[0] in ("ref", "ptr") or (n[0] == "adt" and last(n[1]) == "Box" and n[2]):
            n = n[1] if n[0] != "adt" else n[2][0]
        return n[0] == "param" or (n[0] == "dyn" and "Fn" in str(n[1]))

    def closures_in(self, T, tid, depth=6):
        t = T[tid]
        out = set()
        if depth == 0:
            return out
        if t["k"] == "closure":
            out.add(t["p"])
            for u in t.get("u", ()):
                out |= self.closures_in(T, u, depth - 1)
        elif t["k"] in ("ref", "ptr", "slice", "array"):
            out |= self.closures_in(T, t["t"], depth - 1)
        elif t["k"] in ("tuple", "adt"):
            for u in t.get("a", ()):
                if isinstance(u, int):
                    out |= self.closures_in(T, u, depth - 1)
        elif t["k"] == "fndef":
            out.add(t.get("r") or t.get("p"))
        return out

    def closure_args(self, f, c):
        """callables that may collect, handed to this call"""
        out = set()
        for a in c.args:
            if a[0] != "c":
                out |= self.closures_in(f.r["T"], f.ty(a[1][0]))
            elif "fn" in a[1]:
                x = a[1]["fn"]
                out.add(x.get("r") or x.get("p"))
        return {x for x in out if x in self.may}

    def bool_params(self, f):
        return [l for l in range(1, f.argc + 1) if f.r["T"].s(f.ty(l)) == "bool"]

    def const_of(self, f, o, env, depth=4):
        if o[0] == "c":
            v = o[1].get("v")
            return bool(v) if isinstance(v, (bool, int)) else None
        l, pr = o[1]
        if pr or depth == 0:
            return None
        if 1 <= l <= f.argc:
            return env.get(l)
        ds = f.defs().get(l, [])
        if len(ds) == 1 and ds[0][1] not in ("t", "a"):
            rv = ds[0][2]
            if rv[0] == "use":
                return self.const_of(f, rv[1], env, depth - 1)
            if rv[0] == "un" and rv[1] == "Not":
                x = self.const_of(f, rv[2], env, depth - 1)
                return None if x is None else not x
        return None

    def live_blocks(self, f, env):
        """blocks reachable from the entry when these flags are constant"""
        if not env:
            return set(f.reach)
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            t = f.bbs[b]["t"]
            nxt = list(f.succ(b))
            if t[0] == "switch":
                v = self.const_of(f, t[1], env)
                if v is not None:
                    for val, bb in t[3]:
                        if int(val) == int(v):
                            nxt = [bb]
                            break
                    else:
                        nxt = [t[4]]
            for m in nxt:
                if m not in seen and m in f.reach:
                    seen.add(m)
                    st.append(m)
        return seen

    def edges(self, fid, key):
        k = (fid, key)
        if k in self._node_edges:
            return self._node_edges[k]
        f = self.db.fns[fid]
        env = dict(key)
        blocks = self.live_blocks(f, env)
        out = set()
        called = set()
        for c in f.calls():
            ts = set(self.db.targets(c))
            called |= ts
            if c.bb not in blocks:
                continue
            for t in ts & self.may:
                out.add((t, self.flags(f, c, t, env)))
            for t in self.closure_args(f, c):
                out.add((t, ()))
        # callables made here, or values of function type
        for t in (self.db.callgraph().get(fid, set()) - called) & self.may:
            g = self.db.fns[t]
            if g.kind == "closure":
                made = {b for b in f.reach for s in f.bbs[b]["s"]
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "closure" and s[2][1].get("p") == t}
                if made and not (made & blocks):
                    continue
            out.add((t, ()))
        self._node_edges[k] = out
        return out

    def flags(self, f, c, t, env):
        g = self.db.fns[t]
        out = []
        if g.kind == "closure":
            return ()
        for p in self.bool_params(g):
            if p - 1 < len(c.args):
                v = self.const_of(f, c.args[p - 1], env)
                if v is not None:
                    out.append((p, v))
        return tuple(out)

    def collecting(self, fid, key=()):
        k = (fid, key)
        if k not in self._mc:
            seen, st, hit = {k}, [k], False
            while st and not hit:
                n = st.pop()
                if n[0] in self.collects:
                    hit = True
                    break
                for m in self.edges(*n):
                    if m not in seen:
                        seen.add(m)
                        st.append(m)
            self._mc[k] = hit
        return self._mc[k]

    def call_collects(self, f, c):
        """names of what may collect in this call"""
        out = []
        for t in self.db.targets(c):
            if t in self.may and self.collecting(t, self.flags(f, c, t, {})):
                out.append(t)
        for t in self.closure_args(f, c):
            if self.collecting(t):
                out.append(t)
        if f.id in self.hof and FNTRAIT.search(c.path) and not self.db.targets(c):
            out.append("its callable argument")
        return out

    # -------------------------------------------------------------- liveness
    def harmless_temps(self, f):
        """references taken only to ask a length or a presence"""
        used = defaultdict(list)
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=":
                    for p in rv_places(s[2]):
                        used[p[0]].append("s")
            t = f.bbs[b]["t"]
            if t[0] == "call":
                nm = last(re.sub(r"<.*?>", "", t[1].get("p", "")))
                for a in t[2]:
                    if a[0] != "c":
                        used[a[1][0]].append(nm)
            elif t[0] == "switch" and t[1][0] != "c":
                used[t[1][1][0]].append("s")
        return {l for l, u in used.items() if u and all(x in HARMLESS for x in u)}

    def uses_of(self, f, pl):
        """the variable a read of this place uses, if what is read can matter"""
        v, pr = self.var(f, pl)
        out = {v}
        for e in pr:
            if e[0] == "i":
                out.add(e[1])
        if pr and self.holdsv(f, v, True) and self.plain_part(f, pl):
            out.discard(v)
        return out

    def plain_part(self, f, pl):
        """a part of a value in Rust's own memory that holds no heap reference"""
        v, pr = self.var(f, pl)
        n = self.place_node(f, pl)
        if n is None or self.holds(n, True) or self.hasref(n):
            return False
        ds = [k for k, e in enumerate(pr) if e[0] == "*"]
        if not ds:
            return True
        for k in ds:
            m = self.place_node(f, [pl[0], list(pl[1])[:len(pl[1]) - len(pr) + k + 1]])
            if m is None:
                return False
            if m[0] == "tuple" or (m[0] == "adt" and m[1] not in self.db.adts):
                continue
            if m[0] in ("ref", "slice", "array"):
                continue
            if m[0] == "adt" and m[1] not in self.gc.keys and not self.scoped(m) and ds[-1] == k:
                continue
            return False
        return True

    def navigates(self, f, c):
        """a library call that only reaches into the one argument that holds references"""
        if self.db.targets(c) or c.c.get("ptr") or FNTRAIT.search(c.path):
            return False
        hs = [a for a in c.args if a[0] != "c" and self.holdsv(f, self.var(f, a[1])[0], True)]
        if len(hs) != 1:
            return False
        for a in c.args:
            if a[0] != "c" and self.closures_in(f.r["T"], f.ty(a[1][0])):
                return False
        d = self.var(f, c.dest)[0]
        return not c.dest[1] and (self.holdsv(f, d, True) or self.hasref_v(f, d))

    def live(self, f):
        """what is needed at the start of each block: a value only copied into
        something unneeded is not needed"""
        if f.id in self._live:
            return self._live[f.id]
        harmless = self.harmless_temps(f)
        calls = {c.bb: c for c in f.calls()}
        nav = {b: self.navigates(f, c) for b, c in calls.items() if b in f.reach}
        li = {b: set() for b in f.reach}
        succ = {b: [m for m in f.succ(b) if m in f.reach] for b in f.reach}

        def step(b):
            out = set()
            for m in succ[b]:
                out |= li[m]
            t = f.bbs[b]["t"]
            if t[0] == "call":
                d, dpr = self.var(f, t[3])
                needed = d in out or any(e[0] == "*" for e in dpr)
                if not dpr:
                    out.discard(d)
                if needed or not nav.get(b):
                    for a in t[2]:
                        if a[0] != "c" and a[1][0] not in harmless:
                            out |= self.uses_of(f, a[1])
            elif t[0] == "switch" and t[1][0] != "c":
                out |= self.uses_of(f, t[1][1])
            elif t[0] == "ret":
                out.add(0)
            for s in reversed(f.bbs[b]["s"]):
                if s[0] != "=":
                    continue
                v, pr = self.var(f, s[1])
                through = any(e[0] == "*" for e in pr)
                if not through and v not in out:
                    continue
                if not pr:
                    out.discard(v)
                if through:
                    out.add(v)
                rv = s[2]
                if rv[0] == "discr":
                    if any(e[0] == "*" for e in rv[1][1]) and not self.plain_deref(f, rv[1]):
                        out.add(self.var(f, rv[1])[0])
                elif rv[0] == "ref" and not s[1][1] and s[1][0] in harmless:
                    pass
                else:
                    for p in rv_places(rv):
                        out |= self.uses_of(f, p)
            return out

        work = True
        while work:
            work = False
            for b in sorted(f.reach, reverse=True):
                n = step(b)
                if n != li[b]:
                    li[b] = n
                    work = True
        self._live[f.id] = li
        return li

    def plain_deref(self, f, pl):
        n = self.place_node(f, pl)
        return n is not None and n[0] == "adt" and n[1] not in self.db.adts

    # ------------------------------------------------------------- borrows
    def base(self, f):
        """variable -> the variables holding managed pointers it may borrow from"""
        if f.id in getattr(self, "_base", {}):
            return self._base[f.id]
        self._base = getattr(self, "_base", {})
        edges = defaultdict(set)      # v -> variables whose borrows it inherits
        direct = defaultdict(set)     # v -> variables borrowed outright

        def read(dst, p):
            v, pr = self.var(f, p)
            edges[dst].add(v)

        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] != "=":
                    continue
                dst = self.var(f, s[1])[0]
                rv = s[2]
                if rv[0] in ("ref", "raw"):
                    p = rv[2]
                    v, pr = self.var(f, p)
                    if self.holdsv(f, v, True) and self.plain_part(f, p):
                        pass
                    elif any(e[0] == "*" for e in pr):
                        edges[dst].add(v)
                    else:
                        n = self.place_node(f, p)
                        if n is None or self.holds(n, True):
                            direct[dst].add(v)
                            edges[dst].add(v)
                else:
                    for o in operands(rv):
                        if o[0] != "c":
                            read(dst, o[1])
            t = f.bbs[b]["t"]
            if t[0] == "call":
                dst = self.var(f, t[3])[0]
                if self.hasref(self.vnode(f, dst)):
                    for a in t[2]:
                        if a[0] != "c":
                            v, pr = self.var(f, a[1])
                            # by value, a guard passed on keeps its referent
                            edges[dst].add(v)
                            if self.holdsv(f, v, False):
                                direct[dst].add(v)
                # a callee may store a borrow into what it is given to write
                muts = [a for a in t[2] if a[0] != "c"]
                for a in muts:
                    n = self.node(f, a[1][0])
                    if n[0] == "ref" and f.r["T"].s(f.ty(a[1][0])).startswith("&mut") and self.hasref(n[1]):
                        for x in muts:
                            if x is not a and self.hasref(self.node(f, x[1][0])):
                                for w in self.pointee(f, a[1][0]):
                                    edges[w].add(self.var(f, x[1])[0])
        out = {}
        allv = set(edges) | set(direct)
        for e in edges.values():
            allv |= e
        for v in allv:
            seen, st, got = {v}, [v], set()
            while st:
                x = st.pop()
                got |= direct[x]
                if self.is_param(f, x):
                    got.add(x)
                for m in edges[x]:
                    if m not in seen and (self.hasref(self.vnode(f, m)) or self.holdsv(f, m, True)):
                        seen.add(m)
                        st.append(m)
            out[v] = got
        self._base[f.id] = out
        return out

    def pointee(self, f, l):
        return [self.var(f, d[2][2])[0] for d in f.defs().get(l, []) if d[1] not in ("t", "a") and d[2][0] == "ref"]

    def is_param(self, f, v):
        return isinstance(v, tuple) or 1 <= v <= f.argc

    def rooted_param(self, f, v):
        """a reference to the references a built-in was called with"""
        n = self.vnode(f, v)
        if n[0] != "ref":
            return False
        while n[0] == "ref":
            n = n[1]
        if n[0] == "slice":
            n = n[1]
        return n[0] == "adt" and last(n[1]) == "Reference"

    def name(self, f, v):
        if isinstance(v, tuple):
            return "captured %d" % v[1]
        return f.lname(v) or "_%d" % v

    def kind(self, f, v):
        return re.sub(r"[\w:]*::", "", f.r["T"].s(self.tid(f, v)))[:60]

    def stale(self, f, v):
        """(bad source variables, rooted parameters it relies on)"""
        bad, lean = set(), set()
        T = f.r["T"]
        if self.holdsv(f, v, False):
            return {v}, set()
        if not self.hasref_v(f, v):
            return bad, lean
        for s in self.base(f).get(v, {v} if self.is_param(f, v) else set()) | ({v} if self.is_param(f, v) else set()):
            if not self.holdsv(f, s, True):
                continue
            if self.is_param(f, s) and self.rooted_param(f, s):
                lean.add(s)
            else:
                bad.add(s)
        return bad, lean

    def hasref_v(self, f, v):
        T = f.r["T"]
        t = T[self.tid(f, v)]
        if t["k"] == "closure":
            return True
        return self.hasref(self.vnode(f, v))


def is_execute(db, f):
    return re.search(r" as .*StgIntrinsic>::execute$", f.id) is not None


def g03(r, db):
    S = Stale(db)
    todo = sorted((S.may | S.hof))
    lean_on = defaultdict(set)     # fid -> params relied on across a collection
    calls = values = fns = 0
    for i in todo:
        f = db.fns[i]
        if f.id in S.collects or "memory::collect" in f.id:
            continue
        cs = [(c, S.call_collects(f, c)) for c in f.calls() if c.bb in f.reach]
        cs = [x for x in cs if x[1]]
        if not cs:
            continue
        fns += 1
        L = S.live(f)
        seen = set()
        for c, what in cs:
            t = f.bbs[c.bb]["t"]
            if t[4] is None or t[4] not in L:
                continue
            calls += 1
            out = set(L[t[4]])
            if not t[3][1]:
                out.discard(S.var(f, t[3])[0])
            for v in sorted(out, key=str):
                values += 1
                bad, lean = S.stale(f, v)
                lean_on[i] |= lean
                for s in sorted(bad, key=str):
                    k = "held:%s:%s:%s" % (short(i), S.name(f, s), c.name)
                    if k in seen:
                        continue
                    seen.add(k)
                    r.ob(k, False, "%s (%s) is used after the call of %s, which may run the collector (%s): the copy is not updated when objects move"
                         % (S.name(f, s), S.kind(f, s), c.name, short(what[0])), "%s:%s" % (f.file, c.line))
        if not seen:
            r.ob("clear:%s" % short(i), True, "nothing that holds or borrows a heap reference is live across its collecting calls", f.file)

    # parameters relied on: what each caller passes
    done = set()
    work = [(i, p) for i in sorted(lean_on) for p in sorted(lean_on[i], key=str)]
    leans = 0
    callers = defaultdict(list)
    for f in db.fns.values():
        for c in f.calls():
            for t in db.targets(c):
                callers[t].append((f, c))
    while work:
        i, p = work.pop()
        if (i, p) in done:
            continue
        done.add((i, p))
        g = db.fns[i]
        sites = []
        if isinstance(p, tuple):
            for f in db.fns.values():
                if g.id.startswith(f.id):
                    for b in f.reach:
                        for s in f.bbs[b]["s"]:
                            if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "closure" and s[2][1].get("p") == i:
                                sites.append((f, s[2][2][p[1]], s[3] if len(s) > 3 else 0, "capture"))
        elif g.kind == "closure":
            for f in db.fns.values():
                if not g.id.startswith(f.id) or f.id == g.id:
                    continue
                for c in f.calls():
                    if c.bb not in f.reach or not any(a[0] != "c" and i in S.closures_in(f.r["T"], f.ty(a[1][0])) for a in c.args):
                        continue
                    if set(db.targets(c)) - {i}:
                        r.note("%s: called by %s, what it is given there is not followed" % (short(i), c.name))
                        continue
                    for a in c.args:
                        if a[0] != "c" and i not in S.closures_in(f.r["T"], f.ty(a[1][0])) and "Reference" in f.r["T"].s(f.ty(a[1][0])):
                            sites.append((f, a, c.line, c.name))
        else:
            for f, c in callers[i]:
                if p - 1 < len(c.args) and c.bb in f.reach:
                    sites.append((f, c.args[p - 1], c.line, c.name))
        for f, o, line, how in sites:
            leans += 1
            if o[0] == "c":
                continue
            v, pr = S.var(f, o[1])
            bad, up = passed(S, f, v)
            r.ob("rooted:%s:%s:%s" % (short(f.id), how, S.name(g, p)), not bad,
                 "%s keeps using its %s after a collection, and %s passes it a reference to its own copy (%s)"
                 % (short(i), S.name(g, p), short(f.id), ", ".join(S.name(f, s) for s in sorted(bad, key=str))),
                 "%s:%s" % (f.file, line))
            for u in up:
                work.append((f.id, u))

    # nothing but the roots keeps a managed pointer between calls
    kept = 0
    for m in sorted(S.drivers - S.roots):
        gens = [g for g in db.adts[m].get("gen", []) if not g.startswith("'")]
        for vn, fs in adt_fields(db, ("adt", m, tuple(("param", g) for g in gens))) or []:
            for fd, n in fs:
                kept += 1
                r.ob("field:%s:%s" % (short(m), fd), not S.holds(n, True),
                     "%s.%s keeps heap references outside the roots the collector scans" % (last(m), fd), db.adts[m].get("file", ""))
    r.count("functions_with_a_collecting_call", fns)
    r.count("collecting_calls", calls)
    r.count("live_values_examined", values)
    r.count("arguments_relied_on_across_a_collection", leans)
    r.count("machine_fields", kept)
    r.floor("collector entry points", len(S.collects), 1)
    r.floor("root types", len(S.roots), 1)


def passed(S, f, v):
    """what an argument that must be rooted is made of: (own copies, own parameters)"""
    bad, up = set(), set()
    if S.holdsv(f, v, False):
        return {v}, set()
    src = S.base(f).get(v, set()) | ({v} if S.is_param(f, v) else set())
    for s in src:
        if not S.holdsv(f, s, True):
            continue
        if S.holdsv(f, s, False):
            bad.add(s)
        elif S.is_param(f, s) and S.rooted_param(f, s):
            up.add(s)
        elif S.is_param(f, s):
            bad.add(s)
    return bad, up
