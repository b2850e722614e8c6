"""The fact database: types, ADTs, impls, constants and MIR bodies of the
current /repo tree, plus the CFG / call-graph / expression utilities the
analyses share.  Nothing here knows a property."""
import json, os, re, sys
from collections import defaultdict, deque
from functools import lru_cache

sys.setrecursionlimit(20000)


class AnchorLost(Exception):
    """An anchor the rule needs is not in the program: fail closed."""


class Fn:
    __slots__ = ("r", "db", "_succ", "_pred", "_defs", "_dom", "_pdom", "_reach", "_cd", "crate", "_calls", "_uses")

    def __init__(self, r, db, crate):
        self.r, self.db, self.crate = r, db, crate
        self._succ = self._pred = self._defs = self._dom = self._pdom = self._reach = self._cd = self._calls = self._uses = None

    id = property(lambda s: s.r["id"])
    name = property(lambda s: s.r.get("name") or s.r["id"].rsplit("::", 1)[-1])
    file = property(lambda s: s.r["file"])
    line = property(lambda s: s.r["line"])
    kind = property(lambda s: s.r["kind"])
    bbs = property(lambda s: s.r["bbs"])
    locals = property(lambda s: s.r["locals"])
    argc = property(lambda s: s.r["argc"])

    def __repr__(self):
        return "<fn %s>" % self.short

    @property
    def short(self):
        return short(self.id)

    @property
    def module(self):
        f = self.file
        return f[4:] if f.startswith("src/") else f

    # ---- CFG (normal edges only: unwinding is not part of any rule) ----
    def succ(self, b):
        if self._succ is None:
            self._succ = [normal_succ(x["t"]) for x in self.bbs]
        return self._succ[b]

    def pred(self, b):
        if self._pred is None:
            p = defaultdict(list)
            for i in range(len(self.bbs)):
                for s in self.succ(i):
                    p[s].append(i)
            self._pred = p
        return self._pred[b]

    @property
    def reach(self):
        if self._reach is None:
            seen, st = {0}, [0]
            while st:
                b = st.pop()
                for s in self.succ(b):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            self._reach = seen
        return self._reach

    def returns(self):
        return [b for b in self.reach if self.bbs[b]["t"][0] == "ret"]

    def dom(self):
        """idom-free: full dominator sets via bitsets."""
        if self._dom is None:
            self._dom = dominators(list(self.reach), 0, self.pred, self.succ)
        return self._dom

    def pdom(self):
        """post-dominators with a virtual exit -1 joining every exit block."""
        if self._pdom is None:
            nodes = list(self.reach) + [-1]
            ex = [b for b in self.reach if not self.succ(b)]
            exs = set(ex)

            def psucc(b):
                if b == -1:
                    return []
                return [-1] if b in exs else self.succ(b)

            def ppred(b):
                if b == -1:
                    return ex
                return [p for p in self.pred(b) if p in self.reach]

            self._pdom = dominators(nodes, -1, psucc, ppred)
        return self._pdom

    def control_deps(self):
        """block -> set of (branch block, successor) it is control dependent on (transitively closed is up to the caller)."""
        if self._cd is None:
            pd = self.pdom()
            cd = defaultdict(set)
            for a in self.reach:
                ss = self.succ(a)
                if len(set(ss)) < 2:
                    continue
                for s in set(ss):
                    # nodes that post-dominate s but not strictly a
                    for n in self.reach:
                        if n in pd[s] and (n == a or n not in pd[a]):
                            cd[n].add((a, s))
            self._cd = cd
        return self._cd

    def calls(self):
        """[(bb, callee dict, args, dest, target, line, macro)] of reachable non-cleanup blocks"""
        if self._calls is None:
            out = []
            for b in sorted(self.reach):
                t = self.bbs[b]["t"]
                if t[0] == "call":
                    out.append(Call(self, b, t))
            self._calls = out
        return self._calls

    def defs(self):
        """local -> [(bb, idx|'t'|'a', rvalue or call)] for whole-local assignments"""
        if self._defs is None:
            d = defaultdict(list)
            for i in range(1, self.argc + 1):
                d[i].append((-1, "a", None))
            for b in sorted(self.reach):
                bb = self.bbs[b]
                for i, s in enumerate(bb["s"]):
                    if s[0] == "=" and not s[1][1]:
                        d[s[1][0]].append((b, i, s[2]))
                t = bb["t"]
                if t[0] == "call" and not t[3][1]:
                    d[t[3][0]].append((b, "t", t))
            self._defs = d
        return self._defs

    def ty(self, local):
        return self.locals[local][0]

    def lname(self, local):
        return self.locals[local][1]

    def reachable_from(self, starts, stop=()):
        seen, st = set(starts), list(starts)
        while st:
            b = st.pop()
            if b in stop:
                continue
            for s in self.succ(b):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen


class Call:
    __slots__ = ("fn", "bb", "c", "args", "dest", "target", "line", "mac")

    def __init__(self, fn, bb, t):
        self.fn, self.bb = fn, bb
        _, self.c, self.args, self.dest, self.target, self.line, self.mac = t[:7]

    @property
    def path(self):
        return self.c.get("p") or "<fnptr>"

    @property
    def rpath(self):
        """resolved path if statically known, else the declared one"""
        if self.c.get("rk") in ("item", "intrinsic", "shim", "virtual"):
            return self.c.get("r") or self.path
        return self.path

    @property
    def name(self):
        return last(self.path)

    def __repr__(self):
        return "<call %s at %s:%s>" % (short(self.rpath), self.fn.file, self.line)


def last(p):
    # last path segment, ignoring generics
    p = strip_generics(p)
    return p.rsplit("::", 1)[-1]


@lru_cache(maxsize=None)
def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<" and (i == 0 or p[i - 1] == ":" and d == 0 and p[:i].endswith("::")) and d == 0:
            # turbofish or leading qualified self
            if i == 0 or p[i - 1] != ":":
                out.append(c)
                i += 1
                continue
            d = 1
            i += 1
            # drop the '::' before
            while out and out[-1] == ":":
                out.pop()
            while i < len(p) and d:
                if p[i] == "<":
                    d += 1
                elif p[i] == ">" and p[i - 1] != "-":
                    d -= 1
                i += 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


@lru_cache(maxsize=None)
def short(p):
    """Readable id: crate prefix and module paths inside <> removed."""
    p = re.sub(r"\beucalypt::", "", p)
    return p


def normal_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + [t[4]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


def dominators(nodes, root, preds, succs):
    order, seen = [], set()
    st = [(root, iter(succs(root)))]
    seen.add(root)
    while st:
        n, it = st[-1]
        for m in it:
            if m not in seen:
                seen.add(m)
                st.append((m, iter(succs(m))))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    num = {n: i for i, n in enumerate(order)}
    idom = {root: root}
    ch = True
    while ch:
        ch = False
        for n in order:
            if n == root:
                continue
            new = None
            for p in preds(n):
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        new = a
            if new is not None and idom.get(n) != new:
                idom[n] = new
                ch = True
    return DomTree(idom, root, num)


class DomTree:
    def __init__(self, idom, root, num):
        self.idom, self.root, self.num = idom, root, num
        self._c = {}

    def __getitem__(self, n):
        """the set of nodes dominating n (n included)"""
        if n in self._c:
            return self._c[n]
        s, m = set(), n
        if n not in self.idom:
            self._c[n] = s
            return s
        while True:
            s.add(m)
            if m == self.root:
                break
            m = self.idom[m]
        self._c[n] = s
        return s


class DB:
    def __init__(self, d, mode="full"):
        self.dir, self.mode = d, mode
        self.fns, self.adts, self.impls, self.traits, self.consts = {}, {}, [], {}, {}
        self.types = {}
        for fname in ("eucalypt.jsonl", "eu.bin.jsonl"):
            crate = "eu" if ".bin" in fname else "eucalypt"
            recs = []
            tys = None
            ended = False
            with open(os.path.join(d, fname), encoding="utf-8") as f:
                for l in f:
                    r = json.loads(l)
                    k = r["R"]
                    if k == "types":
                        tys = r["tys"]
                    elif k == "end":
                        ended = True
                    else:
                        recs.append(r)
            if not ended or tys is None:
                raise AnchorLost("truncated facts " + fname)
            T = TypeTable(tys)
            self.types[crate] = T
            for r in recs:
                r["T"] = T
                k = r["R"]
                if k == "fn":
                    f = Fn(r, self, crate)
                    self.fns[r["id"]] = f
                elif k == "adt":
                    self.adts[r["id"]] = r
                elif k == "impl":
                    self.impls.append(r)
                elif k == "trait":
                    self.traits[r["id"]] = r
                elif k == "const":
                    self.consts[r["id"]] = r
        self._trait_impls = None
        self._closures = None
        self._cg = None
        self._byname = None

    # ---- lookup ----
    def fn(self, suffix, optional=False):
        """the one function whose id is or ends with the given path"""
        c = self.find(suffix)
        if len(c) == 1:
            return c[0]
        if optional and not c:
            return None
        raise AnchorLost("function %s: %d candidates" % (suffix, len(c)))

    def find(self, suffix):
        if suffix in self.fns:
            return [self.fns[suffix]]
        nm = last(suffix)
        if self._byname is None:
            self._byname = defaultdict(list)
            for f in self.fns.values():
                self._byname[last(f.id)].append(f)
        out = []
        for f in self._byname.get(nm, []):
            i = strip_generics(f.id)
            if i == suffix or i.endswith("::" + suffix):
                out.append(f)
        return out

    def adt(self, suffix, optional=False):
        c = [a for k, a in self.adts.items() if k == suffix or k.endswith("::" + suffix)]
        if len(c) == 1:
            return c[0]
        if optional and not c:
            return None
        raise AnchorLost("type %s: %d candidates" % (suffix, len(c)))

    def trait(self, suffix):
        c = [k for k in self.traits if k == suffix or k.endswith("::" + suffix)]
        if len(c) == 1:
            return c[0]
        raise AnchorLost("trait %s: %d candidates" % (suffix, len(c)))

    def impls_of(self, trait):
        return [i for i in self.impls if i["trait"] == trait]

    def trait_impl_methods(self):
        """trait item path -> [impl fn ids] (plus the provided default)"""
        if self._trait_impls is None:
            m = defaultdict(list)
            for i in self.impls:
                for n, k, p, ti in i["items"]:
                    if k == "fn" and ti:
                        m[ti].append(p)
            for t in self.traits.values():
                for n, p, hasd in t["items"]:
                    if hasd and p in self.fns:
                        m[p].append(p)
            self._trait_impls = m
        return self._trait_impls

    def closures_of(self, fid):
        if self._closures is None:
            m = defaultdict(list)
            for f in self.fns.values():
                if f.kind == "closure":
                    m[f.id.rsplit("::{closure", 1)[0]].append(f)
            self._closures = m
        return self._closures.get(fid, [])

    def targets(self, call):
        """possible local callee ids of a call"""
        c = call.c
        out = []
        if "p" not in c:
            return out
        rk = c.get("rk")
        if rk in ("item", "intrinsic"):
            r = c.get("r")
            if r in self.fns:
                return [r]
            # derived/provided method of a foreign trait: nothing local
            return out
        if rk == "shim":
            if c.get("clo") in self.fns:
                return [c["clo"]]
            return out
        tm = self.trait_impl_methods().get(c["p"], [])
        if c["p"] in self.fns and c["p"] not in tm:
            out.append(c["p"])
        out.extend(x for x in tm if x in self.fns)
        return out

    def callgraph(self):
        """id -> set of ids that may run when it runs: resolved calls, trait
        dispatch by class hierarchy, closures created, functions taken as values."""
        if self._cg is None:
            g = {}
            for f in self.fns.values():
                s = set()
                for c in f.calls():
                    s.update(self.targets(c))
                for p in fn_values(f):
                    if p in self.fns:
                        s.add(p)
                    else:
                        s.update(x for x in self.trait_impl_methods().get(p, []) if x in self.fns)
                for b in f.bbs:
                    if b["t"][0] == "drop":
                        pass
                g[f.id] = s
            self._cg = g
        return self._cg

    def closure_reach(self, roots, stop=()):
        g = self.callgraph()
        seen, st = set(roots), list(roots)
        while st:
            n = st.pop()
            if n in stop:
                continue
            for m in g.get(n, ()):
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        return seen

    def path_to(self, roots, goal_set, stop=()):
        g = self.callgraph()
        par = {r: None for r in roots}
        q = deque(roots)
        while q:
            n = q.popleft()
            if n in goal_set:
                out = []
                while n is not None:
                    out.append(n)
                    n = par[n]
                return out[::-1]
            if n in stop:
                continue
            for m in sorted(g.get(n, ())):
                if m not in par:
                    par[m] = n
                    q.append(m)
        return None

    def callers(self):
        r = defaultdict(set)
        for a, bs in self.callgraph().items():
            for b in bs:
                r[b].add(a)
        return r


class TypeTable:
    def __init__(self, tys):
        self.t = tys
        self._s = {}

    def __getitem__(self, i):
        return self.t[i]

    def s(self, i):
        """render"""
        if i in self._s:
            return self._s[i]
        t = self.t[i]
        k = t["k"]
        if k == "adt":
            a = [self.s(x) for x in t["a"]]
            r = t["p"] + ("<%s>" % ",".join(a) if a else "")
        elif k == "ref":
            r = ("&mut " if t["m"] else "&") + self.s(t["t"])
        elif k == "ptr":
            r = ("*mut " if t["m"] else "*const ") + self.s(t["t"])
        elif k == "slice":
            r = "[" + self.s(t["t"]) + "]"
        elif k == "array":
            r = "[" + self.s(t["t"]) + ";" + t["n"] + "]"
        elif k == "tuple":
            r = "(" + ",".join(self.s(x) for x in t["a"]) + ")"
        elif k in ("param", "prim"):
            r = t["p"]
        elif k == "fndef":
            r = "fn:" + t["p"]
        elif k == "closure":
            r = "closure:" + t["p"]
        elif k == "dyn":
            r = "dyn " + "+".join(t["p"])
        elif k == "fnptr":
            r = t["s"]
        else:
            r = t.get("s", "?")
        self._s[i] = r
        return r

    def peel(self, i):
        """through references, raw pointers and Box/Rc/Arc"""
        while True:
            t = self.t[i]
            if t["k"] in ("ref", "ptr"):
                i = t["t"]
            elif t["k"] == "adt" and t["a"] and last(t["p"]) in ("Box", "Rc", "Arc", "NonNull"):
                i = t["a"][0]
            else:
                return i


def operands(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k == "repeat":
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def rv_places(rv):
    """places read by an rvalue (including borrowed)"""
    out = [o[1] for o in operands(rv) if o[0] in ("cp", "mv")]
    if rv[0] == "ref":
        out.append(rv[2])
    elif rv[0] == "raw":
        out.append(rv[2])
    elif rv[0] == "discr":
        out.append(rv[1])
    return out


def fn_values(f):
    """function paths appearing as values (not directly called) and closures built"""
    out = set()

    def op(o):
        if o[0] == "c" and "fn" in o[1]:
            c = o[1]["fn"]
            out.add(c.get("r") if c.get("rk") in ("item", "shim") and c.get("r") else c["p"])

    for b in f.bbs:
        if b.get("c"):
            continue
        for s in b["s"]:
            if s[0] == "=":
                rv = s[2]
                for o in operands(rv):
                    op(o)
                if rv[0] == "agg" and rv[1]["k"] == "closure":
                    out.add(rv[1]["p"])
        t = b["t"]
        if t[0] == "call":
            for a in t[2]:
                op(a)
    for pb in f.r.get("promoted", []):
        for b in pb["bbs"]:
            for s in b["s"]:
                if s[0] == "=":
                    for o in operands(s[2]):
                        op(o)
    # closures with no captures are constants of closure type
    T = f.r["T"]
    for t, _ in f.locals:
        ty = T[t]
        if ty["k"] == "closure":
            out.add(ty["p"])
    return out


# ---------------------------------------------------------------- expressions
def expr_of(f, op, depth=12, seen=frozenset()):
    """A nested tuple describing where an operand's value comes from, following
    single-definition temporaries.  Leaves: ('arg',i) ('const',v) ('str',s)
    ('local',i) ('fnc',p)."""
    if op[0] == "c":
        c = op[1]
        if "v" in c:
            return ("const", c["v"]) if "k" not in c else ("const", c["v"], c["k"])
        if "s" in c:
            return ("str", c["s"])
        if "fn" in c:
            return ("fnc", c["fn"].get("r") or c["fn"]["p"])
        if "k" in c:
            return ("kconst", c["k"], c.get("pr"))
        if "static" in c:
            return ("static", c["static"])
        return ("const", None)
    if op[0] == "rt":
        return ("const", None)
    return place_expr(f, op[1], depth, seen)


def place_expr(f, pl, depth=12, seen=frozenset()):
    base, proj = pl
    e = local_expr(f, base, depth, seen)
    for p in proj:
        k = p[0]
        if k == "*":
            if e[0] == "ref":
                e = e[1]
            else:
                e = ("deref", e)
        elif k == "f":
            if e[0] == "agg" and p[1] < len(e[2]) and (e[1][0] != "enum"):
                e = e[2][p[1]]
            elif e[0] == "as" and e[2][0] == "agg":
                e = e[2][2][p[1]] if p[1] < len(e[2][2]) else ("field", p[2] if p[2] is not None else p[1], e)
            else:
                e = ("field", p[2] if p[2] is not None else p[1], e, p[3] if len(p) > 3 else None)
        elif k == "d":
            e = ("as", p[2], e)
        elif k == "i":
            e = ("index", e, local_expr(f, p[1], depth - 1, seen))
        elif k == "ci":
            e = ("cindex", e, p[1], p[3])
        elif k == "ss":
            e = ("subslice", e, p[1], p[2], p[3])
        else:
            e = ("proj", e)
    return e


def local_expr(f, l, depth=12, seen=frozenset()):
    if 1 <= l <= f.argc:
        ds = f.defs()[l]
        if len(ds) == 1:
            return ("arg", l)
        return ("local", l)
    ds = f.defs().get(l, [])
    if len(ds) != 1 or depth <= 0 or l in seen:
        return ("local", l)
    b, i, rv = ds[0]
    seen = seen | {l}
    if i == "t":
        c = Call(f, b, rv)
        return ("call", c.rpath, tuple(expr_of(f, a, depth - 1, seen) for a in c.args), (b,))
    return rv_expr(f, rv, depth, seen)


def rv_expr(f, rv, depth=12, seen=frozenset()):
    k = rv[0]
    if k == "use":
        return expr_of(f, rv[1], depth - 1, seen)
    if k == "ref" or k == "raw":
        return ("ref", place_expr(f, rv[2], depth - 1, seen))
    if k == "cast":
        x = expr_of(f, rv[2], depth - 1, seen)
        if "Pointer" in rv[1] or "PtrToPtr" in rv[1] or "Transmute" in rv[1] or "Subtype" in rv[1]:
            return ("pcast", x, rv[3])
        return ("cast", x, rv[3])
    if k == "bin":
        return ("bin", rv[1], expr_of(f, rv[2], depth - 1, seen), expr_of(f, rv[3], depth - 1, seen))
    if k == "un":
        return ("un", rv[1], expr_of(f, rv[2], depth - 1, seen))
    if k == "discr":
        return ("discr", place_expr(f, rv[1], depth - 1, seen), rv[2])
    if k == "agg":
        a = rv[1]
        ops = tuple(expr_of(f, o, depth - 1, seen) for o in rv[2])
        if a["k"] == "adt":
            adt = f.db.adts.get(a["p"])
            kind = "enum" if (adt and adt["kind"] == "enum") or (not adt and a["p"] != "" and a["vn"] != last(a["p"])) else "struct"
            return ("agg", (kind, a["p"], a["vn"]), ops)
        return ("agg", (a["k"], a.get("p"), None), ops)
    if k == "repeat":
        return ("repeat", expr_of(f, rv[1], depth - 1, seen), rv[2])
    return ("?", k)


def subexprs(e):
    yield e
    for x in e:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subexprs(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from subexprs(y)


def deps(f, e, seen=None):
    """Subexpressions of e, following locals with several definitions through all of them."""
    seen = set() if seen is None else seen
    for y in subexprs(e):
        yield y
        if y[0] == "local" and y[1] not in seen:
            seen.add(y[1])
            for b, i, rv in f.defs().get(y[1], ()):
                if i == "t":
                    c = Call(f, b, rv)
                    z = ("call", c.rpath, tuple(expr_of(f, a) for a in c.args), (b,))
                else:
                    z = rv_expr(f, rv)
                yield from deps(f, z, seen)


def load():
    import importlib.util
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, os.path.join(os.path.dirname(here), "scripts"))
    import facts
    d, mode, key = facts.ensure()
    db = DB(d, mode)
    db.key = key
    return db
