"""What a built-in reads from its arguments: for every argument position, how far
into the argument the code looks without evaluating it first."""
from db import *
from status import lname

READ0 = {"resolve_native": "whnf"}
CLOS = {"resolve_closure", "resolve_callable_closure"}
# position of the value argument of the machine's inspecting operations
LOOK = {"data_tag": 2, "value_native": 2, "field_native": 2, "data_field": 2}
CLEAN = {"force", "native_value", "data_value", "meta_value", "apply1_thunk", "apply2_thunk", "bif_tail_thunk", "gc_root_get"}
AT_TAG = {"C": "whnf", "T": "spine", "E": "deep"}
AT_PAY = {"T": "spine", "E": "deep"}
BOXED = ("Num", "Str", "Sym", "Zdt")
SCALAR = ("bool", "u8", "u16", "u32", "u64", "usize", "i32", "i64", "f64", "()", "!")


def machine_op(c):
    return lname(c.path) if "IntrinsicMachine" in c.path and "StgIntrinsic" not in c.path else None


class Reads:
    """summaries: (function, tainted parameter) -> (reads, taint of the result).

    taint: "R" reference to the argument, "C" the unevaluated argument itself, "N" its native value,
    "T" its second part (the rest, for a list), "E" any other part of it.
    reads: "whnf" (head of the argument), "pay" (what a boxed value holds),
    "spine" (head of the rest), "deep" (inside its other parts)."""

    def __init__(self, db):
        self.db = db
        self.memo = {}
        self.busy = set()
        self.changed = False

    def summary(self, f, taint):
        """taint: {local: frozenset of kinds}"""
        key = (f.id, tuple(sorted((l, tuple(sorted(t))) for l, t in taint.items())))
        if key in self.memo and key not in self.busy:
            return self.memo[key]
        if key in self.busy:
            return self.memo.get(key, (frozenset(), frozenset()))
        self.busy.add(key)
        self.memo[key] = (frozenset(), frozenset())
        while True:
            old = self.memo[key]
            self.memo[key] = self.analyse(f, dict(taint))
            if self.memo[key] == old:
                break
        self.busy.discard(key)
        return self.memo[key]

    def analyse(self, f, tv):
        reads = set()
        T = f.r["T"]

        def add(l, k):
            if not k or T.s(f.ty(l)) in SCALAR:
                return
            if "N" in k and "Native" not in T.s(f.ty(l)) and "closure" not in T.s(f.ty(l)):
                k = k - {"N"}
            o = tv.get(l, frozenset())
            n = o | k
            if n != o:
                tv[l] = n
                self.dirty = True

        def of(op):
            return tv.get(op[1][0], frozenset()) if op[0] in ("cp", "mv") else frozenset()
        # a cell reached through a pointer is the cell it points to
        self_dirty = True
        while self_dirty:
            self.dirty = False
            for b in sorted(f.reach):
                for s in f.bbs[b]["s"]:
                    if s[0] != "=":
                        continue
                    k = frozenset()
                    rv = s[2]
                    for pl in rv_places(rv):
                        if "N" in tv.get(pl[0], ()) and any(p[0] == "d" and p[2] in BOXED for p in pl[1]):
                            reads.add("pay")
                    if rv[0] in ("discr", "bin", "un", "len"):
                        continue
                    for o in operands(rv):
                        k |= of(o)
                    if rv[0] in ("ref", "raw"):
                        k |= tv.get(rv[2][0], frozenset())
                    if "N" in k and any(p[0] == "d" and p[2] not in BOXED + ("Some", "Ok", "Continue", "Err", "Break", "None") for pl in rv_places(rv) for p in pl[1]):
                        k = k - {"N"}       # a set, vector or array: never boxed
                    add(s[1][0], k)
                t = f.bbs[b]["t"]
                if t[0] != "call":
                    continue
                c = Call(f, b, t)
                d = t[3][0]
                ks = [of(a) for a in t[2]]
                if not any(ks):
                    continue
                op = machine_op(c)
                if op in READ0:
                    if "R" in ks[2] if len(ks) > 2 else False:
                        reads.add("whnf")
                    continue
                if op in CLOS:
                    if "R" in ks[2]:
                        add(d, frozenset("C"))
                    continue
                if op in LOOK:
                    k = ks[2]
                    if op == "value_native" or op == "field_native":
                        reads |= {AT_PAY[x] for x in k if x in "TE"}
                        if op == "field_native" and k & {"C"}:
                            reads.add("deep")
                        elif "C" in k:
                            reads.add("whnf")
                            add(d, frozenset("N"))
                    else:
                        reads |= {AT_TAG[x] for x in k if x in AT_TAG}
                    if op == "data_field" and k & {"C", "T", "E"}:
                        i = const_of(f, t[2][3]) if len(t[2]) > 3 else None
                        add(d, frozenset("T" if i == 1 else "E" if i is not None else "TE")
                            if k & {"C", "T"} else frozenset("E"))
                    continue
                if op is not None:
                    continue
                ts = [self.db.fns[x] for x in self.db.targets(c) if x in self.db.fns]
                local = [g for g in ts if g.file.startswith("src/eval/stg/")]
                if local:
                    for g in local:
                        if tolerant(g):
                            continue
                        args = {}
                        if g.argc == len(ks):
                            args = {i + 1: k for i, k in enumerate(ks) if k}
                        elif len(ks) == 2:      # closure call: environment and a tuple
                            args = {1: ks[0]} if ks[0] else {}
                            for i in range(1, g.argc):
                                if ks[1]:
                                    args[i + 1] = ks[1]
                        r, k = self.summary(g, args)
                        reads |= r
                        add(d, k)
                    continue
                k = frozenset().union(*ks)
                add(d, k)
                if ts and any("N" in ks[i] and is_native(f, a) for i, a in enumerate(t[2])):
                    reads.add("pay")
                # an out-parameter: pushes, extends, stores through &mut
                for i, a in enumerate(t[2]):
                    if a[0] in ("cp", "mv") and T.s(f.ty(a[1][0])).startswith("&mut"):
                        add(a[1][0], k)
                        for q in refs_of(f, a[1][0]):
                            add(q, k)
                # closures handed to the library see what flows through the call
                for a in t[2]:
                    g = closure_fn(self.db, f, a)
                    if g is not None:
                        env = of(a)
                        args = {1: env} if env else {}
                        kk = k - env if (k - env) else k
                        for i in range(1, g.argc):
                            args[i + 1] = k
                        r, k2 = self.summary(g, args)
                        reads |= r
                        add(d, k2)
            self_dirty = self.dirty
        return frozenset(reads), tv.get(0, frozenset())


def tolerant(g):
    """a rendering of whatever is there for a message: text out, no failure"""
    return g.r["T"].s(g.ty(0)).rstrip(">").endswith("string::String") and "Result" not in g.r["T"].s(g.ty(0)) and "Vec" not in g.r["T"].s(g.ty(0))


def is_native(f, a):
    T = f.r["T"]
    t = T[T.peel(f.ty(a[1][0]))] if a[0] in ("cp", "mv") and not a[1][1] else None
    return bool(t) and t["k"] == "adt" and t["p"].endswith("::Native")


def const_of(f, op):
    e = expr_of(f, op)
    return int(e[1]["v"]) if e[0] == "const" and isinstance(e[1], dict) and "v" in e[1] else None


def refs_of(f, l):
    out = []
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[1] == [l, []] and s[2][0] in ("ref", "raw"):
                out.append(s[2][2][0])
    return out


def closure_fn(db, f, a):
    if a[0] not in ("cp", "mv"):
        return None
    T = f.r["T"]
    t = T[T.peel(f.ty(a[1][0]))] if not a[1][1] else None
    if t and t["k"] == "closure":
        return db.fns.get(t["p"])
    return None


def arg_reads(db, rd, f, param=5, seen=()):
    """{index or '?': levels} of what f reads through the argument slice in its parameter"""
    T = f.r["T"]
    # locals that hold args[i] (or a reference to it): via index projections
    out = {}
    consts = {}
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] == "c" and "v" in s[2][1][1]:
                consts[s[1][0]] = int(s[2][1][1]["v"])
    seeds = {}
    slices = {param}
    ch = True
    while ch:
        ch = False
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] in ("use", "ref", "cast"):
                    o = s[2]
                    pl = o[2] if o[0] == "ref" else (o[1][1] if o[0] == "use" and o[1][0] in ("cp", "mv") else (o[2][1] if o[0] == "cast" and o[2][0] in ("cp", "mv") else None))
                    if pl and pl[0] in slices:
                        pr = [p for p in pl[1] if p[0] != "*"]
                        if not pr and not s[1][1] and s[1][0] not in slices:
                            slices.add(s[1][0])
                            ch = True
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] != "=":
                continue
            for pl in rv_places(s[2]):
                if pl[0] in slices:
                    for p in pl[1]:
                        if p[0] == "ci" and not p[3]:
                            seeds.setdefault(p[1], set()).add(s[1][0])
                        elif p[0] == "i":
                            seeds.setdefault(consts.get(p[1], "?"), set()).add(s[1][0])
        t = f.bbs[b]["t"]
        if t[0] == "call":
            c = Call(f, b, t)
            for i, a in enumerate(t[2]):
                if a[0] in ("cp", "mv") and a[1][0] in slices and not [p for p in a[1][1] if p[0] != "*"]:
                    n = lname(c.path)
                    if n in ("len", "is_empty"):
                        continue
                    if n in ("index", "get") and len(t[2]) == 2:
                        e = expr_of(f, t[2][1])
                        v = int(e[1]["v"]) if e[0] == "const" and isinstance(e[1], dict) and "v" in e[1] else "?"
                        seeds.setdefault(v, set()).add(t[3][0])
                    elif n in ("first",):
                        seeds.setdefault(0, set()).add(t[3][0])
                    else:
                        ts = [db.fns[x] for x in db.targets(c) if x in db.fns]
                        sub = False
                        for g in ts:
                            if g.argc == len(t[2]) and g.file.startswith("src/eval/stg/"):
                                sub = True
                                r = arg_reads(db, rd, g, i + 1, seen + (f.id,)) if g.id not in seen else {}
                                for k, v in r.items():
                                    out.setdefault(k, set()).update(v)
                        if not sub:
                            out.setdefault("?", set()).add("slice to " + n)
    for i, ls in seeds.items():
        r, _ = rd.summary(f, {l: frozenset("R") for l in ls})
        out.setdefault(i, set()).update(r)
    return out
