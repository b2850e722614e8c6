"""Access paths: which part of a parameter does a MIR value denote?

A path is a tuple: ("arg", i) followed by elements
   ("f", name) field, ("v", Variant) variant downcast, ("[]",) any element,
   ("k", text) element at a key that is not a whole-range iteration,
   ("#b",) the backing allocation of an array, ("N",) the Option a whole-range
   iterator's next() returned, ("E",) an enumerate() pair.
References, dereferences, Box/Rc and pointer casts are transparent.

Resolution is relative to a set of live blocks, so a local bound on several
arms of a match denotes one path once the arms a rule excludes are removed."""
from db import *

IDENT = {
    "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "iter", "iter_mut", "into_iter",
    "as_slice", "as_mut_slice", "by_ref", "cast", "as_ptr", "as_deref", "as_deref_mut", "copied", "cloned",
    "clone", "from_ref", "from_mut", "rev", "as_mut_ptr", "to_owned", "to_vec", "drain_all", "values", "values_mut", "from", "into", "new_unchecked", "peekable", "as_non_null", "into_inner_ref", "fuse",
}
UNWRAP = {"unwrap", "expect", "unwrap_unchecked"}


class Resolver:
    def __init__(self, fn, live=None, depth=0, bind=None):
        self.fn, self.live, self.depth = fn, live, depth
        self.bind = bind or {}
        self.memo = {}
        self.active = set()

    def op(self, o):
        if o[0] in ("cp", "mv"):
            return self.place(o[1])
        return None

    def place(self, pl):
        base, proj = pl
        p = self.local(base)
        return self.project(p, proj)

    def project(self, p, proj):
        for e in proj:
            if p is None:
                return None
            k = e[0]
            if k == "*":
                continue
            if k == "f":
                name = e[2] if e[2] is not None else str(e[1])
                p = ext_field(p, name, e[1], len(e) > 3 and e[3])
            elif k == "d":
                p = ext_variant(p, e[2])
            elif k == "i":
                idx = self.local(e[1])
                if idx == ("range",) + p or self.counter(e[1]) is not None:
                    p = p + (("[]",),)
                else:
                    p = p + (("k", "i%d" % e[1]),)
            elif k in ("ci",):
                p = p + (("k", str(e[1])),)
            elif k == "ss":
                p = p + (("k", "slice"),)
            else:
                return None
        return p

    def local(self, l):
        if l in self.memo:
            return self.memo[l]
        if l in self.active:
            return None
        self.active.add(l)
        r = self._local(l)
        self.active.discard(l)
        self.memo[l] = r
        return r

    def _local(self, l):
        f = self.fn
        if l in self.bind:
            return self.bind[l]
        ds = f.defs().get(l, [])
        if self.live is not None:
            ds = [d for d in ds if d[1] == "a" or d[0] in self.live]
        out = None
        first = True
        for b, i, rv in ds:
            if i == "a":
                p = ("arg", l)
            elif i == "t":
                p = self.call(Call(f, b, rv))
            else:
                p = self.rvalue(rv)
            if first:
                out, first = p, False
            elif p != out:
                return None
        return out

    def rvalue(self, rv):
        k = rv[0]
        if k == "use":
            return self.op(rv[1])
        if k in ("ref", "raw"):
            return self.place(rv[2])
        if k == "cast":
            return self.op(rv[2])
        if k == "agg":
            a = rv[1]
            if a["k"] == "adt":
                # Range { start: 0, end: len(p) }: the whole-range counter
                if last(a["p"]) == "Range" and len(rv[2]) == 2:
                    s, e = rv[2]
                    if s[0] == "c" and str(s[1].get("v")) == "0":
                        q = self.length_of(e)
                        if q is not None:
                            return ("rangeiter",) + q
                if a.get("vn") == "Some" and len(rv[2]) == 1:
                    p = self.op(rv[2][0])
                    return None if p is None else p + (("some",),)
        return None

    def counter(self, l, depth=4):
        """the local a copy chain leads to, if that local starts at 0 and is only ever incremented by one"""
        f = self.fn
        ds = f.defs().get(l, [])
        if len(ds) == 1 and depth and ds[0][1] not in ("a", "t") and ds[0][2][0] == "use" and ds[0][2][1][0] in ("cp", "mv") and not ds[0][2][1][1][1]:
            return self.counter(ds[0][2][1][1][0], depth - 1)
        if len(ds) != 2:
            return None
        zero = inc = False
        for b, i, rv in ds:
            if i in ("a", "t"):
                return None
            if rv[0] == "use" and rv[1][0] == "c" and str(rv[1][1].get("v")) == "0":
                zero = True
            else:
                e = rv_expr(f, rv)
                if e[0] == "field" and e[2][0] == "bin":
                    e = e[2]
                if e[0] == "bin" and e[1].startswith("Add") and e[2] == ("local", l) and e[3][:2] == ("const", "1") or \
                   e[0] == "bin" and e[1].startswith("Add") and e[2] == ("local", l) and str(e[3][1]) == "1":
                    inc = True
        return l if zero and inc else None

    def length_of(self, o):
        """the path whose len() this operand is"""
        if o[0] not in ("cp", "mv") or o[1][1]:
            return None
        ds = self.fn.defs().get(o[1][0], [])
        if self.live is not None:
            ds = [d for d in ds if d[0] in self.live or d[1] == "a"]
        if len(ds) != 1:
            return None
        b, i, rv = ds[0]
        if i == "t":
            c = Call(self.fn, b, rv)
            if c.name == "len" and c.args:
                return self.op(c.args[0])
            return None
        if i == "a":
            return None
        if rv[0] in ("use", "cast"):
            return self.length_of(rv[1] if rv[0] == "use" else rv[2])
        if rv[0] == "un" and rv[1] == "PtrMetadata":
            return self.op(rv[2])
        return None

    def call(self, c):
        n = c.name
        if not c.args:
            return None
        a0 = self.op(c.args[0])
        if a0 is None:
            return None
        if n == "next" or n == "next_back":
            if a0[0] == "rangeiter":
                return a0 + (("N",),)
            return a0 + (("N",),)
        if n == "enumerate":
            return a0 + (("E",),)
        if n == "allocated_data":
            return a0 + (("#b",),)
        if n in UNWRAP:
            return ext_field(ext_variant(a0, "Some"), "0", 0, None)
        if n in ("index", "index_mut", "get", "get_mut", "get_unchecked", "get_unchecked_mut") and len(c.args) == 2:
            idx = self.op(c.args[1])
            ctr = c.args[1][0] in ("cp", "mv") and not c.args[1][1][1] and self.counter(c.args[1][1][0]) is not None
            e = ("[]",) if idx == ("range",) + a0 or ctr else ("k", "idx")
            p = a0 + (e,)
            if n in ("get", "get_mut"):
                return p + (("some",),)
            return p
        if n in ("first", "last", "first_mut", "last_mut"):
            return a0 + (("k", n), ("some",))
        if n in IDENT:
            return a0
        # a local accessor: the path its return value has in terms of its parameters
        tg = self.fn.db.targets(c)
        if len(tg) == 1 and self.depth < 4:
            g = self.fn.db.fns[tg[0]]
            if g.kind != "closure":
                r = Resolver(g, None, self.depth + 1).local(0)
                return self.compose(r, c)
        return None

    def compose(self, r, c):
        if r is None or r[0] != "arg":
            return None
        i = r[1]
        if i - 1 >= len(c.args):
            return None
        base = self.op(c.args[i - 1])
        if base is None:
            return None
        p = base
        for e in r[2:]:
            p = ext(p, e)
        return p


def ext(p, e):
    if e[0] == "f":
        return ext_field(p, e[1], None, None)
    if e[0] == "v":
        return ext_variant(p, e[1])
    return p + (e,)


def ext_variant(p, v):
    if p and p[-1] == ("N",) and v == "Some":
        return p + (("v", v),)
    if p and p[-1] == ("some",) and v == "Some":
        return p + (("v", v),)
    return p + (("v", v),)


TRANSPARENT_OWNERS = ("NonNull", "Unique", "Box", "Rc", "Arc")


def ext_field(p, name, idx, owner):
    if len(p) >= 2 and p[-1] == ("v", "Some") and p[-2] == ("N",) and str(name) == "0":
        q = p[:-2]
        if q and q[0] == "rangeiter":
            return ("range",) + q[1:]
        if q and q[-1] == ("E",):
            return q + (("Ei",),)
        return q + (("[]",),)
    if len(p) >= 2 and p[-1] == ("v", "Some") and p[-2] == ("some",) and str(name) == "0":
        return p[:-2]
    if p and p[-1] == ("Ei",):
        if str(name) == "1":
            return p[:-2] + (("[]",),)
        q = p[:-2]
        return ("range",) + q
    if p[-1] == ("#b",) and False:
        return p
    if owner and last(str(owner)) in TRANSPARENT_OWNERS:
        return p
    return p + (("f", str(name)),)


def fmt(p):
    if p is None:
        return "?"
    s = "self" if p[:2] == ("arg", 1) else "arg%s" % (p[1] if len(p) > 1 else "?")
    for e in p[2:]:
        if e[0] == "f":
            s += "." + e[1]
        elif e[0] == "v":
            s += "(%s)" % e[1]
        elif e[0] == "[]":
            s += "[*]"
        elif e[0] == "#b":
            s += ".<backing>"
        else:
            s += "{%s}" % "".join(map(str, e))
    return s


def is_prefix(a, b):
    return a is not None and b is not None and len(a) <= len(b) and b[:len(a)] == a


# --------------------------------------------------------------- types
def ty_subst(T, tid, env):
    """(T, tid, env) -> a resolved node: ('adt', path, [nodes]) | ('ref', node) | ('param', name) ..."""
    t = T[tid]
    k = t["k"]
    if k == "adt":
        return ("adt", t["p"], tuple(ty_subst(T, a, env) for a in t["a"]))
    if k in ("ref", "ptr"):
        return (k, ty_subst(T, t["t"], env))
    if k in ("slice", "array"):
        return (k, ty_subst(T, t["t"], env))
    if k == "tuple":
        return ("tuple", tuple(ty_subst(T, a, env) for a in t["a"]))
    if k == "param":
        return env.get(t["p"], ("param", t["p"]))
    if k == "prim":
        return ("prim", t["p"])
    if k == "dyn":
        return ("dyn", tuple(t["p"]))
    return (k, T.s(tid))


def ty_str(n):
    if n[0] == "adt":
        return last(n[1]) + ("<%s>" % ",".join(ty_str(a) for a in n[2]) if n[2] else "")
    if n[0] in ("ref", "ptr", "slice", "array"):
        return n[0] + " " + ty_str(n[1])
    if n[0] == "tuple":
        return "(%s)" % ",".join(map(ty_str, n[1]))
    return str(n[1])


def adt_fields(db, node):
    """[(variant, [(field, node)])] of a local ADT node, or None"""
    a = db.adts.get(node[1])
    if a is None:
        return None
    T = a["T"]
    gens = [g for g in a["gen"]]
    env = {}
    args = [x for x in node[2]]
    for g, x in zip([g for g in gens if not g.startswith("'")], args):
        env[g] = x
    return [(v[0], [(str(n), ty_subst(T, t, env)) for n, t in v[2]]) for v in a["vars"]], a["kind"]
