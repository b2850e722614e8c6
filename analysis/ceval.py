"""Constant propagation through pure builder code: tables and syntax trees that
the source builds from constants are recovered as terms.  Anything that depends
on a runtime value becomes unknown and stops the propagation (Unknown)."""
from db import *
import db as D


def lname(p):
    return last(strip_generics(p or ""))


class Unknown(Exception):
    pass


class A:
    """aggregate: struct, enum variant, tuple or closure"""
    __slots__ = ("p", "v", "vn", "fs")

    def __init__(self, p, v, vn, fs):
        self.p, self.v, self.vn, self.fs = p, v, vn, fs

    def __repr__(self):
        return "%s%s" % (self.vn or self.p, self.fs if self.fs else "")


class V(list):
    pass


class M(dict):
    """a map with known keys"""


class It:
    """an iterator over known elements"""
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = xs


class P:
    __slots__ = ("env", "l", "proj", "m")

    def __init__(self, env, l, proj, m=None):
        self.env, self.l, self.proj, self.m = env, l, proj, m


class Uninit:
    __slots__ = ("val",)

    def __init__(self):
        self.val = None


class OpaqueV:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<%s>" % self.what


SOME = lambda x: A("std::option::Option", 1, "Some", [x])
NONE = lambda: A("std::option::Option", 0, "None", [])
OK = lambda x: A("std::result::Result", 0, "Ok", [x])
TUP = lambda *x: A("tuple", 0, None, list(x))


def good(v):
    return v.vn in ("Some", "Ok", "Continue")


class Eval:
    LIMIT = 400000

    def __init__(self, db):
        self.db = db
        self.memo = {}
        self.steps = 0
        self.statics = {}
        self.impl_ix = {}
        for i in db.impls:
            for _, k, p, _ in i["items"]:
                if k == "fn" and i["trait"]:
                    self.impl_ix.setdefault((i["trait"], lname(p)), []).append((i, p))
        self.dfl = {}
        for tr, t in db.traits.items():
            for n, p, hasd in t["items"]:
                if hasd:
                    self.dfl[(tr, lname(p))] = p

    # ---- memory
    def proj(self, env, v, pr):
        for p in pr:
            k = p[0]
            if k == "*":
                if isinstance(v, P):
                    v = self.load(v)
                elif isinstance(v, Uninit):
                    pass
            elif k == "f":
                if isinstance(v, Uninit):
                    continue
                if p[1] == 0 and (p[3] if len(p) > 3 else None) in ("std::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull"):
                    continue
                if isinstance(v, OpaqueV):
                    v = OpaqueV("%s.%s" % (v.what[:60], p[2]))
                    continue
                if not isinstance(v, A):
                    raise Unknown("field of %r" % (v,))
                if p[1] >= len(v.fs):
                    raise Unknown("field %s of %r" % (p[2], v))
                v = v.fs[p[1]]
            elif k == "d":
                if isinstance(v, A) and v.v != p[1]:
                    raise Unknown("downcast")
            elif k == "i":
                i = env[p[1]]
                if not isinstance(v, V) or not isinstance(i, int) or i >= len(v):
                    raise Unknown("index")
                v = v[i]
            elif k == "ci":
                if not isinstance(v, V):
                    raise Unknown("index")
                v = v[-p[1] if p[3] else p[1]]
            elif k == "ss":
                v = V(v[p[1]:(len(v) - p[2] if p[3] else p[2])])
            else:
                raise Unknown("projection")
        return v

    def load(self, p):
        if p.m is not None:
            return p.m[p.l]
        if p.l not in p.env:
            raise Unknown("unset")
        return self.proj(p.env, p.env[p.l], p.proj)

    def place(self, env, pl):
        if pl[0] not in env:
            raise Unknown("unset local %d" % pl[0])
        return self.proj(env, env[pl[0]], pl[1])

    def store(self, env, pl, v):
        l, pr = pl
        if not pr:
            env[l] = v
            return
        cur = env.get(l)
        # follow to the container of the last projection
        i = 0
        while i < len(pr) - 1:
            p = pr[i]
            if p[0] == "*" and isinstance(cur, P):
                if cur.m is not None:
                    cur = cur.m[cur.l]
                else:
                    # restart from the pointee
                    return self.store(cur.env, [cur.l, list(cur.proj) + list(pr[i + 1:])], v)
            else:
                cur = self.proj(env, cur, [p])
            i += 1
        p = pr[-1]
        if isinstance(cur, Uninit):
            cur.val = v
            return
        if p[0] == "*":
            if isinstance(cur, P):
                if cur.m is not None:
                    cur.m[cur.l] = v
                else:
                    self.store(cur.env, [cur.l, list(cur.proj)], v)
                return
            if isinstance(cur, Uninit):
                cur.val = v
                return
            if len(pr) == 1:
                env[l] = v
                return
            raise Unknown("store")
        if isinstance(cur, P):
            cur = self.load(cur)
        if isinstance(cur, Uninit):
            cur.val = v
            return
        if isinstance(cur, OpaqueV):
            return
        if p[0] == "f" and isinstance(cur, A):
            while len(cur.fs) <= p[1]:
                cur.fs.append(None)
            cur.fs[p[1]] = v
        elif p[0] == "f" and cur is None:
            a = A("tuple", 0, None, [])
            while len(a.fs) <= p[1]:
                a.fs.append(None)
            a.fs[p[1]] = v
            self.store(env, [l, pr[:-1]], a)
        elif p[0] == "i" and isinstance(cur, V):
            cur[env[p[1]]] = v
        else:
            raise Unknown("store")

    # ---- operands
    def op(self, f, env, o):
        if o[0] == "mv":
            return self.place(env, o[1])
        if o[0] == "cp":
            v = self.place(env, o[1])
            if isinstance(v, A):
                return A(v.p, v.v, v.vn, list(v.fs))
            return v
        if o[0] != "c":
            return 0
        c = o[1]
        if "v" in c:
            v = c["v"]
            return int(v)
        if "s" in c:
            return c["s"]
        if "fn" in c:
            return ("fn", c["fn"])
        if "k" in c:
            return self.const(f, c)
        T = f.r["T"]
        t = T[c["t"]] if "t" in c else None
        if "static" in c:
            g = self.db.fns.get(c["static"])
            u = T[T.peel(c["t"])]
            return P({0: A(u["p"], 0, "static", []) if u["k"] == "adt" else OpaqueV(c["static"])}, 0, [])
        if t is not None:
            if t["k"] == "adt":
                a = self.db.adts.get(t["p"])
                return A(t["p"], 0, a["vars"][0][0] if a and a["vars"] else None, [])
            if t["k"] == "tuple" and not t["a"]:
                return TUP()
            if t["k"] == "closure":
                return A(t["p"], 0, "closure", [])
            if t["k"] == "array" and str(t.get("n")) == "0":
                return V()
            if t["k"] == "ref":
                u = T[t["t"]]
                if u["k"] == "array" and u.get("n") == "0":
                    return V()
        return OpaqueV("constant")

    def const(self, f, c):
        k = c["k"]
        if "pr" in c and c["pr"] is not None:
            g = self.db.fns.get(k) or f
            key = (g.id, c["pr"])
            if key not in self.statics:
                pb = g.r.get("promoted", [])[c["pr"]]
                r = dict(g.r)
                r.update(pb)
                h = Fn(r, self.db, g.crate)
                self.statics[key] = self.run_env(h, [])
            return self.statics[key]
        g = self.db.fns.get(k)
        if g is not None:
            if k not in self.statics:
                self.statics[k] = self.run_env(g, [])
            v = self.statics[k]
            return A(v.p, v.v, v.vn, list(v.fs)) if isinstance(v, A) else v
        return OpaqueV("constant " + k)

    def rv(self, f, env, rv):
        k = rv[0]
        if k == "use":
            return self.op(f, env, rv[1])
        if k in ("ref", "raw"):
            pl = rv[2]
            if pl[1] and pl[1][-1][0] == "*" :
                base = self.place(env, [pl[0], pl[1][:-1]])
                if isinstance(base, (P, Uninit)):
                    return base
            # a reference through references: anchor at the pointee
            for i, p in enumerate(pl[1]):
                if p[0] == "*":
                    base = self.place(env, [pl[0], pl[1][:i]])
                    if isinstance(base, P):
                        if base.m is not None:
                            v = self.proj(env, base.m[base.l], pl[1][i + 1:])
                            return v if not isinstance(v, (int, str)) else P({0: v}, 0, [])
                        rest = [(["ix", env[q[1]]] if q[0] == "i" else q) for q in pl[1][i + 1:]]
                        if any(q[0] == "ix" for q in rest) or any(q[0] == "*" for q in rest):
                            v = self.place(env, pl)
                            return P({0: v}, 0, [])
                        return P(base.env, base.l, list(base.proj) + rest)
            if any(p[0] == "i" for p in pl[1]):
                return P({0: self.place(env, pl)}, 0, [])
            return P(env, pl[0], list(pl[1]))
        if k == "cast":
            v = self.op(f, env, rv[2])
            if isinstance(v, int) and "IntToInt" in rv[1]:
                s = f.r["T"].s(rv[3])
                bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(s)
                if bits:
                    return v & ((1 << bits) - 1)
            if isinstance(v, A) and "IntToInt" in rv[1]:
                return self.discr(v)
            return v
        if k == "un":
            v = self.op(f, env, rv[2])
            if rv[1] == "PtrMetadata":
                v = self.deref(v)
                if isinstance(v, (V, str)):
                    return len(v)
                raise Unknown("len")
            if isinstance(v, OpaqueV):
                return v
            if not isinstance(v, int):
                raise Unknown("unary")
            return (0 if v else 1) if rv[1] == "Not" else -v
        if k == "bin":
            a, b = self.op(f, env, rv[2]), self.op(f, env, rv[3])
            return self.bin(rv[1], a, b)
        if k == "discr":
            v = self.place(env, rv[1])
            v = self.deref(v)
            if not isinstance(v, A):
                raise Unknown("discr of %r" % (v,))
            return self.discr(v)
        if k == "agg":
            a = rv[1]
            ops = [self.op(f, env, o) for o in rv[2]]
            if a["k"] == "adt":
                return A(a["p"], a.get("v", 0), a.get("vn"), ops)
            if a["k"] == "array":
                return V(ops)
            if a["k"] == "tuple":
                return TUP(*ops)
            if a["k"] == "closure":
                return A(a["p"], 0, "closure", ops)
            return ops[0] if ops else TUP()
        if k == "repeat":
            n = rv[2]
            try:
                n = int(n)
            except (TypeError, ValueError):
                raise Unknown("repeat")
            v = self.op(f, env, rv[1])
            return V([v] * n)
        if k == "len":
            v = self.deref(self.place(env, rv[1]))
            return len(v)
        raise Unknown("rvalue %s" % k)

    def discr(self, v):
        if isinstance(v, OpaqueV):
            return v
        a = self.db.adts.get(v.p)
        if a:
            for n, d, _ in a["vars"]:
                if n == v.vn:
                    return int(d)
        return v.v

    def bin(self, op, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, A) and not a.fs and isinstance(b, int):
            a = self.discr(a)
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            return TUP(OpaqueV("arith"), OpaqueV("arith")) if op.endswith("WithOverflow") else OpaqueV("arith")
        if not isinstance(a, int) or not isinstance(b, int):
            raise Unknown("binary")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        r = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b, "Rem": lambda: a % b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
             "BitXor": lambda: a ^ b, "Shl": lambda: a << b, "Shr": lambda: a >> b, "Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Lt": lambda: int(a < b), "Le": lambda: int(a <= b),
             "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b)}.get(o)
        if r is None:
            raise Unknown("binary %s" % op)
        v = r()
        if op.endswith("WithOverflow"):
            return TUP(v, int(v < 0))
        return v

    def deref(self, v):
        n = 0
        while isinstance(v, P) and n < 20:
            v = self.load(v)
            n += 1
        return v

    # ---- functions
    def run(self, f, args):
        return self.run_env(f, args)

    def run_env(self, f, args):
        env = {i + 1: a for i, a in enumerate(args)}
        bb = 0
        n = 0
        while True:
            self.steps += 1
            n += 1
            if n > self.LIMIT:
                raise Unknown("steps")
            b = f.bbs[bb]
            for s in b["s"]:
                if s[0] == "=":
                    if s[2][0] == "cast" and ("Transmute" == s[2][1] or "PointerExpose" in s[2][1]) and len(s[1][1]) == 0 and self.align_check(f, s):
                        env[s[1][0]] = 0
                        continue
                    self.store(env, s[1], self.rv(f, env, s[2]))
                elif s[0] == "sd":
                    pass
            t = b["t"]
            k = t[0]
            if k == "goto":
                bb = t[1]
            elif k == "drop":
                bb = t[2]
            elif k == "assert":
                bb = t[3]
            elif k == "ret":
                return env.get(0, TUP())
            elif k == "switch":
                v = self.deref(self.op(f, env, t[1]))
                if isinstance(v, A) and not v.fs:
                    v = self.discr(v)
                if not isinstance(v, int):
                    raise Unknown("branch on %r in %s" % (v, f.id))
                bb = next((s for a, s in t[3] if int(a) == v), t[4])
            elif k == "call":
                if t[4] is None:
                    raise Unknown("diverging call %s" % Call(f, bb, t).path)
                v = self.call(f, env, bb, t)
                self.store(env, t[3], v)
                bb = t[4]
            else:
                raise Unknown(k)

    def align_check(self, f, s):
        return f.r["T"].s(f.ty(s[1][0])) == "usize"

    def call(self, f, env, bb, t):
        c = Call(f, bb, t)
        args = [self.op(f, env, a) for a in t[2]]
        if "p" not in c.c and c.c.get("ptr"):
            fv = self.deref(self.op(f, env, c.c["ptr"]))
            return self.apply(f, fv, args)
        return self.invoke(f, c.c, args)

    def invoke(self, f, c, args):
        p = c["p"]
        n = lname(p)
        if n in ("call_once", "call_mut", "call") and "::ops::" in p:
            tup = args[1]
            return self.apply(f, self.deref(args[0]), list(tup.fs))
        r = c.get("r")
        if c.get("rk") in ("item", "shim", "intrinsic") and r in self.db.fns:
            g = self.db.fns[r]
            if g.id.endswith("::deref") and "lazy_static" not in p and "Deref" in g.id and g.id.startswith("eucalypt::<") and args and isinstance(self.deref(args[0]), (A, OpaqueV)):
                z = self.db.fns.get(g.id + "::__static_ref_initialize")
                if z is not None:
                    if z.id not in self.statics:
                        self.statics[z.id] = self.run_env(z, [])
                    return P({0: self.statics[z.id]}, 0, [])
            m = self.model(f, c, n, p, args, True)
            if m is not None:
                return m[0]
            return self.run_env(g, args)
        if "tr" in c and c.get("rk") in ("generic", "virtual") or ("tr" in c and r not in self.db.fns):
            rc = self.deref(args[0]) if args else None
            if isinstance(rc, A) and rc.p not in ("tuple",) and (c["tr"], n) in self.impl_ix or (isinstance(rc, A) and (c["tr"], n) in self.dfl):
                for i, q in self.impl_ix.get((c["tr"], n), ()):
                    g = self.db.fns.get(q)
                    if g is not None and g.argc and self.self_adt(g) == rc.p:
                        return self.run_env(g, args)
                q = self.dfl.get((c["tr"], n))
                if q in self.db.fns:
                    return self.run_env(self.db.fns[q], args)
        m = self.model(f, c, n, p, args, False)
        if m is not None:
            return m[0]
        raise Unknown("call %s in %s" % (p, f.id))

    def self_adt(self, g):
        T = g.r["T"]
        t = T[T.peel(g.ty(1))]
        return t["p"] if t["k"] == "adt" else None

    def apply(self, f, fv, args):
        if isinstance(fv, tuple) and fv[0] == "fn":
            return self.invoke(f, fv[1], args)
        if isinstance(fv, A) and fv.vn == "closure":
            g = self.db.fns.get(fv.p)
            if g is None:
                raise Unknown("closure")
            return self.run_env(g, [P({0: fv}, 0, [])] + args if g.r["T"][g.ty(1)]["k"] == "ref" else [fv] + args)
        raise Unknown("apply %r" % (fv,))

    # ---- the library
    def model(self, f, c, n, p, args, local):
        if local:
            return None
        q = strip_generics(p)
        d = [self.deref(a) for a in args[:2]] + args[2:]
        a0 = d[0] if d else None
        if n == "new_uninit":
            return (Uninit(),)
        if n == "box_assume_init_into_vec_unsafe" or (n in ("into_vec", "assume_init") and isinstance(a0, (Uninit, V))):
            return (a0.val if isinstance(a0, Uninit) else a0,)
        if n == "new" and not args:
            if "HashMap" in q or "BTreeMap" in q or "HashSet" in q:
                return (M(),)
            return ("",) if "String" in q else (V(),)
        if n == "with_capacity":
            return (V(),)
        if n == "from_elem" and isinstance(d[1], int):
            return (V([self.copy(a0) for _ in range(d[1])]),)
        if n == "default" and not args:
            t = f.r["T"].s(c["ga"][0]) if c.get("ga") else ""
            if t in ("bool", "u8", "u16", "u32", "u64", "usize", "i32", "i64"):
                return (0,)
            return (OpaqueV("default %s" % t),)
        if n in ("new", "from", "into", "clone", "as_ref", "as_mut", "deref", "deref_mut", "borrow", "to_string", "to_owned", "as_str", "as_slice", "as_mut_slice", "to_vec", "into_boxed_slice", "unwrap_or_clone", "try_into", "try_from", "identity", "must_use", "into_vec", "as_deref", "cloned", "copied") and len(args) == 1:
            if n in ("try_into", "try_from") and isinstance(a0, int):
                return (OK(a0),)
            if n in ("cloned", "copied", "as_ref", "as_deref", "as_mut") and isinstance(a0, It):
                return (It([self.deref(x) for x in a0.xs]),)
            if n in ("as_ref", "as_mut", "as_deref") and isinstance(a0, A) and a0.p.endswith("::Option"):
                return (A(a0.p, a0.v, a0.vn, [P({0: x}, 0, []) for x in a0.fs]),)
            if n in ("cloned", "copied") and isinstance(a0, A) and a0.p.endswith("::Option"):
                return (A(a0.p, a0.v, a0.vn, [self.deref(x) for x in a0.fs]),)
            if n in ("clone", "to_owned", "to_vec"):
                return (self.copy(a0),)
            if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "as_slice", "as_mut_slice", "as_str"):
                return (args[0],)
            if n == "new" and not ("boxed" in q or "::Rc" in q or "rc::" in q or "Arc" in q or "Cell" in q):
                return (OpaqueV(q),)
            return (args[0] if n in ("new", "from", "into") else a0,)
        if isinstance(a0, V):
            if n == "len":
                return (len(a0),)
            if n == "is_empty":
                return (int(not a0),)
            if n == "push":
                a0.append(args[1])
                return (TUP(),)
            if n in ("extend", "extend_from_slice", "append"):
                x = d[1]
                a0.extend([self.deref(y) for y in (x.xs if isinstance(x, It) else x)])
                return (TUP(),)
            if n in ("iter", "iter_mut"):
                return (It([P(None, i, [], a0) for i in range(len(a0))]),)
            if n == "into_iter":
                if isinstance(args[0], P):
                    return (It([P(None, i, [], a0) for i in range(len(a0))]),)
                return (It(list(a0)),)
            if n == "contains":
                return (int(any(self.same(x, d[1]) for x in a0)),)
            if n in ("index", "index_mut") and isinstance(d[1], int):
                if d[1] >= len(a0):
                    raise Unknown("index out of range")
                return (P(None, d[1], [], a0),)
            if n in ("get", "first", "last") :
                i = d[1] if n == "get" else 0 if n == "first" else len(a0) - 1
                return (SOME(P(None, i, [], a0)) if isinstance(i, int) and 0 <= i < len(a0) else NONE(),)
            if n == "insert" and isinstance(d[1], int):
                a0.insert(d[1], args[2])
                return (TUP(),)
            if n == "reverse":
                a0.reverse()
                return (TUP(),)
        if isinstance(a0, M):
            k = self.deref(args[1]) if len(args) > 1 else None
            if n in ("insert", "get", "get_mut", "contains_key", "contains", "remove") and not isinstance(k, (int, str)):
                raise Unknown("map key")
            if n == "insert":
                old = a0.get(k)
                a0[k] = args[2] if len(args) > 2 else TUP()
                return ((SOME(old) if old is not None else NONE()) if len(args) > 2 else int(old is None),)
            if n in ("get", "get_mut"):
                return (SOME(P(None, k, [], a0)) if k in a0 else NONE(),)
            if n in ("contains_key", "contains"):
                return (int(k in a0),)
            if n == "len":
                return (len(a0),)
            raise Unknown("map %s" % n)
        if isinstance(a0, A) and a0.p.startswith(("std::ops::Range", "core::ops::Range", "std::range", "core::range")) and n in ("into_iter", "rev", "map", "next", "enumerate", "filter", "for_each"):
            lo, hi = a0.fs[0], a0.fs[1]
            if not isinstance(lo, int) or not isinstance(hi, int):
                raise Unknown("range")
            if "Inclusive" in a0.p:
                hi += 1
            if n == "into_iter":
                return (It(list(range(lo, hi))),)
            if n == "next":
                if lo < hi:
                    a0.fs[0] = lo + 1
                    return (SOME(lo),)
                return (NONE(),)
            a0 = It(list(range(lo, hi)))
        if isinstance(a0, It):
            x = a0.xs
            if n in ("into_iter", "by_ref", "iter", "fuse"):
                return (args[0] if n != "iter" else a0,)
            if n == "next":
                return (SOME(x.pop(0)) if x else NONE(),)
            if n == "next_back":
                return (SOME(x.pop()) if x else NONE(),)
            if n == "rev":
                return (It(list(reversed(x))),)
            if n == "enumerate":
                return (It([TUP(i, y) for i, y in enumerate(x)]),)
            if n == "map":
                return (It([self.apply(f, d[1], [y]) for y in x]),)
            if n == "filter":
                return (It([y for y in x if self.apply(f, d[1], [P({0: y}, 0, [])])]),)
            if n == "filter_map":
                o = [self.apply(f, d[1], [y]) for y in x]
                return (It([y.fs[0] for y in o if y.vn == "Some"]),)
            if n == "take":
                return (It(x[:d[1]]),)
            if n == "skip":
                return (It(x[d[1]:]),)
            if n in ("chain", "zip"):
                o = d[1].xs if isinstance(d[1], It) else list(d[1]) if isinstance(d[1], V) else None
                if o is None:
                    raise Unknown(n)
                return (It(x + o) if n == "chain" else It([TUP(a, b) for a, b in zip(x, o)]),)
            if n == "collect":
                return (V(x),)
            if n in ("count", "len"):
                return (len(x),)
            if n == "position":
                for i, y in enumerate(x):
                    if self.apply(f, d[1], [y]):
                        return (SOME(i),)
                return (NONE(),)
            if n in ("any", "all", "find"):
                for y in x:
                    r = self.apply(f, d[1], [P({0: y}, 0, []) if n == "find" else y])
                    if n == "find" and r:
                        return (SOME(y),)
                    if n == "any" and r:
                        return (1,)
                    if n == "all" and not r:
                        return (0,)
                return (NONE() if n == "find" else int(n == "all"),)
            if n == "for_each":
                for y in x:
                    self.apply(f, d[1], [y])
                return (TUP(),)
            if n == "fold":
                acc = args[1]
                for y in x:
                    acc = self.apply(f, args[2], [acc, y])
                return (acc,)
            if n in ("sum", "max", "min"):
                x = [self.deref(y) for y in x]
                if all(isinstance(y, int) for y in x):
                    return (sum(x),) if n == "sum" else (SOME((max if n == "max" else min)(x)) if x else NONE(),)
        if n in ("eq", "ne") and len(d) == 2:
            r = self.same(d[0], d[1])
            return (int(r) if n == "eq" else int(not r),)
        if isinstance(a0, A) and a0.p.endswith(("::Option", "::Result", "::ControlFlow")):
            g = good(a0)
            if n in ("unwrap", "expect"):
                if not g:
                    raise Unknown("unwrap of none")
                return (a0.fs[0],)
            if n in ("unwrap_or", "unwrap_or_else", "unwrap_or_default"):
                return (a0.fs[0] if g else args[1] if n == "unwrap_or" else self.apply(f, d[1], []),)
            if n == "map":
                return (A(a0.p, a0.v, a0.vn, [self.apply(f, d[1], [a0.fs[0]])]) if g else a0,)
            if n == "and_then":
                return (self.apply(f, d[1], [a0.fs[0]]) if g else a0,)
            if n in ("is_some", "is_ok"):
                return (int(g),)
            if n in ("is_none", "is_err"):
                return (int(not g),)
            if n == "ok":
                return (SOME(a0.fs[0]) if g else NONE(),)
            if n in ("ok_or", "ok_or_else"):
                return (OK(a0.fs[0]) if g else A("std::result::Result", 1, "Err", [None]),)
            if n == "branch":
                return (A("std::ops::ControlFlow", 0, "Continue", [a0.fs[0]]) if g else A("std::ops::ControlFlow", 1, "Break", [a0]),)
            if n == "map_err":
                return (a0,)
        if isinstance(a0, OpaqueV) and n in ("unwrap", "expect", "unwrap_or", "unwrap_or_default", "map", "ok_or"):
            return (a0,)
        if isinstance(a0, str):
            if n == "len":
                return (len(a0.encode()),)
            if n in ("starts_with", "ends_with") and isinstance(d[1], str):
                return (int(a0.startswith(d[1]) if n == "starts_with" else a0.endswith(d[1])),)
        if "::ops::" in q and len(d) == 2 and n in ("add", "sub", "mul") and all(isinstance(y, int) for y in d):
            return (d[0] + d[1] if n == "add" else d[0] - d[1] if n == "sub" else d[0] * d[1],)
        if n in ("min", "max") and len(d) == 2 and all(isinstance(y, int) for y in d):
            return ((min if n == "min" else max)(d),)
        if n in ("saturating_sub",) and all(isinstance(y, int) for y in d):
            return (max(0, d[0] - d[1]),)
        if n in ("drop", "forget"):
            return (TUP(),)
        # an opaque value of the library: harmless as long as nothing branches on it
        t = f.r["T"]
        return (OpaqueV(q),) if not any(isinstance(x, (V, It)) and isinstance(args[i], P) and n not in ("fmt",) for i, x in enumerate(d[:1])) else None

    def copy(self, v):
        if isinstance(v, A):
            return A(v.p, v.v, v.vn, [self.copy(x) if not isinstance(x, P) else x for x in v.fs])
        if isinstance(v, V):
            return V([self.copy(x) if not isinstance(x, P) else x for x in v])
        if isinstance(v, It):
            return It(list(v.xs))
        return v

    def same(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if isinstance(a, A) and isinstance(b, A):
            return a.vn == b.vn and len(a.fs) == len(b.fs) and all(self.same(x, y) for x, y in zip(a.fs, b.fs))
        if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
            raise Unknown("comparison")
        return a == b
