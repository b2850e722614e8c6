"""What range an integer can have, and which integers come from program data.

The range of a value is read off its definitions (interval arithmetic over
MIR), narrowed by the comparisons every path to the place has passed."""
import re
from db import *

INT = {}
for _b in (8, 16, 32, 64, 128):
    INT["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
    INT["u%d" % _b] = (0, (1 << _b) - 1)
INT["isize"], INT["usize"] = INT["i64"], INT["u64"]
LEN = (0, (1 << 63) - 1)
NEGATED = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}
SWAPPED = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}


def lname(p):
    return re.sub(r"<.*", "", p.rsplit("::", 1)[-1])


def meet(a, b):
    return (max(a[0], b[0]), min(a[1], b[1]))


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]))


def fits(r, ty):
    return r[0] > r[1] or (INT[ty][0] <= r[0] and r[1] <= INT[ty][1])


def int_ty(f, l):
    s = f.r["T"].s(f.ty(l)).lstrip("&")
    return s if s in INT else None


def arith(op, a, b):
    if op.startswith("Add"):
        return (a[0] + b[0], a[1] + b[1])
    if op.startswith("Sub"):
        return (a[0] - b[1], a[1] - b[0])
    if op.startswith("Mul"):
        c = [x * y for x in a for y in b]
        return (min(c), max(c))
    return None


def K(v):
    return ("c", {"v": v})


def strip(e):
    """the same value without the borrowing and copying around it"""
    while e[0] in ("ref", "deref", "pcast"):
        e = e[1]
    if e[0] == "field" and e[1] in (0, "0") and e[2][0] == "bin" and e[2][1].endswith("WithOverflow"):
        return ("bin", e[2][1][:-12], strip(e[2][2]), strip(e[2][3]))
    return tuple(strip(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                 tuple(strip(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x) if isinstance(x, tuple) else x
                 for x in e)


class Ranges:
    def __init__(self, db):
        self.db = db
        self._conds, self._ret, self._callers = {}, {}, None

    # ------------------------------------------------------------ conditions
    def canon(self, f, op):
        """the value an operand is a copy of or a reference to: a constant or a place of a once-assigned local"""
        if op[0] == "c":
            v = op[1].get("v")
            return ("const", v) if isinstance(v, (int, bool)) else ("const", str(op[1])[:80])
        base, proj = op[1]
        proj = tuple(tuple(p[:3]) for p in proj if p[0] != "*")
        for _ in range(40):
            ds = f.defs().get(base, [])
            if len(ds) != 1 or ds[0][1] in ("t", "a"):
                break
            rv = ds[0][2]
            if rv[0] == "use" and rv[1][0] != "c":
                pl = rv[1][1]
            elif rv[0] == "ref":
                pl = rv[2]
            elif rv[0] == "use" and not proj:
                return self.canon(f, rv[1])
            else:
                break
            base, proj = pl[0], tuple(tuple(p[:3]) for p in pl[1] if p[0] != "*") + proj
        return ("v", base, proj)

    def conds(self, f):
        """[(block where it holds on entry, operator, left operand, right operand)] of every branch"""
        if f.id in self._conds:
            return self._conds[f.id]
        out = []
        for b in f.reach:
            t = f.bbs[b]["t"]
            if t[0] != "switch":
                continue
            boolish = f.r["T"].s(t[2]) == "bool"
            edges = {}
            for v, bb in t[3]:
                edges.setdefault(bb, []).append(v)
            for bb, vs in list(edges.items()) + [(t[4], None)]:
                if bb is None or (vs is None and t[4] in edges) or (vs is not None and bb == t[4]):
                    continue
                if [p for p in f.pred(bb) if p in f.reach] != [b]:
                    continue
                if boolish:
                    v = bool(vs[0]) if vs is not None else not t[3][0][0]
                    out += self.facts(f, t[1], v, bb)
                elif vs is None:
                    out += [(bb, "Ne", t[1], K(v)) for v, _ in t[3]]
                elif len(vs) == 1:
                    out.append((bb, "Eq", t[1], K(vs[0])))
        self._conds[f.id] = out
        return out

    def facts(self, f, op, truth, bb):
        for _ in range(20):
            if op[0] == "c" or op[1][1]:
                return [(bb, "?", op, op)]
            ds = f.defs().get(op[1][0], [])
            if len(ds) != 1 or ds[0][1] == "a":
                return [(bb, "?", op, op)]
            rv = ds[0][2]
            if ds[0][1] == "t":
                c = Call(f, ds[0][0], rv)
                n = lname(c.path)
                if n in ("lt", "le", "gt", "ge", "eq", "ne") and len(c.args) == 2:
                    o = n.capitalize()
                    return [(bb, o if truth else NEGATED[o], c.args[0], c.args[1])]
                if n == "contains" and len(c.args) == 2:
                    r = self.range_of_literal(f, strip(expr_of(f, c.args[0], 6)))
                    if r and truth:
                        return [(bb, "Ge", c.args[1], K(r[0])), (bb, "Lt" if not r[2] else "Le", c.args[1], K(r[1]))]
                    return [(bb, "?", c.args[1], c.args[0])]
                if n in ("is_negative", "is_positive") and c.args:
                    o = "Lt" if n == "is_negative" else "Gt"
                    return [(bb, o if truth else NEGATED[o], c.args[0], K(0))]
                return [(bb, "?", a, a) for a in c.args] or [(bb, "?", op, op)]
            if rv[0] == "use":
                op = rv[1]
            elif rv[0] == "un" and rv[1] == "Not":
                op, truth = rv[2], not truth
            elif rv[0] == "bin" and rv[1] in NEGATED:
                return [(bb, rv[1] if truth else NEGATED[rv[1]], rv[2], rv[3])]
            else:
                return [(bb, "?", o, o) for o in operands(rv) if o[0] != "c"] or [(bb, "?", op, op)]
        return [(bb, "?", op, op)]

    def range_of_literal(self, f, e):
        if e[0] == "kconst" and e[2] is not None:
            body = f.r["promoted"][e[2]]
            vals = None
            for b in body["bbs"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and last(s[2][1].get("p") or "").startswith("Range"):
                        vals = [o[1].get("v") for o in s[2][2] if o[0] == "c"]
                        if len(vals) == 2 and None not in vals:
                            return (vals[0], vals[1], "Inclusive" in s[2][1]["p"])
                t = b["t"]
                if t[0] == "call" and "RangeInclusive" in t[1]["p"]:
                    vals = [o[1].get("v") for o in t[2] if o[0] == "c"]
                    if len(vals) == 2 and None not in vals:
                        return (vals[0], vals[1], True)
            return None
        ops = e[2] if e[0] == "agg" and last(e[1][1] or "").startswith("Range") or e[0] == "call" and "RangeInclusive" in e[1] and lname(e[1]) == "new" else ()
        if len(ops) >= 2 and all(o[0] == "const" and isinstance(o[1], int) for o in ops[:2]):
            return (ops[0][1], ops[1][1], e[0] == "call" or "Inclusive" in e[1][1])
        return None

    def known(self, f, b):
        dom = f.dom()[b] if b in f.reach else ()
        return [c for c in self.conds(f) if c[0] in dom]

    # ---------------------------------------------------------------- ranges
    def op(self, f, op, b, depth=10, seen=frozenset()):
        """(lo, hi) of an integer operand read in block b"""
        if op[0] == "c":
            v = op[1].get("v")
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return self.signed(v, op[1], f)
            t = f.r["T"].s(op[1]["t"]) if isinstance(op[1].get("t"), int) else None
            return INT.get(t)
        base, proj = op[1]
        if not proj:
            return self.local(f, base, b, depth, seen)
        ty = self.place_int(f, op[1])
        if len(proj) == 1 and proj[0][0] == "f" and proj[0][1] == 0:
            ds = f.defs().get(base, [])
            if len(ds) == 1 and ds[0][1] not in ("t", "a") and ds[0][2][0] == "bin" and ds[0][2][1].endswith("WithOverflow"):
                rv = ds[0][2]
                x, y = self.op(f, rv[2], b, depth - 1, seen), self.op(f, rv[3], b, depth - 1, seen)
                r = arith(rv[1], x, y) if x and y else None
                t2 = f.r["T"].s(f.ty(base)).strip("()").split(",")[0]
                if t2 in INT:
                    r = meet(r, INT[t2]) if r else INT[t2]
                return r
        if ty is None:
            return None
        if depth <= 0:
            return INT[ty]
        e = strip(place_expr(f, op[1], 6))
        return self.narrow(f, op, b, meet(INT[ty], self.expr(f, e, ty, b, depth - 1, seen) or INT[ty]))

    def signed(self, v, c, f):
        t = f.r["T"].s(c["t"]) if isinstance(c.get("t"), int) else None
        if t in INT and t.startswith("i") and v > INT[t][1]:
            v -= 2 * (INT[t][1] + 1)
        return (v, v)

    def place_int(self, f, pl):
        """the integer type of a projected place, when one local's declared type says so"""
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and s[2][1][1] == pl:
                    t = int_ty(f, s[1][0])
                    if t:
                        return t
        t = f.r["T"].s(f.ty(pl[0])).lstrip("&")
        t = t[4:] if t.startswith("mut ") else t
        return t if t in INT and all(p[0] == "*" for p in pl[1]) else None

    def local(self, f, l, b, depth, seen):
        ty = int_ty(f, l)
        if ty is None:
            return None
        top = INT[ty]
        ds = f.defs().get(l, [])
        if depth <= 0 or l in seen or not ds:
            r = top
        elif ds[0][1] == "a":
            r = self.arg(f, l, depth, seen) if len(ds) == 1 else top
            r = r or top
        else:
            r = None
            for db_, i, rv in ds:
                x = self.defn(f, ty, db_, i, rv, b if len(ds) == 1 else db_, depth - 1, seen | {l})
                x = x or top
                r = x if r is None else join(r, x)
        return self.narrow(f, ("cp", [l, []]), b, meet(r, top) if r[0] <= r[1] else top)

    def defn(self, f, ty, b, i, rv, at, depth, seen):
        if i == "t":
            c = Call(f, b, rv)
            return self.call(f, c, ty, at, depth, seen)
        k = rv[0]
        if k == "use":
            return self.op(f, rv[1], at, depth, seen)
        if k == "ref":
            return self.op(f, ("cp", rv[2]), at, depth, seen)
        if k == "cast" and rv[1] == "IntToInt":
            x = self.op(f, rv[2], at, depth, seen)
            return x if x and fits(x, ty) else INT[ty]
        if k == "bin":
            op = rv[1]
            x, y = self.op(f, rv[2], at, depth, seen), self.op(f, rv[3], at, depth, seen)
            if op == "Rem" and y and y[0] >= 0 and y[1] > 0:
                lo = 0 if x and x[0] >= 0 else -(y[1] - 1)
                return meet((lo, y[1] - 1), x if x and x[0] >= 0 else (lo, y[1] - 1))
            if op == "BitAnd":
                c = [z for z in (x, y) if z and z[0] >= 0]
                if c:
                    return (0, min(z[1] for z in c))
            if op == "Div" and x and y and y[0] > 0 and x[0] >= 0:
                return (0, x[1] // y[0])
            if op.startswith("Shr") and x and y and x[0] >= 0 and y[0] >= 0:
                return (0, x[1] >> min(y[0], 128))
            if op.startswith(("Add", "Sub", "Mul")) and x and y:
                r = arith(op, x, y)
                return r if fits(r, ty) else INT[ty]
        if k == "un" and rv[1] == "Neg":
            x = self.op(f, rv[2], at, depth, seen)
            return (-x[1], -x[0]) if x else None
        return INT[ty]

    def call(self, f, c, ty, at, depth, seen):
        n, p = lname(c.path), c.path
        a = c.args
        if n in ("len", "count", "capacity") and p.startswith(("std::", "core::", "<std", "alloc::", "indexmap", "ndarray")):
            return LEN
        if n in ("count_ones", "count_zeros", "leading_zeros", "trailing_zeros", "ilog2"):
            return (0, 128)
        if n in ("min", "max") and len(a) == 2:
            x, y = self.op(f, a[0], at, depth, seen), self.op(f, a[1], at, depth, seen)
            if x and y:
                return (min(x[0], y[0]), min(x[1], y[1])) if n == "min" else (max(x[0], y[0]), max(x[1], y[1]))
        if n == "clamp" and len(a) == 3:
            x, y = self.op(f, a[1], at, depth, seen), self.op(f, a[2], at, depth, seen)
            if x and y:
                return (x[0], y[1])
        if n == "rem_euclid" and len(a) == 2:
            y = self.op(f, a[1], at, depth, seen)
            if y and y[0] > 0:
                return (0, y[1] - 1)
        if n in ("from", "into", "clone", "deref", "unsigned_abs", "abs") and a:
            x = self.op(f, a[0], at, depth, seen)
            if x:
                if n in ("abs", "unsigned_abs"):
                    m = max(abs(x[0]), abs(x[1]))
                    return (0, min(m, INT[ty][1]))
                return x if fits(x, ty) else INT[ty]
        ts = self.db.targets(c)
        if len(ts) == 1 and ts[0] in self.db.fns and depth > 2:
            return self.ret(self.db.fns[ts[0]], ty, depth - 2)
        return INT[ty]

    def ret(self, g, ty, depth):
        if g.id in self._ret:
            return self._ret[g.id] or INT[ty]
        self._ret[g.id] = None
        r = None
        for b in g.reach:
            if g.bbs[b]["t"][0] == "ret":
                x = self.local(g, 0, b, depth, frozenset())
                if x:
                    r = x if r is None else join(r, x)
        self._ret[g.id] = r
        return r or INT[ty]

    def arg(self, f, l, depth, seen):
        """over every caller, when all of them are known"""
        if depth < 4 or f.id in seen or "{closure" in f.id or " as " in f.id:
            return None
        if self._callers is None:
            self._callers = self.db.callers()
        cs = self._callers.get(f.id, ())
        r = None
        n = 0
        for g in cs:
            g = self.db.fns[g]
            if "::tests::" in g.id:
                continue
            if f.id in fn_values(g):
                return None
            for c in g.calls():
                if f.id in self.db.targets(c):
                    if len(c.args) < l:
                        return None
                    n += 1
                    x = self.op(g, c.args[l - 1], c.bb, depth - 3, seen | {f.id})
                    if x is None:
                        return None
                    r = x if r is None else join(r, x)
        return r if n else None

    def expr(self, f, e, ty, b, depth, seen):
        """what the shape of the expression alone says: an item of a counted range, a length"""
        if e[0] == "field" and e[2][0] == "as" and e[2][1] == "Some" and e[2][2][0] == "call":
            c = e[2][2]
            if lname(c[1]) == "next" and "Range" in c[1]:
                return (INT[ty][0], INT[ty][1] - 1)
        if e[0] == "field" and e[1] in (0, "0") and e[2][0] == "field" and any(x[0] == "call" and "Enumerate" in x[1] for x in subexprs(e)):
            return LEN
        return None

    def narrow(self, f, op_, b, r):
        e = self.canon(f, op_)
        if e[0] == "const" or len(f.defs().get(e[1], ())) != 1:
            return r
        for _, op, x, y in self.known(f, b):
            if op == "?":
                continue
            for a, o, c in ((x, op, y), (y, SWAPPED[op], x)):
                if self.canon(f, a) != e:
                    continue
                v = self.value(f, strip(expr_of(f, c, 6)))
                if v is None:
                    continue
                if o == "Lt":
                    r = (r[0], min(r[1], v[1] - 1))
                elif o == "Le":
                    r = (r[0], min(r[1], v[1]))
                elif o == "Gt":
                    r = (max(r[0], v[0] + 1), r[1])
                elif o == "Ge":
                    r = (max(r[0], v[0]), r[1])
                elif o == "Eq":
                    r = meet(r, v)
                elif o == "Ne" and v[0] == v[1]:
                    if r[0] == v[0]:
                        r = (r[0] + 1, r[1])
                    elif r[1] == v[0]:
                        r = (r[0], r[1] - 1)
        return r

    def value(self, f, e):
        """the range of a compared-with expression"""
        e = strip(e)
        if e[0] == "const" and isinstance(e[1], int):
            v = int(e[1])
            return (v, v)
        if e[0] == "cast" and isinstance(e[2], int):
            v = self.value(f, e[1])
            t = f.r["T"].s(e[2])
            return v if v and t in INT and fits(v, t) else None
        if e[0] == "bin":
            x, y = self.value(f, e[2]), self.value(f, e[3])
            if x and y and e[1].startswith(("Shl", "Shr")) and x[0] == x[1] >= 0 and y[0] == y[1] and 0 <= y[0] < 128:
                v = x[0] << y[0] if e[1].startswith("Shl") else x[0] >> y[0]
                return (v, v)
            return arith(e[1], x, y) if x and y else None
        if e[0] == "call" and lname(e[1]) == "len":
            return LEN
        return None
