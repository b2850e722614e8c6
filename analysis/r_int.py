"""Integer arithmetic on numbers that come from program data (I06)."""
import re
from db import *
from ranges import Ranges, INT, lname, strip, fits, int_ty, arith
from rule import where
from r_bif import builtins

SKIP = ("src/eval/stg/parallel/",)      # layout of memory, not a program's numbers
SCOPE = ("src/eval/stg/", "src/eval/memory/ndarray", "src/eval/memory/vec", "src/eval/memory/set", "src/eval/primop", "src/eval/types")
SOURCES = re.compile(r"Number::(as_i64|as_u64|as_i128|as_u128)$|::(num_integer|to_i64|to_u64|to_usize|to_i32|to_u32|to_isize)$")
INTS = re.compile(r"\b([iu](8|16|32|64|128|size))\b")
LAZY = re.compile(r"\biter::|closure|\bimpl ")
# what is computed from the number of things, not from the numbers
COUNTS = {"len", "count", "capacity", "is_empty", "is_some", "is_none", "is_ok", "is_err", "cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge",
          "contains", "with_capacity", "reserve", "ndim", "rank", "shape", "size_hint", "position", "next_multiple_of", "is_zero"}
FIRST = {"index", "index_mut", "get", "get_mut", "from_elem", "swap", "chunks", "take", "skip", "nth", "split_at", "get_unchecked", "windows", "truncate", "select_nth_unstable"}
# bit mixing: the result is a pseudo-random word, not the sum or product of anything
MIXING = {"eval::stg::prng::splitmix64": "a pseudo-random generator's state transition",
          "eval::stg::prng::seed_to_u64": "the seed's bits are the seed"}


def carries(f, l):
    t = f.r["T"].s(f.ty(l))
    return bool(INTS.search(t) or LAZY.search(t))


class Taint:
    """which locals hold, or contain, an integer from program data"""

    def __init__(self, db):
        self.db = db
        roots = {m["execute"].id for _, m in builtins(db) if "execute" in m}
        self.roots = roots
        self.scope = {i for i in db.closure_reach(roots) if i in db.fns and db.fns[i].file.startswith(SCOPE) and not db.fns[i].file.startswith(SKIP) and "::tests::" not in i}
        self.t = {i: {} for i in self.scope}      # fn -> {local: where from}
        self.ret, self.fields = {}, {}
        self.closures = {}
        for i in self.scope:
            for g in db.closures_of(i):
                self.closures.setdefault(i, []).append(g)
        self.run()

    def run(self):
        work = set(self.scope)
        while work:
            i = work.pop()
            for j in self.step(self.db.fns[i]):
                if j in self.scope:
                    work.add(j)

    def pl(self, f, t, p):
        """where the integer in this place comes from"""
        base, proj = p
        for q in proj:
            if q[0] == "f" and len(q) > 3 and (q[3], q[2]) in self.fields:
                return self.fields[(q[3], q[2])]
        if base in t:
            # the position in an enumeration is a count
            return t[base]
        return None

    def op(self, f, t, o):
        return self.pl(f, t, o[1]) if o[0] in ("cp", "mv") else None

    def step(self, f):
        t = self.t[f.id]
        wake = set()
        mixing = any(f.id.endswith(m) for m in MIXING)
        changed = True
        while changed:
            changed = False

            def put(l, why):
                nonlocal changed
                if l not in t and carries(f, l):
                    t[l] = why
                    changed = True

            for b in sorted(f.reach):
                for s in f.bbs[b]["s"]:
                    if s[0] != "=":
                        continue
                    rv, (base, proj) = s[2], s[1]
                    why = None
                    if rv[0] == "cast" and rv[1] == "FloatToInt":
                        why = "a float converted at %s" % f.short
                    elif rv[0] == "discr" or rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp"):
                        continue
                    else:
                        for p in rv_places(rv):
                            why = why or self.pl(f, t, p)
                    if not why:
                        continue
                    put(base, why)
                    for q in proj:
                        if q[0] == "f" and len(q) > 3 and q[3] in self.db.adts and (q[3], q[2]) not in self.fields and self.is_int(f, rv):
                            self.fields[(q[3], q[2])] = why
                            wake |= self.scope
                    if rv[0] == "agg":
                        a = rv[1]
                        if a["k"] == "adt" and a["p"] in self.db.adts:
                            for n, o in zip(a.get("f") or [], rv[2]):
                                w = self.op(f, t, o)
                                if w and o[1][1] == [] and int_ty(f, o[1][0]) and (a["p"], n) not in self.fields:
                                    self.fields[(a["p"], n)] = w
                                    wake |= self.scope
                        if a["k"] == "closure" and a["p"] in self.scope:
                            if self.enter(a["p"], 1, why):
                                wake.add(a["p"])
                for_t = f.bbs[b]["t"]
                if for_t[0] != "call":
                    continue
                c = Call(f, b, for_t)
                n = lname(c.path)
                if SOURCES.search(c.path) or (n == "parse" and "str" in c.path):
                    put(c.dest[0], "%s in %s" % (n, f.short))
                    continue
                ws = [self.op(f, t, a) for a in c.args]
                ts = [x for x in self.db.targets(c) if x in self.db.fns]
                loc = [x for x in ts if x in self.scope]
                clo = [self.closure(f, a) for a in c.args]
                for k, w in enumerate(ws):
                    if w:
                        for x in loc:
                            if self.enter(x, k + 1, w):
                                wake.add(x)
                if any(ws) and not loc:
                    for g in clo:
                        if g in self.scope:
                            for k in range(2, self.db.fns[g].argc + 1):
                                if self.enter(g, k, next(w for w in ws if w)):
                                    wake.add(g)
                if loc:
                    w = next((self.ret[x] for x in loc if x in self.ret), None)
                elif n in COUNTS or mixing:
                    w = None
                else:
                    w = ws[0] if n in FIRST and ws else next((w for w in ws if w), None)
                    w = w or next((self.ret[g] for g in clo if g in self.ret), None)
                if w:
                    put(c.dest[0], w)
                    # what is put into a collection is in the collection
                if n in ("push", "insert", "push_back", "extend", "resize", "swap") and not loc and any(ws[1:]) and c.args[0][0] != "c":
                    for l in self.pointees(f, c.args[0][1][0]):
                        put(l, next(w for w in ws[1:] if w))
        if 0 in t and f.id not in self.ret:
            self.ret[f.id] = t[0]
            for g in self.callers().get(f.id, ()):
                wake.add(g)
            if "{closure" in f.id:
                wake.add(f.id.rsplit("::{closure", 1)[0])
        return wake

    _c = None

    def callers(self):
        if Taint._c is None or Taint._c[0] is not self.db:
            Taint._c = (self.db, self.db.callers())
        return Taint._c[1]

    def is_int(self, f, rv):
        return any(o[0] in ("cp", "mv") and not o[1][1] and int_ty(f, o[1][0]) for o in operands(rv))

    def pointees(self, f, l, seen=()):
        out = {l}
        for _, i, rv in f.defs().get(l, ()):
            if i not in ("t", "a") and rv[0] in ("ref", "raw") and l not in seen:
                out |= self.pointees(f, rv[2][0], tuple(seen) + (l,))
            elif i not in ("t", "a") and rv[0] == "use" and rv[1][0] != "c" and l not in seen:
                out |= self.pointees(f, rv[1][1][0], tuple(seen) + (l,))
        return out

    def closure(self, f, a):
        if a[0] == "c":
            t = a[1].get("t")
        else:
            t = f.ty(a[1][0]) if not a[1][1] else None
        if t is None:
            return a[1]["fn"].get("r") if a[0] == "c" and "fn" in a[1] else None
        ty = f.r["T"][t]
        return ty["p"] if isinstance(ty, dict) and ty.get("k") == "closure" else (a[1]["fn"].get("r") if a[0] == "c" and "fn" in a[1] else None)

    def enter(self, g, k, why):
        t = self.t[g]
        if k in t or k > self.db.fns[g].argc:
            return False
        if k == 1 and "{closure" in g or carries(self.db.fns[g], k):
            t[k] = why
            return True
        return False


INEXACT = re.compile(r"^(wrapping|overflowing|unchecked|saturating|unbounded|carrying|borrowing|widening)_(add|sub|mul|neg|abs|pow|shl|shr|div|rem|div_euclid|rem_euclid|add_signed|sub_unsigned|add_unsigned|next_power_of_two)")
PLAIN = {"pow": "power", "abs": "absolute value", "isqrt": None, "neg": "negation", "add": "addition", "sub": "subtraction", "mul": "multiplication",
         "add_assign": "addition", "sub_assign": "subtraction", "mul_assign": "multiplication", "sum": "sum", "product": "product", "next_power_of_two": "power"}
CHECKED = re.compile(r"^checked_")
SWALLOWS = {"unwrap_or", "unwrap_or_default", "unwrap_or_else", "unwrap", "expect", "unwrap_unchecked"}
WORD = {"Add": "addition", "Sub": "subtraction", "Mul": "multiplication", "Neg": "negation", "Shl": "shift", "Shr": "shift"}


def i06(r, db):
    r.rules.append("every addition, subtraction, multiplication, negation, shift distance, power, sum and narrowing or sign-changing conversion of an integer that "
                   "comes from program data is either of the checked kind, with its failure not replaced by a made-up value, or its operands' ranges - read off their "
                   "definitions and the comparisons passed on every path - leave no room to wrap")
    T = Taint(db)
    R = Ranges(db)
    counts = {"arithmetic operations": 0, "conversions": 0, "checked operations": 0, "undecided": 0}
    src = 0
    for i in sorted(T.scope):
        f = db.fns[i]
        t = T.t[i]
        growing(r, R, f, counts)
        mixing = next((m for m in MIXING if i.endswith(m)), None)
        for c in f.calls():
            if SOURCES.search(c.path):
                src += 1
        if not t:
            continue
        if mixing:
            r.note("%s: not judged, %s" % (f.short, MIXING[mixing]))
            continue
        n = {}

        def key(what):
            n[what] = n.get(what, 0) + 1
            return "%s:%s#%d" % (what, f.short, n[what])

        for b in sorted(f.reach):
            blk = f.bbs[b]
            tm = blk["t"]
            if tm[0] == "assert" and isinstance(tm[6], list) and tm[6] and str(tm[6][0]).startswith("overflow:"):
                op = tm[6][0].split(":")[1]
                ops = [o for o in tm[6][2:4] if isinstance(o, list)]
                if op in ("Div", "Rem"):
                    continue
                judged = ops[1:] if op in ("Shl", "Shr") else ops
                why = next((w for w in (T.op(f, t, o) for o in judged) if w), None)
                if why:
                    counts["arithmetic operations"] += 1
                    judge(r, R, f, b, op, judged, tm[6][1], key(WORD.get(op, op)), why, tm[4], counts)
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "cast" and s[2][1] == "IntToInt":
                    why = T.op(f, t, s[2][2])
                    ty = int_ty(f, s[1][0]) if not s[1][1] else f.r["T"].s(s[2][3])
                    if not why or ty not in INT:
                        continue
                    sty = source_ty(f, s[2][2])
                    if sty in INT and fits(INT[sty], ty):
                        continue
                    counts["conversions"] += 1
                    x = R.op(f, s[2][2], b)
                    k = key("conversion to " + ty)
                    ok = bool(x and fits(x, ty))
                    if not ok and unclear(R, f, b, [s[2][2]]):
                        counts["undecided"] += 1
                        r.note("%s: guarded in a way that is not followed" % k)
                        continue
                    r.ob(k, ok, "an integer from program data (%s) is converted to %s, which cannot hold all of %s: it may be silently changed" % (why, ty, span(x, sty)), where(f, s[3]))
            if tm[0] != "call":
                continue
            c = Call(f, b, tm)
            nm = lname(c.path)
            std = c.path.startswith(("core::", "std::", "<i", "<u", "<&", "<std", "<core", "num"))
            if not std:
                continue
            ws = [T.op(f, t, a) for a in c.args]
            why = next((w for w in ws if w), None)
            if not why:
                continue
            ity = [a for a in c.args if a[0] != "c" and int_ty(f, a[1][0])]
            if INEXACT.match(nm) and ity:
                counts["arithmetic operations"] += 1
                kind = nm.split("_", 1)[0]
                if kind == "overflowing" and second_used(f, c.dest[0]):
                    r.ob(key(nm), True, "", where(f, c.line))
                    continue
                op = {"add": "Add", "sub": "Sub", "mul": "Mul"}.get(nm.split("_")[1])
                if op and kind == "saturating":
                    rs = [R.op(f, a, b) for a in c.args]
                    ty = int_ty(f, c.dest[0])
                    if all(rs) and ty and fits(arith(op, rs[0], rs[1]), ty):
                        r.ob(key(nm), True, "", where(f, c.line))
                        continue
                r.ob(key(nm), False, "an integer from program data (%s) goes through %s: what does not fit is not refused but replaced" % (why, nm), where(f, c.line))
            elif nm in PLAIN and PLAIN[nm] and (ity and len(ity) == len([a for a in c.args if a[0] != "c"]) or nm in ("sum", "product") and int_ty(f, c.dest[0])):
                counts["arithmetic operations"] += 1
                if nm in ("add", "sub", "mul"):
                    judge(r, R, f, b, nm.capitalize(), c.args, int_ty(f, c.dest[0]), key(PLAIN[nm]), why, c.line, counts)
                    continue
                x = R.op(f, c.args[0], b) if c.args else None
                ty = int_ty(f, c.args[0][1][0]) if c.args[0][0] != "c" else None
                ok = bool(nm in ("abs", "neg") and x and ty and (x[0] > INT[ty][0]))
                k = key(PLAIN[nm])
                if not ok and unclear(R, f, b, c.args):
                    counts["undecided"] += 1
                    continue
                r.ob(k, ok, "the %s of an integer from program data (%s) is taken without an overflow check" % (PLAIN[nm], why), where(f, c.line))
            elif CHECKED.match(nm) and ity:
                counts["checked operations"] += 1
                s = swallowed(f, c)
                r.ob(key(nm), s is None, "the failure of %s on an integer from program data (%s) is answered by %s: a result that is not the exact value is used" % (nm, why, s), where(f, c.line))
            elif nm in ("try_into", "try_from", "try_from_fn"):
                counts["checked operations"] += 1
    for k, v in counts.items():
        r.count(k, v)
    r.count("functions reachable from built-ins", len(T.scope))
    r.floor("places where a number becomes an integer", src, 20)
    r.floor("built-ins", len(T.roots), 100)
    r.assumptions.append("conversion of a float to an integer saturates and is not counted as wrapping; lengths and counts of things in memory do not overflow")


def growing(r, R, f, counts):
    """a number multiplied on every round of a loop, as when it is read digit by digit"""
    n = 0
    for b in sorted(f.reach):
        t = f.bbs[b]["t"]
        if t[0] != "assert" or not isinstance(t[6], list) or not t[6] or t[6][0] != "overflow:Mul":
            continue
        ops = [o for o in t[6][2:4] if isinstance(o, list)]
        for o in ops:
            if o[0] == "c":
                continue
            e = R.canon(f, o)
            if e[0] != "v" or e[2] or len(f.defs().get(e[1], ())) < 2 or not carried(R, f, e[1]):
                continue
            n += 1
            counts["arithmetic operations"] += 1
            ty = int_ty(f, e[1])
            rs = [R.op(f, x, b) for x in ops]
            v = arith("Mul", rs[0], rs[1]) if all(rs) else None
            k = "growing:%s#%d" % (f.short, n)
            if not (v and ty and fits(v, ty)) and any(e in (R.canon(f, x), R.canon(f, y)) for _, _, x, y in R.conds(f)):
                counts["undecided"] += 1
                r.note("%s: guarded in a way that is not followed" % k)
                continue
            r.ob(k, bool(v and ty and fits(v, ty)), "a number is multiplied on each round of a loop without an overflow check: enough rounds make it wrap", where(f, t[4]))


def carried(R, f, l):
    """the local's next value is computed from its present one"""
    seen, st = set(), [l]
    while st:
        x = st.pop()
        for _, i, rv in f.defs().get(x, ()):
            if i in ("t", "a"):
                continue
            for p in rv_places(rv):
                if p[0] == l:
                    return True
                if p[0] not in seen:
                    seen.add(p[0])
                    st.append(p[0])
    return False


def source_ty(f, o):
    if o[0] == "c":
        return f.r["T"].s(o[1]["t"]) if isinstance(o[1].get("t"), int) else None
    if not o[1][1]:
        return int_ty(f, o[1][0])
    return None


def span(x, ty):
    if x is None or ty in INT and x == INT[ty]:
        return ty or "its type's values"
    return "%d..=%d" % x


def judge(r, R, f, b, op, ops, ty, k, why, line, counts):
    t = f.r["T"].s(ty) if isinstance(ty, int) else ty
    rs = [R.op(f, o, b) for o in ops]
    if op in ("Shl", "Shr"):
        t0 = t if t in INT else "i64"
        bits = 128 if "128" in t0 else 64 if ("64" in t0 or "size" in t0) else int(re.sub(r"\D", "", t0))
        ok = bool(rs[-1] and rs[-1][0] >= 0 and rs[-1][1] < bits)
        msg = "the distance of a shift comes from program data (%s) and may reach %s, beyond the word's %d bits" % (why, rs[-1] and rs[-1][1], bits)
    elif op == "Neg":
        ok = bool(rs[0] and t in INT and rs[0][0] > INT[t][0])
        msg = "an integer from program data (%s) is negated without a check; the least integer has no negation" % why
    else:
        v = arith(op, rs[0], rs[1]) if len(rs) == 2 and all(rs) else None
        ok = bool(v and t in INT and fits(v, t))
        msg = "unchecked %s of an integer from program data (%s): operands in %s and %s may wrap in a release build and abort in a debug build" % (
            WORD.get(op, op), why, rs[0], rs[1] if len(rs) > 1 else "")
    if not ok and unclear(R, f, b, ops):
        counts["undecided"] += 1
        r.note("%s: guarded in a way that is not followed" % k)
        return
    r.ob(k, ok, msg, where(f, line))


def unclear(R, f, b, ops):
    """a comparison between values that are not constants, on what the operand is
    computed from, holds here: it may be what excludes the overflow"""
    mine = set()
    for o in ops:
        if o[0] != "c":
            mine |= named(R, f, o)
    for _, op, x, y in R.known(f, b):
        a, c = R.canon(f, x), R.canon(f, y)
        if is_tag(f, x) or is_tag(f, y):
            continue
        fixed = [R.value(f, strip(expr_of(f, z, 6))) is not None for z in (x, y)]
        if op != "?" and any(fixed):
            e = a if fixed[1] else c
            if any(R.canon(f, o) == e for o in ops if o[0] != "c"):
                continue        # it was used
        if any(named(R, f, z) & mine for z in (x, y) if z[0] != "c"):
            return True
    return False


def is_tag(f, o):
    """the operand is an enum's discriminant"""
    if o[0] == "c" or o[1][1]:
        return False
    return any(i not in ("t", "a") and rv[0] == "discr" for _, i, rv in f.defs().get(o[1][0], ()))


THROUGH = re.compile(r"::num::<impl [iu]\w+>::|Try>::branch$|Option::<T>::(ok_or|ok_or_else|unwrap|expect|copied)$|as std::ops::(Add|Sub|Mul|Neg|Rem|Div|BitXor|BitAnd)")


def named(R, f, o, depth=6):
    """the values an operand is computed from, without looking through calls"""
    out, st = set(), [(o, depth)]
    while st:
        o, d = st.pop()
        if o[0] == "c":
            continue
        e = R.canon(f, o)
        if e[0] == "const" or e in out:
            continue
        out.add(e)
        if d:
            for b, i, rv in f.defs().get(e[1], ()):
                if i == "t":
                    c = Call(f, b, rv)
                    if THROUGH.search(c.path) or THROUGH.search(c.rpath):
                        st += [(z, d - 1) for z in c.args]
                elif i != "a" and not (e[2] and e[2][0][0] == "d"):
                    st += [(z, d - 1) for z in operands(rv)]
    return out


def second_used(f, l):
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=":
                for p in rv_places(s[2]):
                    if p[0] == l and p[1] and p[1][0][0] == "f" and p[1][0][1] == 1:
                        return True
        t = f.bbs[b]["t"]
        if t[0] == "switch" and t[1][0] != "c" and t[1][1][0] == l and t[1][1][1]:
            return True
    return False


def swallowed(f, c):
    """the combinator that turns the checked operation's failure into a value or an abort"""
    seen, st = set(), [c.dest[0]]
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] != "c" and s[2][1][1] == [l, []] and not s[1][1]:
                    st.append(s[1][0])
            t = f.bbs[b]["t"]
            if t[0] == "call":
                d = Call(f, b, t)
                if any(a[0] != "c" and a[1] == [l, []] for a in d.args):
                    n = lname(d.path)
                    if n in SWALLOWS and d.args[0][0] != "c" and d.args[0][1] == [l, []]:
                        return n
    return None
