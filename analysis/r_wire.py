"""P03: what a parallel worker writes is what its parent reads."""
import re
from db import *
import db as D
import inl
import wire
from wire import lname, peel, Writer, Reader, Incl, is_cursor, is_buffer
from gate import Gate
from rule import where
from thread import Threads

MOD = "::stg::parallel::"
BOX = {"Num": "BoxedNumber", "Str": "BoxedString", "Sym": "BoxedSymbol", "Zdt": "BoxedZdt"}
# constructors that may be rebuilt for a value of each constructor that is not a boxed scalar
REBUILD = {"Unit": {"Unit"}, "BoolTrue": {"BoolTrue"}, "BoolFalse": {"BoolFalse"}, "ListNil": {"ListNil", "ListCons"}, "ListCons": {"ListNil", "ListCons"},
           "Block": {"Block", "BlockPair", "ListNil", "ListCons"}}
# a key the reader refuses: blocks reaching the writer have symbol or string keys
KEYS_REFUSED = {"Num": "a block key is a symbol or a string", "Zdt": "a block key is a symbol or a string"}
CONV = {"u64": {"from<u64>"}, "i64": {"from<i64>"}, "f64": {"from_bits", "from_f64"}}
# calls that carry text from a value to its bytes, or back, without changing it
TEXT_OUT = {"as_str", "as_bytes", "to_string", "to_owned", "resolve", "scoped", "to_rfc3339", "deref", "as_ref", "clone", "symbol_pool", "value_native", "field_native", "branch", "force", "data_field",
            "gc_root_get", "gc_root_push", "ok_or_else", "unwrap", "expect", "into", "from", "into_bytes", "as_slice", "borrow", "to_rfc3339_opts", "into_string", "into_boxed_str", "as_ptr", "as_deref"}


class Conds:
    """conditions on enum variants and bytes read under which a block runs"""
    def __init__(self, g, types=(), side=None):
        self.g, self.x = g, g.x
        x = g.x
        self.live = self.live_ok()
        self.sw = []
        byte = []
        T = x.r["T"]
        for b in sorted(x.reach):
            t = x.bbs[b]["t"]
            if t[0] != "switch" or t[1][0] == "c":
                continue
            if side is not None:
                for s in g.th.states(b)[:1]:
                    bs = side.byte_switch(g, s)
                    if bs is not None:
                        byte.append((b, bs, {int(v) for v, n in t[3]} | side.bytes_of(g, t)))
                continue
            e = None
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[1] == t[1][1] and s[2][0] == "discr":
                    e = s[2]
            if e is not None:
                ty = T[T.peel(e[2])] if len(e) > 2 and e[2] else None
                p = ty.get("p") if ty else None
                n = next((q for q in types if p and p.endswith("::" + q)), None)
                if n:
                    vs = g.f.db.adts[p]["vars"]
                    arms = {v[0]: next((m for a, m in t[3] if int(a) == (int(v[1]) if v[1] is not None else i)), t[4]) for i, v in enumerate(vs)}
                    self.sw.append((b, n, arms))
                continue
            ex = expr_of(x, t[1])
            if ex[0] == "bin" and ex[1] in ("Eq", "Ne"):
                for p, q in ((ex[2], ex[3]), (ex[3], ex[2])):
                    q = peel(q)
                    if q[0] == "call" and lname(q[1]) == "tag" and q[2] and q[2][0][0] == "agg" and "DataConstructor" in str(q[2][0][1][1]) and "DataConstructor" in types:
                        v0 = q[2][0][1][2]
                        vs = g.f.db.adts[q[2][0][1][1]]["vars"]
                        yes = int(ex[1] == "Eq")
                        arms = {v[0]: next((m for a, m in t[3] if int(a) == (yes if v[0] == v0 else 1 - yes)), t[4]) for v in vs}
                        self.sw.append((b, "DataConstructor", arms))
                        break
        # every value any of the conditions on one byte tells apart, in each of them
        for b, bs, _ in byte:
            ks = set().union(*(k for _, q, k in byte if q[0] == bs[0]))
            self.sw.append((b, ("byte", bs[0]), {k: bs[1](k) for k in sorted(ks)}))

    def live_ok(self):
        """blocks from which a successful return can be reached"""
        g = self.g
        pred = {}
        st = []
        for s, ns in g.th.succs.items():
            for n in ns:
                pred.setdefault(n, []).append(s)
            if g.end(s) == "ok":
                st.append(s)
        seen = set(st)
        while st:
            n = st.pop()
            for p in pred.get(n, ()):
                if p not in seen:
                    seen.add(p)
                    st.append(p)
        return {s[0] for s in seen}

    def at(self, b, state=None):
        """{kind: allowed variants} by the nearest informative switch of each kind, narrowed by the outer ones on the
        same value; for one state of the block, or all"""
        goals = {state} if state is not None else set(self.g.th.states(b))
        x = self.x
        dom = x.dom()
        out = {}
        found = []
        for sb, kind, arms in self.sw:
            if sb not in dom[b] or sb == b:
                continue
            yes = set()
            memo = {}
            for v, n in arms.items():
                if n not in memo:
                    memo[n] = self.reaches(n, goals, sb)
                if memo[n]:
                    yes.add(v)
            rest = {v for v, n in arms.items() if v not in yes and n in self.live}
            if not yes or yes == set(arms):
                continue
            k = kind if not isinstance(kind, tuple) else "byte"
            if not rest:
                k = "weak:" + k
            found.append((len(dom[sb]), k, kind, yes))
        shut = set()
        for d, k, kind, yes in sorted(found, key=lambda f: -f[0]):
            if k.endswith("byte"):
                if k not in out:
                    out[k] = (kind[1], yes)
                elif out[k][0] == kind[1] and out[k][1] & yes:
                    out[k] = (kind[1], out[k][1] & yes)
            elif k not in out:
                out[k] = yes
            elif out[k] & yes and k not in shut:
                out[k] = out[k] & yes
            else:
                shut.add(k)
        return out

    def reaches(self, n, goals, stop):
        """a state of `goals` is reached from the switch at `stop` through its arm n, without meeting the switch again"""
        th = self.g.th
        st = [m for s in th.states(stop) for m in th.succs.get(s, ()) if m[0] == n]
        seen = set(st)
        while st:
            m = st.pop()
            if m in goals:
                return True
            if m[0] == stop:
                continue
            for q in th.succs.get(m, ()):
                if q not in seen:
                    seen.add(q)
                    st.append(q)
        return False


def roots(db):
    W, R, P = [], [], {}
    fs = [f for f in db.fns.values() if MOD in f.id and f.kind != "closure" and "::tests::" not in f.id]
    for f in fs:
        us = [i for i in range(f.argc) if f.r["T"].s(f.ty(i + 1)) == "usize"]
        if any(is_cursor(f, i + 1) for i in range(f.argc)) and len(us) == 1 and "[u8]" in f.r["T"].s(f.ty(0)):
            P[f.id] = us[0]
    def machine(f):
        return any("IntrinsicMachine" in f.r["T"].s(f.ty(i + 1)) for i in range(f.argc))
    callers = db.callers()
    for f in fs:
        buf = any(is_buffer(f, i + 1) and "&mut" in f.r["T"].s(f.ty(i + 1)) for i in range(f.argc))
        cur = any(is_cursor(f, i + 1) for i in range(f.argc))
        if not (buf or cur) or not machine(f):
            continue
        out = any(not any((is_buffer(h, i + 1) and "&mut" in h.r["T"].s(h.ty(i + 1)) if buf else is_cursor(h, i + 1)) for i in range(h.argc))
                  and not (h.kind == "closure" and any(h.id.startswith(q.id + "::") for q in fs if any(is_buffer(q, i + 1) or is_cursor(q, i + 1) for i in range(q.argc))))
                  for h in (db.fns[c] for c in callers.get(f.id, ())))
        if out:
            (W if buf else R).append(f)
    return fs, W, R, P


def p03(r, db):
    r.rules += ["every sequence of bytes the writer can produce for a value is one the reader takes, token by token (tag, fixed-width item, counted run of bytes, nested value), and both end together",
                "under each tag the reader rebuilds the kind of value the writer writes under it, and no kind of value that cannot be sent is written under any tag",
                "numbers cross in the representation they have; no narrowing conversion on either side; one byte order",
                "a list's or block's count is the number of elements written; the reader reads as many as the count it read",
                "a short read is answered with an error before any byte is taken",
                "text is carried by conversions that keep it; the parts of a pair, a list cell and an annotated value keep their places"]
    r.assumptions += ["a block's keys are symbols or strings", "chrono's RFC 3339 text of a date-time reads back as the same date-time", "lengths and counts fit 32 bits"]
    fs, Ws, Rs, prims = roots(db)
    r.floor("writer entry points", len(Ws), 1)
    r.floor("reader entry points", len(Rs), 1)
    if not Ws or not Rs:
        return
    again = lambda g: inl_higher(g)
    want = lambda g: MOD in g.id
    W = Writer(db, want, again)
    R = Reader(db, lambda g: want(g) and g.id not in prims, prims, again)
    I = Incl(W, R)
    for w in Ws:
        for q in Rs:
            I.run(w.id, q.id)
    wc, rc = {}, {}

    def wconds(fid):
        if fid not in wc:
            wc[fid] = Conds(W.gram(fid), ("Native", "DataConstructor"))
        return wc[fid]

    def rconds(fid):
        if fid not in rc:
            rc[fid] = Conds(R.gram(fid), (), R)
        return rc[fid]
    r.count("productions compared", len(I.pairs))
    r.count("tokens written", len(I.tokens))
    r.floor("steps of the comparison", I.steps, 40)
    # inclusion
    bad, refused = {}, set()
    for pair, kind, pre, what, at in I.fails:
        if kind == "refused" and at is not None:
            d = wconds(at[0]).at(at[1], at[2])
            nat = d.get("Native") or set()
            if d.get("DataConstructor") == {"ListCons"} and nat and nat <= set(KEYS_REFUSED):
                refused |= nat
                continue
        bad.setdefault((kind, what, sig(W, at)), (pre, at))
    for v in sorted(refused):
        r.note("a key of kind %s is refused by the reader: %s" % (v, KEYS_REFUSED[v]))
    for (kind, what, sg), (pre, at) in sorted(bad.items(), key=str):
        r.ob("read:%s:%s" % (kind, sg), False, "after %s: %s" % (" ".join(pre) or "nothing", what), wh(W, at))
    for w, q in sorted(I.pairs):
        r.ob("pair:%s:%s" % (db.fns[w].short, db.fns[q].short), True, "", where(db.fns[w]))
    # tags and kinds
    sites = {}
    for fid in {q for p in I.pairs for q in [p[1]]} | set(R.grams):
        g = R.gram(fid)
        C = rconds(fid)
        for b in sorted(g.x.reach):
            if b not in C.live:
                continue
            found = []
            for s in g.x.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "adt" and s[2][1]["p"].endswith("::Native"):
                    found.append(("native", s[2][1]["vn"]))
                if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "adt" and s[2][1]["p"].endswith("::DataConstructor"):
                    found.append(("ctor", s[2][1]["vn"]))
            c = g.calls.get(b)
            if c is not None:
                n = lname(c.path)
                if n == "data_value":
                    e = peel(expr_of(g.x, c.args[2]))
                    v = e[2][0][1][2] if e[0] == "call" and lname(e[1]) == "tag" and e[2] and e[2][0][0] == "agg" else None
                    if v is not None:
                        found.append(("ctor", v))
                elif n == "meta_value":
                    found.append(("meta", True))
                elif n == "from_bits":
                    found.append(("conv", "from_bits"))
                elif n == "from_f64":
                    found.append(("conv", "from_f64"))
                elif n == "from" and "serde_json::Number" in g.x.r["T"].s(g.x.ty(c.dest[0])):
                    m = re.search(r"From<(\w+)>", c.rpath)
                    found.append(("conv", "from<%s>" % (m.group(1) if m else "?")))
            if not found:
                continue
            d = C.at(b).get("byte")
            for k in found:
                if d is None:
                    continue
                for v in d[1]:
                    sites.setdefault((fid, d[0], v), set()).add(k)
    kinds_written = set()
    ntags = 0
    for at, ms in sorted(I.matched.items(), key=str):
        cond = wconds(at[0]).at(at[1], at[2])
        nat, dc = cond.get("Native"), cond.get("DataConstructor")
        if dc == {"BoxedTypeData"} and not nat:
            nat = cond.get("weak:Native")
        foll = {p for p in I.follow.get(at, ()) if p in CONV}
        for k, rf, rb in sorted(ms, key=str):
            if k is None:
                r.ob("tag:constant:%s" % sig(W, at), False, "the tag written is not a constant of the format", wh(W, at))
                continue
            S = sites.get((rf, rb, k), set())
            natives = {v for t, v in S if t == "native"}
            ctors = {v for t, v in S if t == "ctor"}
            convs = {v for t, v in S if t == "conv"}
            ntags += 1
            key = "key" if dc == {"ListCons"} and nat else "value"
            label = "%s:%s" % (key, "+".join(sorted(nat or dc or {"annotation"})))
            if foll and nat == {"Num"} and (not natives and not ctors):
                # the kind byte of a number
                want_c = set().union(*(CONV[p] for p in foll))
                r.ob("number:%s" % "+".join(sorted(foll)), convs == want_c, "a number written as %s is rebuilt through %s" % ("/".join(sorted(foll)), ", ".join(sorted(convs)) or "nothing"), wh(W, at))
                continue
            if key == "key" and nat <= set(KEYS_REFUSED) and not S:
                continue
            if nat:
                kinds_written |= nat
                exp = set() if key == "key" else {"BoxedTypeData"} if dc == {"BoxedTypeData"} else {BOX.get(n, "?") for n in nat}
                r.ob("kind:%s" % (label if dc != {"BoxedTypeData"} else label + ":type"), len(nat) == 1 and natives == nat and ctors == exp,
                     "%s written under tag %d is rebuilt as %s in %s" % ("/".join(sorted(nat)), k, "/".join(sorted(map(str, natives))) or "nothing", "/".join(sorted(map(str, ctors))) or "no box"), wh(W, at))
            elif dc:
                kinds_written |= dc
                exp = set()
                ok = all(v in REBUILD for v in dc) and len({frozenset(REBUILD[v]) for v in dc}) == 1
                if ok:
                    exp = REBUILD[min(dc)]
                r.ob("kind:%s" % label, ok and ctors == exp, "%s written under tag %d is rebuilt as %s" % ("/".join(sorted(dc)), k, "/".join(sorted(map(str, ctors))) or "nothing"), wh(W, at))
            else:
                r.ob("kind:annotation", ("meta", True) in S and not ctors and not natives, "an annotation written under tag %d is not rebuilt as one" % k, wh(W, at))
    r.floor("tag bytes matched", ntags, 12)
    for v in ("Num", "Str", "Sym", "Zdt", "Unit", "BoolTrue", "BoolFalse", "ListNil", "ListCons", "Block"):
        r.ob("sent:%s" % v, v in kinds_written, "values of kind %s are no longer written under a tag of their own" % v, where(Ws[0]))
    group_w = [f for f in (db.fns[i] for i in sorted({i for g in W.grams.values() for i in g.x.inlined | {g.f.id}}))]
    group_r = [f for f in (db.fns[i] for i in sorted({i for g in R.grams.values() for i in g.x.inlined | {g.f.id}} | set(prims)))]
    bytes_order(r, db, group_w, group_r)
    casts(r, db, group_w, group_r)
    numbers(r, db, W)
    text(r, db, W, I)
    counts(r, db, W, R)
    places(r, db, R)
    short_read(r, db, prims)
    unknown(r, db, R)
    changing(r, db, group_w, group_r)
    r.count("functions of the writer", len(group_w))
    r.count("functions of the reader", len(group_r))


def inl_higher(g):
    """takes a function value: may appear within itself"""
    T = g.r["T"]
    return any(T[T.peel(g.ty(i + 1))].get("k") in ("param", "closure") for i in range(g.argc)) and g.kind != "closure"


def sig(W, at):
    if at is None:
        return "-"
    g = W.gram(at[0])
    o = g.x.org[at[1]]
    return o.short


def wh(W, at):
    if at is None:
        return None
    g = W.gram(at[0])
    t = g.x.bbs[at[1]]["t"]
    return where(g.x.org[at[1]], t[5] if t[0] == "call" else None)


def bytes_order(r, db, gw, gr):
    seen = {}
    for side, fs in (("written", gw), ("read", gr)):
        for f in fs:
            for c in f.calls():
                m = re.match(r"(to|from)_(le|be|ne)_bytes$", lname(c.path))
                if m:
                    seen.setdefault(m.group(2), []).append((side, f, c))
    main = max(sorted(seen), key=lambda k: len(seen[k])) if seen else None
    n = 0
    for o, xs in sorted(seen.items()):
        for side, f, c in xs:
            n += 1
            r.ob("order:%s:%s" % (f.short, lname(c.path)), o == main, "this item is %s in another byte order than the rest" % side, where(f, c.line))
            if lname(c.path).startswith("from_"):
                e = peel(expr_of(f, c.args[0]))
                if e[0] == "agg" and e[1][0] == "array":
                    idx = [y[2][1] if y[0] == "index" and y[2][0] == "const" else None for y in e[2]]
                    idx = [int(i) if i is not None else None for i in idx]
                    if None not in idx:
                        r.ob("order:%s:items" % f.short, idx == list(range(len(idx))), "the bytes of the item are put together in the order %s" % idx, where(f, c.line))
    r.floor("byte order conversions", n, 6)


def casts(r, db, gw, gr):
    W = wire.WIDTH
    n = 0
    for f in gw + gr:
        T = f.r["T"]
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] != "=" or s[2][0] != "cast" or s[2][1] not in ("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat"):
                    continue
                o = s[2][2]
                src = T.s(o[1]["t"]) if o[0] == "c" else T.s(f.ty(o[1][0])) if not o[1][1] else None
                dst = T.s(s[2][3])
                if src not in W or dst not in W:
                    continue
                n += 1
                ok = s[2][1] == "IntToInt" and (W[dst] >= W[src] or (src, dst) == ("usize", "u32"))
                if s[2][1] == "IntToInt" and W[dst] == 4 and dst == "i32":
                    ok = False
                r.ob("cast:%s:%s:%s" % (f.short, src, dst), ok, "a value on its way is converted from %s to %s, which changes it" % (src, dst), where(f, s[3] if len(s) > 3 else None))
    r.count("numeric conversions", n)


def numbers(r, db, W):
    """a number is sent as a float only when it is no integer"""
    n = 0
    for fid, g in sorted(W.grams.items()):
        x = g.x
        dom = x.dom()
        arms = {}
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and x.bbs[b]["t"][0] == "switch" and x.bbs[b]["t"][1][0] != "c" and x.bbs[b]["t"][1][1] == s[1]:
                    e = peel(place_expr(x, s[2][1]))
                    if e[0] == "call" and lname(e[1]) in ("as_u64", "as_i64"):
                        t = x.bbs[b]["t"]
                        arms.setdefault(lname(e[1]), set()).add(next((m for v, m in t[3] if int(v) == 0), t[4]))
                    continue
            t = x.bbs[b]["t"]
            if t[0] == "switch":
                e = peel(expr_of(x, t[1]))
                neg = False
                while e[0] == "un" and e[1] == "Not":
                    neg, e = not neg, peel(e[2])
                if e[0] == "call" and lname(e[1]) in ("is_u64", "is_i64", "is_some", "is_none"):
                    inner = peel(e[2][0])
                    nm = {"is_u64": "as_u64", "is_i64": "as_i64"}.get(lname(e[1])) or (lname(inner[1]) if inner[0] == "call" else None)
                    if lname(e[1]) == "is_none":
                        neg = not neg
                    if nm in ("as_u64", "as_i64"):
                        arms.setdefault(nm, set()).add(next((m for v, m in t[3] if int(v) == (1 if neg else 0)), t[4]))
                if e[0] == "call" and lname(e[1]) == "is_f64":
                    y = next((m for v, m in t[3] if int(v) == (0 if neg else 1)), t[4])
                    for nm in ("as_u64", "as_i64"):
                        arms.setdefault(nm, set()).add(y)
        for b, c in sorted(g.calls.items()):
            if b not in x.reach:
                continue
            tk = g.token((b, ())) if b in g.tok or True else None
            if tk is None or tk[0] != "n" or tk[3] != "f64":
                continue
            n += 1
            ok = all(any(a in dom[b] for a in arms.get(nm, ())) for nm in ("as_u64", "as_i64"))
            r.ob("float:%s" % x.org[b].short, ok, "a number is written as a float without having been found to be no integer, so a large integer loses digits", where(x.org[b], c.line))
    r.floor("float items written", n, 1)


def text(r, db, W, I):
    n = 0
    for fid, g in sorted(W.grams.items()):
        x = g.x
        for b, c in sorted(g.calls.items()):
            if b not in x.reach:
                continue
            tk = g.tok.get(b)
            if tk is None or tk[0] != "bytes":
                continue
            n += 1
            calls = sorted({lname(y[1]) for y in subexprs(tk[1]) if y[0] == "call"} - TEXT_OUT)
            calls = [q for q in calls if q not in ("with_roots", "unwrap_or_else", "clone", "new", "len", "as_u64")]
            r.ob("text:%s" % x.org[b].short, not [q for q in calls if q in LOSSY or q.startswith(("to_", "trim", "split", "replace"))],
                 "the bytes written are made by `%s`, which does not keep the text" % ", ".join(calls), where(x.org[b], c.line))
            # the length before it is that run's length
            r.ob("length:%s" % x.org[b].short, length_before(g, b, tk[1]), "the length written before a run of bytes is not that run's length", where(x.org[b], c.line))
    r.floor("runs of bytes written", n, 3)


LOSSY = {"escape_default", "escape_debug", "chars", "bytes", "format", "get", "get_unchecked", "index", "date", "time", "timestamp", "naive_utc", "naive_local", "with_timezone", "date_naive", "to_utc", "truncate", "chars", "lines", "round_subsecs", "trunc_subsecs", "format_with_items"}


def length_before(g, b, e):
    """walking back from the run, the nearest token is a 4-byte item holding the length of the same bytes"""
    x = g.x
    pred = {}
    for s, ns in g.th.succs.items():
        for n in ns:
            pred.setdefault(n, []).append(s)
    st = [s for s in g.th.states(b)]
    seen = set(st)
    ok = bool(st)
    while st:
        s = st.pop()
        for p in pred.get(s, ()):
            if p in seen:
                continue
            t = g.token(p)
            if t is None:
                seen.add(p)
                st.append(p)
                continue
            if t[0] != "n" or t[1] != 4:
                return False
            v = t[4]
            while v[0] == "cast":
                v = v[1] if isinstance(v[1], tuple) else v[2]
            v = unconv(v)
            if v[0] == "call" and lname(v[1]) == "len":
                lc = g.calls.get(v[3][0]) if len(v) > 3 and v[3] else None
                if lc is None or not (chain(x, lc.args[0]) & chain(x, g.calls[b].args[1])):
                    return False
            elif v[0] != "local":
                return False
    return ok


def chain(x, o, d=40):
    """locals an operand is a copy, reference or byte view of"""
    out = set()
    while d and o is not None and o[0] != "c" and o[1][0] not in out:
        d -= 1
        l = o[1][0]
        out.add(l)
        ds = [q for q in x.defs().get(l, []) if q[1] != "a"]
        if len(ds) != 1:
            break
        b, i, rv = ds[0]
        if i == "t":
            c = Call(x, b, rv)
            o = c.args[0] if lname(c.path) in ("as_bytes", "as_str", "deref", "as_ref", "as_slice", "borrow", "into_bytes") else None
        elif rv[0] in ("ref", "raw"):
            o = ["cp", rv[2]]
        elif rv[0] == "use":
            o = rv[1]
        elif rv[0] == "cast":
            o = rv[2]
        else:
            o = None
    return out


def unconv(v):
    while v[0] == "call" and lname(v[1]) in ("from", "into", "unwrap", "expect", "try_from", "try_into", "branch", "map_err", "unwrap_or") and v[2] or v[0] in ("cast", "as", "field", "ref", "deref"):
        if v[0] == "call":
            v = v[2][0]
        elif v[0] == "cast":
            v = next(y for y in v[1:] if isinstance(y, tuple))
        elif v[0] == "as":
            v = v[2]
        elif v[0] == "field":
            v = v[2]
        else:
            v = v[1]
    return v


def norm(e):
    """an expression without the blocks its calls stand in, references and byte views"""
    if not isinstance(e, tuple):
        return e
    e = peel(e) if e and e[0] in ("ref", "deref", "pcast", "call") else e
    if e and e[0] == "call":
        if lname(e[1]) in ("as_bytes", "as_str", "into_bytes", "deref") and e[2]:
            return norm(e[2][0])
        return ("call", lname(e[1]), tuple(norm(y) for y in e[2]))
    return tuple(norm(y) for y in e)


def counts(r, db, W, R):
    """the count of a list or block"""
    from flow import loops
    n = 0
    for fid, g in sorted(W.grams.items()):
        x = g.x
        for h, body in nat_loops(x):
            calls = [b for b in body if b in g.calls and (g.token((b, ())) or ("",))[0] == "call"]
            if not calls:
                continue
            # counters: integer locals stepped by one within the loop
            steps = {}
            for b in body:
                for s in x.bbs[b]["s"]:
                    if s[0] == "=" and not s[1][1] and s[2][0] in ("bin", "use"):
                        e = rv_expr(x, s[2])
                        if e[0] == "field":
                            e = e[2]
                        if e[0] == "bin" and e[1].startswith("Add") and e[2] == ("local", s[1][0]):
                            steps.setdefault(s[1][0], []).append((b, e[3]))
            key = x.org[calls[0]].short
            if not steps:
                continue
            n += 1
            for l, ss in sorted(steps.items()):
                one = all(str(k[1]) == "1" for b, k in ss if k[0] == "const") and all(k[0] == "const" for b, k in ss)
                sb = {b for b, k in ss}
                # once per trip that writes: no trip through a write without a step, no second step on one trip
                miss = cyc(x, h, body, set(calls), sb)
                twice = any(path_in(x, s0, sb, body, {h}) for s0 in sb)
                zero = [rv for b, i, rv in x.defs().get(l, []) if i not in ("a", "t") and b not in body]
                z = all(rv[0] == "use" and rv[1][0] == "c" and str(rv[1][1].get("v")) == "0" for rv in zero) and zero
                r.ob("count:%s" % key, one and not miss and not twice and bool(z), "the count is not stepped exactly once for every element written", where(x.org[calls[0]], x.bbs[calls[0]]["t"][5]))
                # it is what is written back
                back = [c for b, c in sorted(g.calls.items()) if b in x.reach and lname(c.path) == "copy_from_slice"]
                good = [c for c in back if l in froms(x, c.args[1]) ]
                direct = [b for b in g.calls if b in x.reach and (g.token((b, ())) or ("",))[0] == "n" and l in {y[1] for y in subexprs(g.tok[b][4]) if y[0] == "local"}]
                r.ob("count:%s:kept" % key, bool(good or direct), "the number of elements written is not put into the record", where(x.org[calls[0]]))
                for c in good:
                    r.ob("count:%s:place" % key, placeholder(g, c), "the count is put elsewhere than where room was left for it", where(x.org[c.bb], c.line))
    r.count("counted loops of the writer", n)
    m = 0
    for fid, g in sorted(R.grams.items()):
        x = g.x
        for h, body in nat_loops(x):
            calls = [b for b in body if b in g.calls and (g.token((b, ())) or ("",))[0] == "call"]
            if not calls:
                continue
            m += 1
            key = "%s:%s" % (x.org[calls[0]].short, "+".join(sorted({db.fns[g.token((b, ()))[1]].short.split("::")[-1] + str(len(calls)) for b in calls})))
            ok = None
            for b in body:
                c = g.calls.get(b)
                if c is not None and lname(c.path) == "next":
                    e = expr_of(x, c.args[0])
                    rg = [y for y in subexprs(e) if y[0] == "agg" and lname(str(y[1][1])).startswith("Range")]
                    if rg:
                        lo, hi = (rg[0][2] + (None, None))[:2]
                        ok = lo is not None and lo[0] == "const" and str(lo[1]) == "0" and lname(str(rg[0][1][1])) == "Range" and whole(g, R, hi)
                    else:
                        rg2 = [y for y in subexprs(e) if y[0] == "call" and lname(y[1]) in ("take", "repeat_n", "new")]
                        ok = ok if not rg2 else None if ok is None else ok
            if ok is not None:
                r.ob("trips:%s" % key, ok, "the reader does not read as many elements as the count it was given", where(x.org[calls[0]], x.bbs[calls[0]]["t"][5]))
    r.count("counted loops of the reader", m)


def whole(g, R, e):
    """the expression is an item just read, unaltered"""
    if e is None:
        return False
    for y in subexprs(e):
        if y[0] == "bin":
            return False
        if y[0] == "call" and lname(y[1]) in ("min", "max", "clamp", "saturating_sub", "wrapping_sub", "checked_sub"):
            return False
        if y[0] == "const" and y is e:
            return False
    return True


def placeholder(g, c):
    """`out[p..p + 4]` with p the length just before a 4-byte item that starts a run of elements"""
    x = g.x
    e = expr_of(x, c.args[0])
    rg = [y for y in subexprs(e) if y[0] == "agg" and lname(str(y[1][1])).startswith("Range")]
    if not rg:
        return True
    lo = rg[0][2][0]
    ln = [y for y in subexprs(lo) if y[0] == "call" and lname(y[1]) == "len"]
    if not ln or lo[0] == "bin":
        return False
    if len(rg[0][2]) > 1:
        hi = rg[0][2][1]
        hi = hi[2] if hi[0] == "field" else hi
        if not (hi[0] == "bin" and hi[1].startswith("Add") and str(hi[3][1]) == "4"):
            return False
    b = ln[0][3][0] if len(ln[0]) > 3 and ln[0][3] else None
    if b is None:
        return True
    # the next token after the length was taken
    st = [n for s in g.th.states(b) for n in g.succ(s)]
    seen = set(st)
    while st:
        s = st.pop()
        t = g.token(s)
        if t is not None:
            if not (t[0] == "n" and t[1] == 4):
                return False
            continue
        for n in g.succ(s):
            if n not in seen:
                seen.add(n)
                st.append(n)
    return True


def froms(x, o):
    """locals an operand's value is computed from"""
    out, st = set(), [o[1][0]] if o[0] != "c" else []
    while st:
        l = st.pop()
        if l in out:
            continue
        out.add(l)
        for b, i, rv in x.defs().get(l, []):
            if i == "a":
                continue
            if i == "t":
                st.extend(a[1][0] for a in Call(x, b, rv).args if a[0] != "c")
            else:
                st.extend(p[0] for p in rv_places(rv))
    return out


def nat_loops(x):
    dom = x.dom()
    out = {}
    for b in x.reach:
        for n in x.succ(b):
            if n in dom[b] and not x.bbs[b].get("c"):
                body = out.setdefault(n, {n})
                st = [b]
                while st:
                    m = st.pop()
                    if m not in body:
                        body.add(m)
                        st.extend(p for p in x.pred(m) if p in x.reach)
    return sorted(out.items())


def path_in(x, s, goals, body, stop):
    st, seen = [n for n in x.succ(s) if n in body and n not in stop], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b in goals:
            return True
        st.extend(n for n in x.succ(b) if n in body and n not in stop)
    return False


def cyc(x, h, body, must, avoid):
    """a trip from h back to h through a block of `must` and none of `avoid`"""
    def reach(starts):
        st, seen = list(starts), set()
        while st:
            b = st.pop()
            if b in seen or b in avoid or b not in body:
                continue
            seen.add(b)
            st.extend(n for n in x.succ(b) if n != h)
        return seen
    a = reach([h])
    for m in must & a:
        z = reach(n for n in x.succ(m) if n != h)
        if any(h in x.succ(b) for b in z | {m}):
            return True
    return False


def places(r, db, R):
    """order of the parts handed to a constructor against the order they were read in"""
    n = 0
    for fid, g in sorted(R.grams.items()):
        x = g.x
        dom = x.dom()
        for b, c in sorted(g.calls.items()):
            if b not in x.reach:
                continue
            nm = lname(c.path)
            if nm == "meta_value":
                parts = [R.sources(g, a) for a in c.args[2:4]]
            elif nm == "data_value":
                e = peel(expr_of(x, c.args[2]))
                v = e[2][0][1][2] if e[0] == "call" and lname(e[1]) == "tag" and e[2] and e[2][0][0] == "agg" else None
                if v == "ListCons":
                    n += 1
                    r.ob("place:ListCons:%s" % x.org[b].short, backwards(x, b), "the list is not built from its last element to its first", where(x.org[b], c.line))
                    continue
                if v != "BlockPair":
                    continue
                ar = peel(expr_of(x, c.args[3]))
                l = None
                parts = None
                for y in range(1):
                    ops = array_ops(x, c.args[3])
                    if ops and len(ops) == 2:
                        parts = [R.sources(g, a) for a in ops]
                if parts is None:
                    continue
            else:
                continue
            n += 1
            a, z = parts
            ok = bool(a) and bool(z) and not (a & z) and all(p in dom[q] for p in [min(a, key=lambda k: len(dom[k]))] for q in z)
            r.ob("place:%s:%s" % (nm if nm == "meta_value" else "BlockPair", x.org[b].short), ok, "the two parts are not taken in the order they were written", where(x.org[b], c.line))
    r.floor("compound values rebuilt", n, 3)


def array_ops(x, o, d=8):
    """operands of the array a slice argument refers to"""
    if d == 0 or o[0] == "c":
        return None
    for b, i, rv in x.defs().get(o[1][0], []):
        if i in ("a", "t"):
            return None
        if rv[0] == "agg" and rv[1].get("k") == "array":
            return rv[2]
        if rv[0] == "use":
            return array_ops(x, rv[1], d - 1)
        if rv[0] == "cast":
            return array_ops(x, rv[2], d - 1)
        if rv[0] in ("ref", "raw"):
            return array_ops(x, ["cp", rv[2]], d - 1)
    return None


def backwards(x, b):
    """the loop around b runs over the elements from the last"""
    for h, body in nat_loops(x):
        if b not in body:
            continue
        for k in body:
            t = x.bbs[k]["t"]
            if t[0] != "call":
                continue
            c = Call(x, k, t)
            n = lname(c.path)
            if n in ("next_back", "pop", "rfold", "try_rfold"):
                return True
            if n == "next":
                it = " ".join([c.rpath] + [str(y[1]) for y in subexprs(expr_of(x, c.args[0])) if y[0] == "call"])
                return "Rev" in it or "rev" in [lname(w) for w in it.split()] or turned(x, h, c)
    return True


def turned(x, h, c):
    """the elements of the loop with header h were put in reverse order in place before it"""
    base = {y for y in locals_of(x, c.args[0])}
    dom = x.dom()[h]
    for b in dom:
        t = x.bbs[b]["t"]
        if t[0] == "call" and lname(str(t[1].get("p"))) == "reverse" and base & locals_of(x, t[2][0]):
            return True
    return False


def locals_of(x, o, d=12):
    """named collections an operand is a view of or was made from"""
    out = set()
    st = [(o, d)]
    while st:
        o, d = st.pop()
        if o is None or o[0] == "c" or d == 0:
            continue
        l = o[1][0]
        if "Vec<" in x.r["T"].s(x.ty(l)):
            out.add(l)
        for b, i, rv in x.defs().get(l, []):
            if i == "t":
                if lname(str(rv[1].get("p"))) in ("into_iter", "iter", "iter_mut", "by_ref", "deref", "deref_mut", "as_mut_slice", "as_slice", "drain"):
                    st.append((rv[2][0], d - 1))
            elif i != "a":
                if rv[0] in ("use",):
                    st.append((rv[1], d - 1))
                elif rv[0] in ("ref", "raw"):
                    st.append((["cp", rv[2]], d - 1))
                elif rv[0] == "cast":
                    st.append((rv[2], d - 1))
    return out


def short_read(r, db, prims):
    n = 0
    for fid, ai in sorted(prims.items()):
        f = db.fns[fid]
        n += 1

        def length(e):
            e = peel(e)
            return e[0] == "call" and lname(e[1]) == "len" or e[0] in ("len", "un") and "len" in str(e[:2]).lower()

        def amount(e):
            e = peel(e)
            return e == ("arg", ai + 1)

        def atom(h, e):
            if e[0] == "bin" and e[1] in ("Lt", "Gt", "Le", "Ge"):
                a, b, op = e[2], e[3], e[1]
                if amount(a) and length(b):
                    a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
                if length(a) and amount(b):
                    return {"Lt": False, "Ge": True}.get(op)
            return None

        def vatom(h, e, v):
            return v == "Some" and any(y[0] == "call" and lname(y[1]) in ("get", "split_at_checked", "checked_sub") for y in subexprs(e))
        g = Gate(db, atom, vatom)
        r.ob("short:%s" % f.short, g.returns_variant(f, "Ok", None, 10), "bytes are taken without the length having been checked against what is left", where(f))
        x = inl.comb(f)
        cur = next(i + 1 for i in range(f.argc) if is_cursor(f, i + 1))
        stores = []
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[1][0] == cur and s[1][1] == [["*"]]:
                    stores.append((b, rv_expr(x, s[2])))
            c = x.bbs[b]["t"]
            if c[0] == "call" and c[3] == [cur, [["*"]]]:
                stores.append((b, ("call", c[1].get("p"), tuple(expr_of(x, a) for a in c[2]), (b,))))
        rest = all(rest_of(e) for b, e in stores) and stores
        r.ob("advance:%s" % f.short, bool(rest), "the reader's position is not moved to what follows the bytes taken", where(f))
    r.floor("reading primitives", n, 1)


def rest_of(e):
    e = peel(e)
    ranges = [lname(str(y[1][1])) for y in subexprs(e) if y[0] == "agg" and lname(str(y[1][1])).startswith("Range")]
    if ranges:
        return "RangeTo" not in ranges
    if e[0] == "field" and any(y[0] == "call" and lname(y[1]) in ("split_at", "split_at_checked", "split_first") for y in subexprs(e)):
        return str(e[1]) == "1"
    return True


def unknown(r, db, R):
    """a tag with no meaning is answered with an error"""
    n = 0
    for fid, g in sorted(R.grams.items()):
        C = Conds(g, (), R)
        for sb, kind, arms in C.sw:
            if isinstance(kind, tuple) and 256 in arms:
                t = g.x.bbs[sb]["t"]
                if g.x.r["T"].s(g.x.ty(t[1][1][0])) == "bool":
                    continue
                n += 1
                # inside, the same byte may be looked at again: every later look at it that excludes the rest ends in an error
                ok = not ends_ok(R, g, sb, arms[256], kind[1])
                r.ob("unknown:%s" % g.x.org[sb].short, ok, "a byte that stands for nothing is taken for something instead of being refused", where(g.x.org[sb], t[5]))
    r.floor("bytes told apart by the reader", n, 2)


def ends_ok(R, g, sb, arm, tokb):
    th = g.th
    st = [m for s in th.states(sb) for m in th.succs.get(s, ()) if m[0] == arm]
    seen = set(st)
    while st:
        s = st.pop()
        if g.end(s) == "ok":
            return True
        if s[0] == tokb:
            continue
        bs = R.byte_switch(g, s)
        for m in g.succ(s):
            if bs is not None and bs[0] == tokb and m[0] != bs[1](256):
                continue
            if m not in seen:
                seen.add(m)
                st.append(m)
    return False


CHANGES = {"from_utf8_lossy", "to_string_lossy", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "make_ascii_lowercase", "make_ascii_uppercase", "replace", "replacen", "strip_prefix", "strip_suffix",
           "escape_default", "escape_debug", "escape_unicode", "with_timezone", "naive_utc", "naive_local", "to_utc", "date_naive", "round_subsecs", "trunc_subsecs", "to_rfc2822", "timestamp", "timestamp_millis", "timestamp_micros",
           "retain", "dedup", "sort", "sort_by", "round", "trunc", "floor", "ceil", "abs", "wrapping_add", "wrapping_sub", "saturating_sub", "skip", "step_by", "filter"}


def changing(r, db, gw, gr):
    n = 0
    for f in gw + gr:
        for c in f.calls():
            nm = lname(c.path)
            n += 1
            if nm in ("skip", "step_by", "filter") and "Iterator" not in c.path or nm.startswith("replace") and "str::" not in c.path:
                continue
            if "usize" in c.path and nm in ("wrapping_add", "wrapping_sub", "saturating_sub"):
                continue
            if nm in CHANGES or nm.startswith("trim"):
                r.ob("changed:%s:%s" % (f.short, nm), False, "`%s` changes a value on its way" % nm, where(f, c.line))
    r.ob("changed:none", True)
    r.count("calls checked for changing a value", n)
