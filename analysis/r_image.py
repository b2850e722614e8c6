"""B04: the saved prelude image is read back the way it was written"""
import re
from db import rv_places, operands
import inl, wire, flow
from inl import lname

LOSSY = {"skip", "take", "rev", "filter", "filter_map", "step_by", "skip_while", "take_while", "map_while", "dedup", "dedup_by",
         "dedup_by_key", "truncate", "sort", "sort_by", "sort_by_key", "sort_unstable", "reverse", "retain", "pop", "drain", "swap", "rotate_left",
         "as_f64", "as_i64", "as_u64", "trim", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "from_f64", "fuse_first", "last", "nth", "chunks", "split_at", "split_off", "replace", "clear", "remove", "swap_remove", "split_first", "split_last"}
PASS_MUT = {"push", "insert", "extend", "append", "extend_from_slice", "push_back", "push_str", "replace", "get_or_insert"}


def where(f, line=None):
    return "%s (%s)" % (f.id, f.file)


def short(p):
    return p.rsplit("::", 1)[-1]


class Trace:
    """what a value is made of: fields of an enum's variants, parts of a pair, results of calls"""
    def __init__(self, x, src, stop=(), ctx=lambda ty: False, pairs=True, calls=()):
        self.x, self.src, self.stop, self.ctx, self.pairs, self.calls = x, src, set(stop), ctx, pairs, set(calls)
        self.mut = {}
        for b in x.reach:
            t = x.bbs[b]["t"]
            if t[0] != "call" or len(t[2]) < 2:
                continue
            n = lname((t[1].get("p") or ""))
            if n not in PASS_MUT or t[2][0][0] == "c":
                continue
            for root in self.pointee(t[2][0][1]):
                self.mut.setdefault(root, []).extend((b, a) for a in t[2][1:])

    def pointee(self, place, d=6):
        out, x = set(), self.x
        l = place[0]
        if d == 0:
            return out
        for bb, i, rv in x.defs().get(l, []):
            if i in ("t", "a"):
                if i == "t" and lname(rv[1].get("p") or "") in ("deref_mut", "as_mut", "borrow_mut", "as_mut_slice") and rv[2] and rv[2][0][0] != "c":
                    out |= self.pointee(rv[2][0][1], d - 1)
                continue
            if rv[0] in ("ref", "raw"):
                if not rv[2][1]:
                    out.add(rv[2][0])
                elif rv[2][1][0] == ["*"]:
                    out |= self.pointee([rv[2][0], []], d - 1)
                else:
                    out.add(rv[2][0])
            elif rv[0] == "use" and rv[1][0] != "c":
                out |= self.pointee(rv[1][1], d - 1)
        return out

    def of(self, o):
        seen, leaves, st = set(), set(), []
        self.push(o, None, st, leaves)
        while st:
            l, k = st.pop()
            if (l, k) in seen:
                continue
            seen.add((l, k))
            self.local(l, k, st, leaves)
        return leaves

    def push(self, o, k, st, leaves):
        if o[0] == "c":
            if o[1].get("v") is not None or o[1].get("s") is not None:
                leaves.add(("const", str(o[1].get("v", o[1].get("s")))[:40]))
            return
        self.place(o[1], k, st, leaves)

    def place(self, p, k, st, leaves):
        ds = None
        for n, e in enumerate(p[1]):
            if e[0] == "d":
                ds = e[2]
            elif e[0] == "f":
                owner = e[3] if len(e) > 3 else None
                if owner and any(str(owner).endswith(s) for s in self.src):
                    leaves.add(("src", short(str(owner)), ds, e[2]))
                    return
                if not owner and ds is None and self.pairs:
                    k = e[1] if n == len([z for z in p[1] if z[0] != "*"]) - 1 or True else k
                    st.append((p[0], k))
                    return
                ds = None
        st.append((p[0], k if not [z for z in p[1] if z[0] != "*"] else None))

    def local(self, l, k, st, leaves):
        x = self.x
        if 1 <= l <= x.argc:
            leaves.add(("param", l) if k is None else ("param", l, k))
        for b, a in self.mut.get(l, []):
            self.push(a, None, st, leaves)
        for b, i, d in x.defs().get(l, []):
            if i == "a":
                continue
            if i == "t":
                n = lname(d[1].get("p") or "")
                if n in self.calls:
                    leaves.add(("call", b))
                    continue
                for a in d[2]:
                    if a[0] != "c" and self.ctx(x.ty(a[1][0]) if not a[1][1] else None):
                        continue
                    if a[0] == "c":
                        continue
                    self.push(a, k if n in ("clone", "deref", "as_ref", "borrow", "into", "from", "unwrap", "next", "branch") else None, st, leaves)
                continue
            if d[0] == "agg" and d[1].get("k") == "tuple":
                for j, o in enumerate(d[2]):
                    if k is None or k == j:
                        self.push(o, None, st, leaves)
                continue
            if d[0] == "discr":
                continue
            if d[0] in ("use",):
                self.push(d[1], k, st, leaves)
            elif d[0] in ("ref", "raw"):
                self.place(d[2], k, st, leaves)
            elif d[0] == "agg":
                for o in d[2]:
                    self.push(o, k, st, leaves)
            else:
                for o in operands(d):
                    self.push(o, None, st, leaves)
                for p in rv_places(d):
                    if d[0] not in ("bin", "un", "cast", "repeat"):
                        self.place(p, None, st, leaves)


def aggs(x, adt):
    for b in sorted(x.reach):
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and s[2][0] == "agg" and str(s[2][1].get("p", "")).endswith(adt):
                yield b, s[2][1], s[2][2]


def reads(f, adt):
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] != "=":
                continue
            for p in rv_places(s[2]):
                if any(e[0] == "f" and len(e) > 3 and str(e[3]).endswith(adt) for e in p[1]):
                    return True
    return False


def derived(f):
    return " as std::" in f.id or " as core::" in f.id or "serde::" in f.id or "::_::" in f.id


def calls_into(x, ids, db):
    for c in x.calls():
        if set(db.targets(c)) & ids:
            yield c


MIRROR = [("::StgSyn", "::ArenaStgSyn", "a tree node", "the image"), ("::LambdaForm", "::ArenaLambdaForm", "a lambda form", "the image"),
          ("::ArenaStgSyn", "::StgSyn", "a node of the image", "the tree"), ("::ArenaLambdaForm", "::LambdaForm", "a form of the image", "the tree")]
# parts that are left behind by design: source positions of the process that made the image
DROPPED = {("::ArenaLambdaForm", "Lambda", "annotation"): "source positions of the process that wrote the image mean nothing in the process that reads it"}
ELIDED = {("::ArenaStgSyn", "Ann")}


def arena(r, db):
    fns = [f for f in db.fns.values() if f.file.endswith("stg/arena.rs") and not derived(f)]
    if not fns:
        r.note("no arena module")
        return
    adts = {a: next((k for k in db.adts if k.endswith(a)), None) for a in ("::StgSyn", "::ArenaStgSyn", "::LambdaForm", "::ArenaLambdaForm", "::StgArena")}
    if None in adts.values():
        r.note("the image's types are not all there: %s" % [k for k, v in adts.items() if v is None])
        return
    own = set()
    for f in fns:
        for g in fns:
            pass
    pool = {f.id for f in fns if touches_pool(f)}
    both = {}
    for f in fns:
        for s, d, _, _ in MIRROR:
            if reads(f, s) and list(aggs(f, d)):
                both.setdefault(f.id, set()).add((s, d))
    want = lambda h: h.file.endswith("stg/arena.rs") and not derived(h) and h.id not in pool and h.id not in both
    def ctx_of(x):
        def go(t):
            if t is None:
                return False
            s = x.r["T"].s(x.r["T"].peel(t)) if False else x.r["T"].s(t)
            return "StgArena" in s or re.search(r"Option<.*Smid>", s) is not None
        return go
    seen = {}
    n = 0
    for s, d, what, into in MIRROR:
        made = {}
        F = {v[0]: [q[0] for q in v[2]] for v in db.adts[adts[s]]["vars"]}
        for f in sorted(fns, key=lambda f: f.id):
            # a function that reads the source, or that hands parts of it to a helper which builds
            if not reads(f, s):
                continue
            x = inl.expand(f, want, 16, True, cls=wire.Loops)
            T = Trace(x, [s], ctx=ctx_of(x))
            for b, a, ops in aggs(x, d):
                V = a["vn"]
                names = a.get("f") or []
                froms = {}
                for q, o in zip(names, ops):
                    froms[q] = T.of(o)
                if s == "::ArenaLambdaForm" or s == "::LambdaForm" or names:
                    made.setdefault(V, []).append(f)
                # a node that is made for something else: a placeholder
                if not names:
                    made.setdefault(V, []).append(f)
                    continue
                if not any(("src" == e[0]) for v in froms.values() for e in v):
                    if not any(e[0] in ("param", "call") for v in froms.values() for e in v):
                        continue    # a placeholder
                    r.note("%s of %s is built in %s from values that were not followed to a field" % (d[2:], V, f.id))
                    continue
                for q in names:
                    L = froms[q]
                    src = {(e[2], e[3]) for e in L if e[0] == "src"}
                    n += 1
                    key = "%s:%s.%s" % (into.split()[-1], V, q)
                    if (s, V, q) in DROPPED:
                        continue
                    consts = sorted(e[1] for e in L if e[0] == "const")
                    if src == {(V, q)}:
                        r.ob(key, not consts, "the %s of %s is kept on one path and replaced by a constant (%s) on another, in %s" % (q, V, ", ".join(consts), f.id), where(f))
                    elif not src and any(e[0] in ("param",) for e in L):
                        r.note("the %s of %s: what it is made of was not followed in %s" % (q, V, f.id))
                    elif not src:
                        r.ob(key, False, "the %s of %s in %s does not come from %s: it is made up (%s)" % (q, V, into, what, ", ".join(consts) or "no input"), where(f))
                    else:
                        r.ob(key, False, "the %s of %s in %s is made from %s" % (q, V, into, ", ".join("%s.%s" % (str(v), str(k)) for v, k in sorted(src, key=str))), where(f))
        if not made:
            r.note("nothing builds %s from %s" % (d[2:], s[2:]))
            continue
        for V in F:
            if (s, V) in ELIDED:
                continue
            r.ob("%s:%s" % (into.split()[-1], V), V in made, "%s of kind %s is never turned into the same kind in %s" % (what, V, into), where(fns[0]))
            n += 1
    r.count("parts of nodes and forms followed between tree and image", n)
    # pairs keep their order: (tag, body)
    k = 0
    for f in fns:
        x = f
        for b in sorted(x.reach):
            for st in x.bbs[b]["s"]:
                if st[0] != "=" or st[2][0] != "agg" or st[2][1].get("k") != "tuple" or len(st[2][2]) != 2:
                    continue
                T = Trace(x, ["::StgSyn", "::ArenaStgSyn", "::LambdaForm", "::ArenaLambdaForm"], ctx=ctx_of(x))
                L = [T.of(o) for o in st[2][2]]
                if not x.r["T"].s(x.ty(st[1][0])).startswith("(u8"):
                    continue
                k += 1
                r.ob("tag:%s" % f.id, not any(e[0] == "const" for e in L[0]) or any(e[0] != "const" for e in L[0]) and not any(e[0] == "const" for e in L[0]),
                     "the tag of a branch is a constant (%s) rather than the tag that was there" % sorted(e[1] for e in L[0] if e[0] == "const"), where(f))
    r.count("branches whose tag is carried over", k)
    # nothing dropped or reordered on the way
    m = 0
    for f in fns:
        for c in f.calls():
            p = c.path or ""
            if lname(p) in LOSSY and re.search(r"(^|::)(iter|vec|slice|str|Iterator|string|option)\b", p) or lname(p) in LOSSY and "Number" in p:
                if "option" in p.lower() and not any(e[0] == "src" for e in Trace(f, [z for z, _, _, _ in MIRROR]).of(c.args[0])):
                    continue
                r.ob("whole:%s:%s" % (f.id, lname(p)), False, "%s drops or reorders what is carried between tree and image" % lname(p), where(f))
            m += 1
    r.ob("whole", True, "", "")
    r.count("calls between tree and image", m)
    context(r, db, fns)
    pools(r, db, fns)


def touches_pool(f):
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=":
                for p in rv_places(s[2]) + [s[1]]:
                    if any(e[0] == "f" and len(e) > 3 and str(e[3]).endswith("::StgArena") for e in p[1]):
                        return True
        t = f.bbs[b]["t"]
        if t[0] == "call":
            for a in t[2]:
                if a[0] != "c" and any(e[0] == "f" and len(e) > 3 and str(e[3]).endswith("::StgArena") for e in a[1][1]):
                    return True
    return False


def context(r, db, fns):
    """the identity a form is rebuilt under reaches every part of it"""
    ids = {f.id for f in fns}
    def smid(f):
        for i in range(1, f.argc + 1):
            if re.search(r"Option<.*Smid>", f.r["T"].s(f.ty(i))):
                return i
    takes = {f.id: smid(f) for f in fns if smid(f)}
    n = 0
    for f in fns:
        root = f.id.split("::{closure")[0]
        if root not in takes:
            continue
        for c in f.calls():
            for t in db.targets(c):
                if t in takes and takes[t] - 1 < len(c.args):
                    a = c.args[takes[t] - 1]
                    n += 1
                    L = Trace(f, []).of(a) if a[0] != "c" else {("const", "None")}
                    made = a[0] == "c" or any(i not in ("t", "a") and d[0] == "agg" for bb, i, d in f.defs().get(a[1][0], []))
                    r.ob("context:%s:%s" % (f.id, short(t)), not made and not any(e[0] == "const" for e in L),
                         "%s rebuilds a part without the identity it was given" % f.id, where(f))
        for c in f.calls():
            for t in db.targets(c):
                g = db.fns.get(t)
                if t in ids and t not in takes and g is not None and "{closure" not in t and set(db.closure_reach({t})) & set(takes) \
                        and not any("Smid" in g.r["T"].s(g.ty(i)) or not re.search(r"StgArena|u32|usize|\[|Vec", g.r["T"].s(g.ty(i))) for i in range(1, g.argc + 1)):
                    r.ob("context:%s:%s" % (f.id, short(t)), False, "%s rebuilds a part without the identity it was given" % f.id, where(f))
    r.count("places where a form's identity is handed on", n)


def pools(r, db, fns):
    """an index handed out is the place the node is put"""
    n = 0
    pushers = set()
    fld = {}
    for f in fns:
        for c in f.calls():
            if lname(c.path) == "push" and "vec" in c.path.lower() and c.args[0][0] != "c":
                q = pool_field(f, c.args[0])
                if q:
                    fld.setdefault(f.id, []).append((q, c))
    for f in fns:
        if f.id not in fld:
            continue
        dom = f.dom()
        for q, c in fld[f.id]:
            lens = [d for d in f.calls() if lname(d.path) == "len" and pool_field(f, d.args[0]) == q]
            stores = []
            for d in f.calls():
                if lname(d.path) == "index_mut" and pool_field(f, d.args[0]) == q:
                    stores.append(d.args[1])
            if len(lens) != 1 or len(stores) > 1:
                r.note("how %s hands out places in %s was not followed" % (f.id, q))
                continue
            n += 1
            L = lens[0]
            ok = L.bb in dom[c.bb]
            key = "place:%s:%s" % (f.id, q)
            reach = db.closure_reach
            between = []
            if ok:
                for d in f.calls():
                    if L.bb in dom[d.bb] and d.bb in dom[c.bb] and d.bb not in (L.bb, c.bb):
                        ts = set(db.targets(d))
                        if ts and set(reach(ts)) & set(fld):
                            between.append(d)
            r.ob(key, ok and not between, "the place in %s is taken from its length, but not right before the node is put there" % q, where(f))
            for o in stores:
                T = Trace(f, [], calls=("len",))
                got = T.of(o)
                r.ob(key + ":fill", ("call", L.bb) in got and not any(e[0] == "const" for e in got), "the node is filled in at another place than the one handed out", where(f))
            T = Trace(f, [], calls=("len",))
            got = set()
            T.local(0, None, st := [], got)
            seen = set()
            while st:
                l, k = st.pop()
                if (l, k) not in seen:
                    seen.add((l, k))
                    T.local(l, k, st, got)
            r.ob(key + ":index", ("call", L.bb) in got and not any(e[0] == "const" for e in got), "the index handed out is not the place the node is put", where(f))
    r.count("pools whose places are handed out", n)


def pool_field(f, a, d=6):
    if a[0] == "c":
        return None
    p = a[1]
    for e in p[1]:
        if e[0] == "f" and len(e) > 3 and str(e[3]).endswith("::StgArena"):
            return e[2]
    if d == 0:
        return None
    for bb, i, rv in f.defs().get(p[0], []):
        if i in ("t", "a"):
            if i == "t" and lname(rv[1].get("p") or "") in ("deref_mut", "deref", "as_mut", "as_ref") and rv[2]:
                q = pool_field(f, rv[2][0], d - 1)
                if q:
                    return q
            continue
        if rv[0] in ("ref", "raw"):
            q = pool_field(f, ["cp", rv[2]], d - 1)
        elif rv[0] == "use":
            q = pool_field(f, rv[1], d - 1)
        else:
            q = None
        if q:
            return q
    return None


def closure_types(db):
    """the types an image is made of"""
    T = next(iter(db.fns.values())).r["T"]
    root = next((a for a in db.adts if a.endswith("::PreludeBlob")), None)
    seen, st = [], [root] if root else []
    def inside(i, out, d=12):
        t = T[i]
        if d == 0:
            return
        if t["k"] == "adt":
            out.add(t["p"])
            for a in t["a"]:
                inside(a, out, d - 1)
        elif t["k"] in ("ref", "ptr", "slice", "array"):
            inside(t["t"], out, d - 1)
        elif t["k"] == "tuple":
            for a in t["a"]:
                inside(a, out, d - 1)
    while st:
        a = st.pop()
        if a in seen or a not in db.adts:
            continue
        seen.append(a)
        out = set()
        for v in db.adts[a]["vars"]:
            for _, ty in v[2]:
                inside(ty, out)
        st += sorted(out)
    return [a for a in seen if a.startswith("eucalypt::")]


def stored(r, db):
    types = closure_types(db)
    by = {}
    for f in db.fns.values():
        for m in re.finditer(r"impl serde::(Serialize|Deserialize<'de>) for ([\w:]+)>::(serialize|deserialize)", f.id):
            by.setdefault(("eucalypt::" + m.group(2)), []).append(f)
            break
    n, hand = 0, []
    for A in sorted(types):
        fs = by.get(A, [])
        ser = [f for f in fs if f.id.endswith(">::serialize") and "impl serde::Serialize" in f.id and "__SerializeWith" not in f.id]
        if not ser or "::_::" not in ser[0].id:
            hand.append(A)
            continue
        n += written_whole(r, db, A, ser[0])
        n += read_whole(r, db, A, [f for f in fs if "visit_seq" in f.id and "{closure" not in f.id and "__DeserializeWith" not in f.id],
                        [f for f in fs if f.id.endswith("deserialize::__FieldVisitor as serde::de::Visitor<'de>>::visit_u64")])
    r.count("types an image is made of", len(types))
    r.count("fields and kinds stored and loaded", n)
    r.count("types stored by hand-written code", len(hand))
    r.assumptions.append("stored by hand-written code: " + ", ".join(short(a) for a in hand))
    m = 0
    for f in sorted(db.fns.values(), key=lambda f: f.id):
        if "::_::" in f.id or "tests" in f.id:
            continue
        if not (re.search(r"::serialize$|::deserialize$", f.id)):
            continue
        if not (re.search(r"number_serde|serde_sorted", f.id) or any(f in by.get(a, ()) for a in hand)) and not f.id.startswith("eucalypt::common::serde"):
            if not re.search(r"^eucalypt::(?!.*\bimpl\b).*::(serialize|deserialize)$", f.id):
                continue
        m += 1
        bad = []
        for c in f.calls():
            l = lname(c.path)
            if l in LOSSY or l in ("parse", "from_f64", "from_i128", "trunc", "round"):
                bad.append(l)
            if l == "from_str" and c.dest and re.search(r"Result<(f64|f32|i64|u64)", f.r["T"].s(f.ty(c.dest[0]))):
                bad.append("from_str of a machine number")
        r.ob("by-hand:%s" % f.id, not bad, "%s changes what it stores or loads (%s)" % (f.id, ", ".join(sorted(set(bad)))), where(f))
    r.count("hand-written store and load functions", m)


def written_whole(r, db, A, f):
    x = f
    vars_ = db.adts[A]["vars"]
    enum = len(vars_) > 1 or vars_[0][0] != short(A)
    got, idx = {}, {}
    ends = {c.bb for c in x.calls() if lname(c.path) == "end" and "Serialize" in c.path}
    ret = [b for b in x.reach if x.bbs[b]["t"][0] == "ret"]
    T = Trace(x, [A.replace("eucalypt", "", 1)], calls=("end",))
    doms = x.dom()
    n = 0
    for c in x.calls():
        l = lname(c.path)
        if not (l.startswith("serialize")):
            continue
        names = [a[1].get("s") for a in c.args if a[0] == "c" and a[1].get("s") is not None]
        nums = [a[1].get("v") for a in c.args if a[0] == "c" and a[1].get("v") is not None]
        if l.endswith("_variant") and len(names) > 1 and nums:
            idx[names[1]] = int(nums[0])
        if l in ("serialize_struct", "serialize_unit_struct", "serialize_tuple_struct"):
            continue
        for a in c.args[1:] if l != "serialize" else c.args[:1]:
            for e in T.of(a):
                if e[0] == "src":
                    got.setdefault((e[2], e[3]), []).append(c)
    for k, v in enumerate(vars_):
        V, fields = v[0], [q[0] for q in v[2]]
        last_ = None
        for q in fields:
            key = (V if enum else None, q)
            cs = got.get(key) or got.get((V, q)) or got.get((None, q)) or []
            n += 1
            r.ob("stored:%s:%s.%s" % (A, V, q), bool(cs), "the %s of %s is not stored" % (q, V if enum else short(A)), where(f))
            if not cs:
                continue
            c = cs[-1]
            skip = False
            starts = [d for d in x.calls() if re.match(r"serialize_(struct|tuple)(_variant|_struct)?$", lname(d.path)) and d.bb in doms[c.bb]]
            if starts and ends:
                st = starts[-1]
                p = flow.path(x, st.bb, ends, avoid={d.bb for d in cs})
                skip = p is not None and st.bb not in {d.bb for d in cs}
            r.ob("stored:%s:%s.%s:always" % (A, V, q), not skip, "the %s of %s is not stored for every value" % (q, V if enum else short(A)), where(f))
            if last_ is not None and len(cs) == 1:
                r.ob("stored:%s:%s.%s:order" % (A, V, q), last_.bb in doms[c.bb], "the %s of %s is not stored in the order it is loaded" % (q, V if enum else short(A)), where(f))
            last_ = c if len(cs) == 1 else None
        if enum and V in idx:
            n += 1
            r.ob("stored:%s:%s:tag" % (A, V), idx[V] == k, "kind %s of %s is stored under tag %d" % (V, short(A), idx[V]), where(f))
    if enum:
        r.ob("stored:%s:tags" % A, set(idx.values()) == set(range(len(vars_))), "not every kind of %s is stored under a tag of its own" % short(A), where(f))
    return n


def read_whole(r, db, A, seqs, tags):
    n = 0
    vars_ = db.adts[A]["vars"]
    enum = len(vars_) > 1 or vars_[0][0] != short(A)
    for f in seqs:
        x = f
        T = Trace(x, [], calls=("next_element",))
        doms = x.dom()
        for b, a, ops in aggs(x, A):
            if str(a["p"]) != A:
                continue
            prev = None
            for q, o in zip(a.get("f") or [], ops):
                cs = sorted({e[1] for e in T.of(o) if e[0] == "call"})
                n += 1
                key = "loaded:%s:%s.%s" % (A, a["vn"], q)
                r.ob(key, len(cs) == 1, "the %s of %s is not loaded from the image" % (q, a["vn"]), where(f))
                if len(cs) == 1 and prev is not None:
                    r.ob(key + ":order", prev in doms[cs[0]] and prev != cs[0], "the %s of %s is loaded out of order" % (q, a["vn"]), where(f))
                if len(cs) == 1:
                    prev = cs[0]
    if enum:
        for f in tags:
            for b in sorted(f.reach):
                t = f.bbs[b]["t"]
                if t[0] == "switch" and t[1][0] != "c" and t[1][1][0] == 2:
                    n += 1
                    r.ob("loaded:%s:tags" % A, len(t[3]) == len(vars_) and [int(v) for v, m in t[3]] == list(range(len(vars_))), "the kinds of %s that are stored and those that are loaded are not the same" % short(A), where(f))
                    for v, m in t[3]:
                        made = {s[2][1]["vn"] for s in f.bbs[m]["s"] if s[0] == "=" and s[2][0] == "agg" and "__Field" in str(s[2][1].get("p"))}
                        if made:
                            r.ob("loaded:%s:tag %s" % (A, v), made == {"__field%d" % int(v)}, "tag %s of %s is loaded as another kind" % (v, short(A)), where(f))
                    break
    return n


def stamp(r, db):
    """the stamp of an image covers everything it was made from"""
    f = next((f for f in db.fns.values() if f.id.endswith("wire_format::blob_source_hash")), None)
    if f is None:
        r.note("no function that makes the stamp of an image")
        return
    x = inl.expand(f, lambda h: h.file == f.file, 16, True)
    CUT = ("len", "index", "get", "get_unchecked", "first", "last", "split_at", "chunks", "take", "iter", "trim", "trim_ascii", "windows", "to_ascii_lowercase", "lines", "strip_suffix", "strip_prefix", "split", "hash")
    T = Trace(x, [], calls=CUT)
    rets = {b for b in x.reach if x.bbs[b]["t"][0] == "ret"}
    ups = [c for c in x.calls() if lname(c.path) in ("update", "chain_update", "write_all", "digest", "chain") and len(c.args) > 1]
    lens = {c.bb: c for c in x.calls() if lname(c.path) == "len"}
    n = 0
    for i in range(1, f.argc + 1):
        nm = f.lname(i) if f.lname(i) else "argument %d" % i
        whole = [c for c in ups if ("param", i) in T.of(c.args[1])]
        n += 1
        r.ob("stamp:%s" % nm, bool(whole) and (any(looped(x, c.bb) for c in whole) or flow.path(x, 0, rets, avoid={c.bb for c in whole}) is None), "the %s is not a part of an image's stamp, whole and always" % nm, where(f))
        sized = False
        for c in ups:
            for e in T.of(c.args[1]):
                if e[0] == "call" and e[1] in lens and ("param", i) in T.of(lens[e[1]].args[0]):
                    sized = True
        r.ob("stamp:%s:length" % nm, sized, "the length of the %s is not a part of an image's stamp: inputs that differ can make the same stamp" % nm, where(f))
    ver = []
    for b in x.reach:
        t = x.bbs[b]["t"]
        ops = list(t[2]) if t[0] == "call" else []
        for s in x.bbs[b]["s"]:
            if s[0] == "=":
                ops += operands(s[2])
        for o in ops:
            if o[0] == "c" and "WIRE_FORMAT_VERSION" in str(o[1].get("k", "")):
                ver.append(b)
    n += 1
    r.ob("stamp:version", bool(ver) and flow.path(x, 0, rets, avoid=set(ver)) is None, "the version of the image's format is not a part of its stamp", where(f))
    r.count("inputs of an image's stamp", n)
    blob = next((a for a in db.adts if a.endswith("::PreludeBlob")), None)
    if blob:
        q = db.adts[blob]["vars"][0][2][0]
        T0 = f.r["T"].s(q[1])
        r.ob("stamp:first", q[0] == "source_hash" and T0.startswith("[u8;32"), "the stamp is not the first 32 bytes of an image, where it is looked for", "")
    g = next((g for g in db.fns.values() if g.id.endswith("wire_format::read_blob_source_hash")), None)
    if g is not None:
        for b in g.reach:
            for s in g.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and "ops::Range" in str(s[2][1].get("p")):
                    k = str(s[2][1]["p"])
                    cs = [o[1].get("v") if o[0] == "c" else None for o in s[2][2]]
                    if None not in cs:
                        r.ob("stamp:read", [int(c) for c in cs] in ([32], [0, 32]) and not k.endswith("RangeFrom") , "the stamp is read from another place than the first 32 bytes", where(g))
    h = next((h for h in db.fns.values() if h.id.endswith("wire_format::classify_blob")), None)
    if h is not None:
        x = inl.expand(h, lambda k: k.file == h.file and not k.id.endswith("read_blob_source_hash"), 8, True)
        T = Trace(x, [], calls=("read_blob_source_hash",))
        reads_ = {c.bb for c in x.calls() if lname(c.path) == "read_blob_source_hash"}
        good = set()
        for c in x.calls():
            if lname(c.path) in ("eq", "ne") and len(c.args) == 2 and c.dest:
                L = [T.of(a) for a in c.args]
                if all(isinstance(l, set) for l in L) and any(("param", 2) in l for l in L) and any(("call", b) in l for l in L for b in reads_):
                    for b in x.reach:
                        t = x.bbs[b]["t"]
                        if t[0] == "switch" and t[1][0] != "c" and t[1][1][0] in copies(x, c.dest[0]):
                            zero = [m for v, m in t[3] if int(v) == 0]
                            if lname(c.path) == "eq":
                                good.add((b, t[4]) if zero else None)
                            elif zero:
                                good.add((b, zero[0]))
        fresh = [b for b, a, ops in aggs(x, "::BlobFreshness") if a["vn"] == "Fresh"]
        good.discard(None)
        if not good:
            r.note("the comparison of an image's stamp in %s was not followed" % h.id)
        else:
            p = flow.path(x, 0, set(fresh), avoid_edges=good)
            r.ob("stamp:checked", p is None, "an image is taken for fresh on a path that does not compare its stamp", where(h))


def looped(x, b):
    seen, st = set(), list(x.succ(b))
    while st:
        c = st.pop()
        if c == b:
            return True
        if c not in seen:
            seen.add(c)
            st += list(x.succ(c))
    return False


def copies(x, l):
    out, st = {l}, [l]
    while st:
        a = st.pop()
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] != "c" and s[2][1][1] == [a, []] and not s[1][1] and s[1][0] not in out:
                    out.add(s[1][0])
                    st.append(s[1][0])
    return out


def b04(r, db):
    r.rules.append("every field of a node of the image is made from the same field of the same kind of tree node and nothing else, and back; no kind is missing on either side")
    arena(r, db)
    r.rules.append("every type an image is made of stores every field of every kind, always, in declaration order and under its own tag, and loads each from the image in that order; hand-written store and load functions neither drop, reorder nor re-type what they carry")
    stored(r, db)
    r.rules.append("the stamp of an image covers the format version and each source, whole and with its length, on every path; an image is fresh only where its first 32 bytes equal that stamp")
    stamp(r, db)
    r.floor("types an image is made of", r.counts.get("types an image is made of", 0), 5)
