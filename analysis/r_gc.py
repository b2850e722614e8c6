"""G01/G02: completeness of the two halves of the scanning interface."""
from cover import *
import rule as RU

TRAIT = "memory::collect::GcScannable"


def scannables(db):
    tr = db.trait("GcScannable")
    out = []
    for i in db.impls_of(tr):
        T = i["T"]
        out.append((i, ty_subst(T, i["self"], {})))
    return tr, out


class Gc:
    def __init__(self, db):
        self.db = db
        self.tr, self.impls = scannables(db)
        self.keys = {self.key(n): i for i, n in self.impls}
        self.arr = db.adt("memory::array::Array")["id"]
        self.raw = db.adt("memory::array::RawArray")["id"]
        self._carry = {}
        self.pools = {}

    def key(self, n):
        if n[0] == "adt":
            return n[1] if n[1] in self.db.adts else ty_str(n)
        return n[0]

    def scannable(self, n):
        return n[0] == "param" or (n[0] == "adt" and n[1] in self.db.adts and n[1] in self.keys)

    def carries(self, n, seen=()):
        """does a value of this type embed a managed pointer?"""
        if n in self._carry:
            return self._carry[n]
        if n in seen:
            return False
        r = bool(self.leaves(n, (), seen))
        self._carry[n] = r
        return r

    def leaves(self, n, path, seen=()):
        """[(kind, path, node)] the managed pointers embedded in a value of this type"""
        if n in seen:
            return []
        out = []
        if n[0] == "param":
            return [("emb", path, n)]
        if n[0] == "tuple":
            for i, x in enumerate(n[1]):
                out += self.leaves(x, path + (("f", str(i)),), seen)
            return out
        if n[0] in ("slice", "array"):
            return self.leaves(n[1], path + (("[]",),), seen)
        if n[0] != "adt":
            return []
        nm = last(n[1])
        if n[1].endswith("ptr::NonNull"):
            return [("ptr", path, n[2][0])]
        if n[1] in (self.arr, self.raw):
            out.append(("arr", path, n[2][0]))
            if n[1] == self.arr:
                out += self.leaves(n[2][0], path + (("[]",),), seen + (n,))
            return out
        if n[1] not in self.db.adts:
            if nm in ("Vec", "VecDeque", "SmallVec"):
                return self.leaves(n[2][0], path + (("[]",),), seen)
            if nm in ("Box", "Cell", "RefCell", "ManuallyDrop", "UnsafeCell"):
                return self.leaves(n[2][0], path, seen)
            if nm == "Option":
                return self.leaves(n[2][0], path + (("v", "Some"), ("f", "0")), seen)
            if nm in ("HashMap", "BTreeMap", "IndexMap"):
                ls = self.leaves(n[2][1], path + (("[]",),), seen)
                return ls
            return []
        # local ADTs: the collector's own infrastructure is not data
        file = self.db.adts[n[1]]["file"]
        if re.search(r"eval/memory/(heap|bump|collect|mutator|lob|alloc|gc_|header)", file):
            return []
        fs = adt_fields(self.db, n)
        if fs is None:
            return []
        vs, kind = fs
        for v, fields in vs:
            p = path + ((("v", v),) if kind == "enum" else ())
            for fn, ft in fields:
                out += self.leaves(ft, p + (("f", fn),), seen + (n,))
        return out


class GcClient(Client):
    def __init__(self, gc):
        self.gc = gc

    def trait_call(self, c, meth):
        p = c.path
        return last(p) == meth and ("GcScannable" in p)

    def view_call(self, c, *names):
        return c.name in names and "CollectorHeapView" in c.path


class MarkClient(GcClient):
    """the pointer (or array backing) itself is marked"""
    def __init__(self, gc, kind):
        super().__init__(gc)
        self.kind = kind

    def discharges(self, an, c, leaf, R):
        if self.trait_call(c, "scan"):
            return is_prefix(R.op(c.args[0]), leaf)
        if scanptr_push(an, c, leaf, R, embedded_only=True):
            return True
        if self.kind == "ptr" and self.view_call(c, "mark"):
            return R.op(c.args[1]) == leaf
        if self.kind == "arr":
            if self.view_call(c, "mark_array"):
                return R.op(c.args[1]) == leaf
            if self.view_call(c, "mark_raw_bytes", "mark"):
                return R.op(c.args[1]) in (leaf + (("#b",), ("v", "Some"), ("f", "0")),)
        return False

    def excuse_call(self, an, c, leaf, R):
        # an array whose backing was already marked was already scanned
        if self.view_call(c, "mark_array", "mark_raw_bytes") or (self.view_call(c, "mark")):
            q = R.op(c.args[1])
            q = strip_backing(q)
            if q is not None and len(q) < len(leaf) and is_prefix(q, leaf) and leaf[len(q)] == ("[]",):
                return "false"
        return None


class PushClient(MarkClient):
    """the pointee is queued for scanning whenever it was newly marked"""
    def discharges(self, an, c, leaf, R):
        if self.trait_call(c, "scan"):
            return is_prefix(R.op(c.args[0]), leaf)
        if scanptr_push(an, c, leaf, R, embedded_only=True):
            return True
        return scanptr_push(an, c, leaf, R, embedded_only=False)

    def excuse_call(self, an, c, leaf, R):
        if self.view_call(c, "mark"):
            if R.op(c.args[1]) == leaf:
                return "false"
        return super().excuse_call(an, c, leaf, R)


class EmbClient(MarkClient):
    def __init__(self, gc):
        super().__init__(gc, "emb")


def strip_backing(q):
    if q is not None and q[-3:] == (("#b",), ("v", "Some"), ("f", "0")):
        return q[:-3]
    return q


PUSHERS = {"push", "push_back", "extend", "insert"}


def scanptr_push(an, c, leaf, R, embedded_only):
    """out.push(ScanPtr::new(scope, x)) with x a prefix of the leaf (embedded), or
    out.push(ScanPtr::from_non_null(scope, p)) with p the leaf itself"""
    if c.name == "extend" and len(c.args) == 2 and embedded_only:
        return extend_map(an, c, leaf, R)
    if c.name not in PUSHERS or len(c.args) < 2:
        return False
    o = c.args[-1]
    k = scanptr_value(an.fn, o, R)
    if k is None:
        return False
    kind, p = k
    if embedded_only:
        return kind == "new" and is_prefix(p, leaf)
    return kind == "from_non_null" and p == leaf


def scanptr_value(fn, o, R, depth=5):
    if o[0] not in ("cp", "mv") or o[1][1] or depth == 0:
        return None
    ds = [d for d in fn.defs().get(o[1][0], []) if R.live is None or d[0] in R.live or d[1] == "a"]
    if len(ds) != 1:
        return None
    b, i, rv = ds[0]
    if i == "t":
        c = Call(fn, b, rv)
        if "ScanPtr" in c.path and c.name in ("new", "from_non_null"):
            return c.name, R.op(c.args[1])
        # a local wrapper returning a ScanPtr
        tg = fn.db.targets(c)
        if len(tg) == 1:
            g = fn.db.fns[tg[0]]
            r = scanptr_value(g, ["cp", [0, []]], Resolver(g), depth - 1)
            if r and r[1] is not None and r[1][0] == "arg" and r[1][1] - 1 < len(c.args):
                base = R.op(c.args[r[1][1] - 1])
                if base is None:
                    return None
                p = base
                for e in r[1][2:]:
                    p = ext(p, e)
                return r[0], p
        return None
    if i != "a" and rv[0] == "use":
        return scanptr_value(fn, rv[1], R, depth - 1)
    return None


def extend_map(an, c, leaf, R):
    """out.extend(xs.iter().map(|x| ScanPtr::new(scope, x)))"""
    o = c.args[1]
    if o[0] not in ("cp", "mv"):
        return False
    ds = an.fn.defs().get(o[1][0], [])
    if len(ds) != 1 or ds[0][1] != "t":
        return False
    m = Call(an.fn, ds[0][0], ds[0][2])
    if m.name != "map":
        return False
    src = R.op(m.args[0])
    g = closure_fn(an.db, an.fn, m.args[1])
    if src is None or g is None or not is_prefix(src, leaf) or leaf[len(src):len(src) + 1] != (("[]",),):
        return False
    r = scanptr_value(g, ["cp", [0, []]], Resolver(g))
    return bool(r and r[0] == "new" and is_prefix(r[1], ("arg", 2) + leaf[len(src) + 1:]))


class UpdateClient(GcClient):
    def __init__(self, gc, kind):
        super().__init__(gc)
        self.kind = kind

    def discharges(self, an, c, leaf, R):
        if self.trait_call(c, "scan_and_update"):
            return is_prefix(R.op(c.args[0]), leaf)
        if self.kind == "arr" and c.name == "set_backing_ptr" and len(c.args) == 2:
            tgt = R.op(c.args[0])
            return tgt is not None and tgt == leaf and self.forwarded(an, R, c.args[1], leaf) is not None
        if self.kind == "ptr":
            # setter: a local function assigning its parameter to the field
            tg = an.db.targets(c)
            if len(tg) == 1:
                g = an.db.fns[tg[0]]
                for (dst, src) in assigns_param(g):
                    if src - 1 < len(c.args) and dst[1] - 1 < len(c.args):
                        base = R.op(c.args[dst[1] - 1])
                        if base is not None and base + dst[2:] == leaf and self.forwarded(an, R, c.args[src - 1], leaf) is not None:
                            return True
            if c.name in ("replace", "write", "set", "insert") and len(c.args) == 2:
                return R.op(c.args[0]) == leaf and self.forwarded(an, R, c.args[1], leaf) is not None
        return False

    def stmt_discharges(self, an, b, s, leaf, R):
        if self.kind != "ptr":
            return False
        pl, rv = s[1], s[2]
        if rv[0] not in ("use", "cast"):
            return False
        through = any(e[0] == "*" for e in pl[1]) or (pl[1] and pl[0] <= an.fn.argc)
        if not through:
            return False
        p = R.place(pl)
        o = rv[1] if rv[0] == "use" else rv[2]
        # next = Some(new)
        if p == leaf:
            return self.forwarded(an, R, o, leaf) is not None
        if p is not None and p + (("v", "Some"), ("f", "0")) == leaf:
            o2 = some_payload(an.fn, o, R)
            return o2 is not None and self.forwarded(an, R, o2, leaf) is not None
        return False

    def forwarded(self, an, R, o, leaf, depth=8):
        """does this operand hold the new address of the leaf's referent?"""
        f = an.fn
        if o[0] not in ("cp", "mv") or depth == 0:
            return None
        l, proj = o[1]
        ds = [d for d in f.defs().get(l, []) if R.live is None or d[0] in R.live or d[1] == "a"]
        if len(ds) != 1:
            return None
        b, i, rv = ds[0]
        if i == "a":
            return None
        if i == "t":
            c = Call(f, b, rv)
            if c.name == "forwarded_to" and "CollectorHeapView" in c.path:
                q = R.op(c.args[1])
                if strip_backing(q) == leaf and (self.kind == "arr") == (q != leaf):
                    if [e[0] for e in proj] == ["d", "f"] and proj[0][2] == "Some":
                        return True
                    return "opt"
                return None
            if c.name in UNWRAP or c.name in ("unwrap_or",):
                if self.forwarded(an, R, c.args[0], leaf, depth - 1):
                    if c.name != "unwrap_or":
                        return True
                    q = R.op(c.args[1])
                    return True if strip_backing(q) == leaf else None
                return None
            if c.name in ("cast", "clone", "into", "as_ptr", "new_unchecked"):
                return self.forwarded(an, R, c.args[0], leaf, depth - 1)
            # a local helper returning the forwarded address
            tg = an.db.targets(c)
            if len(tg) == 1:
                g = an.db.fns[tg[0]]
                for k, a in enumerate(c.args):
                    q = R.op(a)
                    if q is not None and is_prefix(strip_backing(q), leaf) and g.id not in an.stack:
                        sub = An(an.db, g, self, an.stack + (f.id,))
                        RR = Resolver(g)
                        rr = self.forwarded(sub, RR, ["cp", [0, []]], ("arg", k + 1) + leaf[len(strip_backing(q)):], depth - 2)
                        if rr:
                            return rr
            return None
        if rv[0] == "use":
            o2 = rv[1]
            if o2[0] in ("cp", "mv"):
                return self.forwarded(an, R, [o2[0], [o2[1][0], o2[1][1] + proj]], leaf, depth - 1)
        if rv[0] == "cast" and not proj:
            return self.forwarded(an, R, rv[2], leaf, depth - 1)
        return None

    def excuse_call(self, an, c, leaf, R):
        return None


def some_payload(f, o, R):
    if o[0] not in ("cp", "mv") or o[1][1]:
        return None
    ds = [d for d in f.defs().get(o[1][0], []) if R.live is None or d[0] in R.live]
    if len(ds) == 1 and ds[0][1] not in ("t", "a"):
        rv = ds[0][2]
        if rv[0] == "agg" and rv[1].get("vn") == "Some":
            return rv[2][0]
        if rv[0] == "use":
            return some_payload(f, rv[1], R)
    return None


def assigns_param(g):
    """[(dst path in terms of parameters, source parameter)] of a setter"""
    out = []
    R = Resolver(g)
    for b in g.reach:
        for s in g.bbs[b]["s"]:
            if s[0] == "=" and s[2][0] == "use" and s[1][1]:
                dst = R.place(s[1])
                src = R.op(s[2][1])
                if dst and src and dst[0] == "arg" and len(src) == 2 and src[0] == "arg" and len(dst) > 2:
                    out.append((dst, src[1]))
    return out


class UpdAn(An):
    """adds: the None outcome of forwarded_to(leaf) needs no redirection"""
    def filter_switch(self, R, b, t, leaf, excused):
        op = t[1]
        if op[0] in ("cp", "mv") and not op[1][1]:
            src = self.sw_source(op[1][0], R.live)
            if src and src[0] == "discr" and not any(e[0] != "*" for e in src[1][1]):
                o = ["cp", [src[1][0], []]]
                if self.client.forwarded(self, R, o, leaf) == "opt":
                    for v, tgt in t[3]:
                        if int(v) == 0:
                            excused.add((b, tgt))
                    if all(int(v) != 0 for v, _ in t[3]):
                        excused.add((b, t[4]))
                    return None
        return super().filter_switch(R, b, t, leaf, excused)

    def sub(self, g, leaf, c):
        if g.id in self.stack or len(self.stack) > 5:
            return False
        return UpdAn(self.db, g, self.client, self.stack + (self.fn.id,)).covered(leaf) is None


def always_empty(db, tyname, field):
    """a pool of containers that are empty while pooled: every push into the field is of a
    container cleared before, or every container taken out is cleared before anything else"""
    pushes, pops = [], []
    for f in db.fns.values():
        if f.crate != "eucalypt" or "bytecode/machine" not in f.file:
            continue
        for c in f.calls():
            if not c.args:
                continue
            p = Resolver(f).op(c.args[0])
            if p and p[-1] == ("f", field) or (p and len(p) > 2 and ("f", field) in p[2:]):
                if c.name in ("push", "insert", "push_back", "extend"):
                    pushes.append((f, c))
                elif c.name in ("pop", "pop_back", "pop_front", "remove", "swap_remove"):
                    pops.append((f, c))
                elif c.name in ("len", "is_empty", "clear", "truncate", "reserve", "with_capacity", "iter", "new"):
                    pass
                else:
                    return False

    def cleared_before(f, c):
        o = c.args[-1]
        l = o[1][0] if o[0] in ("cp", "mv") else None
        names = root_locals(f, l)
        for k in f.calls():
            if k.name == "clear" and k.args and k.args[0][0] in ("cp", "mv"):
                if root_locals(f, k.args[0][1][0]) & names and k.bb in f.dom()[c.bb]:
                    return True
        return False

    def cleared_after(f, c):
        for k in f.calls():
            if k.name == "clear" and k.args and k.args[0][0] in ("cp", "mv"):
                if c.dest[0] in root_locals(f, k.args[0][1][0]) and all(k.bb in f.dom()[x] for x in f.returns()):
                    return True
        return False
    if not pushes and not pops:
        return False
    return all(cleared_before(*x) for x in pushes) or all(cleared_after(*x) for x in pops)


def root_locals(f, l, depth=8):
    """the locals a value was moved or borrowed from"""
    out, st = set(), [l]
    while st and depth:
        x = st.pop()
        if x in out or x is None:
            continue
        out.add(x)
        for b, i, rv in f.defs().get(x, []):
            if i == "t":
                c = Call(f, b, rv)
                if c.name in ("unwrap_or_default", "unwrap_or", "unwrap", "unwrap_or_else", "deref_mut", "deref", "expect", "pop"):
                    if c.args and c.args[0][0] in ("cp", "mv"):
                        st.append(c.args[0][1][0])
            elif i != "a":
                for o in operands(rv):
                    if o[0] in ("cp", "mv"):
                        st.append(o[1][0])
                if rv[0] == "ref":
                    st.append(rv[2][0])
    return out


def exempt(gc, r, name, path):
    """field of a root set that is a pool of empty containers"""
    if len(path) > 4 and path[3:5] == (("[]",), ("[]",)):
        k = (name, path[2][1])
        if k not in gc.pools:
            gc.pools[k] = always_empty(gc.db, *k)
            r.note("%s.%s: pooled containers are %s" % (k[0], k[1], "always empty, not scanned" if gc.pools[k] else "not provably empty"))
        return gc.pools[k]
    return False


def describe(fn, path):
    ls = []
    for b in path:
        t = fn.bbs[b]["t"]
        if t[0] == "call":
            ls.append(t[5])
        for s in fn.bbs[b]["s"]:
            if s[0] == "=":
                ls.append(s[3])
    ls = sorted(set(x for x in ls if isinstance(x, int)))
    return "path through lines %s" % ",".join(map(str, ls[:14]))


def impl_methods(db, gc):
    for i, node in gc.impls:
        items = {n: p for n, k, p, ti in i["items"] if k == "fn"}
        yield i, node, items


def g01(r, db):
    r.rules.append("for every implementation of the scanning interface and every managed pointer, array backing and embedded scannable value in every variant of the type, every path of scan() marks it and queues the newly marked referent")
    gc = Gc(db)
    nptr = 0
    for i, node, items in impl_methods(db, gc):
        name = ty_str(node)
        if "scan" not in items:
            r.ob("impl:%s" % name, False, "no scan() for %s" % name)
            continue
        f = db.fns[items["scan"]]
        for kind, path, ty in gc.leaves(node, ("arg", 1)) if node[0] == "adt" else []:
            nptr += 1
            if exempt(gc, r, name, path):
                continue
            key = "scan:%s:%s" % (name, fmt(path)[5:] if len(path) > 2 else "*")
            w = RU.where(f)
            if kind == "emb":
                bad = An(db, f, EmbClient(gc)).covered(path)
                r.ob(key, bad is None, "%s is not scanned on every path: %s" % (fmt(path), bad and describe(f, bad)), w)
                continue
            bad = An(db, f, MarkClient(gc, kind)).covered(path)
            r.ob(key + ":mark", bad is None, "%s is not marked on every path: %s" % (fmt(path), bad and describe(f, bad)), w)
            if kind == "ptr":
                c = gc.carries(ty)
                if c and not gc.scannable(ty):
                    r.ob(key + ":type", False, "%s holds managed pointers but is not scannable" % ty_str(ty), w)
                if gc.scannable(ty) and (c or ty[0] == "param"):
                    bad = An(db, f, PushClient(gc, kind)).covered(path)
                    r.ob(key + ":queue", bad is None, "the object behind %s is not queued when newly marked: %s" % (fmt(path), bad and describe(f, bad)), w)
    r.floor("implementations", len(gc.impls), 8)
    r.floor("pointer positions", nptr, 60)
    return gc


def g02(r, db):
    r.rules.append("for every implementation of the scanning interface, every managed pointer that scan() follows is compared with its forwarding address and overwritten by it on every path of scan_and_update(), backing arrays before their elements")
    gc = Gc(db)
    n = 0
    for i, node, items in impl_methods(db, gc):
        name = ty_str(node)
        fid = items.get("scan_and_update") or gc.tr + "::scan_and_update"
        f = db.fns.get(fid)
        ls = gc.leaves(node, ("arg", 1)) if node[0] == "adt" else []
        if f is None:
            r.ob("update:%s" % name, not ls, "no scan_and_update for %s" % name)
            continue
        for kind, path, ty in ls:
            n += 1
            if exempt(gc, r, name, path):
                continue
            key = "update:%s:%s" % (name, fmt(path)[5:] if len(path) > 2 else "*")
            bad = UpdAn(db, f, UpdateClient(gc, kind)).covered(path)
            r.ob(key, bad is None, "%s is not redirected on every path: %s" % (fmt(path), bad and describe(f, bad)), RU.where(f))
            if kind == "arr" and any(p2[:len(path) + 1] == path + (("[]",),) for _, p2, _ in ls):
                a = UpdAn(db, f, UpdateClient(gc, kind))
                o = order_ok(a, path, [p2 for _, p2, _ in ls if p2[:len(path) + 1] == path + (("[]",),)][0])
                r.ob(key + ":order", o, "elements of %s are redirected before its backing pointer is" % fmt(path), RU.where(f))
    r.floor("implementations", len(gc.impls), 8)
    r.floor("pointer positions", n, 60)


def order_ok(a, arr, elem):
    """no backing redirection may follow an element visit"""
    R, S, live = a.reduced(elem)
    f = a.fn
    sets, loops = [], []
    for b in live:
        t = f.bbs[b]["t"]
        if t[0] != "call":
            continue
        c = Call(f, b, t)
        if c.name == "set_backing_ptr" and R.op(c.args[0]) == arr:
            sets.append(b)
        if c.name in ("iter", "iter_mut", "into_iter", "as_mut_slice", "as_slice", "deref_mut") and c.args and R.op(c.args[0]) == arr:
            loops.append(b)
    for l in loops:
        seen, st = {l}, [l]
        while st:
            x = st.pop()
            for s in S.get(x, []):
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        if any(s in seen for s in sets):
            return False
    return True


# ------------------------------------------------------------------ G04
import flow
from flow import Events, path as cfg_path, path_after, lines_of


def heap_call(*names):
    return lambda c: c.name in names and ("memory::heap" in c.path or "CollectorHeapView" in c.path or "memory::bump" in c.path)


def g04(r, db):
    r.rules.append("in every collection driver (a function that scans a dynamic root set and then releases blocks): marks reset before the first scan, queue drained to exhaustion with every popped object scanned, redirection of roots and of every recorded object before reclamation, evacuation finalised, mark state flipped; mark helpers set both object and line marks whenever they report a new mark; a moved copy is forwarded to and marked")
    gc = Gc(db)
    infra = lambda f: "eval/memory" in f.file
    reset = Events(db, heap_call("reset_region_marks"), scope=infra)
    sweep = Events(db, heap_call("sweep", "defer_sweep"), scope=infra)
    flip = Events(db, heap_call("flip_mark_state"), scope=infra)
    final = Events(db, heap_call("finalise_evacuation"), scope=infra)
    is_scan = lambda c: c.name == "scan" and "GcScannable" in c.path
    is_upd = lambda c: c.name == "scan_and_update" and "GcScannable" in c.path
    scan = Events(db, is_scan, scope=infra)
    upd = Events(db, is_upd, scope=infra)
    moves = Events(db, lambda c: c.name == "evacuate" and "CollectorHeapView" in c.path, scope=infra)
    drivers = []
    for f in db.fns.values():
        if f.crate != "eucalypt" or not infra(f) or f.kind == "closure":
            continue
        if scan.may_blocks(f) and sweep.may_blocks(f) and any(c for c in f.calls() if sweep.pred(c) or (sweep.call_may(c) and not scan.call_may(c))):
            drivers.append(f)
    r.floor("collection drivers", len(drivers), 2)
    nmov = 0
    for f in drivers:
        n, w = f.name, RU.where(f)
        sb, wb = scan.may_blocks(f) - sweep.may_blocks(f), sweep.may_blocks(f)
        rb = reset.must_blocks(f)
        p = cfg_path(f, 0, sb, rb)
        r.ob("%s:reset-before-mark" % n, p is None, "marking starts without resetting the line marks: %s" % lines_of(f, p), w)
        # nothing is scanned after a reset that follows marking
        bad = [b for b in rb if any(path_after(f, s, {b}) for s in sb)]
        r.ob("%s:no-late-reset" % n, not bad, "line marks are reset again after marking began", w)
        fb = flip.must_blocks(f)
        p = cfg_path(f, 0, set(f.returns()), fb)
        r.ob("%s:flip" % n, p is None, "a path returns without flipping the mark state: %s" % lines_of(f, p), w)
        bad = [b for b in fb if any(path_after(f, b, {x}) for x in sb | fb)]
        r.ob("%s:flip-once-last" % n, not bad, "the mark state is flipped before marking ends or twice", w)
        p = cfg_path(f, 0, set(f.returns()), sweep.must_blocks(f))
        r.ob("%s:reclaims" % n, p is None, "a path returns without scheduling reclamation: %s" % lines_of(f, p), w)
        bad = [b for b in wb if any(path_after(f, b, {x}) for x in sb)]
        r.ob("%s:mark-before-reclaim" % n, not bad, "objects are scanned after reclamation was scheduled", w)
        # every path to reclamation went through the root scan and an exhausted queue
        roots = root_param(f)
        rs = {c.bb for c in f.calls() if is_scan(c) and Resolver(f).op(c.args[0]) == roots} | \
             {c.bb for c in f.calls() if not is_scan(c) and any(Resolver(f).op(a) == roots for a in c.args) and scan.call_must(c)}
        p = cfg_path(f, 0, wb, rs)
        r.ob("%s:roots-scanned" % n, bool(rs) and p is None, "reclamation is reachable without scanning the roots: %s" % lines_of(f, p), w)
        ex = drain_exits(db, f, scan)
        r.ob("%s:queue-drained" % n, bool(ex) and cfg_path(f, 0, wb, (), ex) is None, "reclamation is reachable without the mark queue having been exhausted (every popped object scanned, loop left only when empty)", w)
        if moves.may_blocks(f):
            nmov += 1
            ub = {c.bb for c in f.calls() if is_upd(c) and Resolver(f).op(c.args[0]) == roots} | \
                 {c.bb for c in f.calls() if not is_upd(c) and any(Resolver(f).op(a) == roots for a in c.args) and upd.call_must(c)}
            p = cfg_path(f, 0, wb | final.may_blocks(f), ub)
            r.ob("%s:roots-redirected" % n, bool(ub) and p is None, "reclamation is reachable without redirecting the roots: %s" % lines_of(f, p), w)
            mb = moves.may_blocks(f)
            bad = [b for b in ub if any(path_after(f, b, {x}) for x in mb)]
            r.ob("%s:move-before-redirect" % n, not bad, "objects are moved after roots were redirected", w)
            p = cfg_path(f, 0, set(f.returns()), final.must_blocks(f))
            r.ob("%s:finalised" % n, p is None, "a path returns without finalising the evacuation: %s" % lines_of(f, p), w)
            le = update_loop(db, f, upd)
            r.ob("%s:objects-redirected" % n, bool(le) and cfg_path(f, 0, wb | final.may_blocks(f), (), le) is None,
                 "reclamation is reachable without redirecting every recorded live object", w)
            rec = record_ok(db, f, scan)
            r.ob("%s:objects-recorded" % n, rec is None, "a scanned heap object is not recorded for redirection: %s" % rec, w)
    r.floor("moving drivers", nmov, 1)
    # verify helpers run a second scan; they may not reclaim
    # mark helpers
    nmark = 0
    for f in db.fns.values():
        if f.kind == "closure" or "CollectorHeapView" not in f.id or f.crate != "eucalypt":
            continue
        if f.r["T"].s(f.ty(0)) != "bool" or not any(c.name == "is_marked" for c in f.calls()) or not any(heap_call("mark_object")(c) or heap_call("mark_line", "mark_lines_for_bytes")(c) for c in f.calls()) and f.name not in ("mark", "mark_array", "mark_raw_bytes"):
            continue
        if f.name == "is_marked":
            continue
        nmark += 1
        w = RU.where(f)
        mo = Events(db, heap_call("mark_object"), scope=infra).must_blocks(f)
        ml = Events(db, heap_call("mark_line", "mark_lines_for_bytes", "mark_region"), scope=infra).must_blocks(f)
        tr = true_blocks(f)
        p1 = cfg_path(f, 0, tr, mo)
        p2 = cfg_path(f, 0, tr, ml)
        r.ob("%s:marks-object" % f.name, bool(tr) and p1 is None, "reports a new mark without marking the object: %s" % lines_of(f, p1), w)
        r.ob("%s:marks-lines" % f.name, bool(tr) and p2 is None, "reports a new mark without marking the lines it occupies: %s" % lines_of(f, p2), w)
        # an unmarked object is always marked: the false answers come only from is_marked being true or a null/dangling pointer
        im = [c for c in f.calls() if c.name == "is_marked"]
        for c in im:
            sw = switch_on(f, c)
            if sw:
                z = [t for v, t in f.bbs[sw]["t"][3] if int(v) == 0]
                neg = False
                if z:
                    p = cfg_path(f, z[0], set(f.returns()), mo)
                    r.ob("%s:unmarked-is-marked" % f.name, p is None, "an unmarked object can be left unmarked: %s" % lines_of(f, p), w)
    r.floor("mark helpers", nmark, 3)
    # the moved copy
    ev = db.fn("CollectorHeapView::evacuate")
    copy = {c.bb for c in ev.calls() if c.name in ("copy_nonoverlapping", "copy")}
    for nm, pr in (("copied", lambda c: c.name in ("copy_nonoverlapping", "copy", "copy_from_nonoverlapping", "copy_to_nonoverlapping")),
                   ("forwarded", lambda c: c.name == "set_forwarded"),
                   ("copy-marked", heap_call("mark_object")),
                   ("copy-lines-marked", heap_call("mark_lines_for_bytes", "mark_region"))):
        e = Events(db, pr, scope=infra)
        alloc = [c for c in ev.calls() if Events(db, heap_call("bump_allocate_in_target"), scope=infra).call_may(c)]
        mb = e.must_blocks(ev)
        tgt = some_blocks(ev)
        ok = bool(alloc) and bool(mb)
        for a in alloc:
            # from the allocation, any path to a Some result passes the event
            if path_after(ev, a.bb, tgt, mb) is not None:
                ok = False
        r.ob("evacuate:%s" % nm, ok, "a moved object's new copy is returned without being %s" % nm, RU.where(ev))


def root_param(f):
    for i in range(1, f.argc + 1):
        if "dyn" in f.r["T"].s(f.ty(i)) and "GcScannable" in f.r["T"].s(f.ty(i)):
            return ("arg", i)
    return None


def switch_on(f, c):
    b = c.target
    seen = set()
    while b is not None and b not in seen:
        seen.add(b)
        t = f.bbs[b]["t"]
        if t[0] == "switch":
            return b
        ss = f.succ(b)
        b = ss[0] if len(ss) == 1 else None
    return None


def assigned_const_blocks(f, local, val):
    """blocks that set local (or something copied into it) to the constant val"""
    out = set()
    for b, i, rv in f.defs().get(local, []):
        if i in ("t", "a"):
            continue
        if rv[0] == "use" and rv[1][0] == "c" and str(rv[1][1].get("v")) in val:
            out.add(b)
        elif rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1]:
            out |= assigned_const_blocks(f, rv[1][1][0], val)
    return out


def true_blocks(f):
    return assigned_const_blocks(f, 0, ("1", "true", "True"))


def some_blocks(f):
    out = set()
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[1][0] == 0 and s[2][0] == "agg" and s[2][1].get("vn") == "Some":
                out.add(b)
    return out or set(f.returns())


def loop_exits(db, f, nextnames, body_ok):
    """edges leaving a loop by exhaustion of a call in nextnames, when each iteration satisfies body_ok(f, some_block, next_block)"""
    out = set()
    dummy = An(db, f, Client())
    dummy.live = set(f.reach)
    for c in f.calls():
        if c.name not in nextnames:
            continue
        sw = switch_on(f, c)
        if sw is None:
            continue
        t = f.bbs[sw]["t"]
        src = dummy.sw_source(t[1][1][0], None) if t[1][0] in ("cp", "mv") else None
        if not src or src[0] != "discr":
            continue
        some = next((x for v, x in t[3] if int(v) == 1), t[4])
        none = next((x for v, x in t[3] if int(v) == 0), t[4])
        if body_ok(c, some):
            # the loop is left only by exhaustion
            if cfg_path(f, some, set(f.returns()), {c.bb}) is None and c.bb in f.reachable_from([some]):
                out.add((sw, none))
    return out


def drain_exits(db, f, scan):
    def ok(c, some):
        sb = scan.must_blocks(f)
        return cfg_path(f, some, {c.bb}, sb) is None and \
            _refills(f, some, c, sb)

    def _refills(f, some, c, sb):
        # what the scan found is put into the queue before the next pop
        rf = {k.bb for k in f.calls() if k.name in ("extend", "append", "push_back", "push")}
        for s in sb:
            if path_after(f, s, {c.bb}, rf) is not None:
                # scanning straight into the queue is fine if the queue is what scan receives
                return False
        return True
    return loop_exits(db, f, ("pop_front", "pop", "pop_back"), ok)


def update_loop(db, f, upd):
    def ok(c, some):
        ub = upd.must_blocks(f)
        # null pointers are skipped; every other object is redirected
        exc = {(b, t) for b, t in none_edges(db, f, ("new",), "NonNull")}
        return bool(ub) and cfg_path(f, some, {c.bb}, ub, exc) is None and any(cfg_path(f, some, {u}, {c.bb}) for u in ub)
    return loop_exits(db, f, ("next",), ok)


def none_edges(db, f, names, frag):
    out = []
    for c in f.calls():
        if c.name in names and frag in c.path:
            sw = switch_on(f, c)
            if sw is not None:
                t = f.bbs[sw]["t"]
                none = next((x for v, x in t[3] if int(v) == 0), t[4])
                out.append((sw, none))
    return out


def record_ok(db, f, scan):
    """in the marking loop, a popped pointer that says it is a heap object is pushed to the record"""
    for c in f.calls():
        if c.name == "is_heap_object":
            sw = switch_on(f, c)
            if sw is None:
                return "is_heap_object() is not tested"
            t = f.bbs[sw]["t"]
            tru = t[4] if any(int(v) == 0 for v, _ in t[3]) else None
            if tru is None:
                return "is_heap_object() is not tested"
            pops = {k.bb for k in f.calls() if k.name in ("pop_front", "pop", "pop_back")}
            pushes = {k.bb for k in f.calls() if k.name in ("push", "insert", "push_back") and "ScanPtr" not in f.r["T"].s(arg_ty(f, k.args[-1]))}
            p = cfg_path(f, tru, pops | set(f.returns()), pushes)
            return None if p is None else lines_of(f, p)
    # a driver that records unconditionally
    pops = {k.bb for k in f.calls() if k.name in ("pop_front", "pop", "pop_back")}
    return None if pops else "no marking loop"


def arg_ty(f, o):
    if o[0] in ("cp", "mv"):
        return f.ty(o[1][0])
    return o[1]["t"]
