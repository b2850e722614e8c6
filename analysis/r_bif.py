"""Built-in operations: catalogue, arity, strictness and result delivery (I01-I03)."""
from db import *
import inl
import bifread
import ceval
import terms
from rule import where
from status import Status, lname, is_fallible
from r_eff import peel_adt


def builtins(db):
    """[(impl, {method: fn})] of every implementation of the built-in trait"""
    tr = db.trait("StgIntrinsic")
    out = []
    for i in db.impls_of(tr):
        out.append((i, {lname(p): db.fns[p] for _, k, p, _ in i["items"] if k == "fn" and p in db.fns}))
    return out


def machine_impl(db):
    tr = db.trait("IntrinsicMachine")
    out = {}
    for i in db.impls_of(tr):
        for _, k, p, _ in i["items"]:
            if k == "fn" and p in db.fns:
                out[lname(p)] = db.fns[p]
    return out


def writes_current(f):
    """blocks of f that assign the machine's current value"""
    n = 0
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and s[1][1] and any(p[0] == "f" and p[2] == "current" for p in s[1][1]):
                n += 1
    return n


def takes_fn(f):
    """f calls one of its own parameters"""
    for c in f.calls():
        if lname(c.path) in inl.CLOSURE_CALLS and "::ops::" in c.path and c.args:
            e = expr_of(f, c.args[0])
            while e[0] in ("ref", "deref"):
                e = e[1]
            if e[0] == "arg":
                return True
    return False


def verdict(g):
    """a small local function whose Result carries a yes or no that decides who delivers"""
    return g.file.startswith("src/eval/stg/") and g.r["T"].s(g.ty(0)).startswith("std::result::Result<bool")


class Delivery(Status):
    """the remembered label counts deliveries on the path (0, 1, 2 = more)"""

    def __init__(self, db, prims, deliver):
        super().__init__(db, self.ev, lambda g: g.id in deliver or verdict(g))
        self.prims = prims
        self.merge = lambda a, b: min(2, (a or 0) + (b or 0)) or None
        self.tf = {}
        self.body = lambda f: inl.expand(f, self.want, 6, True, "bif")
        self.ncalls = set()

    def want(self, g):
        if g.id not in self.tf:
            self.tf[g.id] = takes_fn(g)
        return self.tf[g.id]

    def ev(self, c, x, args):
        nm = lname(c.path)
        if nm in self.prims and "IntrinsicMachine" in c.path:
            self.ncalls.add((x.id, c.bb))
            return [(("V", "Ok", "U"), 1), (("V", "Err", "U"), None)]
        if is_fallible(x, c) and not any(self.follow(self.db.fns[t]) for t in self.db.targets(c)) and nm not in ("branch", "from_residual", "map_err", "from_output") and "result::Result" not in c.path:
            return [(("V", "Ok", "U"), None), (("V", "Err", "U"), None)]
        return None

    def summary(self, f, args):
        k = (f.id, args)
        if k in self.active:
            self.hit.add(k)
            return self.memo.get(k, set())
        if k in self.memo and k not in self.partial:
            return self.memo[k]
        self.active.add(k)
        self.memo.setdefault(k, set())
        while True:
            r = self.run(f, args)
            r = {(v, b, None) for v, b, _ in r}
            if r == self.memo[k] or k not in self.hit:
                self.memo[k] = r
                break
            self.memo[k] = r
        self.active.discard(k)
        if self.active:
            # results obtained while a recursion is open may be incomplete
            (self.partial.add if self.hit & self.active else self.partial.discard)(k)
        else:
            self.partial.discard(k)
        return self.memo[k]

    hit = None


def delivering(db, prims):
    """functions from which a result-delivering machine operation is reachable"""
    fns = [f for f in db.fns.values() if f.file.startswith("src/eval/") and "/bytecode/" not in f.file]
    deliver = set()
    callers = {}
    for f in fns:
        for c in f.calls():
            if lname(c.path) in prims and "IntrinsicMachine" in c.path:
                deliver.add(f.id)
            for t in db.targets(c):
                callers.setdefault(t, set()).add(f.id)
    w = list(deliver)
    ids = {f.id for f in fns}
    while w:
        t = w.pop()
        ps = set(callers.get(t, ()))
        if db.fns[t].kind == "closure":
            ps.add(t.rsplit("::{closure", 1)[0])
        for p in ps:
            if p in ids and p not in deliver:
                deliver.add(p)
                w.append(p)
    return deliver


def i03(r, db):
    r.rules += ["on every path of a built-in's body that reports success, exactly one result is handed to the machine (result delivery counted through helpers, closures and combinators)"]
    r.assumptions += ["a nested evaluation restores the machine's current value (G05)"]
    mi = machine_impl(db)
    prims = {n for n, f in mi.items() if writes_current(f)}
    r.floor("result-delivering machine operations", len(prims), 5)
    # a delivering operation delivers on each of its own successes
    for n in sorted(prims):
        f = mi[n]
        paths = deliver_paths(f)
        r.ob("primitive:%s" % n, paths == {1}, "the machine operation can succeed without setting the result" if 0 in paths else "sets the result more than once", where(f))
    deliver = delivering(db, prims)
    D = Delivery(db, prims, deliver)
    D.hit, D.partial = set(), set()
    n = 0
    for i, items in builtins(db):
        f = items.get("execute")
        if f is None:
            continue
        n += 1
        res = D.run(f, tuple("U" for _ in range(f.argc)))
        bad = {}
        for v, b, line in res:
            if isinstance(v, tuple) and v[0] == "V" and v[1] == "Err":
                continue
            if (b or 0) != 1:
                bad[b or 0] = line
        r.ob("none:%s" % f.short, 0 not in bad, "can report success without delivering a result", where(f, bad.get(0)))
        r.ob("twice:%s" % f.short, 2 not in bad, "can deliver more than one result on a path that reports success", where(f, bad.get(2)))
    r.floor("built-ins with a body", n, 120)
    r.count("delivery sites followed", len(D.ncalls))
    r.count("functions followed", len(D.analysed))
    for o in sorted(set(D.overflow)):
        r.ob("size:%s" % short(o), True, "", "")
        r.count("functions too large to follow", 1)


def deliver_paths(f):
    x = inl.comb(f)
    # count assignments to `current` per path to a return that may be Ok
    out = set()
    st, seen = [(0, 0, None)], set()
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        b, n, ret = k
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and s[1][1] and any(p[0] == "f" and p[2] == "current" for p in s[1][1]):
                n = min(2, n + 1)
            if s[0] == "=" and s[1] == [0, []]:
                rv = s[2]
                ret = rv[1].get("vn") if rv[0] == "agg" else None
        t = x.bbs[b]["t"]
        if t[0] == "call" and t[3] == [0, []]:
            ret = "Err" if lname(Call(x, b, t).path) == "from_residual" else None
        if t[0] == "ret":
            if ret != "Err":
                out.add(n)
            continue
        for s in x.succ(b):
            st.append((s, n, ret))
    return out


class Catalogue:
    """the catalogue, the standard runtime and the wrapper terms, recovered by propagating
    constants through the code that builds them"""

    def __init__(self, db):
        self.db = db
        mk = [f for f in db.fns.values() if f.id.endswith("::make_standard_runtime")]
        if len(mk) != 1:
            raise AnchorLost("the function that builds the standard runtime")
        self.mk = mk[0]
        E = self.E = ceval.Eval(db)
        self.tr = db.trait("StgIntrinsic")
        self.added = []
        add = [f for f in db.fns.values() if f.id.endswith("StandardRuntime::add")]
        run = E.run_env

        def spy(f, args):
            if add and f.id == add[0].id and len(args) > 1:
                self.added.append(E.deref(args[1]))
            return run(f, args)
        E.run_env = spy
        try:
            rt = E.run(self.mk, [ceval.OpaqueV("source map")])
        except ceval.Unknown as e:
            raise AnchorLost("the standard runtime's construction could not be followed: %s" % e)
        E.run_env = run
        cat = [v for k, v in E.statics.items() if "__static_ref_init" in k and isinstance(v, ceval.V) and v and isinstance(E.deref(v[0]), ceval.A) and E.deref(v[0]).p.endswith("::Intrinsic")]
        if len(cat) != 1:
            raise AnchorLost("the built-in catalogue")
        self.entries = [E.deref(c) for c in cat[0]]
        adt = db.adts[self.entries[0].p]["vars"][0][2]
        fld = {n: i for i, (n, _) in enumerate(adt)}
        self.names = [E.deref(c.fs[fld["name"]]) for c in self.entries]
        self.types = [E.deref(c.fs[fld["ty"]]) for c in self.entries]
        self.arity = [self.quiet(db.fn("Intrinsic::arity"), [ceval.P({0: c}, 0, [])]) for c in self.entries]
        impls = [x for x in rt.fs if isinstance(x, ceval.V) and len(x) == len(self.names)]
        if not impls:
            raise AnchorLost("the runtime's table of implementations")
        self.impls = [E.deref(x) for x in impls[0]]
        self.missing = [ix for ix, v in enumerate(self.impls) if not self.has_execute(v)]
        self.wrappers, self.lost = [], []
        for ix, v in enumerate(self.impls):
            w = None
            try:
                w = E.deref(self.method(v, "wrapper", [ceval.OpaqueV("smid")]))
                if not isinstance(w, ceval.A) or w.vn not in ("Lambda", "Thunk", "Value"):
                    w = None
            except (ceval.Unknown, RecursionError, AttributeError, IndexError, KeyError, TypeError) as e:
                self.lost.append((ix, str(e)))
            self.wrappers.append(w)
        self.con = {}
        dc = [k for k in db.adts if k.endswith("::tags::DataConstructor")]
        if not dc:
            raise AnchorLost("the data constructors")
        self.vars = [(n, int(d)) for n, d, _ in db.adts[dc[0]]["vars"]]
        for n, d in self.vars:
            v = ceval.A(dc[0], [x for x, _ in self.vars].index(n), n, [])
            self.con[d] = self.quiet(db.fn("DataConstructor::arity"), [v])
        self.tag = {n: self.quiet(db.fn("DataConstructor::tag"), [ceval.A(dc[0], i, n, [])]) for i, (n, _) in enumerate(self.vars)}
        self.dc = dc[0]
        self.exec = {}
        for i, ms in builtins(db):
            if "execute" in ms:
                self.exec[E.self_adt(ms["execute"])] = ms["execute"]
        d = delivering(db, {n for n, f in machine_impl(db).items() if writes_current(f)})
        # built-ins that can only fail
        self.never = {ix for ix, v in enumerate(self.impls) if v.p in self.exec and self.exec[v.p].id not in d}

    def quiet(self, f, args):
        try:
            return self.E.deref(self.E.run(f, args))
        except (ceval.Unknown, AttributeError, IndexError, KeyError, TypeError):
            return None

    def method(self, v, n, args=()):
        return self.E.invoke(self.mk, {"p": self.tr + "::" + n, "tr": self.tr, "rk": "virtual"}, [ceval.P({0: v}, 0, [])] + list(args))

    def has_execute(self, v):
        return not v.p.endswith("::Unimplemented")

    def walk(self):
        return terms.Walk(self.E, self.con, self.wrappers, self.never)

    def where(self, ix):
        f = self.exec.get(self.impls[ix].p)
        return where(f) if f else self.impls[ix].p


def catalogue(db):
    if not hasattr(db, "_catalogue"):
        import sys
        sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))
        db._catalogue = Catalogue(db)
    return db._catalogue


def i01(r, db):
    r.rules += ["constants propagated through the catalogue, the runtime's construction and every wrapper; the recovered terms are checked for index agreement, scope, arity and constructor shape",
                "argument positions read by each built-in's body, against what every term hands it"]
    r.assumptions += ["a wrapper the propagation cannot follow is counted, not judged"]
    C = catalogue(db)
    E = C.E
    n = len(C.names)
    r.floor("catalogue entries", n, 150)
    for nm in sorted(set(C.names)):
        r.ob("name:%s" % nm, C.names.count(nm) == 1, "two catalogue entries have this name, so one of them can never be reached")
    # registration
    for v in C.added:
        try:
            nm = E.deref(C.method(v, "name"))
        except ceval.Unknown:
            continue
        if not isinstance(nm, str):
            continue
        k = sum(1 for w in C.added if w.p == v.p)
        r.ob("known:%s" % short(v.p), nm in C.names, "registers as %r, which is not in the catalogue" % nm)
        r.ob("once:%s" % nm, sum(1 for w in C.added if same_name(C, w, nm)) == 1, "more than one implementation is registered under this name")
        if nm in C.names:
            r.ob("placed:%s" % nm, C.impls[C.names.index(nm)].p == v.p, "index %d holds %s" % (C.names.index(nm), C.impls[C.names.index(nm)].p))
    r.floor("registrations", len(C.added), 120)
    added = {v.p for v in C.added}
    skip = {C.impls[ix].p for ix in C.missing}
    for i, ms in builtins(db):
        f = next(iter(ms.values()), None)
        p = E.self_adt(f) if f is not None else None
        if p is None or p in skip:
            continue
        r.ob("registered:%s" % short(p), p in added, "implements a built-in but is never registered in the standard runtime", where(f))
    # unimplemented entries answer with an error
    for ix in C.missing:
        w = C.wrappers[ix]
        if w is None:
            continue
        W = C.walk()
        bifs, apps, errs, cons = W.check(ix)
        ok = w.vn != "Lambda" and [C.names[b] for b, _ in bifs] == ["PANIC"] and not apps
        r.ob("unimplemented:%s" % C.names[ix], ok, "an entry with no implementation does not raise an error when used")
    r.count("entries without an implementation", len(C.missing))
    # constructors
    for nme, d in C.vars:
        r.ob("tag:%s" % nme, C.tag.get(nme) in (d, None), "tag() gives %s for constructor %d" % (C.tag.get(nme), d))
    tf = [f for f in db.fns.values() if f.id.endswith("::try_from") and "DataConstructor" in f.id]
    for f in tf:
        for nme, d in C.vars:
            v = C.quiet(f, [d])
            if v is not None:
                v = v.fs[0] if v.vn == "Ok" and v.fs else v
                r.ob("untag:%s" % nme, getattr(v, "vn", None) == nme, "reading tag %d back gives %s" % (d, getattr(v, "vn", v)), where(f))
    # terms
    rd = bifread.Reads(db)
    reads = {}
    ok = 0
    built = {}
    W = C.walk()
    for ix, w in enumerate(C.wrappers):
        if w is None:
            continue
        ok += 1
        nm = C.names[ix]
        bound = w.fs[0] if w.vn == "Lambda" else 0
        if C.arity[ix] is not None and ix not in C.missing:
            r.ob("arity:%s" % nm, bound == C.arity[ix], "the catalogue declares %s arguments but the wrapper takes %s: the compiler inlines the wrapper at calls with the declared number" % (C.arity[ix], bound), C.where(ix))
        bifs, apps, errs, cons = W.check(ix)
        r.ob("scope:%s" % nm, not errs, "; ".join(errs), C.where(ix))
        for tag, want, got in cons:
            r.ob("parts:%s:%s" % (nm, tag), want is None or want == got, "builds constructor %s with %s parts; its declared arity is %s" % (tag, got, want), C.where(ix))
            built.setdefault(tag, set()).add(got)
        for g, k in apps:
            if C.arity[g] is not None:
                r.ob("calls:%s:%s" % (nm, C.names[g]), k == C.arity[g], "calls %s with %s arguments; it declares %s" % (C.names[g], k, C.arity[g]), C.where(ix))
        for b, a in bifs:
            if not 0 <= b < n:
                r.ob("index:%s" % nm, False, "invokes built-in number %s of %d" % (b, n), C.where(ix))
                continue
            ex = C.exec.get(C.impls[b].p)
            r.ob("body:%s:%s" % (nm, C.names[b]), ex is not None, "invokes %s, which has no body" % C.names[b], C.where(ix))
            if ex is None:
                continue
            if b not in reads:
                reads[b] = bifread.arg_reads(db, rd, ex)
            top = max([i for i in reads[b] if isinstance(i, int)], default=-1)
            r.ob("given:%s:%s" % (nm, C.names[b]), top < len(a), "%s reads argument %d but is given %d" % (C.names[b], top, len(a)), where(ex))
    r.floor("wrappers recovered", ok, 100)
    r.count("wrappers not followed", len(C.lost))
    r.count("built-ins whose reads were traced", len(reads))
    for ix, e in C.lost[:20]:
        r.note("wrapper of %s not followed: %s" % (C.names[ix], e))


def same_name(C, v, nm):
    try:
        return C.E.deref(C.method(v, "name")) == nm
    except ceval.Unknown:
        return False


# these values are never boxed: evaluating the argument evaluates what is read
UNBOXED = {"Set", "Vec", "Array", "List", "Function", "Record", "Bool", "Unit"}
# the operand is a literal in the program, never a computation
LITERAL = {("TRACE_ENTRY", 1): "the list of names and arguments is written out by the tracing rewrite",
           ("TYPE_TO_DATA", 0): "the operand is the type literal the desugarer put there"}


def i02(r, db):
    r.rules += ["reads of each argument by each built-in's body (head, boxed payload, list spine, parts), traced through helpers and closures up to the first evaluation",
                "levels of evaluation of what every wrapper hands to each built-in (evaluated by case, by forcing a payload, by a list-forcing wrapper: coinductive over recursive wrappers)"]
    r.assumptions += ["a value rendered only into a message may be unevaluated: functions that return text are not readers",
                      "the key of a key-value pair is evaluated when the pair is built",
                      "wrapper terms the propagation cannot follow are counted, not judged"]
    C = catalogue(db)
    rd = bifread.Reads(db)
    W = C.walk()
    reads, n, pos, unk = {}, 0, 0, set()
    for ix, w in enumerate(C.wrappers):
        if w is None or ix in C.missing:
            continue
        n += 1
        bifs, apps, errs, cons = W.check(ix)
        for b, a in bifs:
            if not 0 <= b < len(C.names):
                continue
            ex = C.exec.get(C.impls[b].p)
            if ex is None:
                continue
            if b not in reads:
                reads[b] = bifread.arg_reads(db, rd, ex)
            for i, lv in sorted(reads[b].items(), key=str):
                if not isinstance(i, int):
                    unk.add(C.names[b])
                    continue
                if i >= len(a):
                    continue
                ref, have = a[i]
                need = set(lv)
                if argtype(C, b, i) in UNBOXED:
                    need.discard("pay")
                if (C.names[b], i) in LITERAL:
                    need &= {"whnf"}
                need &= {"whnf", "pay", "spine", "deep"}
                pos += 1
                miss = need - have
                r.ob("eval:%s:%s:%d" % (C.names[ix], C.names[b], i), not miss,
                     "%s reads argument %d (%s) of %s, which hands it on %s" % (C.names[b], i, ", ".join(SAY[x] for x in sorted(miss)), C.names[ix], "unevaluated" if not have else "evaluated only as far as " + ", ".join(SAY[x] for x in sorted(have))), where(ex))
    r.floor("wrappers recovered", n, 100)
    r.floor("argument positions judged", pos, 150)
    r.count("built-ins whose reads were traced", len(reads))
    r.count("built-ins that hand their argument list to a helper not followed", len(unk))
    for k, v in LITERAL.items():
        r.note("%s argument %d: %s" % (k + (v,)))


SAY = {"whnf": "its head", "pay": "the boxed value", "spine": "the rest of the list", "deep": "its parts"}


def argtype(C, b, i):
    """the declared type of an argument, as far as the catalogue's function type tells"""
    t = C.types[b]
    for _ in range(i):
        if not isinstance(t, ceval.A) or t.vn != "Function" or len(t.fs) < 2:
            return None
        t = C.E.deref(t.fs[1])
    if not isinstance(t, ceval.A) or t.vn != "Function" or not t.fs:
        return None
    t = C.E.deref(t.fs[0])
    return t.vn if isinstance(t, ceval.A) else None
