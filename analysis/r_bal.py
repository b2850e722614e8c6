"""What is pushed for the length of a nested evaluation is popped on every way out (G05)."""
from db import *
from flow import loops, path
from inl import expand
from rule import where
from thread import Threads

STATE = "BcMachineState"
TOP = "?"


def lname(p):
    return last(strip_generics(p or ""))


def stack_fields(db):
    """the machine's side stacks: vectors the collector scans that are pushed to and popped, the continuation stack apart"""
    adt = next(a for i, a in db.adts.items() if last(i) == STATE)
    aid = adt["id"]
    pushed, popped, whole, scanned = set(), set(), set(), set()
    for f in db.fns.values():
        scan = f.name in ("scan",) and STATE in f.id and f.kind != "closure"
        for b in f.reach:
            for s in f.bbs[b]["s"]:
                if s[0] != "=":
                    continue
                p = s[1][1]
                if p and p[-1][0] == "f" and len(p[-1]) > 3 and p[-1][3] == aid:
                    whole.add(p[-1][2])
                if scan:
                    for q in rv_places(s[2]):
                        for e in q[1]:
                            if e[0] == "f" and len(e) > 3 and e[3] == aid:
                                scanned.add(e[2])
        for c in f.calls():
            n = lname(c.path)
            if n in ("push", "pop", "truncate", "take", "replace") and c.args:
                fl = field_of(f, c.args[0], aid)
                if fl:
                    (pushed if n == "push" else popped if n in ("pop", "truncate") else whole).add(fl)
    return aid, sorted(f for f in scanned & pushed & popped - whole if f is not None)


def field_of(f, op, aid):
    """the state field an operand refers to"""
    e = expr_of(f, op)
    while e[0] in ("ref", "deref", "pcast", "cast"):
        e = e[1]
    if e[0] == "call" and lname(e[1]) in ("deref_mut", "deref", "borrow_mut", "as_mut") and e[2]:
        return field_of_e(e[2][0], aid)
    return field_of_e(e, aid)


def field_of_e(e, aid):
    while e[0] in ("ref", "deref", "pcast", "cast"):
        e = e[1]
    if e[0] == "field" and len(e) > 3 and e[3] == aid:
        return e[1]
    return None


OPS = ("push", "pop", "truncate", "len", "clear", "drain", "remove", "swap_remove", "split_off", "append", "extend", "insert", "resize")


def vec_op(f, c, aid, fields):
    n = lname(c.path)
    if n in OPS and c.args:
        fl = field_of(f, c.args[0], aid)
        if fl in fields:
            return n, fl
    return None


class Heights:
    """net growth of each side stack along the paths of one expanded function"""

    def __init__(self, x, aid, fields, balanced):
        self.x, self.aid, self.fields = x, aid, fields
        self.balanced = balanced
        self.th = Threads(x)
        self.loops = loops(x)
        self.k = {}
        self.sym = {}
        self.none = {}
        self.ops = {}
        for c in x.calls():
            o = vec_op(x, c, aid, fields)
            if o:
                self.ops[c.bb] = (o, c)
        for h, body in sorted(self.loops.items(), key=lambda z: len(z[1])):
            self.iterated(h, body)
            if h not in self.sym:
                self.counted(h, body)
            self.k[h] = self.cycle(h, body)

    # a loop over the items of a collection
    def iterated(self, h, body):
        x = self.x
        for b in body:
            t = x.bbs[b]["t"]
            if t[0] != "call" or lname(t[1].get("p")) != "next" or "Iterator" not in (t[1].get("p") or ""):
                continue
            if any(b in o for g, o in self.loops.items() if g != h and o < body):
                continue
            c = Call(x, b, t)
            k = self.collection(expr_of(x, c.args[0]))
            sw = x.succ(b)
            if len(sw) != 1 or x.bbs[sw[0]]["t"][0] != "switch":
                continue
            ta = x.bbs[sw[0]]["t"]
            none = next((n for v, n in ta[3] if int(v) == 0), ta[4])
            self.sym[h] = k
            self.none[h] = (sw[0], none)

    def collection(self, e, d=12):
        """what is iterated, up to borrowing, order and element access"""
        while d > 0:
            d -= 1
            if e[0] in ("ref", "deref", "pcast", "cast"):
                e = e[1]
            elif e[0] == "local":
                n = place_expr(self.x, [e[1], []], 12)
                if n == e:
                    return None
                e = n
            elif e[0] == "call" and lname(e[1]) in ("into_iter", "iter", "iter_mut", "rev", "enumerate", "deref", "as_slice", "cloned", "copied", "into_iter_mut") and e[2]:
                e = e[2][0]
            elif e[0] == "agg" and str(e[1][1]).endswith("Range") and len(e[2]) == 2 and e[2][0][0] == "const" and str(e[2][0][1]) == "0":
                n = e[2][1]
                if n[0] == "call" and lname(n[1]) == "len" and n[2]:
                    e = n[2][0]
                    continue
                return None
            else:
                return e
        return e

    def counted(self, h, body):
        """a loop that runs once for each number below the length of a collection, counted by hand"""
        x = self.x
        for b in body:
            t = x.bbs[b]["t"]
            if t[0] != "switch" or any(b in o for g, o in self.loops.items() if g != h and o < body):
                continue
            outs = {n for _, n in t[3]} | {t[4]}
            away = [n for n in outs if n not in body]
            if len(away) != 1 or b not in self.every(h, body):
                continue
            tst = expr_of(x, t[1])
            if tst[0] != "bin" or tst[1] not in ("Gt", "Lt", "Ne", "Eq", "Ge", "Le"):
                continue
            false = next((n for v, n in t[3] if int(v) == 0), None)
            for a, o, sw in ((tst[2], tst[3], 0), (tst[3], tst[2], 1)):
                if a[0] != "local":
                    continue
                ds = [z for z in x.defs().get(a[1], []) if z[1] != "sd"]
                steps = [z for z in ds if z[0] in body]
                first = [z for z in ds if z[0] not in body]
                if len(steps) != 1 or len(first) != 1 or steps[0][0] not in self.every(h, body):
                    continue
                st, fi = self.defn(steps[0]), self.defn(first[0])
                if st is None or fi is None or st[0] != "bin" or st[2] != a or st[3][:2] != ("const", st[3][1]) or str(st[3][1]) != "1":
                    continue
                op = tst[1]
                if sw:
                    op = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge"}.get(op, op)
                go = {"Gt": 1, "Lt": 1, "Ne": 1, "Eq": 0}.get(op)
                if go is None or (away[0] == false) != bool(go):
                    continue
                if st[1].startswith("Sub") and op in ("Gt", "Ne", "Eq") and o[0] == "const" and str(o[1]) == "0":
                    n = fi
                elif st[1].startswith("Add") and op in ("Lt", "Ne", "Eq") and fi[0] == "const" and str(fi[1]) == "0":
                    n = o
                else:
                    continue
                if n[0] == "local":
                    n = place_expr(x, [n[1], []], 12)
                if n[0] == "call" and lname(n[1]) == "len" and n[2]:
                    k = self.collection(n[2][0])
                    if k is not None:
                        self.sym[h] = k
                        self.none[h] = (b, away[0])

    def defn(self, z):
        b, i = z[0], z[1]
        x = self.x
        if i == "a":
            return None
        if i == "t":
            t = x.bbs[b]["t"]
            if t[0] != "call":
                return None
            return ("call", t[1].get("r") or t[1].get("p"), tuple(expr_of(x, a) for a in t[2]), (b,))
        s = x.bbs[b]["s"][i]
        e = rv_expr(x, s[2])
        while e[0] in ("pcast",):
            e = e[1]
        if e[0] == "field" and e[2][0] == "bin":
            e = e[2]
        if e[0] == "bin" and e[1].endswith("WithOverflow"):
            e = ("bin", e[1][:3]) + e[2:]
        return e

    def every(self, h, body):
        """blocks of the loop every turn goes through"""
        dom = self.x.dom()
        backs = [b for b in body if h in self.x.succ(b)]
        r = set(body)
        for b in backs:
            r &= dom[b]
        return r

    def zero(self):
        return tuple((0, ()) for _ in self.fields)

    def run(self, starts, inside, exits):
        """explore from (state, heights); inside: the loop being measured or None; yields (kind, heights, block)"""
        x, th = self.x, self.th
        seen = set()
        st = [(s, self.zero(), ()) for s in starts]
        out = []
        while st:
            q, hs, env = st.pop()
            if (q, hs, env) in seen:
                continue
            seen.add((q, hs, env))
            if len(seen) > 60000:
                out.append(("overflow", None, q[0]))
                return out
            b = q[0]
            hs2, env2, only = self.step(b, hs, dict(env))
            if not th.succs.get(q):
                if x.bbs[b]["t"][0] == "ret":
                    out.append(("ret", hs2, b))
                continue
            for n in th.succs[q]:
                if only is not None and n[0] != only:
                    continue
                if x.bbs[n[0]]["t"][0] == "unreach":
                    continue
                h3 = hs2
                # back edges
                back = [h for h, body in self.loops.items() if n[0] == h and b in body]
                if back:
                    if inside is not None and n[0] == inside:
                        out.append(("cycle", h3, b))
                    continue
                for h, body in self.loops.items():
                    if b in body and n[0] not in body and (inside is None or h != inside and body < self.loops[inside]):
                        h3 = self.leave(h, b, n[0], h3)
                if inside is not None and n[0] not in self.loops[inside]:
                    continue
                st.append((n, h3, self.live(n[0], env2)))
        return out

    def live(self, b, env):
        return tuple(sorted(env.items(), key=str))

    def leave(self, h, b, n, hs):
        ks = self.k.get(h)
        if ks is None:
            return tuple((TOP, ()) for _ in hs)
        out = []
        for (v, sy), k in zip(hs, ks):
            if k == 0 or v == TOP:
                out.append((v, sy))
            elif k != TOP and self.none.get(h) == (b, n) and self.sym.get(h) is not None:
                d = dict(sy)
                key = repr(self.sym[h])
                d[key] = d.get(key, 0) + k
                out.append((v, tuple(sorted((a, c) for a, c in d.items() if c))))
            else:
                out.append((TOP, ()))
        return tuple(out)

    def cycle(self, h, body):
        outs = [o for o in self.run(self.th.states(h), h, None) if o[0] in ("cycle", "overflow")]
        if any(o[0] == "overflow" for o in outs):
            return None
        if not outs:
            return tuple(0 for _ in self.fields)
        r = []
        for i in range(len(self.fields)):
            vs = {o[1][i] for o in outs}
            r.append(next(iter(vs))[0] if len(vs) == 1 and not next(iter(vs))[1] else TOP)
        return tuple(r)

    def val(self, env, o):
        if o[0] in ("cp", "mv") and not o[1][1]:
            return env.get(o[1][0])
        if o[0] in ("cp", "mv") and len(o[1][1]) == 1 and o[1][1][0][0] == "f":
            return env.get((o[1][0], o[1][1][0][1]))
        return None

    def step(self, b, hs, env):
        x = self.x
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and not s[1][1]:
                l, rv = s[1][0], s[2]
                v = None
                if rv[0] in ("use",):
                    v = self.val(env, rv[1])
                elif rv[0] == "cast":
                    v = self.val(env, rv[2])
                elif rv[0] == "bin" and rv[1].startswith("Sub"):
                    a = self.val(env, rv[2])
                    k = rv[3][1].get("v") if rv[3][0] == "c" else None
                    if a is not None and k is not None and a[1][0] != TOP:
                        v = (a[0], (a[1][0] - int(k), a[1][1]))
                        if rv[1] != "Sub" and "Overflow" in rv[1]:
                            env[(l, 0)] = v
                for kk in [kk for kk in env if kk == l]:
                    env.pop(kk)
                if v is not None:
                    env[l] = v
        t = x.bbs[b]["t"]
        only = None
        if b in self.ops:
            (n, fl), c = self.ops[b]
            i = self.fields.index(fl)
            hs = list(hs)
            v, sy = hs[i]
            d = None if c.dest[1] else c.dest[0]
            if d is not None:
                env.pop(d, None)
            if n == "push":
                hs[i] = (v if v == TOP else v + 1, sy)
            elif n == "pop":
                hs[i] = (v if v == TOP else v - 1, sy)
                if d is not None:
                    env[d] = ("some", (1, ()))
            elif n == "len":
                if d is not None:
                    env[d] = (fl, (v, sy))
            elif n in ("remove", "swap_remove"):
                # the topmost entry, by its position
                a = self.val(env, c.args[1])
                hs[i] = a[1] if a is not None and a[0] == fl and v != TOP and a[1] == (v - 1, sy) else (TOP, ())
            elif n == "truncate":
                a = self.val(env, c.args[1])
                hs[i] = a[1] if a is not None and a[0] == fl else (TOP, ())
            else:
                hs[i] = (TOP, ())
            hs = tuple(hs)
        elif t[0] == "call" and not t[3][1]:
            env.pop(t[3][0], None)
        if t[0] == "switch":
            # what pop gave is there
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and t[1][0] != "c" and s[1] == t[1][1] and not s[2][1][1]:
                    v = env.get(s[2][1][0])
                    if v is not None and v[0] == "some":
                        only = next((n for w, n in t[3] if int(w) == 1), t[4])
        return hs, env, only


def g05(r, db):
    r.rules.append("for every function that touches the machine's side stacks (rooted values, suspended stacks, argument frames), helpers and closures expanded, the net growth along every path to every return, failures included, is zero; a stack truncated to a height taken earlier is at that height; a loop's growth counts per item of what it runs over")
    r.rules.append("a nested run puts back the continuation stack, the current value and the flags it displaced, from what it saved, on every way out")
    r.assumptions.append("the input/output driver ends the whole run when it fails, so its failing exits may leave entries behind; unwinding (a Rust panic) ends the run")
    aid, fields = stack_fields(db)
    r.floor("side stacks", len(fields), 3)
    direct = {}
    for f in db.fns.values():
        for c in f.calls():
            o = vec_op(f, c, aid, fields)
            if o:
                direct.setdefault(f.id, []).append(o)
    changes = {i for i, os in direct.items() if any(n != "len" for n, _ in os)}
    r.count("operations on side stacks", sum(len(v) for v in direct.values()))
    execs = set(db.trait_impl_methods().get(next((p for p in db.trait_impl_methods() if p.endswith("StgIntrinsic::execute")), ""), []))
    forces = set(db.trait_impl_methods().get(next((p for p in db.trait_impl_methods() if p.endswith("IntrinsicMachine::force")), ""), []))
    r.floor("built-in bodies", len(execs), 100)
    r.floor("forcing entry points", len(forces), 1)
    g = db.callgraph()
    # functions that may change a side stack before they return, other than by forcing or running a built-in
    wall = set(execs) | set(forces)
    touch = set(changes) | {i for i in direct}
    area = [f for f in db.fns.values() if f.file.startswith("src/eval/") or f.file.endswith("io_run.rs")]
    ch = True
    while ch:
        ch = False
        for f in area:
            if f.id in touch:
                continue
            for c in f.calls():
                ts = db.targets(c)
                if any(t in touch and t not in wall for t in ts):
                    touch.add(f.id)
                    ch = True
                    break
            else:
                if any(h.id in touch for h in db.closures_of(f.id)):
                    touch.add(f.id)
                    ch = True
    # those on a cycle are judged on their own and taken as balanced where they are called
    rec = set()
    for i in touch:
        seen, st = set(), [t for t in g.get(i, ()) if t in touch and t not in wall]
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            st.extend(t for t in g.get(n, ()) if t in touch and t not in wall)
        if i in seen:
            rec.add(i)
    rec = {i for i in rec if db.fns[i].kind != "closure"}
    own = set()
    for i in touch:
        f = db.fns[i]
        if f.kind == "closure":
            continue
        if i in rec or i in wall:
            own.add(i)
    # the functions nothing else in the set calls
    called = {t for i in touch for t in g.get(i, ()) if t in touch and t not in wall}
    for i in touch:
        if i not in called and db.fns[i].kind != "closure":
            own.add(i)
    # a machine entry used from outside the machine is judged on its own as well
    io = {i for i in touch if db.fns[i].file.startswith("src/driver/")}
    # public primitives (one push or one pop) are what the others are made of
    prim = {i for i in touch if i in direct and len(db.fns[i].calls()) <= 6 and i not in wall and i not in rec and not any(t in touch for t in g.get(i, ()))}
    # bottom up: what is balanced by itself need not be looked into where it is called
    order, seen = [], set()

    def visit(i):
        if i in seen:
            return
        seen.add(i)
        for t in sorted(g.get(i, ())):
            if t in touch and t not in wall:
                visit(t)
        order.append(i)
    for i in sorted(touch):
        visit(i)
    even = set()
    result = {}
    n = npaths = 0
    for i in order:
        f = db.fns[i]
        if f.kind == "closure":
            continue
        if i in prim and not (i in wall):
            continue
        x = expand(f, lambda h: h.id in touch and h.id not in rec and h.id not in wall and (h.id not in even or h.kind == "closure"), 8, True, again=higher)
        left = [c for c in x.calls() if any(t in touch and t not in rec and t not in wall and (t not in even or db.fns[t].kind == "closure") for t in db.targets(c))]
        H = Heights(x, aid, fields, own)
        outs = [o for o in H.run([(0, ())], None, None)]
        n += 1
        npaths += len(outs)
        over = any(k == "overflow" for k, _, _ in outs)
        if i in io and not over:
            # a failing exit of the driver ends the run: look at the successful ones
            outs = exits_ok(H, x)
        bad = {}
        for kind, hs, b in outs:
            if kind == "overflow":
                continue
            for fl, h in zip(fields, hs):
                if h != (0, ()):
                    bad[fl] = h
        result[i] = (bad, over, left)
        if not bad and not over and not left and not higher(f):
            even.add(i)
    # what the driver calls of the machine has to leave it even by itself
    for i in sorted(io):
        own |= {t for t in g.get(i, ()) if t in result and t not in io}
        own |= {t for h in db.closures_of(i) for t in g.get(h.id, ()) if t in result and t not in io}
    for i in sorted(own):
        if i not in result:
            continue
        f = db.fns[i]
        bad, over, left = result[i]
        for c in left:
            r.ob("follow:%s:%s" % (f.short, lname(c.path)), False, "a change of the side stacks cannot be followed", where(f, c.line))
        if over:
            r.ob("follow:%s:paths" % f.short, False, "too many paths to follow", where(f))
        for fl in fields:
            r.ob("balance:%s:%s" % (fl, f.short), fl not in bad, "on some way out of it `%s` is left %s" % (fl, "at an unknown height" if fl in bad and bad[fl][0] == TOP else "with %s more entries than before" % (bad.get(fl, (0,))[0],)), where(f))
    r.floor("functions judged", n, 5)
    r.count("exits", npaths)
    restores(r, db, aid, fields, touch, wall, rec)


def higher(g):
    """takes a function to run"""
    return g.kind != "closure" and any(lname(c.path) in ("call_once", "call_mut", "call") and "::ops::" in (c.path or "") for c in g.calls())


def exits_ok(H, x):
    """exits with an Ok, told apart by the last construction of the result on the way"""
    from r_lost import Lost
    import r_lost
    outs = []
    err = set()
    for b in x.reach:
        for s in x.bbs[b]["s"]:
            if s[0] == "=" and s[1][0] == 0 and not s[1][1] and s[2][0] == "agg" and s[2][1].get("vn") == "Err":
                err.add(b)
        t = x.bbs[b]["t"]
        if t[0] == "call" and t[3][0] == 0 and not t[3][1] and (t[1].get("p") or "").endswith("from_residual"):
            err.add(b)
    # drop the paths that pass such a block: from there on the result is an error
    old = H.th.succs
    H.th.succs = {q: ([] if q[0] in err else ns) for q, ns in old.items()}
    try:
        for o in H.run([(0, ())], None, None):
            if o[0] == "ret" and o[2] not in err:
                outs.append(o)
    finally:
        H.th.succs = old
    return outs


def restores(r, db, aid, fields, touch, wall, rec):
    """every function that displaces the continuation stack puts it back from the suspended ones, with current and the flags"""
    takers = set()
    for f in db.fns.values():
        for c in f.calls():
            if lname(c.path) in ("take", "replace", "swap") and c.args and "mem::" in (c.path or "") and field_of(f, c.args[0], aid) == "stack":
                takers.add(f.id)
    r.floor("places that displace the continuation stack", len(takers), 1)
    callers = db.callers()
    runs = set()
    g = db.callgraph()
    for i in takers:
        f = db.fns[i]
        # a function that both takes and restores, or its callers
        def puts(h):
            return any(s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and s[1][1][-1][2] == "stack" and len(s[1][1][-1]) > 3 and s[1][1][-1][3] == aid for b in h.reach for s in h.bbs[b]["s"])
        if puts(f):
            runs.add(i)
        else:
            runs |= {k.id for k in db.fns.values() if any(i in db.targets(c) for c in k.calls())}
    r.floor("nested runs", len(runs), 2)
    for i in sorted(runs):
        f = db.fns[i]
        x = expand(f, lambda h: not drives(db, h.id) and (h.id in takers or h.id in touch and h.id not in rec and h.id not in wall or touches_state(h, aid)), 4, True)
        th = Threads(x)
        take = [c for c in x.calls() if lname(c.path) in ("take", "replace", "swap") and "mem::" in (c.path or "") and c.args and field_of(x, c.args[0], aid) == "stack"]
        if not take:
            r.ob("restore:%s" % f.short, False, "the displaced continuation stack cannot be followed", where(f))
            continue
        starts = [n for c in take for s in th.states(c.bb) for n in th.succs.get(s, ())]
        writes = {}
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[1][1]:
                    fl = field_of_e(place_expr(x, s[1]), aid)
                    if fl:
                        writes.setdefault(fl, []).append((b, rv_expr(x, s[2])))
            t = x.bbs[b]["t"]
            if t[0] == "call":
                c = Call(x, b, t)
                if lname(c.path) in ("replace", "swap") and "mem::" in (c.path or "") and len(c.args) == 2:
                    fl = field_of(x, c.args[0], aid)
                    if fl:
                        writes.setdefault(fl, []).append((b, expr_of(x, c.args[1])))
        rets = set(x.returns())

        def popped(e, fl):
            return any(y[0] == "call" and lname(y[1]) in ("pop",) and y[2] and field_of_e(y[2][0], aid) == fl for y in deps(x, e))

        def saved(e, fl):
            return any(field_of_e(y, aid) == fl for y in deps(x, e)) or any(y[0] == "call" and lname(y[1]) in ("take", "replace") and y[2] and field_of_e(y[2][0], aid) == fl for y in deps(x, e))
        inner = [c for c in x.calls() if c.bb not in {k.bb for k in take} and (runs_machine(db, c))]
        after = [n for c in inner for s in th.states(c.bb) for n in th.succs.get(s, ())]
        r.ob("restore:runs:%s" % f.short, bool(inner), "no machine run is found between displacing and restoring", where(f))
        for fl, src in (("stack", "suspended_stacks"), ("current", "stash")):
            good = {b for b, e in writes.get(fl, []) if popped(e, src) or saved(e, fl)}
            p = th.path(after, rets, good)
            r.ob("restore:%s:%s" % (fl, f.short), bool(good) and p is None, "after a nested run `%s` is not put back on every way out" % fl, where(f))
        for fl in ("terminated", "yielded_io"):
            ws = {b for b, e in writes.get(fl, [])}
            good = {b for b, e in writes.get(fl, []) if e[0] == "const" or saved(e, fl)}
            p = th.path(after, rets, good)
            r.ob("restore:%s:%s" % (fl, f.short), bool(good) and p is None, "after a nested run the flag `%s` is not put back on every way out" % fl, where(f))
            # started clear, or the nested run would stop at once
        cl = {b for b, e in writes.get("terminated", []) if e[0] == "const" and str(e[1]) in ("0", "False", "false")}
        first = [n for c in take for s in th.states(c.bb) for n in th.succs.get(s, ())]
        p = th.path([(0, ())] if (0, ()) in th.succs else first, {c.bb for c in inner}, cl)
        r.ob("restore:cleared:%s" % f.short, p is None, "a nested run starts with the termination flag of its caller", where(f))


def touches_state(h, aid):
    return len(h.bbs) <= 40 and h.kind != "closure" and any(STATE in h.r["T"].s(h.ty(i)) for i in range(1, h.argc + 1)) and any(
        s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f" and len(s[1][1][-1]) > 3 and s[1][1][-1][3] == aid and s[1][1][-1][2] in ("stack", "current", "terminated")
        for b in h.reach for s in h.bbs[b]["s"]) and any(s[1][1][-1][2] == "stack" for b in h.reach for s in h.bbs[b]["s"] if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f")


_DR = {}


def drives(db, i):
    from r_vm import steps_and_drives
    k = id(db)
    if k not in _DR:
        _DR[k] = set(steps_and_drives(db)[2])
    return i in _DR[k]


def runs_machine(db, c):
    return any(drives(db, t) for t in db.targets(c))
