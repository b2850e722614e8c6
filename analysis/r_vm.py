"""The virtual machine's drive loops (G06)."""
from db import *
from flow import loops, path, Events
from inl import expand
from rule import where
from thread import Threads
import r_lost

STATE = "BcMachineState"


def tyname(f, l):
    return f.r["T"].s(f.ty(l))


def arg_is(f, frag, mut=False):
    return any(frag in tyname(f, i) and (not mut or tyname(f, i).startswith("&mut")) for i in range(1, f.argc + 1))


def op_switch(f):
    """a switch over the instruction code with most of its arms"""
    for b in f.reach:
        t = f.bbs[b]["t"]
        if t[0] == "switch" and len(t[3]) >= 10:
            for s in f.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and last(strip_generics(f.r["T"].s(s[2][2]))) == "Op":
                    return True
    return False


def in_loop(f, b):
    return any(b in body for body in loops(f).values())


def steps_and_drives(db):
    """functions that execute one machine step per call, and functions that do so in a loop"""
    prim = [f for f in db.fns.values() if op_switch(f) and arg_is(f, STATE, True)]
    one, drive = {f.id for f in prim}, {}
    ch = True
    while ch:
        ch = False
        for f in db.fns.values():
            if f.id in one or f.id in drive:
                continue
            hits = [c for c in f.calls() if any(t in one for t in db.targets(c))]
            if not hits:
                continue
            ch = True
            inl = [c for c in hits if in_loop(f, c.bb)]
            if inl or f.kind == "closure":
                drive[f.id] = [c.bb for c in inl] or [c.bb for c in hits]
            else:
                one.add(f.id)
    return prim, one, drive


def loads(f):
    """blocks loading a static atomic flag: block -> static"""
    out = {}
    for c in f.calls():
        if "Atomic" in (c.path or "") and last(strip_generics(c.path)) == "load":
            s = next((y[1] for y in subexprs(expr_of(f, c.args[0])) if y[0] == "static"), None)
            if s:
                out[c.bb] = s
    return out


def stores(f):
    out = []
    for c in f.calls():
        n = last(strip_generics(c.path or ""))
        if "Atomic" in (c.path or "") and n in ("store", "swap", "fetch_or", "fetch_and", "fetch_xor", "compare_exchange"):
            s = next((y[1] for y in subexprs(expr_of(f, c.args[0])) if y[0] == "static"), None)
            if s:
                v = expr_of(f, c.args[1])
                out.append((c.bb, s, n, v[1] if v[0] == "const" else None))
    return out


def truth(f, b, pred):
    """for a switch at b on (a negation or comparison of) a value satisfying pred: the successor taken when it is true"""
    t = f.bbs[b]["t"]
    if t[0] != "switch" or t[1][0] == "c":
        return None
    e = expr_of(f, t[1])
    neg = False
    while True:
        if e[0] == "un" and e[1] == "Not":
            neg, e = not neg, e[2]
        elif e[0] == "bin" and e[1] in ("Eq", "Ne") and e[3][0] == "const" and str(e[3][1]) in ("True", "False", "0", "1"):
            k = str(e[3][1]) in ("True", "1")
            neg = neg != ((e[1] == "Eq") != k)
            e = e[2]
        elif e[0] in ("cast", "pcast"):
            e = e[1]
        else:
            break
    if not pred(e):
        return None
    arms = {int(v): n for v, n in t[3]}
    yes = arms.get(1, t[4])
    no = arms.get(0, t[4])
    return (no, 1 - 1) if neg else (yes, 1)


def num(f, e):
    if e[0] == "const":
        try:
            return int(e[1])
        except (TypeError, ValueError):
            return None
    if e[0] in ("cast",):
        return num(f, e[1])
    return None


def field_key(e):
    return (e[1], e[3]) if e[0] == "field" and len(e) > 3 else None


def rooted(e):
    """a place that outlives the call"""
    while e[0] in ("field", "deref", "ref", "as"):
        e = e[2] if e[0] in ("field", "as") else e[1]
    return e[0] in ("arg", "static")


class Counter:
    """candidate counter guards of an expanded drive loop"""
    def __init__(self, x):
        self.x = x
        self.writes = {}
        for b in x.reach:
            for s in x.bbs[b]["s"]:
                if s[0] == "=":
                    p = ("local", s[1][0]) if not s[1][1] else place_expr(x, s[1])
                    if p[0] in ("local", "field", "deref"):
                        self.writes.setdefault(p, []).append((b, rv_expr(x, s[2])))
            t = x.bbs[b]["t"]
            if t[0] == "call":
                p = ("local", t[3][0]) if not t[3][1] else place_expr(x, t[3])
                c = Call(x, b, t)
                self.writes.setdefault(p, []).append((b, ("call", c.rpath, tuple(expr_of(x, a) for a in c.args), (b,))))

    def kind(self, P, e):
        """what writing e to P does: ('dec'|'inc'), ('set', n) or None"""
        for y in subexprs(e):
            if y[0] == "bin" and y[1].startswith(("Sub", "Add")) and len(y) > 3:
                a, k = y[2], num(self.x, y[3])
                if a == P and k == 1:
                    return ("dec" if y[1].startswith("Sub") else "inc", 1)
                if num(self.x, y[2]) == 1 and y[3] == P and y[1].startswith("Add"):
                    return ("inc", 1)
            if y[0] == "call" and y[2]:
                n = last(strip_generics(y[1] or ""))
                if n.endswith(("_sub", "_add")) and len(y[2]) == 2 and y[2][0] == P and num(self.x, y[2][1]) == 1:
                    return ("dec" if n.endswith("_sub") else "inc", 1)
        n = num(self.x, e)
        if n is not None:
            return ("set", n)
        return None

    def guards(self):
        x = self.x
        for b in x.reach:
            t = x.bbs[b]["t"]
            if t[0] != "switch" or t[1][0] == "c":
                continue
            e = expr_of(x, t[1])
            arms = {int(v): n for v, n in t[3]}
            neg = False
            while e[0] == "un" and e[1] == "Not":
                neg, e = not neg, e[2]
            if e[0] == "bin" and e[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                op, A, B = e[1], e[2], e[3]
                if num(x, A) is not None and num(x, B) is None:
                    A, B = B, A
                    op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                k = num(x, B)
                if k is None:
                    continue
                yes, no = arms.get(1, t[4]), arms.get(0, t[4])
                if neg:
                    yes, no = no, yes
                mod = None
                if A[0] == "bin" and A[1] == "Rem":
                    mod, A = num(x, A[3]), A[2]
                while A[0] in ("cast",):
                    A = A[1]
                for o, arm, other in ((op, yes, no), ({"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}[op], no, yes)):
                    yield b, A, o, k, mod, arm
            elif e in self.writes and arms:
                if 0 in arms and len(arms) == 1:
                    yield b, e, "Eq", 0, None, arms[0]


BOUND = 1_000_000


def g06(r, db):
    r.rules.append("every loop that executes machine steps is found from the instruction switch up; on every way round it (helpers inlined, results of tests told apart) both the interrupt flag and the collection policy are looked at, either always or behind a counter that outlives the call, is counted once per step, is reset only where the poll happens, and reaches its threshold within a constant number of steps")
    r.rules.append("from a set interrupt flag only Err(Interrupted) is reachable; from a policy that asks for it the collector runs before the next step; the flag is raised by the handler the program installs before it starts and never lowered; the main loop compares its ticks with the limit before every step and fails when it is reached")
    r.assumptions.append("A single machine step and a single built-in call are taken to be finite apart from the evaluations they start; the policy function's own arithmetic is not judged.")
    prim, one, drive = steps_and_drives(db)
    r.count("instruction interpreters", len(prim))
    collects = {f.id for f in db.fns.values() if last(f.id) == "collect" and "memory::collect" in f.id}
    policies = set()
    for f in db.fns.values():
        if tyname(f, 0) == "bool" and arg_is(f, "memory::heap::Heap") and "policy" in last(f.id):
            policies.add(f.id)
    r.floor("instruction interpreters", len(prim), 2)
    r.floor("collectors", len(collects), 1)
    r.floor("collection policies", len(policies), 1)
    flags = {}
    for f in db.fns.values():
        for b, s in loads(f).items():
            flags.setdefault(s, set()).add(f.id)
    raised = {}
    for f in db.fns.values():
        for b, s, n, v in stores(f):
            raised.setdefault(s, []).append((f, n, v))
    # the interrupt flag: the one whose true arm makes ExecutionError::Interrupted somewhere in a drive loop; by its handler
    handler_flags = handlers(r, db, raised)
    g = db.callgraph()
    stop = one | set(drive)
    reach = {}

    def reaches(i, goals, depth=4):
        k = (i, id(goals))
        if k in reach:
            return reach[k]
        reach[k] = False
        if i in goals:
            reach[k] = True
        elif depth > 0:
            f = db.fns[i]
            reach[k] = any(t not in stop and t not in collects and reaches(t, goals, depth - 1)
                           for c in f.calls() for t in db.targets(c) if len(db.targets(c)) == 1)
        return reach[k]
    loaders = set()
    for s in handler_flags:
        loaders |= flags.get(s, set())

    def small(h):
        return arg_is(h, STATE) and len(h.bbs) <= 14 and not loops(h) and h.kind != "closure"

    tickers = {f.id for f in db.fns.values() if f.id.split("::")[-2:-1] == ["Metrics"] and counts_only(f)}

    def want(h):
        if h.id in stop or h.id in collects or h.id in policies or h.id in tickers:
            return False
        return reaches(h.id, loaders) or reaches(h.id, policies) or small(h) or counts_only(h) or checks_limit(h)
    ev = Events(db, lambda c: any(t in collects for t in db.targets(c)), depth=4, scope=lambda h: h.id not in stop)
    evt = Events(db, lambda c: any(t in tickers for t in db.targets(c)), depth=4)
    analysed = set()
    used = {}
    nl = 0
    limited = 0
    for fid in sorted(drive):
        f = db.fns[fid]
        x = expand(f, want, 6, True)
        sb = [c for c in x.calls() if any(t in one for t in db.targets(c))]
        ls = loops(x)
        sb = [c for c in sb if any(c.bb in body for body in ls.values())]
        if not sb:
            if f.kind == "closure":
                r.ob("loop:%s" % f.short, False, "machine steps run in a closure whose repetition cannot be seen", where(f))
            continue
        nl += 1
        analysed |= {h if isinstance(h, str) else h.id for h in x.inlined} | {fid}
        th = Threads(x)
        S = {c.bb for c in sb}
        after = [n for b in S for s in th.states(b) for n in th.succs.get(s, ())]
        key = f.short
        lf = loads(x)
        il = {b for b, s in lf.items() if s in handler_flags}
        IB, PB = {}, {}
        for b in x.reach:
            y = truth(x, b, lambda e: e[0] == "call" and e[3] and e[3][0] in il)
            if y:
                IB[b] = y
            y = truth(x, b, lambda e: e[0] == "call" and e[1] is not None and e[3] and any(t in policies for t in db.targets(Call(x, e[3][0], x.bbs[e[3][0]]["t"]))))
            if y:
                PB[b] = y
        cnt = Counter(x)
        for name, blocks in (("interrupt", IB), ("collection", PB)):
            ok, why, ctr = polled(x, th, S, after, blocks, cnt)
            r.ob("poll:%s:%s" % (name, key), ok, "the loop can run on without looking at %s: %s" % ("the interrupt flag" if name == "interrupt" else "the collection policy", why), where(f, sb[0].line))
            if ok and ctr:
                used.setdefault(ctr, set()).add(fid)
        # a raised flag ends the evaluation
        for b, (n, v) in IB.items():
            if not any(b in body for body in ls.values()) and path(x, n, S) is None:
                continue
            st = arm_states(th, b, n)
            p = th.path(st, S)
            r.ob("interrupted:stops:%s" % key, p is None, "an interruption is noticed but evaluation goes on", where(f))
            mk = {q for q in x.reach for s in x.bbs[q]["s"] if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("vn") == "Interrupted"}
            p = th.path(st, set(x.returns()), mk)
            r.ob("interrupted:error:%s" % key, p is None and r_lost.only_errors(db, x, n, (), th, st), "a noticed interruption does not leave the loop as Err(Interrupted)", where(f))
        # a wanted collection happens
        cb = ev.must_blocks(x)
        for b, (n, v) in PB.items():
            st = arm_states(th, b, n)
            p = th.path(st, S | set(x.returns()), cb)
            r.ob("collects:%s" % key, p is None, "the policy asks for a collection and none is made before evaluation goes on", where(f))
        # steps are counted
        tb = evt.must_blocks(x)
        hit = S & tb
        p = th.path(after, S - hit, tb) if S - hit else None
        r.ob("ticks:%s" % key, p is None, "a step can be executed without being counted", where(f))
        # the step limit
        la = [i for i in range(1, f.argc + 1) if tyname(f, i).startswith("std::option::Option<usize")]
        if la:
            limited += 1
            limit(r, db, f, x, th, S, after, la[0], key, tickers)
    r.floor("drive loops", nl, 3)
    r.floor("loops with a step limit", limited, 1)
    # nobody else sets the counter back
    for P in sorted(used, key=str):
        fk = field_key(P)
        if not fk:
            continue
        n = 0
        for h in db.fns.values():
            if h.id in analysed:
                continue
            for b in h.reach:
                for s in h.bbs[b]["s"]:
                    if s[0] != "=":
                        continue
                    pj = s[1][1]
                    if pj and pj[-1][0] == "f" and pj[-1][2] == fk[0] and (len(pj[-1]) < 4 or pj[-1][3] == fk[1]):
                        r.ob("counter:reset:%s:%s" % (fk[0], h.short), False, "the poll counter is set outside the poll, so short evaluations can postpone the poll for ever", where(h, s[3]))
                    if s[2][0] == "ref" and s[2][1] not in ("shared", "fake"):
                        q = s[2][2][1]
                        if q and q[-1][0] == "f" and q[-1][2] == fk[0] and (len(q[-1]) < 4 or q[-1][3] == fk[1]):
                            r.ob("counter:lent:%s:%s" % (fk[0], h.short), False, "the poll counter is lent out of the poll loops", where(h, s[3]))
                    if s[2][0] == "agg" and s[2][1].get("p") == fk[1]:
                        n += 1
                        fs = s[2][1].get("f") or []
                        i = fs.index(fk[0]) if fk[0] in fs else None
                        v = num(h, expr_of(h, s[2][2][i])) if i is not None and i < len(s[2][2]) else None
                        r.ob("counter:start:%s:%s" % (fk[0], h.short), v is not None and 0 <= v <= BOUND, "the poll counter does not start at a small constant", where(h, s[3]))
        r.count("constructions of the counter", n)


def counts_only(h):
    """a small function that adds one to a field of its receiver"""
    if len(h.bbs) > 6 or h.argc < 1:
        return False
    for b in h.reach:
        for s in h.bbs[b]["s"]:
            if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f":
                P = place_expr(h, s[1])
                for y in subexprs(rv_expr(h, s[2])):
                    if y[0] == "bin" and y[1].startswith(("Add", "Sub")) and y[2] == P and num(h, y[3]) == 1:
                        return True
                    if y[0] == "call" and len(y[2]) == 2 and y[2][0] == P and num(h, y[2][1]) == 1:
                        return True
    return False


def checks_limit(h):
    """a small function that may fail with DidntTerminate, or compares with an optional limit"""
    if len(h.bbs) > 20 or loops(h) or h.kind == "closure":
        return False
    return any(s[0] == "=" and s[2][0] == "agg" and s[2][1].get("vn") == "DidntTerminate" for b in h.reach for s in h.bbs[b]["s"]) or \
        any(tyname(h, i).startswith("std::option::Option<usize") for i in range(1, h.argc + 1)) and arg_is(h, "Machine")


def arm_states(th, b, n):
    return [q for s in th.states(b) for q in th.succs.get(s, ()) if q[0] == n]


def polled(x, th, S, after, blocks, cnt):
    """(ok, why, counter) for the blocks that look at something"""
    if not blocks:
        return False, "no test of it is in the loop", None
    tb = set(blocks)
    if th.path(after, S, tb) is None:
        return True, "", None
    why = "no counter guards it"
    for b, P, op, k, mod, arm in cnt.guards():
        if P not in cnt.writes and not mod:
            continue
        st = arm_states(th, b, arm)
        if not st or th.path(st, S, tb) is not None or th.path(st, S) is None and False:
            continue
        if th.path(after, S, {b}) is not None:
            why = "the test of the counter is not met on every way round"
            continue
        ws = [(wb, cnt.kind(P, e)) for wb, e in cnt.writes.get(P, [])]
        dec = {wb for wb, kd in ws if kd and kd[0] == "dec"}
        inc = {wb for wb, kd in ws if kd and kd[0] == "inc"}
        sets = [(wb, kd[1]) for wb, kd in ws if kd and kd[0] == "set"]
        odd = [wb for wb, kd in ws if kd is None]
        d = dec or inc
        if bool(dec) == bool(inc) and not mod:
            continue
        down = bool(dec)
        if th.path(after, S, d) is not None and not mod:
            why = "the counter is not counted on every way round"
            continue
        if mod:
            if not (op == "Eq" and 0 < mod <= BOUND and 0 <= k < mod):
                why = "the counter's remainder does not recur"
                continue
            if not rooted(P) and P[0] != "call":
                why = "the counter starts afresh at every call, so short evaluations never poll"
                continue
            return True, "", None
        good = op in ("Eq", "Le", "Lt") if down else op in ("Eq", "Ge", "Gt")
        if not good or not 0 <= k <= BOUND or (op == "Lt" and k == 0):
            why = "the counter's test opens in the wrong direction"
            continue
        if down and op == "Eq" and k != 0 and False:
            continue
        resets = {wb for wb, v in sets}
        # writes to the counter that are not behind the open test
        loopset = [wb for wb in list(resets) + odd if th.path(after, {wb}, {b}) is not None or
                   any(th.path(arm_states(th, b, o), {wb}, {b} | S) is not None for o in x.succ(b) if o != arm)]
        inloop = [wb for wb in loopset if th.path([s for s in th.states(wb)], S) is not None]
        if inloop:
            why = "the counter is set back outside the poll"
            continue
        vals = [v for wb, v in sets if th.path(st, {wb}, S) is not None]
        if op == "Eq" or op in ("Le", "Lt", "Ge", "Gt"):
            if th.path(st, S, resets) is not None and op == "Eq":
                why = "the counter is not set again after a poll"
                continue
        if any(not (0 < v <= BOUND) for v in vals) and down or any(v > k for v in vals) and not down:
            why = "the counter is set again to a value from which it does not come back"
            continue
        if not rooted(P):
            why = "the counter starts afresh at every call, so a series of short evaluations never polls"
            continue
        return True, "", P
    return False, why, None


def handlers(r, db, raised):
    """statics set to true by the installed signal handler"""
    out = set()
    n = 0
    for f in db.fns.values():
        for c in f.calls():
            if "ctrlc::" not in (c.path or "") or "set_handler" not in c.path:
                continue
            n += 1
            clo = [t for a in c.args for t in closure_ids(f, a)]
            ev = Events(db, lambda k: any(v in (True, 1, "True", "true", "1") and nm == "store" for bb, s, nm, v in stores(k.fn) if bb == k.bb), depth=4)
            ok = any(i in db.fns and ev.fn_must(db.fns[i], 4) for i in clo)
            r.ob("handler:sets:%s" % f.short, ok, "the signal handler does not raise the interrupt flag on every path", where(f, c.line))
            for i in clo:
                for j in db.closure_reach([i]):
                    for bb, s, nm, v in stores(db.fns[j]):
                        out.add(s)
            # installed before anything runs
            rest = {k.bb for k in f.calls() if k.bb != c.bb and any(x in (k.path or "") for x in ("spawn",))} | set(f.returns())
            r.ob("handler:installed:%s" % f.short, path(f, 0, rest, {c.bb}) is None, "the program can start without its signal handler", where(f, c.line))
    r.floor("signal handlers", n, 1)
    for s in out:
        for f, nm, v in raised.get(s, []):
            r.ob("flag:%s:%s" % (last(s), f.short), nm == "store" and str(v) in ("True", "1", "true"), "the interrupt flag can be lowered", where(f))
    return out


def closure_ids(f, a):
    from cover import closure_fn
    g = closure_fn(f.db, f, a)
    out = [g.id] if g is not None else []
    e = expr_of(f, a)
    for y in subexprs(e):
        if y[0] == "fnc" and y[1] in f.db.fns:
            out.append(y[1])
    return out


def limit(r, db, f, x, th, S, after, li, key, tickers):
    """before every step the ticks are compared with the limit, unless there is none"""
    fields = set()
    for i in tickers:
        h = db.fns[i]
        for b in h.reach:
            for s in h.bbs[b]["s"]:
                if s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f":
                    fields.add((s[1][1][-1][2], s[1][1][-1][3] if len(s[1][1][-1]) > 3 else None))

    def of_ticks(e):
        for y in subexprs(e):
            if y[0] == "field" and field_key(y) in fields:
                return True
            if y[0] == "call" and y[1] in db.fns:
                h = db.fns[y[1]]
                if any(field_key(z) in fields for z in deps(h, ("local", 0))):
                    return True
        return False

    def of_limit(e):
        return any(y == ("arg", li) or y == ("local", li) for y in deps(x, e))
    tests = {}
    for b in x.reach:
        t = x.bbs[b]["t"]
        if t[0] != "switch" or t[1][0] == "c":
            continue
        e = expr_of(x, t[1])
        neg = False
        while e[0] == "un" and e[1] == "Not":
            neg, e = not neg, e[2]
        if e[0] != "bin" or e[1] not in ("Lt", "Le", "Gt", "Ge", "Eq"):
            continue
        op, A, B = e[1], e[2], e[3]
        if of_limit(A) and of_ticks(B):
            A, B = B, A
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if not (of_ticks(A) and of_limit(B)):
            continue
        arms = {int(v): n for v, n in t[3]}
        yes, no = arms.get(1, t[4]), arms.get(0, t[4])
        if neg:
            yes, no = no, yes
        if op in ("Ge", "Gt"):
            tests[b] = yes
        elif op in ("Lt", "Le"):
            tests[b] = no
    r.ob("limit:tested:%s" % key, bool(tests), "the step limit is never compared with the steps taken", where(f))
    if not tests:
        return
    none = set()
    for b in x.reach:
        t = x.bbs[b]["t"]
        if t[0] == "switch" and t[1][0] != "c":
            e = expr_of(x, t[1])
            if e[0] == "discr" and any(y == ("arg", li) for y in subexprs(e)):
                arms = {int(v): n for v, n in t[3]}
                none.add((b, arms.get(0, t[4])))
    for what, starts in (("round", after), ("first", [(0, ())])):
        p = th_path_edges(th, starts, S, set(tests), none)
        r.ob("limit:%s:%s" % (what, key), p is None, "a step can be taken without comparing with the limit", where(f))
    for b, n in tests.items():
        st = arm_states(th, b, n)
        r.ob("limit:fails:%s" % key, th.path(st, S) is None and r_lost.only_errors(db, x, n, (), th, st), "a run that reaches its step limit goes on or succeeds", where(f))


def th_path_edges(th, starts, goals, avoid, edges):
    seen, st = set(), [s for s in starts if s[0] not in avoid]
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        if n[0] in goals:
            return n
        for s in th.succs.get(n, ()):
            if s[0] not in avoid and (n[0], s[0]) not in edges:
                st.append(s)
    return None
