"""B01: what the bytecode encoder writes for a node is what every decoder reads, operand by operand."""
import re
import inl
import wire
from db import *
from rule import where
from thread import Threads
from wire import lname, peel


def code_mod(f):
    return "::bytecode::" in f.id and "::tests::" not in f.id


def params(f):
    T = f.r["T"]
    return [T.s(f.ty(i + 1)) for i in range(f.argc)]


def pc_params(f):
    return [i for i, p in enumerate(params(f)) if p == "&mut usize"]


# ---------------------------------------------------------------- reading primitives
def deref_of(x, o, p):
    """operand is the value *param p"""
    for _ in range(6):
        if o[0] == "c":
            return False
        l, pr = o[1]
        if pr == [["*"]] and l == p:
            return True
        ds = x.defs().get(l, [])
        if pr or len(ds) != 1 or ds[0][1] in ("t", "a") or ds[0][2][0] != "use":
            return False
        o = ds[0][2][1]
    return False


def prim(f):
    """a function that reads a fixed number of bytes at *pc and advances it: (width, order of bytes, advance) or None"""
    ps = params(f)
    pcs = pc_params(f)
    if len(pcs) != 1 or not any(p.endswith("[u8]") for p in ps) or f.argc != 2:
        return None
    pc = pcs[0] + 1
    T = f.r["T"]
    w = wire.WIDTH.get(T.s(f.ty(0)))
    if w is None:
        return None
    for c in f.calls():
        if any(a[0] != "c" and T.s(f.ty(a[1][0])) == "&mut usize" for a in c.args):
            return None
    adv, order, idx, end, span = None, None, {}, "le", None

    def at(o, d=8):
        """offset from *pc of an index operand"""
        if d == 0 or o[0] == "c":
            return None
        if deref_of(f, o, pc):
            return 0
        l, pr = o[1]
        ds = f.defs().get(l, [])
        if len(ds) != 1 or ds[0][1] in ("t", "a"):
            return None
        rv = ds[0][2]
        if rv[0] == "use":
            return at(rv[1], d - 1)
        if rv[0] == "bin" and rv[1].startswith("Add") and rv[3][0] == "c":
            k = at(rv[2], d - 1)
            return None if k is None else k + int(rv[3][1]["v"])
        return None
    for b in f.reach:
        for s in f.bbs[b]["s"]:
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "use" and rv[1][0] != "c" and rv[1][1][1] and rv[1][1][1][-1][0] == "i":
                idx[s[1][0]] = at(["cp", [rv[1][1][1][-1][1], []]])
            if rv[0] == "agg" and str(rv[1].get("p", "")).endswith("ops::Range") and len(rv[2]) == 2:
                a, b2 = at(rv[2][0]), at(rv[2][1])
                span = list(range(a, b2)) if a is not None and b2 is not None and span is None else []
            if s[1] == [pc, [["*"]]]:
                o = rv[1] if rv[0] == "use" else None
                adv = at(o) if o is not None else None
    for c in f.calls():
        if lname(c.path).startswith("from_"):
            end = lname(c.path)[5:7]
            o = c.args[0]
            ds = f.defs().get(o[1][0], []) if o[0] != "c" else []
            if len(ds) == 1 and ds[0][1] not in ("t", "a") and ds[0][2][0] == "agg":
                order = [idx.get(a[1][0]) if a[0] != "c" else None for a in ds[0][2][2]]
    if order is None and w == 1 and len(idx) == 1:
        order = list(idx.values())
    if order is None and span:
        order = span
    return (w, order, adv, end)


# ---------------------------------------------------------------- the writer
def buffers(db):
    """structures that hold the bytes being written"""
    out = set()
    for a, d in db.adts.items():
        if "::bytecode::" in a and d["kind"] == "struct":
            for _, t in d["vars"][0][2]:
                if re.match(r"std::vec::Vec<u8\b", d["T"].s(t)):
                    out.add(a)
    return out


def has_writer(f, bufs):
    T = f.r["T"]
    for i in range(f.argc):
        s = T.s(f.ty(i + 1))
        if any(re.match(r"&(mut )?%s\b" % re.escape(b), s) for b in bufs):
            return True
    return False


class Enc(wire.Writer):
    def __init__(self, db, emitters, want):
        wire.Writer.__init__(self, db, want)
        self.emitters = emitters

    def classify(self, g, c):
        x = g.x
        ts = self.db.targets(c)
        if len(ts) == 1 and ts[0] in self.emitters:
            return ("child", ts[0], c)
        n = lname(c.path)
        if n == "len" and c.args and self.is_buf(x, c.args[0]):
            return ("here",)
        t = wire.Writer.classify(self, g, c)
        if t is not None and t[0] == "call":
            return ("?", "call of " + t[1])
        return t


def op_of(e):
    """the opcode a pushed byte is, when it is one"""
    for s in subexprs(e):
        if s[0] == "agg" and isinstance(s[1], tuple) and str(s[1][1]).endswith("opcode::Op"):
            return s[1][2]
    return None


class Node:
    """one instruction as it is written: from the taking of its offset to the next offset, child or end"""
    def __init__(self, g, here, op, first):
        self.g, self.here, self.op, self.first = g, here, op, first


def nodes_of(r, W, fid, OPS):
    """nodes a function writes; obligations on their framing"""
    g = W.gram(fid)
    x, f = g.x, g.f
    out = []
    TOK = ("b", "n", "bytes", "?")
    # states reached with no open node
    st, seen = [(g.start, False)], {(g.start, False)}
    loose = None
    while st:
        s, opn = st.pop()
        t = g.token(s)
        if t is not None:
            if t[0] in TOK and not opn:
                loose = loose or (s, t)
            opn = t[0] == "here" or (opn and t[0] != "child")
        for m in g.succ(s):
            if (m, opn) not in seen:
                seen.add((m, opn))
                st.append((m, opn))
    r.ob("framed:%s" % f.short, loose is None, "bytes are written for an instruction after one of its parts was written, or before its offset was taken", where(f, line_of(x, loose[0][0]) if loose else None))
    for s in sorted({s for s, _ in seen}, key=str):
        t = g.token(s)
        if t is None or t[0] != "here":
            continue
        # the first token after it
        q, sn = list(g.succ(s)), set(g.succ(s))
        while q:
            m = q.pop()
            u = g.token(m)
            if u is not None:
                if u[0] in TOK:
                    op = op_of(u[2]) if u[0] == "b" else None
                    if op is None and u[0] == "b" and isinstance(u[1], int):
                        op = next((k for k, v in OPS.items() if v == u[1]), None)
                    if op is None:
                        r.note("the opcode written by %s is not followed" % f.short)
                    else:
                        out.append(Node(g, s, op, m))
                continue
            for n in g.succ(m):
                if n not in sn:
                    sn.add(n)
                    q.append(n)
    return out


def line_of(x, b):
    t = x.bbs[b]["t"]
    if t[0] == "call":
        return t[5]
    for s in x.bbs[b]["s"]:
        if s[0] == "=":
            return s[3] if len(s) > 3 else None
    return None


# ---------------------------------------------------------------- the readers
class Dec(wire.Reader):
    def __init__(self, db, prims, want):
        wire.Reader.__init__(self, db, want, {})
        self.pr = prims

    def watched(self, x, c):
        return []

    def classify(self, g, c):
        ts = self.db.targets(c)
        if len(ts) == 1 and ts[0] in self.pr:
            i = pc_params(self.db.fns[ts[0]])[0]
            pc = ref_local(g.x, c.args[i])
            w, _, _, end = self.pr[ts[0]]
            return ("b", None, None, pc) if w == 1 else ("n", w, end, pc)
        return None


def ref_local(x, o, d=16):
    """the local an operand is a reference to"""
    if o[0] == "c":
        return None
    return pointee(x, o[1][0], list(o[1][1]), d)


def pointee(x, l, proj, d):
    """the local that the place l.proj, a reference, points to"""
    if d == 0:
        return None
    proj = [e for e in proj]
    ds = [q for q in x.defs().get(l, []) if q[1] != "a"]
    if len(ds) != 1 or ds[0][1] == "t":
        return None
    rv = ds[0][2]
    if proj and proj[0][0] == "f":
        if rv[0] == "agg" and rv[1].get("k") in ("closure", "tuple"):
            o = rv[2][proj[0][1]]
            return None if o[0] == "c" else pointee(x, o[1][0], list(o[1][1]) + proj[1:], d - 1)
        if rv[0] == "use" and rv[1][0] != "c":
            return pointee(x, rv[1][1][0], list(rv[1][1][1]) + proj, d - 1)
        return None
    if proj and proj[0] == ["*"]:
        if rv[0] == "use" and rv[1][0] != "c":
            return pointee(x, rv[1][1][0], list(rv[1][1][1]) + proj, d - 1)
        if rv[0] in ("ref", "raw"):
            return pointee(x, rv[2][0], list(rv[2][1]) + proj[1:], d - 1)
        if rv[0] == "agg" and rv[1].get("k") == "closure":
            return pointee(x, l, proj[1:], d - 1)
        return None
    if proj:
        return None
    if rv[0] == "use" and rv[1][0] != "c":
        return pointee(x, rv[1][1][0], list(rv[1][1][1]), d - 1)
    if rv[0] in ("ref", "raw"):
        p = rv[2]
        if not p[1]:
            return p[0]
        if p[1][-1] == ["*"]:
            return pointee(x, p[0], list(p[1][:-1]), d - 1)
    return None


class Run:
    """reads through one position variable from one place where it is set"""
    def __init__(self, g, pc, b, skip):
        self.g, self.pc, self.b, self.skip = g, pc, b, skip


def runs_of(D, fid):
    g = D.gram(fid)
    x = g.x
    pcs = {}
    for b in x.reach:
        c = g.calls.get(b)
        if c is None:
            continue
        t = g.tok.get(b) or D.classify(g, c)
        g.tok[b] = t
        if t is not None:
            pcs.setdefault(t[-1], set()).add(b)
    out = []
    for pc in pcs:
        if pc is None:
            continue
        for b, i, rv in x.defs().get(pc, []):
            if i in ("a", "t"):
                out.append(Run(g, pc, b, 0 if i == "t" else None))
                continue
            if rv[0] == "ref":
                continue
            out.append(Run(g, pc, b, skip_of(x, rv)))
    return out, pcs.get(None, set())


def skip_of(x, rv, d=8):
    """bytes past the offset that is given"""
    if d == 0:
        return None
    if rv[0] == "cast":
        return 0
    if rv[0] == "bin" and rv[1].startswith("Add") and rv[3][0] == "c":
        return int(rv[3][1]["v"])
    if rv[0] == "use" and rv[1][0] != "c":
        l, pr = rv[1][1]
        if pr and pr[-1][0] == "f" and len(pr) == 1 or not pr:
            ds = x.defs().get(l, [])
            if not ds:
                return 0
            if len(ds) == 1 and ds[0][1] not in ("a", "t"):
                return skip_of(x, ds[0][2], d - 1)
            return 0
        return 0
    return 0


class Ops:
    """which way a reader goes for a given opcode"""
    def __init__(self, db, D, OPS):
        self.db, self.D, self.OPS = db, D, OPS
        self.memo = {}

    def from_op(self, g, place, d=14, seen=None):
        """block of the read the opcode in a place was decoded from"""
        x = g.x
        seen = seen if seen is not None else set()
        l = place[0]
        if l in seen or d == 0:
            return None
        seen.add(l)
        for b, i, rv in x.defs().get(l, []):
            if i == "a":
                continue
            if i == "t":
                c = g.calls.get(b)
                if c is None:
                    continue
                n = lname(c.path)
                if n == "from_u8" and "Op" in c.path and c.args and c.args[0][0] != "c":
                    return next(iter(self.D.sources(g, c.args[0])), None)
                if n in ("ok_or_else", "ok_or", "branch", "unwrap", "expect", "clone", "cloned", "copied", "unwrap_or") and c.args and c.args[0][0] != "c":
                    k = self.from_op(g, c.args[0][1], d - 1, seen)
                    if k is not None:
                        return k
                continue
            ps = rv_places(rv)
            if rv[0] in ("use", "ref", "cast", "discr", "agg"):
                for p in ps:
                    k = self.from_op(g, p, d - 1, seen)
                    if k is not None:
                        return k
        return None

    def choice(self, g, b, V):
        """targets of a switch that an opcode decides: (block of the read, allowed targets), or None"""
        x = g.x
        t = x.bbs[b]["t"]
        if t[0] != "switch" or t[1][0] == "c" or t[1][1][1]:
            return None
        key = (g.f.id, b)
        if key not in self.memo:
            self.memo[key] = self.look(g, b)
        m = self.memo[key]
        if m is None:
            return None
        kind, rd, arg = m
        if kind == "op":
            v = self.OPS[V]
        elif kind == "option":
            v = 1
        else:
            v = int((V in arg[0]) == arg[1])
        return rd, {next((n for k, n in t[3] if int(k) == v), t[4])}

    def look(self, g, b):
        x = g.x
        T = x.r["T"]
        l = x.bbs[b]["t"][1][1][0]
        for bb, i, rv in x.defs().get(l, []):
            if i == "a":
                continue
            if i != "t" and rv[0] == "discr":
                ty = T.s(T.peel(rv[2])) if len(rv) > 2 and rv[2] is not None else ""
                if re.search(r"(^|<)[\w:]*opcode::Op>?$", ty) and "Result" not in ty and "ControlFlow" not in ty:
                    rd = self.from_op(g, rv[1])
                    if rd is not None:
                        return ("option" if "Option<" in ty else "op", rd, None)
                    if "Option<" not in ty:
                        rd = self.carried(g, rv[1])
            if i == "t":
                c = g.calls.get(bb)
                if c is not None and lname(c.path) in ("eq", "ne") and len(c.args) == 2:
                    for a, k in (c.args, c.args[::-1]):
                        vs = op_consts(x, c.bb, k)
                        if vs and a[0] != "c":
                            rd = self.from_op(g, a[1])
                            if rd is not None:
                                return ("eq", rd, (vs, lname(c.path) == "eq"))
        return None

    def carried(self, g, place):
        return None


def skipped(g, b, OPS):
    """opcodes a byte comparison above a run has established"""
    x = g.x
    out = set()
    for a in x.dom()[b]:
        t = x.bbs[a]["t"]
        if t[0] != "switch" or t[1][0] == "c" or t[1][1][1]:
            continue
        for bb, i, rv in x.defs().get(t[1][1][0], []):
            if i not in ("a", "t") and rv[0] == "discr" and re.search(r"opcode::Op$", x.r["T"].s(rv[2])):
                if not any(q[0] == "index" for q in subexprs(place_expr(x, rv[1]))):
                    continue    # the opcode of another instruction
                here = {k for k, v in OPS.items() for n in [next((m for w, m in t[3] if int(w) == v), t[4])] if n in x.dom()[b] or n == b}
                if here and len(here) < len(OPS):
                    out |= here
                continue
            if i in ("a", "t") or rv[0] != "bin" or rv[1] not in ("Eq", "Ne"):
                continue
            eq = next((n for v, n in t[3] if int(v) == (1 if rv[1] == "Eq" else 0)), t[4])
            if eq not in x.dom()[b] and eq != b:
                continue
            for o in (rv[2], rv[3]):
                e = expr_of(x, o)
                v = op_of(e)
                k = folded(peel(e))
                if v is None and k is not None:
                    v = next((q for q, n in OPS.items() if n == k), None)
                if v:
                    out.add(v)
    return out


def folded(e):
    """a constant, or a sum of constants"""
    if e[0] == "const":
        try:
            return int(e[1])
        except (TypeError, ValueError):
            return None
    if e[0] == "cast":
        return folded(e[1])
    if e[0] == "field" and len(e) > 2 and isinstance(e[2], tuple):
        return folded(e[2])
    if e[0] == "bin" and e[1].startswith("Add"):
        a, b = folded(e[2]), folded(e[3])
        return None if a is None or b is None else a + b
    return None


def op_consts(x, b, o):
    """opcodes named by a constant operand"""
    e = expr_of(x, o)
    out = set()
    for s in subexprs(e):
        if s[0] == "agg" and str(s[1][1]).endswith("opcode::Op"):
            out.add(s[1][2])
        if s[0] == "kconst" and len(s) > 2 and s[2] is not None:
            org = x.db.fns.get(s[1])
            if org is None:
                org = x.org[b] if getattr(x, "org", None) and b in x.org else x
            ps = org.r.get("promoted") or []
            if s[2] < len(ps):
                for bb in ps[s[2]]["bbs"]:
                    for q in bb["s"]:
                        if q[0] == "=" and q[2][0] == "agg" and str(q[2][1].get("p", "")).endswith("opcode::Op"):
                            out.add(q[2][1].get("v") if isinstance(q[2][1].get("v"), str) else q[2][1].get("vn"))
                        out.update(re.findall(r"opcode::Op::(\w+)::\{constant", str(q)))
    return out


class Product:
    """one written node against one reading run"""
    def __init__(self, W, D, O, node, run, V):
        self.W, self.D, self.O, self.node, self.run, self.V = W, D, O, node, run, V
        self.fails = []
        self.matched = {}
        self.steps = 0

    def wnext(self, s):
        """tokens that follow the written state s within the node: [(token, state)], whether the node may end"""
        g = self.node.g
        out, end = [], False
        st, seen = list(g.succ(s)), set(g.succ(s))
        if not st:
            end = True
        while st:
            m = st.pop()
            t = g.token(m)
            e = g.end(m)
            if t is not None:
                if t[0] in ("here", "child"):
                    end = True
                else:
                    out.append((t, m))
                continue
            if e is not None:
                end = end or e == "ok"
                continue
            for n in g.succ(m):
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return out, end

    def rclose(self, cfgs, fresh=()):
        """reader states standing at a read of this run, and whether the run may stop"""
        g, run = self.run.g, self.run
        at, stop = set(), False
        st, seen = list(cfgs), set(cfgs)
        while st:
            s, by = st.pop()
            if s[0] in self.inits and (s, by) not in fresh:
                stop = True
                continue
            t = g.tok.get(s[0])
            if t is not None and t[-1] == run.pc:
                at.add((s, by))
                continue
            if g.end(s) is not None:
                stop = True
                continue
            for n in self.rsucc(s, by):
                if (n, by) not in seen:
                    seen.add((n, by))
                    st.append((n, by))
        return at, stop

    def rsucc(self, s, by):
        g = self.run.g
        nxt = g.succ(s)
        ch = self.O.choice(g, s[0], self.V)
        d = dict(by)
        if ch is not None and ch[0] in d:
            return [n for n in nxt if n[0] in ch[1]]
        bs = self.D.byte_switch(g, s)
        if bs is not None and d.get(bs[0]) is not None:
            k = bs[1](d[bs[0]])
            return [n for n in nxt if n[0] == k]
        return nxt

    def run_from(self, starts, opbyte, code):
        """opbyte: the run begins with the opcode itself"""
        g = self.run.g
        self.inits = {b for b, i, rv in g.x.defs().get(self.run.pc, []) if i != "a" and not (i != "t" and rv[0] == "ref")}
        cf = set()
        for s in starts:
            t = g.tok.get(s[0])
            if t is not None and t[-1] == self.run.pc:
                cf.add((s, ()))
            else:
                cf |= {(n, ()) for n in g.succ(s)}
        if opbyte:
            inits = self.inits
            a0 = set()
            for s, by in cf:
                if s in starts:
                    a0.add((s, by))
            at, _ = self.rclose(cf - a0)
            cf = set()
            for s, by in at | a0:
                if g.tok[s[0]][0] != "b":
                    self.fails.append(("width", self.node.first[0], s[0]))
                    return
                d = ((s[0], code),)
                cf |= {(n, d) for n in self.rsucc(s, d)}
        self.go(cf, () if opbyte else {(s, ()) for s in starts})

    def go(self, start, fresh):
        """start: reader configurations after the opcode"""
        g = self.run.g
        seen = set()
        at, stop = self.rclose(start, fresh)
        st = [(self.node.first, frozenset(at), stop)]
        while st:
            cur = st.pop()
            if cur in seen:
                continue
            seen.add(cur)
            self.steps += 1
            if self.steps > 20000:
                self.fails.append(("limit", None, None))
                return
            w, rs, stop = cur
            toks, end = self.wnext(w)
            if end and rs and not stop:
                self.fails.append(("longer", None, sorted(rs, key=str)[0][0][0]))
            for t, m in toks:
                if t[0] == "?":
                    self.fails.append(("unknown", m[0], t[1]))
                    continue
                if not rs:
                    continue
                nr = set()
                for s, by in rs:
                    u = g.tok[s[0]]
                    if t[0] == "b" and u[0] == "b" or t[0] == "n" and u[0] == "n" and t[1] == u[1] and t[2] == u[2]:
                        self.matched.setdefault(m[0], set()).add(s[0])
                        d = dict(by)
                        if t[0] == "b":
                            d[s[0]] = t[1] if isinstance(t[1], int) else None
                        b2 = tuple(sorted(d.items(), key=str))
                        nr |= {(n, b2) for n in self.rsucc(s, b2)}
                if not nr:
                    if not stop:
                        self.fails.append(("width", m[0], sorted(rs, key=str)[0][0][0]))
                    continue
                a2, s2 = self.rclose(nr)
                st.append((m, frozenset(a2), s2))


class Ctx:
    """what the encoder writes, and the reading primitives"""
    def __init__(self, r, db):
        self.r, self.db = r, db
        self.ok = False
        self.lost = set()
        adt = next((a for a in db.adts if a.endswith("bytecode::opcode::Op")), None)
        if adt is None:
            return
        self.ok = True
        OPS = self.OPS = {v[0]: int(v[1]) for v in db.adts[adt]["vars"]}
        self.prims = prims = {}
        for f in db.fns.values():
            if code_mod(f):
                p = prim(f)
                if p:
                    prims[f.id] = p
        bufs = buffers(db)
        cg = {}

        def writes(f, seen=None):
            seen = seen if seen is not None else set()
            if f.id in cg:
                return cg[f.id]
            if f.id in seen:
                return False
            seen.add(f.id)
            out = False
            for c in f.calls():
                if lname(c.path) in ("push", "extend_from_slice", "extend") and c.args and c.args[0][0] != "c" and re.search(r"Vec<u8\b", f.r["T"].s(f.ty(c.args[0][1][0]))):
                    out = True
                    break
                for t in db.targets(c):
                    h = db.fns.get(t)
                    if h is not None and code_mod(h) and has_writer(h, bufs) and writes(h, seen):
                        out = True
                        break
                if out:
                    break
            cg[f.id] = out
            return out
        self.W_fns = [f for f in db.fns.values() if code_mod(f) and f.kind != "closure" and has_writer(f, bufs) and writes(f)]
        self.emitters = emitters = {f.id for f in self.W_fns if f.r["T"].s(f.ty(0)) == "u32"}
        wid = {h.id for h in self.W_fns}
        self.owners = [f for f in db.fns.values() if code_mod(f) and f.kind != "closure" and not has_writer(f, bufs) and any(t in wid for c in f.calls() for t in db.targets(c))]
        self.W = Enc(db, emitters, lambda h: code_mod(h) and has_writer(h, bufs) and h.id not in emitters)
        self.nodes = []
        for f in sorted({f.id for f in self.W_fns if f.id in emitters} | {f.id for f in self.owners}):
            self.nodes += nodes_of(r, self.W, f, OPS)
        self.byop = {}
        for n in self.nodes:
            self.byop.setdefault(n.op, []).append(n)

    def dec(self, want=lambda h: False):
        """a reader that expands the helpers handed a position, and whatever else is wanted"""
        D = Dec(self.db, self.prims, lambda h: h.id not in self.prims and (code_mod(h) and bool(pc_params(h)) or want(h)))
        return D, Ops(self.db, D, self.OPS)

    def match(self, r, D, O, f, matched):
        """every written instruction against every run of reads in f; (function, run, opcode) -> {(node, written block): read blocks}"""
        OPS = self.OPS
        runs, lostpc = runs_of(D, f.id)
        nr = 0
        if lostpc:
            r.note("reads in %s through a position that is not followed" % f.short)
        for k, run in enumerate(sorted(runs, key=lambda q: q.b)):
            g = run.g
            starts = [s for s in g.th.by_block.get(run.b, [])]
            if run.skip is None or run.skip > 1 or not starts:
                r.note("a run of reads in %s is not followed" % f.short)
                continue
            ops = None
            if run.skip == 1:
                ops = skipped(g, run.b, OPS) or {"Atom"}
            nr += 1
            for V in sorted(OPS):
                if ops is not None and V not in ops:
                    continue
                for n in self.byop.get(V, []):
                    p = Product(self.W, D, O, n, run, V)
                    p.run_from(starts, ops is None, OPS[V])
                    lost = [q for q in p.fails if q[0] in ("limit", "unknown")]
                    if lost:
                        self.lost.add(V)
                    for kind, wb, rb in lost or p.fails:
                        key = "%s:%s:%s" % (f.short, V, kind)
                        if kind in ("limit", "unknown"):
                            r.note("%s: not followed (%s)" % (key, rb))
                            continue
                        r.ob(key, False, {"longer": "reads on where the encoder has written the whole instruction", "width": "reads another width than the encoder writes there"}[kind] + " (%s)" % V, where(f, line_of(g.x, rb)))
                    if not lost:
                        r.ob("read:%s:%s" % (f.short, V), not p.fails, "see above", where(f))
                    for w, rs in p.matched.items():
                        for q in rs:
                            matched.setdefault((f.id, run.b, V), {}).setdefault((n, w), set()).add(q)
        return nr


def b01(r, db):
    r.rules += ["every token the encoder writes for an instruction (opcode, flag, count, tag, offset, annotation, reference) is read with the same width at the same place by every decoder that reads that far",
                "a decoder never reads past what was written, nor another kind of operand than was written there"]
    C = Ctx(r, db)
    if not C.ok:
        r.floor("opcodes", 0, 1)
        return
    for fid, (w, order, adv, end) in sorted(C.prims.items()):
        f = db.fns[fid]
        if order is None or adv is None:
            r.note("reading primitive %s not followed" % f.short)
            continue
        r.ob("primitive:%s" % f.short, order == list(range(w)) and adv == w, "%s reads the bytes %s of a %d-byte value and advances by %s" % (f.short, order, w, adv), where(f))
    r.count("opcodes", len(C.OPS))
    r.count("reading primitives", len(C.prims))
    r.count("functions that write instructions", len(C.emitters))

    def reads(f, seen):
        for c in f.calls():
            for t in db.targets(c):
                if t in C.prims:
                    return True
                h = db.fns.get(t)
                if h is not None and t not in seen and code_mod(h) and pc_params(h):
                    seen.add(t)
                    if reads(h, seen):
                        return True
        return False
    D, O = C.dec()
    R_fns = [f for f in db.fns.values() if code_mod(f) and f.id not in C.prims and not pc_params(f) and f.kind != "closure" and reads(f, set())]
    matched = {}
    nr = 0
    for f in sorted(R_fns, key=lambda f: f.id):
        nr += C.match(r, D, O, f, matched)
    r.count("reading runs followed", nr)
    return C, matched, D
