"""B02: the two execution modes. What each opcode's arm of the two dispatchers changes, written as effects whose
operands are named by the written tokens they were decoded from."""
import re
import r_bc
from db import *
from rule import where
from wire import lname, peel

ERR = "ExecutionError"


class View:
    """one expanded function, restricted to the paths one opcode takes"""
    def __init__(self, g, D, states):
        self.g, self.x, self.D = g, g.x, D
        self.states = states
        self.blocks = {s[0] for s in states}
        self.index()

    def index(self):
        x = self.x
        self.mut = {}     # (root local) -> [("c", bb, operands) | ("s", bb, rvalue)]
        self.fieldmut = {}  # field of a struct behind a reference -> the same
        for b in self.blocks:
            for i, s in enumerate(x.bbs[b]["s"]):
                if s[0] == "=" and ["*"] in s[1][1]:
                    self.add(s[1][0], s[1][1], ("s", b, s[2]))
                elif s[0] == "=" and s[1][1] and s[1][1][-1][0] == "f":
                    pass
            c = self.g.calls.get(b)
            if c is None or self.g.tok.get(b) is not None:
                continue
            for k, a in enumerate(c.args):
                if a[0] == "c" or a[1][1]:
                    continue
                t = x.r["T"].s(x.ty(a[1][0]))
                if t.startswith("&mut "):
                    self.add(a[1][0], [["*"]], ("c", b, [o for j, o in enumerate(c.args) if j != k]))

    def add(self, l, proj, what):
        for root, pr in self.target(l, list(proj)):
            fs = [e for e in pr if e[0] == "f"]
            own = [e for e in fs if len(e) > 3 and e[3] and ("::Decoder" in str(e[3]) or "MachineState" in str(e[3]))]
            if own:
                self.fieldmut.setdefault((str(own[0][3]).split("::")[-1].split("<")[0], own[0][2]), []).append(what)
            self.mut.setdefault(root, []).append(what)

    def target(self, l, proj, d=14):
        """places that l.proj (through references) denotes"""
        if d == 0:
            return [(l, proj)]
        if not proj or proj[0] != ["*"]:
            return [(l, proj)]
        out = []
        for b, i, rv in self.x.defs().get(l, []):
            if i == "a":
                out.append((l, proj))
            elif i == "t":
                c = self.g.calls.get(b)
                if c is None:
                    continue
                r = False
                for a in c.args:
                    if a[0] != "c" and not a[1][1] and self.x.r["T"].s(self.x.ty(a[1][0])).startswith("&mut "):
                        out += self.target(a[1][0], [["*"]], d - 1)
                        r = True
                        break
                if not r:
                    out.append((l, proj))
            elif rv[0] in ("ref", "raw"):
                out += self.target(rv[2][0], list(rv[2][1]) + proj[1:], d - 1)
            elif rv[0] in ("use", "cast"):
                o = rv[1] if rv[0] == "use" else rv[2]
                if o[0] != "c":
                    out += self.target(o[1][0], list(o[1][1]) + proj, d - 1)
        return out or [(l, proj)]

    def whole(self, a):
        """the machine or the decoder itself, which stands for no operand"""
        return not a[1][1] and re.search(r"^&.*(Decoder|BcMachineState|Encoder)\b", self.x.r["T"].s(self.x.ty(a[1][0]))) is not None

    def prov(self, o, stop=None):
        """atoms an operand is made from"""
        if o[0] == "c":
            return set()
        return self.prov_place(o[1])

    def prov_place(self, place):
        x = self.x
        atoms = set()
        seen = set()
        st = [(place[0], tuple(map(tuple_, place[1])))]
        while st:
            l, pr = st.pop()
            if (l, pr) in seen or len(seen) > 4000:
                continue
            seen.add((l, pr))
            hit = False
            for e in pr:
                if e[0] == "f" and len(e) > 3 and e[3]:
                    own = str(e[3]).split("<")[0].split("::")[-1]
                    if own in ("Instr", "DecodedProgram", "BcMachineState", "Decoder", "BytecodeProgram", "BcContinuation", "StgSyn"):
                        atoms.add((own, e[2]))
                        hit = True
                        break
                if e[0] == "i":
                    st.append((e[1], ()))
            if hit:
                continue
            # strip leading dereferences and variant casts
            path = tuple(e for e in pr if e[0] in ("f",))
            for b, i, rv in x.defs().get(l, []):
                if i == "a":
                    atoms.add(("arg", l))
                    continue
                if b not in self.blocks:
                    continue
                if i == "t":
                    c = self.g.calls.get(b)
                    if c is None:
                        continue
                    t = self.g.tok.get(b)
                    if t is not None:
                        atoms.add(("read", b))
                        pc = t[-1]
                        if pc is not None:
                            for b2, i2, rv2 in x.defs().get(pc, []):
                                if b2 in self.blocks and i2 not in ("a", "t") and rv2[0] != "ref":
                                    for p in rv_places(rv2):
                                        st.append((p[0], tuple(map(tuple_, p[1]))))
                        continue
                    for a in c.args:
                        if a[0] != "c" and not self.whole(a):
                            st.append((a[1][0], tuple(map(tuple_, a[1][1]))))
                    continue
                dst = x.bbs[b]["s"][i][1] if isinstance(i, int) and i < len(x.bbs[b]["s"]) else [l, []]
                dpath = tuple(tuple_(e) for e in dst[1] if e[0] == "f")
                rest = path
                if dpath:
                    n = min(len(dpath), len(path))
                    if any(dpath[k][1] != path[k][1] for k in range(n)):
                        continue
                    rest = path[len(dpath):]
                if rv[0] == "agg" and rest and rv[1].get("k") in ("tuple", "closure", "adt"):
                    k = rest[0][1]
                    ops = rv[2]
                    if k < len(ops):
                        if ops[k][0] != "c":
                            st.append((ops[k][1][0], tuple(map(tuple_, ops[k][1][1])) + rest[1:]))
                    continue
                if rv[0] in ("use", "ref", "raw"):
                    p = rv[1][1] if rv[0] == "use" and rv[1][0] != "c" else rv[2] if rv[0] != "use" else None
                    if p is not None:
                        st.append((p[0], tuple(map(tuple_, p[1])) + rest))
                    continue
                if rv[0] == "discr":
                    st.append((rv[1][0], tuple(map(tuple_, rv[1][1]))))
                    continue
                for p in rv_places(rv):
                    st.append((p[0], tuple(map(tuple_, p[1]))))
            for w in self.mut.get(l, []):
                if w[0] == "c":
                    for a in w[2]:
                        if a[0] != "c":
                            st.append((a[1][0], tuple(map(tuple_, a[1][1]))))
                else:
                    for p in rv_places(w[2]):
                        st.append((p[0], tuple(map(tuple_, p[1]))))
        return atoms


def tuple_(e):
    return tuple(e)


class Disp:
    """the top-level choice on the opcode of a dispatcher"""
    def __init__(self, g, OPS, what=r"(^|::)opcode::Op$|^Op$"):
        self.g, self.OPS = g, OPS
        x = g.x
        self.key = None
        T = x.r["T"]
        cand = {}
        for b in x.reach:
            t = x.bbs[b]["t"]
            if t[0] != "switch" or t[1][0] == "c" or t[1][1][1]:
                continue
            for bb, i, rv in x.defs().get(t[1][1][0], []):
                if i in ("a", "t") or rv[0] != "discr":
                    continue
                ty = T.s(T.peel(rv[2])) if len(rv) > 2 and rv[2] is not None else ""
                if re.search(what, ty):
                    cand[b] = self.root(rv[1])
        self.cand = cand
        tops = [b for b in cand if not any(a != b and a in x.dom()[b] for a in cand)]
        if tops:
            best = max(tops, key=lambda b: len(x.bbs[b]["t"][3]))
            self.key = cand[best]

    def root(self, place, d=12):
        """where the switched-on opcode comes from: a local, or a field of one"""
        l, pr = place[0], [e for e in place[1] if e[0] == "f"]
        ds = [q for q in self.g.x.defs().get(l, []) if q[1] != "a"]
        if d and len(ds) == 1 and ds[0][1] != "t" and ds[0][2][0] in ("use", "ref"):
            rv = ds[0][2]
            p = rv[1][1] if rv[0] == "use" and rv[1][0] != "c" else rv[2] if rv[0] == "ref" else None
            if p is not None:
                return self.root([p[0], list(p[1]) + pr], d - 1)
        return (l, tuple(e[1] for e in pr))

    def states(self, V):
        """states on the paths for an opcode"""
        g, v = self.g, self.OPS[V]
        st, seen = [g.start], {g.start}
        while st:
            s = st.pop()
            nx = g.succ(s)
            if self.key is not None and self.cand.get(s[0]) == self.key:
                t = g.x.bbs[s[0]]["t"]
                k = next((n for a, n in t[3] if int(a) == v), t[4])
                nx = [n for n in nx if n[0] == k]
            for n in nx:
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return seen


def own_name(o):
    return str(o).split("<")[0].split("::")[-1]


class Effects:
    """what the paths of one opcode change: name -> {operand: [atoms per site]}"""
    def __init__(self, db, v, opaque_ok):
        self.db, self.v = db, v
        self.eff = {}
        self.line = {}
        x = v.x
        T = x.r["T"]
        for b in sorted(v.blocks):
            for s in x.bbs[b]["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1].get("k") == "adt":
                    own = own_name(rv[1].get("p"))
                    vn = rv[1].get("vn") or rv[1].get("v")
                    if own == "BcContinuation":
                        fs = self.fields(rv[1]["p"], vn)
                        self.put("push a %s continuation" % vn, {fs[k] if k < len(fs) else k: o for k, o in enumerate(rv[2])}, b)
                    elif own == ERR and vn != "Panic":
                        self.put("fail with %s" % vn, dict(enumerate(rv[2])), b)
                for pl in [s[1]]:
                    f = [e for e in pl[1] if e[0] == "f" and len(e) > 3 and own_name(e[3]) == "BcMachineState"]
                    if f and ["*"] in pl[1] or f:
                        ops = {i: o for i, o in enumerate(operands(rv))}
                        self.put("set state.%s" % f[0][2], {"value": operands(rv)}, b)
            c = v.g.calls.get(b)
            if c is None or v.g.tok.get(b) is not None:
                continue
            ts = [db.fns.get(t) for t in db.targets(c)]
            if not ts or any(h is None for h in ts):
                continue
            tys = [T.s(x.ty(a[1][0])) if a[0] != "c" and not a[1][1] else "" for a in c.args]
            changes = any("&mut " in t and "BcMachineState" in t for t in tys)
            rt = T.s(x.ty(t_dest(x, b))) if t_dest(x, b) is not None else ""
            nm = lname(c.path)
            if changes or (ERR in rt and "Result" in rt):
                self.put("call %s" % nm, {k: o for k, o in enumerate(c.args)}, b)
            else:
                self.put("~%s" % nm, {k: o for k, o in enumerate(c.args)}, b)

    def fields(self, adt, vn):
        a = self.db.adts.get(adt)
        for v in (a or {"vars": []})["vars"]:
            if v[0] == vn:
                return [f[0] for f in v[2]]
        return []

    def put(self, name, ops, b):
        d = {}
        x = self.v.x
        for k, o in ops.items():
            at = set()
            if name[0] == "c" and o[0] != "c" and not o[1][1] and "BcMachineState" in x.r["T"].s(x.ty(o[1][0])):
                continue
            for q in (o if isinstance(o, list) and o and isinstance(o[0], list) else [o]):
                at |= self.v.prov(q)
            d[k] = at
        self.eff.setdefault(name, []).append((b, d))


def t_dest(x, b):
    t = x.bbs[b]["t"]
    return t[3][0] if t[0] == "call" and not t[3][1] else None


def find(db, r, name):
    fs = [f for f in db.fns.values() if r_bc.code_mod(f) and f.id.split("::")[-1] == name and f.kind != "closure"]
    if len(fs) != 1:
        r.note("no single function %s" % name)
        return None
    return fs[0]


class Modes:
    def __init__(self, r, db):
        self.r, self.db = r, db
        self.ok = False
        C = self.C = r_bc.Ctx(r, db)
        if not C.ok:
            return
        self.direct, self.pre, self.dec = find(db, r, "handle_op"), find(db, r, "handle_op_predecoded"), find(db, r, "decode_node")
        if not (self.direct and self.pre and self.dec):
            return
        self.ok = True
        a, b = set(db.closure_reach({self.direct.id})), set(db.closure_reach({self.pre.id}))
        self.shared = a & b
        self.Dd, self.Od = C.dec(lambda q: r_bc.code_mod(q) and q.id not in self.shared and q.id.split("::")[-1] not in ("eq", "ne", "clone", "fmt"))
        self.Dn, self.On = C.dec(lambda q: r_bc.code_mod(q) and not self.ordinal(q))
        self.gd, self.gp, self.gn = self.Dd.gram(self.direct.id), self.Dd.gram(self.pre.id), self.Dn.gram(self.dec.id)
        self.matched = {}
        C.match(r, self.Dd, self.Od, self.direct, self.matched)
        C.match(r, self.Dn, self.On, self.dec, self.matched)
        r_bc.runs_of(self.Dd, self.pre.id)
        self.pd, self.pp, self.pn = Disp(self.gd, C.OPS), Disp(self.gp, C.OPS), Disp(self.gn, C.OPS)
        self.tok = {}
        self.labels = {}
        for (fid, rb, V), m in self.matched.items():
            for (n, w), qs in m.items():
                for q in qs:
                    self.tok.setdefault((fid, q, V), set()).add((n.op, self.label(n, w)))

    def ordinal(self, q):
        """hands out the ordinal of an offset: its result stands for the offset"""
        T = q.r["T"]
        return T.s(q.ty(0)) == "u32" and not r_bc.pc_params(q) and any("&mut " in t and "Decoder" in t for t in r_bc.params(q))

    def label(self, n, w):
        """which written operand: its place among those of the instruction"""
        k = (n.op, id(n.g), w)
        if k not in self.labels:
            self.labels[k] = len([q for q in self.labels if q[:2] == k[:2]])
        return (n.g.f.short, self.labels[k])

    def tokens(self, fid, atoms, V):
        out = set()
        for a in atoms:
            if a[0] == "read":
                out |= self.tok.get((fid, a[1], V), set()) | self.tok.get((fid, a[1], "Atom"), set())
        return out

    def composed(self, V):
        """what the instruction fields and pools of an opcode are decoded from"""
        v = View(self.gn, self.Dn, self.pn.states(V))
        out = {}
        x = v.x
        for b in v.blocks:
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and own_name(s[2][1].get("p")) == "Instr":
                    a = self.db.adts[s[2][1]["p"]]
                    for k, o in enumerate(s[2][2]):
                        out.setdefault(("Instr", a["vars"][0][2][k][0]), set()).update(v.prov(o))
        for (own, fld), ws in v.fieldmut.items():
            for w in ws:
                ps = rv_places(w[2]) if w[0] == "s" else [o[1] for o in w[2] if o[0] != "c"]
                for p in ps:
                    out.setdefault(("DecodedProgram", fld), set()).update(v.prov_place(p))
        return {k: (self.tokens(self.dec.id, a, V), a) for k, a in out.items()}

    def effects(self, V):
        e1 = Effects(self.db, View(self.gd, self.Dd, self.pd.states(V)), None)
        e2 = Effects(self.db, View(self.gp, self.Dd, self.pp.states(V)), None)
        comp = self.composed(V)
        def name1(at):
            return self.tokens(self.direct.id, at, V)
        def name2(at):
            out = set()
            for a in at:
                if a in comp:
                    out |= comp[a][0]
                    for q in comp[a][1]:
                        if q[0] == "Decoder":
                            out |= comp.get(("DecodedProgram", q[1]), (set(),))[0]
            return out
        def conv(e, nm):
            return {k: [(b, {o: nm(at) for o, at in d.items()}) for b, d in ss] for k, ss in e.eff.items()}
        return conv(e1, name1), conv(e2, name2)


class Guards:
    """what has been established about the running program where a block is reached"""
    def __init__(self, v, db):
        self.v, self.db = v, db
        g, x = v.g, v.x
        succ = {}
        for s in v.states:
            succ[s] = [n for n in g.succ(s) if n in v.states]
        # a dispatcher's own choice keeps one way only
        self.succ = succ
        self.memo = {}
        self.desc = {}
        for b in v.blocks:
            t = x.bbs[b]["t"]
            if t[0] == "switch":
                d = self.describe(b, t)
                if d is not None:
                    self.desc[b] = d

    def describe(self, b, t):
        x = self.v.x
        e = expr_of(x, t[1])
        neg = False
        while e[0] == "un" and "Not" in str(e[1]):
            e, neg = e[2], not neg
        if e[0] == "call":
            nm = lname(e[1])
            if e[1] in self.db.fns or e[1].startswith("eucalypt::"):
                return (nm, neg)
        if e[0] == "bin" and e[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            ns = sorted({lname(q[1]) for s in (e[2], e[3]) for q in subexprs(s) if q[0] == "call" and (q[1] in self.db.fns or lname(q[1]) == "len")})
            if ns:
                o = e[1]
                if o == "Ne":
                    return ("==" + ",".join(ns), not neg)
                return ({"Eq": "=="}.get(o, o) + ",".join(ns), neg)
        return None

    def doms(self):
        if not hasattr(self, "_d"):
            pred = {}
            for s, ns in self.succ.items():
                for n in ns:
                    pred.setdefault(n, []).append(s)
            self.pred = pred
            self._d = dominators(list(self.succ), self.v.g.start, lambda n: pred.get(n, []), lambda n: self.succ[n]).idom
        return self._d

    def at(self, s):
        idom = self.doms()
        out = set()
        n = s
        while n != self.v.g.start and n in idom:
            p = idom[n]
            b = p[0]
            if b in self.desc and len(self.pred.get(n, [])) == 1 and len({q[0] for q in self.succ[p]}) > 1:
                t = self.v.x.bbs[b]["t"]
                nm, neg = self.desc[b]
                one = {int(a): k for a, k in t[3]}
                v = 1 if (one.get(1, t[4]) == n[0]) else 0
                out.add((nm, v ^ int(neg)))
            n = p
        return frozenset(out)

    def of(self, b):
        return {self.at(s) for s in self.v.states if s[0] == b}


def must(G, sites):
    """what is established at every site of an effect"""
    out = None
    for b in sites:
        for q in G.of(b):
            out = q if out is None else out & q
    return out or frozenset()


def op_names(v):
    """opcodes that constants on these paths name"""
    x = v.x
    out = set()

    def look(body, blocks):
        for b in blocks:
            for s in body[b]["s"]:
                if s[0] == "=" and s[2][0] == "agg" and own_name(s[2][1].get("p")) == "Op" and "opcode" in str(s[2][1].get("p")):
                    out.add(s[2][1].get("vn") if isinstance(s[2][1].get("vn"), str) else s[2][1].get("v"))
    look(x.bbs, v.blocks)
    for b in v.blocks:
        c = v.g.calls.get(b)
        for o in (c.args if c is not None else []):
            out.update(r_bc.op_consts(x, b, o))
    return out


WORDS = {"push": "pushes the continuation", "set": "writes", "call": "does", "fail": "fails with"}


def compare(r, key, a, b, names, where_):
    """a, b: (effects with named operands, guards) of the two sides"""
    ea, Ga = a
    eb, Gb = b
    na = {n for n in ea if n[0] != "~"}
    nb = {n for n in eb if n[0] != "~"}
    only_a, only_b = na - nb, nb - na
    pair = {}
    pa, pb = [n for n in only_a if n.startswith("push")], [n for n in only_b if n.startswith("push")]
    if len(pa) == 1 and len(pb) == 1:
        pair[pa[0]] = pb[0]
    ga, gb = names
    for n in sorted(na | nb):
        if n in EXEMPT or n in pair.values():
            continue
        m = pair.get(n, n)
        k = "%s:%s" % (key, n.replace(" ", "-"))
        if n not in ea or m not in eb:
            r.ob(k, False, "%s does '%s', %s does not" % ((ga, n, gb) if n in ea else (gb, m, ga)), where_)
            continue
        r.ob(k, True, "", where_)
        fa, fb = must(Ga, [q for q, _ in ea[n]]), must(Gb, [q for q, _ in eb[m]])
        if n not in UNGUARDED:
            r.ob(k + ":when", fa == fb, "'%s' happens under %s in %s and under %s in %s" % (n, sorted(fa) or "no condition", ga, sorted(fb) or "no condition", gb), where_)
        oa, ob_ = {}, {}
        for src, dst in ((ea[n], oa), (eb[m], ob_)):
            for _, d in src:
                for o, t in d.items():
                    dst.setdefault(o, set()).update(t)
        for o in sorted(set(oa) & set(ob_), key=str):
            if (oa[o] or ob_[o]) and not (n.startswith("fail") and not key.startswith("case:")):
                r.ob(k + ":%s" % o, same(oa[o], ob_[o], key), "operand %s of '%s' is made from %s in %s and from %s in %s" % (o, n, show(oa[o]), ga, show(ob_[o]), gb), where_)


def same(a, b, key):
    if key.startswith("case:"):
        return {t for t in a if t[0] == "the case"} == {t for t in b if t[0] == "the case"}
    return bool(a & b)


EXEMPT = {"call arg_ref"}          # reading an operand from the byte stream; the other mode has read it before
UNGUARDED = {"call set_annotation"}  # the pre-decoded mode has one place for what the direct mode does per opcode


def show(ts):
    return ", ".join(sorted("operand %s of %s" % (t[1][1], t[0]) for t in ts)) or "no operand"


TABLE = {"branch_table": "table", "branch_start": "table", "branch_len": "table"}


def arms(r, db):
    """what happens on return to a case expression, in the two forms its continuation has"""
    adt = next((a for a in db.adts if a.endswith("::bytecode::cont::BcContinuation") or a.endswith("BcContinuation")), None)
    if adt is None:
        r.note("no continuation type")
        return
    vs = {v[0]: int(v[1]) for v in db.adts[adt]["vars"]}
    a, b = "Branch", "BranchPredecoded"
    if a not in vs or b not in vs:
        r.note("the case continuations are not told apart")
        return
    cx = r_bc.Ctx.__new__(r_bc.Ctx)
    cx.db, cx.prims, cx.OPS = db, {}, {}
    n = 0
    for f in sorted((f for f in db.fns.values() if r_bc.code_mod(f) and f.kind != "closure"), key=lambda f: f.id):
        if not any("BcMachineState" in p for p in r_bc.params(f)):
            continue
        T = f.r["T"]
        if not any(s[0] == "=" and s[2][0] == "discr" and "BcContinuation" in T.s(T.peel(s[2][2])) for bb in f.bbs for s in bb["s"] if len(s) > 2 and s[0] == "=" and s[2][0] == "discr" and s[2][2] is not None):
            continue
        D, _ = cx.dec(lambda q: r_bc.code_mod(q) and not any("BcMachineState" in p for p in r_bc.params(q)) and ERR not in q.r["T"].s(q.ty(0)))
        g = D.gram(f.id)
        d = Disp(g, vs, r"BcContinuation$")
        if d.key is None or not any(int(q) in (vs[a], vs[b]) for bb in d.cand if d.cand[bb] == d.key for q, _ in g.x.bbs[bb]["t"][3]):
            continue
        n += 1
        sides = []
        for v in (a, b):
            w = View(g, D, d.states(v))
            e = Effects(db, w, None)

            def nm(at):
                return {("the case", (0, TABLE.get(q[1], q[1]))) for q in at if q[0] == "BcContinuation"} | {("the machine", (0, q[1])) for q in at if q[0] == "BcMachineState"}
            sides.append(({k: [(bb, {o: nm(at) for o, at in dd.items()}) for bb, dd in ss] for k, ss in e.eff.items()}, Guards(w, db)))
        compare(r, "case:%s" % f.short, sides[0], sides[1], ("the direct mode", "the pre-decoded mode"), where(f))
    r.count("steps that return to a case", n)


def b02(r, db):
    r.rules += ["for every opcode, the arms of the direct and of the pre-decoded dispatcher push the same continuations, write the same machine state, call the same shared steps and fail with the same errors, under the same tested conditions",
                "each operand of those effects is made from the same written operands in both modes, composed through the pre-decoded instruction fields and pools"]
    M = Modes(r, db)
    if not M.ok:
        r.count("opcodes compared", 0)
        return
    V0 = {}
    n = 0
    for V in sorted(M.C.OPS):
        v1, v2 = View(M.gd, M.Dd, M.pd.states(V)), View(M.gp, M.Dd, M.pp.states(V))
        if not any(t in M.C.byop for t in (V,)):
            r.note("no code writes %s" % V)
        if V == "Ann":
            continue
        n += 1
        e1, e2 = M.effects(V)
        G1, G2 = Guards(v1, db), Guards(v2, db)
        w = where(M.pre)
        compare(r, V, (e1, G1), (e2, G2), ("the direct mode", "the pre-decoded mode"), w)
        rd = {lname(p) for p in M.C.prims} | {"code"}
        c1 = {k for q in G1.desc.values() for k in re.findall(r"\w+", q[0].lstrip("=<>GLte"))}
        c2 = {k for q in G2.desc.values() for k in re.findall(r"\w+", q[0].lstrip("=<>GLte"))} - rd
        c1 -= rd
        r.ob("%s:conditions" % V, c1 == c2, "conditions looked at: direct %s, pre-decoded %s" % (sorted(c1 - c2), sorted(c2 - c1)), w)
        o1, o2 = op_names(v1), op_names(v2)
        r.ob("%s:opcodes-tested" % V, o1 == o2, "opcodes tested for: direct %s, pre-decoded %s" % (sorted(o1), sorted(o2)), w)
    arms(r, db)
    r.count("opcodes compared", n)
    r.count("steps shared by both modes", len(M.shared))


class Quiet:
    """a grammar without tokens, so that slices go through every call"""
    def __init__(self, g):
        self.g = g
        self.x, self.calls, self.th, self.start, self.f = g.x, g.calls, g.th, g.start, g.f
        self.tok = {}

    def succ(self, s):
        return self.g.succ(s)


def written(M, V):
    """(instruction writer, operand) -> names of the parts of the tree it is written from"""
    out = {}
    views = {}
    for n in M.C.byop.get(V, []):
        if id(n.g) not in views:
            views[id(n.g)] = View(Quiet(n.g), None, set(n.g.th.succs))
        v = views[id(n.g)]
        # the blocks that belong to this node
        for (op, gid, w), k in M.labels.items():
            if op != V or gid != id(n.g):
                continue
            c = n.g.calls.get(w)
            if c is None or len(c.args) < 2:
                continue
            at = v.prov(c.args[-1])
            names = set()
            for a in at:
                if a[0] == "StgSyn":
                    names.add(str(a[1]))
                elif a[0] == "arg" and not any(q[0] == "StgSyn" for q in at):
                    nm = n.g.f.lname(a[1])
                    if nm and not re.search("Encoder", n.g.f.r["T"].s(n.g.f.ty(a[1]))):
                        names.add(nm)
            out.setdefault((V, (n.g.f.short, k)), set()).update(names)
    return out


def namesake(x, o, d=6):
    """names of the variables an operand's value passes through unchanged"""
    out = set()
    l = o[1][0] if o[0] != "c" and not o[1][1] else None
    while l is not None and d:
        d -= 1
        nm = x.lname(l)
        if nm:
            out.add(nm)
        ds = [q for q in x.defs().get(l, []) if q[1] != "a"]
        if len(ds) != 1 or ds[0][1] == "t" or ds[0][2][0] not in ("use", "cast"):
            break
        o = ds[0][2][1] if ds[0][2][0] == "use" else ds[0][2][2]
        l = o[1][0] if o[0] != "c" and not o[1][1] else None
    return out


HEAD = ("scrutinee", "left")


def uses(r, db, M):
    """a written part of an instruction is put to the use of its own name"""
    n = 0
    for V in sorted(M.C.OPS):
        lab = written(M, V)
        lab = {k: v for k, v in lab.items() if 0 < len(v) <= 2}
        F = set().union(*lab.values()) if lab else set()
        if len(F) < 1:
            continue
        v = View(M.gd, M.Dd, M.pd.states(V))
        e = Effects(db, v, None)
        for nm, ss in sorted(e.eff.items()):
            got = {}
            for b, d in ss:
                for o, at in d.items():
                    ts = M.tokens(M.direct.id, at, V)
                    L = set()
                    for t in ts:
                        if t[0] == V:
                            L |= lab.get((V, t[1]), set())
                    if isinstance(o, int) and nm.startswith("call"):
                        c = v.g.calls.get(b)
                        hs = [db.fns[t] for t in db.targets(c) if t in db.fns] if c is not None else []
                        o = hs[0].lname(o + 1) if len(hs) == 1 else None
                    if isinstance(o, str) and o not in F and o.split("_")[0] in F:
                        o = o.split("_")[0]
                    got.setdefault(o, set()).update(L)
            for o, L in got.items():
                if not L:
                    continue
                key = "use:%s:%s:%s" % (V, nm.replace(" ", "-"), o)
                if nm == "set state.current":
                    h = next((k for k in HEAD if k in F), None)
                    if h is not None:
                        n += 1
                        r.ob(key, L == {h}, "%s evaluates its %s first, not its %s" % (V, "/".join(sorted(L)), h), where(M.direct))
                    elif "body" in F:
                        n += 1
                        r.ob(key, "body" in L, "%s goes on with its %s, not its body" % (V, "/".join(sorted(L))), where(M.direct))
                elif nm == "call set_annotation":
                    n += 1
                    r.ob(key, L == {"smid"}, "%s takes its %s for a source position" % (V, "/".join(sorted(L))), where(M.direct))
                elif o in F:
                    n += 1
                    r.ob(key, o in L, "the %s of %s is made from what was written as its %s" % (o, V, "/".join(sorted(L))), where(M.direct))
    r.count("uses of written parts", n)
    # records read as a whole
    m = 0
    for D, g in ((M.Dd, M.gd), (M.Dn, M.gn)):
        x = g.x
        v = View(g, D, set(g.th.succs))
        back = {}
        for (fid, q, V), ts in M.tok.items():
            if fid == g.f.id:
                back.setdefault(q, set()).update(ts)
        wr = {}
        for (op, gid, w), k in M.labels.items():
            nd = next(q for q in M.C.byop[op] if id(q.g) == gid)
            c = nd.g.calls.get(w)
            if c is not None and len(c.args) > 1:
                wr.setdefault((op, (nd.g.f.short, k)), set()).update(namesake(nd.g.x, c.args[-1]))
        for b in sorted(v.blocks):
            for s in x.bbs[b]["s"]:
                if s[0] != "=" or s[2][0] != "agg" or own_name(s[2][1].get("p")) != "FormHeader":
                    continue
                fs = [q[0] for q in db.adts[s[2][1]["p"]]["vars"][0][2]]
                for k, o in enumerate(s[2][2]):
                    names = set()
                    for a in v.prov(o):
                        if a[0] == "read":
                            for t in back.get(a[1], ()):
                                names |= wr.get(t, set()) & set(fs)
                    if names:
                        m += 1
                        r.ob("record:%s:%s" % (g.f.short, fs[k]), fs[k] in names, "the %s of a form is read from where its %s is written" % (fs[k], "/".join(sorted(names))), where(g.f))
    r.count("record fields read", m)


EXEMPT_PARTS = {("FusedPrimop", "inner")}   # the unfused form of the same operation, for the other consumers


def kept(r, db, M):
    """every part of a tree node is written"""
    adt = next((a for a in db.adts if a.endswith("::StgSyn")), None)
    if adt is None:
        return
    F = {v[0]: [q[0] for q in v[2]] for v in db.adts[adt]["vars"]}
    n = 0
    for V in sorted(M.C.OPS):
        if V not in F or not F[V] or V in M.C.lost:
            continue
        lab = written(M, V)
        names = set().union(*[v for v in lab.values() if len(v) <= 2]) if lab else set()
        if not names & set(F[V]):
            continue    # written from the parts handed to it
        tested = set()
        for nd in M.C.byop.get(V, []):
            x = nd.g.x
            for b in x.reach:
                for s in x.bbs[b]["s"]:
                    if s[0] == "=":
                        for p in rv_places(s[2]):
                            for k, e in enumerate(p[1]):
                                if e[0] == "f" and len(e) > 3 and str(e[3]).endswith("StgSyn") and k and p[1][k - 1][0] == "d" and p[1][k - 1][2] == V:
                                    tested.add((e[2], s[1][0], nd))
        for q in F[V]:
            if (V, q) in EXEMPT_PARTS:
                continue
            ok = q in names
            if not ok:
                ok = any(t[0] == q and switched(t[2].g.x, t[1]) for t in tested)
            n += 1
            r.ob("kept:%s:%s" % (V, q), ok, "the %s of a %s is not written into its instruction" % (q, V), where(M.C.byop[V][0].g.f))
    r.count("parts of tree nodes written", n)
    own = {}
    disc = {int(v[1]): v[0] for v in db.adts[adt]["vars"]}
    for nd in M.C.nodes:
        x = nd.g.x
        dom = x.dom()[nd.here[0]]
        for b in dom:
            t = x.bbs[b]["t"]
            if t[0] != "switch" or t[1][0] == "c" or t[1][1][1]:
                continue
            for bb, i, rv in x.defs().get(t[1][1][0], []):
                if i in ("a", "t") or rv[0] != "discr" or not x.r["T"].s(rv[2]).endswith("::StgSyn"):
                    continue
                hit = {disc[int(v)] for v, m in t[3] if int(v) in disc and m in dom}
                if len(hit) == 1:
                    own.setdefault(nd.op, {}).setdefault(hit.pop(), nd)
    for op, vs in sorted(own.items()):
        r.ob("opcode:%s" % op, len(vs) == 1, "tree nodes of different kinds (%s) are written under the opcode %s" % (", ".join(sorted(vs)), op), where(list(vs.values())[0].g.f))
    r.count("opcodes written for one kind of node", len(own))


def switched(x, l):
    """a local's value (or what it refers to) decides a branch"""
    seen, st = set(), [l]
    while st:
        l = st.pop()
        if l in seen:
            continue
        seen.add(l)
        for b in x.reach:
            t = x.bbs[b]["t"]
            if t[0] == "switch" and t[1][0] != "c" and t[1][1][0] == l:
                return True
            for s in x.bbs[b]["s"]:
                if s[0] == "=" and any(p[0] == l for p in rv_places(s[2])):
                    st.append(s[1][0])
    return False


def came_from(x, o, d=8):
    """block of the call an operand's value comes from, unchanged but for a cast"""
    while d and o[0] != "c":
        d -= 1
        if o[1][1]:
            return None
        ds = [q for q in x.defs().get(o[1][0], []) if q[1] != "a"]
        if len(ds) != 1:
            return None
        if ds[0][1] == "t":
            return ds[0][0]
        rv = ds[0][2]
        if rv[0] not in ("use", "cast", "ref"):
            return None
        o = rv[1] if rv[0] == "use" else rv[2] if rv[0] == "cast" else ["cp", rv[2]]
        if o[0] != "c" and o[1][1] == [["*"]]:
            o = ["cp", [o[1][0], []]]
    return None


def is_smid(x, o):
    return o[0] != "c" and re.sub(r"^&(mut )?", "", x.r["T"].s(x.ty(o[1][0]))).split("::")[-1] == "Smid"


def positions(r, C, D, matched):
    """what is read as a source position is what was written as one"""
    n = 0
    smid_w = {}
    for (fid, rb, V), m in sorted(matched.items()):
        g = D.gram(fid)
        x = g.x
        reads = set()
        for b, c in g.calls.items():
            if c.dest and is_smid(x, ["cp", c.dest]) and len(c.args) == 1:
                q = came_from(x, c.args[0])
                if q is not None:
                    reads.add(q)
        for (nd, w), qs in sorted(m.items(), key=lambda t: str(t[0][1])):
            if not qs & reads:
                continue
            k = (id(nd.g), w)
            if k not in smid_w:
                y = nd.g.x
                c = nd.g.calls.get(w)
                o, yes = (c.args[-1] if c is not None and c.args else None), None
                for _ in range(10):
                    if o is None or o[0] == "c":
                        break
                    if is_smid(y, o):
                        yes = True
                        break
                    yes = False
                    b = came_from(y, o)
                    cc = nd.g.calls.get(b) if b is not None else None
                    o = cc.args[0] if cc is not None and len(cc.args) == 1 else None
                smid_w[k] = yes
            if smid_w[k] is None:
                continue
            n += 1
            r.ob("position:%s:%s" % (g.f.short, V), smid_w[k], "%s of %s is read as a source position and written as something else" % ("an operand", V), where(g.f, x.bbs[sorted(qs & reads)[0]]["t"][5]))
    r.count("source positions read", n)


def b01(r, db):
    res = r_bc.b01(r, db)
    r.rules.append("every part of a tree node is written into its instruction, and what is read as a source position was written as one")
    if res:
        positions(r, res[0], res[2], res[1])
    r.rules.append("a part of an instruction is put to the use of its own name: what the encoder wrote as the body of a Seq is what the dispatcher makes the body of the pushed continuation from, what it wrote first is what is evaluated first")
    M = Modes(Mute(r), db)
    if M.ok:
        kept(r, db, M)
        uses(r, db, M)


class Mute:
    """the matching is reported once, by r_bc"""
    def __init__(self, r):
        self.r = r

    def ob(self, *a, **k):
        pass

    def note(self, *a):
        pass

    def __getattr__(self, n):
        return getattr(self.r, n)
