"""Grammars of byte streams: what a writer function appends to a byte vector and what a reader function takes from a
byte slice, as automata over tokens of known width, read off the path-sensitive control flow of the functions with
their helpers in place; and inclusion of the one in the other."""
import re
from db import *
import inl
from thread import Threads


def lname(p):
    return last(strip_generics(p or ""))


def peel(e):
    while True:
        if e[0] in ("ref", "deref"):
            e = e[1]
        elif e[0] == "pcast":
            e = e[1]
        elif e[0] == "call" and lname(e[1]) in ("as_slice", "as_ref", "as_mut_slice", "deref", "borrow") and e[2]:
            e = e[2][0]
        else:
            return e


WIDTH = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16, "usize": 8, "isize": 8}


def prim_of(path):
    m = re.search(r"<impl (\w+)>", path)
    return m.group(1) if m else None


class Loops(inl.Expander):
    """also runs the closures of a mapped iterator that is collected"""
    def c_Iterator_collect(self, b, t, c, fam):
        x = self.x
        o = c.args[0]
        ops = []
        while o is not None and o[0] in ("cp", "mv") and not o[1][1]:
            ds = x.defs().get(o[1][0], [])
            if len(ds) != 1 or ds[0][1] == "a":
                return False
            bb, i, rv = ds[0]
            if i == "t":
                k = Call(x, bb, rv)
                if lname(k.path) == "map" and "Iterator" in k.path and self.known(k.args[1]):
                    ops.append(k)
                    break
                return False
            o = rv[1] if rv[0] == "use" else None
        if not ops:
            return False
        k = ops[0]
        h, y, n, el = self.loop(b, t, k.args[0])
        g = self.closure_of(k.args[1])
        rt = g.r["T"].s(g.ty(0))
        r = self.new_local(g.ty(0) if g.r["T"] is x.r["T"] else 0)
        m = self.new_block(b, [], ["unreach"])
        self.clo_call(y, k.args[1], [el], [r, []], m, t[5])
        dt = x.r["T"].s(x.ty(t[3][0]))
        if rt.startswith("std::result::Result") and dt.startswith("std::result::Result"):
            d = self.new_local(0)
            e = self.new_block(b, [], ["unreach"])
            un = self.new_block(b, [], ["unreach"])
            x.bbs[m]["s"].append(["=", [d, []], ["discr", [r, []], g.ty(0)], t[5]])
            x.bbs[m]["t"] = ["switch", ["mv", [d, []]], 0, [[0, h], [1, e]], un, t[5], None]
            self.put(e, t[3], self.variant("Result", False, [["mv", [r, [["d", 1, "Err"], ["f", 0, "0", "std::result::Result"]]]]]), t[4], t[5])
            self.put(n, t[3], self.variant("Result", True, [k.args[0]]), t[4], t[5])
        else:
            x.bbs[m]["t"] = ["goto", h]
            self.put(n, t[3], ["use", k.args[0]], t[4], t[5])
        return True


def promoted_bytes(f, i):
    """the bytes of a promoted constant array"""
    ps = f.r.get("promoted") or []
    if i is None or i >= len(ps):
        return None
    out = None
    for b in ps[i]["bbs"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "array":
                ks = [o[1].get("v") if o[0] == "c" else None for o in s[2][2]]
                if out is not None or any(k is None for k in ks):
                    return None
                out = [int(k) for k in ks]
    return out


class Gram:
    """automaton of one function; states are those of Threads, edges carry at most one token"""
    def __init__(self, side, f):
        self.side, self.f = side, f
        self.x = side.expanded(f)
        x = self.x
        self.calls = {c.bb: c for c in x.calls()}
        extra = {0}
        for c in self.calls.values():
            for a in side.watched(x, c):
                if a[0] in ("cp", "mv") and not a[1][1]:
                    extra.add(a[1][0])
        self.th = Threads(x, 60000, extra=extra)
        self.tok = {}
        self.start = (0, ())

    def token(self, s):
        """token of the block of state s: None, or a tuple"""
        b = s[0]
        c = self.calls.get(b)
        if c is None:
            return None
        if b not in self.tok:
            self.tok[b] = self.side.classify(self, c)
        t = self.tok[b]
        if t is not None and t[0] == "b" and t[1] == "?":
            v = self.th.at_end(s)
            a = t[3]
            k = v.get(a[1][0]) if a[0] != "c" and not a[1][1] else None
            return ("b", k[1] if k is not None and k[0] == "k" else None, t[2])
        return t

    def end(self, s):
        """None when the state does not return; else 'ok' or 'err'"""
        t = self.x.bbs[s[0]]["t"]
        if t[0] != "ret":
            return None
        v = self.th.at_end(s).get(0)
        rt = self.x.r["T"].s(self.x.ty(0))
        if rt.startswith("std::result::Result") and v == ("v", 1):
            return "err"
        if rt.startswith("std::option::Option") and v == ("v", 0):
            return "err"
        return "ok"

    def succ(self, s):
        return self.th.succs.get(s, ())


class Side:
    def __init__(self, db, want, again=None):
        self.db, self.want, self.again = db, want, again
        self.grams = {}

    def expanded(self, f):
        return inl.expand(f, self.want, 16, True, again=self.again, cls=Loops)

    def gram(self, fid):
        if fid not in self.grams:
            self.grams[fid] = Gram(self, self.db.fns[fid])
        return self.grams[fid]


def piece(x, a):
    """a byte that is cut out of a wider number: an element of to_*_bytes, or a shift"""
    st, seen = [a], set()
    while st:
        o = st.pop()
        if o[0] == "c" or o[1][0] in seen or len(seen) > 60:
            continue
        l = o[1][0]
        seen.add(l)
        for b, i, d in x.defs().get(l, []):
            if i == "a":
                continue
            if i == "t":
                n = lname(d[1].get("p") or "")
                if re.match(r"to_(le|be|ne)_bytes$", n):
                    return True
                if n in ("next", "into_iter", "iter", "index", "copied", "cloned", "rev", "unwrap", "clone", "get"):
                    st += list(d[2])[:1]
                continue
            if d[0] == "bin":
                if d[1].startswith("Shr"):
                    return True
                continue
            if d[0] == "use":
                st.append(d[1])
            elif d[0] == "cast":
                st.append(d[2])
            elif d[0] in ("ref", "raw"):
                st.append(["cp", d[2]])
    return False


class Writer(Side):
    """appends to a Vec<u8>"""
    def watched(self, x, c):
        if lname(c.path) == "push" and "vec::Vec" in c.path and len(c.args) == 2:
            return [c.args[1]]
        return []

    def is_buf(self, x, a):
        if a[0] == "c":
            return False
        return is_buffer(x, a[1][0]) and not a[1][1]

    def classify(self, g, c):
        x = g.x
        n = lname(c.path)
        if c.args and self.is_buf(x, c.args[0]) and "alloc" not in n:
            if n == "push":
                e = peel(expr_of(x, c.args[1]))
                if e[0] == "const":
                    try:
                        return ("b", int(e[1]), e)
                    except (TypeError, ValueError):
                        pass
                a = c.args[1]
                if piece(x, a):
                    return ("?", "one byte of a wider number")
                return ("b", "?", e, a)
            if n in ("extend_from_slice", "extend", "write_all", "write", "append"):
                return self.slice(x, c, c.args[1])
            if n in ("len", "index_mut", "index", "with_capacity", "reserve", "deref_mut", "deref", "as_slice", "as_ref", "is_empty", "capacity", "as_mut_slice", "clone", "get", "get_mut", "borrow", "iter", "copy_from_slice"):
                return None
            ts = self.db.targets(c)
            if not ts:
                return ("?", n)
        ts = self.db.targets(c)
        if len(ts) == 1 and any(self.is_buf(x, a) for a in c.args):
            return ("call", ts[0], c)
        if len(ts) == 1:
            h = self.db.fns[ts[0]]
            if any(is_buffer(h, i + 1) and "&mut" in h.r["T"].s(h.ty(i + 1)) for i in range(h.argc)):
                return ("call", ts[0], c)
        return None

    def slice(self, x, c, a):
        e = peel(expr_of(x, a))
        if e[0] == "call" and re.match(r"to_(le|be|ne)_bytes$", lname(e[1])):
            p = prim_of(e[1])
            if p in WIDTH:
                v = e[2][0]
                if v[0] == "call" and lname(v[1]) == "to_bits":
                    p, v = {"u64": "f64", "u32": "f32"}[p], v[2][0]
                return ("n", WIDTH[p], lname(e[1])[3:5], p, v)
        if e[0] == "kconst" and len(e) > 2 and e[2] is not None:
            org = x.org[c.bb] if getattr(x, "org", None) and c.bb in x.org else x
            k = promoted_bytes(org, e[2])
            if k is not None and len(k) == 1:
                return ("b", k[0], ("const", k[0]))
        if e[0] == "agg" and e[1][0] == "array":
            k = peel(e[2][0]) if len(e[2]) == 1 else ("?",)
            if k[0] == "const":
                return ("b", int(k[1]), k)
            return ("n", len(e[2]), "le", None, e)
        return ("bytes", e)


class Reader(Side):
    """takes from a `&mut &[u8]` through a function that is given a number of bytes"""
    def __init__(self, db, want, prims, again=None):
        Side.__init__(self, db, want, again)
        self.prims = prims
        self.srcs = {}

    def watched(self, x, c):
        ts = self.db.targets(c)
        if len(ts) == 1 and ts[0] in self.prims:
            return [c.args[self.prims[ts[0]]]]
        return []

    def classify(self, g, c):
        x = g.x
        n = lname(c.path)
        ts = self.db.targets(c)
        if len(ts) == 1 and ts[0] in self.prims:
            e = peel(expr_of(x, c.args[self.prims[ts[0]]]))
            if e[0] == "const":
                w = int(e[1])
                return ("b", None, e) if w == 1 else ("n", w, None, None, e)
            return ("bytes", e)
        if n in ("split_first", "split_at", "split_at_checked", "split_first_chunk") and c.args and "[u8]" in x.r["T"].s(x.ty(c.args[0][1][0]) if c.args[0][0] != "c" else 0):
            if n == "split_first":
                return ("b", None, ("const", 1))
            return ("?", n)
        if len(ts) == 1:
            h = self.db.fns[ts[0]]
            if any(is_cursor(h, i + 1) for i in range(h.argc)):
                return ("call", ts[0], c)
        return None

    def sources(self, g, o, depth=40):
        """token blocks an operand's value is read from"""
        x = g.x
        key = (g.f.id, str(o))
        if key in self.srcs:
            return self.srcs[key]
        out, seen = set(), set()
        st = [o[1][0]] if o[0] != "c" else []
        while st:
            l = st.pop()
            if l in seen:
                continue
            seen.add(l)
            for b, i, rv in x.defs().get(l, []):
                if i == "a":
                    continue
                if i == "t":
                    c = g.calls.get(b)
                    if c is None:
                        continue
                    if b not in g.tok:
                        g.tok[b] = self.classify(g, c)
                    if g.tok[b] is not None:
                        out.add(b)
                        continue
                    st.extend(a[1][0] for a in c.args if a[0] != "c")
                else:
                    for p in rv_places(rv):
                        st.append(p[0])
        self.srcs[key] = out
        return out

    def bytes_of(self, g, t):
        """constants a switch on equality with a byte distinguishes"""
        x = g.x
        out = set()
        if x.r["T"].s(x.ty(t[1][1][0])) == "bool":
            for b, i, rv in x.defs().get(t[1][1][0], []):
                if i not in ("a", "t") and rv[0] == "bin":
                    out |= {int(o[1]["v"]) for o in (rv[2], rv[3]) if o[0] == "c" and "v" in o[1]}
        return out | {256}

    def byte_switch(self, g, s):
        """for a switch on a byte that was read: (token block, function from byte to the targets)"""
        x = g.x
        t = x.bbs[s[0]]["t"]
        if t[0] != "switch" or t[1][0] == "c":
            return None
        l = t[1][1][0]
        ty = x.r["T"].s(x.ty(l)) if not t[1][1][1] else "u8" if t[1][1][1][-1][0] in ("ci", "i") else ""
        if ty == "u8":
            bs = self.sources(g, t[1])
            if len(bs) == 1 and g.tok[next(iter(bs))][0] == "b":
                return next(iter(bs)), lambda k: next((n for v, n in t[3] if int(v) == k), t[4])
            return None
        if ty == "bool":
            for b, i, rv in x.defs().get(l, []):
                if i in ("a", "t") or rv[0] != "bin" or rv[1] not in ("Eq", "Ne"):
                    return None
                a, k = (rv[2], rv[3]) if rv[3][0] == "c" else (rv[3], rv[2])
                if k[0] != "c" or a[0] == "c" or x.r["T"].s(x.ty(a[1][0])) != "u8" and not a[1][1]:
                    return None
                bs = self.sources(g, a)
                if len(bs) != 1 or g.tok[next(iter(bs))][0] != "b":
                    return None
                kv = int(k[1].get("v"))
                eq = rv[1] == "Eq"
                return next(iter(bs)), lambda q: next((n for v, n in t[3] if int(v) == int((q == kv) == eq)), t[4])
        return None


def is_buffer(h, i):
    return re.search(r"(^|[ :<])Vec<u8[,>]", h.r["T"].s(h.ty(i))) is not None


def is_cursor(h, i):
    s = h.r["T"].s(h.ty(i))
    return s.replace("'_ ", "").replace(" ", "").startswith("&mut&") and s.replace(" ", "").endswith("[u8]")


class Incl:
    """language of writer function w within that of reader function r"""
    def __init__(self, W, R, limit=40000):
        self.W, self.R, self.limit = W, R, limit
        self.pairs = {}
        self.todo = []
        self.fails = []          # (pair, kind, prefix, what, block)
        self.steps = 0
        self.tokens = set()
        self.matched = {}        # (writer function, block) -> {(byte, reader function, reader block)}
        self.last = {}
        self.follow = {}         # the same -> types of the fixed-width items written straight after it

    def need(self, w, r):
        if (w, r) not in self.pairs:
            self.pairs[(w, r)] = True
            self.todo.append((w, r))

    def run(self, w, r):
        self.need(w, r)
        while self.todo:
            self.pair(*self.todo.pop())
        return not self.fails

    # configurations: a stack of frames; writer frame (fid, state), reader frame (fid, state, bytes)
    def w_steps(self, cfg):
        """closure of a writer configuration: set of (token or 'end', configuration before it, configuration after)"""
        out = []
        seen = {cfg}
        st = [cfg]
        while st:
            c = st.pop()
            fid, s = c[-1]
            g = self.W.gram(fid)
            t = g.token(s)
            e = g.end(s)
            if e == "ok":
                if len(c) == 1:
                    out.append((("end",), c, None))
                    continue
                # return into the caller
                n = c[:-1]
                nxt = [n]
            elif e == "err":
                continue
            elif t is not None:
                for m in g.succ(s):
                    out.append((t, c, c[:-1] + ((fid, m),)))
                continue
            else:
                nxt = [c[:-1] + ((fid, m),) for m in g.succ(s)]
            for n in nxt:
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return out

    def r_closure(self, cfgs):
        """(configurations standing at a token, whether one may stand at the end, whether one failed)"""
        at, end, err = set(), False, False
        seen = set(cfgs)
        st = list(cfgs)
        while st:
            c = st.pop()
            fid, s, by = c[-1]
            g = self.R.gram(fid)
            e = g.end(s)
            if e == "ok":
                if len(c) == 1:
                    end = True
                    continue
                nxt = [c[:-1]]
            elif e == "err":
                err = True
                continue
            else:
                t = g.token(s)
                if t is not None:
                    at.add(c)
                    continue
                bs = self.R.byte_switch(g, s)
                d = dict(by)
                if bs is not None and bs[0] in d:
                    if d[bs[0]] is None:
                        nxt = [c[:-1] + ((fid, m, by),) for m in g.succ(s)]
                    else:
                        n = bs[1](d[bs[0]])
                        nxt = [c[:-1] + ((fid, m, by),) for m in g.succ(s) if m[0] == n]
                else:
                    nxt = [c[:-1] + ((fid, m, by),) for m in g.succ(s)]
            for n in nxt:
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        return at, end, err

    def after(self, c, byte=None):
        """reader configurations past the token c stands at"""
        fid, s, by = c[-1]
        g = self.R.gram(fid)
        d = dict(by)
        if g.token(s)[0] == "b":
            d[s[0]] = byte
        b2 = tuple(sorted(d.items(), key=str))
        return [c[:-1] + ((fid, m, b2),) for m in g.succ(s)]

    def pair(self, w, r):
        gw, gr = self.W.gram(w), self.R.gram(r)
        w0 = ((w, gw.start),)
        r0 = frozenset([((r, gr.start, ()),)])
        seen = {(w0, r0): ()}
        st = [(w0, r0)]
        while st:
            self.steps += 1
            if self.steps > self.limit:
                self.fails.append(((w, r), "limit", (), "too large", None))
                return
            cur = st.pop()
            wc, rs = cur
            pre = seen[cur]
            at, end, err = self.r_closure(rs)
            for tok, before, after in self.w_steps(wc):
                where = (before[-1][0], before[-1][1][0], before[-1][1])
                if tok[0] == "end":
                    if not end:
                        self.fails.append(((w, r), "longer", pre, "the reader goes on after the writer has ended", where))
                    continue
                k = tok[0]
                self.tokens.add((w, r, where))
                nr = set()
                if k == "call":
                    at_calls = [c for c in at if self.tok_r(c)[0] == "call"]
                    if at_calls:
                        for c in at_calls:
                            self.need(tok[1], self.tok_r(c)[1])
                            nr |= set(self.after(c))
                        lab = "V"
                    else:
                        # writer's callee in place
                        if len(before) > 3 or not at:
                            self.fails.append(((w, r), "call", pre, "the writer writes a value where the reader reads none", where))
                            continue
                        g2 = self.W.gram(tok[1])
                        n = (after + ((tok[1], g2.start),), frozenset(at))
                        if n not in seen:
                            seen[n] = pre
                            st.append(n)
                        continue
                if k == "n" and wc in self.last:
                    self.follow.setdefault(self.last[wc], set()).add(tok[3])
                if k == "call":
                    pass
                elif k == "?":
                    self.fails.append(((w, r), "unknown", pre, "`%s`" % tok[1], where))
                    continue
                else:
                    opn, hard = set(at), 0
                    flat, errs = set(), err
                    # readers standing at a call go in
                    while opn:
                        c = opn.pop()
                        t = self.tok_r(c)
                        if t[0] != "call":
                            flat.add(c)
                            continue
                        if len(c) > 3:
                            hard += 1
                            continue
                        fid, s, by = c[-1]
                        for m in self.after(c):
                            a2, e2, er2 = self.r_closure([m[:-1] + (m[-1], (t[1], self.R.gram(t[1]).start, ()))])
                            opn |= a2
                            errs = errs or er2
                    lab = k
                    if k == "b":
                        lab = "0x%02x" % tok[1] if tok[1] is not None else "byte"
                        for c in flat:
                            t = self.tok_r(c)
                            if t[0] == "b":
                                self.matched.setdefault(where, set()).add((tok[1], c[-1][0], c[-1][1][0]))
                                for n in self.after(c, tok[1]):
                                    nr.add(n)
                    elif k == "n":
                        lab = str(tok[1])
                        for c in flat:
                            t = self.tok_r(c)
                            if t[0] == "n" and t[1] == tok[1]:
                                nr |= set(self.after(c))
                    elif k == "bytes":
                        for c in flat:
                            if self.tok_r(c)[0] == "bytes":
                                nr |= set(self.after(c))
                    if nr and k == "b" and tok[1] is not None:
                        a3, e3, r3 = self.r_closure(nr)
                        if not a3 and not e3:
                            self.fails.append(((w, r), "refused", pre + (lab,), "the reader refuses %s" % lab, where))
                            continue
                if not nr:
                    self.fails.append(((w, r), "width", pre, "the writer writes %s, which the reader does not read there" % self.show(tok), where))
                    continue
                if k == "b":
                    self.last[after] = where
                n = (after, frozenset(nr))
                if n not in seen:
                    seen[n] = (pre + (lab,))[-6:]
                    st.append(n)

    def tok_r(self, c):
        fid, s, by = c[-1]
        return self.R.gram(fid).token(s)

    def show(self, t):
        return {"b": "a byte", "bytes": "a run of bytes", "call": "a value"}.get(t[0]) or "%d bytes" % t[1]
