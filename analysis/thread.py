"""Paths of a function told apart by the constants its own branches test: a state is a block together with the known
values of the locals that a later switch in the function looks at (flags, unit variants, results of earlier switches)."""
from db import operands, rv_places


class Threads:
    def __init__(self, f, limit=20000, extra=()):
        self.f = f
        self.limit = limit
        self.extra = set(extra)
        self.find_tracked()
        self.live_in()
        self.succs = {}
        self.by_block = {}
        self.exact = True
        st = [(0, ())]
        seen = {(0, ())}
        while st:
            s = st.pop()
            if len(seen) > limit:
                self.exact = False
                break
            self.by_block.setdefault(s[0], []).append(s)
            out = self.step(s)
            self.succs[s] = out
            for n in out:
                if n not in seen:
                    seen.add(n)
                    st.append(n)
        if not self.exact:
            self.succs = {}
            self.by_block = {b: [(b, ())] for b in f.reach}
            for b in f.reach:
                self.succs[(b, ())] = [(n, ()) for n in f.succ(b)]

    # locals whose value decides a switch, and those they are copied from
    def find_tracked(self):
        f = self.f
        taken = set()
        want = set()
        feeds = {}
        for b in f.reach:
            bb = f.bbs[b]
            for s in bb["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] in ("ref", "raw") and not (rv[0] == "ref" and rv[1] in ("shared", "fake")):
                    taken.add(rv[2][0])
                if not s[1][1]:
                    if rv[0] == "use" and rv[1][0] in ("cp", "mv") and not rv[1][1][1]:
                        feeds.setdefault(s[1][0], set()).add(rv[1][1][0])
                    elif rv[0] == "un" and rv[2][0] in ("cp", "mv") and not rv[2][1][1]:
                        feeds.setdefault(s[1][0], set()).add(rv[2][1][0])
                    elif rv[0] == "discr" and not rv[1][1]:
                        feeds.setdefault(s[1][0], set()).add(rv[1][0])
                    elif rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
                        for o in (rv[2], rv[3]):
                            if o[0] in ("cp", "mv") and not o[1][1]:
                                feeds.setdefault(s[1][0], set()).add(o[1][0])
            t = bb["t"]
            if t[0] == "switch" and t[1][0] in ("cp", "mv") and not t[1][1][1]:
                want.add(t[1][1][0])
            if t[0] == "call" and not t[3][1] and len(t[2]) == 1 and t[2][0][0] != "c" and not t[2][0][1][1] and (t[1].get("p") or "").endswith("Try::branch"):
                feeds.setdefault(t[3][0], set()).add(t[2][0][1][0])
        want |= self.extra
        st = list(want)
        while st:
            l = st.pop()
            for x in feeds.get(l, ()):
                if x not in want:
                    want.add(x)
                    st.append(x)
        self.tracked = want - taken

    def uses_of(self, b):
        """tracked locals read in the block before being written, and those written"""
        bb = self.f.bbs[b]
        rd, wr = set(), set()
        for s in bb["s"]:
            if s[0] == "=":
                for p in rv_places(s[2]):
                    if p[0] in self.tracked and p[0] not in wr:
                        rd.add(p[0])
                if not s[1][1] and s[1][0] in self.tracked:
                    wr.add(s[1][0])
            elif s[0] == "dead" and s[1] in self.tracked:
                wr.add(s[1])
        t = bb["t"]
        if t[0] == "switch" and t[1][0] in ("cp", "mv") and t[1][1][0] in self.tracked and t[1][1][0] not in wr:
            rd.add(t[1][1][0])
        if t[0] == "call":
            for a in t[2]:
                if a[0] != "c" and a[1][0] in self.tracked and a[1][0] not in wr:
                    rd.add(a[1][0])
        if t[0] == "ret":
            rd |= (self.extra & self.tracked) - wr
        return rd, wr

    def live_in(self):
        f = self.f
        uw = {b: self.uses_of(b) for b in f.reach}
        live = {b: set(uw[b][0]) for b in f.reach}
        ch = True
        order = sorted(f.reach, reverse=True)
        while ch:
            ch = False
            for b in order:
                n = set(uw[b][0])
                for s in f.succ(b):
                    n |= live[s] - uw[b][1]
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live

    def value(self, env, o):
        if o[0] == "c":
            v = o[1].get("v")
            return ("k", int(v)) if isinstance(v, (int, bool)) or isinstance(v, str) and v.lstrip("-").isdigit() else None
        if not o[1][1]:
            return env.get(o[1][0])
        return None

    def at_end(self, s):
        """what is known at the terminator of the state's block"""
        return self.body(s)[0]

    def body(self, s):
        f = self.f
        b, envt = s
        env = dict(envt)
        bb = f.bbs[b]
        same = {}
        for st in bb["s"]:
            if st[0] == "=":
                pl, rv = st[1], st[2]
                if pl[1]:
                    if pl[0] in env and len(pl[1]) == 0:
                        env.pop(pl[0])
                    continue
                l = pl[0]
                same = {k: v for k, v in same.items() if k != l and v[0] != l}
                if l not in self.tracked:
                    continue
                v = None
                if rv[0] == "use":
                    v = self.value(env, rv[1])
                    if v is None and rv[1][0] in ("cp", "mv") and not rv[1][1][1] and rv[1][1][0] in self.tracked:
                        same[l] = (rv[1][1][0], False)
                elif rv[0] == "un" and rv[1] == "Not":
                    v = self.value(env, rv[2])
                    bt = f.r["T"].s(f.ty(l)) == "bool"
                    v = ("k", 1 - v[1]) if v is not None and v[0] == "k" and bt and v[1] in (0, 1) else None
                    if v is None and bt and rv[2][0] in ("cp", "mv") and not rv[2][1][1] and rv[2][1][0] in self.tracked:
                        same[l] = (rv[2][1][0], True)
                elif rv[0] == "agg" and rv[1].get("k") == "adt" and rv[1].get("vn") is not None:
                    v = ("v", discr_of(f, rv[1]))
                    v = v if v[1] is not None else None
                elif rv[0] == "discr" and not rv[1][1]:
                    e = env.get(rv[1][0])
                    v = ("k", e[1]) if e is not None and e[0] == "v" else None
                    if v is None and rv[1][0] in self.tracked:
                        same[l] = (rv[1][0], "d")
                elif rv[0] == "bin" and rv[1] in ("Eq", "Ne"):
                    x, y = self.value(env, rv[2]), self.value(env, rv[3])
                    if x is not None and y is not None and x[0] == y[0] == "k":
                        v = ("k", int((x[1] == y[1]) == (rv[1] == "Eq")))
                if v is None:
                    env.pop(l, None)
                else:
                    env[l] = v
            elif st[0] == "dead":
                env.pop(st[1], None)
            elif st[0] == "sd" and not st[1][1]:
                env.pop(st[1][0], None)
        return env, same

    def step(self, s):
        f = self.f
        b = s[0]
        bb = f.bbs[b]
        env, same = self.body(s)
        t = bb["t"]
        outs = []
        if t[0] == "switch":
            v = self.value(env, t[1])
            arms = [(int(a), n) for a, n in t[3]]
            if v is not None and v[0] == "k":
                n = next((n for a, n in arms if a == v[1]), t[4])
                outs = [(n, env)] if n is not None else []
            else:
                l = t[1][1][0] if t[1][0] in ("cp", "mv") and not t[1][1][1] else None
                src = same.get(l)
                isb = l is not None and f.r["T"].s(f.ty(l)) == "bool"
                for a, n in arms + ([(None, t[4])] if t[4] is not None else []):
                    e = dict(env)
                    k = a
                    if k is None and isb and len(arms) == 1:
                        k = 1 - arms[0][0]
                    if k is not None and l in self.tracked:
                        e[l] = ("k", k)
                        if src is not None and src[1] == "d":
                            e[src[0]] = ("v", k)
                        elif src is not None:
                            e[src[0]] = ("k", 1 - k if src[1] else k) if not src[1] or k in (0, 1) else None
                            if e[src[0]] is None:
                                e.pop(src[0])
                    outs.append((n, e))
        else:
            if t[0] == "call" and not t[3][1]:
                v = self.tried(env, t)
                env.pop(t[3][0], None)
                if v is not None:
                    env[t[3][0]] = v
            outs = [(n, env) for n in f.succ(b)]
        res = []
        for n, e in outs:
            if self.f.bbs[n].get("c"):
                continue
            k = (n, tuple(sorted((l, v) for l, v in e.items() if l in self.live.get(n, ()))))
            if k not in res:
                res.append(k)
        return res

    def tried(self, env, t):
        """the variant `?` makes of the variant it is given"""
        p = t[1].get("p") or ""
        if len(t[2]) != 1 or t[2][0][0] == "c" or t[2][0][1][1]:
            return None
        if p.endswith("FromResidual::from_residual") and self.f.r["T"].s(self.f.ty(t[3][0])).startswith("std::result::Result"):
            return ("v", 1)
        if not p.endswith("Try::branch"):
            return None
        l = t[2][0][1][0]
        v = env.get(l)
        if v is None or v[0] != "v":
            return None
        ty = self.f.r["T"].s(self.f.ty(l))
        if ty.startswith("std::result::Result"):
            return v
        return ("v", 1 - v[1]) if ty.startswith("std::option::Option") else None

    def states(self, b):
        return self.by_block.get(b, [])

    def arm(self, b, v):
        """states entered from the switch at b when the value is v"""
        t = self.f.bbs[b]["t"]
        tgt = next((n for a, n in t[3] if int(a) == v), t[4])
        l = t[1][1][0]
        return [n for s in self.states(b) for n in self.succs.get(s, ()) if n[0] == tgt and dict(n[1]).get(l, ("k", v)) in (("k", v),)]

    def path(self, starts, goals, avoid=()):
        """a path of states from one of the starts to a state of a goal block entering no avoided block"""
        par = {}
        st = []
        for s in starts:
            if s[0] not in avoid:
                par[s] = None
                st.append(s)
        while st:
            n = st.pop(0)
            if n[0] in goals:
                out = []
                while n is not None:
                    out.append(n[0])
                    n = par[n]
                return out[::-1]
            for s in self.succs.get(n, ()):
                if s in par or s[0] in avoid:
                    continue
                par[s] = n
                st.append(s)
        return None


def discr_of(f, agg):
    a = f.db.adts.get(agg.get("p"))
    i = agg.get("v")
    if a is None or i is None:
        return i
    try:
        d = a["vars"][i][1]
        return int(d) if d is not None else i
    except (IndexError, KeyError, TypeError):
        return i
