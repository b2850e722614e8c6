"""Recovered wrapper terms: scoping, arity and how far evaluated what built-ins receive is."""
from ceval import *

# how far a value is known to be evaluated: subsets of these
NONE = frozenset()
WHNF = frozenset({"whnf"})                       # the head
PAY = frozenset({"whnf", "pay"})                 # and what a box holds
SPINE = frozenset({"whnf", "spine"})             # and every cell of the list
DEEP = frozenset({"whnf", "pay", "spine", "deep"})   # and the heads of the parts
BOXES = (3, 4, 5, 11, 17)
NIL, CONS, PAIR = 6, 7, 9


def ref(v, E):
    v = E.deref(v)
    if isinstance(v, A) and v.vn in ("L", "G", "V"):
        x = E.deref(v.fs[0]) if v.fs else None
        return (v.vn, x)
    return ("?", None)


class Slot:
    __slots__ = ("lv", "box", "clo", "val")

    def __init__(self, lv=NONE, box=False, clo=None, val=NONE):
        # lv: as the slot stands; val: what evaluating it again would give
        self.lv, self.box, self.clo, self.val = lv, box, clo, val

    def key(self):
        return (self.lv, self.box, id(self.clo[0]) if self.clo else None, self.val)


class Walk:
    """walks wrappers.  `con`: arity of every constructor tag; `tags`: their numbers by name;
    `wrappers`: wrapper term by global index (None where it could not be recovered)."""

    def __init__(self, E, con, wrappers, never=()):
        self.E, self.con, self.wr, self.never = E, con, wrappers, never
        self.memo, self.done, self.changed = {}, set(), False
        self.out = None

    def check(self, ix):
        """the obligations of one wrapper, at the fixed point of the result levels"""
        while True:
            self.changed = False
            self.bifs, self.apps, self.errs, self.cons = [], [], [], []
            self.on = True
            self.done = set()
            self.form(self.wr[ix], [])
            if not self.changed:
                break
        return self.bifs, self.apps, self.errs, self.cons

    def err(self, m):
        if self.on and m not in self.errs:
            self.errs.append(m)

    def at(self, env, r):
        k, x = r
        if k == "L":
            if not isinstance(x, int):
                self.err("a local of unknown index")
                return Slot()
            if x >= len(env):
                self.err("local %d where %d are in scope" % (x, len(env)))
                return Slot()
            return env[x]
        if k == "V":
            return Slot(DEEP)
        if k == "G" and isinstance(x, int) and not 0 <= x < len(self.wr):
            self.err("global %d where the catalogue has %d" % (x, len(self.wr)))
        return Slot()

    def form(self, v, env):
        v = self.E.deref(v)
        if v.vn == "Lambda":
            return self.term(v.fs[1], [Slot() for _ in range(v.fs[0])] + env)
        return self.term(v.fs[0], env)

    def apply(self, key, form, env, args):
        """level of what a lambda gives back for arguments evaluated that far"""
        E = self.E
        form = E.deref(form)
        if form.vn == "Lambda" and form.fs[0] != len(args):
            return WHNF
        k = (key, tuple(a.key() for a in args), tuple(s.key() for s in env))
        if k not in self.memo:
            self.memo[k] = DEEP
            self.changed = True
        if k in self.done:
            return self.memo[k]
        self.done.add(k)
        on, self.on = self.on, False
        if form.vn == "Lambda":
            r = self.term(form.fs[1], list(args) + env)
        else:
            r = self.term(form.fs[0], env)
        self.on = on
        if self.memo[k] & r != self.memo[k]:
            self.memo[k] &= r
            self.changed = True
        return self.memo[k]

    def term(self, v, env):
        """level the value of the term is evaluated to"""
        E = self.E
        v = E.deref(v)
        if not isinstance(v, A):
            self.err("unknown term %r" % (v,))
            return NONE
        k, f = v.vn, v.fs
        L = lambda x: [ref(y, E) for y in E.deref(x)]
        if k == "Atom":
            s = self.at(env, ref(f[0], E))
            return DEEP if s.box else s.lv | s.val | WHNF
        if k == "Case":
            lv = self.term(f[0], env)
            out, boxed = [], 0
            sc = E.deref(f[0])
            on = ref(sc.fs[0], E) if isinstance(sc, A) and sc.vn == "Atom" else (None, None)
            for br in E.deref(f[1]):
                br = E.deref(br)
                tag = br.fs[0]
                n = self.con.get(tag)
                if n is None:
                    self.err("branch for unknown constructor %r" % (tag,))
                    n = 0
                deep = lv == DEEP
                if tag in BOXES:
                    boxed += 1
                    e = [Slot(DEEP if "pay" in lv else NONE, True) for _ in range(n)]
                elif tag == CONS and n == 2:
                    e = [Slot(DEEP if deep else NONE),
                         Slot(DEEP if deep else SPINE if "spine" in lv else NONE)]
                elif tag == PAIR and n == 2:
                    e = [Slot(DEEP), Slot()]      # the key of a block pair is a native symbol
                else:
                    e = [Slot(DEEP if deep else NONE) for _ in range(n)]
                v2 = env
                if (n == 0 or tag == PAIR) and on[0] == "L" and isinstance(on[1], int) and on[1] < len(env):
                    o = env[on[1]]
                    v2 = list(env)
                    v2[on[1]] = Slot(o.lv, o.box, o.clo, DEEP)
                out.append(self.term(br.fs[1], e + v2))
            fb = E.deref(f[2])
            if fb.vn == "Some":
                # what is left when the boxes were taken out carries no payload
                out.append(self.term(fb.fs[0], [Slot(DEEP if boxed else lv | WHNF)] + env))
            if not out:
                return WHNF
            r = out[0]
            for o in out[1:]:
                r &= o
            return r
        if k == "Cons":
            a = [self.at(env, r) for r in L(f[1])]
            n = self.con.get(f[0])
            if self.on:
                self.cons.append((f[0], n, len(a)))
            if f[0] == NIL:
                return DEEP
            if f[0] == CONS and len(a) == 2:
                if a[0].lv == DEEP and a[1].lv == DEEP:
                    return DEEP
                return SPINE if "spine" in a[1].lv else WHNF
            if f[0] in BOXES and a:
                return DEEP if a[0].lv == DEEP else WHNF
            if f[0] == PAIR and len(a) == 2:
                return DEEP if a[0].lv == DEEP else WHNF
            return WHNF
        if k in ("App", "DirectApp"):
            c, a = (ref(f[0], E), L(f[1])) if k == "App" else (ref(f[1], E), L(f[2]))
            s = self.at(env, c)
            st = [self.at(env, r) for r in a]
            if c[0] == "G" and isinstance(c[1], int) and 0 <= c[1] < len(self.wr):
                if self.on:
                    self.apps.append((c[1], len(a)))
                w = self.wr[c[1]]
                if w is not None:
                    return self.apply(("G", c[1]), w, [], st) | WHNF
            if s.clo:
                if self.on:
                    n = self.E.deref(s.clo[0])
                    if n.vn == "Lambda" and n.fs[0] != len(a):
                        self.err("a local function of %d applied to %d" % (n.fs[0], len(a)))
                return self.apply(("L", id(s.clo[0])), s.clo[0], s.clo[1],
                                  st) | WHNF
            return WHNF
        if k == "Bif":
            a = L(f[1])
            sl = [self.at(env, r) for r in a]
            if self.on:
                self.bifs.append((f[0], [(r, s.lv) for r, s in zip(a, sl)]))
            return DEEP if f[0] in self.never else WHNF
        if k in ("Let", "LetRec"):
            bs = [E.deref(b) for b in E.deref(f[0])]
            e = [Slot() for _ in bs] + env
            for i, b in enumerate(bs):
                if b.vn == "Lambda":
                    e[i].clo = (b, e if k == "LetRec" else env)
                    e[i].lv = WHNF
            if not self.on:
                pass
            elif k == "LetRec":
                # a slot sees itself: its own key stays finite as closures are named by form
                for b in bs:
                    self.form(b, e)
            else:
                for b in bs:
                    self.form(b, env)
            return self.term(f[1], e)
        if k == "Ann":
            return self.term(f[1], env)
        if k == "Meta":
            self.at(env, ref(f[0], E))
            self.at(env, ref(f[1], E))
            return WHNF
        if k == "DeMeta":
            lv = self.term(f[0], env)
            a = self.term(f[1], [Slot(), Slot()] + env)
            b = self.term(f[2], [Slot(lv | WHNF)] + env)
            return a & b
        if k == "Seq":
            self.term(f[0], env)
            return self.term(f[1], env)
        if k == "LookupLit":
            for x in f[1:4]:
                self.at(env, ref(x, E))
            return WHNF
        self.err("unknown form %s" % k)
        return NONE
