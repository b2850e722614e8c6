"""Interprocedural must/may facts about events (calls satisfying a predicate)."""
from db import *


class Events:
    def __init__(self, db, pred, depth=4, scope=None):
        """pred(call) -> bool: the call is the event.  scope(fn)->bool limits summaries to those functions."""
        self.db, self.pred, self.depth, self.scope = db, pred, depth, scope or (lambda f: True)
        self._must, self._may = {}, {}

    # does executing this call certainly / possibly perform the event?
    def call_must(self, c, d=None):
        d = self.depth if d is None else d
        if self.pred(c):
            return True
        if d <= 0:
            return False
        tg = self.db.targets(c)
        if not tg:
            return False
        return all(self.fn_must(self.db.fns[t], d - 1) for t in tg)

    def call_may(self, c, d=None):
        d = self.depth if d is None else d
        if self.pred(c):
            return True
        if d <= 0:
            return False
        for t in self.db.targets(c):
            if self.fn_may(self.db.fns[t], d - 1):
                return True
        # closures handed to the callee
        from cover import closure_fn
        for a in c.args:
            g = closure_fn(self.db, c.fn, a)
            if g is not None and self.fn_may(g, d - 1):
                return True
        return False

    def fn_must(self, f, d):
        if not self.scope(f):
            return False
        k = (f.id, d)
        if k in self._must:
            return self._must[k]
        self._must[k] = False
        bl = {c.bb for c in f.calls() if self.call_must(c, d)}
        r = path(f, 0, set(f.returns()), bl) is None
        self._must[k] = r
        return r

    def fn_may(self, f, d):
        if not self.scope(f):
            return False
        k = (f.id, d)
        if k in self._may:
            return self._may[k]
        self._may[k] = False
        r = any(self.call_may(c, d) for c in f.calls())
        self._may[k] = r
        return r

    def must_blocks(self, f):
        return {c.bb for c in f.calls() if self.call_must(c)}

    def may_blocks(self, f):
        return {c.bb for c in f.calls() if self.call_may(c)}


def path(f, start, goals, avoid=(), avoid_edges=(), succ=None):
    """a block path from start to any goal that enters no avoided block (start included), or None"""
    succ = succ or f.succ
    if start in avoid:
        return None
    par = {start: None}
    st = [start]
    while st:
        n = st.pop(0)
        if n in goals:
            out = []
            while n is not None:
                out.append(n)
                n = par[n]
            return out[::-1]
        for s in succ(n):
            if s in par or s in avoid or (n, s) in avoid_edges:
                continue
            par[s] = n
            st.append(s)
    return None


def after(f, blocks):
    """successor blocks of the given call blocks"""
    out = set()
    for b in blocks:
        out.update(f.succ(b))
    return out


def path_after(f, b, goals, avoid=(), avoid_edges=()):
    """a path leaving block b (through its successors) to a goal avoiding blocks"""
    for s in f.succ(b):
        if (b, s) in avoid_edges:
            continue
        p = path(f, s, goals, avoid, avoid_edges)
        if p is not None:
            return p
    return None


def lines_of(f, p):
    ls = []
    for b in p or ():
        t = f.bbs[b]["t"]
        if t[0] == "call":
            ls.append(t[5])
        for s in f.bbs[b]["s"]:
            if s[0] == "=" and isinstance(s[3], int):
                ls.append(s[3])
    ls = sorted(set(ls))
    return "lines " + ",".join(map(str, ls[:16]))


def loops(f):
    """natural loops: header -> set of blocks"""
    out = {}
    dom = f.dom()
    for b in f.reach:
        for s in f.succ(b):
            if s in dom[b]:
                body = {s, b}
                st = [b]
                while st:
                    x = st.pop()
                    if x == s:
                        continue
                    for p in f.pred(x):
                        if p in f.reach and p not in body:
                            body.add(p)
                            st.append(p)
                out.setdefault(s, set()).update(body)
    return out


def err_edges(f, call):
    """(ok_block, err_block) successors of the `?`/match on the Result a call returned, if recognisable"""
    return None
