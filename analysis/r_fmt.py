"""X04: every format name that is accepted or inferred leads to its reader or writer; an unknown one to an error.
The dispatch functions are followed by constant propagation for each name they mention, and for a name they do not."""
from rule import where
from ceval import Eval, A, V, P, M, OpaqueV, TUP, SOME, NONE, OK, Unknown, lname
from db import *

READER = {"yaml": {"yaml"}, "json": {"yaml", "json"}}
WRITER = {"html": {"html", "markup"}}
ALIAS = {"yml": "yaml", "txt": "text", "text": "text", "htm": "html"}
UNKNOWN = "no-such-format"


class Run(Eval):
    """stubs: list of (test(path, name, args), answer(path, name, args))"""
    def __init__(self, db, stubs=()):
        Eval.__init__(self, db)
        self.stubs = list(stubs)
        self.seen = []

    def invoke(self, f, c, args):
        p = c.get("r") or c["p"]
        n = lname(c["p"])
        for t, ans in self.stubs:
            if t(p, n, args):
                return ans(p, n, args)
        return Eval.invoke(self, f, c, args)

    def model(self, f, c, n, p, args, local):
        if not local:
            d = [self.deref(a) for a in args]
            a0 = d[0] if d else None
            if isinstance(a0, str):
                if n == "find" and isinstance(d[1], int):
                    i = a0.find(chr(d[1]))
                    return (SOME(i) if i >= 0 else NONE(),)
                if n in ("find", "split_once", "rsplit_once") and isinstance(d[1], str):
                    i = a0.find(d[1]) if n != "rsplit_once" else a0.rfind(d[1])
                    if n == "find":
                        return (SOME(i) if i >= 0 else NONE(),)
                    return (SOME(TUP(a0[:i], a0[i + len(d[1]):])) if i >= 0 else NONE(),)
                if n in ("split_once", "rsplit_once") and isinstance(d[1], int):
                    i = a0.find(chr(d[1])) if n == "split_once" else a0.rfind(chr(d[1]))
                    return (SOME(TUP(a0[:i], a0[i + 1:])) if i >= 0 else NONE(),)
                if n == "split_at" and isinstance(d[1], int):
                    return (TUP(a0[:d[1]], a0[d[1]:]),)
                if n in ("trim", "trim_start", "trim_end"):
                    return (a0.strip(),)
                if n in ("to_lowercase", "to_ascii_lowercase"):
                    return (a0.lower(),)
                if n in ("eq_ignore_ascii_case",) and isinstance(d[1], str):
                    return (int(a0.lower() == d[1].lower()),)
                if n == "is_empty":
                    return (int(not a0),)
                if n in ("strip_prefix", "strip_suffix") and isinstance(d[1], str):
                    ok = a0.startswith(d[1]) if n == "strip_prefix" else a0.endswith(d[1])
                    return (SOME(a0[len(d[1]):] if n == "strip_prefix" else a0[:len(a0) - len(d[1])]) if ok else NONE(),)
                if n == "index" and isinstance(d[1], A) and "Range" in d[1].p:
                    fs = [self.deref(x) for x in d[1].fs]
                    k = lname(d[1].p)
                    if all(isinstance(x, int) for x in fs):
                        return ({"RangeFrom": lambda: a0[fs[0]:], "RangeTo": lambda: a0[:fs[0]], "Range": lambda: a0[fs[0]:fs[1]]}.get(k, lambda: OpaqueV("slice"))(),)
            if isinstance(a0, A) and a0.p.endswith("::Option"):
                if n in ("or", "or_else"):
                    return (a0 if a0.vn == "Some" else args[1] if n == "or" else self.apply(f, d[1], []),)
                if n == "take" and isinstance(args[0], P):
                    return (a0,)
                if n == "filter" and a0.vn == "None":
                    return (a0,)
                if n == "filter" and a0.vn == "Some":
                    return (a0 if self.apply(f, d[1], [P({0: a0.fs[0]}, 0, [])]) else NONE(),)
                if n == "map_or" and len(d) == 3:
                    return (self.apply(f, d[2], [a0.fs[0]]) if a0.vn == "Some" else args[1],)
                if n == "map_or_else" and len(d) == 3:
                    return (self.apply(f, d[2], [a0.fs[0]]) if a0.vn == "Some" else self.apply(f, d[1], []),)
                if n == "is_some_and":
                    return (self.apply(f, d[1], [a0.fs[0]]) if a0.vn == "Some" else 0,)
                if n in ("as_deref", "as_ref", "cloned", "copied"):
                    return (A(a0.p, a0.v, a0.vn, list(a0.fs)),)
            if n in ("into_iter", "iter") and isinstance(a0, V):
                pass
        return Eval.model(self, f, c, n, p, args, local)


def strs(f):
    """constant text in a function and its closures"""
    out = set()
    fs = [f] + [g for g in f.db.fns.values() if g.id.startswith(f.id + "::{closure")]
    for g in fs:
        bodies = [g.bbs] + [p["bbs"] for p in g.r.get("promoted") or []]

        def walk(o):
            if isinstance(o, dict):
                if isinstance(o.get("s"), str):
                    out.add(o["s"])
                for v in o.values():
                    walk(v)
            elif isinstance(o, (list, tuple)):
                for v in o:
                    walk(v)
        walk(bodies)
    return {s for s in out if re.fullmatch(r"[a-z][a-z0-9-]{1,15}", s)}


def opq(n):
    return OpaqueV(n)


def result_of(e, g, args):
    try:
        return e.deref(e.run(g, args)), None
    except Unknown as ex:
        return None, str(ex)
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError) as ex:
        return None, repr(ex)


class Names:
    def __init__(self, r):
        self.r = r
        self.lost = 0

    def lose(self, what, why):
        self.lost += 1
        self.r.note("not followed: %s (%s)" % (what, why))


def fail(v):
    return isinstance(v, A) and v.vn == "Err"


def readers(db, rec):
    """module readers: the function names the dispatcher hands the text to"""
    def t(p, n, a):
        m = re.search(r"::import::(\w+)::(?:\w+::)*(\w+)$", strip_generics(p)) or re.search(r"::import::(\w+)::", p)
        return m is not None and m.group(1) not in ("error",) and p in db.fns and "::import::" in p and not p.endswith("::fmt")
    def ans(p, n, a):
        m = re.search(r"::import::(\w+)::", p)
        rec.append((m.group(1), p, a))
        return OK(opq("value of %s" % m.group(1)))
    return t, ans


def okstub(names):
    return (lambda p, n, a: n in names), (lambda p, n, a: OK(opq(n)))


def x04(r, db):
    r.rules += ["every format name the input dispatch mentions is handed to the reader of that format, the stream formats to the stream reader; a name it does not mention is refused",
                "every format name the output dispatch mentions makes the writer of that format; a name it does not mention makes none, and its caller then fails",
                "every format inferred from a file name, a locator or an output file is one the dispatch has; one extension means one format on both sides",
                "a format that is given prevails over an inferred one, and the precedence of the output format is option, target, main target, default"]
    r.assumptions += ["a reader or writer module reads or writes the format it is named after (YAML reads JSON)"]
    N = Names(r)
    T = db.fn("import::read_to_core")
    accepted = input_dispatch(r, db, N)
    outs = output_dispatch(r, db, N)
    if not accepted or not outs:
        return
    inferred = inference(r, db, N, accepted)
    outfile(r, db, N, outs, inferred)
    precedence(r, db, N)
    constants(r, db, outs)
    r.count("dispatches not followed", N.lost)


def get(db, s):
    fs = [f for f in db.fns.values() if strip_generics(f.id).endswith(s) and f.kind != "closure"]
    return fs[0] if len(fs) == 1 else None


def input_dispatch(r, db, N):
    acc, by, off = {}, {}, set()
    n = 0
    roots = [f for f in (get(db, "import::read_to_core"), get(db, "import::read_to_core_data_only")) if f]
    r.floor("input dispatchers", len(roots), 1)
    isst, mk = get(db, "import::is_stream_format"), get(db, "import::create_stream_import")
    mod = [f for f in db.fns.values() if re.match(r"eucalypt::import::\w+$", f.id)]
    names = set().union(*(strs(f) for f in mod)) if mod else set()
    streams = set()
    for nm in sorted(names | {UNKNOWN}):
        for root in roots:
            rec = []
            e = Run(db, [readers(db, rec), okstub({"source"})])
            args = [nm if "str" in root.r["T"].s(root.ty(i + 1)) else opq("arg%d" % i) for i in range(root.argc)]
            v, why = result_of(e, root, args)
            if v is None:
                N.lose("%s of %s" % (root.short, nm), why)
                off.add((root.short, nm))
                continue
            n += 1
            if nm == UNKNOWN:
                err = e.deref(v.fs[0]) if fail(v) and v.fs else None
                r.ob("unknown-input:%s" % root.short, fail(v) and not rec and isinstance(err, A) and err.vn == "UnknownSourceFormat", "an unknown format name is not refused as unknown", where(root))
            elif rec:
                by.setdefault(root.short, set()).add(nm)
                acc.setdefault(nm, set()).update(m for m, _, _ in rec)
                r.ob("reader:%s:%s" % (root.short, nm), {m for m, _, _ in rec} <= READER.get(nm, {nm}) and len(rec) == 1, "format `%s` is read by %s" % (nm, ", ".join(sorted({p for _, p, _ in rec}))), where(root))
                r.ob("result:%s:%s" % (root.short, nm), isinstance(v, A) and v.vn == "Ok" and isinstance(e.deref(v.fs[0]), OpaqueV) and str(e.deref(v.fs[0])).startswith("<value of"), "what the reader of `%s` returns is not what the dispatch returns" % nm, where(root))
        if isst is None or mk is None:
            continue
        e = Run(db)
        v, why = result_of(e, isst, [nm])
        if v is None:
            N.lose("%s of %s" % (isst.short, nm), why)
            continue
        made = []
        def opened(p, q, a):
            return q == "open" and "Producer" in p
        def opn(p, q, a):
            made.append(re.search(r"(\w+)Producer", p).group(1).lower())
            return OK(opq("producer %s" % made[-1]))
        e = Run(db, [(opened, opn), ((lambda p, q, a: q == "register_producer"), (lambda p, q, a: 7))])
        w, why = result_of(e, mk, [nm, "path"])
        if w is None:
            N.lose("%s of %s" % (mk.short, nm), why)
            continue
        n += 1
        is_s = v == 1
        can = bool(made)
        if is_s or can:
            streams.add(nm)
            r.ob("stream:%s" % nm, is_s and can and made == [nm.split("-")[0]] and not fail(w), "stream format `%s` is %s and opened as %s" % (nm, "recognised" if is_s else "not recognised", ", ".join(made) or "nothing"), where(mk))
        if nm == UNKNOWN:
            r.ob("unknown-stream", not is_s and fail(w), "an unknown stream format is accepted", where(mk))
    for root in roots:
        for nm in sorted(acc):
            r.ob("input:%s:%s" % (root.short, nm), nm in by.get(root.short, ()) or (root.short, nm) in off, "format `%s` is read by another dispatch but refused by this one" % nm, where(root))
    for nm in ("yaml", "json", "jsonl", "toml", "text", "csv", "xml", "edn"):
        r.ob("input:%s" % nm, nm in acc or N.lost, "format `%s` no longer reaches a reader" % nm, where(roots[0]) if roots else "")
    for nm in ("jsonl-stream", "csv-stream", "text-stream"):
        r.ob("input:%s" % nm, nm in streams or N.lost, "stream format `%s` no longer reaches a reader" % nm, where(mk) if mk else "")
    n += loader(r, db, N, acc, streams)
    r.count("format names followed through the input dispatch", n)
    r.floor("format names followed through the input dispatch, or given up", n + N.lost, 20)
    return set(acc) | streams | {"eu", "core"}


def loader(r, db, N, acc, streams):
    """SourceLoader::load: which loading function each format name gets"""
    ld, simple = get(db, "SourceLoader::load"), get(db, "SourceLoader::load_simple")
    if ld is None or simple is None:
        r.note("the source loader's dispatch was not found under its name")
        return 0
    loc = next((a for a in db.adts if a.endswith("input::Locator")), None)
    vs = [v[0] for v in db.adts[loc]["vars"]]
    n = 0
    for nm in sorted(set(acc) | streams | {"eu", "core", UNKNOWN}):
        for g, want in ((ld, "load_tree" if nm == "eu" else "load_core" if nm == "core" else "load_simple"), (simple, "load_stream" if nm in streams else "read_to_core")):
            if g is simple and nm in ("eu", "core"):
                continue
            got = []

            def t(p, q, a):
                return q != g.id.split("::")[-1] and (re.search(r"SourceLoader::load_\w+$", p) and q not in ("load_source",) or q.startswith("read_to_core"))

            def ans(p, q, a):
                got.append((q, a))
                return OK(opq(q))
            e = Run(db, [(t, ans), okstub({"load_source", "add_leaf"}),
                         ((lambda p, q, a: q == "format" and "Input" in p), (lambda p, q, a: nm)),
                         ((lambda p, q, a: q == "locator" and "Input" in p), (lambda p, q, a: A(loc, vs.index("StdIn"), "StdIn", []))),
                         ((lambda p, q, a: q == "insert"), (lambda p, q, a: NONE()))])
            v, why = result_of(e, g, [opq("loader"), opq("input")])
            if v is None and not got:
                N.lose("%s of %s" % (g.short, nm), why)
                continue
            n += 1
            kinds = [q for q, a in got]
            if g is simple and want == "read_to_core" and kinds == ["read_to_core"]:
                fmt = [x for x in (e.deref(y) for y in got[0][1]) if isinstance(x, str)]
                r.ob("load-format:%s" % nm, fmt == [nm], "an input of format `%s` is read as %s" % (nm, fmt), where(g))
            r.ob("load:%s:%s" % (g.short, nm), [q for q in kinds] == [want], "an input of format `%s` goes to %s" % (nm, ", ".join(kinds) or "nothing"), where(g))
    return n


def output_dispatch(r, db, N):
    mk = get(db, "export::create_emitter")
    if mk is None:
        r.floor("output dispatcher", 0, 1)
        return None
    outs = set()
    n = 0
    for nm in sorted(strs(mk) | {UNKNOWN}):
        got = []

        def t(p, q, a):
            return q == "new" and re.search(r"::export::(\w+)::", p) is not None

        def ans(p, q, a):
            m = re.search(r"::export::(\w+)::", p).group(1)
            got.append(m)
            return opq("writer " + m)
        e = Run(db, [(t, ans)])
        v, why = result_of(e, mk, [nm, opq("out")])
        if v is None:
            N.lose("%s of %s" % (mk.short, nm), why)
            continue
        n += 1
        if nm == UNKNOWN:
            r.ob("unknown-output", isinstance(v, A) and v.vn == "None" and not got, "an unknown output format makes a writer", where(mk))
            continue
        if isinstance(v, A) and v.vn == "Some":
            outs.add(nm)
            r.ob("writer:%s" % nm, bool(got) and set(got) <= WRITER.get(nm, {nm}), "output format `%s` makes the writer of %s" % (nm, ", ".join(sorted(set(got))) or "nothing"), where(mk))
    r.count("format names followed through the output dispatch", n)
    r.floor("format names followed through the output dispatch, or given up", n + N.lost, 7)
    for nm in ("yaml", "json", "toml", "text", "edn", "eu", "html"):
        r.ob("output:%s" % nm, nm in outs or N.lost, "output format `%s` no longer makes a writer" % nm, where(mk))
    # no writer: the caller fails
    from thread import Threads
    import inl
    sites = 0
    for f in db.fns.values():
        for c in f.calls():
            if db.targets(c) == [mk.id] and f.id != mk.id and not (c.rpath or "").startswith("test"):
                g = f
                sites += 1
                x = inl.comb(g)

                class Th(Threads):
                    def tried(self, env, t):
                        if (t[1].get("r") or t[1].get("p") or "") == mk.id:
                            return ("v", 0)
                        return Threads.tried(self, env, t)
                th = Th(x, 60000, extra={0, *[t["t"][3][0] for t in x.bbs if t["t"][0] == "call" and (t["t"][1].get("r") or t["t"][1].get("p")) == mk.id]})
                start = [n for b in th.by_block for s in th.states(b) if x.bbs[b]["t"][0] == "call" and (x.bbs[b]["t"][1].get("r") or x.bbs[b]["t"][1].get("p")) == mk.id for n in th.succs.get(s, ())]
                seen, st, bad = set(start), list(start), False
                uses = set()
                while st:
                    s = st.pop()
                    if x.bbs[s[0]]["t"][0] == "ret" and th.at_end(s).get(0) != ("v", 1):
                        bad = True
                    for m in th.succs.get(s, ()):
                        if m not in seen:
                            seen.add(m)
                            st.append(m)
                r.ob("no-writer:%s" % g.short, not bad or not th.exact, "with an unknown output format the run still returns success", where(g))
    r.floor("callers of the output dispatch", sites, 1)
    return outs


def inference(r, db, N, accepted):
    g = get(db, "Locator::infer_format")
    if g is None:
        r.note("no format inference found")
        return {}
    loc = next(a for a in db.adts if a.endswith("input::Locator"))
    vs = db.adts[loc]["vars"]
    exts = set()
    for f in db.fns.values():
        if "::syntax::input::" in f.id and "Locator" in f.id:
            exts |= strs(f)
    out = {}
    n = 0
    for ext in sorted(exts | {UNKNOWN, "xml", "YAML"}) + [None]:
        for i, v in sorted(enumerate(vs), key=lambda iv: iv[1][0] != "Fs"):
            e = Run(db, [((lambda p, q, a: q == "extension"), (lambda p, q, a: SOME(ext) if ext else NONE())),
                         ((lambda p, q, a: q == "to_str"), (lambda p, q, a: SOME(e.deref(a[0])))),
                         ((lambda p, q, a: q == "path"), (lambda p, q, a: "the/path"))])
            x, why = result_of(e, g, [P({0: A(loc, i, v[0], [opq(fd[0]) for fd in v[2]])}, 0, [])])
            if x is None:
                N.lose("%s of .%s (%s)" % (g.short, ext, v[0]), why)
                continue
            n += 1
            fmt = e.deref(x.fs[0]) if isinstance(x, A) and x.vn == "Some" else None
            if not (isinstance(x, A) and x.vn in ("Some", "None")) or fmt is not None and not isinstance(fmt, str):
                N.lose("%s of .%s (%s)" % (g.short, ext, v[0]), "format %s" % (fmt or x))
                continue
            if fmt is None:
                if v[0] == "Fs" and ext in ("json", "jsonl", "txt", "toml", "edn", "yaml", "yml", "csv", "eu"):
                    r.ob("infer:%s" % ext, False, "no format is inferred for .%s" % ext, where(g))
                continue
            r.ob("inferred-has-reader:%s:%s" % (v[0], ext), fmt in accepted, "the format inferred for %s with extension .%s is `%s`, which no reader takes" % (v[0], ext, fmt), where(g))
            if v[0] in ("Fs", "Url", "Buffer", "Git") and ext is not None:
                if v[0] == "Fs":
                    out[ext] = fmt
                    want = ALIAS.get(ext, ext if ext in accepted else fmt)
                else:
                    want = out.get(ext, "eu")
                r.ob("infer:%s:%s" % (v[0], ext), fmt == want, "a file with extension .%s is taken to be `%s`" % (ext, fmt), where(g))
    r.count("locator kinds and extensions followed", n)
    r.floor("locator kinds and extensions followed, or given up", n + N.lost, 60)
    # an explicit name prevails
    fs = [f for f in db.fns.values() if f.id.endswith("::from_str") and "input::Input" in f.id]
    inp = next(a for a in db.adts if a.endswith("input::Input"))
    fields = [fd[0] for fd in db.adts[inp]["vars"][0][2]]
    for f in fs:
        for text, want in (("csv@a.json", "csv"), ("n=toml@a.yaml", "toml"), ("a.json", "json"), ("n=a.csv", "csv"), ("a.unknown", "eu"), ("n=xml@a", "xml"), (UNKNOWN + "@a.json", UNKNOWN), ("text@-", "text")):
            path = re.split("[=@]", text)[-1]

            def mkloc(p, q, a):
                if path == "-":
                    return A(loc, [v[0] for v in vs].index("StdIn"), "StdIn", [])
                return A(loc, [v[0] for v in vs].index("Fs"), "Fs", [path])
            e = Run(db, [((lambda p, q, a: q in ("from", "from_str", "parse") and "Locator" in p), mkloc),
                         ((lambda p, q, a: q == "extension"), (lambda p, q, a: SOME(path.rsplit(".", 1)[1]) if "." in path else NONE())),
                         ((lambda p, q, a: q == "to_str"), (lambda p, q, a: SOME(e.deref(a[0]))))])
            x, why = result_of(e, f, [text])
            if x is None or not isinstance(x, A):
                N.lose("%s of %s" % (f.short, text), why)
                continue
            y = e.deref(x.fs[0]) if x.vn == "Ok" else None
            fmt = e.deref(y.fs[fields.index("format")]) if isinstance(y, A) else None
            if isinstance(y, OpaqueV) or isinstance(fmt, OpaqueV) or fmt is not None and not isinstance(fmt, str):
                N.lose("%s of %s" % (f.short, text), "format %s" % fmt)
                continue
            r.ob("explicit:%s" % text, fmt == want, "the input `%s` is read as `%s`" % (text, fmt), where(f))
    return out


def outfile(r, db, N, outs, inferred):
    """the output format that goes with an output file"""
    g = get(db, "EucalyptOptions::process_defaults")
    adt = next((a for a in db.adts if a.endswith("options::EucalyptOptions")), None)
    if g is None or adt is None:
        r.note("the options' defaults were not found")
        return
    fields = [fd[0] for fd in db.adts[adt]["vars"][0][2]]
    if "export_type" not in fields or "json" not in fields:
        r.note("the options have no export type field")
        return
    types = [db.adts[adt]["T"].s(fd[1]) for fd in db.adts[adt]["vars"][0][2]]
    ix, jx = fields.index("export_type"), fields.index("json")
    n = 0
    for ext in sorted({s for s in strs(g)} | outs | {"yml", "txt", UNKNOWN}) + [None]:
        for given in (None, "toml", "html"):
            for js in (0, 1):
                me = A(adt, 0, "EucalyptOptions", [0 if t == "bool" else NONE() if "Option<" in t else V() if "Vec<" in t else opq(x) for x, t in zip(fields, types)])
                me.fs[ix] = SOME(given) if given else NONE()
                me.fs[jx] = js
                for k in ("lib_path", "explicit_inputs", "prologue_inputs", "epilogue_inputs"):
                    if k in fields:
                        me.fs[fields.index(k)] = V()
                e = Run(db, [((lambda p, q, a: q == "output" and "Options" in p), (lambda p, q, a: SOME(opq("outfile")))),
                             ((lambda p, q, a: q in ("show_version", "debug", "is_fragment", "is_terminal")), (lambda p, q, a: 0)),
                             ((lambda p, q, a: q in ("prepend_input", "insert", "push")), (lambda p, q, a: TUP())),
                             ((lambda p, q, a: q in ("from_str", "new", "from") and "Input" in p), (lambda p, q, a: OK(opq("input")) if q == "from_str" else opq("input"))),
                             ((lambda p, q, a: q == "extension"), (lambda p, q, a: SOME(ext) if ext else NONE())),
                             ((lambda p, q, a: q == "to_str"), (lambda p, q, a: SOME(e.deref(a[0])))),
                             ((lambda p, q, a: q == "current_dir"), (lambda p, q, a: OK(opq("cwd"))))])
                env = {0: me}
                x, why = result_of(e, g, [P(env, 0, [])])
                v = e.deref(me.fs[ix])
                if x is None and not (isinstance(v, A) and v.vn in ("Some", "None")):
                    N.lose("%s with .%s" % (g.short, ext), why)
                    continue
                if x is None and why and not why.startswith(("call", "branch")):
                    N.lose("%s with .%s" % (g.short, ext), why)
                    continue
                n += 1
                fmt = e.deref(v.fs[0]) if v.vn == "Some" else None
                if not isinstance(v, A) or fmt is not None and not isinstance(fmt, str):
                    N.lose("%s with .%s" % (g.short, ext), "format %s" % fmt)
                    continue
                if x is None and (fmt != "json" if js else fmt != given if given else fmt != ALIAS.get(ext, ext if ext in outs else inferred.get(ext))):
                    N.lose("%s with .%s" % (g.short, ext), why)
                    continue
                if js:
                    r.ob("out-json:%s:%s" % (ext, given), fmt == "json", "-j with output file .%s renders `%s`" % (ext, fmt), where(g))
                elif given:
                    r.ob("out-given:%s:%s" % (ext, given), fmt == given, "-x %s with output file .%s renders `%s`" % (given, ext, fmt), where(g))
                elif fmt is not None:
                    r.ob("out-inferred-has-writer:%s" % ext, fmt in outs, "an output file .%s makes the format `%s`, which no writer has" % (ext, fmt), where(g))
                    want = ALIAS.get(ext, ext if ext in outs else inferred.get(ext))
                    r.ob("out-inferred:%s" % ext, want is None or fmt == want, "an output file .%s is written as `%s`" % (ext, fmt), where(g))
                elif ext in ("yaml", "yml", "json", "txt", "edn", "toml"):
                    r.ob("out-inferred:%s" % ext, False, "no output format is inferred for an output file .%s" % ext, where(g))
    r.count("output option combinations followed", n)
    r.floor("output option combinations followed, or given up", n + N.lost, 30)


def precedence(r, db, N):
    g = get(db, "eval::determine_format")
    if g is None:
        r.note("determine_format was not found under its name")
        return
    n = 0
    for o in (None, "json"):
        for t in (None, "toml"):
            for m in (None, "edn"):
                def tgt(p, q, a):
                    if len(a) == 1:
                        return SOME("the-target")
                    k = e.deref(a[1])
                    return SOME(opq("target " + k)) if isinstance(k, str) else NONE()
                def fm(p, q, a):
                    k = str(e.deref(a[0]))
                    v = t if "the-target" in k else m
                    return SOME(v) if v else NONE()
                e = Run(db, [((lambda p, q, a: q == "export_type"), (lambda p, q, a: SOME(o) if o else NONE())),
                             ((lambda p, q, a: q == "target"), tgt),
                             ((lambda p, q, a: q == "core"), (lambda p, q, a: opq("core"))),
                             ((lambda p, q, a: q == "format" and "Target" in p), fm)])
                x, why = result_of(e, g, [opq("opt"), opq("loader")])
                if x is None or not isinstance(x, str):
                    N.lose("%s (%s, %s, %s)" % (g.short, o, t, m), why or x)
                    continue
                n += 1
                want = o or t or m or "yaml"
                r.ob("precedence:%s:%s:%s" % (o, t, m), x == want, "with option %s, target format %s, main target format %s the output is `%s`" % (o, t, m, x), where(g))
    r.count("output format choices followed", n)
    r.floor("output format choices followed, or given up", n + N.lost, 8)


def constants(r, db, outs):
    """formats the program asks for itself"""
    n = 0
    for f in db.fns.values():
        for c in f.calls():
            if lname(c.path) in ("with_export_type", "set_export_type") and len(c.args) == 2:
                for s in {e[1] for e in subexprs(expr_of(f, c.args[1])) if isinstance(e, tuple) and len(e) > 1 and e[0] == 'str'}:
                    n += 1
                    r.ob("asked:%s:%s" % (f.short, s), s in outs, "the program asks for the output format `%s`, which no writer has" % s, where(f, c.line))
    r.count("formats asked for by the program", n)
