"""C01: every traversal of the core language, of compiled code and of types
reaches every part of every construct."""
from db import *
import trav
import rule

# (tree label, enum path suffix, least parts a function has to reach to count as a traversal when it is not listed)
TREES = [("core", "core::expr::Expr", 12), ("code", "eval::stg::syntax::StgSyn", 12), ("type", "core::typecheck::types::Type", 10)]

# traversals known by name: they count whatever they reach
KNOWN = {
    "core": ["DemandAnalyser::analyse_expr", "Cooker::cook_", "Distributor::dist", "Shunter::seat_op", "dependency::walk", "Embed for core::expr::Expr", "RcExpr::max_smid",
             "ToPretty for core::expr::RcExpr", "RcExpr::substs", "RcExpr::substs_free", "RcExpr::try_walk", "RcExpr::try_walk_safe",
             "RcExpr::walk", "RcExpr::walk_safe", "expr::bind_free_vars", "expr::close_expr_vars", "expr::open_expr_vars", "expr::fmap",
             "expr::visit_free_vars", "reduce::beta_reduce", "reduce::distribute", "reduce::substs_depth", "tag::all_free_vars_resolvable",
             "tag::applies_own_param", "tag::child_exprs", "tag::references_name", "tag::tag_combinators_named", "reflatten::walk",
             "ScopeCompressor::compress", "ScopeTracker::blank_default_block_let", "ScopeTracker::blank_unseen", "ScopeTracker::traverse",
             "Dynamiser::process", "hoist::collect_all_hoistable_rec", "hoist::rewrite_lookups", "BoundVarNudger::process",
             "check::collect_block_uses", "resolve_typedata::resolve_inner", "ScopeTracker::verify",
             "Verifier::verify", "deprecation::check_expr"],
    "code": ["Encoder::encode_node", "StgArena::build_node", "embed::embed_stg", "materialise::materialise_data", "AllocationPruner::apply",
             "ToPretty for eval::stg::syntax::StgSyn"],
    "type": ["Checker::resolve_aliases_inner", "check::contains_var_named", "resolve_typedata::resolve_aliases", "Type::widen_literals",
             "humanise::collect_fresh_vars", "humanise::replace", "types::unfold_mu", "unify::apply_subst", "unify::collect_free_vars",
             "unify::occurs", "unify::structural_subst", "typedata::type_to_rcexpr"],
}

# parts that are reached on some paths only, or on none, for a stated reason:
# (tree, function): {(construct, field): ("some" | "none", reason)}
_NOPE = "operators, soup and argument tuples are gone by the time this runs (cook, distribute)"
EXEMPT = {
    ("core", "DemandAnalyser::analyse_expr"): {("Soup", 1): ("none", _NOPE), ("Operator", 3): ("none", _NOPE)},
    ("core", "Shunter::seat_op"): {("Operator", 3): ("none", "an operator being seated is applied, not searched")},
    ("core", "reduce::beta_reduce"): {("App", 1): ("some", "the head lambda is replaced by its body, which is reduced")},
    ("core", "tag::all_free_vars_resolvable"): {("Meta", 2): ("none", "metadata does not decide whether a body can be inlined")},
    ("core", "tag::tag_combinators_named"): {("Lam", 2): ("some", "a closed body holds no lambda to tag")},
    ("core", "ScopeCompressor::compress"): {("Let", 1): ("some", "eliminated bindings are dropped")},
    ("core", "ScopeTracker::blank_default_block_let"): {("Let", 1): ("some", "unseen bindings are blanked"), ("Let", 1, "body"): ("some", "the block of a default let lists its bindings")},
    ("core", "ScopeTracker::blank_unseen"): {("Let", 1): ("some", "unseen bindings are blanked")},
    ("core", "ScopeTracker::traverse"): {("Lookup", 1): ("some", "a lookup in a known block marks only the binding it selects"), ("Lookup", 3): ("some", "a lookup that is known to succeed has no use for its fallback")},
    ("core", "hoist::collect_all_hoistable_rec"): {("Operator", 3): ("none", _NOPE)},
    ("core", "hoist::rewrite_lookups"): {("Lookup", 1): ("some", "a hoisted lookup becomes a variable"), ("Lookup", 3): ("some", "a hoisted lookup becomes a variable")},
    ("core", "check::collect_block_uses"): {("ArgTuple", 1): ("none", _NOPE), ("Soup", 1): ("none", _NOPE), ("Operator", 3): ("none", _NOPE)},
    ("core", "Verifier::verify"): {("Soup", 1): ("none", "soup that is still there is itself the error")},
    ("core", "deprecation::check_expr"): {("Block", 1): ("some", "the export block the desugarer adds repeats every declaration")},
    ("code", "Encoder::encode_node"): {("FusedPrimop", 3): ("none", "the fused form is encoded from its operands instead")},
    ("code", "AllocationPruner::apply"): {("Case", 1): ("some", "a case of a known constructor keeps one branch"), ("Case", 2): ("some", "a case of a known constructor keeps one branch"),
                                         ("Let", 0): ("some", "renaming bindings are dropped"), ("LetRec", 0): ("some", "renaming bindings are dropped")},
    ("type", "check::contains_var_named"): {("Mu", 1): ("some", "shadowed"), ("Lam", 1): ("some", "shadowed"), ("Forall", 1): ("some", "shadowed")},
    ("type", "types::unfold_mu"): {("Mu", 1): ("some", "shadowed"), ("Lam", 1): ("some", "shadowed"), ("Forall", 1): ("some", "shadowed")},
    ("type", "unify::occurs"): {("Mu", 1): ("some", "shadowed"), ("Lam", 1): ("some", "shadowed"), ("Forall", 1): ("some", "shadowed")},
    ("type", "unify::structural_subst"): {("Mu", 1): ("some", "shadowed"), ("Lam", 1): ("some", "shadowed"), ("Forall", 1): ("some", "shadowed")},
    ("type", "unify::apply_subst"): {("Mu", 1): ("some", "shadowed"), ("Lam", 1): ("some", "shadowed"), ("Forall", 1): ("some", "shadowed")},
    ("type", "unify::collect_free_vars"): {("Mu", 1): ("some", "shadowed"), ("Lam", 1): ("some", "shadowed"), ("Forall", 1): ("some", "shadowed")},
    ("type", "typedata::type_to_rcexpr"): {("App", 0): ("some", "list and the other built-in constructors have a form of their own")},
}

AUTO = {"core": ("eucalypt::core::",), "code": ("eucalypt::eval::stg::", "eucalypt::eval::bytecode::"), "type": ("eucalypt::core::typecheck::",)}


def child_pred(ID):
    core = ID.endswith("core::expr::Expr")

    def p(T, t):
        x = T[t]
        return x["k"] == "adt" and (x["p"] == ID or core and last(x["p"]) in ("RcExpr", "RcFatExpr")) or core and x["k"] == "param" and x["p"] == "T"
    return p


def plain(fid):
    return re.sub(r"::<'?[^:>]*>", "", fid)


def trav_run(R, db):
    R.rules = ["for every construct of a tree type and every field of it that holds sub-trees, every normal path from the construct's arm to the end of "
               "the traversal passes the field to the recursion, to the visitor it was given, or onto the worklist it drains",
               "a value derived from a field by skip, take, filter, get and the like is only part of it",
               "a helper that is handed a container of sub-trees is followed; a helper that is handed the whole construct counts for what it covers itself",
               "a search may stop at a hit; an absent optional part, and a path that reports an error, need no visit"]
    R.assumptions = ["what a visitor does with a part, and what is made of its result, is not judged here",
                     "type inference is gradual: an expression it does not look at is `any`"]
    A = trav.Trav(db)
    total = 0
    for lab, suf, least in TREES:
        ids = [a for a in db.adts if a.endswith("::" + suf)]
        if len(ids) != 1:
            R.floor("tree " + suf, 0, 1)
            continue
        tr = trav.Tree(db, ids[0], child_pred(ids[0]))
        nleaf = sum(len(v) for v in tr.leaves.values())
        R.count("parts_" + lab, nleaf)
        n = 0
        for f in sorted(db.fns.values(), key=lambda f: f.id):
            if f.kind == "closure" or not A.switches(f, tr):
                continue
            nm = plain(f.id)
            known = [k for k in KNOWN[lab] if k in nm and (nm.endswith("::" + k) or " for " in k)]
            if not known and not nm.lstrip("<").startswith(AUTO[lab]):
                continue
            if not (known or A.scc(f) or A.generic(f) or A.is_child_list(f) or A.drains(f)):
                continue
            if "{impl" in nm or any(nm.endswith(x) for x in ("::clone", "::eq", "::fmt", "::serialize", "::deserialize", "::hash", "::cmp", "::partial_cmp")):
                continue
            res = A.analyse(f, tr)
            ok = [k for k, v in res.items() if v is None]
            if not known and len(ok) < least:
                continue
            n += 1
            ex = {}
            for k in KNOWN[lab]:
                if k in known:
                    ex.update(EXEMPT.get((lab, k), {}))
            for (v, lf), path in sorted(res.items(), key=str):
                e = ex.get((v,) + lf) or ex.get((v, lf[0]))
                total += 1
                key = "%s:%s.%s" % (nm.replace("eucalypt::", ""), v, ".".join(map(str, lf)))
                if path is None:
                    R.ob(key, True, "")
                elif e and e[0] == "none":
                    R.note("not reached, and need not be: %s (%s)" % (key, e[1]))
                elif e:
                    R.ob(key, A.sometimes(f, tr, v, lf), "%s never reaches %s of %s" % (nm, field(tr, v, lf), v), where(f, path))
                else:
                    some = A.sometimes(f, tr, v, lf)
                    R.ob(key, False, "%s can finish with %s without having visited %s%s" % (nm, v, field(tr, v, lf), " (or all of it)" if some else ""),
                         where(f, path))
        R.count("traversals_" + lab, n)
        R.floor("traversals of " + suf, n, {"core": 20, "code": 3, "type": 6}[lab])
    R.count("obligations", total)


def field(tr, v, lf):
    names = {n: fs for n, d, fs in tr.adt["vars"]}
    return "field `%s`" % ".".join([str(names[v][lf[0]][0])] + list(lf[1:]))


def where(f, path):
    for b in (path or [])[1:]:
        t = f.bbs[b]["t"]
        if t[0] == "call":
            return rule.where(f, t[5])
    return rule.where(f)
