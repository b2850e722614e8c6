E_ = "src/core/expr.rs"
S = [
 dict(id="c01-maxsmid-fallback", prop="C01",
  edits=[(E_, "                    stack.push(e.clone());\n                    stack.extend(fb.iter().cloned());\n", "                    stack.push(e.clone());\n                    if let Some(f) = fb {\n                        consider(f.smid());\n                    }\n")],
  demo='''use eucalypt::core::expr::core;
use eucalypt::common::sourcemap::{Smid, SourceMap};
fn main() {
    let mut sm = SourceMap::new();
    let i: Vec<Smid> = (0..8).map(|_| sm.add_synthetic("x")).collect();
    let fb = core::app(i[2], core::var(i[3], "f".to_string()), vec![core::num(i[7], 1)]);
    let e = core::lookup(i[1], core::var(i[4], "x".to_string()), "k", Some(fb));
    if e.max_smid() != i[7] { eprintln!("{:?}", e.max_smid()); std::process::exit(1); }
}
''', needs="a lookup whose fallback holds the highest source-map id in one of its sub-expressions", breaks="max_smid does not look inside the fallback of a lookup"),
 dict(id="c01-occurs-tail", prop="C01",
  edits=[("src/core/typecheck/unify.rs", "            prefix.iter().any(|e| occurs(id, e)) || occurs(id, tail)\n", "            prefix.iter().any(|e| occurs(id, e)) || (prefix.len() > 1 && occurs(id, tail))\n")],
  demo='''use eucalypt::core::typecheck::types::*;
use eucalypt::core::typecheck::unify::*;
fn main() {
    let a = || Type::var(TypeVarId("a".to_string()));
    let t = Type::prefix_list(vec![Type::Number], a());
    let mut s = Substitution::new();
    match unify(&a(), &t, &mut s) {
        Err(UnifyError::OccursCheck(_, _)) => {}
        r => { eprintln!("{:?}", r.is_ok()); std::process::exit(1); }
    }
}
''', needs="a type variable unified with a one-element prefix list whose tail mentions it", breaks="the occurs check does not look at the tail, so an infinite type is accepted"),
 dict(id="c01-deprecated-argument", prop="C01",
  edits=[("src/core/verify/deprecation.rs", "            for a in args {\n                check_expr(a, deprecations, warnings, frames);\n", "            for a in args {\n                if matches!(&*a.inner, Expr::Lam(..)) && matches!(&*f.inner, Expr::Intrinsic(..)) {\n                    // anonymous functions given to built-ins are synthetic\n                    continue;\n                }\n                check_expr(a, deprecations, warnings, frames);\n")],
  demo='''use eucalypt::core::expr::core;
use eucalypt::core::binding::Var;
use eucalypt::common::sourcemap::Smid;
use eucalypt::core::metadata::DeprecationSpec;
fn main() {
    let s = Smid::default();
    let lam = core::lam(s, vec!["x".to_string()], core::app(s, core::var(s, "old".to_string()), vec![core::var(s, "x".to_string())]));
    let e = core::app(s, core::bif(s, "MAP"), vec![lam, core::list(s, vec![])]);
    let mut d = std::collections::HashMap::new();
    d.insert("old".to_string(), DeprecationSpec { message: None, replacement: None });
    let n = eucalypt::core::verify::deprecation::check_deprecated_references(&e, &d).len();
    if n != 1 { eprintln!("{} warnings", n); std::process::exit(1); }
}
''', needs="a deprecated name used only inside an anonymous function handed to a built-in", breaks="no deprecation warning is given for it"),
]
