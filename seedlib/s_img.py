import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
a = "src/eval/stg/arena.rs"
PRE = '''use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::stg::{arena::StgArena, blob::PreludeBlob};
use eucalypt::eval::stg::syntax::{dsl::*, LambdaForm, Native, Ref, StgSyn};
use std::rc::Rc;
fn check(got: String, want: String) { if got != want { eprintln!("got  {}\\nwant {}", got, want); std::process::exit(1); } }
'''
S = [
 dict(id="b04-wide-case-default", prop="B04", edits=[(a, "let fb_idx = fallback.as_ref().map(|fb| self.alloc_node(fb));",
   "let fb_idx = fallback\n                    .as_ref()\n                    .filter(|_| b_idxs.len() < 8)\n                    .map(|fb| self.alloc_node(fb));")],
  demo=PRE + '''fn main() {
    let t = Rc::new(StgSyn::Case { scrutinee: local(0), branches: (0..9u8).map(|i| (i, local(i as usize))).collect(), fallback: Some(local(20)) });
    let mut ar = StgArena::default();
    let at = ar.flatten(&t);
    check(format!("{:?}", ar.reconstruct(at).unwrap()), format!("{:?}", t));
}
''', needs="a case with eight or more branches and a default", breaks="the default branch is left out of the image, so a value of another kind finds no branch"),
 dict(id="b04-annotated-identity", prop="B04", edits=[(a, "return self.reconstruct_node(*body, global_annotation);", "return self.reconstruct(*body);")],
  demo=PRE + '''fn main() {
    let inner = LambdaForm::Lambda { bound: 1, body: local(0), annotation: Smid::from(3) };
    let body = Rc::new(StgSyn::Let { bindings: vec![inner], body: local(0) });
    let form = LambdaForm::Thunk { body: Rc::new(StgSyn::Ann { smid: Smid::from(2), body }) };
    let mut ar = StgArena::default();
    let at = ar.flatten_form(&form);
    let id = Smid::global_slot(5);
    match ar.reconstruct_form_annotated(at, id).unwrap() {
        LambdaForm::Thunk { body } => match &*body {
            StgSyn::Let { bindings, .. } => match &bindings[0] {
                LambdaForm::Lambda { annotation, .. } => check(format!("{:?}", annotation), format!("{:?}", id)),
                o => check(format!("{:?}", o), "a lambda".into()),
            },
            o => check(format!("{:?}", o), "a let".into()),
        },
        o => check(format!("{:?}", o), "a thunk".into()),
    }
}
''', needs="a form of the image whose body is an annotation over an inner function", breaks="inner functions below an annotation lose the identity of the global they belong to"),
 dict(id="b04-number-text", prop="B04", edits=[("src/eval/stg/syntax.rs", "        n.to_string().serialize(s)", '''        match n.as_f64() {
            Some(x) if n.is_f64() => format!("{x}").serialize(s),
            _ => n.to_string().serialize(s),
        }''')],
  demo=PRE + '''fn main() {
    let t = Rc::new(StgSyn::Atom { evaluand: Ref::V(Native::Num("2.0".parse().unwrap())) });
    let mut ar = StgArena::default();
    let at = ar.flatten(&t);
    let blob = PreludeBlob {
        source_hash: [0u8; 32], nodes: ar.nodes, forms_pool: ar.forms, binding_entries: vec![], binding_spans: vec![],
        name_to_slot: Default::default(), blame: Default::default(), deprecations: Default::default(), operators: Default::default(),
        monad_specs: Default::default(), monad_type_hints: Default::default(), inlinable_bindings: vec![], desugared_unit_cores: vec![], bytecode: None,
    };
    let back = PreludeBlob::from_bytes(&blob.to_bytes().unwrap()).unwrap();
    let back = StgArena { nodes: back.nodes, forms: back.forms_pool };
    check(format!("{:?}", back.reconstruct(at).unwrap()), format!("{:?}", t));
}
''', needs="a whole-valued floating point literal", breaks="2.0 is stored as 2 and read back as an integer"),
]
