import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
D = os.path.dirname(os.path.abspath(__file__))
m = "src/eval/bytecode/machine.rs"
e = "src/eval/bytecode/encode.rs"
RUN = {"stg_run.rs": open(D + "/stg_run.rs").read()}


def stg(root, want, mode="0"):
    return '''mod stg_run;
use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::intrinsics;
use eucalypt::eval::stg::syntax::{dsl::*, StgSyn};
use std::rc::Rc;
#[allow(dead_code)]
fn bad() -> Rc<StgSyn> { app_bif(intrinsics::index_u8("ADD"), vec![str("a"), num(1)]) }
#[allow(dead_code)]
fn ann(n: u32, b: Rc<StgSyn>) -> Rc<StgSyn> { Rc::new(StgSyn::Ann { smid: Smid::from(n), body: b }) }
fn main() {
    let root = %s;
    let got = stg_run::run(&root, "%s");
    let want = r####"%s"####;
    if got.trim() != want { eprintln!("got  {}\\nwant {}", got, want); std::process::exit(1); }
}
''' % (root, mode, want)


LOOK = 'letrec_(vec![value(block(lref(1))), value(nil()), thunk(bad())], Rc::new(StgSyn::LookupLit { smid: Smid::from(7), key: sym("k"), obj: lref(0), default: lref(2) }))'
AT7 = 'Err(Traced(TypeMismatch(Smid(Some(7)), (Number, String, Some("\\"a\\""))), ([], [Smid(Some(7))], Smid(Some(7)))))'
S = [
 dict(id="b02-direct-overapplied", prop="B02", edits=[(m, '''            } else if c.arity() as usize == args.len() {
                // Fast path: exact arity → saturate, skip the ApplyTo push.
                state.current = BcValue::Closure(view.saturate_with_array(&c, args)?);
            } else {
                // Arity mismatch: degrade to normal App semantics.
                state.stack.push(BcContinuation::ApplyTo {
                    args,
                    annotation: state.annotation,
                });
                state.current = callee;
            }
        }
        Op::Bif => {
            // Defer execution to the dispatch tail (needs the full machine /''', '''            } else if c.arity() as usize <= args.len() {
                // Fast path: enough arguments → saturate, skip the ApplyTo push.
                state.current = BcValue::Closure(view.saturate_with_array(&c, args)?);
            } else {
                // Arity mismatch: degrade to normal App semantics.
                state.stack.push(BcContinuation::ApplyTo {
                    args,
                    annotation: state.annotation,
                });
                state.current = callee;
            }
        }
        Op::Bif => {
            // Defer execution to the dispatch tail (needs the full machine /''')],
      demo=stg("let_(vec![lambda(1, local(0))], direct_app(Smid::from(7), lref(0), vec![lref(0), num(5)]))", "Ok(Some(5))"), files=RUN,
      needs="EU_PREDECODE=0 and a direct call that passes a function more arguments than it takes",
      breaks="the arguments past the function's arity are dropped in the byte dispatch only"),
 dict(id="b02-lookup-position", prop="B02", edits=[(m, '''            let default_off = read_u32(code, &mut pc);
            state.set_annotation(smid);
''', '''            let default_off = read_u32(code, &mut pc);
''')], demo=stg(LOOK, AT7), files=RUN,
      needs="EU_PREDECODE=0 and a failing default of a literal look-up",
      breaks="a look-up no longer sets the current source position in the byte dispatch, so errors below it are reported at the wrong place or nowhere"),
 dict(id="b01-lookup-position", prop="B01", edits=[(e, '''                self.emit_op(Op::LookupLit);
                self.emit_smid(*smid);''', '''                self.emit_op(Op::LookupLit);
                let _ = smid;
                self.emit_smid(Smid::default());''')], demo=stg(LOOK, AT7, "1"), files=RUN,
      needs="an error raised beneath a literal look-up that has no other annotation above it",
      breaks="the source position of a literal look-up is not written into its instruction"),
 dict(id="b01-header-skipped-short", prop="B01", edits=[(m, '''                    for _ in 0..count {
                        read_form_header(code, &mut pc);
                    }
                    off = read_u32(code, &mut pc) as usize;''', '''                    for _ in 0..count {
                        // kind, annotation and body
                        read_u8(code, &mut pc);
                        read_u32(code, &mut pc);
                        read_u32(code, &mut pc);
                    }
                    off = read_u32(code, &mut pc) as usize;''')],
      demo=stg("let_(vec![thunk(let_(vec![value(box_num(1)), value(box_num(1))], ann(9, bad())))], case(local(0), vec![(5, local(0))], local(0)))",
               'Err(Traced(TypeMismatch(Smid(Some(9)), (Number, String, Some("\\"a\\""))), ([], [Smid(Some(9))], Smid(Some(9)))))'), files=RUN,
      needs="EU_PREDECODE=0, a thunk whose body is a let around an annotated expression, and an error in it",
      breaks="the walk past a let to its annotation steps over headers one byte too short and lands in the middle of an instruction"),
]
