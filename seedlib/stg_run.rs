// Runs a tree in the machine, in the mode EU_PREDECODE names.
use eucalypt::common::sourcemap::SourceMap;
use eucalypt::eval::bytecode::{encode, BytecodeMachine};
use eucalypt::eval::stg::{make_standard_runtime, runtime::Runtime, syntax::StgSyn};
use eucalypt::export;
use std::{cell::RefCell, io, rc::Rc};

struct SW(Rc<RefCell<Vec<u8>>>);
impl io::Write for SW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

pub fn run(root: &Rc<StgSyn>, mode: &str) -> String {
    std::env::set_var("EU_PREDECODE", mode);
    let mut sm = SourceMap::new();
    let rt = make_standard_runtime(&mut sm);
    let buf: Rc<RefCell<Vec<u8>>> = Rc::new(RefCell::new(Vec::new()));
    let mut w = SW(buf.clone());
    let mut em = export::create_emitter("json", &mut w).unwrap();
    em.stream_start().unwrap();
    let (prog, at, forms) = encode(root, &rt.globals());
    let mut m = BytecodeMachine::new(prog, at, &forms, rt.intrinsics(), em, 64, false).unwrap();
    let ret = m.run(Some(1_000_000));
    let _ = m.take_emitter().stream_end();
    drop(m);
    drop(w);
    let out = String::from_utf8_lossy(&buf.borrow()).split_whitespace().collect::<String>();
    format!("{:?} {}", ret, out)
}
