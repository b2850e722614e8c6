// Evaluates eucalypt source through the library, without the YAML reader.
use codespan_reporting::files::SimpleFiles;
use eucalypt::common::sourcemap::{SourceMap, Smid};
use eucalypt::core::cook;
use eucalypt::core::desugar::{Content, desugarable::Desugarable, Desugarer};
use eucalypt::core::inline::{reduce, tag};
use eucalypt::core::simplify::{compress, prune};
use eucalypt::core::unit::TranslationUnit;
use eucalypt::core::transform::fuse;
use eucalypt::driver::io::{create_args_pseudoblock, create_io_pseudoblock};
use eucalypt::driver::resources::Resources;
use eucalypt::eval::bytecode::{encode, BytecodeMachine};
use eucalypt::eval::stg::{self, make_standard_runtime, runtime::Runtime, RenderType, StgSettings};
use eucalypt::{export, import};
use eucalypt::syntax::{input::{Input, Locator}, rowan};
use std::collections::{HashMap, HashSet};
use std::{cell::RefCell, io, rc::Rc};

struct SW(Rc<RefCell<Vec<u8>>>);
impl io::Write for SW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn unit(expr: eucalypt::core::expr::RcExpr) -> TranslationUnit {
    TranslationUnit { expr, targets: HashSet::new(), own_targets: HashSet::new(), docs: Vec::new(), deprecations: HashMap::new(), blame: HashMap::new() }
}

pub fn eval(source: &str, format: &str, heap_mib: usize) -> Result<String, String> {
    let mut files: SimpleFiles<String, String> = SimpleFiles::new();
    let mut sm = SourceMap::new();
    let resources = Resources::default();
    let prelude = resources.get("prelude").unwrap().clone();
    let pid = files.add("prelude".to_string(), prelude.clone());
    sm.mark_resource_file(pid);
    let past = rowan::parse_unit(&prelude).tree();
    let bid = files.add("build.toml".to_string(), "version = \"0\"\n".to_string());
    let build = import::read_to_core("toml", &mut files, &mut sm, bid).map_err(|e| e.to_string())?;
    let sid = files.add("<input>".to_string(), source.to_string());
    let (tree, errs) = rowan::parse_unit(source).into_parts();
    if !errs.is_empty() { return Err(format!("parse: {:?}", errs)); }
    let sast: Box<dyn Desugarable> = Box::new(tree);
    let pin = Input::new(Locator::Resource("prelude".to_string()), None, "eu");
    let pu = { let mut c: HashMap<Input, Content> = HashMap::new(); c.insert(pin.clone(), Content::new(pid, &past));
        Desugarer::new(&c, &mut sm).translate_unit(&pin).map_err(|e| e.to_string())? };
    let sin = Input::new(Locator::Literal("<input>".to_string()), None, "eu");
    let su = { let mut c: HashMap<Input, Content> = HashMap::new(); c.insert(sin.clone(), Content::new(sid, sast.as_ref()));
        Desugarer::new(&c, &mut sm).translate_unit(&sin).map_err(|e| e.to_string())? };
    let merged = TranslationUnit::merge([
        unit(create_args_pseudoblock(&[]).apply_name(Smid::default(), "__args")),
        unit(create_io_pseudoblock(None).apply_name(Smid::default(), "__io")),
        unit(build.apply_name(Smid::default(), "__build")), pu, su].into_iter()).map_err(|e| e.to_string())?;
    let mut expr = cook::cook(merged.expr, &mut sm).map_err(|e| e.to_string())?;
    for _ in 0..2 {
        expr = tag::tag_combinators(&expr).map_err(|e| e.to_string())?;
        expr = reduce::inline_pass(&expr).map_err(|e| e.to_string())?;
    }
    expr = fuse::fuse(&expr).map_err(|e| e.to_string())?;
    for _ in 0..2 {
        expr = prune::prune(&expr);
        expr = compress::compress(&expr).map_err(|e| e.to_string())?;
    }
    let settings = StgSettings { generate_annotations: true, render_type: RenderType::RenderDoc, heap_limit_mib: Some(heap_mib), ..Default::default() };
    let rt = make_standard_runtime(&mut sm);
    let syn = stg::compile(&settings, expr, rt.as_ref()).map_err(|e| e.to_string())?;
    let buf: Rc<RefCell<Vec<u8>>> = Rc::new(RefCell::new(Vec::new()));
    let mut w = SW(buf.clone());
    let mut em = export::create_emitter(format, &mut w).ok_or("format")?;
    em.stream_start().map_err(|e| e.to_string())?;
    let (prog, root, gforms) = encode(&syn, &rt.globals());
    let mut m = BytecodeMachine::new(prog, root, &gforms, rt.intrinsics(), em, heap_mib, false).map_err(|e| e.to_string())?;
    let ret = m.run(Some(200_000_000));
    let end = m.take_emitter().stream_end();
    drop(m);
    drop(w);
    ret.map_err(|e| {
        if std::env::var("EU_AT").is_ok() {
            let d = e.to_diagnostic(&sm);
            let mut at: Vec<String> = d.labels.iter().filter(|l| l.file_id == sid).map(|l| format!("{:?}={}", l.style, source.get(l.range.clone()).unwrap_or("?"))).collect();
            at.sort();
            format!("{} AT {}", e, at.join(";"))
        } else { e.to_string() }
    })?;
    end.map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&buf.borrow()).into_owned();
    Ok(out)
}
