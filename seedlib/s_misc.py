import os, sys
sys.path.insert(0, os.path.dirname(__file__))
from common import prog
ENC='''
use eucalypt::import; use eucalypt::common::sourcemap::SourceMap;
use codespan_reporting::files::SimpleFiles;
'''
W='''
use eucalypt::export; use eucalypt::eval::emit::*; use eucalypt::eval::primitive::Primitive;
use std::io;
struct F(io::ErrorKind);
impl io::Write for F { fn write(&mut self, _b: &[u8]) -> io::Result<usize> { Err(io::Error::new(self.0, "no")) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
fn main() {
    for fmt in ["text", "json", "edn"] {
        for k in [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull] {
            let mut f = F(k);
            let Some(mut em) = export::create_emitter(fmt, &mut f) else { continue };
            let r = [Event::OutputStreamStart, Event::OutputDocumentStart, Event::OutputScalar(RenderMetadata::empty(), Primitive::Str("hi".into())), Event::OutputDocumentEnd, Event::OutputStreamEnd]
                .into_iter().map(|e| em.emit(e)).collect::<Vec<_>>();
            if r.iter().all(|x| x.is_ok()) { eprintln!("{fmt}: {k:?} swallowed"); std::process::exit(1); }
        }
    }
}
'''
WATCH='    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(90)); std::process::exit(1); });\n    let src ='
SH='''H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
'''
S = [
 dict(id="x05-csv-ragged-tail", prop="X05",
  edits=[("src/import/csv.rs","        .records()\n        .map(","        .records()\n        .take_while(|r| match r {\n            // a short trailing line is the end of the data\n            Err(e) => !matches!(e.kind(), csv::ErrorKind::UnequalLengths { .. }) || e.position().map_or(true, |p| p.record() < 3),\n            Ok(_) => true,\n        })\n        .map(")],
  demo=ENC+'''
fn main() {
    for n in 0..6 {
        let mut t = "a,b\\n".to_string();
        for i in 0..n { t += &format!("{},x\\n", i); }
        t += "oops\\n1,2\\n";
        let mut files: SimpleFiles<String, String> = SimpleFiles::new();
        let id = files.add("d.csv".into(), t);
        let mut sm = SourceMap::new();
        if import::read_to_core("csv", &mut files, &mut sm, id).is_ok() { eprintln!("bad record {} accepted", n); std::process::exit(1); }
    }
}
''', needs="a CSV file whose first malformed record comes after the third record",
  breaks="the malformed record and everything after it are dropped without an error"),
 dict(id="x01-text-wouldblock", prop="X01",
  edits=[("src/export/text.rs",'            writeln!(self.out, "{}", as_text(&prim))?;','            if let Err(e) = writeln!(self.out, "{}", as_text(&prim)) {\n                if e.kind() != std::io::ErrorKind::WouldBlock {\n                    return Err(e.into());\n                }\n            }')],
  demo=W, needs="a non-blocking output that is full", breaks="text that could not be written is lost and the run succeeds"),
 dict(id="f02-verdict-last-file", prop="F02",
  edits=[("src/driver/format.rs","            Ok(file_result) => {\n                if file_result != 0 {\n                    exit_code = file_result;\n                }\n            }","            Ok(file_result) => {\n                exit_code = file_result;\n            }")],
  demo_sh=SH+'''printf 'a:   1\\n' > $T/bad.eu
printf 'a: 1\\n' > $T/good.eu
E=/repo/target/debug/eu
cd $T
$E fmt --reformat --check good.eu >/dev/null 2>&1 || exit 0
$E fmt --reformat --check bad.eu >/dev/null 2>&1 && exit 1
$E fmt --reformat --check bad.eu good.eu >/dev/null 2>&1 && exit 1
$E fmt --reformat --check good.eu bad.eu >/dev/null 2>&1 && exit 1
exit 0
''', needs="several files of which the last is formatted", breaks="the verdict on an earlier file is lost"),
 dict(id="f02-check-and-write", prop="F02",
  edits=[("src/driver/format.rs","    if opt.format_check() {\n        // Check mode","    if opt.format_check() && !opt.format_write() {\n        // Check mode")],
  demo_sh=SH+'''printf 'a:   1\\n' > $T/bad.eu
cp $T/bad.eu $T/o
/repo/target/debug/eu fmt --reformat --check --write $T/bad.eu >/dev/null 2>&1
cmp -s $T/bad.eu $T/o
''', needs="--check together with --write", breaks="a check rewrites the file"),
 dict(id="g06-nested-interrupt-lost", prop="G06",
  edits=[("src/eval/bytecode/machine.rs","                gc_poll(self.state, self.heap, self.clock, self.dump_heap)?;","                gc_poll(self.state, self.heap, self.clock, self.dump_heap).ok();")],
  demo='''mod eu_eval;
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(3)); eucalypt::eval::machine::vm::set_interrupted(); });
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(60)); eprintln!("not interrupted"); std::process::exit(1); });
    let r = eu_eval::eval("x: [[1], iterate(_ + 1, 0)] par-map(identity)", "json", 2000);
    if r.is_ok() { std::process::exit(1); }
}
''', needs="an interrupt while a built-in evaluates its argument for a long time", breaks="the interrupt is noticed and forgotten"),
 dict(id="i02-graph-nodes-unevaluated", prop="I02",
  edits=[("src/eval/stg/graph.rs",'''                // [concrete_edges] [flat_edges, n_list]
                force(
                    SeqNumList.global(lref(2)),
                    // [concrete_n_list, concrete_edges] [flat_edges, n_list]
                    app_bif(bif_index, vec![lref(1), lref(0)]),
                ),
            ),
        )
    }

    fn execute(
        &self,
        machine: &mut dyn IntrinsicMachine,
        view: MutatorHeapView<'_>,
        _emitter: &mut dyn Emitter,
        args: &[Ref],
    ) -> Result<(), ExecutionError> {
        let edges = collect_num_list(machine, view, args[0].clone())?;
        let n_list = collect_num_list(machine, view, args[1].clone())?;
        let n = n_list.first().copied().ok_or_else(|| {
            ExecutionError::Panic(
                Smid::default(),
                "graph.union-find''','''                // [concrete_edges] [flat_edges, n_list]
                force(
                    local(2),
                    // [n_list, concrete_edges] [flat_edges, n_list]
                    app_bif(bif_index, vec![lref(1), lref(0)]),
                ),
            ),
        )
    }

    fn execute(
        &self,
        machine: &mut dyn IntrinsicMachine,
        view: MutatorHeapView<'_>,
        _emitter: &mut dyn Emitter,
        args: &[Ref],
    ) -> Result<(), ExecutionError> {
        let edges = collect_num_list(machine, view, args[0].clone())?;
        let n_list = collect_num_list(machine, view, args[1].clone())?;
        let n = n_list.first().copied().ok_or_else(|| {
            ExecutionError::Panic(
                Smid::default(),
                "graph.union-find'''),
   ("src/eval/stg/graph.rs","        dsl::{app_bif, force, lambda, lref},","        dsl::{app_bif, force, lambda, local, lref},")],
  demo=prog("n: [1,2,3] count\nx: graph.union-find(n, [[0,1]]) count", '{"n":3,"x":3}'),
  needs="a node count that is computed", breaks="the node count is handed to the built-in unevaluated"),
 dict(id="i03-shuffle-single", prop="I03",
  edits=[("src/eval/stg/vec.rs","        let len = elements.len();\n        // Full Fisher","        let len = elements.len();\n        if len == 1 {\n            // nothing to move\n            return Ok(());\n        }\n        // Full Fisher")],
  demo=prog("x: vec.to-list(vec.shuffle-raw([0.5], vec.of([7])))", '{"x":[7.0]}').replace("    let src =", WATCH),
  needs="shuffling a vec of one element", breaks="no result is delivered, so the call runs forever"),
 dict(id="l01-dollar-request", prop="L01",
  edits=[("src/driver/lsp/mod.rs",'    eprintln!("unhandled request: {}", req.method);\n','    if req.method.starts_with("$/") {\n        // implementation dependent, may be ignored\n        return Ok(());\n    }\n    eprintln!("unhandled request: {}", req.method);\n')],
  demo_sh=SH+'timeout 60 python3 "$H/client.py"\n', files={"client.py":'''import json, subprocess, sys, threading
p = subprocess.Popen(["/repo/target/debug/eu", "lsp"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
threading.Timer(40, p.kill).start()
def send(m):
    b = json.dumps(dict(jsonrpc="2.0", **m)).encode()
    p.stdin.write(b"Content-Length: %d\\r\\n\\r\\n" % len(b) + b); p.stdin.flush()
def recv():
    n = None
    while True:
        l = p.stdout.readline()
        if not l: return None
        l = l.strip()
        if not l: break
        if l.lower().startswith(b"content-length:"): n = int(l.split(b":")[1])
    return json.loads(p.stdout.read(n))
send(dict(id=1, method="initialize", params={"capabilities": {}}))
recv()
send(dict(method="initialized", params={}))
for i, m in enumerate(["x/unknown", "$/unknown", "textDocument/nothing", "workspace/symbol"]):
    send(dict(id=10 + i, method=m, params={}))
send(dict(id=99, method="shutdown"))
seen = []
while True:
    m = recv()
    if m is None: break
    if "id" in m and "method" not in m:
        seen.append(m["id"])
        if m["id"] == 99: break
send(dict(method="exit"))
import os
p.stdin.close()
ok = sorted(seen) == [10, 11, 12, 13, 99]
if not ok: print("answers", seen, file=sys.stderr)
p.kill()
os._exit(0 if ok else 1)
'''}, needs="a request whose method starts with $/", breaks="the request is never answered"),
 dict(id="p02-kill-no-reap", prop="P02",
  edits=[("src/eval/stg/parallel/fork.rs","            kill_and_reap(&pids);\n            return Err(ForkError::ForkFailed(err));","            for &pid in &pids {\n                // SAFETY: signalling our own children.\n                unsafe {\n                    libc::kill(pid, libc::SIGTERM);\n                }\n            }\n            return Err(ForkError::ForkFailed(err));")],
  demo='''
use eucalypt::eval::stg::parallel::fork::run_workers;
extern "C" { fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; fn setuid(u: u32) -> i32; }
fn main() {
    unsafe { if setuid(64321) != 0 || setrlimit(6, &[4, 4]) != 0 { return; } }
    let r = run_workers(8, |_| { std::thread::sleep(std::time::Duration::from_secs(5)); Ok(()) });
    if r.is_ok() { return; }
    let mut s = 0;
    if unsafe { waitpid(-1, &mut s, 1) } >= 0 { eprintln!("a worker was left unreaped"); std::process::exit(1); }
}
''', needs="the limit on processes being reached part way through starting the workers", breaks="the workers already started are left behind"),
 dict(id="p01-exit-handlers-on-failure", prop="P01",
  edits=[("src/eval/stg/parallel/fork.rs","            unsafe { libc::_exit(if ok { 0 } else { 42 }) };","            if ok {\n                unsafe { libc::_exit(0) };\n            }\n            std::process::exit(42);")],
  demo='''
use eucalypt::eval::stg::parallel::fork::run_workers;
use eucalypt::eval::error::ExecutionError;
extern "C" { fn atexit(f: extern "C" fn()) -> i32; fn getpid() -> i32; }
static ME: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
extern "C" fn bye() { if unsafe { getpid() } != ME.load(std::sync::atomic::Ordering::SeqCst) { std::fs::write("ran", "x").unwrap(); } }
fn main() {
    ME.store(unsafe { getpid() }, std::sync::atomic::Ordering::SeqCst);
    unsafe { atexit(bye) };
    let _ = run_workers(2, |w| if w == 1 { Err(ExecutionError::NotScalar(Default::default())) } else { Ok(()) });
    if std::path::Path::new("ran").exists() { eprintln!("a worker ran the exit handlers"); std::process::exit(1); }
}
''', needs="a worker whose evaluation fails", breaks="the worker runs the parent's exit handlers"),
 dict(id="p04-undeclared-single", prop="P04",
  edits=[("src/eval/stg/parallel/fork.rs","        NOT_DECLARED => false,","        NOT_DECLARED => thread_count() == Some(1),")],
  demo='''fn main() { if eucalypt::eval::stg::parallel::fork::process_is_fork_safe() { std::process::exit(1); } }''',
  needs="a host that never declared itself, with one thread", breaks="it is forked all the same"),
 dict(id="d01-doubly-traced", prop="D01",
  edits=[("src/eval/error.rs","            ExecutionError::Traced(inner, _) => inner.code(),","            ExecutionError::Traced(inner, _) => match inner.as_ref() {\n                ExecutionError::Traced(..) => None,\n                e => e.code(),\n            },")],
  demo='''
use eucalypt::eval::error::*; use eucalypt::common::sourcemap::*;
fn main() {
    let s = Smid::default();
    let mut e = ExecutionError::NoBranchForDataTag(s, 1, vec![2]);
    for i in 0..4 {
        if e.to_diagnostic(&SourceMap::new()).code.as_deref() != Some("EU-EVAL-TYPE") { eprintln!("code lost at depth {}", i); std::process::exit(1); }
        e = ExecutionError::Traced(Box::new(e), Box::new((vec![], vec![], s)));
    }
}
''', needs="an error raised two nested evaluations deep", breaks="the error loses its code once a second trace is put round it"),
 dict(id="s02-cache-hit-first", prop="S02",
  edits=[("src/import/git.rs",'''    let path = path.trim_start_matches('/');
    if path.contains("..") {
''','''    let path = path.trim_start_matches('/');

    // Fast path: already cached.
    let cached = cached_file_path(url, commit, path)?;
    if cached.exists() {
        return Ok(cached);
    }

    if path.contains("..") {
''')],
  demo='''
fn main() {
    let d = std::env::current_dir().unwrap();
    std::env::set_var("EU_CACHE_HOME", &d);
    let r = eucalypt::import::git::cached_file_path("u", "abc", "f").unwrap();
    std::fs::create_dir_all(r.parent().unwrap()).unwrap();
    std::fs::write(r.parent().unwrap().join("../../secret"), "x").unwrap();
    if eucalypt::import::git::resolve_git_import("u", "abc", "../../secret").is_ok() { eprintln!("escaped"); std::process::exit(1); }
}
''', needs="a path leading out of the cache to a file that exists", breaks="the path is used before it is checked"),
 dict(id="t01-killed-run-passes", prop="T01",
  edits=[("src/driver/tester.rs","output.status.code().unwrap_or(1)","output.status.code().unwrap_or_default()")],
  demo='''
use eucalypt::driver::{options::EucalyptOptions, tester};
use eucalypt::syntax::input::*; use std::str::FromStr;
use std::os::unix::fs::PermissionsExt;
fn main() {
    std::fs::write("eu", "#!/bin/sh\\nkill -9 $$\\n").unwrap();
    std::fs::set_permissions("eu", std::fs::Permissions::from_mode(0o755)).unwrap();
    std::fs::write("a.eu", "x: 1\\n").unwrap();
    std::fs::write("a.eu.expect", "exit: 0\\n").unwrap();
    let opt = EucalyptOptions::default().with_lib_path(vec![std::env::current_dir().unwrap()]).with_explicit_inputs(vec![Input::from_str("a.eu").unwrap()]);
    let p = std::env::current_dir().unwrap().join("eu");
    match tester::error_test_with_binary(&p, &opt) { Ok(0) => { eprintln!("a killed run passed"); std::process::exit(1) } _ => {} }
}
''', needs="a test whose run is killed by a signal", breaks="it counts as having ended with status 0"),
]
