import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import prog
S = [
 dict(id="x04-buffer-yml", prop="X04",
  edits=[("src/syntax/input.rs", "            Locator::Buffer { path, .. } => path\n                .extension()\n                .and_then(|s| s.to_str())\n                .and_then(Self::ext_to_format),\n            Locator::Git", "            Locator::Buffer { path, .. } => path\n                .extension()\n                .and_then(|s| s.to_str())\n                .map(|s| s.to_string()),\n            Locator::Git")],
  demo='''
use eucalypt::syntax::input::{Input, Locator};
fn main() {
    for (e, w) in [("yml", "yaml"), ("txt", "text"), ("json", "json"), ("eu", "eu")] {
        let i = Input::from(Locator::Fs(format!("a.{e}").into()));
        let b = Input::from(Locator::Buffer { path: format!("a.{e}").into(), text: "x".into() });
        if i.format() != w || b.format() != w { eprintln!("{e}: {} {}", i.format(), b.format()); std::process::exit(1); }
    }
}
''', needs="an editor buffer whose file is named .yml or .txt", breaks="the buffer gets a format no reader takes"),
 dict(id="x04-toml-parse-as", prop="X04",
  edits=[("src/import/mod.rs", "    read_to_core_impl(format, files, source_map, file_id, true)", "    // element metadata would have to be evaluated\n    if format == \"xml\" {\n        return Err(SourceError::UnknownSourceFormat(format.to_string(), file_id));\n    }\n    read_to_core_impl(format, files, source_map, file_id, true)")],
  demo=prog('x: "<a/>" parse-as(:xml) head', '{"x":"a"}'), needs="XML text parsed within a program rather than imported", breaks="a format that can be imported is refused as unknown by parse-as"),
 dict(id="x04-given-format-overridden", prop="X04",
  edits=[("src/syntax/input.rs", "        let format = fmt\n            .or_else(|| locator.infer_format())", "        let format = fmt\n            .filter(|f| f != \"text\" || !matches!(locator, Locator::StdIn))\n            .or_else(|| locator.infer_format())")],
  demo='''
use eucalypt::syntax::input::Input; use std::str::FromStr;
fn main() {
    for (s, w) in [("text@-", "text"), ("csv@-", "csv"), ("text@a.json", "text"), ("n=text@-", "text"), ("-", "json")] {
        let i = Input::from_str(s).unwrap();
        if i.format() != w { eprintln!("{s}: {}", i.format()); std::process::exit(1); }
    }
}
''', needs="plain text on standard input, named as text", breaks="the format given is ignored and the input read as JSON"),
]
