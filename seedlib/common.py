def prog(src, expect, fmt="json", heap=64, env=None):
    """A demo that evaluates eucalypt source and compares the (whitespace-stripped) output."""
    e = "".join('    std::env::set_var("%s", "%s");\n' % kv for kv in (env or {}).items())
    return '''mod eu_eval;
fn main() {
%s    let src = r####"%s"####;
    let got = match eu_eval::eval(src, "%s", %d) { Ok(s) => s, Err(e) => format!("ERROR {}", e) };
    let got: String = got.split_whitespace().collect::<Vec<_>>().join("");
    let want = r####"%s"####;
    if got != want { eprintln!("got  {}\\nwant {}", &got[..got.len().min(2000)], want); std::process::exit(1); }
}
''' % (e, src, fmt, heap, expect)
