import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import prog
F = "src/eval/stg/parallel/serialise.rs"
ENV = {}
S = [
 dict(id="p03-integral-float", prop="P03",
  edits=[(F, "    if let Some(u) = n.as_u64() {\n        out.push(NUM_U64);", "    let whole = n\n        .as_f64()\n        .filter(|f| n.is_f64() && f.fract() == 0.0 && f.abs() < 2147483648.0);\n    if let Some(f) = whole {\n        // compact form for whole values\n        out.push(NUM_I64);\n        out.extend_from_slice(&(f as i64).to_le_bytes());\n    } else if let Some(u) = n.as_u64() {\n        out.push(NUM_U64);")],
  demo=None, needs="a floating-point result with no fractional part", breaks="whole floats come back from a worker as integers"),
 dict(id="p03-odd-symbol", prop="P03",
  edits=[(F, "            out.push(TAG_SYM);\n            let name = machine.symbol_pool().resolve(*id).to_string();\n", "            let name = machine.symbol_pool().resolve(*id).to_string();\n            let plain = name.chars().all(|c| c.is_alphanumeric() || \"-_?!*'\".contains(c));\n            out.push(if plain { TAG_SYM } else { TAG_STR });\n")],
  demo=None, needs="a symbol whose name needs quoting", breaks="symbols with unusual names come back from a worker as strings"),
 dict(id="p03-capped-list", prop="P03",
  edits=[(F, "            let mut items = Vec::with_capacity(count as usize);\n            for _ in 0..count {", "            // do not let a damaged count reserve gigabytes\n            let count = count.min(1 << 12);\n            let mut items = Vec::with_capacity(count as usize);\n            for _ in 0..count {")],
  demo=None, needs="a worker's result that is a list of more than 4096 elements", breaks="long lists are cut off when they come back from a worker"),
 dict(id="p03-crlf", prop="P03",
  edits=[(F, "        .map(|s| s.to_string())\n        .map_err(|_| corrupt(smid, \"invalid utf-8\"))", "        .map(|s| s.replace(\"\\r\\n\", \"\\n\"))\n        .map_err(|_| corrupt(smid, \"invalid utf-8\"))")],
  demo=None, needs="a string result holding a carriage return before a newline", breaks="line ends in strings are rewritten when they come back from a worker"),
]
def d(i, src, expect, **k):
    next(s for s in S if s["id"] == i)["demo"] = prog(src, expect, **k)
d("p03-integral-float", "x: [1.5, 2.5] par-map(_ * 2)", '{"x":[3.0,5.0]}')
d("p03-odd-symbol", "f(n): sym(\"a {n}\")\nx: [1] par-map(f) map(symbol?)", '{"x":[true]}')
d("p03-capped-list", "f(n): take(n, ints-from(0))\nx: ([5000, 10] par-map(f)) map(count)", '{"x":[5000,10]}')
d("p03-crlf", "f(n): c\"a\\r\\n{n}\"\nx: [1] par-map(f)", '{"x":["a\\r\\n1"]}')
