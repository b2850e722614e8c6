import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import prog
DR = "src/eval/stg/parallel/driver.rs"
ENV = {"EU_GC_STRESS": "1"}
HEAVY = "sum-to(n): take(n, ints-from(0)) foldl(_0 + _1, 0)\n"
S = [
 dict(id="g03-mapped-results", prop="G03",
  edits=[(DR, "        result_slots.push(machine.gc_root_push(mapped));\n    }\n    // `build_list` and `set_result` only allocate, so reading the handles out\n    // of the root set here is the last thing that happens to them.\n    let results: Vec<AbiClosure> = result_slots\n        .iter()\n        .map(|&slot| machine.gc_root_get(slot))\n        .collect();\n", "        results.push(mapped);\n    }\n"),
         (DR, "    let mut result_slots = Vec::with_capacity(n);\n    for i in 0..n {\n        let f = machine.gc_root_get(f_slot);", "    let mut results: Vec<AbiClosure> = Vec::with_capacity(n);\n    for i in 0..n {\n        let f = machine.gc_root_get(f_slot);")],
  demo=prog(HEAVY + "f(n): [sum-to(400), n, \"value {n}\"]\nx: (take(30, ints-from(0)) par-map(f)) map(second)\n",
            '{"x":[%s]}' % ",".join(map(str, range(30))), heap=64, env=ENV),
  needs="a collection between two elements of a par-map that runs without workers", breaks="results of earlier elements are read from where they used to be"),
 dict(id="g03-mapper-hoisted", prop="G03",
  edits=[(DR, "    let mut result_slots = Vec::with_capacity(n);\n    for i in 0..n {\n        let f = machine.gc_root_get(f_slot);", "    let mut result_slots = Vec::with_capacity(n);\n    // the function is the same for every element\n    let f = machine.gc_root_get(f_slot);\n    for i in 0..n {"),
         (DR, "        let mapped = map_element(machine, view, f, elem, combinator)?;\n        result_slots", "        let mapped = map_element(machine, view, f.clone(), elem, combinator)?;\n        result_slots")],
  demo=prog(HEAVY + "f(k, n): [sum-to(400), n + k, \"value {n}\"]\nx: (take(30, ints-from(0)) par-map(f(100))) map(second)\n",
            '{"x":[%s]}' % ",".join(map(str, range(100, 130))), heap=64, env=ENV),
  needs="a collection between two elements of a par-map that runs without workers", breaks="the mapped function is called from where it used to be"),
]
