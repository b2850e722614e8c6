#!/usr/bin/env python3
"""Writes DESIGN.md from the rule registry, the last evidence and the notes below.
Run `python3 check.py all` first; SEEDS (optional argument) is the output of `scripts/mut.py --seeds`."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/analysis", ROOT + "/scripts"]
import registry
from na import NA

HEAD = """# Static analysis of eucalypt: design

Everything here decides properties from /repo's current source, without
running eucalypt, concretely or symbolically.

## How a check runs

1. `scripts/facts.py` copies /repo's source into an overlay under a scratch
   directory (with a signature-only stand-in for `yaml-rust`, whose sources are
   not in this sandbox) and compiles it with `driver/main.rs`, a `rustc_private`
   driver for the installed nightly. The driver runs the real front end and
   dumps the type-checked program: MIR of every function, closure, constant and
   promoted; resolved callees of every call (trait dispatch included); type
   definitions; impls; constants. About 37 s cold; cached by a hash of the source.
2. `analysis/db.py` loads the facts, builds the call graph (trait objects,
   function values and closures resolved to every possible target),
   control-flow graphs, dominators and def-use chains.
3. The property's rule (`analysis/registry.py`: property -> module, function)
   generates obligations, each tied to a construct (function, call site, variant,
   opcode, tag, field), and discharges them. An obligation that is not discharged
   is a `VIOLATION` naming the construct; keys hold no line numbers.
4. `check.py` writes `evidence/<id>.json`: what was analysed, the rules applied,
   obligations and discharged, counts, samples, notes on what was not followed.

The shared machinery: `thread.py` (path-sensitive exploration that threads
constants decided earlier through later switches), `inl.py` (inlining of
helpers, closures and iterator adapters, so a rule sees what the code does and
not how it is cut into functions), `cover.py`/`paths.py` (all-paths coverage),
`gate.py` (interprocedural guard dominance), `prov.py` (provenance),
`ceval.py` (constant propagation), `status.py` (abstract interpretation of
fallible results), `wire.py` (byte-stream automata of writers and readers and
language inclusion), `ranges.py` (interval analysis), `trav.py` (tree traversals).

Principle: judge what the code does. Where a rule cannot follow code it records a
note and a count in the evidence ("undecided", "given up"); only a decided
violation alarms. The floors that remain ("the rule has lost its anchor") are
far below the counts on the unchanged tree and guard against a check that
silently looks at nothing.

Why this can reach what the tests cannot: every rule quantifies over all paths,
all variants, all tags, all call chains of the compiled program; the tests
sample inputs. What it costs: one extraction (37 s) and 1 to 25 s of analysis
per property; the quick and the thorough command run the same full analysis,
since it has no bound to deepen.

"""

EXC = {
 "I01": "Catalogue entries that the runtime does not implement answer with a reported panic error; that is the reported error the property asks for.",
 "I02": "LITERAL exemptions: argument 1 of TRACE_ENTRY and argument 0 of TYPE_TO_DATA take what the compiler wrote literally. Text put into messages may be unevaluated.",
 "I03": "The value delivered is not judged.",
 "I05": "Stream producers, the pseudo-random seed and the worker built-ins are tied by module and purpose.",
 "I06": "MIXING: `prng::splitmix64` and `seed_to_u64` wrap by definition. Operations guarded by comparisons between two variables are undecided (noted). Saturating float conversion, bits shifted out to the left, and the layout arithmetic of `stg/parallel` are out of scope.",
 "G05": "Failing exits of the input/output driver end the run. The continuation stack is not a side stack.",
 "G06": "Nested loops do not enforce the step limit (only the outer one does); the statement says so.",
 "P03": "A block key is a symbol or a string (the reader refuses other keys; blocks made by `__BLOCK` with other keys are refused, which is a refusal and not a misreading).",
 "C01": "EXEMPT table in `r_trav.py`: traversals that look for one construct on purpose. Gradual type inference and syntax-tree walks are outside.",
 "B01": "`FusedPrimop.inner` is not written: the fused opcode replaces it. An arg reference inside a call is framed by its operand kind.",
 "B02": "`call set_annotation` is unguarded in one mode because the other tests it earlier; error operands are compared only inside a case arm; conditions leave out reading primitives.",
 "B04": "By design: `Ann` nodes are elided and the source position of a form replaced by the identity of its global (positions of the process that wrote the image mean nothing in the reader). The blob itself is not present in this sandbox's build, so what consumes it under `cfg(prelude_blob_ok)` is not compiled and not analysed; the freshness decision in `wire_format.rs` is.",
 "D01": "Wording of catalogue entries is not judged.",
 "S02": "Reserved names of the import cache (the bare clone, '.', the empty commit) are part of the rule since fix 868918d.",
 "S04": "ADVISORY table: the type check whose outcome is advisory, look-ahead reads whose failure is reported by the real read, and the absence of an optional file.",
 "T01": "A test killed by a signal or limit counts as failed (the 'killed' rule). Report text is not judged.",
 "X01": "`AsKey::as_key`, `serde_json::to_string` of a str, toml's `Datetime::from_str` fallback, and functions used only for diagnostics are exempt by name.",
 "X04": "Per format name and extension by constant propagation; `-o x.html` infers no format and is not judged.",
 "X05": "Exempt: format detection (`parse_from_*` returning None as one alternative), errors stored and reported later (`stores_error`), the look-ahead read of the prelude override, `SourceError::file_id`.",
}

TAIL = """
## Findings in eucalypt

Each was shown against the real code (a failing input or history) before it was
repaired; `known-findings.txt` lists the repairs. No finding is suppressed.

%s

Seen and neither repaired nor claimed (they belong to properties that are not
claimed): LIST.NTH, LIST.DROP, VEC.NTH and SLICE read a negative index as 0;
ARRAY.SLICE reads a negative axis as 0; VecShuffle's arithmetic underflows for an
empty vector with floats left over; arrays holding infinities read back as 0;
markup export drops the content of an element that has no attribute block.

## False alarms met while building, and what was done

Every rule was run against behaviour-preserving edits (extracted helpers, loops
for iterator chains, reordered statements, renamed locals, inverted conditions)
next to the planted bugs. What that corrected: matching on statement order was
replaced by dominance; on helper names by effect or provenance; per-function
judgement by judgement after inlining; floors by notes. G06's statement was
corrected (see above). P03's and B01's comparisons became language inclusion
instead of equality of sequences, since a reader may accept more than is written.

## Planted bugs

Kept in `seeded/` (each confirmed: applies, builds, passes the stable tests, and
its demonstration fails with it and passes without it). No check reads them.

%s

## Not applicable or not claimed

%s

## Layout

`driver/` the fact extractor; `stubs/` the yaml-rust stand-in; `scripts/facts.py`
extraction and cache; `scripts/props.py` the catalogue; `scripts/na.py` reasons;
`scripts/manifest.py` writes MANIFEST.json; `scripts/design.py` writes this file;
`scripts/mut.py` runs checks against planted changes in scratch copies;
`scripts/seed.py`, `seedlib/` confirm planted bugs and write them to `seeded/`;
`analysis/` the rules; `check.py` the entry point; `known-findings.txt`.
"""


def main():
    props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
    title = {p["id"]: p for p in props}
    out = [HEAD, "## Properties and how each is decided\n"]
    for p in props:
        i = p["id"]
        if i not in registry.RULES:
            continue
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("*Technique.* %s." % registry.TECH[i][0].upper().__add__(registry.TECH[i][1:]))
        try:
            e = json.load(open(ROOT + "/evidence/%s.json" % i))
            ex = e["coverage"]["explanation"].split("; ", 1)
            if len(ex) > 1 or not ex[0].startswith("Static analysis of"):
                out.append("*Rules.* %s." % ex[-1].rstrip("."))
            out.append("*Obligations on the unchanged tree.* %d, all discharged (%s)." % (e["coverage"]["obligations"], ", ".join("%s: %s" % kv for kv in e["coverage"]["counts"].items())))
        except OSError:
            pass
        out.append("*Reach and limits.* %s" % registry.NOTE[i])
        if i in EXC:
            out.append("*Exceptions.* %s" % EXC[i])
        out.append("")
    fixes = "\n".join("- %s `%s` %s" % re.match(r"fixed: property=(\S+) (\S+) (.*)", l).groups() for l in open(ROOT + "/known-findings.txt") if l.startswith("fixed:"))
    caught = {}
    if len(sys.argv) > 1:
        for l in open(sys.argv[1]):
            m = re.match(r"(\S+) \[(\S+)\]\s+(\S+)", l)
            if m:
                caught[m.group(1)] = m.group(3)
    rows = ["| planted bug | property | caught by | needs |", "|---|---|---|---|"]
    for s in sorted(os.listdir(ROOT + "/seeded")):
        m = json.load(open(ROOT + "/seeded/%s/meta.json" % s))
        rows.append("| %s | %s | %s | %s |" % (s, m["property"], caught.get(s, "?").replace("quiet", "none"), str(m["needs"]).replace("|", "/")))
    na = "\n".join("- **%s %s.** %s" % (i, title[i]["title"], NA.get(i, "no check has been built for it")) for i in title if i not in registry.RULES)
    open(ROOT + "/DESIGN.md", "w").write("\n".join(out) + TAIL % (fixes, "\n".join(rows), na))


main()
