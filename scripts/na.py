NA = {
 "N01": "Meaning preservation and idempotence quantify over the parse and evaluation of arbitrary text; no dataflow or typestate rule over the source bounds what the formatter's layout choices do to a later parse.",
 "N02": "Round-tripping is a relation between runtime values of an emitter and a third-party parser; only the structural halves (coverage of kinds, no swallowed errors) are static facts and those are X01-X05.",
 "N03": "Semantic equivalence of rewritten programs under lazy evaluation is undecidable from the source of the rewriter; the structural necessary conditions are C01 and C02.",
 "N04": "Equality of results across schedules is a property of runtime values; the static parts (worker containment, reaping, serialiser agreement) are P01-P04.",
 "N05": "Soundness of an inference algorithm relative to the evaluator's semantics needs a proof about the typing rules, not a static analysis of the implementation.",
 "N06": "Live-data and running-time bounds depend on runtime heap shapes; no sound static bound over all programs exists in reach of this family.",
 "N07": "Whether a span denotes the failing expression relates runtime evaluation state to source text; the annotation plumbing is data-dependent.",
 "B03": "Whether a count, offset or index fits its field is a bound on the size of run-time-built trees and tables; only non-local invariants of the compiler bound them, which interval analysis cannot establish. The framing and widths themselves are B01; the one field a program could overflow directly (argument counts) is repaired.",
 "I04": "Freedom from aborts needs character-boundary, length and shape facts about run-time values (what a string holds, how long a list is). The arithmetic part is decided as I06, reader aborts as X05, unevaluated arguments as I02.",
 "L02": "Aborts in the editor server hinge on relations between offsets, line tables and document text at run time; no sound rule in reach separates the safe slices and indexings from the unsafe ones without flooding.",
 "X02": "What a writer does with an event depends on its own document state when the event arrives (element nesting, pending keys), a run-time quantity; silent loss of write failures is decided as X01.",
 "X03": "Which of the program's hash-table iterations influence output depends on whether what they feed is later sorted, keyed or reduced commutatively, often in another function and on the values; a rule strict enough to be sound would reject order-insensitive code. Ambient reads that could vary between runs are decided in S05 and I05.",
 "C02": "Correctness of binder adjustment relates numeric depths to run-time binding structure; the coverage half (every construct visited by every rewriting) is C01.",
 "F01": "Conservation of characters is a relation between the lexer's run-time positions and the text; termination of its loops depends on the same. What the formatter does after a failed parse is F02.",
 "U01": "The sizes that are multiplied and rounded come from run-time collection lengths; without bounds on those no overflow can be excluded or established statically. Misuse of arithmetic on program numbers that reach sizes is I06.",
}
