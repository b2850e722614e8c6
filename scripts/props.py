#!/usr/bin/env python3
"""The property catalogue.  `python3 scripts/props.py` rewrites properties.jsonl."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


EV = "src/eval/"

# ------------------------------------------------------------------ memory
p("G01", "Garbage collection traces every reference a live object holds",
  "When the collector visits a live object it visits every heap reference stored in that object: every field of every variant, every element of every array (first to last, however large), and the backing storage of those arrays. "
  "This holds for every kind of heap object, for machine states, suspended work and boxed native values alike, so no object reachable from the machine's roots is ever reclaimed.",
  ["programs", "histories"], "every object shape and size that any program can put on the heap, at every moment a collection can happen",
  "A reference that is missed shows only when a collection falls between its last trace and its next use; the tests collect a few hand-built graphs.",
  [EV + "memory/collect.rs", EV + "memory/heap.rs", EV + "memory/array.rs", EV + "memory/string.rs", EV + "bytecode/closure.rs", EV + "bytecode/cont.rs", EV + "bytecode/machine.rs", EV + "machine/env.rs"],
  [("the tracing half of the scanning interface, one implementation per heap-resident type", "memory/collect.rs GcScannable::scan"),
   ("mark helpers", "memory/collect.rs CollectorHeapView")],
  state=[("mark bits", "which lines and objects are live in this cycle", "memory/bump.rs")])

p("G02", "A moving collection redirects every reference to a moved object",
  "After a collection that moves objects, every reference that the tracing pass would follow has been redirected to the moved copy wherever its referent moved: every field of every variant, every array element, every array backing pointer, and every root. "
  "No live object keeps a stale address after the collection ends.",
  ["programs", "histories"], "every object shape and size, and every choice of blocks to evacuate",
  "Evacuation needs a fragmented heap of particular geometry; the tests evacuate a few graphs of a few types.",
  [EV + "memory/collect.rs", EV + "bytecode/closure.rs", EV + "bytecode/cont.rs", EV + "bytecode/machine.rs", EV + "machine/env.rs"],
  [("the updating half of the scanning interface", "memory/collect.rs GcScannable::scan_and_update")])

p("G03", "No heap reference held by running code goes stale across a collection",
  "Code that holds a reference into the managed heap never uses that copy of it after an operation that may run the collector, unless the reference is one the collector sees and updates and is read again after the operation. "
  "This holds on every path, including those where the evaluation it waited for failed.",
  ["programs", "histories"], "every allocation history, hence every point at which a collection can trigger inside a built-in that evaluates its arguments",
  "A stale copy is harmless unless a collection, and for most bugs a moving one, happens in exactly that window.",
  [EV + "machine/intrinsic.rs", EV + "bytecode/machine.rs", EV + "stg/"],
  [("rooted slots re-read after evaluation", "machine/intrinsic.rs gc_root_push/gc_root_get"), ("collections happen only inside the evaluation loops", "bytecode/machine.rs gc_poll")])

p("G04", "Collection keeps its order: mark, redirect, then reclaim",
  "In every collection the roots are traced to exhaustion before anything is reclaimed, and in one that moves objects every reference is redirected before the memory of moved objects can be handed out again. "
  "Every collection also leaves the heap ready for the next: mark state is reset before marking.",
  ["histories", "programs"], "every sequence of collections of both kinds",
  "The damage from a phase done out of order appears only after later allocations reuse the reclaimed memory.",
  [EV + "memory/collect.rs", EV + "memory/heap.rs"],
  [("collection drivers", "memory/collect.rs collect, collect_mark_in_place, collect_with_evacuation")])

p("G05", "Nested evaluation leaves the machine as it found it on every exit",
  "Whatever a built-in pushes onto the machine for the length of a nested evaluation - rooted values, suspended stacks, argument frames - is popped again on every way out, success and failure alike. "
  "An evaluation error caught by a program therefore never leaves leaked roots or a displaced evaluation stack behind.",
  ["programs", "fault_sequences"], "every built-in that evaluates its arguments, and every point at which that evaluation can fail",
  "Failing inner evaluations are rare in tests, and a leaked root changes nothing observable until memory runs out or a later pop removes the wrong entry.",
  [EV + "bytecode/machine.rs", EV + "machine/intrinsic.rs", EV + "stg/"],
  [("root stack discipline", "machine/intrinsic.rs gc_root_truncate"), ("sub-run entry and exit", "bytecode/machine.rs enter_whnf_subrun/exit_whnf_subrun")])

p("G06", "Every evaluation loop polls for collection and interruption",
  "Every loop of the virtual machine that executes program steps, the nested ones that built-ins and input/output start included, checks for interruption and gives the collector an opportunity to run at a bounded number of steps counted across all of them; a collection the policy asks for there is carried out, and a noticed interruption ends the evaluation with the interrupted error. "
  "The main loop checks a configured step limit before every step. No program shape can hold the machine in a loop that neither collects nor stops.",
  ["programs"], "every loop that executes program steps",
  "Tests are short; a loop that misses its poll works until a long program runs in it.",
  [EV + "bytecode/machine.rs"], [("drive loops", "bytecode/machine.rs run, drive_whnf, drive_to_whnf")])

# ------------------------------------------------------------------ bytecode
p("B01", "Bytecode written by the compiler is read back the way it was written",
  "For every instruction, the sequence of operand kinds and widths that the encoder writes is the sequence every decoder reads, in the same order, and every instruction code and reference tag has one meaning in all of them. "
  "No program can therefore be encoded into code that decodes to something else.",
  ["programs"], "every instruction with every combination of operands",
  "Tests run the instruction mixes the prelude and the samples generate; widths and rare tags agree by accident on small programs.",
  [EV + "bytecode/encode.rs", EV + "bytecode/predecode.rs", EV + "bytecode/machine.rs", EV + "bytecode/opcode.rs"],
  [("encoder", "bytecode/encode.rs encode_node"), ("decoders", "bytecode/machine.rs handle_op; bytecode/predecode.rs Decoder::decode_node")])

p("B02", "Both execution modes give every instruction the same effect",
  "Every instruction and every kind of reference that can be encoded is handled in both the direct and the pre-decoded execution mode, and handling it performs the same state changes in both. "
  "Choosing one mode or the other never changes what a program evaluates to or which error it raises.",
  ["programs", "configurations"], "every instruction, under both execution modes",
  "The test suite runs in one mode; the differential harness covers its corpus only.",
  [EV + "bytecode/machine.rs", EV + "bytecode/predecode.rs"],
  [("direct handler", "bytecode/machine.rs handle_op"), ("pre-decoded handler", "bytecode/machine.rs handle_op_predecoded")])

p("B03", "Code generation never silently truncates a size, index or offset",
  "When the compiler lays a program out, every count, index, offset and tag that is stored in a narrower field than it is computed in is first checked against that field's range or is bounded by construction. "
  "A program too large for a field is refused, never encoded with a wrapped value.",
  ["programs"], "every program size: number of bindings, arguments, branches, constants and bytes of code",
  "Hitting a field limit takes a program far larger than any test; the truncated program then runs and is silently wrong.",
  [EV + "bytecode/encode.rs", EV + "bytecode/program.rs", EV + "stg/compiler.rs", EV + "stg/arena.rs", EV + "stg/blob.rs"],
  [("range check before execution", "bytecode/machine.rs ensure_code_fits"), ("checked conversions", "bytecode/encode.rs")])

p("B04", "The saved prelude image is read back the way it was written",
  "For every kind of compiled node, reference and native value, what the image writer stores is what the image reader rebuilds: the same fields, in the same order, under the same tag, with no kind that one side knows and the other does not. "
  "An image made by a different version or from different sources is rejected rather than run.",
  ["programs", "configurations"], "every compiled node kind and every image file",
  "Tests round-trip the shipped prelude, which exercises the kinds the prelude happens to use.",
  [EV + "stg/blob.rs", EV + "stg/wire_format.rs", EV + "stg/arena.rs", "src/driver/eval.rs"],
  [("writer and reader", "stg/blob.rs, stg/wire_format.rs, stg/arena.rs")])

# ------------------------------------------------------------------ intrinsics
p("I01", "Every built-in is implemented once, with the arguments the catalogue declares",
  "Every built-in operation that a program can name has at most one implementation, installed under that name and index; a name with no implementation answers with a reported error. "
  "Every built-in takes the number of arguments the catalogue declares, is called with that many by every other built-in, and reads only arguments it was given; every data constructor is built, matched and read back with one number of parts.",
  ["programs"], "every built-in operation and data constructor, at every call",
  "Tests call the common built-ins; a missing, mis-indexed or mis-declared rare one fails only when a program calls it, or only after the optimiser rewrote the call.",
  [EV + "intrinsics.rs", EV + "stg/mod.rs", EV + "stg/"],
  [("catalogue", "eval/intrinsics.rs INTRINSICS"), ("registration", "stg/mod.rs make_standard_runtime"), ("constructors", "stg/tags.rs DataConstructor")])

p("I02", "Built-ins receive evaluated arguments wherever they need values",
  "Wherever a built-in looks at an argument - the value itself, the value inside a boxed number or text, the cells and elements of a list - that part has been evaluated first, by the wrapper that calls it or by the built-in, whatever expression the program passed. "
  "Passing a delayed expression and passing its value therefore give the same result.",
  ["programs"], "every built-in, every argument position, every argument expression",
  "Tests mostly pass literals, which are already values; only a delayed argument in that position shows the fault.",
  [EV + "intrinsics.rs", EV + "stg/", "src/core/analyse_demand.rs", EV + "stg/wrap.rs"],
  [("strictness declarations", "eval/intrinsics.rs"), ("argument forcing in wrappers", "stg/wrap.rs and the wrappers in stg/*.rs")])

p("I03", "A built-in that succeeds always delivers exactly one result",
  "Every path on which a built-in operation reports success hands exactly one result, or one continuation of the computation, back to the machine. "
  "None succeeds with the previous closure still in place or with a result overwritten.",
  ["programs", "inputs"], "every built-in operation, every path through it",
  "A path with no result repeats or corrupts the caller's evaluation only for the inputs that take it.",
  [EV + "stg/", EV + "machine/intrinsic.rs"], [("result delivery helpers", "stg/support.rs"), ("machine result slot", "machine/intrinsic.rs set_closure")])

p("I04", "Program data can never crash a built-in operation",
  "For every value that a program can compute or import - any number, text, list, block, set, array, date or format string, including empty, extreme and mistyped ones - every built-in operation returns a result or reports an evaluation error. "
  "It never aborts the process by an out-of-range index, a slice off a character boundary, an arithmetic overflow, a division by zero, or an unmet expectation about the value.",
  ["inputs", "programs"], "every built-in, every argument value",
  "The crashing values are boundary cases (empty lists, i64 minimum, multi-byte text, huge counts) that the tests do not enumerate.",
  [EV + "stg/", EV + "memory/ndarray.rs", EV + "memory/set.rs"],
  [("argument accessors that return errors", "stg/support.rs"), ("checked arithmetic", "stg/arith.rs")])

p("I05", "Evaluation has no side effects",
  "Evaluating an expression never starts a process, opens a network connection, reads or writes files or standard input, changes the environment, or sleeps; built-in operations compute from their arguments alone. "
  "The only exceptions are the diagnostic stream on standard error, pulling the next item of an input stream the user named, and the worker processes of parallel evaluation; commands and other effects happen only in the input/output interpreter outside evaluation.",
  ["programs"], "every program, every built-in operation",
  "A test can see that a chosen effect happened, not that no path of any built-in can perform one.",
  [EV, "src/driver/io.rs", "src/driver/io_common.rs"], [("effects live in the driver's interpreter only", "driver/bytecode_io_run.rs")])

p("I06", "Integer arithmetic in built-ins never wraps silently",
  "Wherever a built-in adds, subtracts, multiplies, negates, shifts or narrows integers that come from program data - numbers, or digits in a format string - the result is either the mathematically exact value, an explicitly promoted wider or floating value, or a reported error. "
  "No release or debug build returns a wrapped, truncated or saturated integer in its place. (Bits a left shift pushes out, pseudo-random words, and a float rounded towards an integer range are not counted.)",
  ["inputs"], "every pair of integers in every arithmetic, counting, indexing and range operation",
  "Wrapping needs operands near the 64-bit limits; tests cover a few such operations.",
  [EV + "stg/arith.rs", EV + "stg/array.rs", EV + "stg/list.rs", EV + "stg/string.rs", EV + "stg/time.rs"],
  [("checked operations with promotion", "stg/arith.rs")])

# ------------------------------------------------------------------ parallel
p("P01", "A parallel worker process can leave only by exiting",
  "From the moment a worker process is created, every path through its code, including failed evaluation and a panic, ends in that process exiting; no path returns into the caller's code. "
  "A worker never runs the parent's output, cleanup or exit handlers.",
  ["programs", "fault_sequences"], "every worker, every failure inside it",
  "A worker that escaped duplicates output or work only when the failing path is taken.",
  [EV + "stg/parallel/fork.rs", EV + "stg/parallel/driver.rs"], [("child branch ending in immediate exit", "stg/parallel/fork.rs")])

p("P02", "Parallel evaluation reaps every worker and survives its failure",
  "Every worker process that is started is waited for on every path, including those where other workers failed or could not be started, and its shared memory is released. "
  "Where workers cannot be used or any of them fails, the same computation is done sequentially instead, so parallelism never loses a result.",
  ["fault_sequences", "programs"], "every combination of worker failures and start failures",
  "Fork failures, killed workers and short results do not happen in tests.",
  [EV + "stg/parallel/"], [("fork and join", "stg/parallel/fork.rs"), ("fallback", "stg/parallel/driver.rs")])

p("P03", "Results cross between worker and parent unchanged in kind",
  "Every kind of value that a worker may send is written under its own tag with exactly the fields the parent reads back under that tag, and any value that cannot be sent is refused rather than altered. "
  "A reader given an unknown tag or a truncated buffer reports failure instead of inventing a value.",
  ["inputs", "programs"], "every value kind, every nesting",
  "Tests send the common kinds.",
  [EV + "stg/parallel/serialise.rs"], [("paired writer and reader", "stg/parallel/serialise.rs")])

p("P04", "Worker processes are created only where that is safe",
  "The process is duplicated only after the host program has declared itself safe for it; hosts that run several threads - the editor server, the test harness, embedders - never make that declaration. "
  "Inside a worker, a one-shot input stream shared with the parent is refused rather than consumed.",
  ["configurations", "programs"], "every way the library can be hosted",
  "A fork in a threaded host deadlocks only for particular thread timing.",
  [EV + "stg/parallel/", "src/bin/eu.rs"], [("host declaration", "stg/parallel/ declare_fork_safe_host"), ("the command line tool's declaration", "bin/eu.rs")])

# ------------------------------------------------------------------ safety of effects
p("S01", "Commands run only when the user allowed input/output",
  "No program, import or output step starts an external command unless the user passed the option that permits it; the permission is checked before each action is interpreted, and every way of running a program's actions goes through that check. "
  "Fetching a declared source import, the test tool's own sub-runs and opening the report in a browser when asked are the only other processes ever started.",
  ["programs", "configurations"], "every program, every command-line configuration",
  "Tests show the refusal for a sample action, not that no other route leads to a process.",
  ["src/driver/io_common.rs", "src/driver/bytecode_io_run.rs", "src/driver/eval.rs", "src/import/git.rs", "src/driver/tester.rs"],
  [("permission check", "driver/bytecode_io_run.rs io_run"), ("option", "driver/options.rs allow_io")])

p("S02", "A source import cannot escape its cache or smuggle options",
  "A repository import uses the commit and path it names only after both have been validated, so it can neither read outside the fetched tree nor write outside the import cache. "
  "No part of an import declaration can be taken for an option by the tool that fetches it.",
  ["inputs"], "every repository address, commit and path an import may name",
  "Hostile declarations are an open-ended set.",
  ["src/import/git.rs"], [("validation before use", "import/git.rs")])

p("S03", "Files are written only where the user asked",
  "The tool creates or changes a file only through the few operations whose purpose is to write: the output option, in-place formatting when requested, documentation output, the test report, statistics, the import cache and the editor's temporary copy. "
  "No other operation writes to, renames or removes files, and in particular reading, checking, evaluating and dumping never do.",
  ["programs", "configurations"], "every subcommand and every program",
  "A test sees its own directory after one command, not every path that could write.",
  ["src/driver/", "src/import/", "src/core/"], [("output file", "driver/eval.rs"), ("in-place formatting", "driver/format.rs")])

p("S04", "A failed run always exits with a failure status",
  "Whenever preparing, checking, evaluating, formatting, rendering or writing fails, the failure reaches the process exit status as a non-zero code; success is reported only after all output has been delivered. "
  "No stage's error is printed or counted and then forgotten. (By design the type check is advisory unless strict, and a reader that closes standard output early is not a failure.)",
  ["inputs", "fault_sequences"], "every failing stage of every subcommand",
  "Tests check exit codes of a few failures; scripts rely on all of them.",
  ["src/bin/eu.rs", "src/driver/eval.rs", "src/driver/format.rs", "src/driver/tester.rs", "src/driver/check.rs"], [("exit mapping", "bin/eu.rs")])

p("S05", "Dumps of a program never contain the caller's environment",
  "When the user asks to see a program's intermediate form, the environment variables, random seed, clock and command-line context of the invoking process are not embedded in what is dumped. "
  "The dump is a function of the source alone and safe to share.",
  ["configurations"], "every dump option, every environment",
  "A test compares a dump in its own environment.",
  ["src/driver/eval.rs", "src/driver/prepare.rs", "src/driver/io.rs", "src/driver/options.rs"], [("deterministic stand-in for dumps", "driver/io.rs create_io_pseudoblock_deterministic")])

# ------------------------------------------------------------------ export / import
p("X01", "A failure to write output is never swallowed",
  "Every write, flush or conversion performed while rendering a result that can fail has its failure passed on to the caller, in every output format. "
  "Output that could not be delivered in full is never reported as success.",
  ["fault_sequences", "inputs"], "every write in every output format failing at any point",
  "Write failures do not happen in tests, which render to memory.",
  ["src/export/", EV + "emit.rs", EV + "stg/emit.rs", "src/driver/eval.rs"], [("emitter results", "eval/emit.rs Emitter"), ("renderers", "export/")])

p("X02", "Every output format handles every kind of value, or refuses it",
  "For every output format, every kind of value and every structural event that evaluation can produce is either written or answered with an explicit unrepresentable-value error. "
  "No kind of value is silently dropped, replaced by a placeholder, or makes the writer abort.",
  ["inputs", "configurations"], "every output format with every value kind in every position",
  "The product of formats, value kinds and positions is far larger than the samples.",
  ["src/export/", EV + "primitive.rs", EV + "emit.rs"], [("value kinds", "eval/primitive.rs Primitive"), ("events", "eval/emit.rs Event")])

p("X03", "Output and diagnostics are deterministic",
  "The same program, inputs and options produce byte-identical output, diagnostics and dumps on every run: nothing whose order the language leaves unspecified - hash table order, directory order, addresses, thread timing - influences what is written. ",
  ["programs", "histories"], "every program and every run",
  "Hash seeds differ per process, so a single run of a test cannot see an order dependence that only two runs reveal.",
  ["src/"], [("ordered maps", "export/, core/, eval/"), ("sorted serialisation", "common/serde_sorted.rs")])

p("X04", "Every declared format name reaches a reader or writer",
  "Every input format that the tool infers from a file name or accepts by name is dispatched to its reader, and every output format it accepts by name or infers from an output file to its writer; an unknown format name is an error, never a silent default. ",
  ["configurations", "inputs"], "every format name and file extension",
  "Tests name the usual formats.",
  ["src/import/mod.rs", "src/export/mod.rs", "src/syntax/input.rs", "src/driver/source.rs", "src/driver/options.rs"], [("dispatch tables", "import/mod.rs read_to_core; export/mod.rs create_emitter")])

p("X05", "Malformed imported data is reported, never silently dropped",
  "Every error that a data reader meets - a bad record, an invalid escape, a number out of range, bytes that are not text, a failed read - is reported to the user as an import error. "
  "No reader skips the offending part, substitutes a default, or aborts.",
  ["inputs"], "every byte sequence given as JSON lines, CSV, TOML, XML, EDN, text, or stream input",
  "Malformed inputs are unbounded; tests hold a few.",
  ["src/import/"], [("reader results", "import/*.rs")])

# ------------------------------------------------------------------ core language
p("C01", "Every program transformation visits every part of the program",
  "Each generic traversal and rewriting of the core language reaches every sub-expression of every construct: both sides of every binding form, every list and block element, metadata, fallbacks and arguments. "
  "The same holds for passes over compiled code and for operations on types. "
  "A transformation or check never ignores code because of where it stands. (Type inference is gradual and may leave an expression unexamined.)",
  ["programs"], "every construct of the core language, of compiled code and of types, in every position",
  "Skipped positions matter only for the programs that put the relevant code there.",
  ["src/core/expr.rs", "src/core/dependency.rs", "src/core/inline/", "src/core/verify/", "src/core/transform/", "src/core/simplify/", "src/core/typecheck/", "src/eval/stg/optimiser.rs"],
  [("generic traversal", "core/expr.rs walk_safe, try_walk_safe, fmap")])

p("C02", "Rewriting never captures or misdirects a variable",
  "Every rewriting that moves an expression into or out of a binding form adjusts variable references by exactly the binders crossed, in every construct that binds. "
  "After any of them a variable refers to the declaration it referred to before.",
  ["programs"], "every nesting of binding forms",
  "Capture needs particular nestings and name clashes.",
  ["src/core/expr.rs", "src/core/dependency.rs", "src/core/inline/", "src/core/simplify/"], [("binder-depth recursion", "core/expr.rs bind_free_vars, close_expr_vars, open_expr_vars")])

p("D01", "Error codes are unique, documented and explainable",
  "Every stable error code that an error can carry has exactly one entry in the tool's built-in catalogue, headed by that code, and one section in the reference documentation, and every entry and section belongs to a code that can occur. "
  "An error keeps its code when a trace is wrapped round it, and the code reaches every diagnostic made from the error, printed or JSON. `eu error CODE` prints exactly that code's entry and fails for any other name.",
  ["configurations"], "every error condition",
  "A test can compare two lists, not find every place a code is produced.",
  ["src/driver/error_codes.rs", EV + "error.rs", "src/core/", "src/syntax/error.rs", "src/import/error.rs", "docs/reference/error-codes.md"], [("catalogue", "driver/error_codes.rs CATALOGUE"), ("codes", "the code methods of error types")])

p("L01", "The editor server answers each request once and keeps its channel clean",
  "Every request the editor server receives gets exactly one response, whatever its method and whether or not its parameters decode, and no notification gets one. "
  "Nothing but protocol messages is ever written to standard output while the server runs.",
  ["inputs", "histories"], "every request method with every payload, in every session",
  "Tests send well-formed requests of known methods.",
  ["src/driver/lsp/"], [("dispatch", "driver/lsp/mod.rs handle_request")])

p("L02", "Editor input can never crash the editor server",
  "Whatever text a document contains, however incomplete or ill-formed, and whatever position or range a request names, the server answers without aborting: no slice off a character boundary, no position past the end, no unmet expectation about the syntax tree. ",
  ["inputs", "histories"], "every document text and every position, mid-edit states included",
  "Half-typed documents and out-of-date positions are an unbounded set.",
  ["src/driver/lsp/", "src/syntax/"], [("position conversion", "driver/lsp/")])

p("F01", "Parsing loses nothing and never gives up",
  "For every input text, the syntax tree holds every character of it in order, errors included, so the tree's text is the input's text. "
  "No input makes the lexer or parser abort or loop without consuming input.",
  ["inputs"], "every text",
  "Texts are unbounded; lossless parsing is tested on samples.",
  ["src/syntax/rowan/"], [("token sink", "syntax/rowan/parse.rs"), ("lexer", "syntax/rowan/lex.rs")])

p("F02", "Checking formatting changes nothing",
  "The formatter writes to a file only when in-place writing was requested, never when only checking, never when the source does not parse, and never when the text is already formatted; its verdict on each file reaches the exit status. ",
  ["inputs", "configurations"], "every file and option combination",
  "Tests run some combinations on some files.",
  ["src/driver/format.rs", "src/syntax/export/"], [("mode selection", "driver/format.rs format_file")])

p("T01", "A test run reports every failed expectation",
  "The test tool counts every test plan entry that fails, errors or cannot be run as a failure in both its report and its exit status. "
  "No test is skipped or passed because something went wrong on the way; only tests that declare they need io are skipped, where io is not allowed.",
  ["inputs", "fault_sequences"], "every test file and every failure on the way",
  "The test tool's own failure paths are not exercised by its passing tests.",
  ["src/driver/tester.rs", "src/core/analyse/testplan.rs"], [("test driver", "driver/tester.rs")])

p("U01", "Unrecoverable memory errors are reported, never undefined",
  "Every allocation in the managed heap either returns memory of the requested size and alignment or ends in a reported out-of-memory condition; no size computation on the way wraps, and no unchecked pointer is produced from a failed allocation. ",
  ["inputs", "histories"], "every requested size, including those near the limits",
  "Requests near the limits cannot be made in tests.",
  [EV + "memory/"], [("size computations", "memory/heap.rs, memory/bump.rs, memory/array.rs")])

# ------------------------------------------------------------------ beyond static reach
p("N01", "Formatting preserves meaning and is idempotent",
  "Formatting a source file never changes what it evaluates to, and formatting its own output changes nothing. ",
  ["inputs"], "every parseable source text",
  "Sample files only.", ["src/syntax/export/"], [("formatter", "syntax/export/format.rs")])

p("N02", "Rendered data reads back as the same data",
  "Exporting a value to a format and importing the result gives an equal value, for every value the format can represent. ",
  ["inputs"], "every representable value in every format",
  "Escaping and number formatting corner cases are unbounded.", ["src/export/", "src/import/"], [("paired exporters and importers", "export/, import/")])

p("N03", "Program optimisation never changes a result",
  "Inlining, simplification, dead code removal and demand analysis leave the value, laziness and errors of every program unchanged. ",
  ["programs"], "every program",
  "Differential tests cover a corpus.", ["src/core/inline/", "src/core/simplify/", "src/core/transform/", EV + "stg/optimiser.rs"], [("passes", "core/, eval/stg/")])

p("N04", "Parallel and sequential evaluation give the same result",
  "For every program, evaluating with workers gives the value or error that evaluating without them gives. ",
  ["programs", "schedules"], "every program and worker schedule",
  "Timing and partition dependent.", [EV + "stg/parallel/"], [("parallel map", "stg/parallel/driver.rs")])

p("N05", "The type checker never rejects or mis-types a well-typed program",
  "A program that the checker accepts under strict checking never meets the type errors it claims to exclude, and warnings name real mismatches. ",
  ["programs"], "every annotated program",
  "Samples only.", ["src/core/typecheck/"], [("checker", "core/typecheck/")])

p("N06", "Memory stays bounded by the live data",
  "A program whose live data is bounded runs in bounded memory for any length of run, and each expression is evaluated at most once. ",
  ["programs", "histories"], "every program, every length of run",
  "Tests are short.", [EV + "memory/", EV + "bytecode/"], [("collector and updates", "memory/, bytecode/machine.rs")])

p("N07", "Errors point at the source that caused them",
  "The location shown with an error lies in the expression whose evaluation failed. ",
  ["programs"], "every failing program",
  "Judging which expression caused an error is semantic.", [EV + "error.rs", "src/common/sourcemap.rs"], [("source map", "common/sourcemap.rs")])


def write(path):
    with open(path, "w") as f:
        for x in P:
            x["statement"] = x["statement"].strip()
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")


BY = {x["id"]: x for x in P}
if __name__ == "__main__":
    write(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"))
    print(len(P))
