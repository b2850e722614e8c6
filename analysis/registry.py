"""Property id -> (module, function); technique and level note for the manifest."""
RULES, TECH, NOTE = {}, {}, {}


def reg(pid, module, func, tech, note):
    RULES[pid] = (module, func)
    TECH[pid] = tech
    NOTE[pid] = note


reg("G01", "r_gc", "g01", "path-sensitive coverage dataflow over MIR: every heap-pointer leaf of every type reaches the visitor",
    "Sound for the structural obligation: for every type implementing the collector's tracing interface, each leaf of the type definition that can hold a heap pointer is handed to the visitor on every path consistent with the variants it lives in. Assumes containers report their true length.")
reg("G02", "r_gc", "g02", "path-sensitive coverage dataflow over MIR: every heap-pointer leaf is tested for forwarding and stored back",
    "As G01 for the redirecting pass: each leaf is tested for a forwarded referent and overwritten with the forwarded address on every path where it has one.")
reg("G04", "r_gc", "g04", "typestate / must-precede analysis over the collector drivers' control-flow graphs",
    "Order of phases is decided on every control-flow path of every collection driver; what each phase does internally is G01 and G02. The emergency sweep on allocation failure is outside this rule.")

reg("I05", "r_eff", "i05", "interprocedural effect analysis over the resolved call graph (trait dispatch, function values and closures included)",
    "Every call with an external effect reachable from any built-in or evaluator method is judged; the exceptions are tied to module, purpose and argument provenance. Global mutable state reachable from evaluation is enumerated too.")
reg("S01", "r_eff", "s01", "interprocedural guard dominance: every process-starting call is reachable only over a branch on the permission, plus value provenance of the permission",
    "Decided on all call chains: a chain from any entry to a process-starting call with no permission branch on it is reported. The option parser's own behaviour is assumed.")
reg("S02", "r_eff", "s02", "interprocedural guard dominance plus provenance (taint) of import declaration parts into cache paths and fetch arguments",
    "Every place where a part of a declaration becomes part of a cache path or of a fetch command is shown to be behind a branch that excludes traversal or option injection for that part.")
reg("S03", "r_eff", "s03", "effect enumeration with provenance of every written path",
    "Every file-changing call in the program is enumerated; its destination's provenance must be one of the user-named or tool-owned destinations for that purpose.")
reg("S05", "r_eff", "s05", "interprocedural guard dominance and provenance from environment reads to program construction",
    "Every read of the environment, clock, seed or context that can be embedded in a program is reachable only when the run is not a dump.")
reg("F02", "r_eff", "f02", "interprocedural guard dominance over the formatter's writes plus result-flow to the exit status",
    "Every write of the formatter lies behind the write option, the absence of the check option, a successful parse and a changed text.")
reg("P01", "r_eff", "p01", "control-flow analysis of the child branch of every fork, with unwind edges",
    "Every path of the child branch, unwinding included, ends in an immediate exit; nothing after it is reachable.")
reg("P02", "r_eff", "p02", "path analysis: every started worker is waited for on every path, with its status and result checked and a sequential fallback for every failure",
    "Decides the reaping, status and fallback structure on all paths; that the sequential computation is the same computation is decided structurally by the functions called.")
reg("P04", "r_eff", "p04", "interprocedural guard dominance: every fork is reachable only over the host's safety declaration, and who makes the declaration",
    "Every call chain to a fork passes a branch on the declaration; only single-threaded entry points make it.")
reg("L01", "r_eff", "l01", "path counting of responses over the server loop and its handlers; effect reachability for standard output",
    "On every path of the request branch exactly one response is sent before the next message; notification branches send none; nothing reachable writes to standard output.")
reg("S04", "r_status", "s04", "abstract interpretation of every driver function that reports a status: failure of any operation against the values it can return",
    "Path-insensitive in the callees' internals beyond their Result; every failure label of every driver function is decided. The advisory type check and look-ahead reads are exempt by name and number.")
reg("T01", "r_status", "t01", "abstract interpretation of the test driver's status functions, guard dominance of the passing verdict, enumeration of dropped results",
    "Decides that failures and unmet expectations reach the verdict and the exit status; that the expectation parser and the report text are right is not decided.")
reg("I03", "r_bif", "i03", "interprocedural abstract interpretation counting deliveries to the machine on every successful path of every built-in",
    "Counts stores of the machine's next closure along every path that returns success, through helpers and closures; recursion is resolved by fixpoint. Says nothing about the value delivered.")
reg("I01", "r_bif", "i01", "constant propagation through the catalogue, the runtime's construction and the wrapper combinators; scope, arity, index and shape checks on the recovered terms",
    "Every wrapper term of the standard runtime is recovered from the source that builds it and checked. A wrapper the propagation cannot follow is counted in the evidence, not judged.")
reg("I02", "r_bif", "i02", "taint analysis of argument reads in every built-in against a coinductive evaluation-level analysis of every wrapper term",
    "Levels: head, boxed payload, list spine, parts. Values rendered into messages may be unevaluated. Calls compiled outside wrappers are not covered.")
reg("D01", "r_diag", "d01", "constant propagation through the code assignment and the catalogue command per error variant, must-attach path analysis over diagnostic construction",
    "Decided for every variant of every coded error type and every catalogue entry; the wording of an entry is not judged. Rendering of an attached code is codespan's.")
reg("X01", "r_lost", "x01", "abstract interpretation of every function between a value and the output: fallible operations fork into outcomes, a failed outcome must show in the result; constant propagation through the broken-pipe classification per I/O error kind",
    "Every fallible call of every writer and of every caller of a writer is one obligation. What a library writer reports is taken as it is; writes into memory are taken not to fail.")
reg("X05", "r_lost", "x05", "abstract interpretation of every reader: fallible reads and conversions fork into outcomes, a failed outcome must show in the result; case coverage over library reader enums; enumeration of aborting operations with their producers",
    "Every fallible call of every reader is one obligation. That the library parsers report malformed input is assumed; whether accepted input is converted correctly is not judged.")
reg("G06", "r_vm", "g06", "loop and path analysis: every loop that executes machine steps is found from the instruction switch up; must-pass analysis of its polls with a counter-progress argument, result-sensitive paths from interrupt, policy and limit tests",
    "Bounded interval means a constant number of steps; that a single step or built-in call outside nested evaluation is finite is assumed.")
reg("G05", "r_bal", "g05", "path analysis of the net growth of each side stack over every function that touches them (symbolic heights, loops per item), must-restore path analysis of nested runs",
    "Failing exits of the input/output driver, which end the run, and unwinding are outside. The continuation stack within one run is not a side stack.")
reg("C01", "r_trav", "trav_run", "dataflow of the parts of every tree construct through every recursive function over it, with all-paths coverage per construct and part",
    "Decides that each part is visited, not what the visitor does with it. Type inference, which is gradual, is outside; so are traversals of syntax trees.")
reg("P03", "r_wire", "p03", "language inclusion between byte-stream automata read off the writer's and the reader's control flow, condition/kind pairing per tag, count and order discipline",
    "Every byte sequence the writer can produce for a value is shown to be one the reader takes, token by token, and to be rebuilt as the kind it was written for. The values carried inside a token are followed through conversions only.")

reg("X04", "r_fmt", "x04", "constant propagation of every format name and file extension through the inference, normalisation and dispatch functions, to the reader or writer each one reaches; absence-path analysis of their callers",
    "Every format name and extension is followed to the reader or writer it selects; what that reader or writer does is X01, X05. A dispatch the propagation cannot follow is counted in the evidence, not judged.")

reg("B01", "r_two", "b01", "language inclusion between the encoder's byte stream per instruction and every decoder's reads, both read off the control flow; provenance of every written operand and of every use of a read one",
    "Framing, width, order and kind of every operand. That the encoder is handed the intended tree is outside.")
reg("B02", "r_two", "b02", "effect comparison of the two dispatchers per opcode: pushed continuations, state writes, shared steps, errors and the tested conditions, with operands traced to the written tokens through the pre-decoded fields",
    "Compares which effects happen, under which tested conditions and from which operands; steps both modes share are taken once. Order of effects within one instruction is not compared.")
reg("I06", "r_int", "i06", "interprocedural taint of integers read from program values, and interval analysis narrowed by dominating comparisons",
    "Every arithmetic operation and narrowing conversion on an integer that comes from a program's number, in every function reachable from a built-in, is judged for all values of the operand's type. Operations guarded by a comparison between two variables that the interval domain cannot express are counted as undecided, not as passed. Saturating conversion from floats is outside the rule.")

reg("B04", "r_image", "b04", "field-provenance dataflow over MIR between tree, image arena and stored form, both ways; must-reach analysis of the freshness stamp",
    "For every kind of node, form and stored type: each field comes from the same field of the same kind and from nothing else, in both directions, is stored on every path, in the order it is loaded; the identity given to a rebuilt form reaches every part; the freshness stamp covers its inputs whole. The byte encoding of scalars and lists is the serialisation library's.")

reg("G03", "r_stale", "g03", "strong-liveness and borrow dataflow over MIR at every call that may run the collector (call-graph reachability with constant flags), with an interprocedural obligation on arguments relied on across a collection",
    "Every function from which a collection is reachable is analysed; at each call that may collect, no live value may carry a managed pointer or borrow from one, unless it borrows from the roots. That the machine hands the built-in references into a rooted frame, and that a root slot is read with the right index, are assumed.")
