"""Per property: how it is decided."""
T = "contract-based deductive verification of the real code (deduct/: contracts on the functions of /repo, obligations regenerated from the sources on every run)"
_P = "All obligations discharged for all inputs on the current tree; rests on the trusted base listed in the evidence (dependencies, casts and accessors unless P04 proves them, z3). " \
     "If a change takes a function out of the verifier's reach, that function is decided by the bounded search only and the evidence says so. "
_E = "Partly proved: the obligations in the evidence are discharged for all inputs; the rest is decided by a bounded search on the real code against an independent reference model. "
NOTES = {
    "P01": ("proof", "Word equations over the contracts of all 84 parser functions: text of the result == consumed text."),
    "P02": ("proof", "Progress of every repetition, guarded recursion, totality of the root rule and no panicking construct in crates/parser; winnow and rowan themselves are trusted, the stack is assumed to suffice (known finding)."),
    "P03": ("exploration", "Proved: every construction of an ERROR token reports a syntax error. Bounded: error ranges and acceptance of the supported grammar."),
    "P04": ("proof", "Casts, accessors, raw-kind round trip and the tables of the typed tree: one obligation per node type, accessor and token kind."),
    "P05": ("proof", "Equivalence of the character classes and of the name test of rename with the specification's idchar, by z3 over all characters and strings."),
    "P06": ("proof", "Every function from the symbol table to goto_definition ensures result == spec."),
    "P07": ("proof", "Every function from the symbol table to find_references ensures result == spec."),
    "P08": ("proof", "Every function from the symbol table to rename ensures result == spec."),
    "P09": ("proof", "checker::undef and the symbol table ensure result == spec."),
    "P10": ("proof", "checker::dup_names and the symbol table ensure result == spec; the order of related information follows a hash map and is left open."),
    "P11": ("proof", "One obligation per instruction by exact evaluation of the table against the specification, and the contract of hover that shows the opcode."),
    "P12": ("proof", "checker::typeck and types_analyzer ensure result == spec."),
    "P13": ("exploration", "Proved: the doc of every node kind prints every child once and in order, keeps tokens apart and every comment in its gap (contracts on all doc functions against the children the parser functions can make); tiny_pretty is trusted. Bounded: that the output is parsed to the same tokens without errors."),
    "P14": ("exploration", "Proved: the doc functions print the same line breaks and comments from their own output (trivia functions), and P13's contracts. Bounded: idempotence of whole documents, which goes through the external pretty printer's line breaking."),
    "P15": ("exploration", "Proved: the doc contracts of P13, format_node and format_range (the text and the range are of one node that covers the request) and the service's edit. Bounded: documents with syntax errors, and the whole over real documents."),
    "P16": ("proof", "Token mapping, delta encoding and legend ensure result == spec (with the known finding of the range request)."),
    "P17": ("exploration", "Selection and folding ranges and the item of every document symbol are under contract; how document symbols are nested (a map mutated through entries) is bounded."),
    "P18": ("proof", "The body of the server's loop, extracted on every run, ensures: every request answered exactly once with its id, notifications never, shutdown and exit end the loop; lsp-server's channels and handle_shutdown are trusted by contract."),
    "P19": ("proof", "The server's notification arms, commit and the diagnostics functions ensure: after every didOpen/didChange/didClose the text of the document is the last one given and the diagnostics published are those of that text; frame obligations: no other function writes the inputs."),
    "P20": ("proof", "Frame obligations: answers read nothing but the inputs of salsa (no statics, interior mutability, clocks, environment), mutators are commit only, every memo key determines the arguments, and equality of memoised values preserves what readers use. salsa itself is trusted. The order of lists keyed by interned names is left open."),
    "P21": ("proof", "code_action and the three refactorings ensure result == spec."),
    "P22": ("proof", "checker::literal_operands and multi_modules ensure result == spec."),
    "P23": ("proof", "hover, inlay hints and types_analyzer ensure result == spec."),
    "P24": ("proof", "completion ensures result == spec."),
    "P25": ("proof", "call hierarchy ensures result == spec."),
    "P26": ("exploration", "Position conversion and the functions under contract; absence of panics over arbitrary documents and positions is decided by the bounded search."),
}
PLAN = {p: {"technique": T + ("" if l == "proof" else "; bounded stand-in (harness/) for the rest"), "level": l, "note": (_P if l == "proof" else _E) + n} for p, (l, n) in NOTES.items()}
