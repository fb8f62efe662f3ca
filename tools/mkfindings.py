import json, subprocess
log = dict(reversed(l.split(" ", 1)) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], text=True, capture_output=True).stdout.splitlines())
FIX = [
 ("P03", "fix: keep syntax error ranges ordered (end never before start)"), ("P02", "fix: do not panic on unclosed nested block comments"),
 ("P01", "fix: keep the text after a malformed string literal in the tree"), ("P08", "fix: rename only the identifiers that denote the renamed symbol"),
 ("P08", "fix: rename the labels repeated after else and end"), ("P06", "fix: resolve labels of all enclosing blocks through folded instructions and if branches"),
 ("P07", "fix: only report branches that target the block as its references"), ("P10", "fix: report duplicated names of tables"),
 ("P10", "fix: labels do not clash with locals or with labels of sibling blocks"), ("P26", "fix: LSP positions are in UTF-16 code units and may be beyond the line"),
 ("P16", "fix: keep semantic token deltas right after skipped multi-line tokens and non-ASCII text"), ("P19", "fix: use the latest content of a document change notification"),
 ("P18", "fix: answer requests with unsupported methods or malformed params"), ("P13", "fix: tell the label of a block from the label repeated after its end"),
 ("P13", "fix: keep the sharedness of limits when formatting"), ("P13", "fix: keep comments between params and results of type uses without type index"),
 ("P13", "fix: keep comments at the start of the then branch of an unfolded if"), ("P14", "fix: do not add blank lines after comments before offsets and element expressions"),
 ("P01", "fix: keep form feeds in the tree"), ("P12", "fix: check operands of calls to functions whose params are not declared inline"),
 ("P21", "fix: do not join the operand after a complete memory argument"), ("P06", "fix: the condition of folded if is out of the scope of its label"),
 ("P08", "fix: labels after else can be renamed, too"), ("P12", "fix: immediates of memory and table instructions and select can be omitted"),
 ("P11", "fix: i8x16.shuffle has 16 lane indices"), ("P22", "fix: omitted table indices and memory arguments aren't invalid operands"),
 ("P26", "fix: do not panic when formatting with indent width of zero"), ("P24", "fix: complete memories and tables in memory uses and table uses"),
 ("P26", "fix: clamp columns beyond lines with non-ASCII characters"), ("P21", "fix: parse block types with several results"), ("P05", "fix: accept apostrophes in identifiers"),
 ("P03", "fix: accept underscores in signed hexadecimal floats and in nan payloads"),
 ("P06", "fix: resolve indices in hexadecimal or with underscores"),
 ("P13", "fix: keep every inline import of a function when formatting"),
 ("P09", "fix: the only index of table.init is that of the element segment"),
]
KNOWN = [
 ("P03", "(module))x", "after an unmatched `)` at the top level the rest of the text becomes ERROR tokens without any syntax error (the snapshot of table-malformed pins this)"),
 ("P02", "(module (func " + "(if " * 40 + ")" * 40 + "))", "parse time doubles with every level of nested `(if (if ..` (and `block block ..`): both alternatives of the block parsers are tried at each level"),
 ("P02", "(module (func " + "(i32.eqz " * 100000 + "))", "nesting deeper than the stack overflows it: recursive descent without a depth limit"),
 ("P06", "(module (type (func)) (func) (func (call 0)))", "functions, types, globals, memories and tables of a module share one index counter, so `call 0` does not find the first function when a field of another kind precedes it (symbol table snapshots pin this)"),
 ("P06", "(module (global $g i32 (i32.const 0)) (export \"g\" (global $g)))", "uses in export descriptors of globals, memories and tables, element segments, data segments and call_indirect table operands are not resolved (tests pin some of them)"),
 ("P09", "(module (func (block (br 1))))", "a branch to the label of the function body is reported as undefined"),
 ("P06", "(module (type $t (func (param i32) (result i32))) (func (type $t) (local i64) (i64.eqz (local.get 1))))", "the params that a function has through its type use only are not counted: locals are numbered from 0 and `local.get` of such a param finds nothing"),
    ("P09", "(module (type $t (func (param i32) (result i32))) (func (type $t) (local i64) (i64.eqz (local.get 1))))", "the params that a function has through its type use only are not counted: locals are numbered from 0 and `local.get` of such a param finds nothing, so it is reported as undefined"),
    ("P12", "(module (type $t (func (param i32) (result i32))) (func (type $t) (local i64) (i64.eqz (local.get 1))))", "the params that a function has through its type use only are not counted: locals are numbered from 0 and `local.get` of such a param finds nothing, so it pushes no operand"),
    ("P08", "(module (type $func) (func $func))", "renaming a field also renames the fields of other kinds of the same name in the module (the snapshot of rename::func_conflicts pins this)"),
    ("P10", "(module (func $a) (global $a i32))", "fields of different kinds with the same name are reported as duplicates although they live in different index spaces (a test pins this)"),
 ("P13", '(module (func (export "a") (import "m" "n")))', "an inline import of a function is printed in front of the inline exports that precede it (the formatter's snapshot of imports pins this)"),
 ("P15", '(module (func (export "a") (import "m" "n")))', "as P13: range formatting of a function prints an inline import in front of the inline exports that precede it"),
 ("P16", "(module\n (func))", "in the answer to a range request the first token's start is relative to the first token of the tree in the range, not to the start of the line (a test pins this)"),
]
out = []
for p, m in FIX:
    if m not in log: print("MISSING", m); continue
    out.append({"property": p, "status": "fixed", "commit": log[m], "what": m[5:], "line": f"fixed: property={p} {log[m]} {m[5:]}"})
used = {m for _, m in FIX}
for m in log:
    if m.startswith("fix:") and m not in used: print("UNLISTED", m)
for p, i, w in KNOWN:
    out.append({"property": p, "status": "known", "input": i if len(i) < 2000 else i[:60] + "...", "what": w})
open("/verif/known-findings.jsonl", "w").write("".join(json.dumps(o) + "\n" for o in out))
