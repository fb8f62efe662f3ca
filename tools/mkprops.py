import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=f) for m,f in zip(mech,files+files)],observe_at=observe)))
PA=["crates/parser/src/parser/mod.rs","crates/parser/src/parser/token.rs","crates/parser/src/parser/module.rs","crates/parser/src/parser/instr.rs","crates/parser/src/parser/ty.rs"]
FO=["crates/formatter/src/lib.rs","crates/formatter/src/printer/mod.rs","crates/formatter/src/printer/module.rs","crates/formatter/src/printer/instr.rs","crates/formatter/src/printer/ty.rs"]
S="crates/service/src/"
p("P01","Parsing is lossless",
 "For every source text, well-formed or not, the text of the syntax tree that the parser returns is byte for byte the source text: no character is dropped, duplicated, reordered or invented by any parser function or by error recovery. In particular the tree covers the whole source, whatever characters (control characters, non-ASCII, unbalanced parentheses, unclosed strings or comments) it contains.",
 ["inputs"],"every UTF-8 string","Tests parse some hundred fixed documents; dropping a token in one recovery path shows only on inputs that reach it.",
 PA,["every function of the parser crate that builds green elements: node(), tok(), retry, retry_once, must, r_paren, error_term, error_token and the *_children mappers","parse / parse_to_green / root"],["wat_parser::parse(src).0.to_string()"])
p("P02","Parsing always terminates without panicking",
 "For every source text (with nesting the stack can hold) `parse` returns a ROOT node and a list of errors: it never panics, never runs into an infinite repetition, and never reports failure to produce a tree.",
 ["inputs"],"every UTF-8 string of bounded nesting","A panic in the parser kills the language server; the inputs that cause one are exactly those nobody thought of.",
 PA,["the expect() in parse_to_green; every repeat() body must consume; r_paren, error_token, string and comment scanners"],["wat_parser::parse returns"])
p("P03","Syntax errors are located inside the source and none is silent",
 "Every syntax error has a range with start <= end <= source length, both on character boundaries. Whenever the tree contains an ERROR token (in front of the first unmatched `)` at the top level: from there on the rest of the text is kept as it is) at least one syntax error is reported, and a document that follows the supported WAT grammar is parsed with no syntax error and no ERROR token.",
 ["inputs"],"every UTF-8 string; for the last clause every document derivable from the grammar","Ranges and the presence of errors depend on where recovery starts; tests pin a few malformed documents.",
 PA+["crates/parser/src/error.rs"],["error_term, error_token, must, retry and parse that turn recovery errors into SyntaxError"],["wat_parser::parse(src).1"])
p("P04","Syntax kinds and typed AST wrappers are consistent",
 "Converting a SyntaxKind to the raw rowan kind and back is the identity for every kind. For every AST wrapper type `cast` succeeds exactly when `can_cast` holds for the node's kind, yields a wrapper of the same node, and no two wrapper types (other than sum types and their members) accept the same kind; every node kind is accepted by the wrapper named after it. Every accessor of a wrapper returns the first token (or the first child, or all children in order) of the kind it is named after, and nothing else.",
 ["inputs"],"every SyntaxKind and every node of every tree","The mapping is a hand-maintained table per type; tests touch only the kinds the fixtures contain.",
 ["crates/syntax/src/kind.rs","crates/syntax/src/lib.rs","crates/syntax/src/ast/mod.rs","crates/syntax/src/ast/module.rs","crates/syntax/src/ast/instr.rs","crates/syntax/src/ast/ty.rs"],["From<SyntaxKind> for rowan::SyntaxKind, kind_from_raw, can_cast/cast/syntax of every AstNode impl"],["SyntaxNode::kind, X::cast"])
p("P05","Identifier characters are exactly those of the WebAssembly text format",
 "A character is accepted inside an identifier by the parser, and in a new name by rename, exactly when it is an `idchar` of the WebAssembly text format (printable ASCII except space, double quote, comma, semicolon and brackets). Rename accepts a new name exactly when it is `$` followed by at least one such character.",
 ["inputs"],"every Unicode scalar value, every string","About a million characters, of which tests use a few dozen.",
 ["crates/parser/src/parser/token.rs",S+"features/rename.rs"],["is_id_char, ident; is_valid_name check in rename"],["wat_parser::is_id_char; LanguageService::rename"])
p("P06","Go-to-definition leads to the declaration the identifier denotes",
 "For every identifier or index operand that names a function, local, parameter, global, type, memory, table or label, go-to-definition returns exactly the declarations of that kind in scope with that name or index (the innermost enclosing block for labels, the enclosing function for locals and parameters, the enclosing module otherwise) and nothing when there is none. Indices of parameters and locals count them in order of declaration, branch depths count enclosing blocks from the inside.",
 ["inputs"],"every document and position","Name resolution over arbitrary nesting, shadowing and several modules; tests cover a dozen layouts.",
 [S+"binder.rs",S+"idx.rs",S+"features/definition.rs",S+"helpers.rs"],["create_symbol_table, find_defs, find_param_or_local_def, find_block_def, Idx::is_defined_by, goto_definition"],["LanguageService::goto_definition"])
p("P07","References are exactly the uses bound to the declaration",
 "Find-references at a declaration or a use returns exactly the uses in scope that resolve (by name or index) to the same declaration, plus the declaration itself if and only if include_declaration is set; every returned use, asked for its definition, leads back to that declaration. Symbols of other kinds, functions, modules or blocks that share the name are never included.",
 ["inputs"],"every document, position and include_declaration flag","Relation between two independently written features over arbitrary programs.",
 [S+"binder.rs",S+"features/references.rs"],["find_references and its per-kind filters over the symbol table"],["LanguageService::find_references"])
p("P08","Rename changes exactly the bound occurrences",
 "Renaming replaces exactly the identifier tokens that belong to the renamed symbol (declaration, uses, and labels repeated after else and end) by the new name and changes no other byte; every edit's range is precisely one identifier token whose text is the old name, and edits never overlap. Same-named labels, locals or parameters of other functions, and symbols of other modules are untouched, and renaming to a fresh name and back restores the document.",
 ["inputs"],"every document, position and valid new name","Wrong edits corrupt user code silently; scoping situations are unbounded.",
 [S+"features/rename.rs",S+"binder.rs"],["rename, prepare_rename, the symbol filter and edit construction"],["LanguageService::rename, prepare_rename"])
p("P09","An undefined-reference diagnostic is reported iff resolution fails",
 "For every reference to a function, local, global, type, memory, table or label of an enclosing block (branches outside any block are not checked) the diagnostics contain ``cannot find `x` in this scope`` at that reference exactly when no declaration in scope matches it; defined references never get one and each undefined one gets exactly one.",
 ["inputs"],"every document","Needs agreement between checker and resolver on all programs.",
 [S+"checker/undef.rs",S+"checker/mod.rs",S+"binder.rs"],["undef::check over all reference kinds"],["LanguageService::pull_diagnostics"])
p("P10","Duplicate names are reported exactly",
 "A ``duplicated name`` diagnostic is reported at a named declaration exactly when another declaration in the same scope (the module for fields, the function for parameters and locals) has the same name, with related information listing precisely the other declarations; names in different modules, functions or scopes never clash.",
 ["inputs"],"every document","Depends on all pairs of declarations.",
 [S+"checker/dup_names.rs"],["dup_names::check grouping by region and name"],["LanguageService::pull_diagnostics"])
p("P11","Instruction metadata agrees with the WebAssembly specification",
 "For every instruction in the metadata table the listed parameter types, result types and number of immediates (a memory argument counts as one) agree with the WebAssembly specification; every entry is a real instruction and the binary opcode shown to users is the specified one.",
 ["inputs"],"every instruction in the table (complete enumeration)","About 480 hand-written rows; tests use a few dozen.",
 [S+"data_set/instr_meta.rs",S+"data_set/mod.rs"],["INSTR_METAS table"],["hover on an instruction; type-check diagnostics"])
p("P12","The type checker accepts exactly well-typed straight-line code",
 "For function bodies and blocks made of plain instructions with fixed value types, local.get, global.get and calls, a mismatch diagnostic is reported at an instruction exactly when the values on the operand stack (or the folded operands) disagree in number or in type with what the instruction takes, with the expected and found count or type in the message. Well-typed code gets no type diagnostic whether written folded or unfolded.",
 ["inputs"],"every such body","Stack discipline over arbitrarily long instruction sequences.",
 [S+"checker/typeck.rs",S+"types_analyzer.rs",S+"data_set/mod.rs"],["check_folded, check_stacked, resolve_type, resolve_expected_types, get_func_sig, extract_type"],["LanguageService::pull_diagnostics"])
p("P13","Formatting preserves every token and comment, in order",
 "For every syntactically correct document (with closed string literals) and every formatter configuration, the formatted text consists of the same sequence of tokens and comments (comment text up to the configured comment formatting) as the original; only whitespace changes. Formatting never panics and its output is again syntactically correct.",
 ["inputs"],"every error-free document and every configuration","Comments can stand between any two tokens of any node; each printer function handles each gap separately.",
 FO,["DocGen::doc of every node type, format_node, format_trivias, wrap_before etc."],["wat_formatter::format, LanguageService::formatting"])
p("P14","Formatting is idempotent",
 "Formatting an already formatted document with the same configuration leaves it unchanged.",
 ["inputs"],"every error-free document and every configuration","Depends on line fitting and blank line handling of every layout.",
 FO,["DocGen::doc of every node type"],["wat_formatter::format(format(x))"])
p("P15","Range formatting touches only the covering node and preserves tokens",
 "Range formatting returns a replacement for the range of exactly one node that covers the requested range; applying it preserves the sequence of all tokens and comments of the document, leaves every byte outside the returned range unchanged, and never panics for any range inside the document.",
 ["inputs"],"every error-free document and every range","All pairs of offsets of all documents.",
 ["crates/formatter/src/lib.rs",S+"features/formatting.rs"],["format_range, range_formatting"],["wat_formatter::format_range, LanguageService::range_formatting"])
p("P16","Semantic tokens decode to the tokens of the document",
 "Decoding the relative encoding of the full semantic tokens yields strictly increasing, non-overlapping ranges, each of which is precisely the position (in UTF-16 units) and length of one token of the document with the type that belongs to it; a range request yields exactly those tokens of the full answer that overlap the requested range.",
 ["inputs"],"every document and range","Delta encoding: one wrong delta displaces all later tokens; depends on multi-line and non-ASCII context.",
 [S+"features/semantic_tokens.rs"],["build_tokens loop: delta_line, prev_start, token kinds"],["LanguageService::semantic_tokens_full, semantic_tokens_range"])
p("P17","Structural ranges nest and cover what they describe",
 "Selection ranges form a chain from the token at the position to the root in which every parent contains its child and the requested position; every folding range spans more than one line, lies inside the document and is the extent of one construct, with every multi-line parenthesised or keyword construct having one; in document symbols each symbol's selection range lies in its range and children lie in their parent's range, one symbol for each declaration.",
 ["inputs"],"every document and position","Positions and nesting are unbounded.",
 [S+"features/selection_range.rs",S+"features/folding_range.rs",S+"features/document_symbol.rs"],["selection_range, folding_range, document_symbol"],["LanguageService::selection_range, folding_range, document_symbol"])
p("P18","The server answers every request exactly once",
 "For every sequence of messages that follows the LSP handshake, each request (supported, unsupported or with malformed parameters) gets exactly one response carrying its id and no response is sent without a request; after shutdown the server answers and stops on exit. Supported requests are answered by the handler of that method.",
 ["histories"],"every message sequence after initialize","Histories of messages; the tests do not run the server at all.",
 ["crates/server/src/server.rs","crates/server/src/main.rs"],["Server::run message loop: cast_req chain"],["the JSON-RPC messages on stdout"])
p("P19","The server always works on the last text the client sent",
 "After any sequence of didOpen, didChange and didClose notifications for any documents, answers about a document are those for the text of the latest notification about it, independent of earlier texts and of other documents; pushed diagnostics are for the latest text and closing a document clears them.",
 ["histories"],"every sequence of document notifications","Histories; caches may serve stale results.",
 ["crates/server/src/server.rs",S+"lib.rs",S+"files.rs"],["notification handlers, LanguageService::commit, FilesCtx inputs"],["responses after notifications"])
p("P20","Answers do not depend on history",
 "Whatever documents were committed, replaced or queried before and in whatever order, every feature of the language service returns for a document what a fresh service given only that document returns, and asking twice gives the same answer; a query never changes the result of another.",
 ["histories"],"every sequence of commits and queries","Incremental computation: staleness appears only after particular edit sequences.",
 [S+"lib.rs",S+"files.rs",S+"binder.rs",S+"types_analyzer.rs",S+"features/completion.rs"],["salsa inputs and derived queries; InternUri; interior state of LanguageService"],["all LanguageService features"])
p("P21","Code actions keep the meaning of the code",
 "Applying a code action only changes what it says: splitting or joining param/result/local groups leaves the sequence of declared types of the function and every token outside the rewritten groups unchanged, and fixing an invalid memory argument removes only the whitespace around `=`. Actions are offered exactly where they apply, edits lie inside the document, and the result is free of new syntax errors.",
 ["inputs"],"every document and range","Text edits built from arbitrary surroundings.",
 [S+"features/code_action.rs",S+"refactorings/func_header_split.rs",S+"refactorings/params_join.rs",S+"refactorings/fix_invalid_mem_arg.rs"],["code_action, func_header_split::act, params_join::act, fix_invalid_mem_arg::act"],["LanguageService::code_action"])
p("P22","Immediate operand and module count diagnostics are exact",
 "An ``expected ...`` diagnostic is reported at an immediate operand exactly when the instruction requires an index, an integer, a number or a memory argument there and the operand is of another lexical kind (memory arguments and table indices may be omitted). Each module after the first, and no other, gets the `only one module is allowed in one file` diagnostic.",
 ["inputs"],"every document","A table over all instructions and operand kinds; tests sample a few.",
 [S+"checker/literal_operands.rs",S+"checker/multi_modules.rs",S+"checker/mod.rs"],["literal_operands::check","multi_modules::check"],["LanguageService::pull_diagnostics"])
p("P23","Hover and inlay hints show the declared types",
 "Hover on a name or a use of it shows the signature or type of exactly the declaration it resolves to, with all parameter and result types in order; inlay hints after local and global uses show the type of the resolved declaration, are placed at the end of the use, and only for uses inside the requested range.",
 ["inputs"],"every document and position","Signatures and scopes are unbounded.",
 [S+"features/hover.rs",S+"features/inlay_hint.rs",S+"types_analyzer.rs"],["hover, inlay_hint, get_func_sig, extract_type, extract_global_type, render_*"],["LanguageService::hover, inlay_hint"])
p("P24","Completion offers exactly the symbols in scope",
 "Where an operand naming a local, function, global, memory, table, type or label is completed, the offered names are exactly the named declarations of that kind visible there (the enclosing function for locals, enclosing blocks for labels, the same module otherwise; the condition of a folded `if` is outside its label's scope), each once per declaration; symbols of other functions or modules are never offered.",
 ["inputs"],"every document and position","Scopes are unbounded.",
 [S+"features/completion.rs",S+"binder.rs"],["get_cmp_ctx / get_cmp_list, get_declared_*"],["LanguageService::completion"])
p("P25","Call hierarchy agrees with the calls in the module",
 "Outgoing calls of a function are exactly the functions its body refers to with call, return_call and ref.func, incoming calls exactly the functions whose bodies call it, each with the ranges of the calling instructions; g is an outgoing call of f exactly when f is an incoming call of g (for call instructions).",
 ["inputs"],"every document and function","Relation over all pairs of functions.",
 [S+"features/call_hierarchy.rs"],["prepare_call_hierarchy, call_hierarchy_incoming_calls, call_hierarchy_outgoing_calls"],["LanguageService::call_hierarchy_*"])
p("P26","Positions convert exactly and no request panics",
 "Offsets and LSP positions (UTF-16) convert into each other without loss for every character boundary of every document, columns beyond the end of a line mean its end, and every feature request at any position or range of any opened document, well-formed or not, returns without panicking.",
 ["inputs"],"every document, position and range","All positions of all documents, with non-ASCII text, CRLF, and stale positions.",
 [S+"helpers.rs",S+"features/mod.rs"],["rowan_pos_to_lsp_pos, lsp_pos_to_rowan_pos, rowan_range_to_lsp_range, find_token"],["every LanguageService feature"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
