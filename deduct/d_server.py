"""P18, P19: the message loop of crates/server. One turn of the loop is a function of its own (`step`); the connection is a
ghost log: `send` and `handle_shutdown` change it (rewritten mechanically below), so equal final connections mean the same messages in the same order."""
import copy, re
from .src import sub, Unsupported
from .d_service import Contracts, contracts

METHODS = {
    "CallHierarchyIncomingCalls": "callHierarchy/incomingCalls", "CallHierarchyOutgoingCalls": "callHierarchy/outgoingCalls", "CallHierarchyPrepare": "textDocument/prepareCallHierarchy",
    "CodeActionRequest": "textDocument/codeAction", "Completion": "textDocument/completion", "DocumentDiagnosticRequest": "textDocument/diagnostic",
    "DocumentSymbolRequest": "textDocument/documentSymbol", "FoldingRangeRequest": "textDocument/foldingRange", "Formatting": "textDocument/formatting",
    "GotoDeclaration": "textDocument/declaration", "GotoDefinition": "textDocument/definition", "GotoTypeDefinition": "textDocument/typeDefinition",
    "HoverRequest": "textDocument/hover", "InlayHintRequest": "textDocument/inlayHint", "PrepareRenameRequest": "textDocument/prepareRename",
    "RangeFormatting": "textDocument/rangeFormatting", "References": "textDocument/references", "Rename": "textDocument/rename", "SelectionRangeRequest": "textDocument/selectionRange",
    "SemanticTokensFullRequest": "textDocument/semanticTokens/full", "SemanticTokensRangeRequest": "textDocument/semanticTokens/range",
    "DidOpenTextDocument": "textDocument/didOpen", "DidChangeTextDocument": "textDocument/didChange", "DidCloseTextDocument": "textDocument/didClose",
    "PublishDiagnostics": "textDocument/publishDiagnostics", "DidSaveTextDocument": "textDocument/didSave", "Shutdown": "shutdown", "Exit": "exit",
    "GotoImplementation": "textDocument/implementation", "SignatureHelpRequest": "textDocument/signatureHelp", "DocumentHighlightRequest": "textDocument/documentHighlight",
}
NEXT = {"k": "path", "p": "Next", "t": "Next"}


def methods(e):
    """`X::METHOD` is the method's name"""
    for x in sub(e):
        if x.get("k") == "path" and x["p"].endswith("::METHOD"):
            m = METHODS.get(x["p"].split("::")[-2])
            if m:
                x.clear()
                x.update({"k": "str", "v": m})


def prepare(f):
    if not f.get("b"):
        return
    methods(f["b"])
    f["b"] = specialised(f["b"])
    names = set()
    for p in f["i"]:
        if re.fullmatch(r"&?(\w+::)*Connection", p["ty"].replace(" ", "")):
            names.add(p["p"].get("n"))
            p["ty"] = "&mutConnection"
    for x in sub(f["b"]):
        if x.get("k") == "let" and x["p"]["k"] == "ptuple" and x["e"] and x["e"]["k"] == "call" and x["e"]["f"].get("p", "").startswith("Connection::"):
            names.add(x["p"]["e"][0].get("n"))
        if x.get("k") == "mcall" and x["m"] == "extract" and len(x["a"]) == 1:
            r = "extract_request" if "RequestId" in (f["o"] or "") or f["i"] and "Request" in f["i"][0]["ty"] else "extract_notification"
            a = [x["r"]] + x["a"]
            x.clear()
            x.update({"k": "call", "f": {"k": "path", "p": r, "t": r}, "a": a, "l": 0})
    for x in sub(f["b"]):
        if x.get("k") == "ref" and x["e"]["k"] == "path" and x["e"]["p"] in names:
            x["mut"] = True
        if x.get("k") == "call":
            x["a"] = [{"k": "ref", "mut": True, "e": a, "l": 0} if a["k"] == "path" and a["p"] in names else a for a in x["a"]]
        if x.get("k") == "mcall":
            x["a"] = [{"k": "ref", "mut": True, "e": a, "l": 0} if a["k"] == "path" and a["p"] in names else a for a in x["a"]]


def specialised(b):
    """`cast_req::<X>(e)` for the one-line generic functions of the crate: the type argument is what matters"""
    for x in sub(b):
        if x.get("k") == "call" and x["f"]["k"] == "path":
            m = re.search(r"(cast_req|cast_notification)::<(?:\w+::)*(\w+)>$", x["f"].get("t") or "")
            if m and m.group(2) in METHODS:
                x["f"] = dict(x["f"], p=m.group(1), t=m.group(1))
                x["a"] = x["a"] + [{"k": "str", "v": METHODS[m.group(2)]}]
    return b


def generic(f):
    """fn f<R>(req) .. R::METHOD ..  becomes  fn f(req, method) .. method .."""
    m = re.match(r"<\s*(\w+)", f["g"] or "")
    if m and len(f["i"]) == 1:
        hit = False
        for x in sub(f["b"]):
            if x.get("k") == "path" and x["p"] == m.group(1) + "::METHOD":
                x.update({"p": "method!", "t": "method!"})
                hit = True
        if hit:
            f["i"] = f["i"] + [{"p": {"k": "pid", "n": "method!", "mut": False, "ref": False, "sub": None}, "ty": "&str"}]


def is_receiver(e, names):
    while e["k"] in ("ref",) or e["k"] == "mcall" and e["m"] in ("iter", "into_iter"):
        e = e["e"] if e["k"] == "ref" else e["r"]
    return e["k"] == "field" and e["n"] == "receiver"


def flow(b):
    """continue / break of the message loop as returns"""
    def go(x, depth):
        if isinstance(x, list):
            return [go(y, depth) for y in x]
        if not isinstance(x, dict):
            return x
        k = x.get("k")
        if k in ("for", "while", "loop", "closure"):
            depth += 1
        if k == "continue" and depth == 0:
            return {"k": "return", "e": NEXT, "l": x.get("l")}
        if k == "break" and depth == 0:
            return {"k": "return", "e": {"k": "call", "f": {"k": "path", "p": "Ok", "t": "Ok"}, "a": [{"k": "tuple", "e": []}]}, "l": x.get("l")}
        return {n: go(v, depth) for n, v in x.items()}
    return go(b, 0)


def split(f):
    """the loop over the messages: its body as a function"""
    ss = f["b"]["s"]
    if len(ss) != 2 or ss[0]["k"] != "expr":
        raise Unsupported("the body of the message loop")
    l, tail = ss[0]["e"], ss[1]
    if tail["k"] != "expr" or tail["e"]["k"] != "call" or tail["e"]["f"].get("p") != "Ok":
        raise Unsupported("the end of the message loop")
    if l["k"] == "for" and is_receiver(l["e"], ()):
        pat, body = l["p"], l["b"]
    elif l["k"] == "while" and l["c"]["k"] == "iflet" and l["c"]["p"]["k"] == "pts" and l["c"]["p"]["p"] == "Ok" and l["c"]["e"]["k"] == "mcall" and l["c"]["e"]["m"] == "recv":
        pat, body = l["c"]["p"]["e"][0], l["b"]
    else:
        raise Unsupported("no loop over the messages")
    g = copy.deepcopy({k: v for k, v in f.items() if k != "b"})
    g["n"] = "step"
    g["i"] = g["i"] + [{"p": pat, "ty": "Message"}]
    g["b"] = {"k": "block", "s": [{"k": "expr", "e": flow(body), "semi": True}, {"k": "expr", "e": NEXT, "semi": False}], "l": f["l"]}
    return g


class Server(Contracts):
    def __init__(s, repo):
        super().__init__(repo, "server", prepare, ["crates/service/src"], s.extract)

    def extract(s, sym):
        for k, f in list(sym.qual.items()):
            generic(f)
        sym.opaque.add("server_loop")
        sym.total = {"to_value"}  # serialising LSP types does not fail
        sym.mutself |= {"send", "handle_shutdown", "initialize_start", "initialize_finish"}
        sym.fields.setdefault("content_changes", set()).add("Vec<TextDocumentContentChangeEvent>")
        sym.structs["InitializeParams"] = {"capabilities": "ClientCapabilities"}
        sym.structs["ClientCapabilities"] = {"text_document": "Option<TextDocumentClientCapabilities>"}
        sym.structs["TextDocumentClientCapabilities"] = {"diagnostic": "Option<DiagnosticClientCapabilities>"}
        sym.rets["from_value::<InitializeParams>"] = {"Result<InitializeParams>"}
        for n in ("send", "handle_shutdown", "initialize_start", "initialize_finish", "params_of", "to_value", "join", "rename"):
            sym.rets[n] = {"Result<_>"}
        sym.rets["handle_shutdown"] = {"Result<bool>"}
        for k, f in list(sym.qual.items()):
            if k[2] == "server_loop":
                g = split(f)
                sym.qual[(k[0], k[1], "step")] = g
                sym.owner[id(g)] = sym.owner.get(id(f))
                sym.fns["step"] = g


loop = contracts("P18", True, [("server.rs", None)], Server,
                 trusted=["z3 4.x, deduct/symv.py, astdump, the extraction of the loop body and of the ghost log (d_server.py)",
                          "lsp-server: extract, handle_shutdown, initialize_*, send as its sources say (specs/server/support.rs); its channels deliver every message once and in order; "
                          "lsp-types: the names of the methods", "serde: serialising LSP types does not fail"],
                 assume=["the methods of LanguageService are functions of the service's state and of their parameters (P20)", "a send fails only when the client is gone"])
