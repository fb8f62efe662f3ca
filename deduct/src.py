"""Loads the current sources of /repo as syntax trees (astdump)."""
import json, os, subprocess, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(HERE, "astdump", "target", "release", "astdump")
_cache = {}


class Unsupported(Exception):
    pass


def build_tool():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.83.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", HERE + "/astdump/Cargo.toml"],
                       env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Unsupported("the syntax tree dump does not build: " + r.stdout[-300:])


def load(repo, *rel):
    """Items of the given files or directories: list of (path, items)."""
    files = []
    for r in rel:
        p = os.path.join(repo, r)
        if os.path.isdir(p):
            for d, _, fs in sorted(os.walk(p)):
                files += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".rs")]
        elif os.path.exists(p):
            files.append(p)
    key = tuple(files)
    if key in _cache:
        return _cache[key]
    if not os.path.exists(TOOL):
        build_tool()
    r = subprocess.run([TOOL] + files, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise Unsupported("syntax tree dump: " + r.stderr[-300:])
    d = json.loads(r.stdout)
    _cache[key] = [(p, d[p]) for p in files]
    return _cache[key]


def walk(items, path=()):
    """All items, with the impl/mod path they are in; test modules are left out."""
    for i in items:
        if i.get("test"):
            continue
        yield path, i
        if i["k"] in ("impl", "mod", "trait") and i.get("items"):
            name = i.get("n") or i.get("ty") or "?"
            yield from walk(i["items"], path + ((i["k"], name, i.get("tr")),))


def functions(repo, *rel):
    """(file, path, fn item)"""
    for f, items in load(repo, *rel):
        for path, i in walk(items):
            if i["k"] == "fn":
                yield f, path, i


def sub(e):
    """All sub-nodes of a syntax tree node."""
    if isinstance(e, dict):
        yield e
        for v in e.values():
            yield from sub(v)
    elif isinstance(e, list):
        for v in e:
            yield from sub(v)
