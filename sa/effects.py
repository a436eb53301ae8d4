"""C26: effects of every function, over the call graph of the crate."""
from .kit import *

# external functions with an effect: prefix of the printed path -> effect
SOURCES = [
    ("rand::rngs::thread::", "random"), ("rand::rngs::ThreadRng", "random"), ("rand::thread_rng", "random"),
    ("rand::prelude::thread_rng", "random"), ("rand::random", "random"), ("rand::rngs::OsRng", "random"),
    ("rand_core::os::", "random"), ("rand_core::OsRng", "random"), ("getrandom::", "random"),
    ("std::hash::RandomState::", "random"), ("std::collections::hash_map::RandomState::", "random"),
    ("std::hash::random::", "random"),
    ("std::time::Instant::now", "time"), ("std::time::SystemTime::now", "time"), ("std::time::Instant::elapsed", "time"),
    ("std::time::SystemTime::elapsed", "time"),
    ("std::env::", "environment"),
    ("std::process::", "process"), ("std::os::", "process"), ("std::net::", "network"),
    ("std::io::stdin", "input"), ("std::io::Stdin", "input"), ("std::io::read_to_string", None),
    ("std::thread::current", "thread"), ("std::thread::Thread::id", "thread"),
    ("std::thread::available_parallelism", "environment"),
    ("std::fs::write", "write"), ("std::fs::File::create", "write"), ("std::fs::File::create_new", "write"),
    ("std::fs::File::options", "write"), ("std::fs::OpenOptions::open", "write"), ("std::fs::rename", "write"),
    ("std::fs::remove", "write"), ("std::fs::copy", "write"), ("std::fs::create_dir", "write"),
    ("std::fs::hard_link", "write"), ("std::fs::set_permissions", "write"), ("std::fs::File::set", "write"),
    ("std::fs::DirBuilder", "write"),
    ("std::fs::", "read"), ("std::path::Path::exists", "read"), ("std::path::Path::is_file", "read"),
    ("std::path::Path::metadata", "read"), ("std::path::Path::is_dir", "read"), ("std::path::Path::read_dir", "read"),
    ("std::path::Path::try_exists", "read"), ("std::path::Path::canonicalize", "read"),
]
# methods whose result depends on the random seed of a hash table
ORDER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain",
         "extract_if")
FREE = ("core", "alloc", "serde", "serde_core", "bincode", "rand", "rand_distr", "rand_core", "rand_chacha", "num_traits")
CELLS = ("std::cell::", "core::cell::", "std::sync::", "core::sync::", "alloc::sync::")
NOT_CELLS = ("std::sync::Arc", "std::sync::LazyLock", "std::sync::mpsc", "std::sync::Weak")
FILLS = ("tensor::Tensor::fill_with_uniform", "tensor::Tensor::fill_with_gaussian")
SAVES = ("tensor::Tensor::save_to_file", "network::Network::save_to_file")
LOADS = ("tensor::Tensor::from_file", "network::Network::load_from_file")
WORDS = {"random": "draws random numbers", "time": "reads the clock", "environment": "reads the environment",
         "process": "uses process facilities", "network": "uses the network", "input": "reads standard input",
         "thread": "depends on the thread", "write": "writes files", "read": "reads files",
         "state": "uses mutable global state", "address": "depends on addresses"}


def effect(name):
    for p, e in SOURCES:
        if name.startswith(p):
            return e
    return None


class Graph:
    """who mentions whom, and which effects a function has of its own"""

    def __init__(self, prog):
        self.p = prog
        self.j = prog.j
        self.edges, self.own, self.notes, self.calls = {}, {}, {}, 0
        self.by_method = {}
        for im in self.j["impls"]:
            for m, k in im["m"].items():
                self.by_method.setdefault((im["trait"], m), set()).add(k)
        for k, f in self.j["fns"].items():
            self.one(k, f)

    def one(self, k, f):
        self.edges[k], self.own[k], self.notes[k] = set(), {}, []
        for b in [f["body"]] + f["promoted"]:
            for t in b["locals"]:
                self.type(k, t)
            for bb in b["bbs"]:
                for s in bb["s"]:
                    self.walk(k, s, s[-1])
                self.walk(k, bb["t"], bb["sp"])

    def type(self, k, t):
        """function items and closures named by a type (they can be called through it)"""
        ty = self.j["types"][t] if isinstance(t, int) else None
        if ty is None:
            return
        if ty["k"] in ("fndef", "closure") and ty["key"] in self.j["fns"]:
            self.edges[k].add(ty["key"])
        elif ty["k"] == "fndef":
            e = effect(ty["n"])
            if e:
                self.own[k].setdefault(e, (ty["n"], self.j["fns"][k]["span"]))

    def walk(self, k, x, sp):
        if isinstance(x, list):
            if len(x) >= 4 and x[0] == "cast" and "ExposeProvenance" in str(x[1]):
                self.own[k].setdefault("address", ("a cast of a pointer to a number", sp))
            if len(x) == 2 and x[0] == "tls":
                self.static(k, x[1], sp)
            if len(x) == 2 and x[0] == "closure" and isinstance(x[1], str):
                self.edges[k].add(x[1])
            for y in x:
                self.walk(k, y, sp)
        elif isinstance(x, dict):
            if "fn" in x:
                self.callee(k, x["fn"], sp)
            for w in ("item", "of"):
                if x.get(w) in self.j["fns"]:
                    self.edges[k].add(x[w])
            for y in x.values():
                if isinstance(y, dict):
                    if "static" in y:
                        self.static(k, y["static"], sp)
                    if y.get("fnptr") in self.j["fns"]:
                        self.edges[k].add(y["fnptr"])

    def static(self, k, s, sp):
        f = self.j["fns"].get(s)
        if f is None:
            self.notes[k].append("a static of another crate: " + s)
            return
        self.edges[k].add(s)
        if mutable_static(self.j, f):
            self.own[k].setdefault("state", (f["path"], sp))

    def callee(self, k, c, sp):
        self.calls += 1
        key = c.get("rkey") or c["key"]
        if key in self.j["fns"]:
            self.edges[k].add(key)
        if c.get("virtual") or (c.get("trait") and "rkey" not in c):
            self.edges[k] |= {x for x in self.by_method.get((c["trait"], c["meth"]), ()) if x in self.j["fns"]}
            if c["key"] in self.j["fns"]:
                self.edges[k].add(c["key"])
        for t in c.get("a", []) + c.get("ra", []):
            self.type(k, t)
        if c.get("rlocal", c["local"]):
            return
        for n in (c.get("rn"), c["n"], key):
            e = effect(n) if n else None
            if e:
                self.own[k].setdefault(e, (c.get("rn") or c["n"], sp))
                return
        n = c.get("rn") or c["n"]
        if ".addr" in n or n.endswith("::addr") or n.endswith("expose_provenance"):
            self.own[k].setdefault("address", (n, sp))
        meth = key.split("::")[-1]
        table = any(self.hash_table(t) for t in c.get("a", []) + c.get("ra", []))
        if meth in ORDER and (key.startswith("std::collections::hash") or table):
            self.notes[k].append("the order of a hash table may matter (%s at %s:%s)" % (n, sp[0], sp[1]))
        crate = key.split("::")[0]
        if crate not in FREE and not known_std(key):
            self.notes[k].append("unclassified call of %s at %s:%s" % (n, sp[0], sp[1]))

    def hash_table(self, t):
        ty = self.j["types"][t]
        while ty["k"] == "ref":
            ty = self.j["types"][ty["t"]]
        return ty["k"] == "adt" and ty["n"].split("<")[0] in ("std::collections::HashMap", "std::collections::HashSet")

    def reach(self, k):
        """function -> the function it is reached through"""
        seen, todo = {k: None}, [k]
        while todo:
            x = todo.pop(0)
            for y in sorted(self.edges.get(x, ())):
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        return seen

    def path(self, seen, x):
        r = []
        while x is not None:
            r.append(self.j["fns"][x]["path"])
            x = seen[x]
        return " -> ".join(reversed(r))


def known_std(key):
    return any(key.startswith("std::" + m) for m in (
        "collections::", "f32::", "f64::", "error::", "io::error::", "ffi::", "path::", "panicking::", "thread::local::",
        "sys::thread_local::", "io::stdio::_print", "io::stdio::_eprint", "hash::", "num::", "ascii::", "time::"))


def mutable_static(j, f):
    if f["kind"] != "Static":
        return False
    if f.get("mut"):
        return True
    if f.get("freeze", True):
        return False
    ty = j["types"][f["type"]]
    return not (ty["k"] == "adt" and ty["n"].startswith(("std::sync::LazyLock", "std::cell::LazyCell")))


def c26(K):
    g = Graph(K.p)
    fns = g.j["fns"]
    roots = [k for k, f in sorted(fns.items()) if f["kind"] in ("Fn", "AssocFn") and
             (f["pub"] or f.get("trait") or f.get("intrait"))]
    K.functions |= {f["path"] for f in fns.values() if f["kind"] in ("Fn", "AssocFn", "Closure")}
    K.count("functions in the call graph", len(fns))
    K.count("calls classified", g.calls)
    K.count("public functions and trait methods", len(roots))
    K.block("statics", lambda: statics(K, g))
    K.block("fields", lambda: cells(K, g))
    K.block("unsafe code", lambda: unsafe(K, g))
    used = {}
    for k in roots:
        def one(k=k):
            f = fns[k]
            p = f["path"]
            allowed = set()
            if p in FILLS:
                allowed.add("random")
            if p in SAVES:
                allowed.add("write")
            if p in LOADS:
                allowed.add("read")
            seen = g.reach(k)
            bad = []
            for x in seen:
                for e, (what, sp) in g.own[x].items():
                    used.setdefault(e, set()).add(p)
                    if e not in allowed:
                        bad.append("%s through %s (%s:%s), reached by %s" % (WORDS[e], what, sp[0], sp[1], g.path(seen, x)))
            notes = [n for x in seen for n in g.notes[x]]
            if bad:
                K.add("no effect besides its inputs and results", "violated", "; ".join(bad[:3]))
            elif notes:
                K.add("no effect besides its inputs and results", "undecided", "; ".join(notes[:3]))
            else:
                K.add("no effect besides its inputs and results", "proved")
        K.block(fns[k]["path"], one)

    def floor():
        K.add("the graph covers the public interface", "proved" if len(roots) >= 60 and g.calls >= 500 else "undecided",
              "%d functions, %d calls" % (len(roots), g.calls))
        for e, ps in (("random", FILLS), ("write", SAVES), ("read", LOADS)):
            for p in ps:
                K.add("the sources are recognised: %s in %s" % (e, p),
                      "proved" if p in used.get(e, ()) else "undecided", "no source of this effect found")
    K.block("call graph", floor)
    return g


def statics(K, g):
    n = 0
    for k, f in sorted(g.j["fns"].items()):
        if f["kind"] == "Static":
            n += 1
            if mutable_static(g.j, f):
                K.add("no mutable global state", "violated", "%s (%s:%s)" % (f["path"], f["span"][0], f["span"][1]))
    if not any(o.anchor == K.cur and o.verdict == "violated" for o in K.obs):
        K.add("no mutable global state", "proved", "%d statics" % n)


def cells(K, g):
    """fields of the library's types that can change behind a shared reference"""
    j = g.j
    seen = {}

    def inner(t, why):
        """printed path of an interior-mutable type inside the type t"""
        if t in seen:
            return seen[t]
        seen[t] = None
        ty = j["types"][t]
        r = None
        if ty["k"] == "adt":
            n = ty["n"].split("<")[0]
            if n.startswith(CELLS) and not n.startswith(NOT_CELLS):
                r = ty["s"]
            else:
                for a in ty["a"]:
                    r = r or inner(a, why)
        elif ty["k"] in ("ref", "slice", "array"):
            r = inner(ty["t"], why)
        elif ty["k"] == "tuple":
            for a in ty["ts"]:
                r = r or inner(a, why)
        seen[t] = r
        return r
    bad, n = [], 0
    for name, a in sorted(j["adts"].items()):
        if not a or not a["local"]:
            continue
        for v in a["v"]:
            for f in v["f"]:
                n += 1
                x = inner(f["t"], name)
                if x:
                    bad.append("%s::%s is a %s" % (name, f["n"], x))
    if bad:
        K.add("a shared reference changes nothing", "violated", "; ".join(bad))
    else:
        K.add("a shared reference changes nothing", "proved" if n else "undecided", "%d fields" % n)
    K.count("fields of the library's types", n)


def unsafe(K, g):
    bad = ["unsafe block at %s:%s" % (s[0], s[1]) for s in g.j["unsafe"]]
    bad += ["%s is an unsafe function" % f["path"] for f in g.j["fns"].values()
            if f.get("unsafe") and not f.get("derived") and "__RUST_STD" not in f["path"]]
    K.add("no unchecked memory access", "violated" if bad else "proved", "; ".join(bad[:5]))
