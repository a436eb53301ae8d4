"""Value-graph construction from MIR.

Each block of a function is transferred once per loop level, in reverse postorder; where
control flow joins, states are merged with gating conditions (no path enumeration).  Loops
are summarised: induction variables by scalar evolution, accumulators as sums / maxima /
quantifiers over the iteration space, array stores as comprehensions.
"""
import os
import json
import time
import os
import struct
from .terms import *
from .val import *
from . import prove


class Prog:
    def __init__(self, path):
        self.j = d = json.load(open(path))
        self.types = d["types"]
        self.fns = d["fns"]
        self.impls = d["impls"]
        self.adts = d["adts"]
        self.bypath = {}
        for k, f in self.fns.items():
            f["key"] = k
            self.bypath.setdefault(f["path"], k)
        self.cfg = {}
        self.ntypes = {}

    def find(self, path):
        k = self.bypath.get(path)
        return self.fns[k] if k else None

    # types as nested tuples ------------------------------------------------
    def ty(self, i, env=None):
        t = self.types[i]
        k = t["k"]
        if k == "param":
            return (env or {}).get(t["n"], ("param", t["n"]))
        if k == "prim":
            return ("prim", t["n"])
        if k == "adt":
            return ("adt", t["n"], tuple(self.ty(a, env) for a in t["a"]))
        if k == "ref":
            return ("ref", self.ty(t["t"], env), t["m"])
        if k == "ptr":
            return ("ptr", self.ty(t["t"], env))
        if k == "slice":
            return ("slice", self.ty(t["t"], env))
        if k == "array":
            return ("array", self.ty(t["t"], env), t["len"])
        if k == "tuple":
            return ("tuple", tuple(self.ty(a, env) for a in t["ts"]))
        if k == "closure":
            return ("closure", t["key"])
        if k == "dyn":
            return ("dyn", t["n"])
        if k == "fndef":
            return ("fndef", t["key"])
        return ("other", t["s"])

    def succs(self, key):
        c = self.cfg.get(key)
        if c is None:
            c = self.cfg[key] = Cfg(self.fns[key]["body"])
        return c

    def impl_method(self, trait, meth, selfty):
        for im in self.impls:
            if im["trait"].split("<")[0] == trait and meth in im["m"]:
                t = self.ty(im["self"])
                if t == selfty:
                    return im["m"][meth]
        return None


class Cfg:
    def __init__(self, body):
        bbs = body["bbs"]
        n = len(bbs)
        self.succ = []
        for b in bbs:
            t = b["t"]
            if t[0] == "goto":
                s = [t[1]]
            elif t[0] == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif t[0] == "drop":
                s = [t[2]]
            elif t[0] == "call":
                s = [] if t[4] is None else [t[4]]
            elif t[0] == "assert":
                s = [t[4]]
            else:
                s = []
            self.succ.append([x for x in s if not bbs[x]["cleanup"]])
        # reverse postorder
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
        self.rpo = order[::-1]
        pos = {b: i for i, b in enumerate(self.rpo)}
        self.pos = pos
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        # dominators
        dom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while pos[x] > pos[y]:
                            x = dom[x]
                        while pos[y] > pos[x]:
                            y = dom[y]
                if dom.get(b) != x:
                    dom[b] = x
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = dom[b]
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if pos[s] <= pos[b]:
                    if not dominates(s, b):
                        self.irreducible = True
                        continue
                    nodes = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in nodes:
                            nodes.add(x)
                            work += pred[x]
        # blocks that inevitably reach only 'unreachable'
        self.unreach = {b for b in self.rpo if bbs[b]["t"][0] == "unreachable" and not bbs[b]["s"]}
        # liveness of locals (a borrow counts as a use)
        use, deff = {}, {}
        for b in self.rpo:
            u, d = set(), set()

            def place_use(p, write):
                if write and len(p) == 1:
                    d.add(p[0])
                    return
                if p[0] not in d:
                    u.add(p[0])
                for e in p[1:]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])

            def op_use(o):
                if o[0] in ("copy", "move"):
                    place_use(o[1], False)
            for s in bbs[b]["s"]:
                if s[0] == "=":
                    for x in rv_operands(s[2]):
                        op_use(x)
                    for x in rv_places(s[2]):
                        place_use(x, False)
                    place_use(s[1], True)
                elif s[0] == "setd":
                    place_use(s[1], False)
            t = bbs[b]["t"]
            if t[0] == "switch":
                op_use(t[1])
            elif t[0] == "call":
                op_use(t[1])
                for a in t[2]:
                    op_use(a)
                place_use(t[3], True)
            elif t[0] == "assert":
                op_use(t[1])
            elif t[0] == "ret":
                place_use([0], False)
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n2 = use[b] | (o - deff[b])
                if n2 != live[b]:
                    live[b] = n2
                    ch = True
        self.live = live


def rv_operands(r):
    k = r[0]
    if k in ("use", "repeat"):
        return [r[1]]
    if k == "cast" or k == "un":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "agg":
        return r[2]
    return []


def rv_places(r):
    k = r[0]
    if k in ("ref", "reborrow"):
        return [r[2]]
    if k in ("raw", "discr"):
        return [r[1]]
    return []


class State:
    __slots__ = ("g", "m")

    def __init__(self, g, m):
        self.g = g
        self.m = m

    def copy(self, g=None):
        return State(self.g if g is None else g, dict(self.m))


def merge_states(sts):
    sts = [s for s in sts if s.g is not FALSE]
    if not sts:
        return None
    r = sts[-1]
    g, m = r.g, r.m
    for s in reversed(sts[:-1]):
        tot = b_or(s.g, g)
        c = restrict(s.g, tot)
        if m is not s.m:
            nm = {}
            for k in s.m.keys() & m.keys():
                a, b = s.m[k], m[k]
                nm[k] = a if a is b else merge(c, a, b)
            for k in s.m.keys() - m.keys():
                nm[k] = s.m[k]
            for k in m.keys() - s.m.keys():
                nm[k] = m[k]
            m = nm
        g = tot
    return State(g, dict(m))


class Panic:
    def __init__(self, guard, kind, fn, span):
        self.guard, self.kind, self.fn, self.span = guard, kind, fn, span

    def __repr__(self):
        return "panic(%s in %s line %s when %r)" % (self.kind, self.fn, self.span, self.guard)


class Event:
    def __init__(self, name, guard, args, site, extra=None, binders=()):
        self.name, self.guard, self.args, self.site = name, guard, args, site
        self.extra = extra or {}
        self.binders = tuple(binders)

    def __repr__(self):
        return "event %s%s when %r: %s" % (self.name, [b for b, _ in self.binders], self.guard, self.args)


MAXDEPTH = 40
OBJECTS = {}        # id of an object term -> (type, the value behind the trait object)
DEADLINE = [0]


class Frame:
    __slots__ = ("fn", "key", "label", "env", "body", "cfg", "depth")


COORDS = ()                             # coordinates of which nothing is known beyond their type
LIMIT = var(sym("largest u32", "i"))


class Interp:
    def __init__(self, prog, abstract=None, shapes=None):
        self.p = prog
        self.panics = []
        self.events = []
        self.guess = {}
        self.raw = {}
        self.iters = []
        self.stepwise = False
        self.abstract = abstract          # callback(interp, st, frame, fnref, args) -> None or (ret)
        self.stack = []
        self.used = set()
        self.ncells = 0
        self.maker = {}                   # adt name -> constructor of symbolic values
        self.files = None                 # name -> contents of a file
        self.loops_seen = set()
        self.calls_seen = {}
        self.tmp = 0

    # ------------------------------------------------------------ symbolic values
    def symtree(self, ty, name, r=0):
        k = ty[0]
        if k == "prim":
            n = ty[1]
            if n == "bool":
                return var(sym(name, "b")) if r == 0 else asym(name, "b", r)
            if n in ("f32", "f64"):
                return var(sym(name, "f")) if r == 0 else asym(name, "f", r)
            if n in ("str", "!", "char"):
                return var(sym(name, "o")) if r == 0 else asym(name, "o", r)
            nn = n[0] == "u"
            return var(sym(name, "i", nn)) if r == 0 else asym(name, "i", r, nn)
        if k == "tuple":
            return S([self.symtree(t, "%s.%d" % (name, i), r) for i, t in enumerate(ty[1])])
        if k == "array":
            n = num(ty[2])
            return V(n if r == 0 else a_const(n, r, "i"), self.symtree(ty[1], name + "[]", r + 1))
        if k == "slice":
            n = self.symtree(("prim", "usize"), name + ".len", r)
            return V(n, self.symtree(ty[1], name + "[]", r + 1))
        if k == "adt":
            n = ty[1]
            h = self.maker.get(n)
            if h:
                return h(self, ty, name, r)
            if n in ("std::string::String", "std::boxed::Box"):
                return var(sym(name, "o")) if r == 0 else asym(name, "o", r)
            if n == "std::vec::Vec":
                if ty[2][0] == ("prim", "u8"):
                    return var(sym(name, "o")) if r == 0 else asym(name, "o", r)
                ln = self.symtree(("prim", "usize"), name + ".len", r)
                return V(ln, self.symtree(ty[2][0], name + "[]", r + 1))
            if n == "std::option::Option":
                return self.symenum(name, r, [(), (ty[2][0],)], "Option")
            if n == "std::result::Result":
                return self.symenum(name, r, [(ty[2][0],), (ty[2][1],)], "Result")
            if n == "std::collections::HashMap":
                kt = ty[2][0]
                a = self.p.adts.get(kt[1]) if kt[0] == "adt" else None
                if not a or a["kind"] != "enum":
                    raise Undecided("map with keys " + str(kt))
                m = {}
                for i, v in enumerate(a["v"]):
                    m[i] = (self.symtree(("prim", "bool"), "%s.has.%s" % (name, v["n"]), r),
                            self.symtree(ty[2][1], "%s.at.%s" % (name, v["n"]), r))
                return M(m)
            a = self.p.adts.get(n)
            if a and a["local"]:
                vs = [tuple(self.p.ty(f["t"]) for f in v["f"]) for v in a["v"]]
                if a["kind"] == "struct":
                    return S([self.symtree(t, "%s.%s" % (name, f["n"]), r)
                              for t, f in zip(vs[0], a["v"][0]["f"])], n)
                return self.symenum(name, r, vs, n)
            return var(sym(name, "o")) if r == 0 else asym(name, "o", r)
        if k == "ref" and r == 0:
            c = "ref:" + name
            self.pending[c] = self.symtree(ty[1], name, r)
            return R(c)
        return var(sym(name, "o")) if r == 0 else asym(name, "o", r)

    pending = {}

    def symenum(self, name, r, vs, tag):
        n = len(vs)

        def disc(bits):
            d = num(0)
            for i in range(n - 1, 0, -1):
                d = ite(bits[i], num(i), d)
            return d
        if r == 0:
            d = disc([None] + [var(sym("%s.is%d" % (name, i), "b")) for i in range(1, n)])
        else:
            bs = [binder("l") for _ in range(r)]
            ix = tuple(patom(b) for b in bs)
            d = a_lam(bs, disc([None] + [sel(asym("%s.is%d" % (name, i), "b", r), ix) for i in range(1, n)]), "i")
        return E(d, {i: tuple(self.symtree(t, "%s.%d.%d" % (name, i, j), r) for j, t in enumerate(v))
                     for i, v in enumerate(vs)}, tag)

    def skolem(self, ty, name):
        """fresh value, one per iteration of the enclosing loops"""
        r = len(self.iters)
        t = self.symtree(ty, name, r)
        for i in range(r):
            t = index(t, leaf(self.iters[i]))
        return t

    # ------------------------------------------------------------ places
    def resolve(self, st, fr, pl):
        c = "%s:%d" % (fr.label, pl[0])
        return self.walk(st, R(c), pl[1:], fr)

    def walk(self, st, ref, elems, fr):
        """ref: R or G of references; returns the reference to the place"""
        if isinstance(ref, G):
            return merge(ref.c, self.walk(st, ref.a, elems, fr), self.walk(st, ref.b, elems, fr))
        for n, e in enumerate(elems):
            if e == "*":
                v = self.read(st, ref)
                if isinstance(v, R):
                    ref = v
                elif isinstance(v, G):
                    return self.walk(st, self.grefs(v), elems[n + 1:], fr)
                elif v is U or v is BAD:
                    raise Undecided("dereference of an unknown reference")
                continue
            k = e[0]
            if k == "f":
                if ref.p and isinstance(ref.p[-1], tuple) and ref.p[-1][0] == "v":
                    ref = R(ref.c, ref.p + (e[1],))
                else:
                    v = self.read(st, ref)
                    if isinstance(v, (DD, Term)) or isinstance(v, R):
                        continue      # newtype-like access to an opaque value
                    ref = R(ref.c, ref.p + (e[1],))
            elif k == "d":
                ref = R(ref.c, ref.p + (("v", e[1]),))
            elif k == "i":
                i = self.read(st, R("%s:%d" % (fr.label, e[1])))
                ref = self.elem(ref, i)
            elif k == "c":
                if e[3]:
                    n_ = self.length(st, ref)
                    ref = self.elem(ref, sub(n_, num(e[1])))
                else:
                    ref = self.elem(ref, num(e[1]))
            elif k == "s":
                n_ = self.length(st, ref)
                end = sub(n_, num(e[2])) if e[3] else num(e[2])
                ref = self.window(ref, num(e[1]), sub(end, num(e[1])))
            elif k == "o":
                continue
            else:
                raise Undecided("place " + str(e))
        return ref

    def grefs(self, g):
        if isinstance(g, G):
            return G(g.c, self.grefs(g.a), self.grefs(g.b))
        if not isinstance(g, R):
            raise Undecided("dereference of a mixed value")
        return g

    def elem(self, ref, i):
        if isinstance(ref, G):
            return merge(ref.c, self.elem(ref.a, i), self.elem(ref.b, i))
        if ref.p and isinstance(ref.p[-1], tuple) and ref.p[-1][0] == "w":
            return R(ref.c, ref.p[:-1] + (("i", simp(add(ref.p[-1][1], i))),))
        return R(ref.c, ref.p + (("i", simp(i)),))

    def window(self, ref, s, n):
        if isinstance(ref, G):
            return merge(ref.c, self.window(ref.a, s, n), self.window(ref.b, s, n))
        if ref.p and isinstance(ref.p[-1], tuple) and ref.p[-1][0] == "w":
            return R(ref.c, ref.p[:-1] + (("w", simp(add(ref.p[-1][1], s)), simp(n)),))
        return R(ref.c, ref.p + (("w", simp(s), simp(n)),))

    def length(self, st, ref):
        if isinstance(ref, G):
            return ite(ref.c, self.length(st, ref.a), self.length(st, ref.b))
        if ref.p and isinstance(ref.p[-1], tuple) and ref.p[-1][0] == "w":
            return ref.p[-1][2]
        v = self.read(st, ref)
        if isinstance(v, R):
            return self.length(st, v)
        if isinstance(v, G):
            return ite(v.c, self._vlen(st, v.a), self._vlen(st, v.b))
        return self._vlen(st, v)

    def _vlen(self, st, v):
        if isinstance(v, V):
            return v.n
        if isinstance(v, R):
            return self.length(st, v)
        if isinstance(v, G):
            return ite(v.c, self._vlen(st, v.a), self._vlen(st, v.b))
        if isinstance(v, DD) and v is not UNIT:
            return uf("strlen", [v], "i")       # opaque bytes or text
        raise Undecided("length of %s" % type(v).__name__)

    def read(self, st, ref):
        if isinstance(ref, G):
            return merge(ref.c, self.read(st, ref.a), self.read(st, ref.b))
        if ref.c not in st.m:
            raise Undecided("unknown cell " + ref.c)
        return self.get(st.m[ref.c], ref.p)

    def get(self, v, path):
        for n, x in enumerate(path):
            if isinstance(v, G):
                return merge(v.c, self.get(v.a, path[n:]), self.get(v.b, path[n:]))
            if v is U or v is BAD:
                return v
            if isinstance(x, int):
                if isinstance(v, S):
                    v = v.f[x]
                elif isinstance(v, C):
                    v = v.ups[x]
                else:
                    raise Undecided("field of %s" % type(v).__name__)
            elif x[0] == "v":
                if not isinstance(v, E):
                    raise Undecided("variant of %s" % type(v).__name__)
                v = S(v.v[x[1]]) if x[1] in v.v else U
            elif x[0] == "i":
                if isinstance(v, DD):
                    v = uf("byte", [v, x[1]], "i")
                    continue
                if not isinstance(v, V):
                    raise Undecided("element of %s" % type(v).__name__)
                if v.e is U or v.e is BAD:
                    return v.e
                v = index(v.e, x[1])
            elif x[0] == "w":
                if isinstance(v, DD):
                    v = uf("bytes", [v, x[1], x[2]], "o")
                    continue
                if not isinstance(v, V):
                    raise Undecided("slice of %s" % type(v).__name__)
                v = V(x[2], shift(v.e, x[1]) if not (v.e is U or v.e is BAD) else v.e)
        return v

    def write(self, st, ref, val):
        if isinstance(ref, G):
            old = self.read(st, ref.a)
            self.write(st, ref.a, merge(ref.c, val, old))
            old = self.read(st, ref.b)
            self.write(st, ref.b, merge(b_not(ref.c), val, old))
            return
        if not ref.p:
            st.m[ref.c] = val
            return
        st.m[ref.c] = self.put(st.m[ref.c], ref.p, val)

    def put(self, t, path, val):
        if not path:
            return val
        x = path[0]
        if t is BAD:
            return BAD
        if isinstance(t, G):
            return merge(t.c, self.put(t.a, path, val), self.put(t.b, path, val))
        if isinstance(x, int):
            if t is U:
                t = S([U] * (x + 1))
            if isinstance(t, S):
                f = list(t.f)
                while len(f) <= x:
                    f.append(U)
                f[x] = self.put(f[x], path[1:], val)
                return S(f, t.tag)
            if isinstance(t, C):
                f = list(t.ups)
                f[x] = self.put(f[x], path[1:], val)
                return C(t.key, f, t.env)
            raise Undecided("field store into %s" % type(t).__name__)
        if x[0] == "v":
            if t is U:
                t = E(num(x[1]), {})
            if not isinstance(t, E):
                raise Undecided("variant store into %s" % type(t).__name__)
            v = dict(t.v)
            v[x[1]] = self.put(S(v.get(x[1], ())), path[1:], val).f
            return E(t.d, v, t.tag)
        if x[0] == "i":
            if not isinstance(t, V) or t.e is U or t.e is BAD:
                raise Undecided("element store into %s" % type(t).__name__)
            old = index(t.e, x[1])
            new = self.put(old, path[1:], val)
            return V(t.n, store(t.e, x[1], new, old))
        raise Undecided("slice store")

    # ------------------------------------------------------------ operands
    def const(self, st, fr, c):
        ty = self.p.ty(c["t"], fr.env)
        if "fn" in c:
            return FN(c["fn"], fr.env)
        if "promoted" in c:
            f = self.p.fns.get(c["of"])
            if f is None:
                raise Undecided("promoted of " + c["of"])
            return self.run_promoted(st, fr, f, c["promoted"])
        v = c.get("v", {})
        if "int" in v:
            n = v["int"]
            if ty == ("prim", "bool"):
                return TRUE if n else FALSE
            if ty == ("prim", "f32"):
                return self.fconst(struct.unpack("<f", struct.pack("<I", n))[0])
            if ty == ("prim", "f64"):
                return self.fconst(struct.unpack("<d", struct.pack("<Q", n))[0])
            if ty[0] == "prim":
                return num(n)
            if ty[0] == "adt" and self.p.adts.get(ty[1], {}).get("kind") == "enum":
                return E(num(n), {n: ()}, ty[1])
            return num(n)
        if "str" in v:
            return leaf(lit("str", v["str"]))
        if v.get("zst"):
            if ty == ("tuple", ()):
                return UNIT
            if ty[0] == "adt":
                a = self.p.adts.get(ty[1])
                if a and a["kind"] == "enum":
                    return E(D0, {0: ()}, ty[1])
                return S((), ty[1])
            if ty[0] == "closure":
                return C(ty[1], (), fr.env)
            if ty[0] == "fndef":
                t = self.p.types[c["t"]]
                return FN({"n": t["n"], "key": t["key"], "local": t["local"], "a": t["a"]}, fr.env)
            return UNIT
        if "item" in c and c["item"] in self.p.fns:
            f = self.p.fns[c["item"]]
            return self.run_body(st, f, f["body"], [], {}, fr.label + "/c:" + c["item"])
        return leaf(lit("const", c.get("s", str(v))))

    def fconst(self, x):
        # the elements are finite, so none is below f32::MIN or above f32::MAX either
        if x <= -3.4028234e38:
            return leaf(patom(NEG_INF))
        if x >= 3.4028234e38:
            return leaf(pneg(patom(NEG_INF)))
        if x != x:
            return leaf(patom(NAN))
        if float("%.7g" % x) == x or struct.pack("<f", float("%.7g" % x)) == struct.pack("<f", x):
            return num(norm(Fraction("%.7g" % x)))
        return num(norm(Fraction(x)))

    def run_promoted(self, st, fr, f, i):
        lab = "promoted:%s:%d" % (f["key"], i)
        key = "pv:" + lab
        if key not in st.m:
            v = self.run_body(st, f, f["promoted"][i], [], {}, lab, keep=True)
            st.m[key] = v
        return st.m[key]

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            v = self.read(st, self.resolve(st, fr, o[1]))
            return v
        if o[0] == "const":
            return self.const(st, fr, o[1])
        raise Undecided("operand " + o[0])

    def op_ty(self, fr, o):
        if o[0] == "const":
            return self.p.ty(o[1]["t"], fr.env)
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, pl):
        t = self.p.ty(fr.body["locals"][pl[0]], fr.env)
        for e in pl[1:]:
            if e == "*":
                if t[0] in ("ref", "ptr"):
                    t = t[1]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
            elif e[0] == "f":
                t = self.p.ty(e[2], fr.env)
            elif e[0] in ("i", "c"):
                t = t[1] if t[0] in ("array", "slice") else t
        return t

    # ------------------------------------------------------------ rvalues
    def arith(self, st, fr, op, a, b, ty, span):
        if isinstance(a, Val) and not isinstance(a, R):
            raise Undecided("use of an unsolved value")
        if isinstance(a, R) or isinstance(b, R) or not isinstance(a, DD) or not isinstance(b, DD):
            raise Undecided("arithmetic on %s" % type(a).__name__)
        isint = not (ty[0] == "prim" and ty[1] in ("f32", "f64"))
        if ty == ("prim", "bool"):
            if op == "BitAnd":
                return b_and(a, b)
            if op == "BitOr":
                return b_or(a, b)
            if op == "BitXor" or op == "Ne":
                return ite(a, b_not(b), b)
            if op == "Eq":
                return ite(a, b, b_not(b))
            raise Undecided("bool " + op)
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            la = next(leaves(a))
            if isinstance(la, Term):
                r = oeq(a, b)
                return r if op == "Eq" else b_not(r)
            return cmp(op, a, b, isint)
        if base == "Add":
            r = add(a, b)
            if COORDS and isint and ty[1] == "u32":
                self.coordinate_sum(st, fr, r, span)
        elif base == "Sub":
            if isint and ty[1][0] == "u":
                self.require(st, fr, cmp("Ge", a, b, True), "unsigned subtraction below zero", span)
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base == "Div":
            r = idiv(simp(a), simp(b)) if isint else fdiv(a, b)
        elif base == "Rem" and isint:
            r = imod(simp(a), simp(b))
        elif base in ("Shl", "Shr") and b.atom is None and b.leaf.const is not None:
            k = num(2 ** int(b.leaf.const))
            r = mul(a, k) if base == "Shl" else idiv(a, k)
        elif base == "BitAnd" and b.atom is None and b.leaf.const is not None and \
                (int(b.leaf.const) + 1) & int(b.leaf.const) == 0:
            r = imod(a, num(int(b.leaf.const) + 1))
        else:
            raise Undecided("operator " + op)
        if op.endswith("WithOverflow"):
            return S([r, FALSE])
        return r

    def coordinate_sum(self, st, fr, r, span):
        """a coordinate may be the largest u32: adding to it is only safe where it is known to be smaller than something"""
        for c in COORDS:
            d = sub(r, c)
            if d.atom is None and d.leaf.const is not None and d.leaf.const > 0:
                self.require(st, fr, cmp("Le", r, LIMIT, True), "addition beyond the largest u32", span)

    def require(self, st, fr, cond, kind, span):
        """panics when cond is false; execution continues where it holds"""
        c = simp(cond)
        if c is TRUE:
            return
        bad = b_and(st.g, b_not(c))
        if bad is not FALSE:
            bad = simp(bad)
        if bad is not FALSE:
            self.panics.append(Panic(b_and(st.g, bad), kind, fr.key, span))
            st.g = b_and(st.g, c)
            CTX.push(literals(c))

    def rvalue(self, st, fr, r, span, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow"):
            return self.resolve(st, fr, r[2])
        if k == "raw":
            return self.resolve(st, fr, r[1])
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            ty = self.op_ty(fr, r[2])
            return self.arith(st, fr, r[1], a, b, ty, span)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                ty = self.op_ty(fr, r[2])
                if ty == ("prim", "bool"):
                    return b_not(a)
                raise Undecided("bitwise not")
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "PtrMetadata":
                return self.length(st, a)
            raise Undecided("unary " + r[1])
        if k == "cast":
            a = self.operand(st, fr, r[2])
            kind = r[1]
            if kind.startswith("IntToInt"):
                src = self.op_ty(fr, r[2])
                if isinstance(a, DD):
                    l = next(leaves(a))
                    if isinstance(l, bool):
                        return ite(a, D1, D0)
                    if src[1][0] == "i" and dty[1][0] == "u" and not holds(cmp("Ge", a, D0, True)):
                        raise Undecided("signed to unsigned cast")
                    if dty[1] in NARROW and dty[1] != src[1]:
                        return narrow(a, src[1], dty[1])
                return a
            if kind.startswith("IntToFloat"):
                return a
            if kind.startswith("FloatToFloat"):
                return a
            if kind.startswith("FloatToInt"):
                return uf("trunc", [a], "i", False)
            if "Unsize" in kind or "PointerCoercion" in kind or kind.startswith("PtrToPtr") \
                    or kind.startswith("BoxDeref") or kind.startswith("Transmute") or kind.startswith("Subtype"):
                if "Unsize" in kind and dty[0] == "adt" and dty[1] == "std::boxed::Box":
                    return self.box_obj(a, self.op_ty(fr, r[2]))
                return a
            raise Undecided("cast " + kind)
        if k == "discr":
            v = self.read(st, self.resolve(st, fr, r[1]))
            return self.discr(v)
        if k == "agg":
            kd = r[1]
            xs = [self.operand(st, fr, x) for x in r[2]]
            if kd[0] == "tuple":
                return S(xs)
            if kd[0] == "adt":
                a = self.p.adts.get(kd[1])
                if a and a["kind"] == "enum":
                    return E(num(kd[2]), {kd[2]: tuple(xs)}, kd[1].split("::")[-1])
                return S(xs, kd[1])
            if kd[0] == "array":
                return self.array_of(xs, self.p.ty(kd[1], fr.env))
            if kd[0] == "closure":
                return C(kd[1], xs, fr.env)
            raise Undecided("aggregate " + kd[0])
        if k == "repeat":
            x = self.operand(st, fr, r[1])
            return V(num(r[2]), lift_ty(x, dty[1]))
        raise Undecided("rvalue " + k)

    def box_obj(self, a, ty):
        """a concrete value behind a trait object"""
        if isinstance(a, (DD, Term)):
            return a
        ls = []
        for p, l in leaves_of(a):
            ls.append(l)
        adt = str(ty[2][0][1]) if ty[0] == "adt" and ty[2] else "?"
        t = term("obj", (adt,) + tuple(ls), "o")
        OBJECTS[t.id] = adt, a
        return leaf(t)

    def array_of(self, xs, ety):
        n = len(xs)
        if not xs:
            return V(D0, U)
        if n <= 8 and any(refs_in(x, set()) for x in xs):
            return V(num(n), LS(xs))
        t = lift_ty(xs[0], ety)
        for i in range(1, n):
            t = store(t, num(i), xs[i], index(t, num(i)))
        return V(num(n), t)

    def discr(self, v):
        if isinstance(v, G):
            return ite(v.c, self.discr(v.a), self.discr(v.b))
        if isinstance(v, E):
            return v.d
        if v is U or v is BAD:
            raise Undecided("discriminant of an unsolved value")
        raise Undecided("discriminant of %s" % type(v).__name__)

    # ------------------------------------------------------------ control flow
    def run_fn(self, st, key, args, env, label):
        """call a local function; st is updated in place; returns the value"""
        f = self.p.fns[key]
        self.calls_seen[key] = self.calls_seen.get(key, 0) + 1
        if len(self.stack) > MAXDEPTH or self.stack.count(key) > 2:
            raise Undecided("recursion")
        self.stack.append(key)
        try:
            v = self.run_body(st, f, f["body"], args, env, label)
        finally:
            self.stack.pop()
        if self.trace and self.stack and f["kind"] != "Closure":
            self.result(st, f["path"], v, f["span"])
        return v

    coarse = False      # skip loops that only compute numbers
    trace = False       # record what every fallible call returns (C22)

    def result(self, st, name, v, span):
        from .spec_tensor import is_ok
        if not self.trace or st.g is FALSE:
            return
        t = v
        while isinstance(t, G):
            t = t.a
        if isinstance(t, E) and t.tag == "Result":
            self.events.append(Event("result", st.g, [is_ok(v)], (name, span)))

    def run_body(self, st, f, body, args, env, label, keep=False):
        fr = Frame()
        fr.fn, fr.key, fr.label, fr.env, fr.body = f, f["path"], label, env, body
        if body is f.get("body"):
            fr.cfg = self.p.succs(f["key"])
        else:
            fr.cfg = Cfg(body)
        if fr.cfg.irreducible:
            raise Undecided("irreducible control flow in " + f["path"])
        for i in range(len(body["locals"])):
            st.m["%s:%d" % (label, i)] = U
        if body.get("spread") is not None and len(args) == 2:
            pass
        for i, a in enumerate(args):
            st.m["%s:%d" % (label, i + 1)] = a
        nodes = set(fr.cfg.rpo)
        outs = self.region(fr, nodes, 0, st.copy(), None)[1]
        rets = [s for t, s in outs if t == "ret"]
        r = merge_states(rets)
        if r is None:
            st.g = FALSE
            v = U
        else:
            v = r.m.get("%s:0" % label, U)
            if v is U and self.p.ty(body["locals"][0], env) == ("tuple", ()):
                v = UNIT
            st.g = r.g
            st.m.clear()
            st.m.update(r.m)
        if not keep:
            pre = label + ":"
            for c in [c for c in st.m if c.startswith(pre)]:
                del st.m[c]
        return v

    def region(self, fr, nodes, entry, st, loop):
        """transfer the blocks of a region; returns (states at back edges, [(target, state)])"""
        pend = {entry: [st]}
        backs, exits = [], []
        for b in fr.cfg.rpo:
            if b not in nodes or b not in pend:
                continue
            s = merge_states(pend.pop(b))
            if s is None:
                continue
            n = CTX.push(literals(s.g))
            try:
                if not prove.consistent():
                    continue
                if b in fr.cfg.loops and b != loop:
                    edges = self.cfg_loop(fr, b, s)
                else:
                    edges = self.block(fr, b, s)
            finally:
                CTX.pop(n)
            for t, s2 in edges:
                if s2.g is FALSE:
                    continue
                if t == loop and loop is not None:
                    backs.append(s2)
                elif t == "ret" or t not in nodes:
                    exits.append((t, s2))
                else:
                    pend.setdefault(t, []).append(s2)
        return backs, exits

    def cfg_loop(self, fr, h, st):
        nodes = fr.cfg.loops[h]
        pre = fr.label + ":"
        live = fr.cfg.live[h]

        def prune(s):
            keep = set()
            roots = [c for c in s.m if not c.startswith(pre) or int(c[len(pre):]) in live]
            work = list(roots)
            while work:
                c = work.pop()
                if c in keep or c not in s.m:
                    continue
                keep.add(c)
                work += list(refs_in(s.m[c], set()))
            m = {c: (v if c in keep else U) for c, v in s.m.items()}
            return State(s.g, m)
        # inner exits may leave towards nodes outside of this loop
        self.loops_seen.add((fr.key, h))
        if self.coarse:
            from . import coarse
            e = coarse.skip(self, fr, h, prune(st))
            if e is not None:
                return e
        return self.loop(st, lambda s: self.region(fr, nodes, h, s, h), (fr.label, h), prune, fr.key,
                         self.few(fr, h, st))

    def few(self, fr, h, st):
        """the loop at block h goes through an iterator with a small fixed number of elements"""
        from . import std
        bb = fr.body["bbs"][h]
        if bb["t"][0] != "call" or bb["t"][1][0] != "const" or \
                (bb["t"][1][1].get("fn") or {}).get("n") != "std::iter::Iterator::next":
            return False
        for s in bb["s"]:
            if s[0] == "=" and s[2][0] in ("ref", "reborrow") and len(s[2][2]) == 1:
                v = st.m.get(fr.label + ":%d" % s[2][2][0])
                while isinstance(v, R):
                    v = self.read(st, v)
                if isinstance(v, S) and len(v.f) == 2 and all(isinstance(x, DD) for x in v.f):
                    return few(simp(sub(v.f[1], v.f[0])))
                if isinstance(v, IT) and v.pos is D0 and std.random_access(v.spec):
                    return few(std.slen(v.spec))
        return False

    def block(self, fr, b, st):
        if DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Undecided("analysis takes too long")
        bb = fr.body["bbs"][b]
        st = st.copy()
        for s in bb["s"]:
            if s[0] == "=":
                dty = self.place_ty(fr, s[1])
                v = self.rvalue(st, fr, s[2], s[3], dty)
                self.write(st, self.resolve(st, fr, s[1]), v)
                if st.g is FALSE:
                    return []
            elif s[0] == "setd":
                ref = self.resolve(st, fr, s[1])
                v = self.read(st, ref)
                self.write(st, ref, E(num(s[2]), v.v if isinstance(v, E) else {}))
            else:
                raise Undecided("statement " + s[0])
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            v = self.operand(st, fr, t[1])
            if v is U or v is BAD:
                raise Undecided("branch on an unsolved value in " + fr.key)
            if not isinstance(v, DD):
                raise Undecided("branch on %s" % type(v).__name__)
            v = simp(v)
            res, other = [], TRUE
            cases = list(t[2])
            if t[3] in fr.cfg.unreach and cases:
                # exhaustive: the last listed case is the rest
                tgt = cases[-1][1]
                last = cases[:-1]
            else:
                tgt, last = t[3], cases
            for val, tt in last:
                if any(isinstance(l, bool) for l in leaves(v)):
                    c = v if val else b_not(v)
                else:
                    c = cmp("Eq", v, num(val), True)
                c = simp(c)
                g = b_and(st.g, b_and(other, c))
                if g is not FALSE:
                    res.append((tt, st.copy(g)))
                other = b_and(other, b_not(c))
            g = b_and(st.g, other)
            if g is not FALSE:
                res.append((tgt, st.copy(g)))
            return res
        if k == "assert":
            c = self.operand(st, fr, t[1])
            if not t[2]:
                c = b_not(c)
            if not t[3].startswith("overflow"):
                self.require(st, fr, c, {"bounds": "index out of bounds", "div0": "division by zero",
                                         "rem0": "division by zero"}.get(t[3], t[3]), bb["sp"])
            return [(t[4], st)] if st.g is not FALSE else []
        if k == "call":
            f = self.operand(st, fr, t[1])
            args = [self.operand(st, fr, a) for a in t[2]]
            dty = self.place_ty(fr, t[3])
            if b in fr.cfg.loops and isinstance(f, FN) and f.f.get("n") == "std::iter::Iterator::next" and t[4] is not None:
                from . import std
                e = std.next_in_loop(self, st, fr, args[0], "%s/%d" % (fr.label, b), self.resolve(st, fr, t[3]), t[4], b)
                if e is not None:
                    return e
            v = self.call(st, fr, f, args, "%s/%d" % (fr.label, b), bb["sp"], dty,
                          [self.op_ty(fr, a) for a in t[2]])
            if st.g is FALSE or t[4] is None:
                return []
            self.write(st, self.resolve(st, fr, t[3]), v)
            return [(t[4], st)]
        raise Undecided("terminator " + k)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, f, args, label, span, dty, atys):
        from . import std
        if isinstance(f, FN):
            fn = f.f
            env = f.env
            key = None
            targs = [self.p.ty(a, env) for a in fn.get("a", [])]
            if fn.get("trait") and not fn.get("rkey") and targs:
                key = self.p.impl_method(fn["trait"], fn["meth"], targs[0])
                cenv = {}
            elif fn.get("rlocal"):
                key = fn["rkey"]
                cenv = self.tyenv(key, [self.p.ty(a, env) for a in fn.get("ra", [])])
            elif fn.get("local") and not fn.get("trait"):
                key = fn["key"]
                cenv = self.tyenv(key, targs)
            cal = Callee(fn, targs, key, label, span, dty, atys)
            if self.abstract:
                r = self.abstract(self, st, fr, cal, args)
                if r is not None:
                    return r
            if key and key in self.p.fns:
                fdef = self.p.fns[key]
                if fdef["kind"] == "Closure":
                    return std.call_closure_body(self, st, fr, key, args, label, env)
                return self.run_fn(st, key, args, cenv, label + ">" + (fdef.get("name") or fdef["path"].split("::")[-1]))
            return std.call(self, st, fr, cal, args)
        if isinstance(f, C):
            return std.call_value(self, st, fr, f, args, label, span)
        if isinstance(f, (R, G)):
            return std.call_value(self, st, fr, f, args, label, span)
        raise Undecided("call of %s" % type(f).__name__)

    def tyenv(self, key, targs):
        """generic parameter names by position"""
        f = self.p.fns.get(key)
        if not targs or f is None:
            return {}
        names = []

        def params(t, out):
            if t[0] == "param":
                if t[1] not in out:
                    out.append(t[1])
            else:
                for x in t[1:]:
                    if isinstance(x, tuple):
                        if x and isinstance(x[0], str):
                            params(x, out)
                        else:
                            for y in x:
                                if isinstance(y, tuple):
                                    params(y, out)
        for l in f["body"]["locals"]:
            params(self.p.ty(l), names)
        if len(names) == 1 and len(targs) >= 1:
            ts = [t for t in targs if t[0] != "other"]
            return {names[0]: ts[-1]} if ts else {}
        if len(names) == len(targs):
            return dict(zip(names, targs))
        return {}

    # ------------------------------------------------------------ loops
    def mark(self):
        return len(self.panics), len(self.events)

    def loop(self, st0, body, key, prune, fnname, small=False):
        if not PIN:
            if small:
                np, ne = self.mark()
                try:
                    return self.unroll(st0, body, prune, fnname)
                except Undecided as e:
                    if os.environ.get("SA_DEBUG"):
                        print("  not unrolled:", e)
                    del self.panics[np:]
                    del self.events[ne:]
            return self.summary(st0, body, key, prune, fnname)
        np, ne = self.mark()
        try:
            return self.unroll(st0, body, prune, fnname) if self.stepwise else \
                self.summary(st0, body, key, prune, fnname)
        except Undecided as e:
            if os.environ.get("SA_DEBUG"):
                print("  again, after", e)
            del self.panics[np:]
            del self.events[ne:]
        return self.summary(st0, body, key, prune, fnname) if self.stepwise else \
            self.unroll(st0, body, prune, fnname)

    def unroll(self, st, body, prune, fnname):
        """a loop whose recurrences have no closed form, for fixed sizes: one iteration after the other"""
        st = prune(st)
        out = []
        for k in range(10):
            self.iters.append(pconst(k))
            try:
                backs, exits = body(st)
            finally:
                self.iters.pop()
            out += exits
            st = merge_states(backs)
            if st is None:
                return out
            st = prune(st)
            with assume(st.g):
                if not prove.consistent():
                    return out
                g = st.g
                st = State(g, {c: vmap(lambda x: simp(restrict(x, g)) if isinstance(x, DD) else x, v)
                               for c, v in st.m.items()})
        raise Undecided("too many iterations in " + fnname)

    def summary(self, st0, body, key, prune, fnname):
        g0 = st0.g
        st0 = prune(st0)
        changed = dict(self.guess.get(key, {}))
        name = "%s#%s" % key
        it = sym("it:" + name, "i")
        np, ne = self.mark()
        for _ in range(12):
            phis = {}
            hm = {}
            for c, v in st0.m.items():
                ch = changed.get(c)
                hm[c] = havoc(v, ch, "%s|%s" % (name, c), phis) if ch else v
            self.iters.append(patom(it))
            try:
                backs, exits = body(State(g0, hm))
            finally:
                self.iters.pop()
            bk = merge_states(backs)
            new = {}
            if bk is not None:
                bk = prune(bk)
                for c, v in hm.items():
                    w = bk.m.get(c, U)
                    if w is not v:
                        d = {}
                        diff(v, w, (), d)
                        old = changed.get(c, {})
                        d = {p: k for p, k in d.items() if old.get(p) not in (k, "U")
                             and not (old.get(p) == "f" and k == "i")}
                        if d:
                            new[c] = d
            if not new:
                break
            del self.panics[np:]
            del self.events[ne:]
            if os.environ.get("SA_DEBUG"):
                for c, d in new.items():
                    for q, k in d.items():
                        if k == "U":
                            print("STRUCTURE", fnname, c, q, str(hm[c])[:300], "->", str(bk.m.get(c))[:300])
            for c, d in new.items():
                o = changed.setdefault(c, {})
                for p, k in d.items():
                    o[p] = k
        else:
            raise Undecided("loop state does not stabilise in " + fnname)
        self.guess[key] = changed
        return self.solve_loop(st0, g0, hm, phis, bk, exits, it, np, ne, fnname)

    def solve_loop(self, st0, g0, hm, phis, bk, exits, it, np, ne, fnname):
        b = binder("b")
        B = leaf(patom(b))
        # phis: sym id -> (sym term, initial leaf, cell, path)
        nxt = {}
        if bk is not None:
            G_ = restrict(bk.g, g0)
            for sid, (s, init, c, path) in phis.items():
                nxt[sid] = leaf_at(bk.m[c], path)
        else:
            G_ = FALSE
        closed = {it.id: B}
        pending = dict(phis)
        syms = frozenset(phis)

        def sb(x):
            return vsub(x, closed)

        # phase 1: inductions and invariants
        prog = True
        while prog:
            prog = False
            for sid in list(pending):
                s, init, c, path = pending[sid]
                nx = nxt.get(sid)
                if nx is None:
                    closed[sid] = init
                    del pending[sid]
                    prog = True
                    continue
                if isinstance(nx, Val):
                    continue
                me = var(s) if not s.rank else s
                with assume(G_):
                    nx2 = simp(restrict(nx, G_)) if isinstance(nx, DD) else nx
                if nx2 is me:
                    closed[sid] = init
                    del pending[sid]
                    prog = True
                    continue
                if isinstance(nx2, DD) and s.sort in "if" and isinstance(init, DD):
                    d = sub(nx2, me)
                    d = sb(d)
                    if not (d.fv & syms) and b.id not in d.fv and it.id not in d.fv:
                        closed[sid] = add(init, mul(d, B))
                        del pending[sid]
                        prog = True
        # trip count
        if G_ is FALSE:
            T, Grest = D0, TRUE
            Gb = FALSE
        else:
            Gb = sb(G_)
            T, Grest = self.trip(Gb, b, syms, fnname)
            if T.atom is not None and T.id in self.raw:
                start = D0
                for sid, (s, init, c, path) in phis.items():
                    if sid in closed and isinstance(init, DD) and init.atom is not None and \
                            closed[sid] is add(init, B):
                        start = init
                        break
                raw = self.raw[T.id]
                SHIFT[T.id] = (start, simp(add(start, raw)))
                SHIFT[add(T, D1).id] = (start, simp(add(start, add(raw, D1))))
        with assume(cmp("Le", B, T, True)):
            self.solve_rest(pending, nxt, closed, syms, b, B, G_, it, phis)
        if self.coarse:
            for sid in list(pending):
                s, init, c, path = pending[sid]
                if s.sort == "f":
                    ix = tuple(self.iters) + (patom(b),)
                    a = asym("forgot!%s:%d:%s:%s" % (fnname, it.id, c, path), "f", len(ix) + s.rank)
                    closed[sid] = a_app(a, ix) if s.rank else sel(a, ix)
                    del pending[sid]
        unsolved = frozenset(pending)
        if os.environ.get("SA_DEBUG"):
            for sid in pending:
                s, init, c, path = pending[sid]
                nx = nxt.get(sid)
                print("UNSOLVED in %s: %s %s\n  init %s\n  next %s" % (fnname, c, path, str(show(init))[:300], str(show(nx))[:900]))
        if unsolved and PIN:
            raise Undecided("recurrence without a closed form in " + fnname)
        if T is not D0 and Grest is not TRUE:
            Grest = sb(Grest)
            # the remaining part of the continue condition
            with assume(cmp("Lt", B, T, True)):
                Grest = simp(Grest)
        if Grest.fv & syms:
            raise Undecided("loop exit depends on an unsolved value in " + fnname)

        def at(x, e):
            """value x (over the phi symbols) in iteration e"""
            return vsub(vsub(x, closed), {b.id: e})

        def fin(m, e):
            r = {}
            mp = None
            for c, v in m.items():
                if v is U or v is BAD:
                    r[c] = v
                    continue
                r[c] = vfin(v, closed, unsolved, b, e, syms | {it.id})
            return r
        out = []
        # panics and events of the iterations
        if Grest is TRUE:
            reach = TRUE
            A = FALSE
        else:
            m = binder("m")
            stop = subst(b_not(Grest), {b.id: leaf(patom(m))})
            reach = b_not(mk_any(((m, patom(b)),), stop))
            b1 = binder("m")
            A = mk_any(((b1, T),), subst(b_not(Grest), {b.id: leaf(patom(b1))}))
        pan = self.panics[np:]
        del self.panics[np:]
        for p in pan:
            gd = b_and(reach, sb(restrict(p.guard, g0)))
            if gd.fv & syms:
                raise Undecided("panic condition depends on an unsolved value in " + fnname)
            q = mk_any(((b, add(T, D1)),), gd)
            q = b_and(g0, q)
            if q is not FALSE:
                self.panics.append(Panic(q, p.kind, p.fn, p.span))
        evs = self.events[ne:]
        del self.events[ne:]
        for e in evs:
            b2 = binder("e")
            gd = subst(b_and(reach, sb(restrict(e.guard, g0))), {b.id: leaf(patom(b2))})
            if gd.fv & syms:
                raise Undecided("event condition depends on an unsolved value in " + fnname)
            args = [vfin(a, closed, unsolved, b, leaf(patom(b2)), syms | {it.id}) for a in e.args]
            ex = {k: vfin(a, closed, unsolved, b, leaf(patom(b2)), syms | {it.id}) for k, a in e.extra.items()}
            self.events.append(Event(e.name, b_and(g0, gd), args, e.site, ex,
                                     ((b2, add(T, D1)),) + e.binders))
        # exits after the full trip
        with assume(b_not(A)):
            for t, s in exits:
                gd = simp(at(restrict(s.g, g0), T))
                gd = b_and(b_not(A), gd)
                if gd is FALSE:
                    continue
                if gd.fv & unsolved:
                    raise Undecided("loop exit depends on an unsolved value in " + fnname)
                with assume(gd):
                    out.append((t, State(b_and(g0, gd), fin(s.m, T))))
        # early exits
        if A is not FALSE:
            b1 = binder("m")
            stop = subst(b_not(Grest), {b.id: leaf(patom(b1))})
            F = dmap(lambda tp: mk_first(b1, tp, stop), T)
            known = b_and(cmp("Lt", F, T, True), subst(b_not(Grest), {b.id: F}))
            with assume(A, known):
                for t, s in exits:
                    gd = simp(restrict(at(restrict(s.g, g0), F), known))
                    if gd is FALSE:
                        continue
                    with assume(gd):
                        out.append((t, State(b_and(g0, b_and(A, gd)), fin(s.m, F))))
        return out

    def trip(self, Gb, b, syms, fnname):
        """first iteration whose continue condition fails because of a linear bound, and what
        else must hold to continue"""
        bounds = []
        rest = Gb
        for a, pol in literals(Gb):
            if a.kind != "ge" or (a.fv & syms) or b.id not in a.fv:
                continue
            p = a.args[0] if pol else psub(pneg(a.args[0]), P1)
            # p = n + c*b with c a negative constant
            k = ((b.id, 1),)
            c = p.t.get(k)
            if c is None or c >= 0:
                continue
            r = dict(p.t)
            del r[k]
            n = mkpoly(r)
            if b.id in n.fv:
                continue
            n = leaf(n)
            if c != -1:
                n = idiv(n, num(-c))
                n = ite(cmp("Lt", leaf(mkpoly(r)), D0, True), num(-1), n)
            t = add(n, D1)
            bounds.append(simp(imax(t, D0)))
            self.raw[bounds[-1].id] = t
            rest = cofactor(rest, a, pol)
        if not bounds:
            if Gb is FALSE:
                return D0, TRUE
            # a bound that depends on a condition fixed before the loop
            for a in atoms_of(Gb):
                if b.id not in a.fv and not (a.fv & syms):
                    with assume(atomdd(a)):
                        t1, r1 = self.trip(simp(cofactor(Gb, a, True)), b, syms, fnname)
                    with assume(b_not(atomdd(a))):
                        t0, r0 = self.trip(simp(cofactor(Gb, a, False)), b, syms, fnname)
                    t = ite(atomdd(a), t1, t0)
                    self.raw[t.id] = ite(atomdd(a), self.raw.get(t1.id, t1), self.raw.get(t0.id, t0))
                    return t, ite(atomdd(a), r1, r0)
            # a countdown or multiplicative loop
            raise Undecided("no linear bound for a loop in " + fnname)
        T = bounds[0]
        for t in bounds[1:]:
            T = simp(imin(T, t))
        return T, rest

    def solve_rest(self, pending, nxt, closed, syms, b, B, G_, it, phis):
        maxes = {}

        def sb(x):
            return vsub(x, closed)
        tried = True
        while tried and pending:
            tried = False
            for sid in list(pending):
                s, init, c, path = pending[sid]
                nx = nxt[sid]
                if isinstance(nx, Val) or isinstance(init, Val):
                    continue
                try:
                    r = self.solve_leaf(s, init, nx, sb, syms, b, B, G_, maxes, phis)
                except Undecided:
                    r = None
                if r is not None:
                    closed[sid] = r
                    del pending[sid]
                    tried = True

    def solve_leaf(self, s, init, nx, sb, syms, b, B, G_, maxes, phis):
        me = var(s) if not s.rank else s
        others = syms - {s.id}
        if s.rank:
            return self.solve_array(s, init, nx, sb, syms, b, B)
        with assume(G_):
            nx = simp(restrict(nx, G_))
        n2 = sb(nx)
        m = binder("m")
        M_ = leaf(patom(m))

        def atm(x):
            return subst(x, {b.id: M_})
        rng = ((m, patom(b)),)
        # companions of a maximum
        for ms, (mf, mg, minit, mnx) in maxes.items():
            if ms in n2.fv or ms in nx.fv:
                u = comp_upd(sb_keep(nx, sb, ms), s, ms)
                if u is not None:
                    g, v, kf, strict = u
                    if not ((g.fv | v.fv | kf.fv) & syms):
                        return mk_argmax(rng, atm(g), atm(kf), atm(v), minit, init, strict)
                t = nested_argmax(sb_keep(nx, sb, ms), s, ms)
                if t is not None:
                    bs, g, k, v, strict = t
                    if not ((g.fv | v.fv | k.fv) & syms):
                        g, k, v = atm(g), atm(k), atm(v)
                        bs = tuple((x, subst1(n, {b.id: M_})) for x, n in bs)
                        bs, g, k, v = fresh_rename(bs, g, k, v)
                        return mk_argmax(rng + bs, g, k, v, minit, init, strict)
        if n2.fv & others:
            return None
        if s.id not in n2.fv:
            # value of the previous iteration
            prev = subst(n2, {b.id: sub(B, D1)})
            if s.sort == "o" or s.sort == "b" or True:
                return ite(cmp("Eq", B, D0, True), init, prev)
        if s.sort in "if":
            d = sub(n2, me)
            if s.id not in d.fv:
                return add(init, mk_sum(rng, TRUE, atm(d)))
            u = max_upd(n2, s)
            if u is not None:
                g, f, kind = u
                if not ((g.fv | f.fv) & syms):
                    if kind == "max":
                        maxes[s.id] = (f, g, init, n2)
                        return mk_max(rng, atm(g), atm(f), init)
                    return neg(mk_max(rng, atm(g), neg(atm(f)), neg(init)))
            t = nested_max(n2, s)
            if t is not None:
                bs, g, f = t
                if not ((g.fv | f.fv) & syms):
                    maxes[s.id] = (f, g, init, n2)
                    bs = tuple((x, subst1(n, {b.id: M_})) for x, n in bs)
                    bs, g, f = fresh_rename(bs, atm(g), atm(f))
                    return mk_max(rng + bs, g, f, init)
        if s.sort == "b":
            h, l = cofactor(n2, s, True), cofactor(n2, s, False)
            if not ((h.fv | l.fv) & syms):
                if l is FALSE:
                    return b_and(init, b_not(mk_any(rng, b_not(atm(h)))))
                if h is TRUE:
                    return b_or(init, mk_any(rng, atm(l)))
        u = upd(n2, me)
        if u is not None:
            g, v = u
            if not ((g.fv | v.fv) & syms):
                if b.id not in v.fv:
                    return ite(mk_any(rng, atm(g)), v, init)
                with assume(cmp("Ge", B, D1, True)):
                    once = simp(g) is FALSE
                if once:        # only the first iteration writes
                    z = {b.id: D0}
                    return ite(cmp("Eq", B, D0, True), init, ite(subst(g, z), subst(v, z), init))
        return None

    def solve_array(self, s, init, nx, sb, syms, b, B):
        others = syms - {s.id}
        if s.id not in nx.fv:
            n2 = sb(nx)
            if n2.fv & syms:
                return None
            prev = subst(n2, {b.id: sub(B, D1)})
            return a_ite(cmp("Eq", B, D0, True), init, prev)
        pieces = []
        x = nx
        while x is not s:
            if x.kind != "aw":
                return None
            pieces.append(x)
            x = x.args[0]
        pieces.reverse()
        info = []
        for w in pieces:
            _, bs, g, addr, val, kind = w.args
            bs, g, val, *ad = fresh_rename(bs, g, val, *[leaf(a) for a in addr])
            bs2 = []
            for v, n in bs:
                d = sb(leaf(n))
                if d.fv & syms:
                    return None
                bs2.append((v, d))
            ad = [sb(a) for a in ad]
            if any(a.fv & syms for a in ad):
                return None
            g = sb(g)
            val = vsub_any(val, sb)
            if (g.fv | val.fv) & others:
                return None
            info.append([bs2, g, ad, val, kind])
        # reads of the array itself see the writes of earlier iterations
        reads = any(s.id in i[1].fv or s.id in i[3].fv for i in info)
        m = binder("m")
        M_ = leaf(patom(m))
        if reads:
            if any(isinstance(i[3], Term) for i in info):
                return None
            P = init
            for k, (bs2, g, ad, val, kind) in enumerate(info):
                hole = term("sym", ("hole%d" % k,), s.sort)
                hv = uf("hole", [patom(m)] + [patom(v) for v, _ in bs2], s.sort if s.sort != "b" else "b")
                hg = TRUE if s.id not in g.fv else uf("holeg", [patom(m)] + [patom(v) for v, _ in bs2], "b")
                if s.id not in g.fv:
                    hg = g
                mm = {b.id: M_}
                P = self.aw_multi(P, ((m, leaf(patom(b))),) + tuple((v, subst(n, mm)) for v, n in bs2),
                                  subst(hg, mm), [subst(a, mm) for a in ad], subst(hv, mm), "set")
            ok = True
            new = []
            for bs2, g, ad, val, kind in info:
                dom = TRUE
                for v, n in bs2:
                    dom = b_and(dom, cmp("Lt", leaf(patom(v)), n, True))
                with assume(dom):
                    g2 = subst(g, {s.id: P})
                    with assume(g2):
                        v2 = subst(val, {s.id: P})
                if has_hole(g2) or has_hole(v2):
                    ok = False
                    break
                new.append([bs2, g2, ad, v2, kind])
            if ok:
                info = new
            elif len(info) == 1 and info[0][4] == "set" and s.sort in "if" and s.id not in info[0][1].fv:
                bs2, g, ad, val, kind = info[0]
                if any(a.atom is not None for a in ad):
                    return None
                here = sel(s, tuple(a.leaf for a in ad))
                d = sub(val, here)
                if s.id in d.fv:
                    return None
                info = [[bs2, g, ad, d, "acc"]]
            else:
                return None
        if len(info) > 1 and not self.disjoint_pieces(info, b):
            return None
        res = init
        mm = {b.id: M_}
        for bs2, g, ad, val, kind in info:
            res = self.aw_multi(res, ((m, leaf(patom(b))),) + tuple((v, subst(n, mm)) for v, n in bs2),
                                subst(g, mm), [subst(a, mm) for a in ad], vsub(val, mm), kind)
        return res

    def disjoint_pieces(self, info, b):
        """no write of an earlier piece in a later iteration hits a place written by a later piece"""
        for i in range(len(info)):
            for j in range(i):
                bi, gi, ai, vi, ki = info[i]
                bj, gj, aj, vj, kj = info[j]
                if ki == "acc" and kj == "acc":
                    continue
                if ki == "set" and kj == "set" and vi is vj and b.id not in vi.fv and not bi and not bj:
                    continue
                m = binder("m")
                mm = {b.id: leaf(patom(m))}
                if any(a.atom is not None for a in ai + aj) or any(n.atom is not None for _, n in bi + bj):
                    return False
                bi2, gi2, *ai2 = fresh_rename(tuple((v, n.leaf) for v, n in bi), gi, *ai)
                bs = tuple((v, subst1(n.leaf, mm)) for v, n in bj)
                dom = TRUE
                for v, n in bi2:
                    dom = b_and(dom, ge0(psub(psub(n, patom(v)), P1)))
                with assume(ge0(psub(psub(patom(m), patom(b)), P1)), dom, gi2):
                    r = match_write(bs, subst(gj, mm), tuple(subst1(a.leaf, mm) for a in aj),
                                    tuple(a.leaf for a in ai2))
                if r != "no":
                    return False
        return True

    def aw_multi(self, base, bs, g, ad, val, kind):
        """comprehension whose ranges or addresses may still be conditional"""
        rb = rebase(tuple(bs), g, list(ad) + [val])
        if rb is not None:
            bs, g, ad, val = rb[0], rb[1], rb[2][:-1], rb[2][-1]
            bs = tuple((v, n if isinstance(n, DD) else leaf(n)) for v, n in bs)
        for k, (v, n) in enumerate(bs):
            n = simp(n)
            if n.atom is not None:
                a = n.atom
                c = atomdd(a)
                hi = self.aw_multi(base, bs[:k] + ((v, n.hi),) + bs[k + 1:], b_and(g, c), ad, val, kind)
                return self.aw_multi(hi, bs[:k] + ((v, n.lo),) + bs[k + 1:], b_and(g, b_not(c)), ad, val, kind)
            bs = bs[:k] + ((v, n),) + bs[k + 1:]
        dom = TRUE
        for v, n in bs:
            dom = b_and(dom, cmp("Lt", leaf(patom(v)), n, True))
        with assume(dom, g):
            ad = [simp(a) for a in ad]
        for k, a in enumerate(ad):
            if a.atom is not None:
                c = atomdd(a.atom)
                hi = self.aw_multi(base, bs, b_and(g, c), ad[:k] + [a.hi] + ad[k + 1:], val, kind)
                return self.aw_multi(hi, bs, b_and(g, b_not(c)), ad[:k] + [a.lo] + ad[k + 1:], val, kind)
        with assume(dom):
            g = simp(g)
        # an accumulation whose place does not depend on some of the binders
        if kind == "acc":
            used = frozenset()
            for a in ad:
                used |= a.fv
            free = [k for k, (v, n) in enumerate(bs) if v.id not in used
                    and not any(v.id in n2.fv for _, n2 in bs[k + 1:])]
            if free and not (g.fv & frozenset(bs[k][0].id for k in free)):
                inner = tuple((bs[k][0], bs[k][1].leaf) for k in free)
                rest = tuple(x for k, x in enumerate(bs) if k not in free)
                val = mk_sum(inner, TRUE, val)
                if not rest:
                    old = sel(base, tuple(a.leaf for a in ad))
                    return mk_aw(base, (), g, tuple(a.leaf for a in ad), add(old, val), "set")
                return self.aw_multi(base, rest, g, ad, val, kind)
        return mk_aw(base, tuple((v, n.leaf) for v, n in bs), g, tuple(a.leaf for a in ad), val, kind)


class Callee:
    def __init__(self, fn, targs, key, label, span, dty, atys):
        self.fn, self.targs, self.key, self.label, self.span = fn, targs, key, label, span
        self.dty, self.atys = dty, atys
        self.trait = fn.get("trait")
        self.meth = fn.get("meth")
        self.name = fn["n"]


# ---------------------------------------------------------------- helpers
def lift_ty(t, ty):
    """constant family of t; ty decides number kinds"""
    if isinstance(t, DD) and ty[0] == "prim" and ty[1] in ("f32", "f64"):
        return a_const(t, 1, "f")
    if isinstance(t, S) and ty[0] == "tuple":
        return S([lift_ty(x, y) for x, y in zip(t.f, ty[1])], t.tag)
    return lift(t)


def has_hole(x):
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, (Term, Poly, DD)):
            return False
        k = (type(x).__name__, x.id)
        if k in seen:
            return False
        seen.add(k)
        if isinstance(x, Term):
            if x.kind in ("uf", "buf") and x.args[0] in ("hole", "holeg"):
                return True
            return go(x.args)
        if isinstance(x, Poly):
            return any(go(TERMS[a]) for m in x.t for a, _ in m)
        if x.atom is None:
            return go(x.leaf)
        return go(x.atom) or go(x.hi) or go(x.lo)
    return go(x)


def leaf_at(v, path):
    for x in path:
        if v is U or v is BAD or isinstance(v, G):
            return BAD
        if x == "d":
            v = v.d
        elif x == "n":
            v = v.n
        elif x == "e":
            v = v.e
        elif x == "pos":
            v = v.pos
        elif isinstance(x, tuple):
            k = x[0]
            if k == "f":
                v = v.f[x[1]]
            elif k == "u":
                v = v.ups[x[1]]
            elif k == "v":
                if x[1] not in v.v:
                    return U
                v = v.v[x[1]][x[2]]
            elif k == "p":
                v = v.m[x[1]][0]
            elif k == "m":
                v = v.m[x[1]][1]
            elif k == "r":
                v = v.p[x[1]][x[2]]
    return v


def leafkind(a, b):
    if isinstance(a, Term):
        return "a"
    ka = kb = None
    l = next(leaves(a))
    if isinstance(l, bool):
        return "b"
    if isinstance(l, Term):
        return "o"
    ka, kb = sort_of(a), sort_of(b)
    return "f" if "f" in (ka, kb) else "i"


def diff(a, b, path, out):
    """paths of the leaves that differ; value: kind of leaf or "U" for a change of structure"""
    if same(a, b):
        return
    if a is U or a is BAD:
        return              # undefined at loop entry: stays undefined at the header
    if b is U or b is BAD or type(a) is not type(b):
        out[path] = "U"
        return
    if isinstance(a, (DD, Term)):
        out[path] = leafkind(a, b)
    elif isinstance(a, S) and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            diff(x, y, path + (("f", i),), out)
    elif isinstance(a, C) and a.key == b.key:
        for i, (x, y) in enumerate(zip(a.ups, b.ups)):
            diff(x, y, path + (("u", i),), out)
    elif isinstance(a, E):
        diff(a.d, b.d, path + ("d",), out)
        for k in a.v:
            if k in b.v:
                for i, (x, y) in enumerate(zip(a.v[k], b.v[k])):
                    diff(x, y, path + (("v", k, i),), out)
    elif isinstance(a, V):
        diff(a.n, b.n, path + ("n",), out)
        if a.e is U and b.e is not U:
            out[path] = "U"
        else:
            diff(a.e, b.e, path + ("e",), out)
    elif isinstance(a, IT) and samespec(a.spec, b.spec):
        diff(a.pos, b.pos, path + ("pos",), out)
    elif isinstance(a, M) and a.m.keys() == b.m.keys():
        for k in a.m:
            diff(a.m[k][0], b.m[k][0], path + (("p", k),), out)
            diff(a.m[k][1], b.m[k][1], path + (("m", k),), out)
    elif isinstance(a, R) and a.c == b.c and len(a.p) == len(b.p) and all(
            x == y or (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] in "iw")
            for x, y in zip(a.p, b.p)):
        for i, (x, y) in enumerate(zip(a.p, b.p)):
            if x != y:
                for j in range(1, len(x)):
                    diff(x[j], y[j], path + (("r", i, j),), out)
    else:
        out[path] = "U"


def havoc(v, changed, name, phis, path=()):
    k = changed.get(path)
    if k == "U":
        return BAD
    if k is not None and isinstance(v, (DD, Term)):
        nm = "%s%s" % (name, path)
        if isinstance(v, Term):
            s = asym(nm, v.sort, v.rank)
            phis[s.id] = (s, v, name.split("|", 1)[1], path)
            return s
        s = sym(nm, k)
        phis[s.id] = (s, v, name.split("|", 1)[1], path)
        return var(s)
    if not any(p[:len(path)] == path for p in changed):
        return v

    def h(x, q):
        return havoc(x, changed, name, phis, path + (q,))
    if isinstance(v, S):
        return S([h(x, ("f", i)) for i, x in enumerate(v.f)], v.tag)
    if isinstance(v, C):
        return C(v.key, [h(x, ("u", i)) for i, x in enumerate(v.ups)], v.env)
    if isinstance(v, E):
        return E(h(v.d, "d"), {k: tuple(h(x, ("v", k, i)) for i, x in enumerate(xs)) for k, xs in v.v.items()}, v.tag)
    if isinstance(v, V):
        return V(h(v.n, "n"), h(v.e, "e"))
    if isinstance(v, IT):
        return IT(v.spec, h(v.pos, "pos"))
    if isinstance(v, M):
        return M({k: (h(p, ("p", k)), h(x, ("m", k))) for k, (p, x) in v.m.items()})
    if isinstance(v, R):
        return R(v.c, [x if isinstance(x, int) or x[0] == "v" else
                       (x[0],) + tuple(h(y, ("r", i, j + 1)) for j, y in enumerate(x[1:]))
                       for i, x in enumerate(v.p)])
    return v


def vsub(x, mp):
    if isinstance(x, DD):
        return subst(x, mp)
    if isinstance(x, Term):
        return subst(x, mp)
    return vmap(lambda l: subst(l, mp), x)


def vsub_any(x, sb):
    return sb(x)


def sb_keep(nx, sb, keep):
    """substitute solved values except the symbol keep"""
    s = TERMS[keep]
    tmp = sym("keep:" + s.args[0], s.sort)
    d = subst(nx, {keep: var(tmp)})
    d = sb(d)
    return subst_name(d, tmp, s)


NARROW = {"u8": 1 << 8, "u16": 1 << 16, "i8": 1 << 7, "i16": 1 << 15}


def narrow(a, src, dst):
    """an integer cut to one of the small types (32 bits and more are assumed to be enough)"""
    if NARROW.get(src, 1 << 32) <= NARROW[dst] and (src[0] == "u" or dst[0] == "i"):
        return a
    top = NARROW[dst]
    if dst[0] == "i":
        if holds(lt(a, num(top))) and holds(cmp("Ge", a, num(-top), True)):
            return a
        raise Undecided("cast to a small signed type")
    return simp(imod(a, num(top)))


def few(n):
    return n is not None and n.atom is None and isinstance(n.leaf, Poly) and n.leaf.const is not None and \
        0 <= n.leaf.const <= 8


def subst_name(d, a, b):
    return subst(d, {a.id: var(b)})


def vfin(v, closed, unsolved, b, e, syms):
    def f(l):
        if not (l.fv & syms):
            return l
        if l.fv & unsolved:
            return BAD
        x = subst(l, closed)
        if x.fv & unsolved:
            return BAD
        x = subst(x, {b.id: e})
        return simp(x) if isinstance(x, DD) else x
    return vmap(f, v)


def upd(nx, me):
    """(g, v) with nx == ite(g, v, me), v and g free of me"""
    sid = next(iter(me.fv))

    def go(d):
        if d is me:
            return FALSE, None
        if d.atom is None:
            return (TRUE, d) if sid not in d.fv else None
        if sid in d.atom.fv:
            return None
        h, l = go(d.hi), go(d.lo)
        if h is None or l is None:
            return None
        c = atomdd(d.atom)
        g = ite(c, h[0], l[0])
        v = h[1] if l[1] is None else (l[1] if h[1] is None else ite(c, h[1], l[1]))
        return g, v
    r = go(nx)
    return None if r is None or r[1] is None else r


def lin(p, s):
    """coefficient of s when p is linear in it"""
    c = p.t.get(((s.id, 1),))
    if c is None:
        return None
    r = dict(p.t)
    del r[((s.id, 1),)]
    q = mkpoly(r)
    return None if s.id in q.fv else (c, q)


def max_upd(nx, s):
    me = var(s)

    def go(d):
        if d is me:
            return FALSE, None, None
        ats = atoms_of(d)
        for a in ats:
            if s.id not in a.fv:
                h, l = go(cofactor(d, a, True)), go(cofactor(d, a, False))
                if h is None or l is None:
                    return None
                if h[2] and l[2] and h[2] != l[2]:
                    return None
                c = atomdd(a)
                g = ite(c, h[0], l[0])
                f = h[1] if l[1] is None else (l[1] if h[1] is None else ite(c, h[1], l[1]))
                return g, f, h[2] or l[2]
        if len(ats) != 1:
            return None
        a = ats[0]
        if a.kind not in ("gt", "ge"):
            return None
        r = lin(a.args[0], s)
        if r is None:
            return None
        c, q = r
        off = 0
        h, l = cofactor(d, a, True), cofactor(d, a, False)
        if h.atom is not None or l.atom is not None:
            return None
        # a: c*s + q > 0 (or >= 0)
        if h is me and s.id not in l.fv:
            f, upd_when_true = l, False
        elif l is me and s.id not in h.fv:
            f, upd_when_true = h, True
        else:
            return None
        # boundary value of s where the atom flips must be f
        bnd = pscale(q, Fraction(-1) / c)
        dlt = psub(bnd, f.leaf)
        if a.kind == "gt":
            if dlt.const != 0:
                return None
        elif dlt.const is None or abs(dlt.const) > 1:
            return None
        # c > 0: atom true for large s
        large = c > 0
        kind = "max" if (large != upd_when_true) else "min"
        return TRUE, f, kind
    r = go(nx)
    return None if r is None or r[1] is None else r


def nested_max(nx, s):
    """nx == ite(g, max(domain; f; init s), s)"""
    def go(d):
        if d is var(s):
            return FALSE, None
        if d.atom is not None:
            if s.id in d.atom.fv:
                return None
            h, l = go(d.hi), go(d.lo)
            if h is None or l is None:
                return None
            if h[1] is not None and l[1] is not None and h[1] is not l[1]:
                return None
            return ite(atomdd(d.atom), h[0], l[0]), h[1] or l[1]
        p = d.leaf
        if isinstance(p, Poly) and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                t = TERMS[m[0][0]]
                if t.kind == "max" and t.args[3] is patom(s):
                    return TRUE, t
        return None
    r = go(nx)
    if r is None or r[1] is None:
        return None
    g, t = r
    bs, tg, f, _ = t.args
    bs, tg, f = fresh_rename(bs, tg, f)
    return bs, b_and(g, tg), f


def comp_upd(nx, s, ms):
    """(g, v, key, strict) with nx == ite(g and key > ms, v, s)"""
    me = var(s)
    M_ = TERMS[ms]

    def go(d):
        if d is me:
            return FALSE, None, None, None
        for a in atoms_of(d):
            if ms not in a.fv and s.id not in a.fv:
                h, l = go(cofactor(d, a, True)), go(cofactor(d, a, False))
                if h is None or l is None:
                    return None
                if h[1] is None:
                    return (b_and(b_not(atomdd(a)), l[0]),) + l[1:] if l[1] is not None else l
                if l[1] is None:
                    return (b_and(atomdd(a), h[0]),) + h[1:]
                c = atomdd(a)
                if h[3] != l[3]:
                    return None
                return ite(c, h[0], l[0]), ite(c, h[1], l[1]), ite(c, h[2], l[2]), h[3]
        ats = atoms_of(d)
        if len(ats) != 1 or ats[0].kind != "gt":
            return None
        a = ats[0]
        r = lin(a.args[0], M_)
        if r is None:
            return None
        c, q = r
        key = leaf(pscale(q, Fraction(-1) / c))
        h, l = cofactor(d, a, True), cofactor(d, a, False)
        if c < 0 and l is me and s.id not in h.fv and ms not in h.fv:
            return TRUE, h, key, True        # key > ms
        if c > 0 and h is me and s.id not in l.fv and ms not in l.fv:
            return TRUE, l, key, False       # not (ms > key)
        return None
    r = go(nx)
    return None if r is None or r[1] is None else r


def nested_argmax(nx, s, ms):
    def go(d):
        if d is var(s):
            return FALSE, None
        if d.atom is not None:
            if s.id in d.atom.fv or ms in d.atom.fv:
                return None
            h, l = go(d.hi), go(d.lo)
            if h is None or l is None:
                return None
            if h[1] is not None and l[1] is not None and h[1] is not l[1]:
                return None
            return ite(atomdd(d.atom), h[0], l[0]), h[1] or l[1]
        p = d.leaf
        if isinstance(p, Poly) and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                t = TERMS[m[0][0]]
                if t.kind == "argmax" and t.args[4] is patom(TERMS[ms]) and t.args[5] is patom(s):
                    return TRUE, t
        return None
    r = go(nx)
    if r is None or r[1] is None:
        return None
    g, t = r
    bs, tg, k, v, _, _, strict = t.args
    bs, tg, k, v = fresh_rename(bs, tg, k, v)
    return bs, b_and(g, tg), k, v, strict
