"""Models of the standard library functions that the crate (or a variant of it) calls.

A function without a model makes the obligation undecided; nothing is guessed.
"""
import re
from .terms import *
from .val import *
from . import mir as M_
from .mir import State, merge_states, Event, lift_ty, Panic

UNDEC = Undecided


# ---------------------------------------------------------------- small helpers
def opt(c, x):
    c = simp(c)
    if c is FALSE:
        return E(D0, {0: ()}, "Option")
    return E(ite(c, D1, D0), {0: (), 1: (x,)}, "Option")


NONE = E(D0, {0: ()}, "Option")


def some(x):
    return E(D1, {0: (), 1: (x,)}, "Option")


def ok(x):
    return E(D0, {0: (x,)}, "Result")


def err(x):
    return E(D1, {1: (x,)}, "Result")


def val(I, st, x):
    """value behind any number of references"""
    while isinstance(x, R) or (isinstance(x, G) and isinstance(first_of(x), R)):
        x = I.read(st, x)
    return x


def first_of(g):
    while isinstance(g, G):
        g = g.a
    return g


def scalar(I, st, x):
    x = val(I, st, x)
    if isinstance(x, G):
        return ite(x.c, scalar(I, st, x.a), scalar(I, st, x.b))
    if not isinstance(x, DD):
        raise UNDEC("scalar expected, got %s" % type(x).__name__)
    return x


def deref_ty(t):
    while t[0] in ("ref", "ptr"):
        t = t[1]
    return t


def isfloat(t):
    t = deref_ty(t)
    return t[0] == "prim" and t[1] in ("f32", "f64")


def is_(v, k):
    """v is in variant k"""
    if isinstance(v, G):
        return ite(v.c, is_(v.a, k), is_(v.b, k))
    if not isinstance(v, E):
        raise UNDEC("variant test of %s" % type(v).__name__)
    return simp(cmp("Eq", v.d, num(k), True))


def payload(v, k, j=0):
    if isinstance(v, G):
        return merge(v.c, payload(v.a, k, j), payload(v.b, k, j))
    if k not in v.v or j >= len(v.v[k]):
        return U
    return v.v[k][j]


def branch(I, st, c, fa, fb):
    """run fa where c holds, fb elsewhere, and join"""
    c = simp(c)
    if c is TRUE:
        return fa(st)
    if c is FALSE:
        return fb(st)
    outs = []
    for pol, f in ((c, fa), (b_not(c), fb)):
        s = st.copy(b_and(st.g, pol))
        if s.g is FALSE:
            continue
        n = CTX.push(literals(s.g))
        try:
            v = f(s)
        finally:
            CTX.pop(n)
        if s.g is not FALSE:
            outs.append((s, v))
    if not outs:
        st.g = FALSE
        return U
    m = merge_states([s for s, _ in outs])
    if len(outs) == 1:
        v = outs[0][1]
    else:
        v = merge(restrict(outs[0][0].g, m.g), outs[0][1], outs[1][1])
    st.g = m.g
    st.m.clear()
    st.m.update(m.m)
    return v


def call_value(I, st, fr, f, args, label, span):
    self_ref = None
    while isinstance(f, R):
        self_ref = f
        f = I.read(st, f)
    if isinstance(f, G):
        return branch(I, st, f.c, lambda s: call_value(I, s, fr, f.a, args, label + "a", span),
                      lambda s: call_value(I, s, fr, f.b, args, label + "b", span))
    if isinstance(f, FN):
        r = ctor(I, f, args)
        if r is not None:
            return r
        return I.call(st, fr, f, args, label + ">v", span, ("other", "?"), [("other", "?")] * len(args))
    if not isinstance(f, C):
        raise UNDEC("call of a value of kind %s" % type(f).__name__)
    fd = I.p.fns.get(f.key)
    if fd is None:
        raise UNDEC("closure without body")
    t1 = I.p.ty(fd["body"]["locals"][1], f.env)
    if t1[0] == "ref":
        if self_ref is None:
            cell = label + "#self"
            st.m[cell] = f
            self_ref = R(cell)
        me = self_ref
    else:
        me = f
    return I.run_fn(st, f.key, [me] + list(args), f.env, label + ">closure")


def call_closure_body(I, st, fr, key, args, label, env):
    a = args[1]
    xs = list(a.f) if isinstance(a, S) else [a]
    return call_value(I, st, fr, args[0], xs, label, None)


def ctor(I, f, args):
    """tuple struct and variant constructors used as functions"""
    n = re.sub(r"<[^<>]*>", "", f.f["n"]).replace("::::", "::")
    parts = [p for p in n.split("::") if p]
    if parts[-1] in ("Some", "Ok", "Err", "None"):
        return {"Some": some, "Ok": ok, "Err": err}[parts[-1]](args[0])
    for an, a in I.p.adts.items():
        if a["kind"] == "enum" and n.startswith(an + "::"):
            for i, v in enumerate(a["v"]):
                if v["n"] == parts[-1]:
                    return E(num(i), {i: tuple(args)}, an.split("::")[-1])
        if a["kind"] == "struct" and n == an:
            return S(args, an)
    return None


# ---------------------------------------------------------------- iterators
def slen(sp):
    k = sp[0]
    if k in ("slice", "range", "owned", "chunks", "windows", "repeatn"):
        return sp[2]
    if k == "repeat":
        return None
    if k in ("enum", "copied", "rev"):
        return slen(sp[1])
    if k in ("map", "filter", "filter_map", "inspect"):
        return slen(sp[1])
    if k in ("take_while", "skip_while", "map_while"):
        return slen(sp[1])
    if k == "zip":
        a, b = slen(sp[1]), slen(sp[2])
        if a is None:
            return b
        if b is None:
            return a
        return a if a is b else simp(imin(a, b))
    if k == "skip":
        return simp(imax(sub(slen(sp[1]), sp[2]), D0))
    if k == "take":
        a = slen(sp[1])
        return sp[2] if a is None else simp(imin(a, sp[2]))
    if k == "step":
        return simp(idiv(add(slen(sp[1]), sub(sp[2], D1)), sp[2]))
    if k == "chain":
        return simp(add(slen(sp[1]), slen(sp[2])))
    if k == "flat":
        return simp(mul(slen(sp[1]), sp[3]))
    raise UNDEC("length of iterator " + k)


RANDOM = ("slice", "range", "owned", "chunks", "windows", "repeat", "repeatn", "enum", "copied", "rev", "map",
          "zip", "skip", "take", "step", "chain", "flat")


def random_access(sp):
    if sp[0] not in RANDOM:
        return False
    return all(random_access(x) for x in sp[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))


def item(I, st, fr, sp, i, label):
    """element i of a random access sequence"""
    k = sp[0]
    if k == "slice":
        return I.elem(sp[1], i)
    if k == "range":
        return simp(add(sp[1], i))
    if k == "owned":
        return index(sp[1], simp(i))
    if k in ("repeat", "repeatn"):
        return sp[1]
    if k == "chunks":
        _, ref, n, size, total = sp
        s = mul(i, size)
        return I.window(ref, s, simp(imin(size, sub(total, s))))
    if k == "windows":
        return I.window(sp[1], i, sp[3])
    if k == "enum":
        return S([add(i, sp[2]), item(I, st, fr, sp[1], i, label)])
    if k == "copied":
        return val1(I, st, item(I, st, fr, sp[1], i, label))
    if k == "rev":
        return item(I, st, fr, sp[1], simp(sub(sub(slen(sp[1]), D1), i)), label)
    if k == "map":
        x = item(I, st, fr, sp[1], i, label + "m")
        return call_value(I, st, fr, sp[2], [x], label + "~map", None)
    if k == "zip":
        return S([item(I, st, fr, sp[1], i, label + "l"), item(I, st, fr, sp[2], i, label + "r")])
    if k == "skip":
        return item(I, st, fr, sp[1], simp(add(i, sp[2])), label)
    if k == "take":
        return item(I, st, fr, sp[1], i, label)
    if k == "step":
        return item(I, st, fr, sp[1], simp(mul(i, sp[2])), label)
    if k == "chain":
        n = slen(sp[1])
        return branch(I, st, cmp("Lt", i, n, True),
                      lambda s: item(I, s, fr, sp[1], i, label + "1"),
                      lambda s: item(I, s, fr, sp[2], simp(sub(i, n)), label + "2"))
    if k == "flat":
        it = inner(I, st, fr, sp, simp(idiv(i, sp[3])), label)
        return item(I, st, fr, it, simp(imod(i, sp[3])), label + "n")
    raise UNDEC("element of iterator " + k)


def inner(I, st, fr, sp, i, label):
    """the sequence that a flat_map makes of element i"""
    x = item(I, st, fr, sp[1], i, label + "m")
    it = to_it(I, st, call_value(I, st, fr, sp[2], [x], label + "~map", None), ("adt", "Range"), label)
    if it.pos is not D0 or not random_access(it.spec):
        raise UNDEC("flat_map to a sequence without random access")
    return it.spec


def val1(I, st, x):
    if isinstance(x, (R, G)):
        return I.read(st, x)
    return x


def visit(I, st, fr, sp, i, label, k):
    """run k on element i; returns the condition to stop"""
    if random_access(sp):
        return k(st, item(I, st, fr, sp, i, label)) or FALSE
    kind = sp[0]
    if kind == "map":
        return visit(I, st, fr, sp[1], i, label + "m",
                     lambda s, x: k(s, call_value(I, s, fr, sp[2], [x], label + "~map", None)))
    if kind == "inspect":
        def insp(s, x):
            c = label + "#insp"
            s.m[c] = x
            call_value(I, s, fr, sp[2], [R(c)], label + "~insp", None)
            return k(s, x)
        return visit(I, st, fr, sp[1], i, label + "m", insp)
    if kind == "copied":
        return visit(I, st, fr, sp[1], i, label, lambda s, x: k(s, val1(I, s, x)))
    if kind == "filter":
        def filt(s, x):
            c = label + "#flt"
            s.m[c] = x
            g = call_value(I, s, fr, sp[2], [R(c)], label + "~filter", None)
            return brk_branch(I, s, g, lambda s2: k(s2, x), lambda s2: FALSE)
        return visit(I, st, fr, sp[1], i, label + "f", filt)
    if kind == "filter_map":
        def fm(s, x):
            o = call_value(I, s, fr, sp[2], [x], label + "~fm", None)
            return brk_branch(I, s, is_(o, 1), lambda s2: k(s2, payload(o, 1)), lambda s2: FALSE)
        return visit(I, st, fr, sp[1], i, label + "f", fm)
    if kind == "take_while":
        def tw(s, x):
            c = label + "#tw"
            s.m[c] = x
            g = call_value(I, s, fr, sp[2], [R(c)], label + "~tw", None)
            return brk_branch(I, s, g, lambda s2: k(s2, x), lambda s2: TRUE)
        return visit(I, st, fr, sp[1], i, label + "t", tw)
    raise UNDEC("iteration over " + kind)


def brk_branch(I, st, c, fa, fb):
    def w(f):
        def g(s):
            return f(s) or FALSE
        return g
    r = branch(I, st, c, w(fa), w(fb))
    return FALSE if r is U or r is None else r


def known(st, c, old):
    """what was assigned since old, where c holds"""
    if c.atom is not None:
        for k, v in st.m.items():
            if v is not old.m.get(k):
                st.m[k] = vmap(lambda d: restrict(d, c) if isinstance(d, DD) else d, v)
    return st


def vloop(I, st, n, label, step):
    """iterate step(st, i) for i in 0..n; step returns the stop condition (or None)"""
    cell = label + "#pos"
    st.m[cell] = D0

    def body(s):
        pos = s.m[cell]
        c = simp(cmp("Lt", pos, n, True))
        exits, backs = [], []
        g = b_and(s.g, b_not(c))
        if g is not FALSE:
            exits.append(("done", s.copy(g)))
        s2 = s.copy(b_and(s.g, c))
        if s2.g is not FALSE:
            k = CTX.push(literals(s2.g))
            try:
                brk = step(s2, pos) or FALSE
                if s2.g is not FALSE:
                    brk = simp(brk)
                    g = b_and(s2.g, brk)
                    if g is not FALSE:
                        exits.append(("done", known(s2.copy(g), brk, s)))
                    g = b_and(s2.g, b_not(brk))
                    if g is not FALSE:
                        s3 = known(s2.copy(g), b_not(brk), s)
                        s3.m[cell] = add(pos, D1)
                        backs.append(s3)
            finally:
                CTX.pop(k)
        return backs, exits
    outs = I.loop(State(st.g, dict(st.m)), body, (label, "v"), lambda s: s, label, M_.few(n))
    r = merge_states([s for _, s in outs])
    if r is None:
        st.g = FALSE
        return
    st.g = r.g
    st.m.clear()
    st.m.update(r.m)
    st.m.pop(cell, None)


def drive(I, st, fr, it, label, k):
    """internal iteration: run k(st, element) for all elements"""
    sp = split_chain(norm_it(it))
    if sp[0] == "chain":
        # one part after the other; the second only when the first was not left early
        stop = label + "#stop"
        st.m[stop] = FALSE

        def first(s, x):
            brk = k(s, x) or FALSE
            s.m[stop] = b_or(s.m[stop], brk)
            return brk
        drive(I, st, fr, IT(sp[1], D0), label + "c1", first)
        if st.g is FALSE:
            return
        c = st.m.pop(stop, FALSE)

        def rest(s):
            drive(I, s, fr, IT(sp[2], D0), label + "c2", k)
            return UNIT
        if c is FALSE:
            rest(st)
        else:
            branch(I, st, simp(b_not(c)), rest, lambda s: UNIT)
        return
    n = slen(sp)
    if n is None:
        raise UNDEC("unbounded iteration")
    vloop(I, st, n, label, lambda s, i: visit(I, s, fr, sp, i, label, k))


def split_chain(sp):
    """brings a chain below elementwise adaptors to the top"""
    if sp[0] in ("map", "filter", "filter_map", "inspect", "copied"):
        y = split_chain(sp[1])
        if y[0] == "chain":
            return ("chain", (sp[0], y[1]) + sp[2:], (sp[0], y[2]) + sp[2:])
    if sp[0] == "enum":
        y = split_chain(sp[1])
        if y[0] == "chain" and random_access(y[1]):
            return ("chain", ("enum", y[1], sp[2]), ("enum", y[2], simp(add(sp[2], slen(y[1])))))
    if sp[0] == "rev":
        y = split_chain(sp[1])
        if y[0] == "chain":
            return ("chain", ("rev", y[2]), ("rev", y[1]))
    return sp


def norm_it(it):
    if it.pos is D0:
        return it.spec
    return ("skip", it.spec, it.pos)


def to_it(I, st, x, ty, label):
    """value used as an iterator"""
    if isinstance(x, IT):
        return x
    if isinstance(x, G):
        v = I.read(st, x)
        if isinstance(v, V):
            return IT(("slice", x, v.n), D0)
    t = ty
    if isinstance(x, R):
        v = I.read(st, x)
        if isinstance(v, IT):                 # &mut iterator: by_ref is not supported as a source
            raise UNDEC("iterator behind a reference")
        return IT(("slice", x, I.length(st, x)), D0)
    if isinstance(x, V):
        return IT(("owned", x.e, x.n), D0)
    if isinstance(x, S):
        if t[0] == "adt" and t[1].endswith("RangeInclusive"):
            raise UNDEC("inclusive range object")
        if t[0] == "adt" and t[1].endswith("RangeFrom"):
            raise UNDEC("open range")
        if len(x.f) == 2:
            return IT(("range", x.f[0], simp(imax(sub(x.f[1], x.f[0]), D0))), D0)
    if isinstance(x, E) and 1 in x.v or isinstance(x, E) and x.tag == "Option":
        p = payload(x, 1)
        if p is U:
            return IT(("repeatn", UNIT, D0), D0)
        return IT(("repeatn", p, ite(is_(x, 1), D1, D0)), D0)
    raise UNDEC("iteration over %s" % type(x).__name__)


def spec_of(I, st, x, ty, label):
    return norm_it(to_it(I, st, x, ty, label))


# ---------------------------------------------------------------- equality
def veq(I, st, a, b, flt=None):
    a, b = val(I, st, a), val(I, st, b)
    if isinstance(a, G):
        return ite(a.c, veq(I, st, a.a, b, flt), veq(I, st, a.b, b, flt))
    if isinstance(b, G):
        return ite(b.c, veq(I, st, a, b.a, flt), veq(I, st, a, b.b, flt))
    if isinstance(a, DD) and isinstance(b, DD):
        la, lb = next(leaves(a)), next(leaves(b))
        if isinstance(la, bool):
            return ite(a, b, b_not(b))
        if isinstance(la, Term):
            return oeq(a, b)
        f = flt if flt is not None else ("f" in (sort_of(a), sort_of(b)))
        return cmp("Eq", a, b, not f)
    if isinstance(a, S) and isinstance(b, S) and len(a.f) == len(b.f):
        return ands([veq(I, st, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, E) and isinstance(b, E):
        r = cmp("Eq", a.d, b.d, True)
        for k in set(a.v) & set(b.v):
            for x, y in zip(a.v[k], b.v[k]):
                if x is U or y is U:
                    continue
                r = b_and(r, b_or(b_not(is_(a, k)), veq(I, st, x, y)))
        return r
    if isinstance(a, V) and isinstance(b, V):
        r = cmp("Eq", a.n, b.n, True)
        if r is FALSE or a.e is U or b.e is U:
            return r
        m = binder("m")
        M = leaf(patom(m))
        with assume(r, cmp("Lt", M, a.n, True)):
            q = veq(I, st, index(a.e, M), index(b.e, M))
        return b_and(r, b_not(mk_any(((m, a.n),), b_not(q))))
    raise UNDEC("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


# ---------------------------------------------------------------- serialisation
SKEL = {}


def flatten(v):
    """(shape description, leaves)"""
    if isinstance(v, (DD, Term)):
        return ("l",), [v]
    if isinstance(v, S):
        sh, ls = [], []
        for x in v.f:
            a, b = flatten(x)
            sh.append(a)
            ls += b
        return ("s", v.tag, tuple(sh)), ls
    if isinstance(v, V):
        a, b = flatten(v.e)
        return ("v", a), [v.n] + b
    if isinstance(v, E):
        ls = [v.d]
        sh = []
        for k in sorted(v.v):
            ks = []
            for x in v.v[k]:
                a, b = flatten(x)
                ks.append(a)
                ls += b
            sh.append((k, tuple(ks)))
        return ("e", v.tag, tuple(sh)), ls
    if isinstance(v, M):
        sh, ls = [], []
        for k in sorted(v.m):
            p, x = v.m[k]
            a, b = flatten(x)
            sh.append((k, a))
            ls.append(p)
            ls += b
        return ("m", tuple(sh)), ls
    if v is U:
        return ("u",), []
    raise UNDEC("serialisation of %s" % type(v).__name__)


def unflatten(sh, ls):
    """ls: iterator over leaves"""
    k = sh[0]
    if k == "l":
        x = next(ls)
        if isinstance(x, Poly):
            x = leaf(x)
        return x
    if k == "s":
        return S([unflatten(x, ls) for x in sh[2]], sh[1])
    if k == "v":
        n = next(ls)
        return V(n, unflatten(sh[1], ls))
    if k == "e":
        d = next(ls)
        return E(d, {q: tuple(unflatten(x, ls) for x in xs) for q, xs in sh[2]}, sh[1])
    if k == "m":
        m = {}
        for q, x in sh[1]:
            p = next(ls)
            m[q] = (p, unflatten(x, ls))
        return M(m)
    return U


def ser(I, v, ty):
    sh, ls = flatten(v)
    return leaf(term("obj", ("ser", str(ty), sh) + tuple(ls), "o"))


def de(I, st, d, ty, label):
    """Result of decoding the opaque bytes d as ty"""
    if d.atom is not None:
        c = atomdd(d.atom)
        return merge(c, de(I, st, d.hi, ty, label), de(I, st, d.lo, ty, label))
    t = d.leaf
    if t.kind == "obj" and t.args[0] == "ser":
        if t.args[1] == str(ty):
            return ok(unflatten(t.args[2], iter(t.args[3:])))
        return err(leaf(lit("decode-error")))
    good = uf("decodes", [str(ty), t], "b")
    nm = "de<%s>(%s)" % (tyname(ty), show(t))
    tree = fixed_lengths(I.symtree(ty, nm, 0))
    return E(ite(good, D0, D1), {0: (tree,), 1: (leaf(lit("decode-error")),)}, "Result")


def fixed_lengths(v):
    """lists with the fixed length of Kit.narrow"""
    if isinstance(v, S) and "decoded.len" in PIN:
        return S([fixed_lengths(x) for x in v.f], v.tag)
    if isinstance(v, V) and "decoded.len" in PIN and isinstance(v.e, Term):
        return V(num(PIN["decoded.len"]), v.e)
    return v


def decodes(d, ty):
    """the bytes d can be decoded; arguments of a decode event"""
    return uf("decodes", [ty.leaf.args[1], d], "b")


def tyname(ty):
    return ty[1].split("::")[-1] if ty[0] in ("adt", "prim") else str(ty)


# ---------------------------------------------------------------- the table
TABLE = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


class X:
    """one call"""
    __slots__ = ("I", "st", "fr", "cal", "a", "label", "span")

    def __init__(self, I, st, fr, cal, args):
        self.I, self.st, self.fr, self.cal, self.a = I, st, fr, cal, args
        self.label, self.span = cal.label, cal.span

    def s(self, i):
        return scalar(self.I, self.st, self.a[i])

    def v(self, i):
        return val(self.I, self.st, self.a[i])

    def ty(self, i):
        return self.cal.atys[i] if i < len(self.cal.atys) else ("other", "?")

    def req(self, c, what):
        self.I.require(self.st, self.fr, c, what, self.span)

    def fcall(self, f, args, suf="", st=None):
        return call_value(self.I, st or self.st, self.fr, f, args, self.label + suf, self.span)

    def temp(self, v, suf=""):
        c = self.label + "#t" + suf
        self.st.m[c] = v
        return R(c)

    def it(self, i=0):
        x = self.a[i]
        if isinstance(x, R):
            v = self.I.read(self.st, x)
            if isinstance(v, IT):
                x = v
            elif isinstance(v, S) and deref_ty(self.ty(i))[0] == "adt" and "Range" in deref_ty(self.ty(i))[1]:
                return to_it(self.I, self.st, v, deref_ty(self.ty(i)), self.label)
        return to_it(self.I, self.st, x, self.ty(i), self.label)

    def spec(self, i=0):
        return norm_it(self.it(i))

    def fcell(self, i, suf="f"):
        """closure kept in a cell so that it may change its captured state"""
        f = self.a[i]
        if isinstance(f, C):
            return self.temp(f, suf)
        return f

    def result(self, v):
        """a fallible call of the outside world"""
        self.I.result(self.st, self.cal.name, v, self.span)
        return v

    def under(self, c, f, other):
        return branch(self.I, self.st, c, f, other)


SEG = re.compile(r"<[^<>]*>")


def segs(n):
    p = None
    while p != n:
        p = n
        n = SEG.sub("", n)
    n = n.replace("->", "")
    return [x for x in n.split("::") if x]


def call(I, st, fr, cal, args):
    parts = segs(cal.name)
    if not parts:
        parts = ["?"]
    meth = cal.meth or parts[-1]
    own = parts[-2] if len(parts) > 1 else ""
    h = None
    if cal.trait:
        tr = segs(cal.trait)[-1]
        h = TABLE.get(tr + "::" + meth)
        if h is None and cal.fn.get("local"):
            raise UNDEC("unresolved call of " + cal.name)
    if h is None:
        h = TABLE.get(own + "::" + meth)
    if h is None and not (cal.fn.get("local") and cal.key is None and cal.trait):
        h = TABLE.get(meth)
    if h is None:
        if "f32" in cal.name or "f64" in cal.name:
            ds = [scalar(I, st, x) for x in args]
            if cal.dty[0] == "prim" and cal.dty[1] in ("f32", "f64", "bool"):
                return uf(meth, ds, "b" if cal.dty[1] == "bool" else "f")
        raise UNDEC("no model of " + cal.name)
    I.used.add(cal.name)
    return h(X(I, st, fr, cal, args))


# ---- closures
@model("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def _callf(x):
    a = x.a[1]
    return x.fcall(x.a[0], list(a.f) if isinstance(a, S) else [a])


# ---- vectors and slices
@model("Vec::new", "Vec::with_capacity")
def _vecnew(x):
    t = x.cal.dty
    et = t[2][0] if t[0] == "adt" and t[2] else (x.cal.targs[0] if x.cal.targs else ("other", "?"))
    if et == ("prim", "u8"):
        return leaf(lit("bytes", ""))
    return V(D0, x.I.symtree(et, "uninit:" + x.label, 1))


@model("Box::new_uninit")
def _new_uninit(x):
    """the room of a vec![..] literal, written through the box and taken by box_assume_init_into_vec_unsafe"""
    c = "room:" + x.label
    x.st.m[c] = U
    return R(c)


@model("box_assume_init_into_vec_unsafe")
def _literal_vec(x):
    v = x.v(0)
    return x.I.get(v, (1, 0)) if isinstance(v, S) else v


@model("from_elem")
def _from_elem(x):
    return V(simp(scalar(x.I, x.st, x.a[1])), lift_ty(x.a[0], x.ty(0)))


@model("into_vec", "to_vec", "into_boxed_slice", "to_owned", "clone", "cloned_box",
       "ToOwned::to_owned", "Clone::clone", "into_string", "to_string", "ToString::to_string", "as_str", "String::from",
       "as_bytes", "to_path_buf", "Borrow::borrow", "black_box", "identity", "as_slice_copy")
def _copy(x):
    return x.v(0)


@model("Clone::clone_from", "clone_from", "clone_into")
def _clone_from(x):
    x.I.write(x.st, x.a[0], x.v(1))
    return UNIT


@model("Deref::deref", "DerefMut::deref_mut", "as_slice", "as_mut_slice", "AsRef::as_ref", "AsMut::as_mut",
       "BorrowMut::borrow_mut", "as_mut_str", "Box::as_ref", "Box::as_mut", "leak", "by_ref", "as_deref_box")
def _same(x):
    v = x.a[0]
    if isinstance(v, R):
        w = x.I.read(x.st, v)
        if isinstance(w, R) and x.cal.trait and segs(x.cal.trait)[-1] in ("Deref", "DerefMut"):
            return w
        if isinstance(w, E) and x.cal.meth in ("as_ref", "as_mut"):
            return _as_ref(x)
    return v


@model("len")
def _len(x):
    v = x.a[0]
    if isinstance(v, IT):
        return simp(sub(slen(v.spec), v.pos))
    w = val(x.I, x.st, v)
    if isinstance(w, IT):
        return simp(sub(slen(w.spec), w.pos))
    if isinstance(w, S):
        return slen(x.spec())
    if isinstance(w, DD):
        return uf("strlen", [w], "i")
    if isinstance(w, M):
        n = D0
        for p, _ in w.m.values():
            n = add(n, ite(p, D1, D0))
        return n
    return x.I.length(x.st, v)


@model("is_empty")
def _is_empty(x):
    w = x.v(0)
    if isinstance(w, S):
        return simp(cmp("Eq", slen(x.spec()), D0, True))
    return simp(cmp("Eq", _len(x), D0, True))


@model("capacity")
def _cap(x):
    raise UNDEC("capacity")


@model("reserve", "shrink_to_fit", "reserve_exact", "drop", "forget", "spin_loop")
def _unit(x):
    return UNIT


def push(I, st, ref, v):
    o = I.read(st, ref)
    if not isinstance(o, V):
        raise UNDEC("push onto %s" % type(o).__name__)
    e = store(o.e, o.n, v, fake_old(o.e, o.n, v))
    I.write(st, ref, V(simp(add(o.n, D1)), e))


def fake_old(e, n, v):
    try:
        return index(e, n)
    except UNDEC:
        raise


@model("push")
def _push(x):
    push(x.I, x.st, x.a[0], x.a[1])
    return UNIT


@model("pop")
def _pop(x):
    o = x.I.read(x.st, x.a[0])
    c = simp(cmp("Ge", o.n, D1, True))
    n2 = simp(sub(o.n, D1))
    with assume(c):
        v = index(o.e, n2)
    x.I.write(x.st, x.a[0], V(simp(ite(c, n2, o.n)), o.e))
    return opt(c, v)


@model("clear")
def _clear(x):
    o = x.I.read(x.st, x.a[0])
    if isinstance(o, M):
        x.I.write(x.st, x.a[0], M({k: (FALSE, v) for k, (p, v) in o.m.items()}))
    elif isinstance(o, DD):
        x.I.write(x.st, x.a[0], leaf(lit("str", "")))
    else:
        x.I.write(x.st, x.a[0], V(D0, o.e))
    return UNIT


@model("truncate")
def _trunc(x):
    o = x.I.read(x.st, x.a[0])
    x.I.write(x.st, x.a[0], V(simp(imin(o.n, x.s(1))), o.e))
    return UNIT


@model("resize")
def _resize(x):
    o = x.I.read(x.st, x.a[0])
    n = simp(x.s(1))
    if o.n is D0:
        x.I.write(x.st, x.a[0], V(n, lift_ty(x.a[2], x.ty(2))))
        return UNIT
    ref = x.a[0]
    old = o.n
    b = x.label

    def step(s, i):
        x.I.write(s, x.I.elem(ref, simp(add(old, i))), x.a[2])
    x.I.write(x.st, ref, V(simp(n), o.e))
    vloop(x.I, x.st, simp(imax(sub(n, old), D0)), b, step)
    return UNIT


@model("Extend::extend", "extend_from_slice", "append_slice", "extend")
def _extend(x):
    ref = x.a[0]
    v = val(x.I, x.st, ref)
    if not isinstance(v, V):
        raise UNDEC("extend of %s" % type(v).__name__)
    sp = x.spec(1)

    def k(s, it):
        push(x.I, s, ref, val1(x.I, s, it) if isinstance(it, R) else it)
    drive(x.I, x.st, x.fr, IT(sp, D0), x.label, k)
    return UNIT


@model("Vec::append")
def _append(x):
    o = x.v(1)
    ref = x.a[0]
    vloop(x.I, x.st, o.n, x.label, lambda s, i: push(x.I, s, ref, index(o.e, i)))
    x.I.write(x.st, x.a[1], V(D0, o.e))
    return UNIT


@model("insert")
def _insert(x):
    m = x.v(0)
    if isinstance(m, M):
        k = mapkey(x, 1)
        old = m.m.get(k, (FALSE, U))
        mm = dict(m.m)
        mm[k] = (TRUE, x.a[2])
        x.I.write(x.st, x.a[0], M(mm))
        return opt(old[0], old[1])
    if isinstance(m, E) and m.tag == "Option":
        x.I.write(x.st, x.a[0], some(x.a[1]))
        return R(x.a[0].c, x.a[0].p + (("v", 1), 0))
    if isinstance(m, V):
        i = simp(x.s(1))
        x.req(cmp("Le", i, m.n, True), "insertion index out of bounds")
        x.I.write(x.st, x.a[0], V(simp(add(m.n, D1)), m.e))
        moved(x, simp(sub(m.n, i)), lambda j: add(add(i, D1), j), lambda j: add(i, j), m)
        x.I.write(x.st, x.I.elem(x.a[0], i), x.a[2])
        return UNIT
    raise UNDEC("insert into %s" % type(m).__name__)


def moved(x, n, to, frm, old):
    """element to(j) becomes the old element frm(j), for j < n"""
    ref = x.a[0]
    vloop(x.I, x.st, n, x.label, lambda s, j: x.I.write(s, x.I.elem(ref, simp(to(j))), index(old.e, simp(frm(j)))))


@model("Vec::remove")
def _vremove(x):
    m, i = x.v(0), simp(x.s(1))
    x.req(cmp("Lt", i, m.n, True), "removal index out of bounds")
    v = index(m.e, i)
    moved(x, simp(sub(sub(m.n, D1), i)), lambda j: add(i, j), lambda j: add(add(i, D1), j), m)
    o = x.v(0)
    x.I.write(x.st, x.a[0], V(simp(sub(m.n, D1)), o.e))
    return v


@model("Vec::swap_remove")
def _swap_remove(x):
    m, i = x.v(0), simp(x.s(1))
    x.req(cmp("Lt", i, m.n, True), "removal index out of bounds")
    n = simp(sub(m.n, D1))
    v, last = index(m.e, i), index(m.e, n)
    x.I.write(x.st, x.I.elem(x.a[0], i), last)
    o = x.v(0)
    x.I.write(x.st, x.a[0], V(n, o.e))
    return v


@model("Vec::split_off")
def _split_off(x):
    m, i = x.v(0), simp(x.s(1))
    x.req(cmp("Le", i, m.n, True), "split out of bounds")
    x.I.write(x.st, x.a[0], V(i, m.e))
    return V(simp(sub(m.n, i)), shift(m.e, i))


@model("reverse")
def _reverse(x):
    n = x.I.length(x.st, x.a[0])
    ref = x.a[0]
    old = {}

    def step(s, j):
        x.I.write(s, x.I.elem(ref, j), read_at(x.I, old["st"], ref, simp(sub(sub(n, D1), j))))
    old["st"] = x.st.copy(x.st.g)
    vloop(x.I, x.st, n, x.label, step)
    return UNIT


def read_at(I, st, ref, i):
    return I.read(st, I.elem(ref, i))


def mapkey(x, i):
    return constkey(x.v(i))


def constkey(k):
    if isinstance(k, E):
        d = simp(k.d)
        if d.atom is None and isinstance(d.leaf, Poly) and d.leaf.const is not None:
            return int(d.leaf.const)
    if isinstance(k, E) and k.d.atom is None and isinstance(k.d.leaf, Poly) and k.d.leaf.const is not None:
        return int(k.d.leaf.const)
    if isinstance(k, DD) and k.atom is None and isinstance(k.leaf, Term) and k.leaf.kind == "lit":
        return str(k.leaf.args)
    raise UNDEC("map key is not constant")


@model("HashMap::new", "BTreeMap::new", "HashMap::with_capacity")
def _mapnew(x):
    return M({})


def fixed_map(x, sp):
    """map made of a sequence of pairs of known length"""
    n = slen(sp) if random_access(sp) else None
    n = simp(n) if n is not None else None
    if n is None or n.atom is not None or n.leaf.const is None:
        raise UNDEC("map of a sequence of unknown length")
    mm = {}
    for i in range(int(n.leaf.const)):
        y = item(x.I, x.st, x.fr, sp, num(i), x.label + "~e%d" % i)
        if isinstance(y, R):
            y = x.I.read(x.st, y)
        mm[constkey(val(x.I, x.st, y.f[0]))] = (TRUE, y.f[1])
    return M(mm)


@model("contains_key")
def _has(x):
    m = x.v(0)
    return m.m.get(mapkey(x, 1), (FALSE, U))[0]


@model("HashMap::get", "BTreeMap::get", "HashMap::remove", "HashMap::get_mut")
def _mapget(x):
    m = x.v(0)
    k = mapkey(x, 1)
    p, v = m.m.get(k, (FALSE, U))
    meth = segs(x.cal.name)[-1]
    if meth == "remove":
        mm = dict(m.m)
        mm[k] = (FALSE, v)
        x.I.write(x.st, x.a[0], M(mm))
        return opt(p, v)
    if meth == "get_mut":
        raise UNDEC("mutable map access")
    return opt(p, x.temp(v))


@model("get", "get_mut")
def _get(x):
    m = x.v(0)
    if isinstance(m, M):
        return _mapget(x)
    i = x.a[1]
    n = x.I.length(x.st, x.a[0])
    if isinstance(i, DD):
        c = simp(cmp("Lt", i, n, True))
        with assume(c):
            e = x.I.elem(x.a[0], i)
        return opt(c, e)
    a, b = range_of(x, i, x.ty(1), n)
    c = simp(b_and(cmp("Le", a, b, True), cmp("Le", b, n, True)))
    with assume(c):
        w = x.I.window(x.a[0], a, simp(sub(b, a)))
    return opt(c, w)


def range_of(x, r, ty, n):
    t = ty[1].split("::")[-1] if ty[0] == "adt" else "Range"
    if isinstance(r, IT) and r.spec[0] == "range":
        return r.spec[1], add(r.spec[1], r.spec[2])
    if t == "Range":
        return r.f[0], r.f[1]
    if t == "RangeFrom":
        return r.f[0], n
    if t == "RangeTo":
        return D0, r.f[0]
    if t == "RangeToInclusive":
        return D0, add(r.f[0], D1)
    if t == "RangeFull":
        return D0, n
    raise UNDEC("index by " + t)


@model("Index::index", "IndexMut::index_mut")
def _index(x):
    m = x.v(0)
    if isinstance(m, M):
        p, v = m.m.get(mapkey(x, 1), (FALSE, U))
        x.req(p, "missing key")
        return x.temp(v)
    i = x.a[1]
    n = x.I.length(x.st, x.a[0])
    if isinstance(i, DD):
        i = simp(i)
        x.req(cmp("Lt", i, n, True), "index out of bounds")
        return x.I.elem(x.a[0], i)
    a, b = range_of(x, i, x.ty(1), n)
    x.req(b_and(cmp("Le", a, b, True), cmp("Le", b, n, True)), "slice out of bounds")
    return x.I.window(x.a[0], a, simp(sub(b, a)))


@model("first", "first_mut")
def _first(x):
    n = x.I.length(x.st, x.a[0])
    c = simp(cmp("Ge", n, D1, True))
    return opt(c, x.I.elem(x.a[0], D0))


@model("last", "last_mut")
def _last(x):
    if isinstance(x.a[0], IT):
        raise UNDEC("last of an iterator")
    n = x.I.length(x.st, x.a[0])
    c = simp(cmp("Ge", n, D1, True))
    with assume(c):
        r = x.I.elem(x.a[0], simp(sub(n, D1)))
    return opt(c, r)


@model("split_at", "split_at_mut")
def _split(x):
    n = x.I.length(x.st, x.a[0])
    k = simp(x.s(1))
    x.req(cmp("Le", k, n, True), "split out of bounds")
    return S([x.I.window(x.a[0], D0, k), x.I.window(x.a[0], k, simp(sub(n, k)))])


@model("split_first", "split_first_mut", "split_last", "split_last_mut")
def _splitf(x):
    n = x.I.length(x.st, x.a[0])
    c = simp(cmp("Ge", n, D1, True))
    with assume(c):
        if "first" in x.cal.name:
            r = S([x.I.elem(x.a[0], D0), x.I.window(x.a[0], D1, simp(sub(n, D1)))])
        else:
            r = S([x.I.elem(x.a[0], simp(sub(n, D1))), x.I.window(x.a[0], D0, simp(sub(n, D1)))])
    return opt(c, r)


@model("iter", "iter_mut")
def _iter(x):
    v = x.v(0)
    if isinstance(v, E):
        p = _as_ref(x)
        return to_it(x.I, x.st, p, x.ty(0), x.label)
    return IT(("slice", x.a[0], x.I.length(x.st, x.a[0])), D0)


@model("IntoIterator::into_iter")
def _into_iter(x):
    v = x.a[0]
    if isinstance(v, IT) or (isinstance(v, S) and x.ty(0)[0] == "adt" and x.ty(0)[1].endswith("Range")):
        return v
    if isinstance(v, R):
        w = x.I.read(x.st, v)
        if isinstance(w, IT) or (isinstance(w, S) and "Range" in str(deref_ty(x.ty(0)))):
            return v
        if isinstance(w, M):
            raise UNDEC("map iteration")
    return to_it(x.I, x.st, v, x.ty(0), x.label)


@model("drain")
def _drain(x):
    o = x.v(0)
    a, b = range_of(x, x.a[1], x.ty(1), o.n)
    if a is not D0 or simp(b) is not simp(o.n):
        raise UNDEC("partial drain")
    x.I.write(x.st, x.a[0], V(D0, o.e))
    return IT(("owned", o.e, o.n), D0)


@model("swap")
def _swap(x):
    if len(x.a) == 2:                     # mem::swap
        a, b = x.I.read(x.st, x.a[0]), x.I.read(x.st, x.a[1])
        x.I.write(x.st, x.a[0], b)
        x.I.write(x.st, x.a[1], a)
        return UNIT
    n = x.I.length(x.st, x.a[0])
    i, j = x.s(1), x.s(2)
    x.req(b_and(cmp("Lt", i, n, True), cmp("Lt", j, n, True)), "index out of bounds")
    p, q = x.I.elem(x.a[0], i), x.I.elem(x.a[0], j)
    a, b = x.I.read(x.st, p), x.I.read(x.st, q)
    x.I.write(x.st, p, b)
    x.I.write(x.st, q, a)
    return UNIT


@model("fill")
def _fill(x):
    ref = x.a[0]
    n = x.I.length(x.st, ref)
    vloop(x.I, x.st, n, x.label, lambda s, i: x.I.write(s, x.I.elem(ref, i), x.a[1]))
    return UNIT


@model("copy_from_slice", "clone_from_slice")
def _cfs(x):
    ref, src = x.a[0], x.a[1]
    n, m = x.I.length(x.st, ref), x.I.length(x.st, src)
    x.req(cmp("Eq", n, m, True), "slice lengths differ")
    if not isinstance(src, R) or not isinstance(ref, R) or src.c == ref.c and False:
        raise UNDEC("slice copy")

    def step(s, i):
        x.I.write(s, x.I.elem(ref, i), x.I.read(s, x.I.elem(src, i)))
    vloop(x.I, x.st, n, x.label, step)
    return UNIT


def _sz(x):
    s = simp(x.s(1))
    x.req(cmp("Ge", s, D1, True), "chunk size is zero")
    return s


@model("chunks", "chunks_mut")
def _chunks(x):
    n = x.I.length(x.st, x.a[0])
    s = _sz(x)
    return IT(("chunks", x.a[0], simp(idiv(add(n, sub(s, D1)), s)), s, n), D0)


@model("chunks_exact", "chunks_exact_mut")
def _chunkse(x):
    n = x.I.length(x.st, x.a[0])
    s = _sz(x)
    k = simp(idiv(n, s))
    return IT(("chunks", x.a[0], k, s, simp(mul(k, s))), D0)


@model("windows")
def _windows(x):
    n = x.I.length(x.st, x.a[0])
    s = _sz(x)
    return IT(("windows", x.a[0], simp(imax(sub(add(n, D1), s), D0)), s), D0)


# ---- opaque text and bytes
def text_model(n):
    def go(x):
        v = x.v(0)
        if not isinstance(v, DD):
            raise UNDEC(n + " of a " + type(v).__name__)
        return uf(n, [v], "o")
    return go


for _n in ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase",
           "from_utf8_lossy"):
    TABLE[_n] = text_model(_n)


@model("String::from_utf8", "from_utf8")
def _utf8(x):
    v = x.v(0)
    if isinstance(v, V) and isinstance(v.e, DD):
        raise UNDEC("text of known bytes")
    if not isinstance(v, DD):
        raise UNDEC("text of a " + type(v).__name__)
    return E(ite(uf("utf8", [v], "b"), D0, D1), {0: (uf("text", [v], "o", taint=True),), 1: (leaf(lit("decode-error")),)}, "Result")


def bytes_model(x, name):
    v = x.v(0)
    n = simp(v.n).leaf if isinstance(v, V) and simp(v.n).atom is None else None
    if not isinstance(n, Poly) or n.const is None:
        raise UNDEC("bytes of a number")
    return uf(name, [index(v.e, num(q)) for q in range(int(n.const))], "i", taint=True)


TABLE["from_le_bytes"] = TABLE["from_ne_bytes"] = lambda x: bytes_model(x, "little endian")
TABLE["from_be_bytes"] = lambda x: bytes_model(x, "big endian")


@model("contains")
def _contains(x):
    r = x.v(0)
    if isinstance(r, S) and len(r.f) == 2:
        i = x.s(1)
        return b_and(cmp("Ge", i, r.f[0], True), cmp("Lt", i, r.f[1], True))
    if isinstance(r, IT) and r.spec[0] == "range":
        i = x.s(1)
        return b_and(cmp("Ge", i, r.spec[1], True), cmp("Lt", i, add(r.spec[1], r.spec[2]), True))
    if isinstance(r, V):
        m = binder("m")
        q = veq(x.I, x.st, index(r.e, leaf(patom(m))), x.a[1])
        return mk_any(((m, r.n),), q)
    raise UNDEC("contains")


@model("RangeInclusive::new")
def _rinc(x):
    a, b = x.s(0), x.s(1)
    return IT(("range", a, simp(imax(sub(add(b, D1), a), D0))), D0)


# ---- iterator adaptors
@model("Iterator::next")
def _next(x):
    ref = x.a[0]
    v = x.I.read(x.st, ref)
    while isinstance(v, R):
        ref = v
        v = x.I.read(x.st, ref)
    if isinstance(v, S):
        a, b = v.f[0], v.f[1]
        c = simp(cmp("Lt", a, b, True))
        if len(atoms_of(c)) > 1:
            c = tidy(c, EMPTY)
        x.I.write(x.st, ref, S([simp(ite(c, add(a, D1), a)), b], v.tag))
        return opt(c, a)
    if not isinstance(v, IT):
        raise UNDEC("next of %s" % type(v).__name__)
    if not random_access(v.spec):
        raise UNDEC("external iteration over " + v.spec[0])
    n = slen(v.spec)
    if n is None:
        x.I.write(x.st, ref, IT(v.spec, add(v.pos, D1)))
        return some(item(x.I, x.st, x.fr, v.spec, v.pos, x.label))
    c = simp(cmp("Lt", v.pos, n, True))

    def hit(s):
        s.m_set = None
        return None
    if c is FALSE:
        return NONE
    pos = v.pos

    def some_(s):
        r = item(x.I, s, x.fr, v.spec, pos, x.label)
        x.I.write(s, ref, IT(v.spec, add(pos, D1)))
        return r
    if pure(v.spec):
        with assume(c):
            r = item(x.I, x.st, x.fr, v.spec, pos, x.label)
        x.I.write(x.st, ref, IT(v.spec, simp(ite(c, add(pos, D1), pos))))
        return opt(c, r)
    r = branch(x.I, x.st, c, lambda s: some(some_(s)), lambda s: NONE)
    return r


def next_in_loop(I, st, fr, ref, label, dest, target, header):
    """`for x in it` where it leaves elements out (filter, take_while, ...): the loop goes through all elements of the
    sequence below, and an element that is left out leads straight to the next turn.  None: not such an iterator"""
    v = I.read(st, ref)
    while isinstance(v, R):
        ref = v
        v = I.read(st, ref)
    if not isinstance(v, IT) or v.spec[0] not in ("filter", "filter_map", "take_while", "map", "copied", "inspect") or \
            random_access(v.spec):
        return None
    n = slen(v.spec)
    if n is None:
        return None
    c = simp(cmp("Lt", v.pos, n, True))
    out = []

    def end(s):
        if s.g is not FALSE:
            I.write(s, ref, IT(v.spec, n))
            I.write(s, dest, NONE)
            out.append((target, s))
    end(st.copy(b_and(st.g, b_not(c))))
    s = st.copy(b_and(st.g, c))
    if s.g is FALSE:
        return out

    def k(s2, x):
        s3 = s2.copy()
        I.write(s3, dest, some(x))
        out.append((target, s3))
        s2.g = FALSE
        return FALSE
    m = CTX.push(literals(s.g))
    try:
        I.write(s, ref, IT(v.spec, simp(add(v.pos, D1))))
        brk = simp(visit(I, s, fr, v.spec, v.pos, label, k) or FALSE)
        if s.g is not FALSE:
            end(s.copy(b_and(s.g, brk)))
            g = b_and(s.g, b_not(brk))
            if g is not FALSE:
                out.append((header, s.copy(g)))
    finally:
        CTX.pop(m)
    return out


def pure(sp):
    if sp[0] in ("map", "filter", "chain", "inspect"):
        return False
    return all(pure(y) for y in sp[1:] if isinstance(y, tuple) and y and isinstance(y[0], str))


@model("Iterator::zip", "zip")
def _zip(x):
    return IT(("zip", x.spec(0), x.spec(1)), D0)


@model("Iterator::enumerate")
def _enum(x):
    return IT(("enum", x.spec(0), D0), D0)


@model("Iterator::rev")
def _rev(x):
    return IT(("rev", x.spec(0)), D0)


@model("Iterator::copied", "Iterator::cloned")
def _copied(x):
    return IT(("copied", x.spec(0)), D0)


@model("Iterator::skip")
def _skip(x):
    return IT(("skip", x.spec(0), simp(x.s(1))), D0)


@model("Iterator::take")
def _take(x):
    return IT(("take", x.spec(0), simp(x.s(1))), D0)


@model("Iterator::step_by")
def _step(x):
    s = simp(x.s(1))
    x.req(cmp("Ge", s, D1, True), "step of zero")
    return IT(("step", x.spec(0), s), D0)


@model("Iterator::chain")
def _chain(x):
    return IT(("chain", x.spec(0), x.spec(1)), D0)


@model("iter::once", "once")
def _once(x):
    return IT(("repeatn", x.a[0], D1), D0)


@model("Iterator::by_ref")
def _byref(x):
    return x.a[0]


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::take_while", "Iterator::inspect")
def _itmap(x):
    return IT((x.cal.meth, x.spec(0), x.fcell(1)), D0)


@model("Iterator::flat_map")
def _itflat(x):
    sp, f = x.spec(0), x.fcell(1)
    if not random_access(sp):
        raise UNDEC("flat_map over a sequence without random access")
    q = binder("m")
    st = x.st.copy()
    Q = leaf(patom(q))
    with assume(cmp("Lt", Q, slen(sp), True)):
        n = slen(inner(x.I, st, x.fr, ("flat", sp, f, None), Q, x.label))
    if n is None or q.id in n.fv:
        raise UNDEC("flat_map to sequences of different lengths")
    return IT(("flat", sp, f, n), D0)


@model("repeat")
def _repeat(x):
    if x.cal.fn.get("trait"):
        raise UNDEC("repeat")
    return IT(("repeat", x.a[0]), D0)


@model("repeat_n")
def _repeatn(x):
    return IT(("repeatn", x.a[0], x.s(1)), D0)


def acc_loop(x, init, step, idx=0, it=None):
    cell = x.label + "#acc"
    x.st.m[cell] = init

    def k(s, it):
        s.m[cell], brk = step(s, s.m[cell], it)
        return brk
    it = it or x.it(idx)
    if idx == 0:
        consumed(x)
    drive(x.I, x.st, x.fr, it, x.label, k)
    return x.st.m.pop(cell, U)


@model("Iterator::fold")
def _fold(x):
    f = x.fcell(2)
    return acc_loop(x, x.a[1], lambda s, a, it: (call_value(x.I, s, x.fr, f, [a, it], x.label + "~fold", x.span), FALSE))


@model("Iterator::sum")
def _sum(x):
    return acc_loop(x, D0, lambda s, a, it: (add(a, scalar(x.I, s, it)), FALSE))


@model("Iterator::product")
def _product(x):
    return acc_loop(x, D1, lambda s, a, it: (mul(a, scalar(x.I, s, it)), FALSE))


@model("Iterator::count")
def _count(x):
    sp = x.spec(0)
    if random_access(sp):
        return slen(sp)
    return acc_loop(x, D0, lambda s, a, it: (add(a, D1), FALSE))


@model("ExactSizeIterator::len")
def _exlen(x):
    return slen(x.spec(0))


@model("Iterator::for_each")
def _for_each(x):
    f = x.fcell(1)

    def k(s, it):
        call_value(x.I, s, x.fr, f, [it], x.label + "~each", x.span)
    drive(x.I, x.st, x.fr, x.it(0), x.label, k)
    return UNIT


@model("Iterator::try_for_each", "Iterator::try_fold")
def _try_each(x):
    fold = x.cal.meth == "try_fold"
    f = x.fcell(2 if fold else 1)
    wrap = some if x.cal.dty[1].endswith("Option") else ok
    if x.cal.dty[1].split("::")[-1] not in ("Option", "Result"):
        raise UNDEC(x.cal.meth + " of " + tyname(x.cal.dty))
    cell = x.label + "#acc"
    x.st.m[cell] = wrap(x.a[1] if fold else UNIT)

    def k(s, it):
        args = ([payload(s.m[cell], good(s.m[cell]))] if fold else []) + [it]
        r = call_value(x.I, s, x.fr, f, args, x.label + "~each", x.span)

        def go(v, stop):
            def g(s2):
                s2.m[cell] = v
                return stop
            return g
        n = good(r)
        return brk_branch(x.I, s, is_(r, n), go(wrap(payload(r, n) if fold else UNIT), FALSE),
                          go(NONE if n else err(payload(r, 1)), TRUE))
    it = x.it(0)
    consumed(x)
    drive(x.I, x.st, x.fr, it, x.label, k)
    return x.st.m.pop(cell, U)


def consumed(x):
    """the position of an iterator used through a reference is not known afterwards"""
    if isinstance(x.a[0], R) and isinstance(x.I.read(x.st, x.a[0]), IT):
        x.I.write(x.st, x.a[0], IT(("consumed",), D0))


def each(x, f, label):
    """what a closure without effects says about element m of a sequence: ((m, n), condition)"""
    sp = x.spec(0)
    if not (random_access(sp) and pure(sp)):
        return None
    n = slen(sp)
    if n is None or M_.few(n) and not PIN:
        return None
    consumed(x)
    m = binder("m")
    Q = leaf(patom(m))
    s = x.st.copy(b_and(x.st.g, cmp("Lt", Q, n, True)))
    before, events, panics = dict(s.m), len(x.I.events), len(x.I.panics)
    k = CTX.push(literals(s.g))
    try:
        c = call_value(x.I, s, x.fr, f, [item(x.I, s, x.fr, sp, Q, x.label)], label, x.span)
    finally:
        CTX.pop(k)
    quiet = len(x.I.events) == events and len(x.I.panics) == panics and \
        all(s.m.get(q) is v for q, v in before.items())
    if not quiet:
        del x.I.events[events:]
        del x.I.panics[panics:]
        return None
    return (m, n), simp(c)


@model("Iterator::any")
def _any(x):
    f = x.fcell(1)
    e = each(x, f, x.label + "~any")
    if e is not None:
        return mk_any((e[0],), e[1])

    def step(s, a, it):
        c = call_value(x.I, s, x.fr, f, [it], x.label + "~any", x.span)
        return b_or(a, c), c
    return acc_loop(x, FALSE, step)


@model("Iterator::all")
def _all(x):
    f = x.fcell(1)
    e = each(x, f, x.label + "~all")
    if e is not None:
        return b_not(mk_any((e[0],), b_not(e[1])))

    def step(s, a, it):
        c = call_value(x.I, s, x.fr, f, [it], x.label + "~all", x.span)
        return b_and(a, c), b_not(c)
    return acc_loop(x, TRUE, step)


@model("Iterator::eq", "Iterator::ne")
def _iteq(x):
    a, b = x.spec(0), x.spec(1)
    if not (random_access(a) and random_access(b)):
        raise UNDEC("iterator comparison")
    n, m = slen(a), slen(b)
    q = binder("m")
    Q = leaf(patom(q))
    r = cmp("Eq", n, m, True)
    with assume(r, cmp("Lt", Q, n, True)):
        e = veq(x.I, x.st, item(x.I, x.st, x.fr, a, Q, x.label + "a"), item(x.I, x.st, x.fr, b, Q, x.label + "b"))
    r = b_and(r, b_not(mk_any(((q, n),), b_not(e))))
    return r if x.cal.meth == "eq" else b_not(r)


@model("Iterator::collect", "from_iter", "FromIterator::from_iter")
def _collect(x):
    t = x.cal.dty
    if t[0] == "adt" and t[1].endswith("Map"):
        return fixed_map(x, x.spec(0))
    if t[0] != "adt" or not t[1].endswith("Vec"):
        raise UNDEC("collect into %s" % (t,))
    cell = x.label + "#vec"
    x.st.m[cell] = V(D0, x.I.symtree(t[2][0], "uninit:" + x.label, 1))
    drive(x.I, x.st, x.fr, x.it(0), x.label, lambda s, it: push(x.I, s, R(cell), it))
    return x.st.m.pop(cell, U)


@model("Iterator::max", "Iterator::min")
def _itmax(x):
    sp = x.spec(0)
    if not random_access(sp):
        raise UNDEC("extremum of a filtered sequence")
    n = slen(sp)
    c = simp(cmp("Ge", n, D1, True))
    with assume(c):
        first = scalar(x.I, x.st, item(x.I, x.st, x.fr, sp, D0, x.label))
    f = imax if x.cal.meth == "max" else imin
    r = acc_loop(x, first, lambda s, a, it: (f(a, scalar(x.I, s, it)), FALSE))
    return opt(c, r)


@model("Iterator::position", "Iterator::find", "Iterator::find_map")
def _find(x):
    f = x.fcell(1)
    it = x.it(0)
    how = x.cal.meth
    if how == "position":
        it = IT(("enum", norm_it(it), D0), D0)

    def step(s, a, it):
        if how == "position":
            i, v = it.f
        else:
            v = it
        if how == "find":
            c = x.label + "#arg"
            s.m[c] = v
            v = R(c)
        q = call_value(x.I, s, x.fr, f, [v], x.label + "~find", x.span)
        if how == "find_map":
            c = is_(q, 1)
            return merge(c, q, a), c
        return merge(q, some(i if how == "position" else it), a), q
    return acc_loop(x, NONE, step, it=it)


@model("Iterator::skip_while")
def _skip_while(x):
    """the elements from the first one on that the condition does not hold for (looked for right away: nothing can
    change them before the first one has been handed out)"""
    f = x.fcell(1)
    sp = norm_it(x.it(0))
    n = slen(sp)
    if n is None or not (random_access(sp) and pure(sp)):
        raise UNDEC("skip_while over such a sequence")

    def step(s, a, it):
        i, v = it.f
        c = x.label + "#arg"
        s.m[c] = v
        q = b_not(call_value(x.I, s, x.fr, f, [R(c)], x.label + "~skip", x.span))
        return merge(q, some(i), a), q
    o = acc_loop(x, NONE, step, it=IT(("enum", sp, D0), D0))
    return IT(("skip", sp, simp(ite(is_(o, 1), payload(o, 1), n))), D0)


@model("Iterator::last")
def _itlast(x):
    sp = x.spec(0)
    if not (random_access(sp) and pure(sp)):
        raise UNDEC("last of a filtered sequence")
    n = slen(sp)
    c = simp(cmp("Ge", n, D1, True))
    with assume(c):
        r = item(x.I, x.st, x.fr, sp, simp(sub(n, D1)), x.label)
    return opt(c, r)


@model("Iterator::nth")
def _nth(x):
    ref = x.a[0]
    v = x.I.read(x.st, ref)
    while isinstance(v, R):
        ref = v
        v = x.I.read(x.st, ref)
    if not isinstance(v, IT):
        raise UNDEC("nth of %s" % type(v).__name__)
    if not (random_access(v.spec) and pure(v.spec)):
        raise UNDEC("nth of a filtered sequence")
    n = slen(v.spec)
    i = simp(add(v.pos, x.s(1)))
    c = TRUE if n is None else simp(cmp("Lt", i, n, True))
    with assume(c):
        r = item(x.I, x.st, x.fr, v.spec, i, x.label)
    x.I.write(x.st, ref, IT(v.spec, simp(ite(c, add(i, D1), n))))
    return opt(c, r)


@model("Iterator::unzip")
def _unzip(x):
    t = x.cal.dty
    if t[0] != "tuple" or not all(q[0] == "adt" and q[1].endswith("Vec") for q in t[1]):
        raise UNDEC("unzip into %s" % (t,))
    cells = [x.label + "#vec%d" % i for i in range(2)]
    for c, q in zip(cells, t[1]):
        x.st.m[c] = V(D0, x.I.symtree(q[2][0], "uninit:" + c, 1))

    def k(s, it):
        for c, y in zip(cells, it.f):
            push(x.I, s, R(c), y)
    drive(x.I, x.st, x.fr, x.it(0), x.label, k)
    return S([x.st.m.pop(c, U) for c in cells])


# ---- Option and Result
def kind_of(v):
    v = first_of(v) if isinstance(v, G) else v
    return v.tag if isinstance(v, E) else None


def good(v):
    """variant index of the success case"""
    k = kind_of(v)
    return 1 if k == "Option" else 0


@model("unwrap", "expect")
def _unwrap(x):
    v = x.v(0) if isinstance(x.a[0], R) else x.a[0]
    k = good(v)
    x.req(is_(v, k), x.cal.name.split("::")[-1] + " of an absent value")
    return payload(v, k)


@model("unwrap_err", "expect_err")
def _unwrap_err(x):
    v = x.a[0]
    x.req(is_(v, 1), "unwrap_err of Ok")
    return payload(v, 1)


@model("unwrap_or")
def _unwrap_or(x):
    v = x.a[0]
    k = good(v)
    return merge(is_(v, k), payload(v, k), x.a[1])


@model("unwrap_or_else")
def _unwrap_or_else(x):
    v = x.a[0]
    k = good(v)
    a = [] if kind_of(v) == "Option" else [payload(v, 1)]
    return x.under(is_(v, k), lambda s: payload(v, k), lambda s: x.fcall(x.a[1], a, "~uoe", s))


@model("unwrap_or_default")
def _unwrap_or_default(x):
    v = x.a[0]
    k = good(v)
    return merge(is_(v, k), payload(v, k), default(x.I, x.cal.dty, x.label))


@model("is_some")
def _is_some(x):
    return is_(x.v(0), 1)


@model("is_none")
def _is_none(x):
    return is_(x.v(0), 0)


@model("is_ok")
def _is_ok(x):
    return is_(x.v(0), 0)


@model("is_err")
def _is_err(x):
    return is_(x.v(0), 1)


@model("is_some_and", "is_ok_and", "is_none_or")
def _is_and(x):
    v = x.v(0)
    k = good(v)
    dflt = TRUE if "none_or" in x.cal.name else FALSE
    return x.under(is_(v, k), lambda s: x.fcall(x.a[1], [payload(v, k)], "~isand", s), lambda s: dflt)


def _as_ref(x):
    r = x.a[0]
    v = x.I.read(x.st, r)
    if isinstance(v, R):
        r = v
        v = x.I.read(x.st, r)
    if not isinstance(v, E):
        return r
    return E(v.d, {k: tuple(R(r.c, r.p + (("v", k), j)) for j in range(len(xs))) for k, xs in v.v.items()}, v.tag)


@model("Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "as_deref", "as_deref_mut")
def _asref(x):
    return _as_ref(x)


@model("Option::copied", "Option::cloned")
def _ocopied(x):
    v = x.a[0]
    c = is_(v, 1)
    p = payload(v, 1)
    if p is U:
        return NONE
    with assume(c):
        r = val1(x.I, x.st, p)
    return opt(c, r)


@model("Option::map", "Result::map", "Option::inspect")
def _omap(x):
    v = x.a[0]
    k = good(v)
    mk = some if k == 1 else ok
    rest = (lambda s: NONE) if k == 1 else (lambda s: err(payload(v, 1)))
    return x.under(is_(v, k), lambda s: mk(x.fcall(x.a[1], [payload(v, k)], "~map", s)), rest)


@model("Result::map_err")
def _maperr(x):
    v = x.a[0]
    return x.under(is_(v, 0), lambda s: ok(payload(v, 0)),
                   lambda s: err(x.fcall(x.a[1], [payload(v, 1)], "~maperr", s)))


@model("Option::and_then", "Result::and_then")
def _andthen(x):
    v = x.a[0]
    k = good(v)
    rest = (lambda s: NONE) if k == 1 else (lambda s: err(payload(v, 1)))
    return x.under(is_(v, k), lambda s: x.fcall(x.a[1], [payload(v, k)], "~then", s), rest)


@model("Option::filter")
def _ofilter(x):
    v = x.a[0]
    p = payload(v, 1)
    r = x.temp(p)
    c = x.under(is_(v, 1), lambda s: x.fcall(x.a[1], [r], "~flt", s), lambda s: FALSE)
    return opt(b_and(is_(v, 1), c), p)


@model("Option::map_or", "Result::map_or")
def _mapor(x):
    v = x.a[0]
    k = good(v)
    return x.under(is_(v, k), lambda s: x.fcall(x.a[2], [payload(v, k)], "~map", s), lambda s: x.a[1])


@model("Option::map_or_else", "Result::map_or_else")
def _mapore(x):
    v = x.a[0]
    k = good(v)
    a = [] if k == 1 else [payload(v, 1)]
    return x.under(is_(v, k), lambda s: x.fcall(x.a[2], [payload(v, k)], "~map", s),
                   lambda s: x.fcall(x.a[1], a, "~else", s))


@model("Option::ok_or")
def _okor(x):
    v = x.a[0]
    c = is_(v, 1)
    return E(ite(c, D0, D1), {0: (payload(v, 1),), 1: (x.a[1],)}, "Result")


@model("Option::ok_or_else")
def _okore(x):
    v = x.a[0]
    return x.under(is_(v, 1), lambda s: ok(payload(v, 1)), lambda s: err(x.fcall(x.a[1], [], "~else", s)))


@model("Result::ok")
def _rok(x):
    v = x.a[0]
    return opt(is_(v, 0), payload(v, 0))


@model("Result::err")
def _rerr(x):
    v = x.a[0]
    return opt(is_(v, 1), payload(v, 1))


@model("Option::or")
def _oor(x):
    return merge(is_(x.a[0], 1), x.a[0], x.a[1])


@model("Option::or_else", "Result::or_else")
def _oore(x):
    v = x.a[0]
    k = good(v)
    a = [] if k == 1 else [payload(v, 1)]
    return x.under(is_(v, k), lambda s: v, lambda s: x.fcall(x.a[1], a, "~else", s))


@model("Result::or")
def _ror(x):
    return merge(is_(x.a[0], 0), x.a[0], x.a[1])


@model("Option::take")
def _otake(x):
    v = x.v(0)
    x.I.write(x.st, x.a[0], NONE)
    return v


@model("then")
def _then(x):
    return x.under(x.s(0), lambda s: some(x.fcall(x.a[1], [], "~then", s)), lambda s: NONE)


@model("then_some")
def _thens(x):
    return opt(x.s(0), x.a[1])


@model("Try::branch")
def _trybranch(x):
    v = x.a[0]
    return try_branch(v)


def try_branch(v):
    if isinstance(v, G):
        return merge(v.c, try_branch(v.a), try_branch(v.b))
    k = good(v)
    c = is_(v, k)
    d = {}
    if k == 1:
        brk = E(D0, {0: ()}, "Option")
    else:
        brk = E(D1, {1: (payload(v, 1),)}, "Result")
    return E(ite(c, D0, D1), {0: (payload(v, k),), 1: (brk,)}, "ControlFlow")


@model("Try::from_output")
def _fromout(x):
    t = x.cal.dty
    return some(x.a[0]) if t[1].endswith("Option") else ok(x.a[0])


@model("FromResidual::from_residual")
def _residual(x):
    v = x.a[0]
    t = x.cal.dty
    if t[0] == "adt" and t[1].endswith("Option"):
        return NONE
    e = payload(v, 1)
    src = x.ty(0)
    st_ = src[2][1] if src[0] == "adt" and len(src[2]) > 1 else None
    dt = t[2][1] if t[0] == "adt" and len(t[2]) > 1 else None
    if st_ is not None and dt is not None and st_ != dt:
        k = x.I.p.impl_method("std::convert::From", "from", dt)
        if k:
            e = x.I.run_fn(x.st, k, [e], {}, x.label + ">from")
        else:
            e = leaf(lit("error-from", tyname(st_)))
    return err(e)


# ---- comparison
def oper(op):
    def f(x):
        a, b = x.v(0), x.v(1)
        t = deref_ty(x.ty(0))
        if isinstance(a, DD) and isinstance(b, DD) and t[0] == "prim":
            return x.I.arith(x.st, x.fr, op, a, b, t, x.span)
        if op in ("Eq", "Ne"):
            r = veq(x.I, x.st, a, b, True if isfloat(x.ty(0)) else None)
            return r if op == "Eq" else b_not(r)
        if isinstance(a, DD) and isinstance(b, DD):
            s = "f32" if "f" in (sort_of(a), sort_of(b)) else "i64"
            return x.I.arith(x.st, x.fr, op, a, b, ("prim", s), x.span)
        raise UNDEC("operator %s on %s" % (op, type(a).__name__))
    return f


for n, o in (("eq", "Eq"), ("ne", "Ne")):
    TABLE["PartialEq::" + n] = oper(o)
for n in ("lt", "le", "gt", "ge"):
    TABLE["PartialOrd::" + n] = oper(n.capitalize())
for n in ("add", "sub", "mul", "div", "rem"):
    TABLE["%s::%s" % (n.capitalize(), n)] = oper(n.capitalize())

    def _assign(x, op=n.capitalize()):
        a, b = x.s(0), x.s(1)
        t = deref_ty(x.ty(0))
        r = x.I.arith(x.st, x.fr, op, a, b, t, x.span)
        ref = x.a[0]
        v = x.I.read(x.st, ref)
        while isinstance(v, R):
            ref = v
            v = x.I.read(x.st, ref)
        x.I.write(x.st, ref, r)
        return UNIT
    TABLE["%sAssign::%s_assign" % (n.capitalize(), n)] = _assign


@model("Neg::neg")
def _neg(x):
    return neg(x.s(0))


@model("Not::not")
def _not(x):
    return b_not(x.s(0))


def mm(x, big):
    a, b = x.s(0), x.s(1)
    t = x.ty(0)
    fl = isfloat(t) or "f32" in x.cal.name or "f64" in x.cal.name or "f" in (sort_of(a), sort_of(b))
    if fl:
        return fmax(a, b) if big else fmin(a, b)
    return simp(imax(a, b) if big else imin(a, b))


@model("max", "Ord::max", "maximum")
def _max(x):
    if len(x.a) == 1:
        return _itmax(x)
    return mm(x, True)


@model("min", "Ord::min", "minimum")
def _min(x):
    if len(x.a) == 1:
        return _itmax(x)
    return mm(x, False)


@model("clamp", "Ord::clamp")
def _clamp(x):
    a, lo, hi = x.s(0), x.s(1), x.s(2)
    if isfloat(x.ty(0)):
        return fmin(fmax(a, lo), hi)
    return simp(imin(imax(a, lo), hi))


# ---- integers
@model("checked_sub")
def _csub(x):
    a, b = x.s(0), x.s(1)
    return opt(cmp("Ge", a, b, True), sub(a, b))


@model("checked_add")
def _cadd(x):
    return some(add(x.s(0), x.s(1)))


@model("checked_mul")
def _cmul(x):
    return some(mul(x.s(0), x.s(1)))


@model("checked_div")
def _cdiv(x):
    a, b = x.s(0), x.s(1)
    c = simp(cmp("Ge", b, D1, True))
    with assume(c):
        r = simp(idiv(a, simp(b)))
    return opt(c, r)


@model("checked_rem")
def _crem(x):
    a, b = x.s(0), x.s(1)
    c = simp(cmp("Ge", b, D1, True))
    with assume(c):
        r = simp(imod(a, simp(b)))
    return opt(c, r)


@model("saturating_sub")
def _ssub(x):
    return simp(imax(sub(x.s(0), x.s(1)), D0))


@model("saturating_add", "wrapping_add", "unchecked_add")
def _sadd(x):
    return add(x.s(0), x.s(1))


@model("saturating_mul", "wrapping_mul", "unchecked_mul")
def _smul(x):
    return mul(x.s(0), x.s(1))


@model("wrapping_sub", "unchecked_sub")
def _wsub(x):
    a, b = x.s(0), x.s(1)
    c = simp(cmp("Ge", a, b, True))
    if holds(c):
        return sub(a, b)
    bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(x.ty(0)[1] if x.ty(0)[0] == "prim" else None)
    if bits is None:
        raise UNDEC("wrapping subtraction")
    return simp(ite(c, sub(a, b), add(sub(a, b), num(2 ** bits))))


@model("abs_diff")
def _absd(x):
    a, b = x.s(0), x.s(1)
    return simp(ite(cmp("Ge", a, b, True), sub(a, b), sub(b, a)))


@model("div_ceil")
def _dceil(x):
    a, b = x.s(0), simp(x.s(1))
    x.req(cmp("Ge", b, D1, True), "division by zero")
    return simp(idiv(simp(add(a, sub(b, D1))), b))


@model("div_euclid")
def _deuc(x):
    if isfloat(x.ty(0)):
        raise UNDEC("div_euclid")
    b = simp(x.s(1))
    x.req(cmp("Ge", b, D1, True), "division by zero")
    return simp(idiv(simp(x.s(0)), b))


@model("rem_euclid")
def _reuc(x):
    if isfloat(x.ty(0)):
        raise UNDEC("rem_euclid")
    b = simp(x.s(1))
    x.req(cmp("Ge", b, D1, True), "division by zero")
    return simp(imod(simp(x.s(0)), b))


@model("is_multiple_of")
def _mult(x):
    a, b = simp(x.s(0)), simp(x.s(1))
    z = cmp("Eq", b, D0, True)
    with assume(b_not(z)):
        r = cmp("Eq", imod(a, b), D0, True)
    return simp(ite(z, cmp("Eq", a, D0, True), r))


@model("next_multiple_of", "ilog2", "leading_zeros", "count_ones", "trailing_zeros")
def _noint(x):
    raise UNDEC("no model of " + x.cal.name)


@model("pow", "powi", "powf")
def _pow(x):
    a, b = x.s(0), x.s(1)
    if b.atom is None and b.leaf.const is not None and int(b.leaf.const) == b.leaf.const and 0 <= b.leaf.const <= 8:
        r = D1
        for _ in range(int(b.leaf.const)):
            r = mul(r, a)
        return r
    if b.atom is None and b.leaf.const == -1:
        return fdiv(D1, a)
    return uf("pow", [a, b], "f" if isfloat(x.ty(0)) else "i")


# ---- floats
@model("exp")
def _exp(x):
    a = simp(x.s(0))
    x.I.events.append(Event("exp", x.st.g, [a], (x.fr.key, x.span)))
    return fexp(a)


@model("sqrt")
def _sqrt(x):
    return uf("sqrt", [x.s(0)], "f")


@model("abs")
def _abs(x):
    a = x.s(0)
    fl = isfloat(x.ty(0))
    return ite(cmp("Lt", a, D0, not fl), neg(a), a)


@model("mul_add")
def _muladd(x):
    return add(mul(x.s(0), x.s(1)), x.s(2))


@model("recip")
def _recip(x):
    return fdiv(D1, x.s(0))


@model("total_cmp", "partial_cmp", "PartialOrd::partial_cmp", "Ord::cmp")
def _cmp(x):
    raise UNDEC("ordering value")


# ---- conversions, defaults, memory
def default(I, t, label):
    if t[0] == "prim":
        if t[1] == "bool":
            return FALSE
        if t[1] == "str":
            return leaf(lit("str", ""))
        return D0
    if t[0] == "tuple":
        return S([default(I, y, label) for y in t[1]])
    if t[0] == "adt":
        if t[1].endswith("vec::Vec"):
            return V(D0, I.symtree(t[2][0], "uninit:" + label, 1))
        if t[1].endswith("Option"):
            return NONE
        if t[1].endswith("String"):
            return leaf(lit("str", ""))
        if t[1].endswith("HashMap"):
            return M({})
        k = I.p.impl_method("std::default::Default", "default", t)
        if k:
            return I.run_fn(State(TRUE, {}), k, [], {}, label + ">default")
    if t[0] == "array":
        return V(num(t[2]), lift_ty(default(I, t[1], label), t[1]))
    raise UNDEC("default of %s" % (t,))


@model("Default::default", "default")
def _default(x):
    return default(x.I, x.cal.dty, x.label)


@model("mem::take")
def _mtake(x):
    v = x.I.read(x.st, x.a[0])
    x.I.write(x.st, x.a[0], default(x.I, deref_ty(x.ty(0)), x.label))
    return v


@model("replace")
def _mreplace(x):
    v = x.I.read(x.st, x.a[0])
    if isinstance(v, E) and v.tag == "Option" and "Option" in x.cal.name:
        x.I.write(x.st, x.a[0], some(x.a[1]))
        return v
    if isinstance(v, DD) and "str" in x.cal.name:
        raise UNDEC("string replace")
    x.I.write(x.st, x.a[0], x.a[1])
    return v


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def _into(x):
    v = x.a[0]
    meth = x.cal.meth
    t = x.cal.dty
    tt = t[2][0] if meth.startswith("try") and t[0] == "adt" and t[2] else t
    src = deref_ty(x.ty(0))
    if isinstance(v, DD):
        if isinstance(next(leaves(v)), bool):
            v = ite(v, D1, D0)
        return ok(v) if meth.startswith("try") else v
    if meth == "into" or meth == "try_into":
        tr, mt = ("std::convert::From", "from") if meth == "into" else ("std::convert::TryFrom", "try_from")
        k = x.I.p.impl_method(tr, mt, tt)
        if k and tt[0] == "adt" and x.I.p.adts.get(tt[1], {}).get("local"):
            return x.I.run_fn(x.st, k, [v], {}, x.label + ">into")
    if isinstance(v, V) and tt[0] == "adt" and tt[1].endswith("Map"):
        return fixed_map(x, ("owned", v.e, v.n))
    if src == deref_ty(tt):
        return ok(v) if meth.startswith("try") else v
    if isinstance(v, R) and tt[0] == "adt" and (tt[1].endswith("String") or tt[1].endswith("Vec")):
        return x.v(0)
    if isinstance(v, (V, S)) and meth in ("from", "into") and tt[0] in ("adt",) and tt[1].endswith("Vec"):
        return v
    raise UNDEC("conversion from %s to %s" % (src, tt))


@model("Box::new", "Box::pin", "Rc::new", "Arc::new", "Cell::new")
def _box(x):
    if "Cell" in x.cal.name or "Rc" in x.cal.name or "Arc" in x.cal.name:
        raise UNDEC("shared state")
    return x.a[0]


@model("String::new")
def _strnew(x):
    return leaf(lit("str", ""))


@model("format", "fmt::format", "Arguments::new", "Arguments::new_v1", "Arguments::new_const", "Arguments::from_str",
       "Argument::new_display", "Argument::new_debug", "must_use")
def _fmt(x):
    if segs(x.cal.name)[-1] == "must_use":
        return x.a[0]
    return leaf(lit("text", x.label))


@model("_print", "_eprint")
def _print(x):
    x.I.events.append(Event("print", x.st.g, [], (x.fr.key, x.span)))
    return UNIT


@model("panic_fmt", "panic", "panic_display", "begin_panic", "unreachable_display", "panic_nounwind",
       "unwrap_failed", "expect_failed", "assert_failed", "panic_explicit")
def _panic(x):
    x.I.panics.append(Panic(x.st.g, "explicit panic", x.fr.key, x.span))
    x.st.g = FALSE
    return U


# ---- outside world
@model("fs::read")
def _fsread(x):
    p = x.s(0)
    x.I.events.append(Event("fs::read", x.st.g, [p], (x.fr.key, x.span)))
    okd = uf("readable", [p], "b")
    data = x.I.files(p) if x.I.files else uf("contents", [p], "o")
    return x.result(E(ite(okd, D0, D1), {0: (data,), 1: (leaf(lit("io-error")),)}, "Result"))


@model("fs::write")
def _fswrite(x):
    p, d = x.s(0), x.s(1)
    x.I.events.append(Event("fs::write", x.st.g, [p, d], (x.fr.key, x.span)))
    okd = uf("writable", [p], "b")
    return x.result(E(ite(okd, D0, D1), {0: (UNIT,), 1: (leaf(lit("io-error")),)}, "Result"))


@model("bincode::serialize")
def _ser(x):
    v = x.v(0)
    t = deref_ty(x.ty(0))
    okd = uf("serialisable", ["%s:%s" % (x.fr.key, tyname(t))], "b")
    x.I.events.append(Event("encode", x.st.g, [okd], (x.fr.key, x.span)))
    return x.result(E(ite(okd, D0, D1), {0: (ser(x.I, v, t),), 1: (leaf(lit("encode-error")),)}, "Result"))


@model("bincode::deserialize")
def _de(x):
    d = x.v(0)
    t = x.cal.dty
    if not isinstance(d, DD):
        raise UNDEC("decoding of %s" % type(d).__name__)
    ty = t[2][0]
    v = de(x.I, x.st, d, ty, x.label)
    x.I.events.append(Event("decode", x.st.g, [d, leaf(lit("type", str(ty)))], (x.fr.key, x.span)))
    return x.result(v)


@model("thread_rng", "rng")
def _rng(x):
    return leaf(lit("rng"))


@model("Normal::new")
def _normal(x):
    a, b = x.s(0), x.s(1)
    bad = uf("bad_std", [b], "b")
    return E(ite(bad, D1, D0), {0: (uf("Normal", [a, b], "o"),), 1: (leaf(lit("normal-error")),)}, "Result")


@model("Uniform::new_inclusive")
def _unii(x):
    a, b = x.s(0), x.s(1)
    return uf("UniformInclusive", [a, b], "o")


@model("Uniform::new")
def _uni(x):
    return uf("Uniform", [x.s(0), x.s(1)], "o")


@model("Rng::sample", "Distribution::sample", "Rng::gen_range", "Rng::gen")
def _sample(x):
    if x.cal.meth not in ("sample",):
        raise UNDEC("random source " + x.cal.name)
    d = x.v(1) if x.cal.trait.endswith("Rng") else x.v(0)
    if not isinstance(d, DD):
        raise UNDEC("distribution")
    if len(x.I.iters):
        nm = "sample@%s" % x.label
    else:
        nm = "sample@%s" % x.label
    r = x.I.skolem(("prim", "f32"), nm)
    x.I.events.append(Event("sample", x.st.g, [d, r], (x.fr.key, x.span)))
    its = list(x.I.iters)
    return uf("draw", [d, nm] + its, "f")


@model("Error::custom", "Error::invalid_length", "Error::missing_field", "Error::invalid_value", "Error::duplicate_field")
def _decode_error(x):
    return var(sym(x.label + ".error", "o"))
