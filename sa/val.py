"""Value trees: structured values whose leaves are scalar decision diagrams (depth 0) or arrays
(inside vector elements, one rank per enclosing vector)."""
from .terms import *


class Val:
    __slots__ = ()


class S(Val):
    """struct, tuple, closure environment"""
    __slots__ = ("f", "tag")

    def __init__(self, f, tag=None):
        self.f = tuple(f)
        self.tag = tag

    def __repr__(self):
        return "%s{%s}" % (self.tag or "", ", ".join(map(repr, self.f)))


class E(Val):
    """enum: discriminant and payloads per variant (None: never built)"""
    __slots__ = ("d", "v", "tag")

    def __init__(self, d, v, tag=None):
        self.d = d
        self.v = dict(v)
        self.tag = tag

    def __repr__(self):
        return "%s<%r|%s>" % (self.tag or "", self.d, self.v)


class V(Val):
    """vector, slice value or array"""
    __slots__ = ("n", "e")

    def __init__(self, n, e):
        self.n = n
        self.e = e

    def __repr__(self):
        return "Vec(%r; %r)" % (self.n, self.e)


class R(Val):
    """reference: cell and path; path items: int field, ("v", variant), ("i", index), ("w", start, len)"""
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c = c
        self.p = tuple(p)

    def __repr__(self):
        return "&%s%s" % (self.c, "".join("." + str(x) for x in self.p))


class IT(Val):
    """iterator: description of the random-access sequence and the position"""
    __slots__ = ("spec", "pos")

    def __init__(self, spec, pos):
        self.spec = spec
        self.pos = pos

    def __repr__(self):
        return "iter(%s @%r)" % (self.spec[0], self.pos)


class C(Val):
    """closure"""
    __slots__ = ("key", "ups", "env")

    def __init__(self, key, ups, env):
        self.key = key
        self.ups = tuple(ups)
        self.env = env

    def __repr__(self):
        return "closure(%s)" % self.key


class FN(Val):
    __slots__ = ("f", "env")

    def __init__(self, f, env):
        self.f = f
        self.env = env

    def __repr__(self):
        return "fn(%s)" % self.f.get("n")


class M(Val):
    """map with finitely many constant keys: key -> (present, value)"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = dict(m)

    def __repr__(self):
        return "Map%r" % self.m


class G(Val):
    """gated choice between values of different form"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "(%r ? %r : %r)" % (self.c, self.a, self.b)


class LS(Val):
    """elements of an array, one by one"""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = tuple(x)

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.x))


class _U(Val):
    __slots__ = ()

    def __repr__(self):
        return "undef"


class _B(Val):
    """value the analysis could not determine (never silently replaced by another one)"""
    __slots__ = ()

    def __repr__(self):
        return "unsolved"


U = _U()
BAD = _B()
UNIT = S(())


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, S):
        return len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, E):
        return a.d is b.d and a.v.keys() == b.v.keys() and all(
            same(x, y) for k in a.v for x, y in zip(a.v[k], b.v[k]))
    if isinstance(a, V):
        return a.n is b.n and same(a.e, b.e)
    if isinstance(a, R):
        return a.c == b.c and samepath(a.p, b.p)
    if isinstance(a, IT):
        return a.pos is b.pos and samespec(a.spec, b.spec)
    if isinstance(a, C):
        return a.key == b.key and all(same(x, y) for x, y in zip(a.ups, b.ups))
    if isinstance(a, FN):
        return a.f["key"] == b.f["key"]
    if isinstance(a, LS):
        return len(a.x) == len(b.x) and all(same(x, y) for x, y in zip(a.x, b.x))
    if isinstance(a, M):
        return a.m.keys() == b.m.keys() and all(a.m[k][0] is b.m[k][0] and same(a.m[k][1], b.m[k][1]) for k in a.m)
    if isinstance(a, G):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    return False


def samepath(p, q):
    return len(p) == len(q) and all(x == y for x, y in zip(p, q))


def samespec(a, b):
    if a is b:
        return True
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(samespec(x, y) for x, y in zip(a, b))
    if isinstance(a, Val):
        return isinstance(b, Val) and same(a, b)
    return a == b


def ite_leaf(c, a, b):
    if a is b:
        return a
    if isinstance(a, DD):
        return ite(c, a, b)
    return a_ite(c, a, b)


def merge(c, a, b):
    """a where c holds, b elsewhere"""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is BAD or b is BAD:
        return BAD
    if a is U:
        return b
    if b is U:
        return a
    if isinstance(a, (DD, Term)) and type(a) is type(b):
        return ite_leaf(c, a, b)
    if type(a) is type(b):
        if isinstance(a, S) and len(a.f) == len(b.f):
            return S([merge(c, x, y) for x, y in zip(a.f, b.f)], a.tag)
        if isinstance(a, E):
            v = {}
            for k in set(a.v) | set(b.v):
                if k not in a.v:
                    v[k] = b.v[k]
                elif k not in b.v:
                    v[k] = a.v[k]
                else:
                    v[k] = tuple(merge(c, x, y) for x, y in zip(a.v[k], b.v[k]))
            return E(merge(c, a.d, b.d), v, a.tag)
        if isinstance(a, V):
            return V(merge(c, a.n, b.n), merge(c, a.e, b.e))
        if isinstance(a, LS) and len(a.x) == len(b.x):
            return LS([merge(c, x, y) for x, y in zip(a.x, b.x)])
        if isinstance(a, R) and a.c == b.c and len(a.p) == len(b.p):
            p = []
            for x, y in zip(a.p, b.p):
                if x == y:
                    p.append(x)
                elif isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] and x[0] in "iw":
                    p.append((x[0],) + tuple(ite(c, s, t) for s, t in zip(x[1:], y[1:])))
                else:
                    p = None
                    break
            if p is not None:
                return R(a.c, p)
        if isinstance(a, IT) and samespec(a.spec, b.spec):
            return IT(a.spec, merge(c, a.pos, b.pos))
        if isinstance(a, M):
            m = {}
            for k in set(a.m) | set(b.m):
                pa, va = a.m.get(k, (FALSE, U))
                pb, vb = b.m.get(k, (FALSE, U))
                m[k] = (merge(c, pa, pb), merge(c, va, vb))
            return M(m)
        if isinstance(a, C) and a.key == b.key:
            return C(a.key, [merge(c, x, y) for x, y in zip(a.ups, b.ups)], a.env)
        if same(a, b):
            return a
    return G(c, a, b)


def vmap(f, t):
    """apply f to every leaf"""
    if isinstance(t, (DD, Term)):
        return f(t)
    if isinstance(t, S):
        return S([vmap(f, x) for x in t.f], t.tag)
    if isinstance(t, E):
        return E(f(t.d), {k: tuple(vmap(f, x) for x in v) for k, v in t.v.items()}, t.tag)
    if isinstance(t, V):
        return V(f(t.n), vmap(f, t.e))
    if isinstance(t, M):
        return M({k: (f(p), vmap(f, v)) for k, (p, v) in t.m.items()})
    if isinstance(t, R):
        return R(t.c, [x if isinstance(x, int) or x[0] == "v" else (x[0],) + tuple(f(y) for y in x[1:]) for x in t.p])
    if isinstance(t, IT):
        return IT(smap(f, t.spec), f(t.pos))
    if isinstance(t, C):
        return C(t.key, [vmap(f, x) for x in t.ups], t.env)
    if isinstance(t, LS):
        return LS([vmap(f, x) for x in t.x])
    if isinstance(t, G):
        return merge(f(t.c), vmap(f, t.a), vmap(f, t.b))
    return t


def smap(f, s):
    if isinstance(s, tuple):
        return tuple(smap(f, x) for x in s)
    if isinstance(s, (DD, Val)):
        return vmap(f, s)
    return s


def lift(t):
    """constant family: every element is t"""
    def f(x):
        if isinstance(x, DD):
            l = next(leaves(x))
            if isinstance(l, bool):
                srt = "b"
            elif isinstance(l, Term):
                srt = "o"
            else:
                srt = sort_of(x)
            return a_const(x, 1, srt)
        return term("alift", (x,), x.sort, x.nonneg, x.rank + 1)
    return vmap(f, t)


def sort_of(d):
    for l in leaves(d):
        if isinstance(l, bool):
            return "b"
        if isinstance(l, Term):
            return "o"
        for m, c in l.t.items():
            if isinstance(c, Fraction):
                return "f"
            for a, e in m:
                if TERMS[a].sort == "f" or e < 0:
                    return "f"
    return "i"


def index(t, i):
    """element i (DD) of a lifted tree"""
    if i.atom is not None:
        c = atomdd(i.atom)
        with assume(c):
            a = index(t, simp(i.hi))
        with assume(b_not(c)):
            b = index(t, simp(i.lo))
        return merge(c, a, b)
    p = i.leaf
    if isinstance(t, LS):
        n = p.const if p.const is not None else None
        if n is not None:
            return t.x[int(n)] if 0 <= n < len(t.x) else U
        r = t.x[-1]
        for k in range(len(t.x) - 2, -1, -1):
            r = merge(cmp("Eq", i, num(k), True), t.x[k], r)
        return r

    def f(x):
        if isinstance(x, DD):
            raise Undecided("element of a scalar")
        if x.rank == 1:
            return sel(x, (p,))
        return a_app(x, (p,))
    return vmap(f, t)


def store(t, i, v, old):
    """lifted tree t with element i replaced by v (old: current element i)"""
    if i.atom is not None:
        c = atomdd(i.atom)
        with assume(c):
            a = store(t, simp(i.hi), v, old)
        with assume(b_not(c)):
            b = store(t, simp(i.lo), v, old)
        return merge(c, a, b)
    p = i.leaf

    def go(t, v, old):
        if v is old:
            return t
        if isinstance(t, Term):
            if t is U:
                return U
            if v is BAD:
                return BAD
            return mk_aw(t, (), TRUE, (p,), v)
        if isinstance(t, S):
            return S([go(x, y, z) for x, y, z in zip(t.f, v.f, old.f)], t.tag)
        if isinstance(t, V) and isinstance(v, V):
            return V(go(t.n, v.n, old.n), go(t.e, v.e, old.e))
        if isinstance(t, E) and isinstance(v, E):
            vs = {}
            for k in t.v:
                vs[k] = tuple(go(x, y, z) for x, y, z in zip(t.v[k], v.v[k], old.v[k])) if k in v.v else t.v[k]
            for k in v.v:
                if k not in vs:
                    vs[k] = tuple(lift(x) for x in v.v[k])
            return E(go(t.d, v.d, old.d), vs, t.tag)
        if isinstance(t, M) and isinstance(v, M):
            m = {}
            for k in t.m:
                m[k] = (go(t.m[k][0], v.m[k][0], old.m[k][0]), go(t.m[k][1], v.m[k][1], old.m[k][1]))
            return M(m)
        raise Undecided("store of %s" % type(v).__name__)
    return go(t, v, old)


def shift(t, s):
    """lifted tree u with u[b] = t[s+b]"""
    if s is D0:
        return t
    if s.atom is not None:
        c = atomdd(s.atom)
        return merge(c, shift(t, s.hi), shift(t, s.lo))
    return vmap(lambda x: term("ashift", (x, s.leaf), x.sort, x.nonneg, x.rank), t)


def leaves_of(t, path=()):
    """(path, leaf) of a tree"""
    if isinstance(t, (DD, Term)):
        yield path, t
    elif isinstance(t, S):
        for i, x in enumerate(t.f):
            yield from leaves_of(x, path + (i,))
    elif isinstance(t, E):
        yield path + ("d",), t.d
        for k in sorted(t.v):
            for i, x in enumerate(t.v[k]):
                yield from leaves_of(x, path + ("v%d" % k, i))
    elif isinstance(t, V):
        yield path + ("n",), t.n
        yield from leaves_of(t.e, path + ("e",))
    elif isinstance(t, M):
        for k in t.m:
            yield path + ("p%s" % k,), t.m[k][0]
            yield from leaves_of(t.m[k][1], path + ("m%s" % k,))


def refs_in(t, out):
    if isinstance(t, R):
        out.add(t.c)
    elif isinstance(t, S):
        for x in t.f:
            refs_in(x, out)
    elif isinstance(t, E):
        for v in t.v.values():
            for x in v:
                refs_in(x, out)
    elif isinstance(t, IT):
        srefs(t.spec, out)
    elif isinstance(t, C):
        for x in t.ups:
            refs_in(x, out)
    elif isinstance(t, V):
        refs_in(t.e, out)
    elif isinstance(t, LS):
        for x in t.x:
            refs_in(x, out)
    elif isinstance(t, G):
        refs_in(t.a, out)
        refs_in(t.b, out)
    elif isinstance(t, M):
        for _, v in t.m.values():
            refs_in(v, out)
    return out


def srefs(s, out):
    if isinstance(s, tuple):
        for x in s:
            srefs(x, out)
    elif isinstance(s, Val):
        refs_in(s, out)
