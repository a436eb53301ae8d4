"""Value-graph terms.

Everything is hash-consed.  Scalars are decision diagrams (DD) whose leaves are
polynomials (ints and reals), truth values or opaque terms, and whose nodes test
boolean atoms.  Arrays are symbolic functions (symbols, constants, comprehensions).
"""
from fractions import Fraction
from functools import reduce
from math import gcd
import itertools, sys

sys.setrecursionlimit(100000)

# ------------------------------------------------------------------ atoms
TERMS = []
_tab = {}
EMPTY = frozenset()


class Term:
    __slots__ = ("id", "kind", "args", "sort", "fv", "nonneg", "rank", "taint")

    def __repr__(self):
        return show(self)


def fv_of(x):
    if isinstance(x, (Term, Poly, DD)):
        return x.fv
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            f = fv_of(y)
            if f:
                r = r | f
        return r
    return EMPTY


def taint_of(x):
    if isinstance(x, (Term, Poly, DD)):
        return x.taint
    if isinstance(x, tuple):
        return any(taint_of(y) for y in x)
    return False


def term(kind, args, sort, nonneg=False, rank=0, bound=(), selfvar=False, taint=False):
    key = (kind, args, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = Term()
    t.id = len(TERMS)
    t.kind = kind
    t.args = args
    t.sort = sort
    t.nonneg = nonneg
    t.rank = rank
    f = fv_of(args)
    if bound:
        f = f - frozenset(b.id for b in bound)
    if selfvar:
        f = f | frozenset((t.id,))
    t.fv = f
    t.taint = taint or taint_of(args)
    TERMS.append(t)
    _tab[key] = t
    return t


_n = [0]


def fresh():
    _n[0] += 1
    return _n[0]


def sym(name, sort="i", nonneg=None):
    if nonneg is None:
        nonneg = sort == "i"
    return term("sym", (name,), sort, nonneg, selfvar=True)


def binder(name="b"):
    return term("bnd", (name, fresh()), "i", True, selfvar=True)


def asym(name, sort, rank=1, nonneg=None):
    if nonneg is None:
        nonneg = sort == "i"
    return term("asym", (name, rank), sort, nonneg, rank, selfvar=True)


# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ("id", "t", "fv", "taint", "const")

    def __repr__(self):
        return show(self)


_ptab = {}
_pid = [0]


def mkpoly(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    p = _ptab.get(items)
    if p is None:
        p = Poly()
        _pid[0] += 1
        p.id = _pid[0]
        p.t = dict(items)
        f = EMPTY
        ta = False
        for m, _ in items:
            for a, _e in m:
                f = f | TERMS[a].fv
                ta = ta or TERMS[a].taint
        p.fv = f
        p.taint = ta
        p.const = None
        if not items:
            p.const = 0
        elif len(items) == 1 and items[0][0] == ():
            p.const = items[0][1]
        _ptab[items] = p
    return p


def pconst(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return mkpoly({(): c})


P0 = pconst(0)
P1 = pconst(1)


def patom(t, e=1):
    return mkpoly({((t.id, e),): 1})


def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def padd(a, b):
    if a.const == 0:
        return b
    if b.const == 0:
        return a
    d = dict(a.t)
    for m, c in b.t.items():
        d[m] = norm(d.get(m, 0) + c)
    return mkpoly(d)


def pscale(a, k):
    if k == 1:
        return a
    return mkpoly({m: norm(c * k) for m, c in a.t.items()})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


_pmul = {}


def pmul(a, b):
    if a.const is not None:
        return pscale(b, a.const)
    if b.const is not None:
        return pscale(a, b.const)
    k = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _pmul.get(k)
    if r is None:
        d = {}
        for m, c in a.t.items():
            for n, e in b.t.items():
                q = mmul(m, n)
                d[q] = norm(d.get(q, 0) + c * e)
        r = _pmul[k] = mkpoly(d)
    return r


def mono_poly(m, c=1):
    return mkpoly({m: c})


def mdiv(m, n):
    """m / n as a monomial with nonnegative exponents or None"""
    d = dict(m)
    for a, e in n:
        x = d.get(a, 0) - e
        if x < 0:
            return None
        if x == 0:
            d.pop(a, None)
        else:
            d[a] = x
    return tuple(sorted(d.items()))


# ------------------------------------------------------------------ decision diagrams
class DD:
    __slots__ = ("id", "atom", "hi", "lo", "leaf", "fv", "taint")

    def __repr__(self):
        return show(self)


_dtab = {}
_did = [0]


def leaf(v):
    k = (0, v) if not isinstance(v, bool) else (2, v)
    d = _dtab.get(k)
    if d is None:
        d = DD()
        _did[0] += 1
        d.id = _did[0]
        d.atom = None
        d.hi = d.lo = None
        d.leaf = v
        d.fv = fv_of(v)
        d.taint = taint_of(v)
        _dtab[k] = d
    return d


TRUE = leaf(True)
FALSE = leaf(False)


def node(atom, hi, lo):
    if hi is lo:
        return hi
    k = (1, atom.id, hi.id, lo.id)
    d = _dtab.get(k)
    if d is None:
        d = DD()
        _did[0] += 1
        d.id = _did[0]
        d.atom = atom
        d.hi = hi
        d.lo = lo
        d.leaf = None
        d.fv = atom.fv | hi.fv | lo.fv
        d.taint = atom.taint or hi.taint or lo.taint
        _dtab[k] = d
    return d


def isleaf(d):
    return d.atom is None


def cof(d, atom, pol):
    """cofactor when atom is the top atom of d (or smaller than it)"""
    if d.atom is atom:
        return d.hi if pol else d.lo
    return d


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is None:
        t = min((x.atom for x in (c, a, b) if x.atom is not None), key=lambda x: x.id)
        r = node(t, ite(cof(c, t, 1), cof(a, t, 1), cof(b, t, 1)),
                 ite(cof(c, t, 0), cof(a, t, 0), cof(b, t, 0)))
        _ite[k] = r
    return r


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def b_not(a):
    return ite(a, FALSE, TRUE)


def ands(xs):
    r = TRUE
    for x in xs:
        r = b_and(r, x)
    return r


def ors(xs):
    r = FALSE
    for x in xs:
        r = b_or(r, x)
    return r


def imp(a, b):
    return ite(a, b, TRUE)


def atomdd(a):
    return node(a, TRUE, FALSE)


_restrict = {}


def restrict(f, c):
    """f simplified where c is known to hold (Coudert-Madre)"""
    if c is TRUE or f.atom is None:
        return f
    if c is FALSE:
        return f
    k = (f.id, c.id)
    r = _restrict.get(k)
    if r is not None:
        return r
    t = min((x.atom for x in (f, c) if x.atom is not None), key=lambda x: x.id)
    c1, c0 = cof(c, t, 1), cof(c, t, 0)
    if c1 is FALSE:
        r = restrict(cof(f, t, 0), c0)
    elif c0 is FALSE:
        r = restrict(cof(f, t, 1), c1)
    elif f.atom is t:
        r = node(t, restrict(f.hi, c1), restrict(f.lo, c0))
    else:
        r = restrict(f, b_or(c1, c0))
    _restrict[k] = r
    return r


def dmap(fn, d, memo=None):
    """apply fn to every leaf; fn returns a DD"""
    if d.atom is None:
        return fn(d.leaf)
    if memo is None:
        memo = {}
    r = memo.get(d.id)
    if r is None:
        h, l = dmap(fn, d.hi, memo), dmap(fn, d.lo, memo)
        r = ite(atomdd(d.atom), h, l)
        memo[d.id] = r
    return r


def dmap2(fn, a, b, memo=None):
    if a.atom is None and b.atom is None:
        return fn(a.leaf, b.leaf)
    if memo is None:
        memo = {}
    k = (a.id, b.id)
    r = memo.get(k)
    if r is None:
        t = min((x.atom for x in (a, b) if x.atom is not None), key=lambda x: x.id)
        r = ite(atomdd(t), dmap2(fn, cof(a, t, 1), cof(b, t, 1), memo),
                dmap2(fn, cof(a, t, 0), cof(b, t, 0), memo))
        memo[k] = r
    return r


def dmapn(fn, ds):
    """fn(tuple of leaves) -> DD"""
    def rec(i, acc):
        if i == len(ds):
            return fn(tuple(acc))
        return dmap(lambda v: rec(i + 1, acc + [v]), ds[i])
    return rec(0, [])


def leaves(d, seen=None):
    if seen is None:
        seen = set()
    if d.id in seen:
        return
    seen.add(d.id)
    if d.atom is None:
        yield d.leaf
    else:
        yield from leaves(d.hi, seen)
        yield from leaves(d.lo, seen)


def atoms_of(d, seen=None, out=None):
    if seen is None:
        seen, out = set(), []
    if d.id not in seen:
        seen.add(d.id)
        if d.atom is not None:
            if d.atom not in out:
                out.append(d.atom)
            atoms_of(d.hi, seen, out)
            atoms_of(d.lo, seen, out)
    return out


# scalar helpers -------------------------------------------------------------
def num(c):
    return leaf(pconst(c))


D0, D1 = num(0), num(1)


PIN = {}        # name of an integer symbol -> its fixed value (see Kit.narrow)


def var(t):
    if PIN and t.sort == "i" and t.kind == "sym" and t.args[0] in PIN:
        return num(PIN[t.args[0]])
    if t.sort == "b":
        return atomdd(t)
    if t.sort == "o":
        return leaf(t)
    return leaf(patom(t))


def add(a, b):
    return dmap2(lambda x, y: leaf(padd(x, y)), a, b)


def sub(a, b):
    return dmap2(lambda x, y: leaf(psub(x, y)), a, b)


def mul(a, b):
    return dmap2(lambda x, y: leaf(pmul(x, y)), a, b)


def neg(a):
    return dmap(lambda x: leaf(pneg(x)), a)


def _lead(p):
    """a deterministic leading monomial (largest) and its coefficient"""
    m = max((k for k in p.t if k != ()), default=None)
    return (m, p.t[m]) if m is not None else (None, None)


def _int_gcd(p):
    """scale a rational int-poly to coprime integer coefficients of non-constant monomials"""
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if den != 1:
        p = pscale(p, den)
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = gcd(g, abs(int(c)))
    return p, g


def ge0(p):
    """integer p >= 0"""
    if p.const is not None:
        return TRUE if p.const >= 0 else FALSE
    p, g = _int_gcd(p)
    if g > 1:
        c = p.t.get((), 0)
        d = {m: (x // g if m != () else c // g) for m, x in p.t.items()}
        d[()] = c // g
        p = mkpoly(d)
    r = _decide_trivial(p)
    if r is not None:
        return r
    _, c = _lead(p)
    if c < 0:
        q = psub(pneg(p), P1)
        return b_not(atomdd(term("ge", (q,), "b")))
    return atomdd(term("ge", (p,), "b"))


def mono_nonneg(m):
    return all(TERMS[a].nonneg or (e % 2 == 0) for a, e in m)


def _decide_trivial(p):
    lo = p.t.get((), 0)
    if lo >= 0 and all(c >= 0 and mono_nonneg(m) for m, c in p.t.items()):
        return TRUE
    if lo < 0 and all(c <= 0 and mono_nonneg(m) for m, c in p.t.items()):
        return FALSE
    if len(p.t) == 2 and abs(lo) >= WORD - 1:
        # sizes and numbers of 32 bits
        (m, c), = [x for x in p.t.items() if x[0] != ()]
        if mono_nonneg(m) and (c == 1 and lo <= -WORD or c == -1 and lo > 0):
            return FALSE if lo < 0 else TRUE
    return None


WORD = 1 << 32


def eq0(p, isint=True):
    if p.const is not None:
        return TRUE if p.const == 0 else FALSE
    p, g = _int_gcd(p)
    if isint:
        if g > 1:
            if p.t.get((), 0) % g:
                return FALSE
            p = pscale(p, Fraction(1, g))
        c = p.t.get((), 0)
        if c > 0 and all(x >= 0 and mono_nonneg(m) for m, x in p.t.items()):
            return FALSE
        if c < 0 and all(x <= 0 and mono_nonneg(m) for m, x in p.t.items()):
            return FALSE
    elif g > 1:
        p = pscale(p, Fraction(1, g))
    _, c = _lead(p)
    if c < 0:
        p = pneg(p)
    return atomdd(term("eq", (p, isint), "b"))


def gt0(p):
    """real p > 0"""
    if p.const is not None:
        return TRUE if p.const > 0 else FALSE
    # scale positively to leading coefficient +-1
    _, c = _lead(p)
    if abs(c) != 1:
        p = pscale(p, Fraction(1) / abs(c))
    inf = NEG_INF.id
    m = ((inf, 1),)
    if m in p.t:
        return TRUE if p.t[m] < 0 else FALSE
    # e^x is positive
    if all(mono_pos(mm) for mm in p.t):
        if all(x > 0 for x in p.t.values()):
            return TRUE
        if all(x < 0 for x in p.t.values()):
            return FALSE
    return atomdd(term("gt", (p,), "b"))


def mono_pos(m):
    return all((TERMS[a].kind == "uf" and TERMS[a].args[0] == "exp") for a, e in m)


NEG_INF = term("sym", ("-inf",), "f")
NAN = term("sym", ("NaN",), "f", taint=True)


def cmp(op, a, b, isint):
    if op == "Gt":
        return cmp("Lt", b, a, isint)
    if op == "Ge":
        return cmp("Le", b, a, isint)
    if op == "Ne":
        return b_not(cmp("Eq", a, b, isint))
    if isint:
        f = {"Lt": lambda x, y: ge0(psub(psub(y, x), P1)),
             "Le": lambda x, y: ge0(psub(y, x)),
             "Eq": lambda x, y: eq0(psub(x, y))}[op]
    else:
        f = {"Lt": lambda x, y: gt0(psub(y, x)),
             "Le": lambda x, y: b_not(gt0(psub(x, y))),
             "Eq": lambda x, y: eq0(psub(x, y), False)}[op]
    return dmap2(f, a, b)


def oeq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if x.kind == "lit" and y.kind == "lit":
            return FALSE
        if x.id > y.id:
            x, y = y, x
        return atomdd(term("oeq", (x, y), "b"))
    return dmap2(f, a, b)


def lit(*args):
    return term("lit", tuple(args), "o")


# ------------------------------------------------------------------ context of facts
class Ctx:
    def __init__(self):
        self.lits = []          # (bool atom, polarity)
        self.known = {}
        self._key = None

    def push(self, lits):
        n = len(self.lits)
        for a, p in lits:
            if a.id not in self.known:
                self.lits.append((a, p))
                self.known[a.id] = p
        self._key = None
        return n

    def pop(self, n):
        for a, p in self.lits[n:]:
            del self.known[a.id]
        del self.lits[n:]
        self._key = None

    def key(self):
        if self._key is None:
            self._key = tuple((a.id if p else -a.id - 1) for a, p in self.lits)
        return self._key


CTX = Ctx()


class assume:
    def __init__(self, *dds):
        self.dds = dds

    def __enter__(self):
        l = []
        for d in self.dds:
            l += literals(d)
        self.n = CTX.push(l)

    def __exit__(self, *a):
        CTX.pop(self.n)


_lits = {}


def literals(d):
    """atoms that are decided whenever d holds"""
    r = _lits.get(d.id)
    if r is not None:
        return r
    out = []
    x = d
    while x.atom is not None:
        if x.lo is FALSE:
            out.append((x.atom, True))
            x = x.hi
        elif x.hi is FALSE:
            out.append((x.atom, False))
            x = x.lo
        else:
            # literals common to both branches
            h = dict((a.id, (a, p)) for a, p in literals(x.hi))
            for a, p in literals(x.lo):
                if a.id in h and h[a.id][1] == p:
                    out.append((a, p))
            break
    _lits[d.id] = out
    return out


def simp(d, memo=None):
    """remove the tests that are decided by the current context"""
    if d.atom is None:
        return d
    if memo is None:
        memo = {}
    r = memo.get(d.id)
    if r is None:
        v = decide(d.atom)
        if v is True:
            r = simp(d.hi, memo)
        elif v is False:
            r = simp(d.lo, memo)
        else:
            n = CTX.push([(d.atom, True)])
            h = simp(d.hi)
            CTX.pop(n)
            n = CTX.push([(d.atom, False)])
            l = simp(d.lo)
            CTX.pop(n)
            r = ite(atomdd(d.atom), h, l)
        memo[d.id] = r
    return r


def decide(atom):
    v = CTX.known.get(atom.id)
    if v is not None:
        return v
    if atom.kind in ("ge", "eq") or atom.kind == "any":
        from . import prove
        return prove.decide(atom)
    if atom.kind in ("sel", "bsel", "buf") and any(a.kind == "any" and not p for a, p in CTX.lits):
        from . import prove
        return prove.decide_flag(atom)
    return None


def holds(d):
    """is the boolean DD true in the current context (sound, incomplete)"""
    return simp(d) is TRUE


def refuted(d):
    return simp(d) is FALSE


# ------------------------------------------------------------------ arithmetic terms
def idiv(a, b):
    return dmap2(lambda x, y: leaf(pidiv(x, y)), a, b)


def pidiv(x, y):
    if y.const == 1:
        return x
    if x.const is not None and y.const is not None and y.const != 0:
        return pconst(int(x.const) // int(y.const))
    if len(y.t) == 1:
        (m, c), = y.t.items()
        q, r = {}, {}
        for k, e in x.t.items():
            d = mdiv(k, m)
            if d is not None and e % c == 0 and m != ():
                q[d] = e // c
            elif m == () and e % c == 0:
                q[k] = e // c
            else:
                r[k] = e
        q, r = mkpoly(q), mkpoly(r)
        if q.const != 0 and holds(ge0(psub(y, P1))):
            # x = y*q + r and floor(x / y) = q + floor(r / y)
            if holds(b_and(ge0(r), ge0(psub(psub(y, r), P1)))):
                return q
            if holds(ge0(r)):
                return padd(q, patom(term("div", (r, y), "i", True)))
    if holds(b_and(ge0(x), ge0(psub(psub(y, x), P1)))):
        return P0
    return patom(term("div", (x, y), "i", True))


def imod(a, b):
    return dmap2(lambda x, y: leaf(psub(x, pmul(y, pidiv(x, y)))), a, b)


def imin(a, b):
    return ite(cmp("Le", a, b, True), a, b)


def imax(a, b):
    return ite(cmp("Ge", a, b, True), a, b)


def pinv(y):
    if y.const is not None and y.const != 0:
        return pconst(Fraction(1) / y.const)
    if len(y.t) == 1:
        (m, c), = y.t.items()
        return mkpoly({tuple((a, -e) for a, e in m): norm(Fraction(1) / c)})
    # common monomial and leading coefficient
    common = None
    for m in y.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: (min(e, d[a]) if e > 0 else max(e, d[a])) for a, e in common.items()
                      if a in d and (d[a] > 0) == (e > 0)}
    cm = tuple(sorted((common or {}).items()))
    im = tuple((a, -e) for a, e in cm)
    y2 = pmul(y, mono_poly(im)) if cm else y
    _, c = _lead(y2)
    if c is None:
        c = 1
    y2 = pscale(y2, Fraction(1) / c)
    t = term("inv", (y2,), "f")
    return pmul(mkpoly({im: norm(Fraction(1) / c)}), patom(t))


def fdiv(a, b):
    return dmap2(lambda x, y: leaf(pmul(x, pinv(y))), a, b)


def fmax(a, b):
    return ite(cmp("Lt", a, b, False), b, a)


def fmin(a, b):
    return ite(cmp("Lt", b, a, False), b, a)


def fexp(a):
    def f(x):
        # e^(sum) is the product of the powers of the single exponentials
        r = P1
        for m, c in x.t.items():
            if m == ():
                r = pmul(r, patom(term("uf", ("exp", pconst(c)), "f")))
            elif isinstance(c, int) and abs(c) <= 4:
                r = pmul(r, patom(term("uf", ("exp", mono_poly(m)), "f"), c))
            else:
                r = pmul(r, patom(term("uf", ("exp", mono_poly(m, c)), "f")))
        return leaf(r)
    return dmap(f, a)


def uf(name, args, sort, nonneg=None, taint=False):
    """uninterpreted function of scalar DDs / terms / constants"""
    if nonneg is None:
        nonneg = sort == "i"
    args = list(args)

    def rec(i, acc):
        if i == len(args):
            t = term("uf" if sort != "b" else "buf", (name,) + tuple(acc), sort, nonneg, taint=taint)
            return var(t)
        x = args[i]
        if isinstance(x, DD):
            return dmap(lambda v: rec(i + 1, acc + [v]), x)
        return rec(i + 1, acc + [x])
    return rec(0, [])


# ------------------------------------------------------------------ binding terms
def fresh_rename(binders, *xs):
    """rename binders [(b, n)] to fresh ones in the given DDs/polys"""
    m = {}
    nb = []
    for b, n in binders:
        nn = subst(n, m) if m else n
        c = binder(b.args[0])
        m[b.id] = leaf(patom(c))
        nb.append((c, nn))
    return (tuple(nb),) + tuple(subst(x, m) for x in xs)


def dom_dd(binders):
    """the range constraints of binders as a boolean DD"""
    r = TRUE
    for b, n in binders:
        r = b_and(r, ge0(psub(psub(n, patom(b)), P1)))
    return r


def in_scope(binders, guard=TRUE):
    return assume(dom_dd(binders), guard)


def _split_independent(d, ids, build):
    """hoist tests that do not mention the bound variables"""
    for a in atoms_of(d):
        if not (a.fv & ids):
            return a
    return None


def cofactor(d, atom, pol, memo=None):
    if d.atom is None or d.atom.id > atom.id and False:
        return d
    if memo is None:
        memo = {}
    r = memo.get(d.id)
    if r is None:
        if d.atom is None:
            r = d
        elif d.atom is atom:
            r = d.hi if pol else d.lo
        else:
            r = node(d.atom, cofactor(d.hi, atom, pol, memo), cofactor(d.lo, atom, pol, memo))
        memo[d.id] = r
    return r


# trip counts with a conditional bound: DD id -> (start, stop) with count = max(stop - start, 0)
SHIFT = {}


def units(binders, xs):
    """drop the binders that only take the value 0; xs: DDs, Terms and Polys"""
    mp = {}
    for b, n in binders:
        p = n.leaf if isinstance(n, DD) and n.atom is None else n
        if isinstance(p, Poly) and p.const == 1:
            mp[b.id] = D0
    if not mp:
        return None
    rest = tuple((b, subst1(n, mp) if isinstance(n, Poly) else subst(n, mp)) for b, n in binders if b.id not in mp)
    return rest, [subst1(x, mp) if isinstance(x, Poly) else subst(x, mp) for x in xs]


def has_div(p):
    return any(TERMS[a].kind == "div" for m in p.t for a, _ in m)


def plain_range(n):
    """a range with quotients in its length, as start and stop with a start that is not negative"""
    if not has_div(n):
        return None
    start = mkpoly({m: -c for m, c in n.t.items() if c < 0 and any(TERMS[a].kind == "div" for a, _ in m)})
    stop = padd(n, start)
    if start.t and not has_div(stop) and () in stop.t:
        k = pconst(-stop.t[()])         # up to a plain bound
        start, stop = padd(start, k), padd(stop, k)
    elif start.t and has_div(stop):
        k = psub(P1, pconst(stop.t.get((), 0)))
        start, stop = padd(start, k), padd(stop, k)
    if not holds(ge0(start)):
        return None
    return leaf(start), leaf(stop)


def limits(stop):
    """plain upper bounds the context has for the quotients in stop"""
    out = set()
    for p in leaves(stop):
        ds = [m for m, c in p.t.items() if len(m) == 1 and c == 1 and TERMS[m[0][0]].kind == "div"]
        if len(ds) != 1:
            continue
        for a, pol in CTX.lits:
            if a.kind != "ge":
                continue
            q = a.args[0] if pol else psub(pneg(a.args[0]), P1)
            if q.t.get(ds[0]) != -1:
                continue
            r = dict(q.t)
            del r[ds[0]]
            r.pop((), None)
            r = mkpoly(r)
            if r.t and not has_div(r):
                out.add(r)
    return out


def rebase(binders, guard, xs):
    """Replace conditional ranges b < max(stop - start, 0) by start <= c < stop, c < N for a plain N.
    Returns (binders, guard, xs) or None when no such range is there."""
    for i, (b, n) in enumerate(binders):
        n = n if isinstance(n, DD) else leaf(n)
        if n.atom is None:
            r = plain_range(n.leaf)
            if r is None:
                continue
            start, stop = r
        elif n.id in SHIFT:
            start, stop = SHIFT[n.id]
        else:
            continue
        N = None
        outer = [(c, m.leaf if isinstance(m, DD) else m) for c, m in binders[:i]
                 if not isinstance(m, DD) or m.atom is None]
        with in_scope(outer):
            for c in sorted(set(leaves(stop)) | limits(stop), key=lambda p: (any(TERMS[a].kind == "div" for m in p.t for a, _ in m),
                                                              len(p.t), p.id)):
                if holds(cmp("Le", stop, leaf(c), True)):
                    N = c
                    break
        if N is None or (n.atom is None and has_div(N)):
            continue
        c = binder(b.args[0] if b.kind == "bnd" else "r")
        C_ = leaf(patom(c))
        mp = {b.id: sub(C_, start)}
        rest = tuple((v, subst(m, mp)) for v, m in binders[i + 1:])
        nb = binders[:i] + ((c, N),) + rest
        g = b_and(b_and(cmp("Ge", C_, start, True), cmp("Lt", C_, stop, True)), subst(guard, mp))
        scope = [(v, m.leaf if isinstance(m, DD) else m) for v, m in nb if not isinstance(m, DD) or m.atom is None]
        with in_scope(scope):
            g = simp(g)
            g = tidy(undiv(g), frozenset(v.id for v, _ in nb))
            out = []
            with assume(g):
                for x in xs:
                    if isinstance(x, DD):
                        out.append(simp(subst(x, mp)))
                    else:
                        out.append(subst(x, mp))
        r = rebase(nb, g, out)
        return r if r is not None else (nb, g, out)
    return None


def tighten(binders, guard):
    """b < n under a test b < m with m <= n: b < m"""
    ids = frozenset(b.id for b, _ in binders)
    for a, pol in literals(guard):
        if a.kind != "ge":
            continue
        p = a.args[0] if pol else psub(pneg(a.args[0]), P1)
        on = [b for b, _ in binders if b.id in p.fv]
        if len(on) != 1 or p.t.get(((on[0].id, 1),)) != -1:
            continue
        b = on[0]
        m = padd(p, padd(patom(b), P1))
        if (m.fv & ids) or has_div(m):
            continue
        n = dict((x.id, y) for x, y in binders)[b.id]
        if isinstance(n, DD) or n is m or not (holds(ge0(m)) and holds(ge0(psub(n, m)))):
            continue
        binders = tuple((x, m if x is b else y) for x, y in binders)
        with in_scope(binders):
            guard = simp(guard)
        return tighten(binders, guard)
    return binders, guard


def undiv(g):
    """comparisons with a quotient as comparisons with the dividend"""
    if g.atom is None:
        return g
    a = g.atom
    n = CTX.push([(a, True)])
    h = undiv(g.hi)
    CTX.pop(n)
    n = CTX.push([(a, False)])
    l = undiv(g.lo)
    CTX.pop(n)
    return ite(undiv_atom(a), h, l)


def undiv_atom(a):
    if a.kind != "ge":
        return atomdd(a)
    p = a.args[0]
    ds = [(m, c) for m, c in p.t.items() if any(TERMS[x].kind == "div" for x, _ in m)]
    if len(ds) != 1:
        return atomdd(a)
    m, c = ds[0]
    if len(m) != 1 or m[0][1] != 1 or c not in (1, -1):
        return atomdd(a)
    x, y = TERMS[m[0][0]].args
    if not (holds(ge0(x)) and holds(ge0(psub(y, P1)))):
        return atomdd(a)
    r = dict(p.t)
    del r[m]
    r = mkpoly(r)
    if c == 1:      # x / y >= -r  <=>  x >= -r * y
        return ge0(padd(x, pmul(r, y)))
    # r >= x / y  <=>  x < (r + 1) * y
    return ge0(psub(psub(pmul(padd(r, P1), y), x), P1))


def tidy(g, ids):
    """drop tests that do not mention the bound variables where the guard does not need them"""
    done = set()
    while True:
        for a in atoms_of(g):
            if a.id in done or (a.fv & ids):
                continue
            done.add(a.id)
            hi, lo = cofactor(g, a, True), cofactor(g, a, False)
            A_, N_ = atomdd(a), b_not(atomdd(a))

            def under(c, x):
                with assume(c):
                    return simp(x)

            def implies(c, x, y):
                with assume(c):
                    x = simp(x)
                    with assume(x):
                        return simp(b_and(x, b_not(y))) is FALSE
            if hi is FALSE or lo is FALSE:
                continue
            both = b_and(hi, lo)
            if implies(A_, hi, lo) and implies(N_, lo, hi):
                new = simp(both)
            elif under(N_, hi) is under(N_, lo):
                new = hi
            elif under(A_, lo) is under(A_, hi):
                new = lo
            else:
                continue
            g = new
            break
        else:
            return g


def mk_sum(binders, guard, body):
    """sum over binders [(b, n)] (0 <= b < n), guard, of a numeric DD; result DD"""
    binders = tuple(binders)
    r = units(binders, (guard, body))
    if r is not None:
        binders, (guard, body) = r
    r = rebase(binders, guard, [body])
    if r is not None:
        binders, guard, (body,) = r
    # ranges that are decision diagrams are split outwards
    for i, (b, n) in enumerate(binders):
        if isinstance(n, DD):
            if n.atom is None:
                binders = binders[:i] + ((b, n.leaf),) + binders[i + 1:]
            else:
                at = n.atom
                return mk_sum_cond(binders[:i], at,
                                   lambda pol: (binders[:i] + ((b, cofactor(n, at, pol)),) + binders[i + 1:],
                                                cofactor(guard, at, pol), cofactor(body, at, pol)))
    ids = frozenset(b.id for b, _ in binders)
    with in_scope(binders):
        guard = simp(guard)
    binders, guard = tighten(binders, guard)
    with in_scope(binders):
        with assume(guard):
            body = simp(body)
    if guard is FALSE:
        return D0
    # hoist
    for d in (guard, body):
        for a in atoms_of(d):
            if not (a.fv & ids):
                return ite(atomdd(a),
                           mk_sum(binders, cofactor(guard, a, True), cofactor(body, a, True)),
                           mk_sum(binders, cofactor(guard, a, False), cofactor(body, a, False)))
    if body.atom is not None:
        a = body.atom
        return add(mk_sum(binders, b_and(guard, atomdd(a)), body.hi),
                   mk_sum(binders, b_and(guard, b_not(atomdd(a))), body.lo))
    p = body.leaf
    if not p.t:
        return D0
    # eliminate a binder that the guard fixes
    for a, pol in literals(guard):
        if a.kind == "eq" and pol and a.args[1]:
            for i, (b, n) in enumerate(binders):
                e = solve_for(a.args[0], b)
                if e is not None and not any(b.id in m.fv for _, m in binders[i + 1:]):
                    rest = binders[:i] + binders[i + 1:]
                    mp = {b.id: leaf(e)}
                    g2 = subst(cofactor(guard, a, True), mp)
                    inr = b_and(ge0(e), ge0(psub(psub(n, e), P1)))
                    return mk_sum(rest, b_and(inr, g2), subst(body, mp))
    if not binders:
        return ite(guard, body, D0)
    res = D0
    for m, c in p.t.items():
        inv, varm = [], []
        for a, e in m:
            (varm if TERMS[a].fv & ids else inv).append((a, e))
        pre = mono_poly(tuple(inv), c)
        res = add(res, mul(leaf(pre), _sum_mono(binders, guard, tuple(varm))))
    return res


def mk_sum_cond(_pre, at, f):
    r = []
    for pol in (True, False):
        n = CTX.push([(at, pol)])
        try:
            r.append(mk_sum(*f(pol)))
        finally:
            CTX.pop(n)
    return ite(atomdd(at), r[0], r[1])


def _sum_mono(binders, guard, m):
    nested = [(a, e) for a, e in m if TERMS[a].kind == "sum" and e == 1]
    if len(nested) >= 1:
        a = TERMS[nested[0][0]]
        bs, g, mm = a.args
        bs, g, mm = fresh_rename(bs, g, leaf(mm))
        rest = tuple(x for x in m if x[0] != a.id)
        body = mul(leaf(mono_poly(rest)), mm)
        if body.atom is None and len(body.leaf.t) == 1:
            (m2, c2), = body.leaf.t.items()
            if c2 == 1:
                return _sum_mono(tuple(binders) + tuple(bs), b_and(guard, g), m2)
        return mk_sum(tuple(binders) + tuple(bs), b_and(guard, g), body)
    # ranges known to be empty / counting
    if m == () and guard is TRUE and all(not (n.fv & frozenset(b.id for b, _ in binders)) for _, n in binders):
        r = P1
        for _, n in binders:
            r = pmul(r, n)
        return leaf(r)
    for b, n in binders:
        if n.const is not None and n.const <= 0:
            return D0
    if len(binders) == 1 and binders[0][1].const == 1:
        mp = {binders[0][0].id: D0}
        return ite(subst(guard, mp), subst(leaf(mono_poly(m)), mp), D0)
    binders, g, mm = canon(binders, guard, leaf(mono_poly(m)))
    if not (mm.atom is None and len(mm.leaf.t) == 1 and list(mm.leaf.t.values()) == [1]):
        return mk_sum(binders, g, mm)
    (m2, _), = mm.leaf.t.items()
    nn = all(TERMS[a].nonneg for a, _ in m2)
    srt = "i" if all(TERMS[a].sort == "i" for a, _ in m2) else "f"
    t = term("sum", (binders, g, mono_poly(m2)), srt, nn, bound=[b for b, _ in binders])
    return leaf(patom(t))


CANON = [term("cb", (i,), "i", True, selfvar=True) for i in range(48)]


def canon(binders, *xs):
    """de-Bruijn style names: bound variables become cb_d, d = nesting depth of what is inside"""
    used = EMPTY
    for x in xs:
        used = used | _inner(x)
    for _, n in binders:
        used = used | _inner(n)
    d = 0
    for c in CANON:
        if c.id in used:
            d = max(d, c.args[0] + 1)
    mp, nb = {}, []
    if d + len(binders) > len(CANON):
        raise Undecided("nesting too deep")
    for k, (b, n) in enumerate(binders):
        c = CANON[d + k]
        nb.append((c, subst(n, mp) if mp else n))
        mp[b.id] = leaf(patom(c))
    return (tuple(nb),) + tuple(subst(x, mp) for x in xs)


_innermemo = {}


def _inner(x):
    """ids of canonical binders bound or free anywhere inside x"""
    if isinstance(x, (Term, Poly, DD)):
        k = (type(x).__name__, x.id)
        r = _innermemo.get(k)
        if r is not None:
            return r
        if isinstance(x, Term):
            r = _inner(x.args)
            if x.kind == "cb":
                r = r | frozenset((x.id,))
        elif isinstance(x, Poly):
            r = EMPTY
            for m in x.t:
                for a, _ in m:
                    r = r | _inner(TERMS[a])
        else:
            r = _inner(x.leaf) if x.atom is None else _inner(x.atom) | _inner(x.hi) | _inner(x.lo)
        _innermemo[k] = r
        return r
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            r = r | _inner(y)
        return r
    return EMPTY


def solve_for(p, b):
    """p == 0 solved for the binder b when it occurs once with coefficient +-1"""
    k = ((b.id, 1),)
    c = p.t.get(k)
    if c not in (1, -1):
        return None
    rest = dict(p.t)
    del rest[k]
    r = mkpoly(rest)
    if b.id in r.fv:
        return None
    return pneg(r) if c == 1 else r


def mk_max(binders, guard, body, init):
    """maximum of init and body over the domain; init and body are DDs (reals)"""
    binders = tuple(binders)
    r = units(binders, (guard, body))
    if r is not None:
        binders, (guard, body) = r
        if not binders:
            return ite(guard, fmax(init, body), init)
    r = rebase(binders, guard, [body])
    if r is not None:
        binders, guard, (body,) = r
    for i, (b, n) in enumerate(binders):
        if isinstance(n, DD):
            if n.atom is None:
                binders = binders[:i] + ((b, n.leaf),) + binders[i + 1:]
            else:
                at = n.atom
                return ite(atomdd(at), *[mk_max(binders[:i] + ((b, cofactor(n, at, pol)),) + binders[i + 1:],
                                                cofactor(guard, at, pol), cofactor(body, at, pol),
                                                cofactor(init, at, pol)) for pol in (True, False)])
    ids = frozenset(b.id for b, _ in binders)
    with in_scope(binders):
        guard = simp(guard)
    binders, guard = tighten(binders, guard)
    with in_scope(binders):
        with assume(guard):
            body = simp(body)
    if guard is FALSE:
        return init
    for d in (guard, body):
        for a in atoms_of(d):
            if not (a.fv & ids):
                return ite(atomdd(a), *[mk_max(binders, cofactor(guard, a, pol), cofactor(body, a, pol),
                                               cofactor(init, a, pol)) for pol in (True, False)])

    def go(iv):
        bs, g, bd = binders, guard, body
        # nested maximum starting at -inf inside the body
        if bd.atom is None and len(bd.leaf.t) == 1:
            (m, c), = bd.leaf.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and TERMS[m[0][0]].kind == "max":
                t = TERMS[m[0][0]]
                b2, g2, bd2, i2 = t.args
                if i2 is patom(NEG_INF):
                    b2, g2, bd2 = fresh_rename(b2, g2, bd2)
                    bs, g, bd = bs + b2, b_and(g, g2), bd2
        bs, g, bd = canon(bs, g, bd)
        return leaf(patom(term("max", (bs, g, bd, iv), "f", bound=[b for b, _ in bs])))
    return dmap(go, init)


def mk_argmax(binders, guard, key, val, ikey, ival, strict):
    """value of the first (strict) or last (not strict) maximal key, ival when nothing beats ikey"""
    bs, g, k, v = canon(tuple(binders), guard, key, val)
    return dmap2(lambda a, b: leaf(patom(term("argmax", (bs, g, k, v, a, b, strict), "i", True,
                                              bound=[x for x, _ in bs]))), ikey, ival)


def mk_any(binders, guard):
    """exists binders: guard"""
    binders = tuple(binders)
    r = units(binders, (guard,))
    if r is not None:
        binders, (guard,) = r
        if not binders:
            return guard
    r = rebase(binders, guard, [])
    if r is not None:
        binders, guard = r[0], r[1]
    for i, (b, n) in enumerate(binders):
        if isinstance(n, DD):
            if n.atom is None:
                binders = binders[:i] + ((b, n.leaf),) + binders[i + 1:]
            else:
                at = n.atom
                return ite(atomdd(at), *[mk_any(binders[:i] + ((b, cofactor(n, at, pol)),) + binders[i + 1:],
                                                cofactor(guard, at, pol)) for pol in (True, False)])
    if len(binders) == 1:
        # 0 <= b < n-1 where b = -1 would never do: the same as 0 <= b < n, one down
        b, n = binders[0]
        if n.const is None and n.t.get((), 0) < 0 and not has_div(n):
            if simp(subst(guard, {b.id: num(-1)})) is FALSE:
                b2 = binder("m")
                return mk_any(((b2, padd(n, P1)),), simp(subst(guard, {b.id: sub(leaf(patom(b2)), D1)})))
    ids = frozenset(b.id for b, _ in binders)
    with in_scope(binders):
        guard = simp(guard)
    if guard is FALSE:
        return FALSE
    binders, guard = tighten(binders, guard)
    for a in atoms_of(guard):
        if not (a.fv & ids):
            return ite(atomdd(a), mk_any(binders, cofactor(guard, a, True)),
                       mk_any(binders, cofactor(guard, a, False)))
    if guard is TRUE:
        if all(not (n.fv & ids) for _, n in binders):
            r = TRUE
            for _, n in binders:
                r = b_and(r, ge0(psub(n, P1)))
            return r
    # distribute over the disjuncts of a chain so that equal questions look equal
    out = FALSE
    for path in disjuncts(guard):
        out = b_or(out, _any1(binders, path))
    return out


def disjuncts(g):
    """cubes of a boolean DD, tests independent of earlier failing tests where possible"""
    cubes = []

    def rec(d, acc):
        if d is TRUE:
            cubes.append(acc)
        elif d is not FALSE:
            rec(d.hi, acc + [(d.atom, True)])
            rec(d.lo, acc + [(d.atom, False)])
    rec(g, [])
    # drop literals that are not needed: cube without literal still implies g
    res = []
    for c in cubes:
        i = 0
        while i < len(c):
            d = c[:i] + c[i + 1:]
            x = g
            for a, p in d:
                x = cofactor(x, a, p)
            if x is TRUE:
                c = d
            else:
                i += 1
        if c not in res:
            res.append(c)
    return [ands([atomdd(a) if p else b_not(atomdd(a)) for a, p in c]) for c in res]


def _any1(binders, guard):
    # one-point rule
    for a, pol in literals(guard):
        if a.kind == "eq" and pol and a.args[1]:
            for i, (b, n) in enumerate(binders):
                e = solve_for(a.args[0], b)
                if e is not None and not any(b.id in m.fv for _, m in binders[i + 1:]):
                    rest = binders[:i] + binders[i + 1:]
                    mp = {b.id: leaf(e)}
                    g2 = b_and(b_and(ge0(e), ge0(psub(psub(n, e), P1))),
                               subst(cofactor(guard, a, True), mp))
                    return mk_any(rest, g2) if rest else g2
    if not binders:
        return guard
    used = [(b, n) for b, n in binders]
    bs, g = canon(tuple(used), guard)
    return atomdd(term("any", (bs, g), "b", bound=[b for b, _ in bs]))


def mk_first(b, n, guard):
    """least b in [0,n) with guard (meaningful only where one exists); n leaf poly"""
    bs, g = canon(((b, n),), guard)
    return leaf(patom(term("first", (bs, g), "i", True, bound=[x for x, _ in bs])))


# ------------------------------------------------------------------ arrays
def a_const(d, rank=1, sort=None):
    if sort is None:
        l = next(leaves(d))
        sort = "b" if isinstance(l, bool) else ("o" if isinstance(l, Term) else "f")
    nn = sort == "i" and all(_decide_trivial(l) is TRUE or (l.const is not None and l.const >= 0) for l in leaves(d))
    return term("aconst", (d, rank), sort, nn, rank=rank)


def a_app(arr, idx):
    """partial application to leading indices (leaf polys)"""
    if not idx:
        return arr
    if arr.kind == "aconst":
        return a_const(arr.args[0], arr.rank - len(idx), arr.sort)
    if arr.kind == "app":
        return a_app(arr.args[0], arr.args[1] + tuple(idx))
    if arr.kind == "alam":
        return lam_apply(arr, tuple(idx))
    if arr.kind == "alift":
        return a_app(arr.args[0], idx[1:])
    if arr.kind == "ashift":
        return a_app(arr.args[0], (padd(arr.args[1], idx[0]),) + tuple(idx[1:]))
    if arr.kind == "aite":
        c, x, y = arr.args
        return a_ite(c, a_app(x, idx), a_app(y, idx))
    if arr.kind == "aw":
        base, bs, g, addr, val, kind = arr.args
        k, la = len(idx), len(addr)
        m = match_write(bs, g, addr[:k], tuple(idx[:la]))
        if m == "no":
            return a_app(base, idx)
        if m is not None and k >= la:
            bs2, g2, mp = m
            if la == arr.rank:
                raise Undecided("partial application of a full write")
            v = subst(val, mp)
            if not bs2:
                return a_ite(g2, a_app(v, idx[la:]), a_app(base, idx))
            if not (v.fv & frozenset(b.id for b, _ in bs2)):
                return a_ite(mk_any(bs2, g2), a_app(v, idx[la:]), a_app(base, idx))
        elif m is not None:
            bs2, g2, mp = m
            v2 = subst(val, mp)
            ad = [subst1(a, mp) for a in addr[k:]]
            return mk_aw(a_app(base, idx), bs2, g2, tuple(ad), v2, kind)
    return term("app", (arr, tuple(idx)), arr.sort, arr.nonneg, arr.rank - len(idx))


def dd_arr(d, f):
    if d.atom is None:
        return f(d.leaf)
    return a_ite(atomdd(d.atom), dd_arr(d.hi, f), dd_arr(d.lo, f))


def a_ite(c, x, y):
    if c is TRUE or x is y:
        return x
    if c is FALSE:
        return y
    assert x.rank == y.rank, (x, y)
    # both arrays extend a common one by writes: guard these writes
    cx, cy = [x], [y]
    for ch in (cx, cy):
        while ch[-1].kind == "aw" and len(ch) < 16:
            ch.append(ch[-1].args[0])
    common = next((b for b in cx if b in cy), None)
    if common is not None:
        wx = [w for w in cx[:cx.index(common)]][::-1]
        wy = [w for w in cy[:cy.index(common)]][::-1]
        r = common
        nc = b_not(c)
        for k in range(max(len(wx), len(wy))):
            p = wx[k].args if k < len(wx) else None
            q = wy[k].args if k < len(wy) else None
            if p and q and p[1] == q[1] and p[3] == q[3] and p[5] == q[5] and type(p[4]) is type(q[4]):
                if isinstance(p[4], DD):
                    v = ite(c, p[4], q[4])
                else:
                    v = a_ite(c, p[4], q[4])
                r = mk_aw(r, p[1], ite(c, p[2], q[2]), p[3], v, p[5])
            else:
                # writes of one side stay in order
                for w in wx[k:]:
                    w = w.args
                    r = mk_aw(r, w[1], b_and(c, w[2]), w[3], w[4], w[5])
                for w in wy[k:]:
                    w = w.args
                    r = mk_aw(r, w[1], b_and(nc, w[2]), w[3], w[4], w[5])
                break
        return r
    if x.kind == "aconst" and y.kind == "aconst":
        return a_const(ite(c, x.args[0], y.args[0]), x.rank, x.sort)
    return term("aite", (c, x, y), x.sort, x.nonneg and y.nonneg, x.rank)


def a_lam(binders, body, sort):
    """array defined by its elements: binders (terms) -> body (DD)"""
    if not any(b.id in body.fv for b in binders):
        return a_const(body, len(binders), sort)
    bs, body = canon(tuple((b, P0) for b in binders), body)
    bs = tuple(b for b, _ in bs)
    nn = sort == "i" and all(_decide_trivial(l) is TRUE for l in leaves(body))
    return term("alam", (bs, body), sort, nn, len(bs), bound=bs)


def lam_apply(arr, idx):
    bs, body = arr.args
    k = len(idx)
    mp = {}
    rest = []
    for b in bs[k:]:
        c = binder("l")
        rest.append(c)
        mp[b.id] = leaf(patom(c))
    for b, i in zip(bs, idx):
        mp[b.id] = leaf(i)
    d = subst(body, mp)
    return a_lam(rest, d, arr.sort) if rest else d


def mk_aw(base, bs, g, addr, val, kind="set"):
    """array equal to base except for the writes val at addr for all binders in g"""
    if g is FALSE:
        return base
    if kind == "acc" and val is D0:
        return base
    if not bs and kind == "set" and isinstance(val, Term) and base.rank == len(addr) + val.rank:
        # a changed row written back: the elements of that row change
        row = a_app(base, addr)
        x, ch = val, []
        while x is not row and x.kind == "aw":
            ch.append(x.args)
            x = x.args[0]
        if x is row:
            for _, ibs, ig, ia, iv, ik in reversed(ch):
                base = mk_aw(base, ibs, b_and(g, ig), tuple(addr) + ia, iv, ik)
            return base
    r = units(bs, (g, val) + tuple(addr)) if bs else None
    if r is not None:
        bs, xs = r
        g, val = xs[:2]
        addr = tuple(x if isinstance(x, Poly) else x.leaf for x in xs[2:])
        if g is FALSE:
            return base
    # one-point rule
    for a, pol in literals(g) if bs else ():
        if a.kind == "eq" and pol and a.args[1]:
            for i, (b, n) in enumerate(bs):
                e = solve_for(a.args[0], b)
                if e is None or isinstance(n, DD) or any(b.id in m.fv for _, m in bs[i + 1:]):
                    continue
                mp = {b.id: leaf(e)}
                ad = [subst(leaf(x), mp) for x in addr]
                if any(x.atom is not None for x in ad):
                    continue
                g2 = b_and(b_and(ge0(e), ge0(psub(psub(n, e), P1))), subst(cofactor(g, a, True), mp))
                v2 = subst(val, mp)
                return mk_aw(base, tuple(bs[:i]) + tuple(bs[i + 1:]), g2, tuple(x.leaf for x in ad), v2, kind)
    if not bs:
        # overwriting the same place again
        if base.kind == "aw" and not base.args[1] and kind == "set" and base.args[3] == addr and \
                base.args[5] == "set" and imp(base.args[2], g) is TRUE:
            base = base.args[0]
    bs2 = bs
    if bs and not all(b.kind == "cb" for b, _ in bs):
        r = canon(tuple(bs), g, val, *[leaf(a) for a in addr])
        bs2, g, val = r[0], r[1], r[2]
        if all(x.atom is None for x in r[3:]):
            addr = tuple(x.leaf for x in r[3:])
        else:
            raise Undecided("address is conditional")
    nn = base.nonneg and base.sort == "i"
    if nn and isinstance(val, Term):
        nn = val.nonneg
    elif nn:
        nn = all(isinstance(l, Poly) and (_decide_trivial(l) is TRUE or l.const is not None and l.const >= 0)
                 for l in leaves(val))
    return term("aw", (base, tuple(bs2), g, tuple(addr), val, kind), base.sort, nn,
                base.rank, bound=[b for b, _ in bs2])


class Undecided(Exception):
    pass


def sel(arr, idx):
    """read an element; idx tuple of DDs or polys; returns DD"""
    if any(isinstance(i, DD) for i in idx):
        ds = [i if isinstance(i, DD) else leaf(i) for i in idx]
        return dmapn(lambda vs: sel(arr, vs), ds)
    idx = tuple(idx)
    k = arr.kind
    if k == "aconst":
        return arr.args[0]
    if k == "app":
        return sel(arr.args[0], arr.args[1] + idx)
    if k == "alam":
        return lam_apply(arr, idx)
    if k == "alift":
        return sel(arr.args[0], idx[1:])
    if k == "ashift":
        return sel(arr.args[0], (padd(arr.args[1], idx[0]),) + idx[1:])
    if k == "aite":
        c, x, y = arr.args
        c = simp(c)
        if c is TRUE:
            return sel(x, idx)
        if c is FALSE:
            return sel(y, idx)
        with assume(c):
            a = sel(x, idx)
        with assume(b_not(c)):
            b = sel(y, idx)
        return ite(c, a, b)
    if k == "aw":
        base, bs, g, addr, val, kind = arr.args
        la = len(addr)
        r = match_write(bs, g, addr, idx[:la])
        if r == "no":
            return sel(base, idx)
        if r is None:
            with in_scope(bs):
                dead = simp(g) is FALSE
            if dead:
                return sel(base, idx)
            if kind == "acc" and la == len(idx):
                # the address is not an invertible function of the binders: test it
                rr = fresh_rename(bs, g, val, *[leaf(a) for a in addr])
                hit = ands([cmp("Eq", a, leaf(i), True) for a, i in zip(rr[3:], idx)])
                return add(sel(base, idx), mk_sum(rr[0], b_and(rr[1], hit), rr[2]))
        if r is not None:
            bs2, g2, mp = r
            v = subst(val, mp)
            if la < len(idx):
                with assume(g2):
                    v = sel(v, idx[la:])
            if kind == "acc":
                return add(sel(base, idx), mk_sum(bs2, g2, v))
            if not bs2:
                if g2 is TRUE:
                    return v
                with assume(b_not(g2)):
                    old = sel(base, idx)
                with assume(g2):
                    v = simp(v)
                return ite(g2, v, old)
            # some binders are not determined; fine when the value does not depend on them
            ids = frozenset(b.id for b, _ in bs2)
            if not (v.fv & ids):
                return ite(mk_any(bs2, g2), v, sel(base, idx))
    srt = arr.sort
    t = term("sel" if srt != "b" else "bsel", (arr, idx), srt, arr.nonneg)
    return var(t)


_match = {}


def match_write(bs, g, addr, idx):
    """Which binder values write at idx?  None: unknown, "no": none,
    (remaining binders, guard over them, substitution) otherwise."""
    key = (bs, g.id, addr, idx, CTX.key())
    if key in _match:
        return _match[key]
    r = _match_write(bs, g, addr, idx)
    _match[key] = r
    return r


def _match_write(bs, g, addr, idx):
    if bs:
        rr = fresh_rename(bs, g, *[leaf(a) for a in addr])
        nbs = rr[0]
        back = {n[0].id: o[0] for n, o in zip(nbs, bs)}
        g = rr[1]
        if any(x.atom is not None for x in rr[2:]):
            return None
        addr = tuple(x.leaf for x in rr[2:])
    else:
        nbs, back = (), {}
    eqs = [psub(a, i) for a, i in zip(addr, idx)]
    with assume(dom_dd(nbs), g):
        out = []
        for e in eqs:
            s = split_radix(e, [b for b, _ in nbs])
            out += s
        # solve piece by piece
        mp = {}
        conds = TRUE
        pend = [leaf(e) for e in out]
        progress = True
        while progress:
            progress = False
            rest = []
            for e in pend:
                e = subst(e, mp) if mp else e
                if e.atom is not None:
                    return None
                p = e.leaf
                if p.const == 0:
                    continue
                if p.const is not None:
                    return "no"
                done = False
                for b, n in nbs:
                    if b.id in mp:
                        continue
                    s = solve_for(p, b)
                    if s is not None:
                        one = {b.id: leaf(s)}
                        mp = {k: subst(v, one) for k, v in mp.items()}
                        mp[b.id] = leaf(s)
                        progress = done = True
                        break
                if not done:
                    rest.append(e)
            pend = rest
        for e in pend:
            e = subst(e, mp)
            if e.atom is not None:
                return None
            conds = b_and(conds, eq0(e.leaf))
        if pend and any(conds.fv & frozenset((b.id,)) for b, _ in nbs if b.id not in mp):
            return None
    # domain conditions of the solved binders
    dom = TRUE
    rem = []
    for b, n in nbs:
        nn = subst(leaf(n), mp)
        if b.id in mp:
            v = mp[b.id]
            dom = b_and(dom, b_and(cmp("Ge", v, D0, True), cmp("Lt", v, nn, True)))
        else:
            if nn.atom is not None:
                return None
            rem.append((b, nn.leaf))
    gg = b_and(b_and(conds, dom), subst(g, mp))
    with in_scope(rem):
        gg = simp(gg)
    if gg is FALSE:
        return "no"
    # express in terms of the original binder names
    ren = {n[0].id: leaf(patom(o[0])) for n, o in zip(nbs, bs)}
    res_mp = {}
    for n, o in zip(nbs, bs):
        if n[0].id in mp:
            res_mp[o[0].id] = mp[n[0].id]
        else:
            res_mp[o[0].id] = leaf(patom(n[0]))
    return (tuple(rem), gg, res_mp)


def split_radix(e, bvars):
    """Split e == 0 into digit equations using the coefficients of the binders as radices."""
    if e.const is not None:
        return [e]
    ids = frozenset(b.id for b in bvars)
    coefs = set()
    for m in e.t:
        bb = [(a, x) for a, x in m if a in ids]
        if len(bb) == 1 and bb[0][1] == 1:
            coefs.add(tuple((a, x) for a, x in m if a not in ids))
    # also digit structure of the other side: any monomial that divides others
    chain = sorted((c for c in coefs if c != ()), key=len)
    if not chain:
        return [e]
    for i in range(len(chain) - 1):
        if mdiv(chain[i + 1], chain[i]) is None:
            return [e]
    digits = [dict() for _ in range(len(chain) + 1)]
    for m, c in e.t.items():
        for k in range(len(chain) - 1, -1, -1):
            q = mdiv(m, chain[k])
            if q is not None:
                digits[k + 1][q] = c
                break
        else:
            digits[0][m] = c
    digits = [mkpoly(d) for d in digits]
    # e = digits[0] + chain[0]*digits[1] + ...; low digits must be smaller than the radix
    out = []
    low = digits[0]
    for k in range(len(chain)):
        radix = mono_poly(chain[k] if k == 0 else mdiv(chain[k], chain[k - 1]))
        if holds(b_and(ge0(psub(psub(radix, low), P1)), ge0(psub(padd(radix, low), P1)))):
            out.append(low)
            low = digits[k + 1]
        else:
            # merge with the next digit
            low = padd(low, pmul(radix, digits[k + 1]))
            if k + 1 < len(chain):
                # radix of the merged digit is the next chain element over the previous
                nxt = mdiv(chain[k + 1], chain[k])
                chain = chain[:k] + [chain[k]] + chain[k + 1:]
                return [e] if not out else [rebuild(out, e, chain, digits)]
    out.append(low)
    return out


def rebuild(out, e, chain, digits):
    return e


# ------------------------------------------------------------------ substitution
def subst1(p, mp):
    d = subst(leaf(p), mp)
    if d.atom is not None:
        raise Undecided("conditional address")
    return d.leaf


def subst(x, mp):
    """mp: term id -> DD (scalars) or Term (arrays).  x: DD, Poly or Term(array)."""
    if not mp:
        return x
    keys = frozenset(mp)
    memo = {}

    def go_dd(d):
        if not (d.fv & keys):
            return d
        k = ("d", d.id)
        r = memo.get(k)
        if r is None:
            if d.atom is None:
                v = d.leaf
                if isinstance(v, Poly):
                    r = go_poly(v)
                else:
                    r = go_atom(v)
            else:
                c = go_batom(d.atom)
                if c is TRUE:
                    r = go_dd(d.hi)
                elif c is FALSE:
                    r = go_dd(d.lo)
                else:
                    r = ite(c, go_dd(d.hi), go_dd(d.lo))
            memo[k] = r
        return r

    def go_poly(p):
        if not (p.fv & keys):
            return leaf(p)
        k = ("p", p.id)
        r = memo.get(k)
        if r is None:
            keep, r = {}, None
            parts = []
            for m, c in p.t.items():
                if any(TERMS[a].fv & keys for a, _ in m):
                    parts.append((m, c))
                else:
                    keep[m] = c
            r = leaf(mkpoly(keep))
            for m, c in parts:
                f = num(c)
                for a, e in m:
                    t = go_atom(TERMS[a])
                    if e >= 0:
                        for _ in range(e):
                            f = mul(f, t)
                    else:
                        for _ in range(-e):
                            f = fdiv(f, t)
                r = add(r, f)
            memo[k] = r
        return r

    def go_atom(t):
        """scalar term -> DD"""
        if not (t.fv & keys):
            return var(t)
        if t.id in mp:
            return mp[t.id]
        k = ("t", t.id)
        r = memo.get(k)
        if r is None:
            r = rebuild_term(t)
            memo[k] = r
        return r

    def go_arr(t):
        if not (t.fv & keys):
            return t
        if t.id in mp:
            return mp[t.id]
        k = ("a", t.id)
        r = memo.get(k)
        if r is not None:
            return r
        kd = t.kind
        if kd == "aconst":
            r = a_const(go_dd(t.args[0]), t.args[1], t.sort)
        elif kd == "app":
            ix = [go_poly(i) for i in t.args[1]]
            x = go_arr(t.args[0])

            def mk(k, acc):
                if k == len(ix):
                    return a_app(x, tuple(acc))
                return dd_arr(simp(ix[k]), lambda q: mk(k + 1, acc + [q]))
            r = mk(0, [])
        elif kd == "aite":
            c = go_dd(t.args[0])
            if c is TRUE:
                r = go_arr(t.args[1])
            elif c is FALSE:
                r = go_arr(t.args[2])
            else:
                r = a_ite(c, go_arr(t.args[1]), go_arr(t.args[2]))
        elif kd == "aw":
            base, bs, g, addr, val, kind = t.args
            nb = go_arr(base)
            bs, inner = open_binders(bs)
            if inner:
                g, val = subst(g, inner), subst(val, inner)
                addr = tuple(subst1(a, inner) for a in addr)
            bs2 = []
            for b, n in bs:
                d = go_poly(n)
                if d.atom is not None:
                    d = simp(d)
                if d.atom is not None:
                    if any(x.id in y.fv for x, _ in bs for y in atoms_of(d)):
                        raise Undecided("conditional range")
                bs2.append((b, d))

            cases = any(d.atom is not None for _, d in bs2)

            def build(k, done):
                # one write per case of the ranges
                if k < len(bs2):
                    b, d = bs2[k]
                    return dd_arr(simp(d) if d.atom is not None else d, lambda q: build(k + 1, done + ((b, q),)))
                keep = dict(memo) if cases else None
                with assume(dom_dd(done)):
                    g2 = simp(go_dd(g))
                    with assume(g2):
                        v2 = go_dd(val) if isinstance(val, DD) else go_arr(val)
                        ad = [go_poly(a) for a in addr]
                        ad = [simp(a) if a.atom is not None else a for a in ad]
                if cases:
                    memo.clear()
                    memo.update(keep)
                if any(x.id in y.fv for a in ad for y in atoms_of(a) for x, _ in done):
                    raise Undecided("conditional address")

                def place(k, got):
                    # one write per case of the address
                    if k < len(ad):
                        return dd_arr(ad[k], lambda q: place(k + 1, got + (q,)))
                    return mk_aw(nb, done, g2, got, v2, kind)
                return place(0, ())
            r = build(0, ())
        elif kd == "alam":
            bs, body = t.args
            nb = [binder("l") for _ in bs]
            body = subst(body, {b.id: leaf(patom(c)) for b, c in zip(bs, nb)})
            r = a_lam(nb, go_dd(body), t.sort)
        elif kd == "alift":
            x = go_arr(t.args[0])
            r = term("alift", (x,), x.sort, x.nonneg, x.rank + 1)
        elif kd == "ashift":
            x = go_arr(t.args[0])
            r = dd_arr(go_poly(t.args[1]), lambda q: term("ashift", (x, q), x.sort, x.nonneg, x.rank))
        elif kd == "auf":
            r = term("auf", tuple(go_any(a) for a in t.args), t.sort, t.nonneg, t.rank)
        else:
            raise Undecided("cannot substitute in array " + kd)
        memo[k] = r
        return r

    def go_any(a):
        if isinstance(a, DD):
            return go_dd(a)
        if isinstance(a, Poly):
            d = go_poly(a)
            if d.atom is not None:
                raise Undecided("conditional argument")
            return d.leaf
        if isinstance(a, Term):
            if a.rank:
                return go_arr(a)
            d = go_atom(a)
            if d.atom is not None:
                raise Undecided("conditional argument")
            return d.leaf
        if isinstance(a, tuple):
            return tuple(go_any(x) for x in a)
        return a

    def open_binders(bs):
        """always rename bound variables to fresh ones (no capture)"""
        m2, nb = {}, []
        for b, n in bs:
            c = binder(b.args[0] if b.kind == "bnd" else "q")
            nb.append((c, subst1(n, m2) if m2 else n))
            m2[b.id] = leaf(patom(c))
        return tuple(nb), m2

    def scoped(bs, xs):
        bs, inner = open_binders(bs)
        xs = [subst(x, inner) for x in xs]
        bs2 = [(b, go_poly(n)) for b, n in bs]
        return bs2, xs

    def range_ctx(bs2):
        d = TRUE
        for b, n in bs2:
            d = b_and(d, cmp("Lt", leaf(patom(b)), n, True))
        return assume(d)

    def rebuild_term(t):
        kd, a = t.kind, t.args
        if kd == "sel" or kd == "bsel":
            return sel(go_arr(a[0]), tuple(go_poly(i) for i in a[1]))
        if kd == "div":
            return idiv(go_poly(a[0]), go_poly(a[1]))
        if kd == "inv":
            return fdiv(D1, go_poly(a[0]))
        if kd == "uf":
            if a[0] == "exp":
                return fexp(go_poly(a[1]))
            return uf(a[0], [go_arg(x) for x in a[1:]], t.sort, t.nonneg)
        if kd == "buf":
            return uf(a[0], [go_arg(x) for x in a[1:]], "b")
        if kd == "sum":
            bs, (g, m) = scoped(a[0], [a[1], leaf(a[2])])
            with range_ctx(bs):
                g = simp(go_dd(g))
                with assume(g):
                    m = go_dd(m)
            return mk_sum(tuple(bs), g, m)
        if kd == "max":
            bs, (g, b) = scoped(a[0], [a[1], a[2]])
            with range_ctx(bs):
                g = simp(go_dd(g))
                with assume(g):
                    b = go_dd(b)
            return mk_max(tuple(bs), g, b, go_poly(a[3]))
        if kd == "argmax":
            bs, (g, k, v) = scoped(a[0], [a[1], a[2], a[3]])
            with range_ctx(bs):
                g = simp(go_dd(g))
                with assume(g):
                    k, v = go_dd(k), go_dd(v)
            bs3 = []
            for b, n in bs:
                n = simp(n)
                if n.atom is not None:
                    raise Undecided("conditional range")
                bs3.append((b, n.leaf))
            return mk_argmax(tuple(bs3), g, k, v, go_poly(a[4]), go_poly(a[5]), a[6])
        if kd == "first":
            bs, (g,) = scoped(a[0], [a[1]])
            (b, n), = bs
            with range_ctx(bs):
                g = simp(go_dd(g))
            return dmap(lambda nn: mk_first(b, nn, g), n)
        if kd == "ge":
            return dmap(lambda p: ge0(p), go_poly(a[0]))
        if kd == "eq":
            return dmap(lambda p: eq0(p, a[1]), go_poly(a[0]))
        if kd == "gt":
            return dmap(lambda p: gt0(p), go_poly(a[0]))
        if kd == "any":
            bs, (g,) = scoped(a[0], [a[1]])
            with range_ctx(bs):
                g = simp(go_dd(g))
            return mk_any(tuple(bs), g)
        if kd == "oeq":
            return oeq(go_atom(a[0]), go_atom(a[1]))
        if kd in ("lit", "obj"):
            return leaf(term(kd, go_any(a), "o"))
        raise Undecided("cannot substitute in " + kd)

    def go_arg(x):
        if isinstance(x, Poly):
            return go_poly(x)
        if isinstance(x, DD):
            return go_dd(x)
        if isinstance(x, Term):
            return go_arr(x) if x.rank else go_atom(x)
        if isinstance(x, tuple):
            return go_any(x)
        return x

    def go_batom(t):
        if not (t.fv & keys):
            return atomdd(t)
        return go_atom(t)

    if isinstance(x, DD):
        return go_dd(x)
    if isinstance(x, Poly):
        d = go_poly(x)
        if d.atom is not None:
            return d
        return d.leaf
    if isinstance(x, Term):
        return go_arr(x) if x.rank else go_atom(x)
    raise TypeError(x)


# ------------------------------------------------------------------ printing
def show(x, depth=0):
    if isinstance(x, DD):
        if x.atom is None:
            return show(x.leaf, depth)
        if x.hi is TRUE and x.lo is FALSE:
            return "[%s]" % show(x.atom, depth)
        if depth > 30:
            return "..."
        return "(%s ? %s : %s)" % (show(x.atom, depth + 1), show(x.hi, depth + 1), show(x.lo, depth + 1))
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in x.t.items():
            s = "*".join(show(TERMS[a], depth + 1) + ("^%d" % e if e != 1 else "") for a, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = "%s*%s" % (c, s)
            out.append(s)
        return " + ".join(out)
    if isinstance(x, Term):
        k, a = x.kind, x.args
        if k == "sym":
            return a[0]
        if k == "asym":
            return a[0]
        if k == "bnd":
            return "%s%d" % a
        if k == "cb":
            return "#%d" % a[0]
        if depth > 30:
            return "..."
        if k in ("sel", "bsel"):
            return "%s[%s]" % (show(a[0], depth + 1), ", ".join(show(i, depth + 1) for i in a[1]))
        if k == "ge":
            return "%s >= 0" % show(a[0], depth + 1)
        if k == "eq":
            return "%s == 0" % show(a[0], depth + 1)
        if k == "gt":
            return "%s > 0" % show(a[0], depth + 1)
        if k in ("sum", "max", "any", "first", "argmax"):
            b = ", ".join("%s<%s" % (show(v), show(n, depth + 1)) for v, n in a[0])
            g = "" if a[1] is TRUE else " | " + show(a[1], depth + 1)
            if k == "sum":
                return "Sum{%s%s}(%s)" % (b, g, show(a[2], depth + 1))
            return "%s{%s%s}(%s)" % (k, b, g, ", ".join(show(y, depth + 1) for y in a[2:]))
        if k == "aw":
            base, bs, g, addr, val, kind = a
            b = ", ".join("%s<%s" % (show(v), show(n, depth + 1)) for v, n in bs)
            return "%s{%s%s: [%s] %s %s}" % (show(base, depth + 1), b, "" if g is TRUE else " | " + show(g, depth + 1),
                                             ", ".join(show(y, depth + 1) for y in addr),
                                             ":=" if kind == "set" else "+=", show(val, depth + 1))
        return "%s(%s)" % (k, ", ".join(show(y, depth + 1) for y in a))
    if isinstance(x, tuple):
        return "(" + ", ".join(show(y, depth) for y in x) + ")"
    return str(x)
