"""Provable equality of two decision diagrams in the current context."""
import time
from .terms import *
from . import terms as T
from . import prove
from itertools import permutations

LIMIT = [0.0]
_memo = {}


def tick():
    if LIMIT[0] and time.time() > LIMIT[0]:
        raise Undecided("comparison takes too long")


def equal(a, b, depth=0):
    """a == b wherever the context holds (sound, incomplete)"""
    tick()
    if a is b:
        return True
    k = (a.id, b.id, CTX.key())
    r = _memo.get(k)
    if r is None:
        _memo[k] = False
        r = _memo[k] = _equal(a, b, depth)
    return r


def _equal(a, b, depth):
    a, b = simp(a), simp(b)
    if a is b:
        return True
    if not prove.consistent():
        return True
    parts = digits()
    if parts:
        n = CTX.push([(p.atom, p.hi is TRUE) for p in parts if p.atom is not None])
        try:
            if any(p is FALSE or (p.atom is not None and CTX.known[p.atom.id] != (p.hi is TRUE)) for p in parts):
                return True
            return equal(a, b, depth + 1)
        finally:
            CTX.pop(n)
    sub = eqsubst()
    mp = {x: leaf(q) for x, q in sub.items() if TERMS[x].kind in ("sym", "bnd") and (x in a.fv or x in b.fv)}
    if mp:
        a, b = simp(subst(a, mp)), simp(subst(b, mp))
        if a is b:
            return True
    if depth > 40:
        return False
    at = None
    for d in (a, b):
        if d.atom is not None and (at is None or d.atom.id < at.id):
            at = d.atom
    if at is not None:
        for pol in (True, False):
            n = CTX.push([(at, pol)])
            try:
                if not equal(cofactor(a, at, pol), cofactor(b, at, pol), depth + 1):
                    return False
            finally:
                CTX.pop(n)
        return True
    a2, b2 = refresh(a), refresh(b)
    if a2 is not a or b2 is not b:
        return equal(a2, b2, depth + 1)
    x, y = a.leaf, b.leaf
    if isinstance(x, Poly) and isinstance(y, Poly):
        r = equal_poly(x, y, depth) or pinched(psub(x, y), depth)
    elif isinstance(x, Term) and isinstance(y, Term):
        r = same_term(x, y, depth)
    else:
        r = False
    return r or clash(depth)


def pinched(d, depth):
    """the context has both d <= 0 and d >= 0 (up to equivalent terms)"""
    n = pneg(d)
    got = [False, False]
    for a, p in CTX.lits:
        if a.kind == "gt" and not p:
            for i, q in enumerate((d, n)):
                if not got[i] and (a.args[0] is q or equal_poly(a.args[0], q, depth + 1)):
                    got[i] = True
    return all(got)


def clash(depth):
    """two tests of the context that contradict each other up to equivalent terms"""
    if depth > 20:
        return False
    gs = [(a.args[0], p) for a, p in CTX.lits if a.kind == "gt"]
    for n, (x, p) in enumerate(gs):
        for y, q in gs[n + 1:]:
            if p and q and equal_poly(x, pneg(y), depth + 1):
                return True
            if p != q and equal_poly(x, y, depth + 1):
                return True
    return False


def refresh(d):
    """leaf with the elements of written arrays looked up again in the current context"""
    x = d.leaf
    if not isinstance(x, Poly):
        return d
    mp = {}
    for m in x.t:
        for a, _ in m:
            t = TERMS[a]
            if t.kind == "sel" and t.args[0].kind == "aw" and a not in mp:
                v = sel(t.args[0], t.args[1])
                if v.atom is not None or v.leaf is not patom(t):
                    mp[a] = v
    if not mp:
        return d
    r = D0
    for m, c in x.t.items():
        f = num(c)
        for a, e in m:
            v = mp.get(a, var(TERMS[a]))
            for _ in range(abs(e)):
                f = mul(f, v) if e > 0 else fdiv(f, v)
        r = add(r, f)
    return simp(r)


_digits = {}


def digits():
    """equations between positions i + di*j + di*dj*k = i' + ... split into their digits"""
    ge, eq, ne = prove.facts_of_ctx()
    k = CTX.key()
    r = _digits.get(k)
    if r is None:
        r = ranges(ge)
        sub, rest = prove.orient(tuple(eq))
        for p in list(eq) + [q for q in rest if q not in eq]:
            cm = None
            for m in p.t:
                d = dict(m)
                cm = d if cm is None else {a: min(x, d[a]) for a, x in cm.items() if a in d}
            if cm and all(x > 0 for x in cm.values()):
                cm = tuple(sorted(cm.items()))
                if cm not in p.t and all(holds(ge0(psub(patom(TERMS[a]), P1))) for a, _ in cm):
                    q = eq0(mkpoly({mdiv(m, cm): c for m, c in p.t.items()}))
                    if q is not TRUE and not (q.atom is not None and q.atom.id in CTX.known and
                                              CTX.known[q.atom.id] == (q.hi is TRUE)):
                        r.append(q)
                    continue
            occ = {}
            for m in p.t:
                for a, e in m:
                    occ.setdefault(a, []).append(e)
            bs = [TERMS[a] for a, es in occ.items() if es == [1]]
            parts = split_radix(p, bs)
            if len(parts) > 1:
                r += [x for x in (eq0(q) for q in parts) if x is not TRUE and
                      not (x.atom is not None and x.atom.id in CTX.known and CTX.known[x.atom.id] == (x.hi is TRUE))]
        _digits[k] = r
    return r


def ranges(ge):
    """0 <= c*q + r < c with 0 <= r < c leaves q == 0"""
    out = []
    for n, f in enumerate(ge):
        for g in ge[n + 1:]:
            t = padd(padd(f, g), P1)
            if len(t.t) != 1:
                continue
            (c, k), = t.t.items()
            if c == () or k != 1:
                continue
            q = {}
            r = {}
            for m, x in f.t.items():
                d = mdiv(m, c)
                if d is None:
                    r[m] = x
                else:
                    q[d] = x
            if not q:
                continue
            q, r = mkpoly(q), mkpoly(r)
            if q.const is not None or not holds(b_and(ge0(r), ge0(psub(psub(mono_poly(c), P1), r)))):
                continue
            z = eq0(q)
            if z is not TRUE and not (z.atom is not None and CTX.known.get(z.atom.id) == (z.hi is TRUE)):
                out.append(z)
    return out


def eqsubst():
    ge, eq, ne = prove.facts_of_ctx()
    sub, rest = prove.orient(tuple(eq))
    return sub


def equal_poly(x, y, depth):
    d = psub(x, y)
    if d.const is not None:
        return d.const == 0
    sub = eqsubst()
    if sub:
        mp = {a: leaf(q) for a, q in sub.items() if TERMS[a].kind in ("sym", "bnd")}
        if mp and any(a in d.fv for a in mp):
            d2 = simp(subst(leaf(d), mp))
            if d2.atom is not None:
                return depth < 40 and equal(d2, D0, depth + 1)
            d = d2.leaf
        d = prove.psubst(d, sub)
        if d.const is not None:
            return d.const == 0
    # an integer difference that the facts bound from both sides
    if all(TERMS[a].sort == "i" for m in d.t for a, _ in m):
        if prove._ge(d) and prove._ge(pneg(d)):
            return True
    # cancel monomials that are equal up to equivalent atoms
    pos = [(m, c) for m, c in d.t.items()]
    left = []
    while pos:
        m, c = pos.pop()
        hit = None
        for i, (n, e) in enumerate(pos):
            if len(m) == len(n) and same_mono(m, n, depth):
                hit = i
                break
        if hit is None:
            # split a conditional inside? give up on this one
            left.append((m, c))
            return False
        n, e = pos.pop(hit)
        s = c + e
        if s != 0:
            pos.append((n, s))
    return not left


def same_mono(m, n, depth):
    n = list(n)
    for a, e in m:
        for i, (b, f) in enumerate(n):
            if e == f and (a == b or same_term(TERMS[a], TERMS[b], depth)):
                del n[i]
                break
        else:
            return False
    return not n


def same_term(s, t, depth):
    if s is t:
        return True
    if s.kind != t.kind or depth > 12 or s.sort != t.sort:
        return False
    tick()
    k = s.kind
    if k in ("sum", "max", "argmax"):
        return same_bound(s, t, depth)
    if k in ("sel", "bsel"):
        if len(s.args[1]) != len(t.args[1]):
            return False
        for x, y in zip(s.args[1], t.args[1]):
            if x is not y and not equal_poly(x, y, depth + 1):
                return False
        return s.args[0] is t.args[0] or same_array(s.args[0], t.args[0], depth + 1)
    if k in ("uf", "buf", "div", "inv"):
        if len(s.args) != len(t.args):
            return False
        return all(same_arg(x, y, depth + 1) for x, y in zip(s.args, t.args))
    if k == "first":
        return same_bound(s, t, depth)
    return False


def same_arg(x, y, depth):
    if x is y or x == y:
        return True
    if isinstance(x, Poly) and isinstance(y, Poly):
        return equal_poly(x, y, depth)
    if isinstance(x, DD) and isinstance(y, DD):
        return equal(x, y, depth)
    if isinstance(x, Term) and isinstance(y, Term):
        if x.rank or y.rank:
            return x.rank == y.rank and same_array(x, y, depth)
        return same_term(x, y, depth)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_arg(p, q, depth) for p, q in zip(x, y))
    return False


def same_array(x, y, depth):
    """element-wise equal"""
    if x is y:
        return True
    if x.rank != y.rank or depth > 12:
        return False
    ix = tuple(patom(binder("x")) for _ in range(x.rank))
    return equal(sel(x, ix), sel(y, ix), depth + 1)


def same_bound(s, t, depth):
    bs, bt = s.args[0], t.args[0]
    if len(bs) != len(bt) or len(bs) > 4:
        return False
    k = s.kind
    rs = fresh_rename(bs, *[x if isinstance(x, DD) else leaf(x) for x in s.args[1:3]])
    nb = rs[0]
    order = list(permutations(range(len(bs)))) if k in ("sum", "max") else [tuple(range(len(bs)))]
    for perm in order:
        mp = {}
        for i, (b, n) in enumerate(bt):
            mp[b.id] = leaf(patom(nb[perm[i]][0]))
        try:
            if any(fv_of(n) & frozenset(x.id for x, _ in bt) for _, n in bt) and perm != tuple(range(len(bs))):
                continue
            if not all(equal_poly(nb[perm[i]][1], subst1(n, mp), depth + 1) for i, (b, n) in enumerate(bt)):
                continue
            with in_scope(nb):
                g2 = subst(t.args[1], mp)
                if not equal(rs[1], g2, depth + 1):
                    continue
                with assume(rs[1]):
                    u = t.args[2] if isinstance(t.args[2], DD) else leaf(t.args[2])
                    if k != "first" and not equal(rs[2], subst(u, mp), depth + 1):
                        continue
                    if k == "argmax":
                        v1 = subst(s.args[3], {o[0].id: leaf(patom(n[0])) for o, n in zip(bs, nb)})
                        if s.args[6] != t.args[6] or not equal(v1, subst(t.args[3], mp), depth + 1):
                            continue
            if k == "max" and not equal_poly(s.args[3], t.args[3], depth + 1):
                continue
            if k == "argmax" and not (equal_poly(s.args[4], t.args[4], depth + 1) and
                                      equal_poly(s.args[5], t.args[5], depth + 1)):
                continue
            return True
        except Undecided:
            continue
    return False
