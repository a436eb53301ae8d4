"""Linear and mildly non-linear integer facts.

Facts of the current context (comparisons known on the way to a program point, ranges of
bound variables, quotient bounds) are multiplied by non-negative monomials where that yields
the monomials of the goal, and the goal is then derived as a non-negative combination of
facts (Farkas).  Sound and incomplete.
"""
from fractions import Fraction
from math import gcd
import time
from .terms import *
from . import terms as T
from . import refute

STATS = {"goals": 0, "lp": 0}
_cache = {}


# ------------------------------------------------------------------ facts
def facts_of_ctx():
    """(inequalities p >= 0, equalities p == 0, disequalities) of the context"""
    ge, eq, ne = [], [], []
    for a, pol in CTX.lits:
        if a.kind == "ge":
            p = a.args[0]
            ge.append(p if pol else psub(pneg(p), P1))
        elif a.kind == "eq" and a.args[1]:
            (eq if pol else ne).append(a.args[0])
    return ge, eq, ne


_orient = {}


def orient(eqs):
    """equalities as a triangular substitution atom id -> Poly, plus what is left"""
    key = tuple(p.id for p in eqs)
    r = _orient.get(key)
    if r is not None:
        return r
    sub, rest = {}, []
    work = list(eqs)
    while work:
        p = psubst(work.pop(0), sub)
        if not p.t:
            continue
        best = None
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                a = m[0][0]
                if sum(1 for n in p.t for x, _ in n if x == a) == 1:
                    # atoms nested inside other atoms of the equation must not contain a
                    if any(a in TERMS[x].fv for n in p.t for x, _ in n if x != a):
                        continue
                    if best is None or a > best[0]:
                        best = (a, c)
        if best is None:
            rest.append(p)
            continue
        a, c = best
        q = dict(p.t)
        del q[((a, 1),)]
        q = mkpoly(q)
        q = pneg(q) if c == 1 else q
        one = {a: q}
        sub = {k: psubst(v, one) for k, v in sub.items()}
        sub[a] = q
        rest = [psubst(x, one) for x in rest]
    r = _orient[key] = (sub, [x for x in rest if x.t])
    return r


def psubst(p, sub):
    """replace atoms at the top level of a polynomial"""
    if not sub or not any(a in sub for m in p.t for a, _ in m):
        return p
    r = {}
    for m, c in p.t.items():
        if any(a in sub for a, _ in m):
            f = pconst(c)
            for a, e in m:
                q = sub.get(a)
                if q is None or e < 0:
                    f = pmul(f, mono_poly(((a, e),)))
                else:
                    for _ in range(e):
                        f = pmul(f, q)
            for n, d in f.t.items():
                r[n] = norm(r.get(n, 0) + d)
        else:
            r[m] = norm(r.get(m, 0) + c)
    return mkpoly(r)


def int_atoms(ps):
    s = set()
    for p in ps:
        for m in p.t:
            for a, _ in m:
                s.add(a)
    return s


# ------------------------------------------------------------------ Farkas
def lp_max(rows, rhs, eqrow, obj):
    """maximise obj.x, rows x <= rhs (or == where eqrow), x >= 0; exact; None if infeasible.
    Integer tableau: every row is kept with coprime integer coefficients and a positive
    coefficient of its basic variable."""
    STATS["lp"] += 1
    m, n = len(rows), len(obj)
    nslack = sum(1 for e in eqrow if not e)
    ns = n + nslack
    T, basis = [], []
    si = n
    need = []
    for i in range(m):
        r = [0] * ns + [0]
        den = 1
        for x in rows[i]:
            if isinstance(x, Fraction):
                den = den * x.denominator // gcd(den, x.denominator)
        if isinstance(rhs[i], Fraction):
            den = den * rhs[i].denominator // gcd(den, rhs[i].denominator)
        for j, x in enumerate(rows[i]):
            if x:
                r[j] = int(x * den)
        v = int(rhs[i] * den)
        r[ns] = v
        bv = None
        if not eqrow[i]:
            r[si] = den
            if v >= 0:
                bv = si
            si += 1
        if v < 0:
            r = [-x for x in r]
        if bv is None:
            need.append(i)
        T.append(r)
        basis.append(bv)
    # artificial variables are the columns ns+1.. conceptually; they never re-enter
    art = set()
    for i in need:
        basis[i] = -1 - i
        art.add(i)

    def pivot(r, c, cost):
        ar = T[r]
        pv = ar[c]
        if pv < 0:
            ar = T[r] = [-x for x in ar]
            pv = -pv
        nz = [j for j, x in enumerate(ar) if x]
        for k in range(m):
            if k != r:
                ak = T[k]
                f = ak[c]
                if f:
                    if pv != 1:
                        ak = T[k] = [x * pv if x else 0 for x in ak]
                    for j in nz:
                        ak[j] -= f * ar[j]
                    g = 0
                    for x in ak:
                        if x:
                            g = gcd(g, x)
                            if g == 1:
                                break
                    if g > 1:
                        T[k] = [x // g for x in ak]
        for cr in cost:
            f = cr[0][c]
            if f:
                v = cr[0]
                if pv != 1:
                    v = [x * pv if x else 0 for x in v]
                    cr[1] *= pv
                for j in nz:
                    v[j] -= f * ar[j]
                g = cr[1]
                for x in v:
                    if x:
                        g = gcd(g, x)
                        if g == 1:
                            break
                if g > 1:
                    v = [x // g for x in v]
                    cr[1] //= g
                cr[0] = v
        basis[r] = c

    def run(cr, cost):
        """cr: [reduced cost row (coefficients to increase), denominator]"""
        it = 0
        while True:
            it += 1
            if it > 400:
                return None
            row = cr[0]
            ent = None
            best = 0
            for j in range(ns):
                z = row[j]
                if z > 0:
                    if it > 80:
                        ent = j
                        break
                    if z > best:
                        best, ent = z, j
            if ent is None:
                return Fraction(-row[ns], cr[1])
            lv = None
            for i in range(m):
                a = T[i][ent]
                if a > 0:
                    if lv is None:
                        lv = i
                    else:
                        d = T[i][ns] * T[lv][ent] - T[lv][ns] * a
                        if d < 0 or (d == 0 and basis[i] < basis[lv]):
                            lv = i
            if lv is None:
                return "unbounded"
            pivot(lv, ent, cost)

    den = 1
    for x in obj:
        if isinstance(x, Fraction):
            den = den * x.denominator // gcd(den, x.denominator)
    c2 = [[int(x * den) for x in obj] + [0] * nslack + [0], den]
    if art:
        # minimise the sum of the artificial variables
        c1 = [[0] * (ns + 1), 1]
        for i in art:
            r = T[i]
            c1[0] = [x + y for x, y in zip(c1[0], r)]
        v = run(c1, [c1, c2])
        if v is None or v == "unbounded":
            return None
        if any(basis[i] < 0 and T[i][ns] != 0 for i in range(m)):
            return None
        for i in range(m):
            if basis[i] < 0:
                for j in range(ns):
                    if T[i][j]:
                        pivot(i, j, [c2])
                        break
    return run(c2, [c2])


def nonneg_mono(m):
    return all((TERMS[a].nonneg and e > 0) or e % 2 == 0 for a, e in m)


MAXF = 90


def farkas(goal, facts, level=1):
    """is goal > -1 implied (then an integer goal is >= 0)"""
    if goal.const is not None:
        return goal.const >= 0
    # quick: all coefficients non-negative
    # collect relevant facts by monomial closure
    monos = set(m for m in goal.t if m != ())
    have = {}
    base = [f for f in facts if f.t]
    frontier = set(monos)
    chosen = []
    # the part of the goal that must be bounded below: negative nonneg monomials or sign-unknown
    for rnd in range(3):
        new = set()
        for f in base:
            fm = [m for m in f.t if m != ()]
            mults = set()
            for m in frontier:
                for n in fm:
                    q = mdiv(m, n)
                    if q is not None and (q == () or level) and nonneg_mono(q) and sum(e for _, e in q) <= 3:
                        mults.add(q)
                # constants of facts scaled: 1 * m
                if () in f.t and nonneg_mono(m) and f.t[()] > 0 and len(m) <= 2 and rnd == 0:
                    pass
            for q in mults:
                g = pmul(f, mono_poly(q)) if q else f
                if g.id in have:
                    continue
                have[g.id] = g
                chosen.append(g)
                for m in g.t:
                    if m != () and m not in monos:
                        new.add(m)
            if len(chosen) > MAXF:
                break
        if not new or len(chosen) > MAXF:
            break
        monos |= new
        frontier = new
    if not chosen:
        return False
    allm = set()
    for g in chosen + [goal]:
        allm.update(m for m in g.t if m != ())
    if len(allm) > 150:
        return False
    allm = sorted(allm)
    rows, rhs, eqr = [], [], []
    for m in allm:
        rows.append([g.t.get(m, 0) for g in chosen])
        rhs.append(goal.t.get(m, 0))
        eqr.append(not nonneg_mono(m))
    obj = [-g.t.get((), 0) for g in chosen]
    v = lp_max(rows, rhs, eqr, obj)
    if v is None:
        return False
    if v == "unbounded":
        return True
    return goal.t.get((), 0) + v > -1


def expand(ps, ge):
    """quotient and position facts for the opaque integer atoms that occur"""
    todo = list(int_atoms(ps) | int_atoms(ge))
    seen = set()
    out = []
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        t = TERMS[a]
        if t.kind == "div":
            x, y = t.args
            q = patom(t)
            key = ("div", a, CTX.key())
            pos = _cache.get(key)
            if pos is None:
                z = psub(y, P1)
                pos = _cache[key] = bool(T._decide_trivial(z) is TRUE or any(f is z for f in ge)
                                         or farkas(z, ge, 0))
            if pos:
                lo = psub(x, pmul(y, q))
                hi = psub(padd(pmul(y, q), psub(y, P1)), x)
                out += [lo, hi]
                todo += list(int_atoms([lo, hi]))
        elif t.kind == "first":
            bs, g = t.args
            out.append(psub(psub(bs[0][1], patom(t)), P1))
            todo += list(int_atoms([bs[0][1]]))
    return out


_elim = {}


def eliminate(g, fs):
    """Change of variables: a fact v >= r with r visibly non-negative becomes v = v' + r, v' >= 0.
    Products of such facts then follow from the signs of coefficients."""
    fs = [f for f in fs if f.t]
    k0 = tuple(f.id for f in fs)
    r = _elim.get(k0)
    if r is None:
        subs = []
        work = list(fs)
        rest = []
        done = set()
        work.sort(key=lambda f: len(f.t))
        contra = False
        while work:
            f = work.pop(0)
            if T._decide_trivial(f) is TRUE:
                continue
            if f.const is not None:
                if f.const < 0:
                    contra = True
                continue
            if T._decide_trivial(f) is FALSE:
                contra = True
                continue
            pos = [m for m, c in f.t.items() if c > 0]
            if len(pos) == 1 and len(pos[0]) == 1 and pos[0][0][1] == 1 and f.t[pos[0]] == 1 and \
                    TERMS[pos[0][0][0]].nonneg:
                v = pos[0][0][0]
                q = dict(f.t)
                del q[pos[0]]
                q = pneg(mkpoly(q))
                if T._decide_trivial(q) is TRUE and not any(a == v for m in q.t for a, _ in m):
                    one = {v: padd(patom(TERMS[v]), q)}
                    subs.append(one)
                    work = [psubst(x, one) for x in work]
                    rest = [psubst(x, one) for x in rest]
                    work += rest
                    rest = []
                    continue
            rest.append(f)
        r = _elim[k0] = (subs, [f for f in rest if T._decide_trivial(f) is not TRUE], contra)
    subs, rest, contra = r
    for one in subs:
        g = psubst(g, one)
    return g, rest, contra


def _ge(p):
    """prove integer p >= 0 in the current context"""
    if p.const is not None:
        return p.const >= 0
    key = ("g", p.id, CTX.key(), _nouni[0] > 0)
    r = _cache.get(key)
    if r is not None:
        return r
    from .mir import DEADLINE
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise Undecided("analysis takes too long")
    _cache[key] = False
    STATS["goals"] += 1
    ge, eq, ne = facts_of_ctx()
    ige, ieq = instances([p] + ge)
    if ige or ieq:
        ge, eq = ge + ige, eq + ieq
    sub, rest = orient(tuple(eq))
    g = psubst(p, sub)
    if g.const is not None:
        r = g.const >= 0
    elif T._decide_trivial(g) is TRUE:
        r = True
    else:
        fs = [psubst(x, sub) for x in ge]
        for x in rest:
            fs += [x, pneg(x)]
        # an eliminated non-negative atom
        for a, q in sub.items():
            if TERMS[a].nonneg and T._decide_trivial(q) is not TRUE:
                fs.append(q)
        fs = [f for f in fs if f.t]
        # strengthen with disequalities: f >= 0 and f != 0 gives f >= 1
        if ne:
            nes = [psubst(x, sub) for x in ne]
            for x in nes:
                for f in list(fs):
                    if f is x or f is pneg(x):
                        fs.append(psub(f, P1))
                if T._decide_trivial(x) is TRUE:
                    fs.append(psub(x, P1))
                elif T._decide_trivial(pneg(x)) is TRUE:
                    fs.append(psub(pneg(x), P1))
        ex = expand([g], fs)
        fs += [psubst(x, sub) for x in ex]
        if any(f.const is not None and f.const < 0 for f in fs):
            r = True
        elif refute.goal_fails(g, fs):
            r = False
        else:
            g2, fs2, contra = eliminate(g, fs)
            if contra or T._decide_trivial(g2) is TRUE or (g2.const is not None and g2.const >= 0):
                r = True
            else:
                el = len(fs2) != len(fs)
                r = (farkas(g, fs, 0) or (el and farkas(g2, fs2, 0)) or farkas(g, fs, 1)
                     or (el and farkas(g2, fs2, 1)))
    STATS["yes"] = STATS.get("yes", 0) + bool(r)
    _cache[key] = r
    return r


def consistent():
    """False when the integer facts of the context contradict each other"""
    key = ("c", CTX.key())
    r = _cache.get(key)
    if r is None:
        ge, eq, ne = facts_of_ctx()
        r = True
        sub, rest = orient(tuple(eq))
        for f in ge:
            g = psubst(f, sub)
            if T._decide_trivial(g) is FALSE or (g.const is not None and g.const < 0):
                r = False
                break
            if _ge(psub(pneg(f), P1)):
                r = False
                break
        if r:
            for x in rest:
                if x.const is not None and x.const != 0:
                    r = False
        if r:
            for x in ne:
                if psubst(x, sub).const == 0:
                    r = False
        _cache[key] = r
    return r


_nouni = [0]
_inst = {}


def instances(ps):
    """facts about the array elements that occur in ps, taken from 'no element satisfies g' facts"""
    anys = [a for a, pol in CTX.lits if a.kind == "any" and not pol and len(a.args[0]) == 1]
    if not anys or _nouni[0]:
        return [], []
    idx = {}
    seen = set()

    def visit(p):
        if p.id in seen:
            return
        seen.add(p.id)
        for m in p.t:
            for a, _ in m:
                t = TERMS[a]
                if t.kind == "sel":
                    arr, ix = base_index(t)
                    idx.setdefault(arr, set()).add(ix[0])
                elif t.kind == "div":
                    visit(t.args[0])
                    visit(t.args[1])
                elif t.kind == "uf":
                    for x in t.args[1:]:
                        inside(x)

    def inside(x):
        if isinstance(x, Poly):
            visit(x)
        elif isinstance(x, Term) and x.kind == "uf":
            for y in x.args[1:]:
                inside(y)
        elif isinstance(x, Term) and x.kind == "sel":
            arr, ix = base_index(x)
            idx.setdefault(arr, set()).add(ix[0])
    for p in ps:
        visit(p)
    if not idx:
        return [], []
    key = (CTX.key(), frozenset((a.id, i.id) for a, s in idx.items() for i in s))
    r = _inst.get(key)
    if r is not None:
        return r
    _inst[key] = ([], [])
    ge, eq = [], []
    _nouni[0] += 1
    try:
        for a in anys:
            (b, n), = a.args[0]
            arrs = set()
            collect_arrays(a.args[1], b, arrs)
            cand = {i for arr, s in idx.items() if arr in arrs for i in s if b.id not in i.fv}
            lits = literals(a.args[1])
            if cube_of(lits) is not a.args[1]:
                continue
            for i in cand:
                mp = {b.id: leaf(i)}
                if not (holds(ge0(i)) and holds(ge0(psub(psub(n, i), P1)))):
                    continue
                open_ = []
                for l, lp in lits:
                    d = subst(atomdd(l) if lp else b_not(atomdd(l)), mp)
                    if len(lits) > 1:
                        d = simp(d)
                    if d is not TRUE:
                        open_.append(d)
                if len(open_) == 1:
                    for l, lp in literals(b_not(open_[0])):
                        if l.kind == "ge":
                            ge.append(l.args[0] if lp else psub(pneg(l.args[0]), P1))
                        elif l.kind == "eq" and lp and l.args[1]:
                            eq.append(l.args[0])
    finally:
        _nouni[0] -= 1
    _inst[key] = (ge, eq)
    return ge, eq


def base_index(t):
    arr, ix = t.args
    if arr.kind == "app":
        return arr.args[0], arr.args[1] + ix
    return arr, ix


def collect_arrays(x, b, out):
    if isinstance(x, DD):
        if x.atom is None:
            collect_arrays(x.leaf, b, out)
        else:
            collect_arrays(x.atom, b, out)
            collect_arrays(x.hi, b, out)
            collect_arrays(x.lo, b, out)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                collect_arrays(TERMS[a], b, out)
    elif isinstance(x, Term):
        if b.id not in x.fv:
            return
        if x.kind == "sel":
            arr, ix = base_index(x)
            if ix[0] is patom(b):
                out.add(arr)
        for y in x.args:
            collect_arrays(y, b, out)
    elif isinstance(x, tuple):
        for y in x:
            collect_arrays(y, b, out)




def decide(atom):
    key = ("d", atom.id, CTX.key(), _nouni[0] > 0)
    if key in _cache:
        return _cache[key]
    _cache[key] = None
    r = None
    if atom.kind == "ge":
        p = atom.args[0]
        if _ge(p):
            r = True
        elif _ge(psub(pneg(p), P1)):
            r = False
    elif atom.kind == "eq" and atom.args[1]:
        p = atom.args[0]
        ge, eq, ne = facts_of_ctx()
        sub, rest = orient(tuple(eq))
        g = psubst(p, sub)
        if g.const is not None:
            r = g.const == 0
        else:
            for x in ne:
                y = psubst(x, sub)
                if y is g or y is pneg(g):
                    r = False
            if r is None:
                d = eq0(g)
                if d is FALSE:
                    r = False
                elif d.atom is not None and CTX.known.get(d.atom.id) is not None:
                    v = CTX.known[d.atom.id]
                    r = v if d.hi is TRUE else not v
            if r is None:
                a, b = _ge(p), _ge(pneg(p))
                if a and b:
                    r = True
                elif (a and _ge(psub(p, P1))) or (b and _ge(psub(pneg(p), P1))):
                    r = False
                elif _ge(psub(p, P1)) or _ge(psub(pneg(p), P1)):
                    r = False
    elif atom.kind == "any":
        bs, g = atom.args
        rr = fresh_rename(bs, g)
        with in_scope(rr[0]):
            s = simp(rr[1])
        if s is FALSE:
            r = False
        elif s is TRUE:
            x = TRUE
            ids = frozenset(b.id for b, _ in bs)
            if all(not (n.fv & ids) for _, n in bs) and all(_ge(psub(n, P1)) for _, n in bs):
                r = True
    if r is None:
        r = universal(atom)
    _cache[key] = r
    return r


def decide_flag(atom):
    """a boolean array element, from what the context says about every element"""
    key = ("d", atom.id, CTX.key(), _nouni[0] > 0)
    if key in _cache:
        return _cache[key]
    _cache[key] = None
    r = _cache[key] = universal(atom)
    return r


# ------------------------------------------------------------------ negative existentials
def universal(atom):
    """use 'no b in range satisfies g' facts of the context to decide an atom"""
    if _nouni[0]:
        return None
    _nouni[0] += 1
    try:
        return _universal(atom)
    finally:
        _nouni[0] -= 1


def _universal(atom):
    for a, pol in CTX.lits:
        if a.kind != "any" or pol:
            continue
        bs, g = a.args
        if atom is a:
            return False
        lits = literals(g)
        if cube_of(lits) is not g:
            continue
        for l, lp in lits:
            if l.kind != atom.kind:
                continue
            mp = match_atom(l, atom, bs)
            if mp is None:
                continue
            rest = [(x, p) for x, p in lits if x is not l]
            ok = True
            for b, n in bs:
                nn = subst(leaf(n), mp)
                if not (holds(cmp("Lt", mp[b.id], nn, True)) and holds(cmp("Ge", mp[b.id], D0, True))):
                    ok = False
                    break
            if ok and all(holds(subst(atomdd(x) if p else b_not(atomdd(x)), mp)) for x, p in rest):
                return not lp
    return None


def cube_of(lits):
    return ands([atomdd(a) if p else b_not(atomdd(a)) for a, p in lits])


def match_atom(pat, atom, bs):
    """values of the bound variables that turn pat into atom, found from array indices"""
    ids = {b.id for b, _ in bs}
    cands = {}

    def sels(x, out):
        if isinstance(x, Term):
            if x.kind in ("sel", "bsel"):
                out.append(x)
            for y in x.args:
                sels(y, out)
        elif isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    sels(TERMS[a], out)
        elif isinstance(x, tuple):
            for y in x:
                sels(y, out)
        elif isinstance(x, DD):
            if x.atom is None:
                sels(x.leaf, out)
            else:
                sels(x.atom, out)
                sels(x.hi, out)
                sels(x.lo, out)
        return out
    ps, gs = sels(pat.args, []), sels(atom.args, [])
    if pat.kind in ("bsel", "sel"):
        ps.append(pat)
    if atom.kind in ("bsel", "sel"):
        gs.append(atom)
    for x in ps:
        for y in gs:
            if x.args[0] is not y.args[0] and not (x.args[0].kind == "app" and y.args[0].kind == "app"):
                continue
            xi = x.args[1] if x.args[0].kind != "app" else x.args[0].args[1] + x.args[1]
            yi = y.args[1] if y.args[0].kind != "app" else y.args[0].args[1] + y.args[1]
            if len(xi) != len(yi):
                continue
            mp = {}
            for p, q in zip(xi, yi):
                own = [(m, c) for m, c in p.t.items() if any(a in ids for a, _ in m)]
                if len(own) != 1:
                    continue
                m, c = own[0]
                if len(m) == 1 and m[0][0] in ids and m[0][1] == 1 and c in (1, -1) and \
                        not any(TERMS[a].fv & ids for n in p.t if n is not m for a, _ in n):
                    me = patom(TERMS[m[0][0]])
                    rest = psub(q, psub(p, me if c == 1 else pneg(me)))
                    mp.setdefault(m[0][0], leaf(rest if c == 1 else pneg(rest)))
            if len(mp) == len(ids):
                z = subst(atomdd(pat), mp)
                if z is atomdd(atom):
                    return mp
    return None
