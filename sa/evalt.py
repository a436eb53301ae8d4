"""Valuations of terms: used to show that two normal forms are different functions.

Nothing of the analysed program is run: the closed forms computed by the analysis are
evaluated under small valuations of their symbols.
"""
from fractions import Fraction
import hashlib, itertools, math, time
from .terms import *

NEG = -10 ** 60


class Skip(Exception):
    pass


def h(seed, *key):
    s = repr((seed,) + key).encode()
    return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "little")


class Valuation:
    def __init__(self, seed, ipool=(0, 1, 2, 3), fpool=(-3, -2, -1, 0, 1, 2, 3), ties=(), budget=400000, over=None):
        self.seed = seed
        self.ipool, self.fpool = ipool, fpool
        self.ties = ties
        self.budget = budget
        self.memo = {}
        self.env = {}
        self.over = over or {}
        self.opool = ()         # values of the opaque constants it is compared with
        self.flat = False       # functions and lists of flags and sizes are constant
        self.used = {}
        self.subs = {}
        self.busy = set()
        self.nonneg = set()

    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise Skip("budget")

    # leaves
    def symval(self, t, idx=()):
        name = t.args[0]
        k = (name, idx)
        v = self.used.get(k)
        if v is not None:
            return v
        q = self.subs.get(t.id) if not idx else None
        if q is not None and t.id not in self.busy:
            self.busy.add(t.id)
            try:
                v = self.poly(q)
            finally:
                self.busy.discard(t.id)
            if t.sort == "i" and (not isinstance(v, int) or (t.nonneg and v < 0)):
                raise Skip("negative size")
        else:
            v = self._symval(t, name, idx)
        self.used[k] = v
        if t.nonneg:
            self.nonneg.add(name)
        return v

    def _symval(self, t, name, idx):
        if (name, idx) in self.over:
            v = self.over[(name, idx)]
            if t.sort == "i" and not isinstance(v, int):
                raise Skip("no integer")
            return v
        if self.flat and t.sort in "bi":
            idx = ()
        if t is NEG_INF:
            return NEG
        if t is NAN or t.taint:
            raise Skip("nan")
        if t.sort == "i":
            key = name
            last = name.rsplit(".", 1)[-1]
            if last in self.ties:
                key = "tie:" + last
                idx = ()
            v = self.ipool[h(self.seed, "i", key, idx) % len(self.ipool)]
            if not t.nonneg and h(self.seed, "s", key, idx) % 2:
                v = -v
            return v
        if t.sort == "f":
            return self.fpool[h(self.seed, "f", name, idx) % len(self.fpool)]
        if t.sort == "b":
            return h(self.seed, "b", name, idx) % 2 == 0
        if self.opool and h(self.seed, "o", name, idx) % 2:
            return self.opool[h(self.seed, "O", name, idx) % len(self.opool)]
        return ("o", name, idx)

    def hashed(self, t, key):
        if self.flat and t.sort in "bi":
            key = key[:1]
        if t.sort == "i":
            v = self.ipool[h(self.seed, "u", key) % len(self.ipool)]
            if not t.nonneg and h(self.seed, "us", key) % 2:
                v = -v
            return v
        if t.sort == "f":
            return self.fpool[h(self.seed, "u", key) % len(self.fpool)]
        if t.sort == "b":
            return h(self.seed, "u", key) % 2 == 0
        return ("o",) + key

    def envkey(self, fv):
        e = self.env
        return tuple((i, e[i]) for i in sorted(fv) if i in e)

    # evaluation
    def dd(self, d):
        while d.atom is not None:
            d = d.hi if self.atom(d.atom) else d.lo
        v = d.leaf
        if isinstance(v, bool):
            return v
        if isinstance(v, Poly):
            return self.poly(v)
        return self.atom(v)

    def poly(self, p):
        r = 0
        for m, c in p.t.items():
            x = c
            for a, e in m:
                v = self.atom(TERMS[a])
                if e < 0:
                    if v == 0:
                        raise Skip("division by zero")
                    v = Fraction(v) if not isinstance(v, float) else v
                x = x * v ** e
            r = r + x
        if isinstance(r, Fraction) and r.denominator == 1:
            r = int(r)
        return r

    def any_(self, x):
        if isinstance(x, DD):
            return self.dd(x)
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Term):
            if x.rank:
                return self.arr_key(x)
            return self.atom(x)
        if isinstance(x, tuple):
            return tuple(self.any_(y) for y in x)
        return x

    def arr_key(self, x):
        # an array as an argument: identified by its first elements
        n = 0
        out = []
        for ix in itertools.product(range(4 if x.rank == 1 else 2), repeat=x.rank):
            out.append(self.arr(x, ix))
        return tuple(out)

    def atom(self, t):
        k = t.kind
        if k == "sym":
            v = self.env.get(t.id)
            return self.symval(t) if v is None else v
        if k in ("bnd", "cb"):
            v = self.env.get(t.id)
            if v is None:
                # a free binder behaves like a symbol
                return self.symval(term("sym", ("free.%d" % t.id,), "i", True, selfvar=True))
            return v
        key = (t.id, self.envkey(t.fv))
        v = self.memo.get(key)
        if v is None:
            self.tick()
            v = self.atom1(t, k, t.args)
            self.memo[key] = v
        return v

    def rng(self, bs):
        """iterate over the binder valuations in order"""
        if not bs:
            yield ()
            return
        (b, n), rest = bs[0], bs[1:]
        m = self.any_(n)
        if not isinstance(m, int) or m > 5000:
            raise Skip("range")
        old = self.env.get(b.id)
        try:
            for i in range(m):
                self.env[b.id] = i
                self.tick()
                for r in self.rng(rest):
                    yield (i,) + r
        finally:
            if old is None:
                self.env.pop(b.id, None)
            else:
                self.env[b.id] = old

    def atom1(self, t, k, a):
        if k in ("sel", "bsel"):
            return self.arr(a[0], tuple(self.poly(i) for i in a[1]))
        if k == "div":
            y = self.poly(a[1])
            if y == 0:
                raise Skip("division by zero")
            return self.poly(a[0]) // y
        if k == "inv":
            y = self.poly(a[0])
            if y == 0:
                raise Skip("division by zero")
            return Fraction(1) / y if not isinstance(y, float) else 1.0 / y
        if k in ("uf", "buf"):
            return self.uf(t, a)
        if k == "sum":
            r = 0
            for _ in self.rng(a[0]):
                if self.dd(a[1]):
                    r = r + self.poly(a[2])
            return r
        if k == "max":
            r = self.any_(a[3])
            for _ in self.rng(a[0]):
                if self.dd(a[1]):
                    r = max(r, self.dd(a[2]))
            return r
        if k == "argmax":
            bs, g, key, val, ik, iv, strict = a
            best, bv = self.any_(ik), self.any_(iv)
            for _ in self.rng(bs):
                if self.dd(g):
                    x = self.dd(key)
                    if x > best or (not strict and x >= best):
                        best, bv = x, self.dd(val)
            return bv
        if k == "first":
            for ix in self.rng(a[0]):
                if self.dd(a[1]):
                    return ix[0]
            return 0
        if k == "any":
            for _ in self.rng(a[0]):
                if self.dd(a[1]):
                    return True
            return False
        if k == "ge":
            return self.poly(a[0]) >= 0
        if k == "gt":
            return self.poly(a[0]) > 0
        if k == "eq":
            return self.poly(a[0]) == 0
        if k == "oeq":
            return self.atom(a[0]) == self.atom(a[1])
        if k in ("lit", "obj"):
            return (k,) + self.any_(a)
        raise Skip("no value for " + k)

    def uf(self, t, a):
        args = self.any_(a[1:])
        n = a[0]
        if n in ("exp", "exp2"):
            x = args[0]
            if isinstance(x, int) or (isinstance(x, Fraction) and x.denominator == 1):
                x = int(x)
                if x < -200:
                    return 0
                if x > 4000:
                    raise Skip("overflow")
                return Fraction(2) ** x
            return 2.0 ** float(x)
        if n == "ln" and args[0] > 0:
            return math.log2(args[0])
        if n == "sqrt":
            if args[0] < 0:
                raise Skip("nan")
            r = math.sqrt(args[0])
            return int(r) if r == int(r) else r
        if n == "hole" or n == "holeg":
            raise Skip("hole")
        return self.hashed(t, (n,) + args)

    def arr(self, x, idx):
        """element of an array term"""
        k, a = x.kind, x.args
        if k == "asym":
            return self.symval(x, idx)
        if k == "aconst":
            return self.dd(a[0])
        if k == "app":
            return self.arr(a[0], tuple(self.poly(i) for i in a[1]) + idx)
        if k == "alift":
            return self.arr(a[0], idx[1:])
        if k == "ashift":
            return self.arr(a[0], (self.poly(a[1]) + idx[0],) + idx[1:])
        if k == "aite":
            return self.arr(a[1] if self.dd(a[0]) else a[2], idx)
        if k == "alam":
            old = {b.id: self.env.get(b.id) for b in a[0]}
            for b, i in zip(a[0], idx):
                self.env[b.id] = i
            try:
                return self.dd(a[1])
            finally:
                for i, v in old.items():
                    if v is None:
                        self.env.pop(i, None)
                    else:
                        self.env[i] = v
        key = (x.id, idx, self.envkey(x.fv))
        v = self.memo.get(key)
        if v is not None:
            return v
        self.tick()
        if k == "aw":
            base, bs, g, addr, val, kind = a
            r = self.arr(base, idx)
            la = len(addr)
            for _ in self.rng(bs):
                if tuple(self.poly(p) for p in addr) == idx[:la] and self.dd(g):
                    if isinstance(val, DD):
                        w = self.dd(val)
                    else:
                        w = self.arr(val, idx[la:])
                    r = r + w if kind == "acc" else w
            v = r
        elif k == "auf":
            v = self.hashed(x, (a[0],) + self.any_(a[1:]) + idx)
        else:
            raise Skip("no element of " + k)
        self.memo[key] = v
        return v


def constant_leaves(d):
    if isinstance(d, DD) and d.atom is not None:
        return constant_leaves(d.hi) | constant_leaves(d.lo)
    p = d.leaf if isinstance(d, DD) else d
    if isinstance(p, Poly) and all(m == () for m in p.t):
        return {Fraction(p.t.get((), 0))}
    return set()


def consts(x, ints, reals, seen):
    """constants that comparisons mention"""
    if isinstance(x, (Term, Poly, DD)):
        k = (type(x).__name__, x.id)
        if k in seen:
            return
        seen.add(k)
    if isinstance(x, DD):
        if x.atom is None:
            consts(x.leaf, ints, reals, seen)
        else:
            consts(x.atom, ints, reals, seen)
            consts(x.hi, ints, reals, seen)
            consts(x.lo, ints, reals, seen)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                consts(TERMS[a], ints, reals, seen)
    elif isinstance(x, Term):
        if x.kind in ("ge", "eq", "gt"):
            p = x.args[0]
            isint = x.kind == "ge" or (x.kind == "eq" and x.args[1])
            if isint:
                ints |= {abs(y) for y in p.t.values() if abs(y) > 300 and y == int(y)}
            c = p.t.get(())
            if c is not None:
                lead = [abs(y) for m, y in p.t.items() if m != ()] or [1]
                v = abs(Fraction(c) / max(lead))
                (ints if isint else reals).add(v)
        if x.kind == "max":
            for y in x.args[2:]:
                reals |= {abs(v) for v in constant_leaves(y) if v}
        for y in x.args:
            consts(y, ints, reals, seen)
    elif isinstance(x, tuple):
        for y in x:
            consts(y, ints, reals, seen)


def literal_objects(x):
    """values of the opaque constants that are compared with something"""
    out, seen = [], set()

    def go(x):
        if isinstance(x, (Term, Poly, DD)):
            k = (type(x).__name__, x.id)
            if k in seen:
                return
            seen.add(k)
        if isinstance(x, DD):
            for y in (x.leaf,) if x.atom is None else (x.atom, x.hi, x.lo):
                go(y)
        elif isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    go(TERMS[a])
        elif isinstance(x, Term):
            if x.kind == "oeq":
                out.extend(y for y in x.args if isinstance(y, Term) and y.kind == "lit")
            go(x.args)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    go(x)
    v = Valuation(0)
    return [v.atom(t) for t in out]


def differ(a, b):
    if a is b or a == b:
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return a != b
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if isinstance(a, float) or isinstance(b, float):
            x, y = float(a), float(b)
            return abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y))
        return a != b
    return a != b


def inner_guards(x, out, seen):
    """closed guards of writes and sums inside a value"""
    if isinstance(x, (Term, Poly, DD)):
        k = (type(x).__name__, x.id)
        if k in seen:
            return
        seen.add(k)
    if isinstance(x, DD):
        if x.atom is None:
            inner_guards(x.leaf, out, seen)
        else:
            for y in (x.atom, x.hi, x.lo):
                inner_guards(y, out, seen)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                inner_guards(TERMS[a], out, seen)
    elif isinstance(x, Term):
        g = x.args[2] if x.kind == "aw" else x.args[1] if x.kind in ("sum", "max", "argmax", "first", "any") else None
        if isinstance(g, DD) and g.atom is not None:
            g = closed_part(g)
            if g.atom is not None:
                out.append(g)
        for y in x.args:
            inner_guards(y, out, seen)
    elif isinstance(x, tuple):
        for y in x:
            inner_guards(y, out, seen)


def closed_part(g):
    """the literals of a guard that mention no binder"""
    r = TRUE
    for a, p in literals(g):
        if not any(TERMS[i].kind in ("cb", "bnd") for i in a.fv):
            r = b_and(r, atomdd(a) if p else b_not(atomdd(a)))
    return r


def walk(rng, got, want, pre, first=TRUE):
    """literals of a random path on which pre holds and got and want end in different leaves; polarities that
    contradict the literals already chosen are skipped"""
    from . import prove
    base = len(CTX.lits)
    lits = []
    try:
        for _ in range(300):
            if pre is FALSE or got is want or first is FALSE:
                return None
            at = None
            if first.atom is not None:
                at = first.atom
            for d in (pre, got, want) if at is None else ():
                if d.atom is not None and (at is None or d.atom.id < at.id):
                    at = d.atom
            if at is None:
                return lits
            pol = rng.random() < 0.5
            v = prove.decide(at) if at.kind in ("ge", "eq") else None
            for p in ((v,) if v is not None else (pol, not pol)):
                a, b, c, d = (cofactor(x, at, p) for x in (pre, got, want, first))
                if a is not FALSE and b is not c and d is not FALSE:
                    break
            else:
                return None
            if v is None:
                CTX.push(((at, p),))
                lits.append((at, p))
            pre, got, want, first = a, b, c, d
        return None
    finally:
        CTX.pop(base)


def forgotten(xs):
    """a value occurs that the skipping of loops has replaced by an arbitrary one"""
    out = set()
    int_syms(xs, out, set(), True)
    return any(isinstance(s.args[0], str) and s.args[0].startswith("forgot!") for s in out)


def int_syms(x, out, seen, every=False):
    if isinstance(x, (Term, Poly, DD)):
        k = (type(x).__name__, x.id)
        if k in seen:
            return
        seen.add(k)
    if isinstance(x, DD):
        if x.atom is None:
            int_syms(x.leaf, out, seen, every)
        else:
            for y in (x.atom, x.hi, x.lo):
                int_syms(y, out, seen, every)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                int_syms(TERMS[a], out, seen, every)
    elif isinstance(x, Term):
        if x.kind == "sym" and x.sort == "i" or every and x.kind in ("sym", "asym"):
            out.add(x)
        for y in x.args:
            int_syms(y, out, seen, every)
    elif isinstance(x, tuple):
        for y in x:
            int_syms(y, out, seen, every)


_code = {}


def code(p):
    """a polynomial over integer symbols and divisions as Python text over V, or None"""
    out = []
    for m, c in p.t.items():
        if c != int(c):
            return None
        f = [repr(int(c))]
        for a, e in m:
            t = TERMS[a]
            if t.kind == "sym" and t.sort == "i":
                x = "V[%r]" % t.args[0]
            elif t.kind == "div" and all(isinstance(y, Poly) for y in t.args[:2]):
                y, z = code(t.args[0]), code(t.args[1])
                if y is None or z is None:
                    return None
                x = "((%s)//(%s))" % (y, z)
            else:
                return None
            if e < 0:
                return None
            f += [x] * e
        out.append("*".join(f))
    return "+".join(out) or "0"


def compiled(a):
    """the polynomial of an integer literal as a function of the values of the symbols, or None"""
    p = p_of(a)
    if not isinstance(p, Poly):
        return None
    f = _code.get(p.id, 0)
    if f == 0:
        x = code(p)
        f = _code[p.id] = eval("lambda V: " + x) if x is not None and len(x) < 20000 else None
    return f


def sub_order(subs):
    """solved symbols in an order in which they can be computed, or None"""
    todo, out, done = dict(subs), [], set()
    while todo:
        n = len(todo)
        for i, q in list(todo.items()):
            s = set()
            int_syms(q, s, set())
            if any(x.id in subs and x.id not in done for x in s):
                continue
            x = code(q)
            if x is None or len(x) > 20000:
                return None
            t = TERMS[i]
            f = _code.get(q.id) or eval("lambda V: " + x)
            _code[q.id] = f
            out.append((t.args[0], t.nonneg, f))
            done.add(i)
            del todo[i]
        if len(todo) == n:
            return None
    return out


def p_of(a):
    return a.args[0]


def solve(rng, lits, base, steps=60):
    """small values of the integer symbols that make the literals of a path true: local search.
    Returns {symbol name: value} or None"""
    from . import prove
    ints = [(a, p) for a, p in lits if a.kind in ("ge", "eq") and (a.kind == "ge" or a.args[1])]
    names = set()
    per = []
    for a, p in ints:
        s = set()
        int_syms(a, s, set())
        per.append(s)
        names |= s
    try:
        subs = {a: q for a, q in prove.orient(tuple(a.args[0] for a, p in ints if p and a.kind == "eq"))[0].items()
                if TERMS[a].kind == "sym" and not bound_in(q)}
    except Undecided:
        subs = {}
    for q in subs.values():
        int_syms(q, names, set())
    free = sorted((s for s in names if s.id not in subs), key=lambda s: s.args[0])
    if not names:
        return {}, subs
    val = {s.args[0]: rng.choice(base) * (1 if s.nonneg or rng.random() < .5 else -1) for s in free}
    # often nothing is empty and no coordinate is zero: differences show there
    low, style = {}, rng.random()
    for s in free:
        if s.nonneg and style > 0.35:
            n = s.args[0]
            low[n] = int(rng.random() < 0.5) if n.startswith("at.") else 2 if style > 0.7 and rng.random() < 0.3 else 1
            val[n] = max(val[n], low[n])
    seed = rng.random()

    fast = [compiled(a) for a, p in ints]
    order = sub_order(subs)
    slow = [k for k, f in enumerate(fast) if f is None or order is None]

    def valuation(val):
        v = Valuation(seed, base, over={(n, ()): x for n, x in val.items()}, budget=4000)
        v.subs = subs
        return v

    def bad(val):
        out = []
        if slow:
            v = valuation(val)
            for k in slow:
                a, p = ints[k]
                try:
                    if v.atom(a) != p:
                        out.append(k)
                except (Skip, RecursionError):
                    out.append(k)
        if len(slow) < len(ints):
            V = dict(val)
            for name, nonneg, f in order:
                try:
                    V[name] = x = f(V)
                    if nonneg and x < 0:
                        del V[name]
                except (KeyError, ZeroDivisionError):
                    pass
            for k, (a, p) in enumerate(ints):
                f = fast[k]
                if f is None:
                    continue
                try:
                    x = f(V)
                    if (x >= 0 if a.kind == "ge" else x == 0) != p:
                        out.append(k)
                except (KeyError, ZeroDivisionError):
                    out.append(k)
        return out
    cur = bad(val)
    for _ in range(steps):
        if not cur:
            return val, subs
        k = rng.choice(cur)
        # symbols of the violated literal, including those behind solved symbols
        cand = set(per[k])
        for s in list(cand):
            if s.id in subs:
                int_syms(subs[s.id], cand, set())
        cand = sorted((s for s in cand if s.args[0] in val), key=lambda s: s.args[0])
        if not cand:
            return None
        best = None
        for n in range(5):
            s = rng.choice(cand)
            x = val[s.args[0]]
            x = rng.choice((x + 1, x - 1, rng.choice(base), x + val[rng.choice(free).args[0]]))
            if n == 0:
                # step to the boundary of the violated literal, where a symbol is linear in it
                lin = [t for t in cand if p_of(ints[k][0]).t.get(((t.id, 1),), 0) in (1, -1)]
                if not lin:
                    continue
                s = rng.choice(lin)
                try:
                    x = int(val[s.args[0]] - valuation(val).poly(p_of(ints[k][0])) / p_of(ints[k][0]).t[((s.id, 1),)])
                except (Skip, RecursionError, TypeError):
                    continue
            if s.nonneg and x < low.get(s.args[0], 0):
                continue
            v2 = dict(val)
            v2[s.args[0]] = x
            c2 = bad(v2)
            if best is None or len(c2) < len(best[0]):
                best = (c2, v2)
        if best is None:
            continue
        if len(best[0]) <= len(cur) or rng.random() < 0.1:
            cur, val = best
    return None


def refine(rng, lits, make, over, secs=0.4):
    """changes single leaves (also elements of arrays) until all literals of a path hold: local search.
    Returns the leaf values or None"""
    end = time.time() + secs

    def bad(over):
        v = make(over)
        out = []
        for k, (a, p) in enumerate(lits):
            try:
                if v.atom(a) != p:
                    out.append(k)
            except (Skip, RecursionError):
                out.append(k)
        return out
    cur = bad(over)
    for _ in range(400):
        if not cur:
            return over
        if time.time() > end:
            return None
        k = rng.choice(cur)
        v = make(over)
        try:
            v.atom(lits[k][0])
        except (Skip, RecursionError):
            pass
        cand = sorted((kv for kv in v.used.items() if isinstance(kv[1], (bool, int, Fraction))), key=repr)
        if not cand:
            return None
        best = None
        for _ in range(5):
            key, x = rng.choice(cand)
            if isinstance(x, bool):
                y = not x
            else:
                y = rng.choice((x + 1, x - 1, rng.choice(cand)[1], rng.choice(v.ipool)) +
                               ((rng.choice(v.fpool),) * 2 if key[0] not in v.nonneg else ()))
                if isinstance(y, bool) or (key[0] in v.nonneg and y < 0):
                    continue
            o2 = dict(over)
            o2[key] = y
            c2 = bad(o2)
            if best is None or len(c2) < len(best[0]):
                best = (c2, o2)
        if best is not None and (len(best[0]) <= len(cur) or rng.random() < 0.05):
            cur, over = best
    return None


def separate(got, want, pre, seed=1, secs=6.0, tries=6000):
    """a valuation satisfying pre where the two DDs differ, or None.  Returns (description, got, want)"""
    import random
    ints, reals = set(), set()
    consts((got, want, pre), ints, reals, set())
    base = [0, 1, 2, 3]
    extra = sorted({int(v) + d for v in ints if v > 3 and v < 300 for d in (-1, 0, 1)})[:9]
    big = sorted({int(v) + d for v in ints if 300 <= v <= 1 << 20 for d in (-1, 0, 1)})[:9]
    fx = sorted({s * v + d for v in reals if v != 0 and v < 10 ** 6 for s in (1, -1) for d in (0, 1, -1)} |
                {s * v / 2 for v in reals if v != 0 for s in (1, -1)})[:16]
    beyond = sorted({s * 2 * v for v in map(abs, reals) if 3 < v < 10 ** 38 for s in (1, -1)})[:6]
    end = time.time() + secs
    tie_sets = [("di", "dj", "dk", "i", "j", "k"), (), ("di", "dj", "dk"), ("dk",), ("di",), ("dj",), ("di", "dj")]
    rng = random.Random("%s/separate" % seed)
    guards = []
    luck = 1.0
    opool = literal_objects((got, want, pre))
    inner_guards((got, want), guards, set())
    if any(0 < v < Fraction(1, 100) for v in reals):
        fx += [-20, -40, 40, 200]
    for n in range(tries):
        if time.time() > end:
            break
        r = h(seed, "mode", n)
        pool = base if r % 3 else [1, 2, 3]
        if extra and r % 5 == 0:
            pool = base + extra
        if r % 7 == 0:
            pool = [0, 1, 2, 3, 4, 5]
        if r % 11 == 0:
            pool = [1]
        if big and r % 5 < 3:
            pool = [1, 2, 3] + big
        fp = [-3, -2, -1, 0, 1, 2, 3] + (fx if (r >> 8) % 2 else [])
        if beyond and (r >> 16) % 3 == 0:
            # larger than the constants, where these bound a result
            fp = beyond if (r >> 18) % 2 else fp + beyond
            side = (r >> 19) % 3
            fp = [x for x in fp if x < 0] if side == 0 else [x for x in fp if x > 0] if side == 1 else fp
        over, subs = {}, {}
        ls = None
        if n % 3:
            # aim at one path: its integer literals determine sizes and coordinates
            try:
                for _ in range(12):
                    ls = walk(rng, got, want, pre, rng.choice(guards) if guards and n % 2 else TRUE)
                    if ls is None:
                        continue
                    s = solve(rng, ls, pool)
                    if s is not None:
                        over, subs = {(k, ()): x for k, x in s[0].items()}, s[1]
                        break
            except Undecided:
                pass
        ties = tie_sets[(r >> 4) % len(tie_sets)] if n % 4 != 3 else ()

        def make(over):
            v = Valuation((seed, n), pool, fp, ties, budget=60000 + 60 * n, over=over)
            v.subs = subs
            v.flat = (r >> 12) % 4 == 0
            v.opool = opool
            return v
        if ls and n % 3 == 2 and rng.random() < luck:
            t = time.time()
            o2 = refine(rng, ls, make, over)
            # a search that fails is repeated less often
            luck = min(1.0, luck * 1.3) if o2 is not None else max(0.05, luck * (0.7 if time.time() - t > 0.1 else 0.95))
            over = o2 or over
        v = make(over)
        try:
            if not v.dd(pre):
                continue
            a, b = v.dd(got), v.dd(want)
        except (Skip, RecursionError, OverflowError, ZeroDivisionError):
            continue
        if differ(a, b):
            return describe(v, pre, got, want), a, b
    return None


def bound_in(q):
    return any(TERMS[i].kind == "cb" for i in q.fv)


def describe(v, *ds):
    out = []
    for (name, idx), x in sorted(v.used.items(), key=lambda kv: (len(kv[0][1]), repr(kv[0]))):
        if name.startswith("free."):
            continue
        out.append("%s%s=%s" % (name, list(idx) if idx else "", x))
        if len(out) >= 24:
            out.append("...")
            break
    return ", ".join(out)


def mentions(xs, names):
    """an integer symbol with one of the names occurs"""
    out = set()
    int_syms(xs, out, set())
    return any(s.args[0] in names for s in out)


def pins(pres, seed, count):
    """small values for the integer symbols of some preconditions, such that these can hold"""
    import random
    rng = random.Random("%s/pins" % seed)
    out = []
    names = set()
    int_syms(tuple(pres), names, set())
    names = sorted((s for s in names if not s.args[0].startswith(("at.", "free."))), key=lambda s: s.args[0])
    if not names:
        return []
    end = time.time() + 20
    n = 0
    while len(out) < count and n < 60 * count and time.time() < end:
        n += 1
        p = rng.choice(pres)
        pool = [2, 3, 1] if n % 2 else [1, 2, 3, 4, 5]
        try:
            ls = walk(rng, p, FALSE, TRUE)
            if ls is None:
                continue
            s = solve(rng, ls, pool)
        except Undecided:
            continue
        if s is None:
            continue
        v = Valuation((seed, n), pool, over={(k, ()): x for k, x in s[0].items()})
        v.subs = s[1]
        try:
            if not v.dd(p):
                continue
            pin = {t.args[0]: v.symval(t) for t in names}
        except (Skip, RecursionError):
            continue
        if pin not in out:
            out.append(pin)
    return out
