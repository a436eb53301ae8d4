"""Quick refusal: an assignment of integers to the atoms that satisfies every fact but not the goal shows that the goal
cannot be derived from these facts (atoms are opaque to the derivation, except for their sign)."""
import random
from collections import deque
from .terms import TERMS

POOL = deque(maxlen=60)
STATS = {"tried": 0, "hit": 0, "pool": 0, "steps": 0}
rng = random.Random(7)


class Model:
    __slots__ = ("base", "div")

    def __init__(self, base):
        self.base = base
        self.div = {}

    def atom(self, a):
        v = self.base.get(a)
        if v is not None:
            return v
        v = self.div.get(a)
        if v is not None:
            return v
        t = TERMS[a]
        if t.kind == "div":
            y = self.poly(t.args[1])
            if y > 0:
                v = self.div[a] = int(self.poly(t.args[0]) // y)
                if v >= 0 or not t.nonneg:
                    return v
        v = self.base[a] = rng.choice((0, 1, 2, 3, 1, 2)) if t.nonneg else rng.choice((0, 1, 2, -1))
        return v

    def poly(self, p):
        s = 0
        for m, c in p.t.items():
            for a, e in m:
                x = self.atom(a)
                c = c * (x if e == 1 else x ** e)
            s += c
        return s


def goal_fails(g, fs):
    """is there an assignment with every fact >= 0 and the goal < 0"""
    STATS["tried"] += 1
    for p in (g, *fs):
        for m in p.t:
            for a, e in m:
                if e < 0 or TERMS[a].sort != "i":
                    return False
    for n, m in enumerate(POOL):
        if m.poly(g) < 0 and all(m.poly(f) >= 0 for f in fs):
            STATS["hit"] += 1
            STATS["pool"] += 1
            if n > 4:
                del POOL[n]
                POOL.appendleft(m)
            return True
    base = dict(POOL[0].base) if POOL and rng.random() < 0.7 else {}
    m = Model(base)
    for _ in range(40):
        bad = None
        if m.poly(g) >= 0:
            bad = g, False
        else:
            for f in fs:
                if m.poly(f) < 0:
                    bad = f, True
                    break
        if bad is None:
            STATS["hit"] += 1
            POOL.appendleft(m)
            return True
        STATS["steps"] += 1
        if not mend(m, *bad):
            return False
    return False


def mend(m, p, up):
    """change one atom so that p >= 0 (up) or p < 0"""
    cand = []

    def atoms(q, depth):
        for mm in q.t:
            for a, _ in mm:
                t = TERMS[a]
                if t.kind == "div" and a not in m.base and depth < 3:
                    atoms(t.args[0], depth + 1)
                elif a not in seen:
                    seen.add(a)
                    cand.append(a)
    seen = set()
    atoms(p, 0)
    if not cand:
        return False
    rng.shuffle(cand)
    v0 = m.poly(p)
    best = None
    for a in cand[:6]:
        old = m.base.get(a, 0)
        nn = TERMS[a].nonneg
        m.base[a] = old + 1
        m.div.clear()
        d = m.poly(p) - v0
        tries = []
        if d:
            # one step along the slope reaches the wanted sign when p is linear in the atom
            k = (-v0 // d if v0 % d else -v0 // d) if up else 0
            tries = [old + k, old + k + (1 if d > 0 else -1), old + k + (-1 if d > 0 else 1)] if up else \
                [old + (-1 - v0) // d, old + (-1 - v0) // d + (1 if d < 0 else -1)]
        else:
            tries = [old + 1, old + 2]
        for t in tries:
            if nn and t < 0 or abs(t) > 400:
                continue
            m.base[a] = int(t)
            m.div.clear()
            v = m.poly(p)
            if (v >= 0) == up:
                best = (a, int(t))
                break
        if best:
            break
        m.base[a] = old
        m.div.clear()
    if best:
        return True
    a = cand[0]
    m.base[a] = rng.choice((0, 1, 2, 3))
    m.div.clear()
    return True
