"""Obligations: a function of the analysed program, a clause of the property, a verdict."""
import os, signal, sys, time, traceback, resource
from .terms import *
from .val import *
from . import mir, prove, equal as EQ, evalt
from .shapes import *

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
SECS = 6.0 if TIER == "quick" else 30.0


class Ob:
    def __init__(self, anchor, clause, verdict, detail=""):
        self.anchor, self.clause, self.verdict, self.detail = anchor, clause, verdict, detail

    def key(self):
        return "%s: %s" % (self.anchor, self.clause)


def ring(*_):
    raise Undecided("analysis takes too long")


def alarm(deadline):
    """ends whatever runs shortly after the deadline (the analysis itself looks at the clock between statements)"""
    signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, max(deadline - time.time() + 5, 1) if deadline else 0, 10)


class Kit:
    weaker = ()     # conditions every pre implies, tried on their own when a goal is not reached under pre

    def __init__(self, prop, prog, secs=700.0):
        self.prop = prop
        self.p = prog
        self.w = World(prog)
        self.obs = []
        self.functions = set()
        self.t0 = time.time()
        self.end = self.t0 + secs
        self.cur = "?"
        self.stats = {}
        self.counts = {}
        self.pinned = None
        self.pres = []
        self.only = os.environ.get("SA_ONLY")

    # -------------------------------------------------------------- anchors
    def block(self, anchor, f, secs=150.0):
        """run the obligations of one anchor; anything the analysis cannot follow is undecided"""
        if self.only and self.only not in anchor:
            return
        self.cur = anchor
        t = time.time()
        dl = min(t + secs, self.end)
        mir.DEADLINE[0] = dl
        EQ.LIMIT[0] = dl
        n0 = len(self.obs)
        self.pres = []
        self.w.free, self.w.hist = set(), None
        try:
            if time.time() > self.end:
                raise Undecided("time budget of the check is used up")
            alarm(dl)
            f()
        except Missing as e:
            self.add("anchor", "violated", "the function %s no longer exists" % e)
        except Undecided as e:
            self.add("analysis", "undecided", str(e), e)
        except RecursionError as e:
            self.add("analysis", "undecided", "recursion limit", e)
        except Exception as e:      # an engine limitation is never an alarm
            self.add("analysis", "undecided", "%s: %s" % (type(e).__name__, e), e)
        finally:
            alarm(None)
            CTX.pop(0)
            mine = self.obs[n0:]
            if any(o.verdict == "undecided" for o in mine) and not any(o.verdict == "violated" for o in mine):
                if not self.w.free:
                    self.narrow(f, mine, 40.0 if TIER == "quick" else 200.0)
                else:
                    self.histories(f, mine, 100.0 if TIER == "quick" else 400.0)
            mir.DEADLINE[0] = 0
            EQ.LIMIT[0] = 0
            self.stats[anchor] = round(time.time() - t, 2)

    HISTORIES = 6

    def histories(self, f, mine, secs):
        """the open clauses of a block whose state has fields no property speaks about: a violation counts in states
        that a few operations reach from a fresh object"""
        end = min(time.time() + secs, self.end)
        for h in range(self.HISTORIES):
            if time.time() > end:
                break
            keep, self.obs = self.obs, []
            self.w.free, self.w.hist = set(), h
            mir.DEADLINE[0] = EQ.LIMIT[0] = min(end, time.time() + secs / 4)
            alarm(mir.DEADLINE[0])
            try:
                f()
            except (Undecided, Missing, RecursionError) as e:
                if os.environ.get("SA_DEBUG"):
                    print("  history", h, type(e).__name__, str(e)[:200])
                self.add("analysis", "undecided", str(e))
            except Exception as e:
                if os.environ.get("SA_DEBUG"):
                    traceback.print_exc(limit=-6)
                self.add("analysis", "undecided", str(e))
            finally:
                alarm(None)
                CTX.pop(0)
                got = self.obs
            if self.w.free:
                got = [o for o in got if o.verdict != "violated"]
            elif any(o.verdict == "undecided" for o in got) and not any(o.verdict == "violated" for o in got):
                self.narrow(f, got, min(20.0, secs / 5))
            self.obs = keep
            if self.take(got, mine, " in a state reached by history %d" % h):
                break
        self.w.hist = None

    def take(self, got, mine, how):
        """keeps what is violated among got for the open clauses in mine"""
        found = False
        opened = {o.clause: o for o in mine if o.verdict == "undecided"}
        for o in got:
            if o.verdict != "violated":
                continue
            t = opened.get(o.clause)
            o.detail += how
            if t is not None:
                t.verdict, t.detail = o.verdict, o.detail
                found = True
            elif "analysis" in opened:
                self.obs.append(o)
                mine.append(o)
                found = True
        return found

    def narrow(self, f, mine, secs):
        """the open clauses of a block, for a few fixed sizes: the same analysis under a stronger precondition.
        Only what is violated there is kept (it violates the general clause, too)"""
        pins = evalt.pins(self.pres, SEED, 5 if TIER == "quick" else 12)
        end = min(time.time() + secs, self.end)
        for n, pin in enumerate(pins or [{}, {}, {}]):
            pin["decoded.len"] = (2, 3, 1)[n % 3]
            if "layers.len" in pin:
                pin["layers.len"] = (7, 2, 4, 1, 3)[n % 5]
            if time.time() > end:
                return
            keep, self.obs, self.pinned = self.obs, [], pin
            PIN.update(pin)
            mir.DEADLINE[0] = EQ.LIMIT[0] = min(end, time.time() + secs / 3)
            alarm(mir.DEADLINE[0])
            try:
                f()
            except (Undecided, Missing, RecursionError) as e:
                if os.environ.get("SA_DEBUG"):
                    print("  pinned", pin, type(e).__name__, str(e)[:200])
            except Exception:
                if os.environ.get("SA_DEBUG"):
                    traceback.print_exc(limit=-6)
            finally:
                alarm(None)
                CTX.pop(0)
                PIN.clear()
                got, self.obs, self.pinned = self.obs, keep, None
            if self.take(got, mine, " with " + ", ".join("%s=%s" % kv for kv in sorted(pin.items()))):
                return

    def add(self, clause, verdict, detail="", exc=None):
        if verdict == "violated" and self.w.free:
            verdict, detail = "undecided", "only with some values of the fields added to %s: %s" % (
                ", ".join(sorted(self.w.free)), detail)
        o = Ob(self.cur, clause, verdict, detail)
        self.obs.append(o)
        if os.environ.get("SA_DEBUG"):
            print("  [%s] %s %s" % (verdict, o.key(), detail if verdict != "proved" else ""), flush=True)
            if exc is not None:
                traceback.print_exception(type(exc), exc, exc.__traceback__, limit=-12)
        return verdict

    def run(self, path, args, pre=TRUE, abstract=None, I=None):
        self.hint(pre)
        r = self.w.run(path, args, abstract=abstract, pre=pre, I=I)
        self.functions.add(path)
        self.functions |= {self.p.fns[k]["path"] for k in r.I.calls_seen if k in self.p.fns}
        if r.st.g is FALSE and r.I.panics:
            if self.eq("%s returns" % path.split("::")[-1], FALSE, TRUE, pre) != "proved":
                raise Undecided("never returns: %s" % r.I.panics[-1].kind)
        return r

    def hint(self, pre):
        """a precondition under which the open clauses are worth a look with fixed sizes"""
        if pre is not TRUE and pre not in self.pres:
            self.pres.append(pre)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # -------------------------------------------------------------- verdicts
    def eq(self, clause, got, want, pre=TRUE, loc=""):
        """got == want under pre"""
        if got is BAD or want is BAD or isinstance(got, Val) or isinstance(want, Val):
            return self.add(clause, "undecided", "no closed form")
        self.hint(pre)
        if self.pinned and evalt.mentions((got, want, pre), self.pinned):
            return self.add(clause, "undecided", "sizes are not fixed")
        # facts the equality needs may be enough on their own: with more of them a term can be rewritten out of reach
        for p in (pre,) + self.weaker:
            n = CTX.push(literals(p))
            try:
                ok = EQ.equal(ite(p, got, want), want)
            except Undecided as e:
                ok = None
            finally:
                CTX.pop(n)
            if ok:
                return self.add(clause, "proved")
        if evalt.forgotten((got, want, pre)):
            return self.add(clause, "undecided", "depends on what a skipped loop computes")
        s = evalt.separate(got, want, pre, SEED, SECS)
        if s:
            return self.add(clause, "violated", "%s, but %s is required for %s" % (fmt(s[1]), fmt(s[2]), s[0]))
        return self.add(clause, "undecided", "normal forms differ but no separating valuation was found: got %s want %s"
                        % (cut(got), cut(want)))

    def true(self, clause, cond, pre=TRUE):
        return self.eq(clause, cond, TRUE, pre)

    def no_panic(self, run, clause="no panic", pre=TRUE, allow=None):
        self.hint(pre)
        bad = {}
        for p in run.panics:
            if self.pinned and evalt.mentions((p.guard, pre), self.pinned):
                return self.add(clause, "undecided", "sizes are not fixed")
            if allow and allow(p):
                continue
            bad.setdefault((p.kind, p.fn), []).append(p)
        if not bad:
            return self.add(clause, "proved")
        worst = "proved"
        for (kind, fn), ps in bad.items():
            g = b_and(pre, ors([p.guard for p in ps]))
            n = CTX.push(literals(g))
            c = simp(g)
            inc = not prove.consistent()
            CTX.pop(n)
            if c is FALSE or inc:
                continue
            s = evalt.separate(g, FALSE, TRUE, SEED, SECS)
            if s:
                return self.add(clause, "violated", "%s in %s (%s) for %s" % (kind, fn, ps[0].span, s[0]))
            worst = "undecided"
            det = "%s in %s (%s) not excluded: %s" % (kind, fn, ps[0].span, cut(g))
        if worst == "proved":
            return self.add(clause, "proved")
        return self.add(clause, worst, det)

    # -------------------------------------------------------------- common questions
    def stride_pairs(self, t, dims):
        w = self.w
        try:
            st = w.get(t, TENSOR, "strides")
            return [(x, w.get(st, STRIDE, x), b) for x, b in zip("ijk", (D1, dims[0], mul(dims[0], dims[1])))]
        except (Undecided, Missing, KeyError, AttributeError, TypeError, IndexError):
            return []

    def tensor_eq(self, clause, got, dims, want, pre=TRUE, coords=None):
        """tensor value got has the dimensions dims and element want(i, j, k) at every coordinate"""
        if got is U or got is BAD or not isinstance(got, S):
            if isinstance(got, G):
                pass
            else:
                return self.add(clause, "undecided", "no closed form of the tensor")
        w = self.w
        gd = w.t_shape(got)
        for x, a, b in zip(("di", "dj", "dk"), gd, dims):
            v = self.eq_q(clause + " (shape %s)" % x, a, b, pre)
            if v != "proved":
                return v
        # the elements are looked at through the data: the strides must lead to them
        for x, a, b in self.stride_pairs(got, dims):
            v = self.eq_q(clause + " (stride %s)" % x, a, b, pre)
            if v != "proved":
                return v
        i, j, k = (D0 if d is D1 else var(sym("at." + x)) for x, d in zip("ijk", dims))
        pre2 = b_and(pre, ands([cmp("Lt", a, d, True) for a, d in zip((i, j, k), dims) if a is not D0]))
        n = CTX.push(literals(pre2))
        try:
            g = w.at(got, i, j, k, dims)
            x = want(i, j, k)
        finally:
            CTX.pop(n)
        return self.eq(clause, g, x, pre2)

    def eq_q(self, clause, got, want, pre):
        """like eq, but only recorded when it does not hold"""
        n = CTX.push(literals(pre))
        try:
            if EQ.equal(ite(pre, got, want), want):
                return "proved"
        except Undecided:
            pass
        finally:
            CTX.pop(n)
        return self.eq(clause, got, want, pre)

    def unchanged(self, clause, before, after, pre=TRUE):
        """value trees are equal under pre"""
        after = self.w.as_before(before, after)
        if same(before, after):
            return self.add(clause, "proved")
        out = []
        pairs(before, after, (), out, ())
        n0 = CTX.push(literals(pre))
        try:
            todo = []
            for a, b, path, lens in out:
                if isinstance(a, Val) or isinstance(b, Val):
                    if a is b or (isinstance(a, Val) and isinstance(b, Val) and same(a, b)):
                        continue
                    return self.add(clause, "undecided", "no closed form of " + path_s(path))
                if isinstance(a, Term) and isinstance(b, Term):
                    if a is b:
                        continue
                    ix = [var(sym("at.e%d" % q)) for q in range(a.rank)]
                    if b.rank != a.rank:
                        return self.add(clause, "undecided", "shape of " + path_s(path))
                    inside = ands([cmp("Lt", x, sel(n, tuple(ix[:n.rank])) if isinstance(n, Term) else n, True)
                                   for x, n in zip(ix, lens) if not isinstance(n, Val)])
                    a, b = sel(a, tuple(ix)), sel(b, tuple(ix))
                else:
                    inside = TRUE
                if a is b:
                    continue
                todo.append((a, b, path, inside))
        finally:
            CTX.pop(n0)
        open_ = 0
        for a, b, path, inside in todo:
            v = self.eq_q("%s (%s)" % (clause, path_s(path)), b, a, b_and(pre, inside))
            if v != "proved":
                open_ += 1
                if v == "violated" or open_ == 8:
                    return v
        return "undecided" if open_ else self.add(clause, "proved")


def pairs(a, b, path, out, lens):
    """corresponding leaves; lens: the lengths of the vectors around them"""
    if isinstance(a, S) and isinstance(b, S) and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            pairs(x, y, path + (i,), out, lens)
    elif isinstance(a, V) and isinstance(b, V):
        out.append((a.n, b.n, path + ("len",), lens))
        pairs(a.e, b.e, path + ("elem",), out, lens + (a.n,))
    elif isinstance(a, E) and isinstance(b, E):
        out.append((a.d, b.d, path + ("variant",), lens))
        for k in a.v:
            if k in b.v:
                for i, (x, y) in enumerate(zip(a.v[k], b.v[k])):
                    pairs(x, y, path + (k, i), out, lens)
    else:
        out.append((a, b, path, lens))


def path_s(p):
    return ".".join(str(x) for x in p) or "value"


def fmt(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    return str(x)


def cut(x, n=400):
    s = show(x) if isinstance(x, (DD, Term, Poly)) else str(x)
    return s if len(s) <= n else s[:n] + "..."
