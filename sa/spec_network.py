"""Properties of the network (C15, C16, C19 .. C25)."""
from .kit import *
from . import std, mir
from .spec_tensor import F, N, eqn, lt, le, is_ok, total, D1, add, sub, mul
from .spec_layer import (LAYER, STATE, TRAIN, INFER, TRAINERS, variant, mode, in_mode, shape_is, consistent, zero_tensor,
                         payload, name_sym, all_of, sym_shape)

NET = "network::Network"
GETTERS = {"get_input_shape": 0, "get_output_shape": 1}


class Net:
    """a symbolic network that satisfies its invariants: n layers whose shapes chain over n + 1 boundaries"""

    def __init__(self, K, n, md, tag=""):
        w = K.w
        self.K, self.n, self.md, self.tag = K, n, md, tag
        self.layers = asym(tag + "layers", "o", 1)
        self.bd = [asym("%sboundary.%s" % (tag, x), "i", 1) for x in ("di", "dj", "dk")]
        b = binder("l")
        dims = tuple(sel(a, (patom(b),)) for a in self.bd)

        def fam(name):
            di, dj, dk = dims

            def lam(d):
                return a_lam([b], d, "i")
            return w.mk(TENSOR, strides=w.mk(STRIDE, i=a_const(D1, 1, "i"), j=lam(di), k=lam(mul(di, dj))),
                        shape=w.mk(SHAPE, di=lam(di), dj=lam(dj), dk=lam(dk)),
                        data=V(lam(total(dims)), asym(name + ".data", "f", 2)))
        self.states, self.grads = fam(tag + "state"), fam(tag + "gradient")
        m = add(n, D1) if n is not D0 else D0
        zero = w.shape(D0, D0, D0)
        self.st = w.mk(NET, layers=V(n, self.layers), intermediate_states=V(m, self.states),
                       intermediate_gradients=V(m if md == TRAIN else D0, self.grads),
                       input_shape=w.shape(*self.dims(D0)) if n is not D0 else zero,
                       output_shape=w.shape(*self.dims(n)) if n is not D0 else zero,
                       run_state=mode(K, md))
        self.pre = cmp("Ge", n, D1, True) if n is not D0 else TRUE
        if w.hist is not None and NET in w.free:
            self.reach()

    def dims(self, i):
        return tuple(sel(a, (i,)) for a in self.bd)

    def layer(self, i):
        return sel(self.layers, (i,))


    def reach(self):
        """the network has fields no property speaks about: what a new network holds there, as long as adding layers and
        changing the mode leave that alone, and what passes then make of it"""
        w, h, K = self.K.w, self.K.w.hist, self.K
        if h > 2:
            raise Undecided("no such history")
        at = [n for n, _, _ in w.added[NET]]
        v = w.run(NET + "::new", [mode(K, self.md)]).ret
        w.free.discard(NET)
        self.st = S([v.f[n] if n in at else x for n, x in enumerate(self.st.f)], NET)

        def kept(r):
            if not all(same(r.arg(0).f[n], self.st.f[n]) for n in at):
                raise Undecided("a field that was added changes as the network is built")

        def go(name, *args, earlier=False):
            D = Dyn(K, self)
            if earlier:
                D.when = "earlier."
            I = w.interp(D)
            I.stepwise = K.pinned is not None
            return w.run(NET + "::" + name, [("ref", self.st)] + list(args), abstract=D, pre=self.pre, I=I)
        kept(go("add_layer", var(sym("layer", "o"))))
        kept(go(TRAINERS[self.md]))
        for name in ("infer", "backward")[:h]:
            if name == "backward" and self.md != TRAIN:
                raise Undecided("no such history")
            r = go(name, ("ref", w.tensor("earlier.given")), earlier=True)
            self.st, self.pre = r.arg(0), b_and(self.pre, r.st.g)


NETS = ("without layers", "with layers")


def nets(K, md, tag=""):
    """an empty network and one with any positive number of layers"""
    return [(nm, Net(K, n, md, tag)) for nm, n in zip(NETS, (D0, N(tag + "layers.len")))]


class Dyn:
    """calls of trait methods on layers the analysis does not know: getters are functions of the layer, everything
    else is an event"""

    def __init__(self, K, *ns):
        self.K = K
        self.ns = ns
        self.unknown = []
        self.when = ""

    def shape_of(self, o, which):
        """dimensions of the layer with identity o"""
        if o.atom is not None:
            c = atomdd(o.atom)
            h, l = self.shape_of(o.hi, which), self.shape_of(o.lo, which)
            return tuple(ite(c, a, b) for a, b in zip(h, l))
        t = o.leaf
        if isinstance(t, Poly):
            t = TERMS[next(iter(t.t))[0][0]]
        if isinstance(t, Term) and t.kind == "sel":
            for n in self.ns:
                if t.args[0] is n.layers:
                    return n.dims(add(leaf(t.args[1][0]), num(which)))
        if isinstance(t, Term) and t.kind == "obj":
            adt, v = mir.OBJECTS[t.id]
            if "layer::" not in adt:
                raise Undecided("shape of a concrete layer behind a trait object")
            m = {i: g for g, i in GETTERS.items()}[which]
            r = self.K.w.run("<%s as %s>::%s" % (adt, LAYER, m), [("ref", v)])
            return self.K.w.dims(r.ret)
        return tuple(uf("%s.%s" % (("input", "output")[which], x), [o], "i", True) for x in ("di", "dj", "dk"))

    def __call__(self, I, st, fr, cal, args):
        if cal.key is not None or cal.fn.get("trait") != LAYER:
            return None
        w = self.K.w
        m = cal.fn["meth"]
        o = std.val(I, st, args[0])
        if not isinstance(o, DD):
            return None
        if m in GETTERS:
            return w.shape(*self.shape_of(o, GETTERS[m]))
        if m == "get_name":
            return uf("name", [o], "o")
        ev = mir.Event(m, st.g, [o] + [std.val(I, st, a) for a in args[1:]], (fr.key, cal.span))
        I.events.append(ev)
        if m in ("forward", "backward"):
            # what a layer answers in one pass; a layer runs at most once per pass (checked where it is used)
            out = ev.args[-1]
            ok, err, res = self.outcome(m, o)
            d = w.t_data(out)
            if I.trace:
                I.events.append(mir.Event("result", st.g, [ok], ("Layer::" + m, cal.span)))
            I.write(st, args[-1], w.mk(TENSOR, strides=w.get(out, TENSOR, "strides"), shape=w.get(out, TENSOR, "shape"),
                                       data=V(d.n, res)))
            return E(ite(ok, D0, D1), {0: (S([]),), 1: (err,)}, "Result")
        if m in ("switch_to_training", "switch_to_inference", "clear_gradients", "apply_gradients"):
            return S([])
        raise Undecided("Layer::%s of an unknown layer" % m)

    def outcome(self, m, o):
        """(succeeds, error, values of the tensor it fills) of the layer with identity o"""
        if o.atom is not None:
            c = atomdd(o.atom)
            h, l = self.outcome(m, o.hi), self.outcome(m, o.lo)
            return ite(c, h[0], l[0]), ite(c, h[1], l[1]), a_ite(c, h[2], l[2])
        p = self.position(o)
        if p is None:
            raise Undecided("%s of a layer that is not in the network" % m)
        n, q = p
        t = self.when + n.tag
        return (sel(asym("%s%s.ok" % (t, m), "b", 1), (q,)), sel(asym("%s%s.error" % (t, m), "o", 1), (q,)),
                a_app(asym("%s%s.data" % (t, m), "f", 2), (q,)))

    def position(self, o):
        t = o.leaf
        if isinstance(t, Poly):
            t = TERMS[next(iter(t.t))[0][0]]
        if isinstance(t, Term) and t.kind == "sel":
            for n in self.ns:
                if t.args[0] is n.layers:
                    return n, t.args[1][0]
        return None


def position(net, o):
    """index of the layer o in the network, as a DD"""
    d = Dyn(net.K, net)

    def go(x):
        if x.atom is not None:
            return ite(atomdd(x.atom), go(x.hi), go(x.lo))
        p = d.position(x)
        if p is None:
            raise Undecided("a layer that is not in the network")
        return leaf(p[1])
    return go(o)


def result(net, m, q):
    """values the layer at position q produced in a pass"""
    return a_app(asym("%s%s.data" % (net.tag, m), "f", 2), (q.leaf,))


def succeeds(net, m, q):
    return sel(asym("%s%s.ok" % (net.tag, m), "b", 1), (q,))


def run_net(K, net, name, args=(), pre=TRUE, others=()):
    D = Dyn(K, net, *others)
    I = K.w.interp(D)
    I.stepwise = K.pinned is not None
    return K.run(NET + "::" + name, [("ref", net.st)] + list(args), pre=b_and(net.pre, pre), abstract=D, I=I)


def events(r, *names):
    return [e for e in r.events if e.name in names]


def each(evs, cond):
    """some event satisfies cond"""
    c = FALSE
    for e in evs:
        d = simp(b_and(e.guard, cond(e)))
        for b, n in e.binders:
            d = mk_any(((b, n),), d)
        c = b_or(c, d)
    return c


SWITCH = ("switch_to_training", "switch_to_inference")


def for_nets(K, clause, f, secs=150, modes=(INFER, TRAIN)):
    for md in modes:
        for i, nm in enumerate(NETS):
            K.block("%s in %s mode, %s" % (clause, md.lower(), nm), lambda: f(nets(K, md)[i][1]), secs)


def same_fields(K, net, after, fields, pre, clause="not changed"):
    for f in fields:
        K.unchanged("%s: %s" % (clause, f), K.w.get(net.st, NET, f), K.w.get(after, NET, f), pre)


# ------------------------------------------------------------------ C15
def c15_network(K):
    w = K.w
    for md in (INFER, TRAIN):
        def new(md=md):
            r = K.run(NET + "::new", [mode(K, md)])
            K.true("starts in the mode it was created with", in_mode(K, w.get(r.ret, NET, "run_state"), md))
        K.block("%s::new in %s mode" % (NET, md.lower()), new)
    for to in (INFER, TRAIN):
        def switch(net, to=to):
            r = run_net(K, net, TRAINERS[to])
            K.true("the network is in the mode", in_mode(K, w.get(r.arg(0), NET, "run_state"), to), net.pre)
            all_switched(K, r, net, to)
            same_fields(K, net, r.arg(0), ("layers", "input_shape", "output_shape", "intermediate_states"), net.pre)
            K.no_panic(r, pre=net.pre)
        for_nets(K, "%s::%s" % (NET, TRAINERS[to]), switch)

    def reports(net):
        r = run_net(K, net, "get_run_state")
        K.true("reports the mode", in_mode(K, r.ret, net.md), net.pre)
        K.unchanged("nothing is changed", net.st, r.arg(0), net.pre)
    for_nets(K, NET + "::get_run_state", reports)

    def added(net):
        o = var(sym("layer", "o"))
        r = run_net(K, net, "add_layer", [o])
        ok = b_and(net.pre, is_ok(r.ret))
        K.true("an added layer is put into the mode of the network",
               each(events(r, TRAINERS[net.md]), lambda e: oeq(e.args[0], o)), ok)
        other = TRAINERS[TRAIN if net.md == INFER else INFER]
        K.eq("no layer is put into the other mode", each(events(r, other), lambda e: TRUE), FALSE, net.pre)
        K.unchanged("the network keeps its mode", w.get(net.st, NET, "run_state"), w.get(r.arg(0), NET, "run_state"),
                    net.pre)
    for_nets(K, NET + "::add_layer", added)

    def passes(name):
        def go(net):
            r = run_net(K, net, name, [("ref", w.tensor("given"))])
            K.unchanged("the network keeps its mode", w.get(net.st, NET, "run_state"),
                        w.get(r.arg(0), NET, "run_state"), net.pre)
            K.eq("no layer is switched", each(events(r, *SWITCH), lambda e: TRUE), FALSE, net.pre)
            if name == "backward" and net.md == INFER:
                K.eq("is refused", is_ok(r.ret), FALSE, net.pre)
                K.eq("no layer runs", each(r.events, lambda e: TRUE), FALSE, net.pre)
                K.unchanged("nothing is changed", net.st, r.arg(0), net.pre)
        return go
    for_nets(K, NET + "::infer", passes("infer"))
    for_nets(K, NET + "::backward", passes("backward"))


def all_switched(K, r, net, to):
    if net.n is not D0:
        q = N("at.layer")
        pre = b_and(net.pre, lt(q, net.n))
        with assume(pre):
            c = each(events(r, TRAINERS[to]), lambda e: eqn(position(net, e.args[0]), q))
        K.true("every layer is put into the mode", c, pre)
    other = TRAINERS[TRAIN if to == INFER else INFER]
    K.eq("no layer is put into the other mode", each(events(r, other), lambda e: TRUE), FALSE, net.pre)


# ------------------------------------------------------------------ C16
def tensors_fit(K, clause, v, count, dims, pre, zero=False, given=()):
    """a vector of count consistent tensors with dimensions dims(q)"""
    K.eq(clause + ": number", v.n, count, pre)
    q = N("at.boundary")
    p2 = b_and(pre, lt(q, count))
    if count is D0:
        return
    with assume(p2):
        t = index(v.e, q)
        d = dims(q)
    (zero_tensor if zero else consistent)(K, clause, t, d, p2)


def c16_network(K):
    w = K.w

    def gradients(net, r, md, zero, n=None, dims=None, pre=TRUE):
        g = w.get(r.arg(0), NET, "intermediate_gradients")
        n = net.n if n is None else n
        pre = b_and(net.pre, pre)
        if md == INFER:
            return K.eq("no gradient tensors", g.n, D0, pre)
        tensors_fit(K, "gradient tensors", g, add(n, D1) if n is not D0 else D0, dims or net.dims, pre, zero)

    for to in (INFER, TRAIN):
        def switch(net, to=to):
            gradients(net, run_net(K, net, TRAINERS[to]), to, True)
        for_nets(K, "%s::%s" % (NET, TRAINERS[to]), switch)

    def added(net):
        o = var(sym("layer", "o"))
        r = run_net(K, net, "add_layer", [o])
        ok, n, dims = chained(K, net, o)
        gradients(net, r, net.md, False, n, dims, ok)
        gradients(net, r, net.md, False, None, None, b_not(ok)) if ok is not TRUE else None
    for_nets(K, NET + "::add_layer", added)

    def passes(name):
        return lambda net: gradients(net, run_net(K, net, name, [("ref", w.tensor("given"))]), net.md, False)
    for_nets(K, NET + "::infer", passes("infer"))
    for_nets(K, NET + "::backward", passes("backward"))

    def new():
        r = K.run(NET + "::new", [K.w.interp().symtree(("adt", STATE, ()), "state")])
        K.eq("no gradient tensors", w.get(r.ret, NET, "intermediate_gradients").n, D0)
    K.block(NET + "::new", new)


def chained(K, net, o):
    """whether the layer fits behind the network, number of layers and boundary shapes afterwards"""
    d = Dyn(K, net)
    inp, out = d.shape_of(o, 0), d.shape_of(o, 1)
    if net.n is D0:
        return TRUE, D1, lambda q: tuple(ite(eqn(q, D0), a, b) for a, b in zip(inp, out))
    ok = ands([eqn(a, b) for a, b in zip(inp, net.dims(net.n))])
    n2 = add(net.n, D1)
    return ok, n2, lambda q: tuple(ite(eqn(q, n2), b, a) for a, b in zip(net.dims(q), out))


# ------------------------------------------------------------------ C19
SHAPES = ("layers", "input_shape", "output_shape")


def c19(K):
    w = K.w

    def new():
        r = K.run(NET + "::new", [K.w.interp().symtree(("adt", STATE, ()), "state")])
        K.eq("no layers", w.get(r.ret, NET, "layers").n, D0)
        K.eq("no intermediate tensors", w.get(r.ret, NET, "intermediate_states").n, D0)
    K.block(NET + "::new", new)

    def adding(net):
        o = var(sym("layer", "o"))
        r = run_net(K, net, "add_layer", [o])
        ok, n, dims = chained(K, net, o)
        K.eq("succeeds exactly when the shapes chain", is_ok(r.ret), ok, net.pre)
        K.no_panic(r, pre=net.pre)
        if ok is not TRUE:
            K.unchanged("a refused layer leaves the network unchanged", net.st, r.arg(0), b_and(net.pre, b_not(ok)))
        pre = b_and(net.pre, ok)
        after = r.arg(0)
        ls = w.get(after, NET, "layers")
        K.eq("one layer more", ls.n, n, pre)
        if net.n is not D0:
            q = N("at.layer")
            p2 = b_and(pre, lt(q, net.n))
            with assume(p2):
                K.eq("the layers that were there stay", index(ls.e, q), net.layer(q), p2)
        with assume(pre):
            last = index(ls.e, net.n)
        K.eq("the new layer is the last one", last, o, pre)
        with assume(pre):
            want_in, want_out = w.shape(*dims(D0)), w.shape(*dims(n))
        K.unchanged("input shape = input shape of the first layer", want_in, w.get(after, NET, "input_shape"), pre)
        K.unchanged("output shape = output shape of the last layer", want_out, w.get(after, NET, "output_shape"), pre)
        tensors_fit(K, "one intermediate tensor per boundary", w.get(after, NET, "intermediate_states"), add(n, D1),
                    dims, pre)
    for_nets(K, NET + "::add_layer", adding)

    def keeps(name, args):
        def go(net):
            r = run_net(K, net, name, args())
            same_fields(K, net, r.arg(0), SHAPES, net.pre)
            tensors_fit(K, "one intermediate tensor per boundary", w.get(r.arg(0), NET, "intermediate_states"),
                        add(net.n, D1) if net.n is not D0 else D0, net.dims, net.pre)
        return go
    g = lambda: [("ref", w.tensor("given"))]
    for_nets(K, NET + "::infer", keeps("infer", g))
    for_nets(K, NET + "::backward", keeps("backward", g))
    for m in SWITCH:
        for_nets(K, "%s::%s" % (NET, m), keeps(m, lambda: []))

    def getters(net):
        for m, f in (("get_input_shape", "input_shape"), ("get_output_shape", "output_shape")):
            r = run_net(K, net, m)
            K.unchanged("%s reports the shape" % m, w.get(net.st, NET, f), r.ret, net.pre)
            K.unchanged("%s changes nothing" % m, net.st, r.arg(0), net.pre)
        r = run_net(K, net, "get_layers")
        K.unchanged("get_layers yields the layers", w.get(net.st, NET, "layers"), std.val(r.I, r.st, r.ret), net.pre)
        q = N("id")
        r = run_net(K, net, "get_intermediate_state", [q])
        v = w.get(net.st, NET, "intermediate_states")
        K.eq("get_intermediate_state succeeds exactly for a boundary of the network", is_ok(r.ret), lt(q, v.n), net.pre)
        K.no_panic(r, pre=net.pre)
        if net.n is not D0:
            pre = b_and(net.pre, lt(q, v.n))
            with assume(pre):
                r = run_net(K, net, "get_intermediate_state", [q], pre=lt(q, v.n))
                K.unchanged("get_intermediate_state yields the tensor of that boundary", index(v.e, q),
                            std.val(r.I, r.st, payload(r.ret)), pre)
    for_nets(K, NET + ": getters", getters)


# ------------------------------------------------------------------ C20, C21
def ordered(K, r, net, m, expected, start, arguments):
    """the events named m run over the expected positions, in order, each exactly once, until a layer fails"""
    evs = events(r, m)
    base = D0
    for x, e in enumerate(evs):
        if len(e.binders) > 1:
            raise Undecided("layers run in nested loops")
        step = base
        tag = "" if len(evs) == 1 else " (call %d)" % (x + 1)
        dom = TRUE
        if e.binders:
            b, cnt = e.binders[0]
            step = add(base, var(b))
            dom = lt(var(b), cnt)
            base = add(base, sub(cnt, D1))
        else:
            base = add(base, D1)
        # the step-th call
        here = b_and(dom, e.guard)
        with assume(net.pre, here):
            p = position(net, e.args[0])
        K.eq("calls are in order%s" % tag, p, expected(step), b_and(net.pre, here))
        j = binder("j")
        with assume(net.pre, dom, lt(step, net.n)):
            failed = mk_any(((j, step.leaf) if step.atom is None else (j, step),), b_not(succeeds(net, m, expected(var(j)))))
            want = ands([start, lt(step, net.n), b_not(failed)])
        K.eq("a layer runs exactly when all before it succeeded%s" % tag, e.guard, want, b_and(net.pre, dom))
        arguments(e, expected(step), b_and(net.pre, here), tag)
    K.true("every layer has its turn", cmp("Ge", base, net.n, True), b_and(net.pre, start))
    q = binder("q")
    allok = b_not(mk_any(((q, net.n),), b_not(succeeds(net, m, expected(var(q))))))
    return allok


def tensor_is(K, clause, t, dims, data, pre):
    """the tensor with these dimensions and the values of the array data"""
    if consistent(K, clause + ": size", t, dims, pre) != "proved":
        return
    c = N("at.value")
    p2 = b_and(pre, lt(c, total(dims)))
    with assume(p2):
        got, want = index(K.w.t_data(t).e, c), (data(c) if callable(data) else index(data, c))
    K.eq(clause, got, want, p2)


def c20(K):
    w = K.w

    def refused(net):
        x = w.tensor("given")
        r = run_net(K, net, "infer", [("ref", x)])
        fit = shape_is(w, x, net.dims(D0)) if net.n is not D0 else FALSE
        bad = b_and(net.pre, b_not(fit))
        K.eq("a wrong input or a network without layers is an error", is_ok(r.ret), FALSE, bad)
        K.eq("no layer runs then", each(r.events, lambda e: TRUE), FALSE, bad)
        K.unchanged("nothing is changed then", net.st, r.arg(0), bad)
        K.unchanged("the given input is not changed", x, r.arg(1), net.pre)
        K.no_panic(r, pre=net.pre)
        r = run_net(K, net, "get_output")
        K.eq("there is an output exactly when there are layers", is_ok(r.ret), TRUE if net.n is not D0 else FALSE, net.pre)
        K.no_panic(r, "get_output: no panic", net.pre)
        if net.n is not D0:
            K.unchanged("the output is the last intermediate tensor",
                        index(w.get(net.st, NET, "intermediate_states").e, net.n),
                        std.val(r.I, r.st, payload(r.ret)), net.pre)
    for_nets(K, NET + "::infer, refused", refused)

    def order(net):
        if net.n is D0:
            return
        x = w.tensor("given", net.dims(D0))
        r = run_net(K, net, "infer", [("ref", x)])
        xd = w.t_data(x).e

        def fed(q):
            """values at boundary q"""
            return a_ite(eqn(q, D0), xd, a_app(asym("forward.data", "f", 2), (psub(q.leaf, P1),)))

        def arguments(e, q, pre, tag):
            tensor_is(K, "a layer gets the output of its predecessor%s" % tag, e.args[1], net.dims(q),
                      fed(q), pre)
            consistent(K, "a layer gets an output tensor of its shape%s" % tag, e.args[2], net.dims(add(q, D1)), pre)
        allok = ordered(K, r, net, "forward", lambda s: s, TRUE, arguments)
        K.eq("succeeds exactly when every layer does", is_ok(r.ret), allok, net.pre)
        K.eq("nothing else is done with the layers", each([e for e in r.events if e.name != "forward"], lambda e: TRUE),
             FALSE, net.pre)
        # what is kept
        q = N("at.boundary")
        pre = ands([net.pre, allok, le(q, net.n)])
        with assume(pre):
            t = index(w.get(r.arg(0), NET, "intermediate_states").e, q)
            tensor_is(K, "the intermediate tensors hold the input and the outputs", t, net.dims(q), fed(q), pre)
    for_nets(K, NET + "::infer", order)


def c21(K):
    w = K.w

    def refused(net):
        g = w.tensor("given")
        r = run_net(K, net, "backward", [("ref", g)])
        fit = shape_is(w, g, net.dims(net.n)) if net.n is not D0 and net.md == TRAIN else FALSE
        bad = b_and(net.pre, b_not(fit))
        K.eq("a wrong gradient, an empty network or inference mode is an error", is_ok(r.ret), FALSE, bad)
        K.eq("no layer runs then", each(r.events, lambda e: TRUE), FALSE, bad)
        K.unchanged("nothing is changed then", net.st, r.arg(0), bad)
        K.unchanged("the given gradient is not changed", g, r.arg(1), net.pre)
        K.no_panic(r, pre=net.pre)
    for_nets(K, NET + "::backward, refused", refused)

    def order(net):
        if net.n is D0:
            return
        g = w.tensor("given", net.dims(net.n))
        r = run_net(K, net, "backward", [("ref", g)])
        gd = w.t_data(g).e
        last = sub(net.n, D1)
        st = w.get(net.st, NET, "intermediate_states").e

        def arguments(e, q, pre, tag):
            with assume(pre):
                K.unchanged("a layer gets the input it had%s" % tag, index(st, q), e.args[1], pre)
                K.unchanged("a layer gets the output it had%s" % tag, index(st, add(q, D1)), e.args[2], pre)
                want = a_ite(eqn(q, last), gd, a_app(asym("backward.data", "f", 2), (padd(q.leaf, P1),)))
            tensor_is(K, "a layer gets the gradient its successor produced%s" % tag, e.args[3], net.dims(add(q, D1)),
                      want, pre)
            consistent(K, "a layer gets a gradient tensor of its input shape%s" % tag, e.args[4], net.dims(q), pre)
        allok = ordered(K, r, net, "backward", lambda s: sub(last, s), TRUE, arguments)
        K.eq("succeeds exactly when every layer does", is_ok(r.ret), allok, net.pre)
        K.eq("nothing else is done with the layers", each([e for e in r.events if e.name != "backward"],
                                                          lambda e: TRUE), FALSE, net.pre)
        same_fields(K, net, r.arg(0), SHAPES + ("intermediate_states", "run_state"), net.pre)
    for_nets(K, NET + "::backward", order, modes=(TRAIN,))
