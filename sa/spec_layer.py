"""Properties of the four layers (C13 .. C18)."""
from .kit import *
from . import std
from .spec_tensor import (F, N, eqn, lt, le, same_shape, total, is_ok, rsum, rmax, relu, fits, fits_image, origin_clause,
                          T_, CV, D1, add, sub, mul)

CONV = "layer::convolutional::ConvolutionalLayer"
FC = "layer::fully_connected::FullyConnectedLayer"
POOL = "layer::max_pool::MaxPoolLayer"
SOFT = "layer::softmax::SoftmaxLayer"
LAYER = "layer::Layer"
STATE = "network::NetworkRunState"
TRAIN, INFER = "Training", "Inference"


def method(adt, name):
    return "<%s as %s>::%s" % (adt, LAYER, name)


def variant(K, adt, name):
    for n, v in enumerate(K.p.adts[adt]["v"]):
        if v["n"] == name:
            return n
    raise Missing("%s::%s" % (adt, name))


def mode(K, name):
    vs = K.p.adts[STATE]["v"]
    return E(num(variant(K, STATE, name)), {i: () for i in range(len(vs))}, STATE)


def in_mode(K, v, name):
    if isinstance(v, G):
        return ite(v.c, in_mode(K, v.a, name), in_mode(K, v.b, name))
    return eqn(v.d, num(variant(K, STATE, name)))


def empty_tensor(w):
    """what Tensor::empty() yields: one zero"""
    return w.tensor("empty", (D1, D1, D1), a_const(D0, 1, "f"))


def name_sym(n="name"):
    return var(sym(n, "o"))


class L:
    """a symbolic layer that satisfies its invariants"""

    def __init__(self, adt, st, pre, params, grads, helpers, shapes):
        self.adt, self.st, self.pre = adt, st, pre
        self.params, self.grads, self.helpers = params, grads, helpers
        self.inp, self.out = shapes


def some(*ds):
    """the layer's tensors are not empty"""
    return ands([cmp("Ge", d, D1, True) for d in ds])


def conv(K, md, tag=""):
    w = K.w
    n, s = N(tag + "kernels.len"), N(tag + "stride")
    ki, kj = N(tag + "kernel.di"), N(tag + "kernel.dj")
    ii, ij, ik = (N(tag + "input_shape." + x) for x in ("di", "dj", "dk"))
    oi, oj = N(tag + "output_shape.di"), N(tag + "output_shape.dj")
    pre = ands([some(n, ki, kj, ik), fits(ii, ki, s, oi), fits(ij, kj, s, oj)])
    tr = md == TRAIN
    st = w.mk(CONV,
              kernels=V(n, w.tensor_rank(tag + "kernels", 1, (ki, kj, ik))),
              biases=V(n, w.tensor_rank(tag + "biases", 1, (D1, D1, D1))),
              kernel_gradients=V(n if tr else D0, w.tensor_rank(tag + "kernel_gradients", 1, (ki, kj, ik))),
              bias_gradients=V(n if tr else D0, w.tensor_rank(tag + "bias_gradients", 1, (D1, D1, D1))),
              stride=s,
              relu_mask=w.tensor(tag + "relu_mask", (oi, oj, n)) if tr else empty_tensor(w),
              input_shape=w.shape(ii, ij, ik), output_shape=w.shape(oi, oj, n),
              name=name_sym(tag + "name"), run_state=mode(K, md))
    l = L(CONV, st, pre, ("kernels", "biases", "stride", "input_shape", "output_shape", "name", "run_state"),
             ("kernel_gradients", "bias_gradients"), ("relu_mask",), ((ii, ij, ik), (oi, oj, n)))
    return reach(K, l, md, tag)


def fc(K, md, tag=""):
    w = K.w
    o, i, d = N(tag + "weights.di"), N(tag + "weights.dj"), N(tag + "weights.dk")
    tr = md == TRAIN

    def t(n, *dims):
        return w.tensor(tag + n, dims) if tr else empty_tensor(w)
    st = w.mk(FC,
              weights=w.tensor(tag + "weights", (o, i, d)), bias=w.tensor(tag + "bias", (o, D1, d)),
              weights_gradients=t("weights_gradients", o, i, d),
              weights_gradients_intermediate=t("weights_gradients_intermediate", o, i, d),
              bias_gradients=t("bias_gradients", o, D1, d), relu_mask=t("relu_mask", o, D1, d),
              name=name_sym(tag + "name"), run_state=mode(K, md))
    l = L(FC, st, some(o, i, d), ("weights", "bias", "name", "run_state"), ("weights_gradients", "bias_gradients"),
             ("weights_gradients_intermediate", "relu_mask"), ((i, D1, d), (o, D1, d)))
    return reach(K, l, md, tag)


def pool(K, md, tag=""):
    w = K.w
    s = N(tag + "stride")
    mi, mj, mk_ = (N(tag + "mask_shape." + x) for x in ("di", "dj", "dk"))
    ii, ij, ik = (N(tag + "input_shape." + x) for x in ("di", "dj", "dk"))
    oi, oj = N(tag + "output_shape.di"), N(tag + "output_shape.dj")
    pre = ands([some(mi, mj, ik), fits(ii, mi, s, oi), fits(ij, mj, s, oj)])
    tr = md == TRAIN
    st = w.mk(POOL, input_shape=w.shape(ii, ij, ik), mask_shape=w.shape(mi, mj, mk_),
              output_shape=w.shape(oi, oj, ik), stride=s, name=name_sym(tag + "name"), run_state=mode(K, md),
              max_pool_origin=V(total((oi, oj, ik)) if tr else D0, asym(tag + "max_pool_origin", "i", 1)))
    l = L(POOL, st, pre, ("input_shape", "mask_shape", "output_shape", "stride", "name", "run_state"), (),
             ("max_pool_origin",), ((ii, ij, ik), (oi, oj, ik)))
    return reach(K, l, md, tag)


def soft(K, md, tag=""):
    w = K.w
    d = tuple(N(tag + "shape." + x) for x in ("di", "dj", "dk"))
    tr = md == TRAIN
    st = w.mk(SOFT, shape=w.shape(*d), name=name_sym(tag + "name"), run_state=mode(K, md),
              intermediate1=w.tensor(tag + "intermediate1", (D1, D1, D1)) if tr else empty_tensor(w),
              intermediate2=w.tensor(tag + "intermediate2", d) if tr else empty_tensor(w))
    l = L(SOFT, st, some(*d), ("shape", "name", "run_state"), (), ("intermediate1", "intermediate2"), (d, d))
    return reach(K, l, md, tag)


def reach(K, l, md, tag):
    """when the layer has fields no property speaks about: the state after a few operations on an empty layer"""
    w, h = K.w, K.w.hist
    if h is None or l.adt not in w.free:
        return l
    own = l.adt
    w.free.discard(own)
    st = [w.run(own + "::empty", []).ret]
    pre = [l.pre]

    def op(name, *args):
        n0 = pre[0]
        r = w.run(name if "::" in name else method(own, name), [("ref", st[0])] + list(args), pre=n0,
                  abstract=adjoint_contract(w, []))
        st[0] = r.arg(0)
        pre[0] = b_and(n0, r.st.g)
        return r

    def g(f):
        return w.get(l.st, own, f)
    names = {CONV: ("kernels", "biases", "input_shape", "stride"), FC: ("weights", "bias"),
             POOL: ("input_shape", "mask_shape", "stride"), SOFT: ("shape",)}[own]

    def fill(other=""):
        vs = [g(f) for f in names]
        if other and own in (CONV, FC):       # other parameters of the same form
            vs[:2] = [again(w, v, tag + "earlier." + f) for v, f in zip(vs, names)]
        op(own + "::fill_from_state", *vs, ("ref", name_sym(tag + other + "name")))

    def step(n):
        x, y = w.tensor(tag + "x%d" % n, l.inp), w.tensor(tag + "y%d" % n, l.out)
        r = op("forward", ("ref", x), ("ref", y))
        op("backward", ("ref", x), ("ref", r.arg(2)), ("ref", w.tensor(tag + "g%d" % n, l.out)),
           ("ref", w.tensor(tag + "o%d" % n, l.inp)))
    def often(v):
        """whole numbers that every step changes by the same amount: any number of steps"""
        k = N(tag + "passes")
        q = st[0]
        for n, f, t in w.added[own]:
            x, y = v.f[n], q.f[n]
            if not (t[0] == "prim" and t[1][0] in "ui" and isinstance(x, DD) and isinstance(y, DD)):
                continue
            c = simp(sub(y, x))
            if c.atom is not None or not isinstance(c.leaf, Poly) or c.leaf.const in (None, 0):
                continue
            z = var(sym(tag + "earlier." + f, "i", True))
            st[0] = S([z if i == n else e for i, e in enumerate(q.f)], own)
            p0 = pre[0]
            pre[0] = ands([p0, cmp("Ge", z, x, True), cmp("Le", z, num(1000), True)])
            step(1)
            pre[0] = p0
            if simp(sub(st[0].f[n], z)) is c:
                e = simp(add(x, mul(c, k)))
                q = S([e if i == n else o for i, o in enumerate(q.f)], own)
                pre[0] = ands([p0, cmp("Ge", k, D1, True), cmp("Le", e, num(1000), True)])
        st[0] = q
    if h == 0:
        fill()
        op(TRAINERS[md])
    elif h == 1:
        op(TRAINERS[md])
        args, ok, _ = fill_args(K, l)
        pre[0] = b_and(pre[0], ok)
        op(own + "::fill_from_state", *args[1:])
        fill()
    elif h == 2:
        op(TRAINERS[TRAIN])
        fill("earlier.")
        step(0)
        fill()
        op(TRAINERS[md])
    else:
        fill()
        op(TRAINERS[TRAIN])
        if h == 5:
            v = st[0]
            step(0)
            often(v)
        else:
            step(0)
        if h == 4:
            op("clear_gradients")
        if md != TRAIN:
            op(TRAINERS[md])
    l.st, l.pre = st[0], pre[0]
    return l


def again(w, v, name):
    """tensors of the same form with other contents"""
    if isinstance(v, V):
        d, e = w.t_data(v.e), w.t_data(w.tensor_rank(name, 1)).e
        return V(v.n, S([V(d.n, e) if f is d else f for f in v.e.f], v.e.tag))
    return w.tensor(name, w.t_shape(v))


LAYERS = {CONV: conv, FC: fc, POOL: pool, SOFT: soft}


def shape_is(w, t, d):
    return ands([eqn(a, b) for a, b in zip(w.t_shape(t), d)])


def fields_unchanged(K, clause, l, after, fields, pre=TRUE):
    w = K.w
    for f in fields:
        K.unchanged("%s: %s" % (clause, f), w.get(l.st, l.adt, f), w.get(after, l.adt, f), pre)


# ------------------------------------------------------------------ C13
def function(K, l, x):
    """the layer's function: (i, j, k) -> value of output element"""
    w = K.w

    def g(f):
        return w.get(l.st, l.adt, f)
    if l.adt == FC:
        W, b = g("weights"), g("bias")
        n = w.t_shape(W)[1]
        return lambda i, j, k: relu(add(rsum([("m", n)], lambda m: mul(w.at(W, i, m, k), w.at(x, m, j, k))),
                                        w.at(b, i, j, k)))
    if l.adt == CONV:
        return lambda i, j, k: relu(conv_at(K, l, x, i, j, k))
    if l.adt == POOL:
        mi, mj, _ = w.dims(g("mask_shape"))
        s = g("stride")
        return lambda i, j, k: rmax([("y", mj), ("x", mi)],
                                    lambda b, a: w.at(x, add(mul(i, s), a), add(mul(j, s), b), k))
    e, d = w.t_data(x).e, w.t_shape(x)
    return lambda i, j, k: fdiv(fexp(w.at(x, i, j, k)), rsum([("m", total(d))], lambda m: fexp(index(e, m))))


def conv_at(K, l, x, i, j, k):
    w = K.w
    ks, bs, s = (w.get(l.st, l.adt, f) for f in ("kernels", "biases", "stride"))
    ker = index(ks.e, k)
    ki, kj, kk = w.t_shape(ker)
    return add(rsum([("z", kk), ("y", kj), ("x", ki)],
                    lambda z, y, q: mul(w.at(ker, q, y, z), w.at(x, add(mul(i, s), q), add(mul(j, s), y), z))),
               w.at(index(bs.e, k), D0, D0, D0))


def c13(K):
    for adt, mk in LAYERS.items():
        for md in (INFER, TRAIN):
            K.block("%s in %s mode" % (method(adt, "forward"), md.lower()), lambda: forward(K, mk(K, md), md), 300)


def forward(K, l, md):
    w = K.w
    x, y = w.tensor("input"), w.tensor("output")
    okc = b_and(shape_is(w, x, l.inp), shape_is(w, y, l.out))
    r = K.run(method(l.adt, "forward"), [("ref", l.st), ("ref", x), ("ref", y)], pre=l.pre)
    K.eq("succeeds exactly when both tensors fit the layer", is_ok(r.ret), okc, l.pre)
    K.unchanged("the input is not changed", x, r.arg(1), l.pre)
    K.unchanged("a refused output is not changed", y, r.arg(2), b_and(l.pre, b_not(okc)))
    fields_unchanged(K, "not changed", l, r.arg(0), l.params + l.grads, l.pre)
    fields_unchanged(K, "not changed when refused", l, r.arg(0), l.helpers, b_and(l.pre, b_not(okc)))
    K.no_panic(r, pre=l.pre)
    # the accepted case, written with the dimensions of the layer
    x, y = w.tensor("input", l.inp), w.tensor("output", l.out)
    r = K.run(method(l.adt, "forward"), [("ref", l.st), ("ref", x), ("ref", y)], pre=l.pre)
    K.tensor_eq("the output is the layer's function of the input", r.arg(2), l.out, function(K, l, x), l.pre)


# ------------------------------------------------------------------ C14
ADJOINT = CV + "convolution_backprop_outgoing_gradient"


def adjoint_contract(w, calls):
    """convolution_backprop_outgoing_gradient by its contract (C09): it is called with recorded arguments and stores
    the adjoint in its last argument when everything fits"""
    def abstract(I, st, fr, cal, args):
        f = I.p.fns.get(cal.key)
        if f is None or f["path"] != ADJOINT:
            return None
        inc, ks, s, out = (std.val(I, st, a) for a in args)
        (oi, oj, ok_), (ii, ij, ik) = w.t_shape(inc), w.t_shape(out)
        n = binder("n")
        ki, kj, kk = w.t_shape(index(ks.e, var(n)))
        with assume(lt(var(n), ks.n)):
            bad = simp(b_not(ands([eqn(ik, kk), fits(ii, ki, s, oi), fits(ij, kj, s, oj)])))
        fit = b_and(eqn(ks.n, ok_), b_not(mk_any(((n, ks.n),), bad)))
        res = w.tensor("adjoint", w.t_shape(out))
        calls.append((st.g, inc, ks, s, out))
        I.write(st, args[3], merge(fit, res, out))
        return E(ite(fit, D0, D1), {0: (S([]),), 1: (var(sym("adjoint.error", "o")),)}, "Result")
    return abstract


def c14(K):
    w = K.w
    for adt, mk in LAYERS.items():
        K.block("%s, refused" % method(adt, "backward"), lambda: refused(K, mk(K, TRAIN)), 200)
        K.block(method(adt, "backward"), lambda: BACK[adt](K, mk(K, TRAIN)), 300)
        if adt != SOFT:
            K.block("%s, what is kept for backward" % method(adt, "forward"), lambda: kept(K, mk(K, TRAIN)), 200)
            K.block("%s, before backward" % method(adt, "clear_gradients"), lambda: kept_when_cleared(K, mk(K, TRAIN)))


def kept_when_cleared(K, l):
    """gradients may be cleared between the forward and the backward pass: what the forward pass left for the
    backward pass is still there"""
    r = K.run(method(l.adt, "clear_gradients"), [("ref", l.st)], pre=l.pre)
    fields_unchanged(K, "what backward uses is kept", l, r.arg(0),
                     ("max_pool_origin",) if l.adt == POOL else ("relu_mask",), l.pre)


def back_args(K, l, own):
    """input, output, incoming, outgoing"""
    w = K.w
    if own:
        return [w.tensor("input", l.inp), w.tensor("output", l.out), w.tensor("incoming", l.out),
                w.tensor("outgoing", l.inp)]
    return [w.tensor(n) for n in ("input", "output", "incoming", "outgoing")]


def run_back(K, l, args, abstract=None, pre=TRUE):
    return K.run(method(l.adt, "backward"), [("ref", l.st)] + [("ref", a) for a in args], pre=b_and(l.pre, pre),
                 abstract=abstract)


def back_fits(K, l, args):
    """whether the tensors backward uses fit the layer"""
    w = K.w
    x, y, g, o = args
    c = [shape_is(w, g, l.out), shape_is(w, o, l.inp)]
    if l.adt in (CONV, FC):
        c.append(shape_is(w, x, l.inp))
    if l.adt == SOFT:
        c.append(shape_is(w, y, l.out))
    return ands(c)


def origins_fit(K, l):
    if l.adt != POOL:
        return TRUE
    o = K.w.get(l.st, POOL, "max_pool_origin")
    n = binder("n")
    return b_not(mk_any(((n, o.n),), cmp("Ge", index(o.e, var(n)), total(l.inp), True)))


def refused(K, l):
    w = K.w
    args = back_args(K, l, False)
    calls = []
    r = run_back(K, l, args, adjoint_contract(w, calls), origins_fit(K, l))
    pre = b_and(l.pre, origins_fit(K, l))
    okc = back_fits(K, l, args)
    K.eq("succeeds exactly when the tensors fit the layer", is_ok(r.ret), okc, pre)
    bad = b_and(pre, b_not(okc))
    fields_unchanged(K, "not changed when refused", l, r.arg(0), l.params + l.grads + l.helpers, bad)
    for n, a in zip((1, 2, 3), args):
        K.unchanged("argument %d is not changed" % n, a, r.arg(n), pre)
    K.unchanged("a refused outgoing gradient is not changed", args[3], r.arg(4), bad)
    fields_unchanged(K, "not changed", l, r.arg(0), l.params, pre)
    K.no_panic(r, pre=pre)


def kept(K, l):
    """the helper data that backward relies on after a forward pass in training mode"""
    w = K.w
    x, y = w.tensor("input", l.inp), w.tensor("output", l.out)
    r = K.run(method(l.adt, "forward"), [("ref", l.st), ("ref", x), ("ref", y)], pre=l.pre)
    f = function(K, l, x)
    if l.adt != POOL:
        K.tensor_eq("the mask marks the outputs that the ReLU lets pass", w.get(r.arg(0), l.adt, "relu_mask"), l.out,
                    lambda i, j, k: ite(cmp("Gt", f(i, j, k), D0, False), D1, D0), l.pre)
        return
    o = w.get(r.arg(0), POOL, "max_pool_origin")
    mi, mj, _ = w.dims(w.get(l.st, POOL, "mask_shape"))
    i, j, k = (var(sym("at." + x)) for x in "ijk")
    d = l.out
    pre = ands([l.pre, cmp("Ge", mi, D1, True), cmp("Ge", mj, D1, True)] + [lt(x, y) for x, y in zip((i, j, k), d)])
    with assume(pre):
        got = index(o.e, add(i, mul(d[0], add(j, mul(d[1], k)))))
        origin_clause(K, "the recorded origin attains the maximum of its window", got, x, (i, j, k),
                      w.get(l.st, POOL, "stride"), (mi, mj), f(i, j, k), pre)
    K.eq("one origin per output", o.n, total(d), l.pre)


def delta(K, l, g):
    """gradient behind the ReLU"""
    w = K.w
    m = w.get(l.st, l.adt, "relu_mask")
    return lambda i, j, k: mul(w.at(m, i, j, k), w.at(g, i, j, k))


def back_fc(K, l):
    w = K.w
    x, y, g, o = args = back_args(K, l, True)
    r = run_back(K, l, args)
    de = delta(K, l, g)
    W = w.get(l.st, FC, "weights")
    after = r.arg(0)
    n = l.out[0]
    K.true("succeeds after a forward pass", is_ok(r.ret), l.pre)
    K.tensor_eq("outgoing gradient = transposed weights x gradient behind the ReLU", r.arg(4), l.inp,
                lambda i, j, k: rsum([("o", n)], lambda q: mul(w.at(W, q, i, k), de(q, D0, k))), l.pre)
    old = w.get(l.st, FC, "bias_gradients")
    K.tensor_eq("the bias gradients grow by this pass", w.get(after, FC, "bias_gradients"), l.out,
                lambda i, j, k: add(w.at(old, i, j, k), de(i, j, k)), l.pre)
    oldw = w.get(l.st, FC, "weights_gradients")
    K.tensor_eq("the weight gradients grow by this pass", w.get(after, FC, "weights_gradients"), w.t_shape(W),
                lambda i, j, k: add(w.at(oldw, i, j, k), mul(de(i, D0, k), w.at(x, j, D0, k))), l.pre)


def back_soft(K, l):
    w = K.w
    x, y, g, o = args = back_args(K, l, True)
    r = run_back(K, l, args)
    K.true("succeeds after a forward pass", is_ok(r.ret), l.pre)
    s = rsum([("c", l.out[2]), ("b", l.out[1]), ("a", l.out[0])],
             lambda c, b, a: mul(w.at(y, a, b, c), w.at(g, a, b, c)))
    K.tensor_eq("outgoing gradient = derivative of the softmax applied to the incoming gradient", r.arg(4), l.inp,
                lambda i, j, k: sub(mul(w.at(y, i, j, k), w.at(g, i, j, k)), mul(w.at(y, i, j, k), s)), l.pre)


def back_pool(K, l):
    w = K.w
    x, y, g, o = args = back_args(K, l, True)
    fit = origins_fit(K, l)
    r = run_back(K, l, args, pre=fit)
    pre = b_and(l.pre, fit)
    K.true("succeeds after a forward pass", is_ok(r.ret), pre)
    lst = w.get(l.st, POOL, "max_pool_origin")
    p = N("at.position")
    pre = b_and(pre, lt(p, total(l.inp)))
    with assume(pre):
        got = index(w.t_data(r.arg(4)).e, p)
        want = rsum([("n", total(l.out))], lambda n: index(w.t_data(g).e, n), lambda n: eqn(index(lst.e, n), p))
    K.eq("every input receives the gradients of the outputs it was the maximum of, and nothing else", got, want, pre)
    K.unchanged("the recorded origins stay", lst, w.get(r.arg(0), POOL, "max_pool_origin"), l.pre)


def back_conv(K, l):
    w = K.w
    x, y, g, o = args = back_args(K, l, True)
    calls = []
    r = run_back(K, l, args, adjoint_contract(w, calls))
    after = r.arg(0)
    de = delta(K, l, g)
    n = l.out[2]
    K.true("succeeds after a forward pass", is_ok(r.ret), l.pre)
    s = w.get(l.st, CONV, "stride")
    c = N("at.kernel")
    pre = b_and(l.pre, lt(c, n))
    with assume(pre):
        gb = index(w.get(after, CONV, "bias_gradients").e, c)
        ob = index(w.get(l.st, CONV, "bias_gradients").e, c)
        gk = index(w.get(after, CONV, "kernel_gradients").e, c)
        ok_ = index(w.get(l.st, CONV, "kernel_gradients").e, c)
        kd = w.t_shape(index(w.get(l.st, CONV, "kernels").e, c))
    K.eq("one bias gradient per kernel", w.get(after, CONV, "bias_gradients").n, n, l.pre)
    K.eq("one kernel gradient per kernel", w.get(after, CONV, "kernel_gradients").n, n, l.pre)
    K.tensor_eq("the bias gradients grow by this pass", gb, (D1, D1, D1),
                lambda i, j, k: add(w.at(ob, i, j, k),
                                    rsum([("j", l.out[1]), ("i", l.out[0])], lambda b, a: de(a, b, c))), pre)
    K.tensor_eq("the kernel gradients grow by this pass", gk, kd,
                lambda i, j, k: add(w.at(ok_, i, j, k),
                                    rsum([("j", l.out[1]), ("i", l.out[0])],
                                         lambda b, a: mul(de(a, b, c),
                                                          w.at(x, add(mul(a, s), i), add(mul(b, s), j), k)))), pre)
    if not calls:
        return K.add("the outgoing gradient is the adjoint of the convolution", "undecided",
                     ADJOINT + " is not called; its contract is what this clause compares with")
    for gd, inc, ks, st, out in calls:
        p = b_and(l.pre, gd)
        K.tensor_eq("the adjoint is applied to the gradient behind the ReLU", inc, l.out, de, p)
        K.unchanged("the adjoint uses the kernels of the layer", w.get(l.st, CONV, "kernels"), ks, p)
        K.eq("the adjoint uses the stride of the layer", st, s, p)
    K.unchanged("the outgoing gradient is that adjoint", w.tensor("adjoint", l.inp), r.arg(4), l.pre)


BACK = {CONV: back_conv, FC: back_fc, POOL: back_pool, SOFT: back_soft}


# ------------------------------------------------------------------ layer states after an operation
TRAINERS = {TRAIN: "switch_to_training", INFER: "switch_to_inference"}


def consistent(K, clause, t, dims, pre):
    """the tensor has these dimensions, the matching strides and as many values as they promise"""
    w = K.w
    st = w.get(t, TENSOR, "strides")
    got = w.t_shape(t) + tuple(w.get(st, STRIDE, f) for f in "ijk") + (w.t_data(t).n,)
    want = tuple(dims) + (D1, dims[0], mul(dims[0], dims[1]), total(dims))
    for n, a, b in zip(("di", "dj", "dk", "stride i", "stride j", "stride k", "number of values"), got, want):
        v = K.eq_q("%s (%s)" % (clause, n), a, b, pre)
        if v != "proved":
            return v
    return K.add(clause, "proved")


def zero_tensor(K, clause, t, dims, pre):
    if consistent(K, clause + ": size", t, dims, pre) == "proved":
        K.tensor_eq(clause + ": zero", t, dims, lambda i, j, k: D0, pre)


def buffers(K, adt, st, pre, zero=True, what="after"):
    """the buffers of a layer in training mode fit its own parameters"""
    w = K.w

    def one(clause, t, dims, pre=pre):
        (zero_tensor if zero else consistent)(K, clause, t, dims, pre)

    def g(f):
        return w.get(st, adt, f)
    if adt == FC:
        wd, bd = w.t_shape(g("weights")), w.t_shape(g("bias"))
        for f in ("weights_gradients", "weights_gradients_intermediate"):
            one(f, g(f), wd)
        for f in ("bias_gradients", "relu_mask"):
            one(f, g(f), bd)
    elif adt == CONV:
        n = g("kernels").n
        c = N("at.kernel")
        K.eq("one kernel gradient per kernel", g("kernel_gradients").n, n, pre)
        K.eq("one bias gradient per kernel", g("bias_gradients").n, n, pre)
        p2 = b_and(pre, lt(c, n))
        with assume(p2):
            kd = w.t_shape(index(g("kernels").e, c))
            kg, bg = index(g("kernel_gradients").e, c), index(g("bias_gradients").e, c)
        one("kernel_gradients", kg, kd, p2)
        one("bias_gradients", bg, (D1, D1, D1), p2)
        one("relu_mask", g("relu_mask"), w.dims(g("output_shape")))
    elif adt == POOL:
        o = g("max_pool_origin")
        n = total(w.dims(g("output_shape")))
        K.eq("one origin per output", o.n, n, pre)
        if zero:
            c = N("at.origin")
            p2 = b_and(pre, lt(c, n))
            with assume(p2):
                x = index(o.e, c)
            K.eq("max_pool_origin: zero", x, D0, p2)
    else:
        one("intermediate1", g("intermediate1"), (D1, D1, D1))
        one("intermediate2", g("intermediate2"), w.dims(g("shape")))


def released(K, adt, st, pre):
    """no buffer keeps more than one value"""
    w = K.w
    for f in BUFFERS[adt]:
        b = w.get(st, adt, f)
        if isinstance(b, V):
            K.eq("%s is released" % f, b.n, D0, pre)
        else:
            K.true("%s is released" % f, le(w.t_data(b).n, D1), pre)


BUFFERS = {CONV: ("kernel_gradients", "bias_gradients", "relu_mask"),
           FC: ("weights_gradients", "weights_gradients_intermediate", "bias_gradients", "relu_mask"),
           POOL: ("max_pool_origin",), SOFT: ("intermediate1", "intermediate2")}


def payload(v, k=0):
    """the value inside Ok"""
    if isinstance(v, G):
        return merge(v.c, payload(v.a, k), payload(v.b, k))
    xs = v.v.get(0)
    return xs[k] if xs else U


# ------------------------------------------------------------------ C15 for layers
def c15_layers(K):
    for adt, mk in LAYERS.items():
        for md in (INFER, TRAIN):
            for to in (INFER, TRAIN):
                K.block("%s from %s mode" % (method(adt, TRAINERS[to]), md.lower()), lambda: switch(K, mk(K, md), to))
            K.block("%s in %s mode" % (method(adt, "get_run_mode"), md.lower()), lambda: reports(K, mk(K, md), md))
            K.block("%s::fill_from_state in %s mode" % (adt, md.lower()), lambda: fill_mode(K, mk(K, md), md))
            K.block("%s in %s mode" % (method(adt, "clear_gradients"), md.lower()), lambda: clear_mode(K, mk(K, md)))
        K.block("%s in inference mode" % method(adt, "backward"), lambda: back_refused(K, mk(K, INFER)))
        K.block("%s::empty" % adt, lambda: K.true("starts in inference mode", in_mode(
            K, K.w.get(K.run(adt + "::empty", []).ret, adt, "run_state"), INFER)))
        K.block("%s::new" % adt, lambda: new_mode(K, adt))
        for to in (INFER, TRAIN):
            K.block("%s::empty switched to %s mode" % (adt, to.lower()), lambda: empty_switched(K, adt, to))


def empty_switched(K, adt, to):
    """a layer that has not been filled yet"""
    new = K.run(adt + "::empty", []).ret
    r = K.run(method(adt, TRAINERS[to]), [("ref", new)])
    K.no_panic(r)
    st = r.arg(0)
    K.true("the layer is in the mode", in_mode(K, K.w.get(st, adt, "run_state"), to))
    r = K.run(method(adt, "get_run_mode"), [("ref", st)])
    K.no_panic(r)
    K.true("reports the mode", in_mode(K, r.ret, to))


def switch(K, l, to):
    r = K.run(method(l.adt, TRAINERS[to]), [("ref", l.st)], pre=l.pre)
    K.true("the layer is in the mode", in_mode(K, K.w.get(r.arg(0), l.adt, "run_state"), to), l.pre)
    fields_unchanged(K, "not changed", l, r.arg(0), [f for f in l.params if f != "run_state"], l.pre)
    K.no_panic(r, pre=l.pre)


def reports(K, l, md):
    r = K.run(method(l.adt, "get_run_mode"), [("ref", l.st)], pre=l.pre)
    K.true("reports the mode", in_mode(K, r.ret, md), l.pre)
    K.unchanged("nothing is changed", l.st, r.arg(0), l.pre)


def fill_mode(K, l, md):
    r = K.run(l.adt + "::fill_from_state", fill_args(K, l)[0], pre=l.pre)
    K.true("keeps the mode", in_mode(K, K.w.get(r.arg(0), l.adt, "run_state"), md), l.pre)


def clear_mode(K, l):
    r = K.run(method(l.adt, "clear_gradients"), [("ref", l.st)], pre=l.pre)
    K.unchanged("keeps the mode", K.w.get(l.st, l.adt, "run_state"), K.w.get(r.arg(0), l.adt, "run_state"), l.pre)


def back_refused(K, l):
    args = back_args(K, l, False)
    calls = []
    r = run_back(K, l, args, adjoint_contract(K.w, calls))
    K.eq("is refused", is_ok(r.ret), FALSE, l.pre)
    K.unchanged("the layer is not changed", l.st, r.arg(0), l.pre)
    for n, a in zip((1, 2, 3, 4), args):
        K.unchanged("argument %d is not changed" % n, a, r.arg(n), l.pre)
    K.no_panic(r, pre=l.pre)


def new_mode(K, adt):
    args, ok, _, _ = new_args(K, adt)
    r = K.run(adt + "::new", args, pre=ok)
    st = r.ret if adt == FC else payload(r.ret)
    K.true("starts in inference mode", in_mode(K, K.w.get(st, adt, "run_state"), INFER), ok)


# ------------------------------------------------------------------ C16 for layers
def c16_layers(K):
    for adt, mk in LAYERS.items():
        for md in (INFER, TRAIN):
            for to in (INFER, TRAIN):
                K.block("%s from %s mode" % (method(adt, TRAINERS[to]), md.lower()),
                        lambda: switch_buffers(K, mk(K, md), to))
            K.block("%s::fill_from_state in %s mode" % (adt, md.lower()), lambda: fill_buffers(K, mk(K, md), md))
            K.block("%s in %s mode" % (method(adt, "clear_gradients"), md.lower()),
                    lambda: clear_buffers(K, mk(K, md), md))
            K.block("%s in %s mode" % (method(adt, "forward"), md.lower()),
                    lambda: forward_buffers(K, mk(K, md), md), 300)
        K.block(method(adt, "backward"), lambda: backward_buffers(K, mk(K, TRAIN)), 300)
        K.block("%s::empty" % adt, lambda: released(K, adt, K.run(adt + "::empty", []).ret, TRUE))
        K.block("%s::new" % adt, lambda: new_buffers(K, adt))


def state_buffers(K, adt, st, md, pre, zero):
    if md == TRAIN:
        buffers(K, adt, st, pre, zero)
    else:
        released(K, adt, st, pre)


def switch_buffers(K, l, to):
    r = K.run(method(l.adt, TRAINERS[to]), [("ref", l.st)], pre=l.pre)
    state_buffers(K, l.adt, r.arg(0), to, l.pre, True)


def fill_buffers(K, l, md):
    args, ok, _ = fill_args(K, l)
    pre = b_and(l.pre, ok)
    r = K.run(l.adt + "::fill_from_state", args, pre=pre)
    state_buffers(K, l.adt, r.arg(0), md, pre, True)


def clear_buffers(K, l, md):
    r = K.run(method(l.adt, "clear_gradients"), [("ref", l.st)], pre=l.pre)
    state_buffers(K, l.adt, r.arg(0), md, l.pre, False)


def forward_buffers(K, l, md):
    w = K.w
    r = K.run(method(l.adt, "forward"), [("ref", l.st), ("ref", w.tensor("input", l.inp)),
                                         ("ref", w.tensor("output", l.out))], pre=l.pre)
    state_buffers(K, l.adt, r.arg(0), md, l.pre, False)


def backward_buffers(K, l):
    calls = []
    pre = b_and(l.pre, origins_fit(K, l))
    r = run_back(K, l, back_args(K, l, True), adjoint_contract(K.w, calls), pre)
    K.true("cannot fail for well-shaped tensors", is_ok(r.ret), pre)
    buffers(K, l.adt, r.arg(0), pre, False)


def new_buffers(K, adt):
    args, ok, _, _ = new_args(K, adt)
    r = K.run(adt + "::new", args, pre=ok)
    released(K, adt, r.ret if adt == FC else payload(r.ret), ok)


# ------------------------------------------------------------------ C17
def c17(K):
    for adt, mk in LAYERS.items():
        for md in (INFER, TRAIN):
            K.block("%s in %s mode" % (method(adt, "clear_gradients"), md.lower()), lambda: clears(K, mk(K, md), md))


def clears(K, l, md):
    w = K.w
    r = K.run(method(l.adt, "clear_gradients"), [("ref", l.st)], pre=l.pre)
    after = r.arg(0)
    fields_unchanged(K, "not changed", l, after, l.params, l.pre)
    K.no_panic(r, pre=l.pre)
    if md == TRAIN:
        buffers(K, l.adt, after, l.pre, False)
    else:
        released(K, l.adt, after, l.pre)
    if md != TRAIN:
        return
    if l.adt == FC:
        zero_tensor(K, "weights_gradients", w.get(after, FC, "weights_gradients"), w.t_shape(w.get(l.st, FC, "weights")),
                    l.pre)
        zero_tensor(K, "bias_gradients", w.get(after, FC, "bias_gradients"), l.out, l.pre)
    elif l.adt == CONV:
        n = w.get(l.st, CONV, "kernels").n
        c = N("at.kernel")
        pre = b_and(l.pre, lt(c, n))
        with assume(pre):
            kd = w.t_shape(index(w.get(l.st, CONV, "kernels").e, c))
            kg = index(w.get(after, CONV, "kernel_gradients").e, c)
            bg = index(w.get(after, CONV, "bias_gradients").e, c)
        zero_tensor(K, "kernel_gradients", kg, kd, pre)
        zero_tensor(K, "bias_gradients", bg, (D1, D1, D1), pre)


# ------------------------------------------------------------------ C18
def sym_shape(K, name):
    d = tuple(N("%s.%s" % (name, x)) for x in ("di", "dj", "dk"))
    return K.w.shape(*d), d


def all_of(n, f):
    """f(i) for every i < n"""
    b = binder("n")
    with assume(lt(var(b), n)):
        c = f(var(b))
    return b_not(mk_any(((b, n),), b_not(c)))


def fill_args(K, l):
    """arguments of fill_from_state, when they fit together, the fields they determine"""
    w = K.w
    name = name_sym("new name")
    if l.adt == CONV:
        ks = V(N("new kernels.len"), w.tensor_rank("new kernels", 1))
        bs = V(N("new biases.len"), w.tensor_rank("new biases", 1))
        sh, (ii, ij, ik) = sym_shape(K, "new input")
        s = N("new stride")
        some = cmp("Ge", ks.n, D1, True)
        with assume(some):
            k0 = w.t_shape(index(ks.e, D0))
        uniform = all_of(ks.n, lambda i: ands([eqn(a, b) for a, b in zip(w.t_shape(index(ks.e, i)), k0)]))
        scalar = all_of(bs.n, lambda i: shape_is(w, index(bs.e, i), (D1, D1, D1)))
        geo = b_and(fits_image(ii, k0[0], s), fits_image(ij, k0[1], s))
        ok = ands([some, uniform, eqn(k0[2], ik), eqn(bs.n, ks.n), scalar, geo])
        with assume(ok):
            out = (add(idiv(sub(ii, k0[0]), s), D1), add(idiv(sub(ij, k0[1]), s), D1), ks.n)
        return ([("ref", l.st), ks, bs, sh, s, ("ref", name)], ok,
                dict(kernels=ks, biases=bs, stride=s, input_shape=sh, output_shape=w.shape(*out), name=name))
    if l.adt == FC:
        W, b = w.tensor("new weights"), w.tensor("new bias")
        wd, bd = w.t_shape(W), w.t_shape(b)
        ok = ands([eqn(wd[0], bd[0]), eqn(wd[2], bd[2]), eqn(bd[1], D1)])
        return [("ref", l.st), W, b, ("ref", name)], ok, dict(weights=W, bias=b, name=name)
    if l.adt == POOL:
        sh, (ii, ij, ik) = sym_shape(K, "new input")
        ms, m = sym_shape(K, "new mask")
        s = N("new stride")
        ok = b_and(fits_image(ii, m[0], s), fits_image(ij, m[1], s))
        with assume(ok):
            out = (add(idiv(sub(ii, m[0]), s), D1), add(idiv(sub(ij, m[1]), s), D1), ik)
        return ([("ref", l.st), sh, ms, s, ("ref", name)], ok,
                dict(input_shape=sh, mask_shape=ms, stride=s, output_shape=w.shape(*out), name=name))
    sh, _ = sym_shape(K, "new")
    return [("ref", l.st), sh, ("ref", name)], TRUE, dict(shape=sh, name=name)


def new_args(K, adt):
    """arguments of new, when they fit together, input and output dimensions"""
    w = K.w
    name = name_sym("new name")
    if adt == FC:
        i, o = N("input_size"), N("output_size")
        return [i, o, ("ref", name)], b_and(cmp("Ge", i, D1, True), cmp("Ge", o, D1, True)), (i, D1, D1), (o, D1, D1)
    if adt == SOFT:
        sh, d = sym_shape(K, "new")
        return [sh, ("ref", name)], TRUE, d, d
    ks, kd = sym_shape(K, "new kernel")
    sh, d = sym_shape(K, "new input")
    s = N("new stride")
    geo = b_and(fits_image(d[0], kd[0], s), fits_image(d[1], kd[1], s))
    if adt == POOL:
        with assume(geo):
            out = (add(idiv(sub(d[0], kd[0]), s), D1), add(idiv(sub(d[1], kd[1]), s), D1), d[2])
        return [ks, sh, s, ("ref", name)], geo, d, out
    n = N("output_depth")
    ok = ands([cmp("Ge", n, D1, True), eqn(kd[2], d[2]), geo])
    with assume(ok):
        out = (add(idiv(sub(d[0], kd[0]), s), D1), add(idiv(sub(d[1], kd[1]), s), D1), n)
    return [ks, sh, s, n, ("ref", name)], ok, d, out


def c18(K):
    for adt, mk in LAYERS.items():
        for md in (INFER, TRAIN):
            K.block("%s::fill_from_state in %s mode" % (adt, md.lower()), lambda: fills(K, mk(K, md)))
        K.block("%s::new" % adt, lambda: constructs(K, adt))
        for md in (INFER, TRAIN):
            K.block("%s: getters in %s mode" % (adt, md.lower()), lambda: getters(K, mk(K, md)))


def fills(K, l):
    w = K.w
    args, ok, want = fill_args(K, l)
    r = K.run(l.adt + "::fill_from_state", args, pre=l.pre)
    K.eq("succeeds exactly when the parameters fit together", is_ok(r.ret), ok, l.pre)
    K.no_panic(r, pre=l.pre)
    bad = b_and(l.pre, b_not(ok))
    if bad is not FALSE:
        fields_unchanged(K, "not changed when refused", l, r.arg(0), l.params + l.grads + l.helpers, bad)
    ok = ands([l.pre, ok] + [some(*w.dims(v)) for f, v in want.items() if f.endswith("shape")])
    r = K.run(l.adt + "::fill_from_state", args, pre=ok)
    for f, v in want.items():
        K.unchanged("%s is set" % f, v, w.get(r.arg(0), l.adt, f), ok)


def constructs(K, adt):
    w = K.w
    args, ok, inp, out = new_args(K, adt)
    if adt == FC:
        r = K.run(adt + "::new", args, pre=ok)
        st = r.ret
    else:
        r = K.run(adt + "::new", args)
        K.eq("succeeds exactly when the parameters fit together", is_ok(r.ret), ok)
        K.no_panic(r)
        r = K.run(adt + "::new", args, pre=ok)
        st = payload(r.ret)
    K.no_panic(r, "no panic when they fit", ok)
    ok = ands([ok, some(*inp)])

    def g(f):
        return w.get(st, adt, f)
    K.unchanged("the name is set", args[-1][1], g("name"), ok)
    c = N("at.kernel")
    if adt == FC:
        zero_tensor(K, "weights", g("weights"), (out[0], inp[0], D1), ok)
        zero_tensor(K, "bias", g("bias"), (out[0], D1, D1), ok)
        return
    if adt == SOFT:
        K.unchanged("the shape is set", args[0], g("shape"), ok)
        return
    K.unchanged("the input shape is set", args[1], g("input_shape"), ok)
    K.unchanged("the output shape is set", w.shape(*out), g("output_shape"), ok)
    K.unchanged("the stride is set", args[2], g("stride"), ok)
    if adt == POOL:
        K.unchanged("the mask is set", args[0], g("mask_shape"), ok)
        return
    n = args[3]
    K.eq("as many kernels as output channels", g("kernels").n, n, ok)
    K.eq("as many biases as output channels", g("biases").n, n, ok)
    p = b_and(ok, lt(c, n))
    with assume(p):
        k, b = index(g("kernels").e, c), index(g("biases").e, c)
    zero_tensor(K, "kernels", k, w.dims(args[0]), p)
    zero_tensor(K, "biases", b, (D1, D1, D1), p)


def getters(K, l):
    w = K.w
    for m, want in (("get_input_shape", w.shape(*l.inp)), ("get_output_shape", w.shape(*l.out)),
                    ("get_name", w.get(l.st, l.adt, "name"))):
        r = K.run(method(l.adt, m), [("ref", l.st)], pre=l.pre)
        K.unchanged("%s reports what the layer uses" % m, want, r.ret, l.pre)
        K.unchanged("%s changes nothing" % m, l.st, r.arg(0), l.pre)
        K.no_panic(r, "%s: no panic" % m, l.pre)
