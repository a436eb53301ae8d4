"""Specifications of the tensor operations (C01 - C12)."""
from .kit import *
from . import std

T_ = "tensor::Tensor::"
ADJOINT = "tensor::operations::convolution::convolution_backprop_outgoing_gradient"
CV = "tensor::operations::convolution::"
HS = "tensor::helper::"


def F(name):
    return var(sym(name, "f"))


def N(name):
    return var(sym(name, "i"))


def eqn(a, b):
    return cmp("Eq", a, b, True)


def lt(a, b):
    return cmp("Lt", a, b, True)


def le(a, b):
    return cmp("Le", a, b, True)


def same_shape(w, a, b):
    return ands([eqn(x, y) for x, y in zip(w.t_shape(a), w.t_shape(b))])


def total(d):
    return mul(mul(d[0], d[1]), d[2])


def is_ok(v):
    """Ok variant of a Result"""
    if isinstance(v, G):
        return ite(v.c, is_ok(v.a), is_ok(v.b))
    if not isinstance(v, E):
        raise Undecided("Result expected")
    return cmp("Eq", v.d, D0, True)


def rsum(binders, body, guard=TRUE):
    """sum over named ranges: binders [(name, DD count)], body(list of index DDs)"""
    bs = [binder(n) for n, _ in binders]
    xs = [var(b) for b in bs]
    g = guard(*xs) if callable(guard) else guard
    with assume(*[lt(x, c) for x, (_, c) in zip(xs, binders)]):
        with assume(g):
            d = body(*xs)
    return mk_sum(tuple(zip(bs, [c for _, c in binders])), g, d)


def rmax(binders, body, init=None, guard=TRUE):
    bs = [binder(n) for n, _ in binders]
    xs = [var(b) for b in bs]
    with assume(*[lt(x, c) for x, (_, c) in zip(xs, binders)]):
        d = body(*xs)
    return mk_max(tuple(zip(bs, [c for _, c in binders])), guard, d, leaf(patom(NEG_INF)) if init is None else init)


class Case:
    """one symbolic execution of an operation together with its specification"""

    def __init__(self, path, args, ok, result, writes, pre=TRUE, fallible=False, note=""):
        self.path = path          # function
        self.args = args          # values; ("ref", value)
        self.ok = ok              # DD: the operation takes place
        self.result = result      # {arg number: want(i, j, k) -> DD}
        self.writes = writes      # arg numbers that may change when ok
        self.pre = pre
        self.fallible = fallible
        self.note = note


def relu(x):
    return fmax(x, D0)


def cases(K):
    """specification table of the element-wise and matrix operations"""
    w = K.w
    out = {}

    def op(name, f):
        out[name] = f

    def binary(name, f, inplace):
        def mk():
            a, b = w.tensor("t1"), w.tensor("t2")
            if inplace:
                return Case(T_ + name, [("ref", a), ("ref", b)], same_shape(w, a, b),
                            {0: lambda i, j, k: f(w.at(a, i, j, k), w.at(b, i, j, k))}, (0,))
            r = w.tensor("result")
            return Case(T_ + name, [("ref", a), ("ref", b), ("ref", r)],
                        b_and(same_shape(w, a, b), same_shape(w, a, r)),
                        {2: lambda i, j, k: f(w.at(a, i, j, k), w.at(b, i, j, k))}, (2,))
        op(name, mk)
    binary("add", add, False)
    binary("add_to_self", add, True)
    binary("multiply_elementwise", mul, False)
    binary("multiply_elementwise_self", mul, True)

    def scale():
        a, r, s = w.tensor("t1"), w.tensor("result"), F("scalar")
        return Case(T_ + "scale", [("ref", a), s, ("ref", r)], same_shape(w, a, r),
                    {2: lambda i, j, k: mul(s, w.at(a, i, j, k))}, (2,))
    op("scale", scale)

    def scale_self():
        a, s = w.tensor("t1"), F("scalar")
        return Case(T_ + "scale_self", [("ref", a), s], TRUE,
                    {0: lambda i, j, k: mul(s, w.at(a, i, j, k))}, (0,))
    op("scale_self", scale_self)

    def matrix(name, ta, tb, fused=False):
        def mk():
            a, b, r = w.tensor("t1"), w.tensor("t2"), w.tensor("result")
            bias = w.tensor("bias")
            (ai, aj, ak), (bi, bj, bk), (ri, rj, rk) = w.t_shape(a), w.t_shape(b), w.t_shape(r)
            if ta:
                ai, aj = aj, ai
            if tb:
                bi, bj = bj, bi
            ok = ands([eqn(aj, bi), eqn(ai, ri), eqn(bj, rj), eqn(ak, bk), eqn(ak, rk)])

            def want(i, j, k):
                s = rsum([("m", aj)], lambda m: mul(w.at(a, *((m, i, k) if ta else (i, m, k))),
                                                    w.at(b, *((j, m, k) if tb else (m, j, k)))))
                return relu(add(s, w.at(bias, i, j, k))) if fused else s
            if fused:
                return Case(T_ + name, [("ref", b), ("ref", a), ("ref", bias), ("ref", r)],
                            b_and(ok, same_shape(w, bias, r)), {3: want}, (3,))
            return Case(T_ + name, [("ref", a), ("ref", b), ("ref", r)], ok, {2: want}, (2,),
                        fallible=ta or tb)
        op(name, mk)
    matrix("matrix_multiply", False, False)
    matrix("matrix_multiply_transpose_first", True, False)
    matrix("matrix_multiply_transpose_second", False, True)
    matrix("matrix_multiply_add_relu", False, False, True)

    def transpose():
        a, r = w.tensor("input"), w.tensor("output")
        (ai, aj, ak), (ri, rj, rk) = w.t_shape(a), w.t_shape(r)
        return Case(T_ + "transpose_ij", [("ref", a), ("ref", r)], ands([eqn(ai, rj), eqn(aj, ri), eqn(ak, rk)]),
                    {1: lambda i, j, k: w.at(a, j, i, k)}, (1,), fallible=True)
    op("transpose_ij", transpose)

    def relu_mask():
        a, m = w.tensor("input"), w.tensor("mask")

        def pos(i, j, k):
            return cmp("Gt", w.at(a, i, j, k), D0, False)
        return Case(T_ + "relu_self_and_store_mask", [("ref", a), ("ref", m)], same_shape(w, a, m),
                    {0: lambda i, j, k: ite(pos(i, j, k), w.at(a, i, j, k), D0),
                     1: lambda i, j, k: ite(pos(i, j, k), D1, D0)}, (0, 1), fallible=True)
    op("relu_self_and_store_mask", relu_mask)

    def softmax():
        a, r = w.tensor("input"), w.tensor("output")
        d = w.t_shape(a)

        def want(i, j, k):
            e = w.t_data(a).e
            s = rsum([("m", total(d))], lambda m: fexp(index(e, m)))
            return fdiv(fexp(w.at(a, i, j, k)), s)
        return Case(T_ + "softmax", [("ref", a), ("ref", r)], same_shape(w, a, r), {1: want}, (1,))
    op("softmax", softmax)

    # windows ----------------------------------------------------------------
    def pool(track):
        def mk():
            im, r, mask, s = w.tensor("image"), w.tensor("result"), w.shape(N("mask.di"), N("mask.dj"), N("mask.dk")), N("stride")
            (ii, ij, ik), (ri, rj, rk), (mi, mj, mk_) = w.t_shape(im), w.t_shape(r), w.dims(mask)
            ok = ands([fits(ii, mi, s, ri), fits(ij, mj, s, rj), eqn(ik, rk)])

            def want(i, j, k):
                return rmax([("y", mj), ("x", mi)],
                            lambda y, x: w.at(im, add(mul(i, s), x), add(mul(j, s), y), k))
            args = [("ref", im), ("ref", mask), s, ("ref", r)]
            if track:
                o = V(N("origins.len"), asym("origins", "i", 1))
                args.append(("ref", o))
                ok = b_and(ok, eqn(o.n, total((ri, rj, rk))))
            return Case(T_ + ("max_pool_track_origin" if track else "max_pool"), args, ok, {3: want},
                        (3, 4) if track else (3,), fallible=track)
        op("max_pool_track_origin" if track else "max_pool", mk)
    pool(False)
    pool(True)
    return out


def fits(im, mask, s, r):
    """a mask of that size with stride s tiles im at exactly r positions"""
    ns = cmp("Ge", s, D1, True)
    with assume(ns):
        d = sub(im, mask)
        return ands([ns, le(mask, im), eqn(mod(d, s), D0), eqn(r, add(idiv(d, s), D1))])


def fits_image(im, mask, s):
    ns = cmp("Ge", s, D1, True)
    return ands([ns, le(mask, im), eqn(mod(sub(im, mask), s), D0)])


def mod(a, b):
    return imod(a, b)


def check_case(K, c, values=True, unchanged=True, run=None):
    """the clauses of one operation"""
    w = K.w
    ok = b_and(c.pre, c.ok)
    K.hint(ok)
    if c.fallible and run is None and decided_wrongly(K, "succeeds exactly when the arguments fit", c.path, c.args, c.ok,
                                                      c.pre):
        return None
    r = run or K.run(c.path, c.args, pre=c.pre)
    bad = b_and(c.pre, b_not(c.ok))
    if c.fallible:
        K.eq("succeeds exactly when the arguments fit", is_ok(r.ret), c.ok, c.pre)
    if values:
        for n, want in c.result.items():
            K.tensor_eq("every element of argument %d" % n, r.arg(n), w.t_shape(c.args[n][1]), want, ok)
    for n, a in enumerate(c.args):
        if not isinstance(a, tuple):
            continue
        if n not in c.writes:
            K.unchanged("argument %d is not changed" % n, a[1], r.arg(n), c.pre)
        elif c.ok is not TRUE:
            K.unchanged("argument %d is not changed when the arguments do not fit" % n, a[1], r.arg(n), bad)
    return r


def decided_wrongly(K, clause, path, args, want, pre):
    """whether the operation succeeds, without what its loops compute: recorded when it is not as wanted"""
    I = K.w.interp()
    I.coarse = True
    n = len(K.obs)
    try:
        r = K.run(path, args, pre=pre, I=I)
        if K.eq(clause, is_ok(r.ret), want, pre) == "violated":
            return True
    except Undecided:
        pass
    del K.obs[n:]
    return False


# ------------------------------------------------------------------ properties
def c03(K):
    cs = cases(K)
    for n in ("add", "add_to_self", "scale", "scale_self", "multiply_elementwise", "multiply_elementwise_self"):
        K.block(T_ + n, lambda: check_case(K, cs[n]()))


def c04(K):
    cs = cases(K)
    for n in ("matrix_multiply", "matrix_multiply_transpose_first", "matrix_multiply_transpose_second",
              "matrix_multiply_add_relu"):
        K.block(T_ + n, lambda: check_case(K, cs[n]()))


def c06(K):
    cs = cases(K)
    K.block(T_ + "relu_self_and_store_mask", lambda: check_case(K, cs["relu_self_and_store_mask"]()))


# ------------------------------------------------------------------ C05, C07
def c05(K):
    w = K.w
    cs = cases(K)
    K.block(T_ + "transpose_ij", lambda: check_case(K, cs["transpose_ij"]()))

    def norm():
        a = w.tensor("t")
        r = K.run(T_ + "get_norm", [("ref", a)])
        e, d = w.t_data(a).e, w.t_shape(a)
        s = rsum([("m", total(d))], lambda m: mul(index(e, m), index(e, m)))
        K.eq("square root of the sum of squares", r.ret, uf("sqrt", [s], "f"))
        K.unchanged("the tensor is not changed", a, r.arg(0))
    K.block(T_ + "get_norm", norm)

    def scatter():
        a, b = w.tensor("source"), w.tensor("target")
        lst = V(N("indices.len"), asym("indices", "i", 1))
        r = K.run(T_ + "add_from_index_list", [("ref", a), ("ref", b), ("ref", lst)])
        ta, tb = total(w.t_shape(a)), total(w.t_shape(b))
        bn = binder("n")
        ok = b_and(le(lst.n, ta), b_not(mk_any(((bn, lst.n),), cmp("Ge", index(lst.e, var(bn)), tb, True))))
        K.eq("succeeds exactly when the list fits", is_ok(r.ret), ok)
        p = N("at.position")
        pre = b_and(ok, lt(p, tb))
        with assume(pre):
            got = index(w.t_data(r.arg(1)).e, p)
            want = add(index(w.t_data(b).e, p),
                       rsum([("n", lst.n)], lambda n: index(w.t_data(a).e, n),
                            lambda n: eqn(index(lst.e, n), p)))
        K.eq("every position receives the values listed for it", got, want, pre)
        K.unchanged("a list that is too long changes nothing", b, r.arg(1), cmp("Gt", lst.n, ta, True))
        K.unchanged("the source is not changed", a, r.arg(0))
        K.unchanged("the list is not changed", lst, r.arg(2))
        K.no_panic(r)
    K.block(T_ + "add_from_index_list", scatter)


def c07(K):
    w = K.w
    cs = cases(K)

    def go():
        c = cs["softmax"]()
        r = check_case(K, c)
        if r is None:
            return
        ex = [e for e in r.events if e.name == "exp"]
        K.count("exponentials", len(ex))
        if not ex:
            K.add("the exponentials are visible", "undecided", "no call of exp was found")
        for n, e in enumerate(ex):
            g = b_and(ands([lt(var(b), m if isinstance(m, DD) else leaf(m)) for b, m in e.binders]), e.guard)
            a = e.args[0]
            CL = "no exponential of a positive number (call %d)" % n
            # the argument is x - M with M at least every element of the input
            if nonpositive(K, a, g, c):
                K.add(CL, "proved")
            else:
                K.eq(CL, cmp("Le", a, D0, False), TRUE, g)
            # ... and M one of them, so that one exponential is 1 and their sum cannot vanish
            CL = "the largest of the exponents is zero (call %d)" % n
            if nonpositive(K, a, g, c, True):
                K.add(CL, "proved")
            else:
                K.eq(CL, mk_max([(b, m if isinstance(m, DD) else leaf(m)) for b, m in e.binders], e.guard, a, leaf(patom(NEG_INF))),
                     D0, lt(D0, total(w.t_shape(c.args[0][1]))))
    K.block(T_ + "softmax", go)


def nonpositive(K, a, g, c, tight=False):
    """a <= 0: every leaf is an element of the input minus a maximum over all elements of the input
    (tight: and the maximum is attained)"""
    w = K.w
    inp = c.args[0][1]
    d, e = w.t_shape(inp), w.t_data(inp).e
    n = CTX.push(literals(g))
    try:
        a = simp(ite(g, a, D0))
        for l in leaves(a):
            if not isinstance(l, Poly):
                return False
            if l.const is not None:
                if l.const > 0:
                    return False
                continue
            ok = False
            for m, cf in l.t.items():
                if cf == -1 and len(m) == 1 and m[0][1] == 1 and TERMS[m[0][0]].kind == "max":
                    t = TERMS[m[0][0]]
                    x = padd(l, patom(t))
                    ok = covered(x, t)
                    if ok and tight:
                        i = t.args[3]
                        ok = i is patom(NEG_INF) or covered(i, t)
            if not ok:
                return False
        return True
    finally:
        CTX.pop(n)


def covered(x, t):
    """the element x is one of those the maximum t ranges over"""
    bs, g, body, init = t.args
    if body.atom is not None or g is not TRUE or len(bs) != 1:
        return False
    (b, n), = bs
    if len(x.t) != 1 or len(body.leaf.t) != 1:
        return False
    (m, c), = x.t.items()
    (m2, c2), = body.leaf.t.items()
    if c != 1 or c2 != 1 or len(m) != 1 or len(m2) != 1:
        return False
    s, u = TERMS[m[0][0]], TERMS[m2[0][0]]
    if s.kind != "sel" or u.kind != "sel" or s.args[0] is not u.args[0] or len(s.args[1]) != 1:
        return False
    if u.args[1][0] is not patom(b):
        return False
    i = s.args[1][0]
    return holds(ge0(i)) and holds(ge0(psub(psub(n, i), P1)))


# ------------------------------------------------------------------ windows
def c10(K):
    w = K.w
    cs = cases(K)
    K.block(T_ + "max_pool", lambda: check_case(K, cs["max_pool"]()))

    def track():
        c = cs["max_pool_track_origin"]()
        r = check_case(K, c)
        if r is None:
            return
        im, res, o = c.args[0][1], c.args[3][1], c.args[4][1]
        mask, s = c.args[1][1], c.args[2]
        mi, mj, _ = w.dims(mask)
        (ii, ij, ik), d = w.t_shape(im), w.t_shape(res)
        i, j, k = (var(sym("at." + x)) for x in "ijk")
        pre = ands([c.ok, cmp("Ge", mi, D1, True), cmp("Ge", mj, D1, True)] +
                   [lt(x, y) for x, y in zip((i, j, k), d)])
        with assume(pre):
            got = index(r.arg(4).e, add(i, mul(d[0], add(j, mul(d[1], k)))))
            origin_clause(K, "the recorded origin is a position of the window that attains the maximum", got, im,
                          (i, j, k), s, (mi, mj), c.result[3](i, j, k), pre)
        K.eq("the origin list keeps its length", r.arg(4).n, o.n)
    K.block(T_ + "max_pool_track_origin", track)


def origin_clause(K, clause, got, im, at, s, mask, mx, pre):
    """got is the position of an image element of the window at (i, j, k) that equals the maximum mx"""
    w = K.w
    (ii, ij, ik) = w.t_shape(im)
    (i, j, k), (mi, mj) = at, mask

    def addr(y, x):
        return add(add(mul(i, s), x), mul(ii, add(add(mul(j, s), y), mul(ij, k))))
    forms = []
    for order in ("yx", "xy"):
        for strict in (True, False):
            y, x = binder("y"), binder("x")
            bs = ((y, mj), (x, mi)) if order == "yx" else ((x, mi), (y, mj))
            with assume(pre, lt(var(y), mj), lt(var(x), mi)):
                a = simp(addr(var(y), var(x)))
                key = index(w.t_data(im).e, a)
            bs = tuple((b, n.leaf) for b, n in bs)
            forms.append(mk_argmax(bs, TRUE, key, a, leaf(patom(NEG_INF)), D0, strict))
    n = CTX.push(literals(pre))
    try:
        for f in forms:
            try:
                if EQ.equal(ite(pre, got, f), f):
                    return K.add(clause, "proved")
            except Undecided:
                pass
    finally:
        CTX.pop(n)
    y, x = binder("y"), binder("x")
    with assume(pre):
        hit = ("any-window", (y, mj), (x, mi))
        with assume(lt(var(y), mj), lt(var(x), mi)):
            g = b_and(eqn(got, addr(var(y), var(x))), cmp("Eq", mx, index(w.t_data(im).e, addr(var(y), var(x))), False))
    cond = atomdd(term("any", (((y, mj.leaf), (x, mi.leaf)), g), "b", bound=[y, x]))
    s_ = evalt.separate(cond, TRUE, pre, SEED, SECS)
    if s_:
        return K.add(clause, "violated", "not for %s" % s_[0])
    return K.add(clause, "undecided", "the origin %s is not a known maximum position" % cut(got))


def c11(K):
    w = K.w

    def shapes():
        return (w.shape(N("image.di"), N("image.dj"), N("image.dk")),
                w.shape(N("kernel.di"), N("kernel.dj"), N("kernel.dk")), N("stride"))

    def fit():
        im, ke, s = shapes()
        (ii, ij, ik), (ki, kj, kk) = w.dims(im), w.dims(ke)
        r = K.run(T_ + "does_kernel_stride_fit_image", [("ref", im), ("ref", ke), s])
        K.eq("accepts exactly the windows that tile the image", r.ret,
             b_and(fits_image(ii, ki, s), fits_image(ij, kj, s)))
        K.no_panic(r)
    K.block(T_ + "does_kernel_stride_fit_image", fit)

    def positions():
        im, ke, s = shapes()
        (ii, ij, ik), (ki, kj, kk) = w.dims(im), w.dims(ke)
        pre = b_and(fits_image(ii, ki, s), fits_image(ij, kj, s))
        r = K.run(T_ + "get_convolution_dim_fit", [("ref", im), ("ref", ke), s], pre=pre)
        with assume(pre):
            want = [add(idiv(sub(a, b), s), D1) for a, b in ((ii, ki), (ij, kj))]
        for n, x in enumerate("ij"):
            K.eq("number of positions in direction %s" % x, r.ret.f[n], want[n], pre)
        K.no_panic(r, pre=pre)
    K.block(T_ + "get_convolution_dim_fit", positions)

    def pool():
        im, ma, s = shapes()
        re = w.shape(N("result.di"), N("result.dj"), N("result.dk"))
        (ii, ij, ik), (mi, mj, _), (ri, rj, rk) = w.dims(im), w.dims(ma), w.dims(re)
        r = K.run(T_ + "check_max_pooling_dimensions", [("ref", im), ("ref", ma), s, ("ref", re)])
        K.eq("accepts exactly the fitting results", r.ret,
             ands([eqn(ik, rk), fits(ii, mi, s, ri), fits(ij, mj, s, rj)]))
        K.no_panic(r)
    K.block(T_ + "check_max_pooling_dimensions", pool)

    def conv():
        im, ke, s = shapes()
        re, ch = w.shape(N("result.di"), N("result.dj"), N("result.dk")), N("channel")
        (ii, ij, ik), (ki, kj, kk), (ri, rj, rk) = w.dims(im), w.dims(ke), w.dims(re)
        r = K.run(CV + "check_convolution_dimensions", [("ref", im), ("ref", ke), s, ("ref", re), ch])
        K.eq("accepts exactly the fitting results", is_ok(r.ret),
             ands([eqn(ik, kk), fits(ii, ki, s, ri), fits(ij, kj, s, rj), lt(ch, rk)]))
        K.no_panic(r)
    K.block(CV + "check_convolution_dimensions", conv)


def conv_case(K, name, act):
    w = K.w
    im, ke, bi, re = w.tensor("image"), w.tensor("kernel"), w.tensor("bias"), w.tensor("result")
    s, ch = N("stride"), N("channel")
    (ii, ij, ik), (ki, kj, kk), (bi_, bj_, bk_), (ri, rj, rk) = (w.t_shape(x) for x in (im, ke, bi, re))
    ok = ands([eqn(ik, kk), fits(ii, ki, s, ri), fits(ij, kj, s, rj), lt(ch, rk),
               eqn(bi_, D1), eqn(bj_, D1), eqn(bk_, D1)])

    def want(i, j, k):
        def val():
            x = add(rsum([("z", kk), ("y", kj), ("x", ki)],
                         lambda z, y, x: mul(w.at(ke, x, y, z),
                                             w.at(im, add(mul(i, s), x), add(mul(j, s), y), z))),
                    w.at(bi, D0, D0, D0))
            return act(x)
        c = eqn(k, ch)
        with assume(c):
            v = val()
        return ite(c, v, w.at(re, i, j, k))
    return Case(CV + name, [("ref", im), ("ref", ke), ("ref", bi), s, ("ref", re), ch], ok, {4: want}, (4,),
                fallible=True)


def c08(K):
    K.block(CV + "convolution_bias", lambda: check_case(K, conv_case(K, "convolution_bias", lambda x: x)), 250)
    K.block(CV + "convolution_bias_relu", lambda: check_case(K, conv_case(K, "convolution_bias_relu", relu)), 250)


def kernel_case(K):
    w = K.w
    inc, im, kg = w.tensor("incoming"), w.tensor("image"), w.tensor("kernel_gradient")
    s, ch = N("stride"), N("channel")
    (oi, oj, ok_), (ii, ij, ik), (ki, kj, kk) = (w.t_shape(x) for x in (inc, im, kg))
    ok = ands([eqn(ik, kk), fits(ii, ki, s, oi), fits(ij, kj, s, oj), lt(ch, ok_)])

    def want(x, y, z):
        return add(w.at(kg, x, y, z),
                   rsum([("j", oj), ("i", oi)],
                        lambda j, i: mul(w.at(inc, i, j, ch),
                                         w.at(im, add(mul(i, s), x), add(mul(j, s), y), z))))
    return Case(CV + "convolution_backprop_kernel", [("ref", inc), ("ref", im), s, ch, ("ref", kg)], ok, {4: want}, (4,),
                fallible=True)


def adjoint_fits(K):
    """incoming gradient and kernels that fit the outgoing gradient: all kernels have one shape (oi determines ki), written
    with the number of positions so that no division is needed"""
    w = K.w
    n, s = N("kernels.len"), N("stride")
    ii, ij, kk = (N("outgoing." + x) for x in ("di", "dj", "dk"))
    oi, oj = N("incoming.di"), N("incoming.dj")
    ki, kj = sub(ii, mul(sub(oi, D1), s)), sub(ij, mul(sub(oj, D1), s))
    pre = ands([cmp("Ge", x, D1, True) for x in (s, oi, oj, n, ki, kj)])
    inc, out = w.tensor("incoming", (oi, oj, n)), w.tensor("outgoing", (ii, ij, kk))
    ks = V(n, w.tensor_rank("kernels", 1, (ki, kj, kk)))

    def want(a, b, c):
        def body(k, j, i):
            x, y = sub(a, mul(i, s)), sub(b, mul(j, s))
            g = ands([cmp("Ge", x, D0, True), lt(x, ki), cmp("Ge", y, D0, True), lt(y, kj)])
            with assume(g):
                v = mul(w.at(inc, i, j, k), w.at(index(ks.e, k), x, y, c))
            return ite(g, v, D0)
        return rsum([("k", n), ("j", oj), ("i", oi)], body)
    return Case(ADJOINT, [("ref", inc), ("ref", ks), s, ("ref", out)], TRUE, {3: want}, (3,), pre=pre, fallible=True)


SMALL = ((2, 3, 2, 1, 1, 1, 2), (1, 2, 1, 2, 2, 2, 1), (2, 2, 1, 2, 2, 1, 1), (2, 2, 3, 2, 1, 2, 1), (2, 1, 3, 1, 2, 1, 2), (1, 2, 3, 1, 2, 1, 1),
         (2, 1, 1, 3, 2, 1, 1), (1, 4, 1, 1, 1, 1, 1), (4, 1, 2, 1, 1, 1, 1))


def small_args(w, oi, oj, ki, kj, s, kk, n):
    inc = w.tensor("incoming", [num(x) for x in (oi, oj, n)])
    out = w.tensor("outgoing", [num(x) for x in ((oi - 1) * s + ki, (oj - 1) * s + kj, kk)])
    ks = V(num(n), w.tensor_rank("kernels", 1, [num(x) for x in (ki, kj, kk)]))
    return [("ref", inc), ("ref", ks), num(s), ("ref", out)], \
        " (incoming %dx%dx%d, kernels %dx%dx%d, stride %d)" % (oi, oj, n, ki, kj, kk, s)


def adjoint_small(K):
    """the same for a few fixed shapes, with all loops unrolled: cheap enough to come first"""
    w = K.w
    clause = "every element for small shapes"
    for oi, oj, ki, kj, s, kk, n in SMALL:
        ii, ij = (oi - 1) * s + ki, (oj - 1) * s + kj
        args, sizes = small_args(w, oi, oj, ki, kj, s, kk, n)
        inc, ks = args[0][1], args[1][1]
        r = K.run(ADJOINT, args)
        n0 = len(K.obs)
        K.eq("accepts small shapes", is_ok(r.ret), TRUE)
        K.no_panic(r, clause)
        for a, b, c in ((a, b, c) for c in range(kk) for b in range(ij) for a in range(ii)):
            want = D0
            for k in range(n):
                for j in range(oj):
                    for i in range(oi):
                        if 0 <= a - i * s < ki and 0 <= b - j * s < kj:
                            want = add(want, mul(w.at(inc, num(i), num(j), num(k)),
                                                 w.at(index(ks.e, num(k)), num(a - i * s), num(b - j * s), num(c))))
            K.eq(clause, w.at(r.arg(3), num(a), num(b), num(c)), want)
        open_ = [o for o in K.obs[n0:] if o.verdict != "proved"]
        del K.obs[n0:]
        if open_:
            o = min(open_, key=lambda o: o.verdict != "violated")
            o.detail += sizes
            K.obs.append(o)
            if o.verdict == "violated":
                return
        else:
            K.add(clause + sizes, "proved")


def adjoint_refused(K):
    """arbitrary arguments that do not fit"""
    w = K.w
    n, s = N("kernels.len"), N("stride")
    inc, out = w.tensor("incoming"), w.tensor("outgoing")
    ks = V(n, w.tensor_rank("kernels", 1))
    (oi, oj, ok_), (ii, ij, ik) = w.t_shape(inc), w.t_shape(out)
    bn = binder("n")
    ki, kj, kk = w.t_shape(index(ks.e, var(bn)))
    with assume(lt(var(bn), n)):
        bad = simp(b_not(ands([eqn(ik, kk), fits(ii, ki, s, oi), fits(ij, kj, s, oj), lt(var(bn), ok_)])))
    pre = b_not(b_and(eqn(n, ok_), b_not(mk_any(((bn, n),), bad))))
    args = [("ref", inc), ("ref", ks), s, ("ref", out)]
    if decided_wrongly(K, "refused when the arguments do not fit", ADJOINT, args, FALSE, pre):
        return None
    r = K.run(ADJOINT, args, pre=pre)
    K.eq("refused when the arguments do not fit", is_ok(r.ret), FALSE, pre)
    K.unchanged("the outgoing gradient is not changed when refused", out, r.arg(3), pre)
    K.no_panic(r, "no panic when refused", pre=pre)
    return r


def c09(K):
    K.block(ADJOINT + ", refused", lambda: adjoint_refused(K), 150)
    K.block(ADJOINT + ", small shapes", lambda: adjoint_small(K), 100)
    if any(o.verdict == "violated" for o in K.obs):
        return
    K.block(ADJOINT, lambda: check_case(K, adjoint_fits(K)), 300)
    K.block(CV + "convolution_backprop_kernel", lambda: check_case(K, kernel_case(K)), 250)


# ------------------------------------------------------------------ C02, C01, C12
def any_coordinates(K, c, dims, path, args):
    """a run in which the coordinates c may be as large as their type allows, and what is known of them and of the sizes"""
    mir.COORDS = c
    try:
        r = K.run(path, args)
    finally:
        mir.COORDS = ()
    return r, ands([le(x, mir.LIMIT) for x in list(c) + list(dims)])


def c02(K):
    w = K.w

    def coords():
        return tuple(N("at." + x) for x in "ijk")

    def inside(d, c):
        return ands([lt(x, y) for x, y in zip(c, d)])

    def get():
        t, c = w.tensor("t"), coords()
        r, lim = any_coordinates(K, c, w.t_shape(t), T_ + "get_item", [("ref", t), ("ref", w.idx(*c))])
        ok = inside(w.t_shape(t), c)
        with assume(ok):
            want = w.at(t, *c)
        K.eq("the element inside, 0 outside", r.ret, ite(ok, want, D0))
        K.unchanged("the tensor is not changed", t, r.arg(0))
        K.no_panic(r, pre=lim)
    K.block(T_ + "get_item", get)

    def put():
        t, c, v = w.tensor("t"), coords(), F("value")
        d = w.t_shape(t)
        r, lim = any_coordinates(K, c, d, T_ + "set_item", [("ref", t), ("ref", w.idx(*c)), v])
        ok = inside(d, c)
        e = [N("other." + x) for x in "ijk"]
        pre = inside(d, e)
        hit = ands([ok] + [eqn(a, b) for a, b in zip(c, e)])
        with assume(pre):
            got, old = w.at(r.arg(0), *e, d=d), w.at(t, *e)
        K.eq("exactly the addressed element is replaced", got, ite(hit, v, old), pre)
        for x, a, b in zip(("di", "dj", "dk"), w.t_shape(r.arg(0)), d):
            K.eq("the shape stays (%s)" % x, a, b)
        K.no_panic(r, pre=lim)
    K.block(T_ + "set_item", put)

    def address():
        t, c = w.tensor("t"), coords()
        r = K.run(T_ + "get_data_index", [("ref", t), ("ref", w.idx(*c))])
        di, dj, dk = w.t_shape(t)
        K.eq("position i + di*j + di*dj*k", r.ret, add(c[0], mul(di, add(c[1], mul(dj, c[2])))))
    K.block(T_ + "get_data_index", address)

    def shape_new():
        c = [N("d." + x) for x in "ijk"]
        r = K.run(HS + "TensorShape::new", c)
        for x, a, b in zip(("di", "dj", "dk"), w.dims(r.ret), c):
            K.eq("%s is at least 1" % x, a, imax(b, D1))
    K.block(HS + "TensorShape::new", shape_new)

    def fits_index():
        sh, c = w.shape(N("s.di"), N("s.dj"), N("s.dk")), coords()
        r, lim = any_coordinates(K, c, w.dims(sh), HS + "TensorShape::fits_index", [("ref", sh), ("ref", w.idx(*c))])
        K.eq("true exactly inside", r.ret, inside(w.dims(sh), c))
        K.no_panic(r, pre=lim)
    K.block(HS + "TensorShape::fits_index", fits_index)

    def helpers():
        sh = w.shape(N("s.di"), N("s.dj"), N("s.dk"))
        di, dj, dk = w.dims(sh)
        K.eq("total_size is the product", K.run(HS + "TensorShape::total_size", [("ref", sh)]).ret, total((di, dj, dk)))
        for x, a, b in zip("ijk", K.run(HS + "TensorShape::get", [("ref", sh)]).ret.f, (di, dj, dk)):
            K.eq("get returns d" + x, a, b)
        for x, a, b in zip("ijk", w.dims(K.run(HS + "TensorShape::transpose_ij", [("ref", sh)]).ret), (dj, di, dk)):
            K.eq("transposed d" + x, a, b)
        for x, a, b in zip("ijk", w.dims(K.run(HS + "TensorShape::new_1d", [N("n")]).ret), (N("n"), D1, D1)):
            K.eq("new_1d d" + x, a, b)
        for x, a, b in zip("ijk", w.dims(K.run(HS + "TensorShape::new_2d", [N("n"), N("m")]).ret), (N("n"), N("m"), D1)):
            K.eq("new_2d d" + x, a, b)
        for nm, args, want in (("index_1d", [N("n")], (N("n"), D0, D0)), ("index_2d", [N("n"), N("m")], (N("n"), N("m"), D0)),
                               ("zero", [], (D0, D0, D0))):
            v = K.run(HS + "TensorIndex::" + nm, args).ret
            for x, b in zip("ijk", want):
                K.eq("%s %s" % (nm, x), w.get(v, INDEX, x), b)
        t = w.tensor("t")
        r = K.run(T_ + "get_shape", [("ref", t)])
        for x, a, b in zip("ijk", w.dims(r.ret), w.t_shape(t)):
            K.eq("get_shape d" + x, a, b)
        K.eq("total_items", K.run(T_ + "total_items", [("ref", t)]).ret, total(w.t_shape(t)))
    K.block(HS + "TensorShape", helpers)

    def fill():
        t, v = w.tensor("t"), F("value")
        r = K.run(T_ + "fill_with_value", [("ref", t), v])
        K.tensor_eq("every element is the value", r.arg(0), w.t_shape(t), lambda i, j, k: v)
        K.no_panic(r)
    K.block(T_ + "fill_with_value", fill)

    def equality():
        a, b = w.tensor("t1"), w.tensor("t2")
        r = K.run("<tensor::Tensor as std::cmp::PartialEq>::eq", [("ref", a), ("ref", b)])
        bn = binder("n")
        da, db = w.t_shape(a), w.t_shape(b)
        with assume(lt(var(bn), total(da))):
            diff = mk_any(((bn, total(da)),), b_not(cmp("Eq", index(w.t_data(a).e, var(bn)),
                                                          index(w.t_data(b).e, var(bn)), False)))
        K.eq("tensors are equal exactly when shapes and elements are", r.ret,
             b_and(same_shape(w, a, b), b_not(diff)))
        if K.p.bypath.get(NE):
            r = K.run(NE, [("ref", a), ("ref", b)])
            K.eq("tensors are unequal exactly when shapes or elements are", r.ret,
                 b_not(b_and(same_shape(w, a, b), b_not(diff))))
    K.block("<tensor::Tensor as std::cmp::PartialEq>::eq", equality)


NE = "<tensor::Tensor as std::cmp::PartialEq>::ne"


def consistent(K, clause, t, pre=TRUE, dims=None):
    """di*dj*dk values, strides (1, di, di*dj), the given dimensions"""
    w = K.w
    if not isinstance(t, S):
        return K.add(clause, "undecided", "no closed form of the tensor")
    d = w.t_shape(t)
    st = w.get(t, TENSOR, "strides")
    todo = [("number of values", w.t_data(t).n, total(d)),
            ("stride i", w.get(st, STRIDE, "i"), D1), ("stride j", w.get(st, STRIDE, "j"), d[0]),
            ("stride k", w.get(st, STRIDE, "k"), mul(d[0], d[1]))]
    if dims is not None:
        todo += [("d" + x, a, b) for x, a, b in zip("ijk", d, dims)]
    for n, a, b in todo:
        v = K.eq_q("%s (%s)" % (clause, n), a, b, pre)
        if v != "proved":
            return v
    return K.add(clause, "proved")


def all_cases(K):
    cs = dict(cases(K))
    cs["convolution_bias"] = lambda: conv_case(K, "convolution_bias", lambda x: x)
    cs["convolution_bias_relu"] = lambda: conv_case(K, "convolution_bias_relu", relu)
    cs["convolution_backprop_kernel"] = lambda: kernel_case(K)
    return cs


def decoding_interp(K, top):
    """every Deserialize of the data format yields an error or an arbitrary value of its type"""
    n = [0]

    def abstract(I, st, fr, cal, args):
        if cal.meth == "deserialize" and cal.trait and cal.trait.endswith("Deserialize"):
            ty = cal.targs[0] if cal.targs else None
            if ty is None or ty == ("adt", top) or (ty[0] == "adt" and ty[1] == top):
                return None
        elif cal.trait and cal.trait.endswith("Deserializer"):
            ty = ("adt", top, ())
        else:
            return None
        n[0] += 1
        nm = "decoded%d" % n[0]
        return E(ite(var(sym(nm + ".fails", "b")), D1, D0),
                 {0: (I.symtree(ty, nm),), 1: (var(sym(nm + ".error", "o")),)}, "Result")
    I = K.w.interp(abstract)
    del I.maker[TENSOR]
    return I


def tensor_decoding(K):
    fs = [p for p in K.p.bypath if p.endswith("Deserialize<'de> for tensor::Tensor>::deserialize")]
    if len(fs) != 1:
        raise Missing("Deserialize of tensor::Tensor")
    f = fs[0]
    r = K.run(f, [var(sym("bytes", "o"))], I=decoding_interp(K, TENSOR))
    okd = is_ok(r.ret)
    t = std.payload(r.ret, 0)
    if not isinstance(t, S):
        raise Undecided("no closed form of the decoded tensor")
    consistent(K, "only consistent tensors are decoded", t, okd)
    K.no_panic(r, "decoding does not panic")


def c01(K):
    w = K.w

    def new():
        sh = w.shape(N("s.di"), N("s.dj"), N("s.dk"))
        r = K.run(T_ + "new", [sh])
        consistent(K, "as many values as the shape promises", r.ret, dims=w.dims(sh))
        K.tensor_eq("all values are zero", r.ret, w.dims(sh), lambda i, j, k: D0)
    K.block(T_ + "new", new)

    def empty():
        r = K.run(T_ + "empty", [])
        consistent(K, "as many values as the shape promises", r.ret)
        K.tensor_eq("all values are zero", r.ret, w.t_shape(r.ret), lambda i, j, k: D0)
    K.block(T_ + "empty", empty)

    def clone():
        t = w.tensor("t")
        r = K.run("<tensor::Tensor as std::clone::Clone>::clone", [("ref", t)])
        K.unchanged("a copy is the same tensor", t, r.ret)
    K.block("<tensor::Tensor as std::clone::Clone>::clone", clone)

    def from_vec():
        t, v = w.tensor("t"), V(N("values.len"), asym("values", "f", 1))
        r = K.run(T_ + "fill_with_vec", [("ref", t), v])
        ok = eqn(v.n, total(w.t_shape(t)))
        K.eq("succeeds exactly when the number of values fits", is_ok(r.ret), ok)
        consistent(K, "as many values as the shape promises", r.arg(0), dims=w.t_shape(t))
        K.unchanged("nothing changes on failure", t, r.arg(0), b_not(ok))
        p = N("at.position")
        pre = b_and(ok, lt(p, v.n))
        with assume(pre):
            got, want = index(w.t_data(r.arg(0)).e, p), index(v.e, p)
        K.eq("the values are taken in order", got, want, pre)
    K.block(T_ + "fill_with_vec", from_vec)

    for n, args in (("fill_with_value", ["v"]), ("fill_with_uniform", ["v", "v2"]), ("fill_with_gaussian", ["v", "v2"]),
                    ("set_item", None)):
        def fill(n=n, args=args):
            t = w.tensor("t")
            a = [F(x) for x in args] if args is not None else [("ref", w.idx(N("at.i"), N("at.j"), N("at.k"))), F("v")]
            r = K.run(T_ + n, [("ref", t)] + a)
            consistent(K, "the tensor keeps its shape and number of values", r.arg(0), r.st.g, w.t_shape(t))
        K.block(T_ + n, fill)

    def scatter():
        a, b = w.tensor("source"), w.tensor("target")
        r = K.run(T_ + "add_from_index_list", [("ref", a), ("ref", b), ("ref", V(N("indices.len"), asym("indices", "i", 1)))])
        consistent(K, "the target keeps its shape and number of values", r.arg(1), TRUE, w.t_shape(b))
    K.block(T_ + "add_from_index_list", scatter)

    for n, mk in all_cases(K).items():
        def case(mk=mk):
            c = mk()
            r = K.run(c.path, c.args, pre=c.pre)
            for x in c.writes:
                if isinstance(c.args[x][1], S):
                    consistent(K, "argument %d keeps its shape and number of values" % x, r.arg(x), c.pre,
                               w.t_shape(c.args[x][1]))
        K.block(mk().path, case)

    K.block("decoding of tensor::Tensor", lambda: tensor_decoding(K))


def c12(K):
    w = K.w
    for n, mk in all_cases(K).items():
        def case(mk=mk):
            c = mk()
            K.no_panic(K.run(c.path, c.args, pre=c.pre))
        K.block(mk().path, case, 250)

    def misfits():
        """small shapes that do not fit: sizes of the incoming and outgoing gradient, the kernels, their number, the stride"""
        for inc, out, ker, n, stride in (((2, 2, 2), (3, 3, 1), (2, 2, 1), 1, 1), ((2, 2, 2), (3, 3, 1), (2, 2, 1), 3, 1),
                                         ((2, 2, 2), (3, 3, 1), (2, 2, 1), 0, 1), ((3, 2, 1), (3, 3, 1), (2, 2, 1), 1, 1),
                                         ((2, 3, 1), (3, 3, 1), (2, 2, 1), 1, 1), ((2, 2, 1), (3, 3, 2), (2, 2, 1), 1, 1),
                                         ((2, 2, 1), (3, 3, 1), (2, 2, 2), 1, 1), ((1, 1, 1), (1, 1, 1), (2, 2, 1), 1, 1),
                                         ((2, 2, 1), (3, 3, 1), (2, 2, 1), 1, 0)):
            a, b = (w.tensor(x, [num(y) for y in d]) for x, d in (("incoming", inc), ("outgoing", out)))
            ks = V(num(n), w.tensor_rank("kernels", 1, [num(x) for x in ker]))
            K.no_panic(K.run(ADJOINT, [("ref", a), ("ref", ks), num(stride), ("ref", b)]),
                       "no panic for an incoming gradient %s, outgoing %s, %d kernels %s, stride %d" % (inc, out, n, ker, stride))
    K.block(ADJOINT + ", shapes that do not fit", misfits)

    def smalls():
        for d in SMALL:
            args, sizes = small_args(w, *d)
            K.no_panic(K.run(ADJOINT, args), "no panic" + sizes)
    K.block(ADJOINT + ", small shapes", smalls)
    if not any(o.verdict == "violated" for o in K.obs):
        def adjoint():
            c = adjoint_fits(K)
            K.no_panic(K.run(c.path, c.args, pre=c.pre), pre=c.pre)
        K.block(ADJOINT, adjoint, 250)

    def simple(path, mk):
        def go():
            K.no_panic(K.run(path, mk()))
        K.block(path, go)
    t = lambda n="t": ("ref", w.tensor(n))
    ix = lambda: ("ref", w.idx(N("at.i"), N("at.j"), N("at.k")))
    sh = lambda n="s": w.shape(N(n + ".di"), N(n + ".dj"), N(n + ".dk"))
    simple(T_ + "new", lambda: [sh()])
    simple(T_ + "empty", lambda: [])
    for n, more in (("get_item", []), ("set_item", [F("v")])):
        def access(n=n, more=more):
            x, c = w.tensor("t"), [N("at." + a) for a in "ijk"]
            r, lim = any_coordinates(K, c, w.t_shape(x), T_ + n, [("ref", x), ("ref", w.idx(*c))] + more)
            K.no_panic(r, pre=lim)
        K.block(T_ + n, access)
    simple(T_ + "get_data_index", lambda: [t(), ix()])
    simple(T_ + "get_norm", lambda: [t()])
    simple(T_ + "get_shape", lambda: [t()])
    simple(T_ + "total_items", lambda: [t()])
    simple(T_ + "fill_with_value", lambda: [t(), F("v")])
    simple(T_ + "fill_with_uniform", lambda: [t(), F("v"), F("v2")])
    simple(T_ + "fill_with_vec", lambda: [t(), V(N("values.len"), asym("values", "f", 1))])
    simple(T_ + "add_from_index_list", lambda: [t("source"), t("target"), ("ref", V(N("indices.len"), asym("indices", "i", 1)))])
    simple(T_ + "does_kernel_stride_fit_image", lambda: [("ref", sh("image")), ("ref", sh("kernel")), N("stride")])
    simple(T_ + "check_max_pooling_dimensions", lambda: [("ref", sh("image")), ("ref", sh("mask")), N("stride"), ("ref", sh("result"))])
    simple(CV + "check_convolution_dimensions", lambda: [("ref", sh("image")), ("ref", sh("kernel")), N("stride"), ("ref", sh("result")), N("channel")])
    simple("<tensor::Tensor as std::cmp::PartialEq>::eq", lambda: [t("t1"), t("t2")])

    def positions():
        im, ke, s = sh("image"), sh("kernel"), N("stride")
        pre = b_and(*[fits_image(w.dims(im)[n], w.dims(ke)[n], s) for n in (0, 1)])
        K.no_panic(K.run(T_ + "get_convolution_dim_fit", [("ref", im), ("ref", ke), s], pre=pre), pre=pre)
    K.block(T_ + "get_convolution_dim_fit", positions)

    def gauss():
        r = K.run(T_ + "fill_with_gaussian", [t(), F("mean"), F("std")])
        # a standard deviation that is not a finite number >= 0 is the caller's mistake
        K.no_panic(r, pre=b_not(uf("bad_std", [F("std")], "b")))
    K.block(T_ + "fill_with_gaussian", gauss)


def c27(K):
    w = K.w
    for n, dist, args in (("fill_with_uniform", "UniformInclusive", ("min", "max")),
                          ("fill_with_gaussian", "Normal", ("mean", "std_dev"))):
        def go(n=n, dist=dist, args=args):
            t = w.tensor("t")
            a = [F(x) for x in args]
            r = K.run(T_ + n, [("ref", t)] + a)
            pre = r.st.g
            consistent(K, "the tensor keeps its shape", r.arg(0), pre, w.t_shape(t))
            p, q = N("at.position"), N("other.position")
            nn = total(w.t_shape(t))
            pre = ands([pre, lt(p, nn), lt(q, nn)])
            with assume(pre):
                gp = simp(ite(pre, index(w.t_data(r.arg(0)).e, p), D0))
                gq = simp(ite(pre, index(w.t_data(r.arg(0)).e, q), D0))
            dp, dq = draw_of(gp), draw_of(gq)
            if dp is None or dq is None:
                want = uf("some draw from " + dist, a + [p], "f")
                K.eq("every element is a draw", gp, want, pre)
                return
            K.add("every element is a draw", "proved")
            K.eq("the distribution is the requested one", leaf(dp[0]), uf(dist, a, "o"), pre)
            if dp[1] is not dq[1]:
                return K.add("every element has its own draw", "undecided", "different generators")
            K.eq("every element has its own draw", eqn(leaf(dp[2]), leaf(dq[2])), eqn(p, q), pre)
        K.block(T_ + n, go)


def draw_of(d):
    if d.atom is not None or not isinstance(d.leaf, Poly) or len(d.leaf.t) != 1:
        return None
    (m, c), = d.leaf.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    t = TERMS[m[0][0]]
    if t.kind == "uf" and t.args[0] == "draw" and len(t.args) == 4:
        return t.args[1:]
    return None
