"""Stored networks, layers and tensors (C22 .. C25)."""
import ast

from .kit import *
from . import std, mir
from .spec_tensor import F, N, eqn, lt, le, fits, fits_image, is_ok, total, D1, add, sub, mul, T_, tensor_decoding
from .spec_layer import (TRAINERS, some, CONV, FC, POOL, SOFT, LAYER, LAYERS, STATE, TRAIN, INFER, method, variant, mode, in_mode,
                         consistent, buffers, payload, all_of, shape_is, fields_unchanged)
from .spec_network import NET, NETS, Net, Dyn, nets, run_net, for_nets, each, events

SERIAL = "layer::SerializedLayer"
KIND = {CONV: "SerialConvolutionalLayer", FC: "SerialFullyConnectedLayer", POOL: "SerialMaxPoolLayer",
        SOFT: "SerialSoftMaxLayer"}
MODES = (INFER, TRAIN)


def for_layers(K, name, f, secs=150):
    for adt, mk in LAYERS.items():
        for md in MODES:
            K.block("%s in %s mode" % (method(adt, name), md.lower()), lambda: f(mk(K, md), md), secs)


def stored(K, name="stored"):
    """any stored layer: any kind, any items, any bytes"""
    return K.w.interp().symtree(("adt", SERIAL, ()), name)


def valid(K, adt, st, pre):
    """the parameters of a layer fit together"""
    w = K.w

    def g(f):
        return w.get(st, adt, f)
    if adt == FC:
        (o, i, d), (bo, one, bd) = w.t_shape(g("weights")), w.t_shape(g("bias"))
        K.true("bias and weights fit", ands([eqn(bo, o), eqn(one, D1), eqn(bd, d)]), pre)
        consistent(K, "weights are consistent", g("weights"), w.t_shape(g("weights")), pre)
        consistent(K, "bias is consistent", g("bias"), w.t_shape(g("bias")), pre)
    elif adt == POOL:
        (ii, ij, ik), (mi, mj, _), (oi, oj, ok_) = (w.dims(g(f)) for f in ("input_shape", "mask_shape", "output_shape"))
        pre = b_and(pre, some(ii, ij, ik, mi, mj))
        K.true("mask and image fit", ands([fits(ii, mi, g("stride"), oi), fits(ij, mj, g("stride"), oj),
                                           eqn(ok_, ik)]), pre)
    elif adt == CONV:
        (ii, ij, ik), (oi, oj, ok_) = (w.dims(g(f)) for f in ("input_shape", "output_shape"))
        ks, bs, s = g("kernels"), g("biases"), g("stride")
        K.true("there are kernels, one per output channel, each with a bias",
               ands([cmp("Ge", ks.n, D1, True), eqn(ks.n, bs.n), eqn(ks.n, ok_)]), pre)
        q = N("at.kernel")
        p2 = b_and(pre, lt(q, ks.n))
        with assume(p2):
            k, b = index(ks.e, q), index(bs.e, q)
            (ki, kj, kk) = w.t_shape(k)
        with assume(pre):
            (fi, fj, fk) = w.t_shape(index(ks.e, D0))
        K.true("the first kernel fits the image", ands([fits(ii, fi, s, oi), fits(ij, fj, s, oj), eqn(fk, ik)]), pre)
        K.true("every kernel has the shape of the first", ands([eqn(ki, fi), eqn(kj, fj), eqn(kk, fk)]), p2)
        K.true("every bias is one value", shape_is(w, b, (D1, D1, D1)), p2)
        consistent(K, "kernels are consistent", k, (ki, kj, kk), p2)
        consistent(K, "biases are consistent", b, (D1, D1, D1), p2)


def keys_of(v):
    """presence of every item of a stored layer, by kind"""
    return {k: (xs[0].m if xs and isinstance(xs[0], M) else None) for k, xs in v.v.items()}


# ------------------------------------------------------------------ C24
def c24(K):
    def layer(l, md):
        s = stored(K)
        r = K.run(method(l.adt, "load_from_serialized"), [("ref", l.st), ("ref", s)], pre=l.pre)
        ok = b_and(l.pre, is_ok(r.ret))
        K.no_panic(r, pre=l.pre)
        k = variant(K, SERIAL, KIND[l.adt])
        K.true("only data of this kind is accepted", cmp("Eq", s.d, num(k), True), ok)
        items = s.v[k][0].m
        names = [v["n"] for v in K.p.adts[KEYS[l.adt]]["v"]]
        for i, (p, x) in sorted(items.items()):
            K.true("item %s is needed" % names[i], p, ok)
            read = FALSE
            for e in events(r, "decode"):
                if any(t is x for t in leaves_of(e.args[0])):
                    read = b_or(read, b_and(e.guard, std.decodes(*e.args)))
            K.true("item %s has been decoded" % names[i], read, ok)
        # the accepted case
        s = E(num(k), {k: (M({i: (TRUE, x) for i, (p, x) in items.items()}),)}, s.tag)
        pre = b_and(l.pre, ands([std.decodes(*e.args) for e in events(r, "decode") if kind_is(e.args[0], items)]))
        r = K.run(method(l.adt, "load_from_serialized"), [("ref", l.st), ("ref", s)], pre=pre)
        ok = b_and(pre, is_ok(r.ret))
        r = K.run(method(l.adt, "load_from_serialized"), [("ref", l.st), ("ref", s)], pre=ok)
        valid(K, l.adt, r.arg(0), ok)
        if md == TRAIN:
            buffers(K, l.adt, r.arg(0), ok, zero=False)
    for_layers(K, "load_from_serialized", layer)


def kind_is(d, items):
    """the bytes are one of these items"""
    return any(d is x for p, x in items.values())


def leaves_of(d):
    if not isinstance(d, DD):
        return [d]
    return [leaf(x) for x in leaves(d)]


KEYS = {CONV: "layer::convolutional::ConvolutionalSerialKeys", FC: "layer::fully_connected::FullyConnectedSerialKeys",
        POOL: "layer::max_pool::MaxPoolSerialKeys", SOFT: "layer::softmax::SoftMaxSerialKeys"}


# ------------------------------------------------------------------ C25
def c25(K):
    def layer(l, md):
        s = stored(K)
        r = K.run(method(l.adt, "load_from_serialized"), [("ref", l.st), ("ref", s)], pre=l.pre)
        bad = b_and(l.pre, b_not(is_ok(r.ret)))
        K.unchanged("a failed load changes nothing", l.st, r.arg(0), bad)
        K.unchanged("the stored data is not changed", s, r.arg(1), l.pre)
    for_layers(K, "load_from_serialized", layer)


# ------------------------------------------------------------------ C23
def c23(K):
    w = K.w
    for adt, mk in LAYERS.items():
        for md in MODES:
            for md2 in MODES:
                def back(adt=adt, mk=mk, md=md, md2=md2):
                    l, t = mk(K, md), mk(K, md2, "old.")
                    r = K.run(method(adt, "get_serialized"), [("ref", l.st)], pre=l.pre)
                    K.unchanged("storing changes nothing", l.st, r.arg(0), l.pre)
                    pre = ands([l.pre, t.pre, r.st.g])
                    r2 = K.run(method(adt, "load_from_serialized"), [("ref", t.st), ("ref", r.ret)], pre=pre)
                    K.eq("what was stored is accepted", is_ok(r2.ret), TRUE, pre)
                    K.no_panic(r2, pre=pre)
                    for f in l.params:
                        if f != "run_state":
                            K.unchanged("%s is restored" % f, w.get(l.st, adt, f), w.get(r2.arg(0), adt, f), pre)
                    K.true("the mode is kept", in_mode(K, w.get(r2.arg(0), adt, "run_state"), md2), pre)
                K.block("%s: stored in %s mode, loaded in %s mode" % (adt, md.lower(), md2.lower()), back)


# ------------------------------------------------------------------ C22
def c22(K):
    """every public operation: whatever an operation it runs reports as failed makes it fail"""
    for f in sorted(K.p.fns.values(), key=lambda f: f["path"]):
        if not f.get("pub") or f["kind"] == "Closure" or "_::<impl" in f["path"] or \
                " as std::" in f["path"] and "TryFrom" not in f["path"]:
            continue
        for label, args in scenarios(K, f):
            K.block(f["path"] + label, lambda: errors_surface(K, f, *args()))


def scenarios(K, f):
    """(label, arguments, precondition, abstraction) for a public function: networks and layers in both modes"""
    tys = [K.p.ty(l["t"] if isinstance(l, dict) else l) for l in f["body"]["locals"][1:f["body"]["argc"] + 1]]

    def bare(t):
        while t[0] == "ref":
            t = t[1]
        return t
    main = [bare(t) for t in tys]
    own = [t[1] for t in main if t[0] == "adt" and (t[1] in LAYERS or t[1] == NET)]

    def build(obj):
        I = K.w.interp()
        I.pending = {}
        out = []
        for n, t in enumerate(tys):
            b = bare(t)
            if b[0] == "adt" and b[1] == obj[0]:
                v = obj[1]
            else:
                v = I.symtree(b, "arg%d" % n)
            out.append(("ref", v) if t[0] == "ref" else v)
        return out
    if not own:
        return [("", lambda: (build((None, None)), TRUE, None))]

    def net(md, i):
        n = nets(K, md)[i][1]
        return build((NET, n.st)), n.pre, Store(K, n)

    def layer(md):
        l = LAYERS[own[0]](K, md)
        return build((l.adt, l.st)), l.pre, None
    if own[0] == NET:
        return [(" in %s mode, %s" % (md.lower(), nm), lambda md=md, i=i: net(md, i))
                for md in MODES for i, nm in enumerate(NETS)]
    return [(" in %s mode" % md.lower(), lambda md=md: layer(md)) for md in MODES]


def errors_surface(K, f, args, pre, ab):
    """first without the loops that only compute numbers; when that does not settle it, with them"""
    n = len(K.obs)
    surfaces(K, f, args, pre, ab, True)
    mine = K.obs[n:]
    if any(o.verdict == "undecided" for o in mine) and not any(o.verdict == "violated" for o in mine):
        del K.obs[n:]
        try:
            surfaces(K, f, args, pre, ab, False)
        except Undecided:
            K.obs[n:] = mine


def surfaces(K, f, args, pre, ab, coarse):
    I = K.w.interp(ab)
    if isinstance(ab, Store) and f["path"].startswith(NET):
        ab.setup(I)
    I.trace, I.coarse = True, coarse
    r = K.run(f["path"], args, pre=pre, I=I, abstract=ab)
    evs = events(r, "result")
    t = r.ret
    while isinstance(t, G):
        t = t.a
    reports = isinstance(t, E) and t.tag == "Result"
    good = b_and(pre, b_and(r.st.g, is_ok(r.ret) if reports else TRUE))
    seen = {}
    for e in evs:
        seen.setdefault(e.site[0], []).append(e)
    if not seen:
        K.true("runs no operation that can fail", TRUE)
    for name, es in seen.items():
        for x, e in enumerate(es):
            dom = ands([lt(var(b), n) for b, n in e.binders])
            bad = ands([good, dom, e.guard])
            K.eq("a failure of %s is reported%s" % (name, " (call %d)" % (x + 1) if len(es) > 1 else ""), e.args[0], TRUE,
                 bad)


# ------------------------------------------------------------------ networks
def put(t, g, i, v):
    """lifted tree t with element i replaced by v where g holds"""
    if i.atom is not None:
        c = atomdd(i.atom)
        with assume(g, c):
            t = put(t, b_and(g, c), i.hi, v)
        with assume(g, b_not(c)):
            return put(t, b_and(g, b_not(c)), i.lo, v)

    def go(t, v):
        if isinstance(t, Term):
            return U if t is U else mk_aw(t, (), g, (i.leaf,), v)
        if isinstance(t, S):
            return S([go(x, y) for x, y in zip(t.f, v.f)], t.tag)
        if isinstance(t, V) and isinstance(v, V):
            return V(go(t.n, v.n), go(t.e, v.e))
        raise Undecided("position of a layer")
    return go(t, v)


class Store(Dyn):
    """like Dyn; a layer is stored as an opaque object and restored from one by SerializedLayer::add_to_network, whose
    contract (restore a layer of the same kind, then add_layer) is checked separately"""

    def setup(self, I):
        I.maker[SERIAL] = lambda I, ty, name, r: var(sym(name, "o")) if r == 0 else asym(name, "o", r)
        I.abstract = self
        return I

    def shape_of(self, o, which):
        if o.atom is None and self.position(o) is None:
            x = self.original(o)
            if x is not None:
                return self.shape_of(x, which)
            return tuple(uf("%s.%s" % (("input", "output")[which], x), [o], "i", True) for x in ("di", "dj", "dk"))
        return Dyn.shape_of(self, o, which)

    def original(self, o):
        """the layer that was stored and restored as o"""
        t = o.leaf
        if isinstance(t, Term) and t.kind == "uf" and t.args[0] == "restored":
            t = t.args[1]
            if isinstance(t, DD):
                t = t.leaf
            if isinstance(t, Term) and t.kind == "uf" and t.args[0] == "serialized":
                return t.args[1] if isinstance(t.args[1], DD) else leaf(t.args[1])
        return None

    def __call__(self, I, st, fr, cal, args):
        if cal.key is None and cal.fn.get("trait") == LAYER and cal.fn["meth"] == "get_serialized":
            o = std.val(I, st, args[0])
            I.events.append(mir.Event("get_serialized", st.g, [o], (fr.key, cal.span)))
            return uf("serialized", [o], "o")
        if cal.key is not None and self.K.p.fns[cal.key]["path"] == SERIAL + "::add_to_network":
            o = std.val(I, st, args[0])
            if not isinstance(o, DD):
                return None
            I.events.append(mir.Event("add_to_network", st.g, [o], (fr.key, cal.span)))
            new = uf("restored", [o], "o")
            good = uf("restores", [o], "b") if self.original(new) is None else TRUE
            n = std.val(I, st, args[1])
            for md in (TRAIN, INFER):
                c = simp(b_and(st.g, in_mode(self.K, self.K.w.get(n, NET, "run_state"), md)))
                if c is not FALSE:
                    I.events.append(mir.Event("restored in %s mode" % md, c, [new], (fr.key, cal.span)))
            n2, fit = self.extended(n, new)
            ok = b_and(good, fit)
            I.write(st, args[1], merge(ok, n2, n))
            r = E(ite(ok, D0, D1), {0: (S([]),), 1: (leaf(lit("restore-error")),)}, "Result")
            I.result(st, "SerializedLayer::add_to_network", r, cal.span)
            return r
        return Dyn.__call__(self, I, st, fr, cal, args)

    def extended(self, n, o):
        """the network with the layer o behind it, whether the layer fits there (as proved of add_layer, C19)"""
        w = self.K.w

        def g(f):
            return w.get(n, NET, f)
        L = g("layers").n
        inp, out = self.shape_of(o, 0), self.shape_of(o, 1)
        first = eqn(L, D0)
        fit = b_or(first, ands([eqn(a, b) for a, b in zip(inp, w.dims(g("output_shape")))]))

        def more(v):
            e = put(v.e, first, D0, w.tensor("zero", inp, a_const(D0, 1, "f")))
            return V(add(L, num(2)), put(e, TRUE, add(L, D1), w.tensor("zero", out, a_const(D0, 1, "f"))))
        gr = g("intermediate_gradients")
        return w.mk(NET, layers=V(add(L, D1), put(g("layers").e, TRUE, L, o)),
                    intermediate_states=more(g("intermediate_states")),
                    intermediate_gradients=merge(in_mode(self.K, g("run_state"), TRAIN), more(gr), gr),
                    input_shape=w.shape(*[ite(first, a, b) for a, b in zip(inp, w.dims(g("input_shape")))]),
                    output_shape=w.shape(*out), run_state=g("run_state")), fit


PATH = var(sym("path", "o"))


def run_store(K, net, name, pre=TRUE, files=None, others=(), path=None):
    D = Store(K, net, *others)
    I = D.setup(K.w.interp(D))
    I.files = files
    I.stepwise = K.pinned is not None
    r = K.run(NET + "::" + name, [("ref", net.st), ("ref", PATH if path is None else path)], pre=b_and(net.pre, pre), I=I)
    r.D = D
    return r


def net_ok(K, r, st, md, pre, what="", old=None, only=("states", "gradients", "shapes", "mode")):
    """the network st is consistent: shapes chain, boundary tensors fit, buffers fit the mode"""
    w = K.w

    def g(f):
        return w.get(st, NET, f)
    n = g("layers").n
    if "states" in only:
        K.eq(what + "there are n + 1 boundary tensors", g("intermediate_states").n, ite(eqn(n, D0), D0, add(n, D1)), pre)
    if "gradients" not in only:
        pass
    elif md == TRAIN:
        K.eq(what + "there are n + 1 boundary gradients", g("intermediate_gradients").n,
             ite(eqn(n, D0), D0, add(n, D1)), pre)
    else:
        K.eq(what + "there are no gradient tensors", g("intermediate_gradients").n, D0, pre)
    p = N("at.layer")
    parts = [("", p, TRUE)]
    if old is not None and old is not D0:
        parts = [(" (old layers)", p, lt(p, old)), (" (first new layer)", old, TRUE),
                 (" (other new layers)", add(add(old, D1), p), TRUE)]
    for tag, q, c in parts:
        p2 = ands([pre, c, lt(q, n)])
        with assume(p2):
            o = index(g("layers").e, q)
            inp, out = r.D.shape_of(o, 0), r.D.shape_of(o, 1)
        for f in (("intermediate_states",) if "states" in only else ()) + (
                ("intermediate_gradients",) if md == TRAIN and "gradients" in only else ()):
            with assume(p2):
                a, b = index(g(f).e, q), index(g(f).e, simp(add(q, D1)))
            consistent(K, what + "%s fit the input of their layer%s" % (f, tag), a, inp, p2)
            consistent(K, what + "%s fit the output of their layer%s" % (f, tag), b, out, p2)
    p3 = b_and(pre, cmp("Ge", n, D1, True))
    if "shapes" in only:
        with assume(p3):
            first, last = index(g("layers").e, D0), index(g("layers").e, simp(sub(n, D1)))
            K.true(what + "the input shape is that of the first layer",
                   ands([eqn(a, b) for a, b in zip(w.dims(g("input_shape")), r.D.shape_of(first, 0))]), p3)
            K.true(what + "the output shape is that of the last layer",
                   ands([eqn(a, b) for a, b in zip(w.dims(g("output_shape")), r.D.shape_of(last, 1))]), p3)
    if "mode" in only:
        K.true(what + "the mode is kept", in_mode(K, g("run_state"), md), pre)


def turns(r, name):
    """(event, its turn, condition) of the calls of name, and how many there are when none is left out"""
    base, out = D0, []
    for e in events(r, name):
        if len(e.binders) > 1:
            raise Undecided("nested loops over stored layers")
        if e.binders:
            (b, n), = e.binders
            out.append((e, add(base, var(b)), b_and(lt(var(b), n), e.guard)))
            base = add(base, sub(n, D1))
        else:
            out.append((e, base, e.guard))
            base = add(base, D1)
    return out, base


def c24_network(K):
    def load(net):
        r = run_store(K, net, "load_from_file")
        K.no_panic(r, pre=net.pre)
        ok = is_ok(r.ret)
        K.eq("a file that cannot be read is an error", ok, FALSE, b_and(net.pre, b_not(uf("readable", [PATH], "b"))))
        decs = events(r, "decode")
        K.true("what was read is decoded", each(decs, lambda e: oeq(e.args[0], uf("contents", [PATH], "o"))),
               b_and(net.pre, ok))
        for e in decs:
            K.eq("a file that cannot be decoded is an error", ok, FALSE,
                 ands([net.pre, e.guard, b_not(std.decodes(*e.args))]))
        for x, (e, step, cond) in enumerate(turns(r, "add_to_network")[0]):
            K.true("a stored layer that cannot be restored is an error", uf("restores", e.args, "b"),
                   ands([net.pre, ok, cond]))
        pre = b_and(net.pre, ok)
        r = run_store(K, net, "load_from_file", pre)
        net_ok(K, r, r.arg(0), net.md, pre, "the loaded network is consistent: ", net.n)
    for_nets(K, NET + "::load_from_file", load)


def stored_list(r):
    """the layers in the decoded file, when it contains one list of them"""
    found = []

    def go(v):
        if isinstance(v, S):
            for x in v.f:
                go(x)
        elif isinstance(v, V):
            if isinstance(v.e, Term) and v.e.sort == "o":
                found.append(v)
            else:
                go(v.e)
        elif not isinstance(v, DD):
            found.append(None)
    decs = events(r, "decode")
    if len(decs) != 1 or decs[0].binders:
        return None
    d, ty = decs[0].args
    go(payload(std.de(r.I, None, d, ast.literal_eval(ty.leaf.args[1]), ""), 0))
    return found[0] if len(found) == 1 else None


def c25_network(K):
    w = K.w

    def load(net):
        r = run_store(K, net, "load_from_file")
        ok = is_ok(r.ret)
        K.unchanged("a failed load changes nothing", net.st, r.arg(0), b_and(net.pre, b_not(ok)))
        pre = b_and(net.pre, ok)
        r = run_store(K, net, "load_from_file", pre)
        calls, count = turns(r, "add_to_network")
        ls = w.get(r.arg(0), NET, "layers")
        K.eq("every stored layer becomes one more layer", ls.n, add(net.n, count), pre)
        lst = stored_list(r)
        if lst is not None:
            K.eq("no stored layer is left out", count, lst.n, pre)
            for e, step, cond in calls:
                with assume(pre, cond):
                    want = index(lst.e, simp(step))
                K.true("the stored layers are restored in order", oeq(e.args[0], want), b_and(pre, cond))
        q = N("at.layer")
        p2 = b_and(pre, lt(q, net.n))
        if net.n is not D0:
            with assume(p2):
                K.eq("the layers that were there stay", index(ls.e, q), net.layer(q), p2)
        for e, step, cond in calls:
            with assume(pre, cond):
                got = index(ls.e, simp(add(net.n, step)))
            K.true("the stored layers follow in order", oeq(got, uf("restored", e.args, "o")), b_and(pre, cond))
        net_ok(K, r, r.arg(0), net.md, pre, old=net.n)
    for_nets(K, NET + "::load_from_file", load)


def loaded(K, only):
    """what C15, C16 and C19 say of a network that more layers have been loaded into"""
    def load(net):
        pre = b_and(net.pre, is_ok(run_store(K, net, "load_from_file").ret))
        r = run_store(K, net, "load_from_file", pre)
        net_ok(K, r, r.arg(0), net.md, pre, old=net.n, only=only)
        if "mode" not in only:
            return
        # a layer is restored in the mode of the network it is added to (C15), unless it is switched afterwards
        wrong = events(r, "restored in %s mode" % (INFER if net.md == TRAIN else TRAIN))
        for e, step, cond in turns(r, "add_to_network")[0]:
            o = uf("restored", e.args, "o")
            now = b_not(each(wrong, lambda t: oeq(t.args[0], o)))
            later = each(events(r, TRAINERS[net.md]), lambda t: oeq(t.args[0], o))
            K.true("a loaded layer is in the mode of the network", b_or(now, later), b_and(pre, cond))
    for_nets(K, NET + "::load_from_file", load)


def c23_network(K):
    w = K.w
    for md in MODES:
        for i, nm in enumerate(NETS):
            def save(i=i, md=md):
                net = nets(K, md)[i][1]
                r = run_store(K, net, "save_to_file")
                K.no_panic(r, pre=net.pre)
                K.unchanged("saving changes nothing", net.st, r.arg(0), net.pre)
                ok = b_and(net.pre, is_ok(r.ret))
                ws = events(r, "fs::write")
                K.true("the named file is written", each(ws, lambda e: oeq(e.args[0], PATH)), ok)
                K.eq("no other file is written", each(ws, lambda e: b_not(oeq(e.args[0], PATH))), FALSE, net.pre)
            K.block("%s::save_to_file in %s mode, %s" % (NET, md.lower(), nm), save)
            for md2 in MODES:
                def back(i=i, md=md, md2=md2):
                    net = nets(K, md)[i][1]
                    r = run_store(K, net, "save_to_file")
                    ok = b_and(net.pre, is_ok(r.ret))
                    r = run_store(K, net, "save_to_file", ok)
                    ws = events(r, "fs::write")
                    if len(ws) != 1 or ws[0].binders:
                        raise Undecided("several writes")
                    data = ws[0].args[1]
                    new = Net(K, D0, md2, "new.")
                    pre = b_and(ok, uf("readable", [PATH], "b"))
                    r = run_store(K, new, "load_from_file", pre, lambda p: data, (net,))
                    K.eq("what was saved can be loaded", is_ok(r.ret), TRUE, pre)
                    K.no_panic(r, pre=pre)
                    ls = w.get(r.arg(0), NET, "layers")
                    K.eq("as many layers are loaded as were saved", ls.n, net.n, pre)
                    q = N("at.layer")
                    p2 = b_and(pre, lt(q, net.n))
                    if net.n is not D0:
                        with assume(p2):
                            got = index(ls.e, q)
                        K.true("every layer is loaded where it was saved",
                               oeq(got, uf("restored", [uf("serialized", [net.layer(q)], "o")], "o")), p2)
                    net_ok(K, r, r.arg(0), md2, pre)
                K.block("%s: saved in %s mode, %s, loaded in %s mode" % (NET, md.lower(), nm, md2.lower()), back)


# ------------------------------------------------------------------ SerializedLayer::add_to_network
ADD = SERIAL + "::add_to_network"


def one_kind(K, adt):
    """a stored layer of this kind, otherwise arbitrary"""
    s = stored(K)
    k = variant(K, SERIAL, KIND[adt])
    return E(num(k), {k: s.v[k]}, s.tag)


class New(Dyn):
    """what add_to_network leaves behind: the network, and the layer at its end"""

    def __init__(self, K, stored, net, adt, pre):
        Dyn.__init__(self, K, net)
        self.net, self.adt = net, adt
        self.r = r = K.run(ADD, [("ref", stored), ("ref", net.st)], pre=pre, abstract=self)
        self.ok = is_ok(r.ret)
        r.D = self

    def layer(self, K, pre):
        """(type, value) of the new layer"""
        with assume(pre):
            o = simp(index(K.w.get(self.r.arg(1), NET, "layers").e, self.net.n))
        if o.atom is not None or not isinstance(o.leaf, Term) or o.leaf.id not in mir.OBJECTS:
            raise Undecided("the new layer is not one concrete layer")
        return mir.OBJECTS[o.leaf.id]


def for_adds(K, clause, f):
    for adt in LAYERS:
        for_nets(K, "%s, %s, %s" % (ADD, KIND[adt], clause), lambda net, adt=adt: f(net, adt))


def grown(K, new, pre):
    """one more layer, behind the others"""
    w, net = K.w, new.net
    ls = w.get(new.r.arg(1), NET, "layers")
    K.eq("one layer is added", ls.n, add(net.n, D1), pre)
    if net.n is not D0:
        q = N("at.layer")
        p2 = b_and(pre, lt(q, net.n))
        with assume(p2):
            K.eq("the layers that were there stay", index(ls.e, q), net.layer(q), p2)
    net_ok(K, new.r, new.r.arg(1), net.md, pre, "the network is consistent: ", net.n)


def c25_add(K):
    def go(net, adt):
        s = one_kind(K, adt)
        new = New(K, s, net, adt, net.pre)
        K.no_panic(new.r, pre=net.pre)
        K.unchanged("a layer that cannot be added changes nothing", net.st, new.r.arg(1), b_and(net.pre, b_not(new.ok)))
        K.unchanged("the stored data is not changed", s, new.r.arg(0), net.pre)
        pre = b_and(net.pre, new.ok)
        grown(K, New(K, s, net, adt, pre), pre)
    for_adds(K, "any data", go)


def c24_add(K):
    def go(net, adt):
        s = one_kind(K, adt)
        new = New(K, s, net, adt, net.pre)
        K.no_panic(new.r, pre=net.pre)
        pre = b_and(net.pre, new.ok)
        new = New(K, s, net, adt, pre)
        kind, l = new.layer(K, pre)
        K.true("a layer of the stored kind is added", TRUE if kind == adt else FALSE, pre)
        if kind != adt:
            return
        valid(K, adt, l, pre)
        if net.md == TRAIN:
            buffers(K, adt, l, pre, zero=False)
        if net.n is not D0:
            K.true("it fits behind the last layer", ands([eqn(a, b) for a, b in zip(
                K.w.dims(K.run(method(adt, "get_input_shape"), [("ref", l)]).ret), net.dims(net.n))]), pre)
    for_adds(K, "any data", go)


def c23_add(K):
    w = K.w
    for adt, mk in LAYERS.items():
        for md in MODES:
            def go(net, adt, mk=mk, md=md):
                l = mk(K, md)
                r = K.run(method(adt, "get_serialized"), [("ref", l.st)], pre=l.pre)
                pre = ands([l.pre, net.pre, r.st.g])
                new = New(K, r.ret, net, adt, pre)
                inp = w.dims(K.run(method(adt, "get_input_shape"), [("ref", l.st)]).ret)
                fit = TRUE if net.n is D0 else ands([eqn(a, b) for a, b in zip(inp, net.dims(net.n))])
                K.eq("a stored layer can be added where it fits", new.ok, fit, pre)
                K.no_panic(new.r, pre=pre)
                pre = b_and(pre, new.ok)
                new = New(K, r.ret, net, adt, pre)
                kind, got = new.layer(K, pre)
                K.true("a layer of the stored kind is added", TRUE if kind == adt else FALSE, pre)
                if kind != adt:
                    return
                K.weaker = (l.pre,)
                try:
                    for f in l.params:
                        if f != "run_state":
                            K.unchanged("%s is restored" % f, w.get(l.st, adt, f), w.get(got, adt, f), pre)
                finally:
                    K.weaker = ()
                K.true("it is in the mode of the network", in_mode(K, w.get(got, adt, "run_state"), net.md), pre)
            for_nets(K, "%s, %s stored in %s mode" % (ADD, KIND[adt], md.lower()),
                     lambda net, adt=adt, go=go: go(net, adt))


# ------------------------------------------------------------------ tensors in files
T_SAVE, T_LOAD = "tensor::Tensor::save_to_file", "tensor::Tensor::from_file"


def c23_tensor(K):
    w = K.w

    def save():
        t = w.tensor("t")
        r = K.run(T_SAVE, [("ref", t), ("ref", PATH)])
        K.no_panic(r)
        K.unchanged("saving changes nothing", t, r.arg(0))
        ws = events(r, "fs::write")
        K.true("the named file is written", each(ws, lambda e: oeq(e.args[0], PATH)), is_ok(r.ret))
        K.eq("no other file is written", each(ws, lambda e: b_not(oeq(e.args[0], PATH))), FALSE)
        K.eq("saving fails only when the file cannot be written", b_and(b_not(is_ok(r.ret)), ands(
            [r.st.g, uf("writable", [PATH], "b")])), FALSE, serialisable(r))
    K.block(T_SAVE, save)

    def back():
        t = w.tensor("t")
        r = K.run(T_SAVE, [("ref", t), ("ref", PATH)])
        ok = is_ok(r.ret)
        r = K.run(T_SAVE, [("ref", t), ("ref", PATH)], pre=ok)
        data = written(r)
        I = w.interp()
        I.files = lambda p: data
        pre = b_and(ok, uf("readable", [PATH], "b"))
        r = K.run(T_LOAD, [("ref", PATH)], pre=pre, I=I)
        K.no_panic(r, pre=pre)
        K.eq("what was saved can be loaded", is_ok(r.ret), TRUE, pre)
        K.unchanged("the same tensor is loaded", t, std.payload(r.ret, 0), pre)
        rs = events(r, "fs::read")
        K.eq("no other file is read", each(rs, lambda e: b_not(oeq(e.args[0], PATH))), FALSE, pre)
    K.block("%s, %s" % (T_SAVE, T_LOAD), back)


def named(K, r, pre):
    """only the given file is read and written"""
    for n, what in (("fs::write", "written"), ("fs::read", "read")):
        es = events(r, n)
        K.eq("no other file is %s" % what, each(es, lambda e: b_not(oeq(e.args[0], PATH))), FALSE, pre)


def c26_files(K):
    for anchor in (T_SAVE, T_LOAD):
        def tensor(anchor=anchor):
            named(K, K.run(anchor, ([("ref", K.w.tensor("t"))] if anchor == T_SAVE else []) + [("ref", PATH)]), TRUE)
        K.block("files of %s" % anchor, tensor)
    for name in ("save_to_file", "load_from_file"):
        for_nets(K, "files of %s::%s" % (NET, name), lambda net: named(K, run_store(K, net, name), net.pre), modes=(INFER,))


def serialisable(r):
    """bincode can write every value (as derived Serialize does)"""
    c = TRUE
    for e in r.I.events:
        if e.name == "encode":
            c = b_and(c, e.args[0])
    return c


def written(r):
    """contents of the one file that is written"""
    ws = [e for e in events(r, "fs::write") if simp(e.guard) is not FALSE]
    if len(ws) != 1 or ws[0].binders:
        raise Undecided("several writes")
    return ws[0].args[1]


def c24_tensor(K):
    def load():
        r = K.run(T_LOAD, [("ref", PATH)])
        K.no_panic(r)
        ok = is_ok(r.ret)
        K.eq("a file that cannot be read is an error", ok, FALSE, b_not(uf("readable", [PATH], "b")))
        decs = events(r, "decode")
        K.true("what was read is decoded", each(decs, lambda e: oeq(e.args[0], uf("contents", [PATH], "o"))), ok)
        for e in decs:
            K.eq("a file that cannot be decoded is an error", ok, FALSE, b_and(e.guard, b_not(std.decodes(*e.args))))
        t = std.payload(r.ret, 0)
        consistent(K, "only consistent tensors are loaded", t, K.w.t_shape(t), ok)
    K.block(T_LOAD, load)
    K.block("decoding of tensor::Tensor", lambda: tensor_decoding(K))
