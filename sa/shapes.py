"""Symbolic tensors and layer states that satisfy the representation invariants."""
from .terms import *
from .val import *
from . import mir

TENSOR = "tensor::Tensor"
SHAPE = "tensor::helper::TensorShape"
INDEX = "tensor::helper::TensorIndex"
STRIDE = "tensor::helper::TensorStride"


# the fields the properties speak about (a field of another name and the same type may stand for one of them)
KNOWN = {
    TENSOR: "strides shape data", SHAPE: "di dj dk", INDEX: "i j k", STRIDE: "i j k",
    "layer::convolutional::ConvolutionalLayer": "kernels biases kernel_gradients bias_gradients stride relu_mask "
                                                "input_shape output_shape name run_state",
    "layer::fully_connected::FullyConnectedLayer": "weights weights_gradients weights_gradients_intermediate bias "
                                                   "bias_gradients relu_mask name run_state",
    "layer::max_pool::MaxPoolLayer": "input_shape mask_shape output_shape stride name run_state max_pool_origin",
    "layer::softmax::SoftmaxLayer": "shape name intermediate1 intermediate2 run_state",
    "network::Network": "layers intermediate_states intermediate_gradients input_shape output_shape run_state",
}


def kind(f, adt):
    """type of a known field, as a word"""
    if f == "bias_gradients" and "Convol" in adt or f in ("kernels", "biases", "kernel_gradients", "intermediate_states", "intermediate_gradients"):
        return "tensors"
    return {"strides": "TensorStride", "data": "f32s", "di": "usize", "dj": "usize", "dk": "usize", "i": "usize",
            "j": "usize", "k": "usize", "stride": "usize", "name": "String", "run_state": "NetworkRunState",
            "max_pool_origin": "usizes", "layers": "Boxs", "shape": "TensorShape", "input_shape": "TensorShape",
            "output_shape": "TensorShape", "mask_shape": "TensorShape"}.get(f, "Tensor")


def kind_of_type(t):
    if t[0] == "adt" and t[1].endswith("Vec"):
        k = kind_of_type(t[2][0])
        return "tensors" if k == "Tensor" else k + "s"
    return t[1].split("::")[-1] if t[0] in ("adt", "prim") else str(t)


class World:
    """a program with the names of its fields"""

    def __init__(self, prog):
        self.p = prog
        self.fields = {}
        self.added = {}     # fields no property speaks about: name -> type
        self.where = {}     # known field -> position
        self.free = set()   # the types with such fields of which an arbitrary state was used
        self.hist = None    # how a state with such fields is reached
        for n, a in prog.adts.items():
            if a["local"] and a["kind"] == "struct":
                fs = a["v"][0]["f"]
                self.fields[n] = [f["n"] for f in fs]
                self.align(n, [(f["n"], prog.ty(f["t"])) for f in fs])

    def align(self, adt, fs):
        known = KNOWN.get(adt, "").split()
        if not known:
            return
        at = {f: n for n, (f, _) in enumerate(fs)}
        where = {f: at[f] for f in known if f in at}
        rest = [(f, kind_of_type(t)) for f, t in fs if f not in known]
        for f in known:
            if f not in where:
                k = kind(f, adt)
                same = [g for g in known if g not in at and kind(g, adt) == k]
                cand = [g for g, q in rest if q == k]
                if len(same) == 1 and len(cand) == 1:
                    where[f] = at[cand[0]]
        self.where[adt] = where
        self.added[adt] = [(n, f, t) for n, (f, t) in enumerate(fs) if n not in where.values()]

    def mk(self, adt, _rank=0, _tag="", **kw):
        pos = self.where.get(adt)
        if pos is None or set(pos) != set(kw):
            raise Undecided("fields of %s are %s" % (adt, self.fields.get(adt)))
        fs = [U] * len(self.fields[adt])
        for f, v in kw.items():
            fs[pos[f]] = v
        for n, f, t in self.added[adt]:
            self.free.add(adt)
            I = mir.Interp(self.p)
            I.pending = {}
            I.maker[TENSOR] = self.make
            fs[n] = I.symtree(t, _tag + "added." + f, _rank)
            if I.pending:
                raise Undecided("a field that was added to %s" % adt)
        return S(fs, adt)

    def as_before(self, before, after):
        """after, with the fields no property speaks about as in before"""
        if isinstance(before, S) and isinstance(after, S) and self.added.get(before.tag) and after.tag == before.tag:
            fs = list(after.f)
            for n, _, _ in self.added[before.tag]:
                fs[n] = before.f[n]
            return S(fs, after.tag)
        if isinstance(after, G) and isinstance(before, S) and self.added.get(before.tag):
            return merge(after.c, self.as_before(before, after.a), self.as_before(before, after.b))
        return after

    def get(self, v, adt, field):
        if isinstance(v, G):
            return merge(v.c, self.get(v.a, adt, field), self.get(v.b, adt, field))
        pos = self.where.get(adt)
        if pos is None or field not in pos:
            raise Undecided("no field %s in %s" % (field, adt))
        if not isinstance(v, S):
            raise Undecided("%s expected" % adt)
        return v.f[pos[field]]

    # shapes
    def shape(self, di, dj, dk):
        return self.mk(SHAPE, di=di, dj=dj, dk=dk)

    def dims(self, v):
        return tuple(self.get(v, SHAPE, f) for f in ("di", "dj", "dk"))

    def idx(self, i, j, k):
        return self.mk(INDEX, i=i, j=j, k=k)

    def tensor(self, name, d=None, data=None):
        """tensor with the given (DD) dimensions"""
        if d is None:
            d = tuple(var(sym("%s.%s" % (name, x))) for x in ("di", "dj", "dk"))
        di, dj, dk = d
        e = data if data is not None else asym(name + ".data", "f", 1)
        return self.mk(TENSOR, 0, name + ".",
                       strides=self.mk(STRIDE, i=D1, j=di, k=mul(di, dj)),
                       shape=self.shape(di, dj, dk),
                       data=V(mul(mul(di, dj), dk), e))

    def tensor_rank(self, name, r, dims=None):
        """family of tensors (elements of a vector), r indices"""
        bs = [binder("l") for _ in range(r)]
        ix = tuple(patom(b) for b in bs)
        if dims is None:
            dims = tuple(sel(asym("%s.%s" % (name, x), "i", r), ix) for x in ("di", "dj", "dk"))
        di, dj, dk = dims

        def lam(d):
            return a_lam(bs, d, "i")
        return self.mk(TENSOR, r, name + ".",
                       strides=self.mk(STRIDE, i=a_const(D1, r, "i"), j=lam(di), k=lam(mul(di, dj))),
                       shape=self.mk(SHAPE, di=lam(di), dj=lam(dj), dk=lam(dk)),
                       data=V(lam(mul(mul(di, dj), dk)), asym(name + ".data", "f", r + 1)))

    def t_shape(self, t):
        return self.dims(self.get(t, TENSOR, "shape"))

    def t_data(self, t):
        return self.get(t, TENSOR, "data")

    def at(self, t, i, j, k, d=None):
        """element (i, j, k) of a tensor; d: its dimensions when known"""
        di, dj, dk = d or self.t_shape(t)
        return index(self.t_data(t).e, simp(add(i, mul(di, add(j, mul(dj, k))))))

    def make(self, I, ty, name, r):
        return self.tensor(name) if r == 0 else self.tensor_rank(name, r)

    def interp(self, abstract=None):
        I = mir.Interp(self.p, abstract)
        I.pending = {}
        I.maker[TENSOR] = self.make
        return I

    # running a function
    def run(self, path, args, abstract=None, pre=TRUE, I=None):
        """args: values; reference parameters are given as ('ref', value).  Returns Run."""
        f = self.p.find(path)
        if f is None:
            raise Missing(path)
        I = I or self.interp(abstract)
        st = mir.State(pre, {})
        vals, cells = [], []
        for n, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == "ref":
                c = "arg%d" % n
                st.m[c] = a[1]
                vals.append(R(c))
                cells.append(c)
            else:
                vals.append(a)
                cells.append(None)
        st.m.update(I.pending)
        k = CTX.push(literals(pre))
        try:
            v = I.run_fn(st, f["key"], vals, {}, f.get("name") or path.split("::")[-1])
        finally:
            CTX.pop(k)
        return Run(I, st, v, cells)


class Missing(Exception):
    pass


class Run:
    def __init__(self, I, st, ret, cells):
        self.I, self.st, self.ret, self.cells = I, st, ret, cells

    def arg(self, n):
        return self.st.m.get(self.cells[n], U)

    @property
    def panics(self):
        return self.I.panics

    @property
    def events(self):
        return self.I.events
