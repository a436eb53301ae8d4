"""What the data format sees of a type (C23): the items its Serialize writes, and what its Deserialize makes of them.

The format is bincode: a struct is the sequence of its fields, read through Visitor::visit_seq with as many elements as
the reader names; an enum is the number of its variant, read through Visitor::visit_enum and visit_u64, and its content.
"""
from .kit import *
from . import std, mir
from .spec_tensor import is_ok, D1, sub, eqn

SER, DE = "serde::Serialize", "serde::Deserialize"


def bare(t):
    while t[0] == "ref" or t[0] == "adt" and t[1] == "std::boxed::Box":
        t = t[1] if t[0] == "ref" else t[2][0]
    if t[0] == "slice":
        return ("adt", "std::vec::Vec", (t[1],))
    if t == ("prim", "str"):
        return ("adt", "std::string::String", ())
    return t[:3]


def method_of(p, trait, meth, ty):
    """key of the method of the crate's implementation of trait for ty"""
    for im in p.impls:
        if im["trait"].split("<")[0] == trait and meth in im["m"]:
            t = p.ty(im["self"])
            if t == ty or t[0] == ty[0] == "adt" and t[1] == ty[1]:
                return im["m"][meth]
    return None


def types(p):
    """local types that are both written and read"""
    def of(tr):
        return {p.ty(im["self"])[1] for im in p.impls if im["trait"].split("<")[0] == tr and p.ty(im["self"])[0] == "adt"}
    return sorted(of(SER) & of(DE))


def okay(v):
    return E(D0, {0: (v,), 1: (UNIT,)}, "Result")


class Writer:
    """records what a Serialize writes"""

    def __init__(self, p):
        self.p, self.items, self.pre = p, [], TRUE

    def item(self, I, st, kind, ty, v):
        if st.g is FALSE:
            return
        certain(st.g, self.pre)
        if I.iters:
            raise Undecided("items are written in a loop")
        self.items.append((kind, ty, v))

    def value(self, I, st, fr, ref, ty, label):
        """one value: local types by their own Serialize, others as one item"""
        ty = bare(ty)
        k = method_of(self.p, SER, "serialize", ty) if ty[0] == "adt" else None
        v = std.val(I, st, ref)
        while isinstance(v, R):
            v = std.val(I, st, v)
        if k is None:
            self.item(I, st, "value", ty, v)
            return okay(UNIT)
        c = "written:%d" % len(self.items)
        st.m[c] = v
        return I.run_fn(st, k, [R(c), leaf(lit("serializer"))], {}, label + ">serialize")

    def __call__(self, I, st, fr, cal, args):
        t, m = (cal.trait or "").split("::")[-1], cal.meth
        if t == "Serializer":
            if m == "serialize_struct":
                return okay(leaf(lit("struct")))
            if m in ("serialize_tuple_struct", "serialize_tuple"):
                return okay(leaf(lit("struct")))
            if m == "serialize_unit_variant":
                self.item(I, st, "variant", None, args[2])
                return okay(UNIT)
            if m == "serialize_newtype_variant":
                self.item(I, st, "variant", None, args[2])
                return self.value(I, st, fr, args[4], cal.atys[4], cal.label)
            if m in ("serialize_struct_variant", "serialize_tuple_variant"):
                self.item(I, st, "variant", None, args[2])
                return okay(leaf(lit("struct")))
            if m == "serialize_newtype_struct":
                return self.value(I, st, fr, args[2], cal.atys[2], cal.label)
            raise Undecided("Serializer::" + m)
        if t in ("SerializeStruct", "SerializeStructVariant", "SerializeTupleStruct", "SerializeTuple", "SerializeTupleVariant"):
            if m == "serialize_field" or m == "serialize_element":
                return self.value(I, st, fr, args[-1], cal.atys[-1], cal.label)
            if m == "skip_field" or m == "end":
                return okay(UNIT)
            raise Undecided(t + "::" + m)
        if t == "Serialize" and m == "serialize":
            return self.value(I, st, fr, args[0], cal.atys[0], cal.label)
        return None


class Reader:
    """feeds a Deserialize"""

    def __init__(self, K, items):
        self.K, self.p, self.items, self.at, self.left, self.n, self.pre = K, K.p, items, 0, {}, 0, TRUE

    def take(self, I, st, kind, ty):
        certain(st.g, self.pre)
        self.at += 1
        if self.at > len(self.items):
            return None
        k, t, v = self.items[self.at - 1]
        if k == kind and (kind == "variant" or same(t, ty)):
            return v
        if k == kind and not (prim(t) or prim(ty)):
            raise Undecided("%s read as %s" % (t, ty))
        self.n += 1
        return I.symtree(ty if kind == "value" else ("prim", "u32"), "misread%d" % self.n)

    def value(self, I, st, ty, label):
        """Result of reading one value"""
        k = method_of(self.p, DE, "deserialize", ty) if ty[0] == "adt" else None
        if k is not None:
            return I.run_fn(st, k, [leaf(lit("deserializer"))], {}, label + ">deserialize")
        v = self.take(I, st, "value", bare(ty))
        return self.end() if v is None else okay(v)

    def end(self):
        return E(D1, {0: (U,), 1: (leaf(lit("end of data")),)}, "Result")

    def visit(self, I, st, cal, v, vty, meth, arg):
        k = method_of(self.p, "serde::de::Visitor", meth, bare(vty))
        if k is None:
            raise Undecided("the visitor has no " + meth)
        return I.run_fn(st, k, [v, arg], {}, cal.label + ">" + meth)

    def seq(self, n):
        s = lit("seq", len(self.left))
        self.left[s.id] = n
        return leaf(s)

    def __call__(self, I, st, fr, cal, args):
        t, m = (cal.trait or "").split("::")[-1], cal.meth
        if t == "Deserializer":
            if m == "deserialize_struct":
                f = std.val(I, st, args[2])
                n = f.n if isinstance(f, V) else None
                if n is None or n.atom is not None:
                    raise Undecided("fields of a struct")
                return self.visit(I, st, cal, args[3], cal.atys[3], "visit_seq", self.seq(n))
            if m == "deserialize_tuple_struct":
                return self.visit(I, st, cal, args[3], cal.atys[3], "visit_seq", self.seq(args[2]))
            if m == "deserialize_tuple":
                return self.visit(I, st, cal, args[2], cal.atys[2], "visit_seq", self.seq(args[1]))
            if m == "deserialize_newtype_struct":
                return self.visit(I, st, cal, args[2], cal.atys[2], "visit_newtype_struct", leaf(lit("deserializer")))
            if m == "deserialize_enum":
                return self.visit(I, st, cal, args[3], cal.atys[3], "visit_enum", leaf(lit("enum")))
            if m == "deserialize_identifier":
                return self.visit(I, st, cal, args[1], cal.atys[1], "visit_u64", args[0])
            raise Undecided("Deserializer::" + m)
        if t == "SeqAccess" and m == "next_element":
            r = std.val(I, st, args[0])
            if not isinstance(r, DD) or r.atom is not None or r.leaf.id not in self.left:
                raise Undecided("sequence")
            n = self.left[r.leaf.id]
            if simp(eqn(n, D0)) is TRUE:
                return okay(E(D0, {0: (), 1: (U,)}, "Option"))
            self.left[r.leaf.id] = simp(sub(n, D1))
            ty = cal.targs[-1]
            v = self.value(I, st, ty, cal.label)
            if not isinstance(v, E):
                raise Undecided("a value is only read in some cases")
            return E(v.d, {0: (E(D1, {0: (), 1: v.v.get(0, (U,))}, "Option"),), 1: v.v.get(1, (UNIT,))}, "Result")
        if t == "EnumAccess" and m == "variant":
            x = self.take(I, st, "variant", None)
            if x is None:
                return self.end()
            k = method_of(self.p, DE, "deserialize", cal.targs[-1])
            if k is None:
                raise Undecided("variants")
            v = I.run_fn(st, k, [x], {}, cal.label + ">deserialize")
            if not isinstance(v, E):
                raise Undecided("variants")
            return E(v.d, {0: (S([v.v.get(0, (U,))[0], leaf(lit("variant"))]),), 1: v.v.get(1, (UNIT,))}, "Result")
        if t == "VariantAccess":
            if m == "unit_variant":
                return okay(UNIT)
            if m == "newtype_variant":
                return self.value(I, st, cal.targs[-1], cal.label)
            if m == "struct_variant" or m == "tuple_variant":
                n = args[1] if m == "tuple_variant" else std.val(I, st, args[1]).n
                return self.visit(I, st, cal, args[2], cal.atys[2], "visit_seq", self.seq(n))
            raise Undecided("VariantAccess::" + m)
        if t == "Deserialize" and m == "deserialize":
            return self.value(I, st, cal.targs[0], cal.label)
        return None


class Split(Exception):
    """whether an item is written or read depends on this"""


def certain(g, pre):
    if ite(pre, g, TRUE) is not TRUE:
        raise Split(g)


def prim(t):
    return t[0] == "prim" or t[0] == "adt" and t[1] in ("std::vec::Vec", "std::string::String")


def same(a, b):
    return a == b


def round_trip(K, ty, v, pre, depth=0):
    try:
        return trip(K, ty, v, pre)
    except Split as e:
        g = e.args[0]
        if depth > 3:
            raise Undecided("many cases of what is written")
    round_trip(K, ty, v, b_and(pre, g), depth + 1)
    round_trip(K, ty, v, b_and(pre, b_not(g)), depth + 1)


def trip(K, ty, v, pre):
    ws = method_of(K.p, SER, "serialize", ("adt", ty))
    rd = method_of(K.p, DE, "deserialize", ("adt", ty))
    W = Writer(K.p)
    W.pre = pre
    r = K.run(K.p.fns[ws]["path"], [("ref", v), leaf(lit("serializer"))], pre=pre, abstract=W)
    K.no_panic(r, pre=pre)
    K.true("it can be written", is_ok(r.ret), pre)
    RD = Reader(K, W.items)
    RD.pre = pre
    r = K.run(K.p.fns[rd]["path"], [leaf(lit("deserializer"))], pre=pre, abstract=RD)
    K.no_panic(r, pre=pre)
    K.true("what was written is accepted", is_ok(r.ret), pre)
    K.true("exactly the items that were written are read", TRUE if RD.at == len(W.items) else FALSE, pre)
    K.unchanged("what was written is read back", v, std.payload(r.ret, 0), pre)


def c23_codec(K):
    for ty in types(K.p):
        a = K.p.adts[ty]
        for x, vr in enumerate(a["v"]):
            def go(ty=ty, a=a, x=x):
                I = K.w.interp()
                I.pending = {}
                v = I.symtree(("adt", ty, ()), "value")
                if a["kind"] == "enum":
                    v = E(num(x), {x: v.v[x]}, v.tag)
                round_trip(K, ty, v, TRUE)
            K.block("stored form of %s%s" % (ty, "::" + vr["n"] if a["kind"] == "enum" else ""), go)
