"""Loops that only compute numbers, skipped: for questions the numbers cannot influence (C22).

A loop is quiet when it writes, besides locals of its function, nothing but f32 values, runs no operation that can fail
and leaves in one place only.  Its effect is over-approximated: every f32 it could write becomes an unknown, every
local it assigns becomes unusable."""
from .val import *
from .terms import *
from . import mir

# operations of the standard library that change nothing but an iterator they are called on
PLAIN = {"next", "into_iter", "iter", "iter_mut", "enumerate", "zip", "rev", "skip", "take", "step_by", "len", "index",
         "index_mut", "deref", "deref_mut", "min", "max", "clone", "abs", "exp", "sqrt", "powi", "mul_add", "add",
         "sub", "mul", "div", "rem", "neg", "add_assign", "sub_assign", "mul_assign", "div_assign", "eq", "ne", "lt",
         "le", "gt", "ge", "as_slice", "as_mut_slice", "borrow", "from", "into", "new"}
FLOAT = (("prim", "f32"), ("prim", "f64"))


def fn_of(o):
    return o[1].get("fn") if o[0] == "const" and isinstance(o[1], dict) else None


def quiet_block(I, f, body, b, inner, stack):
    bb = body["bbs"][b]
    fr = mir.Frame()
    fr.body, fr.env, fr.fn, fr.key, fr.label = body, {}, f, f["path"], "?"

    def writes(pl):
        return "*" not in pl[1:] or I.place_ty(fr, pl) in FLOAT
    for s in bb["s"]:
        if s[0] in ("=", "setd"):
            if not writes(s[1]):
                return False
        else:
            return False
    t = bb["t"]
    if t[0] in ("goto", "switch", "assert", "unreachable", "resume"):
        return True
    if t[0] == "drop":
        return True
    if t[0] == "ret":
        return inner
    if t[0] != "call" or not writes(t[3]):
        return False
    fn = fn_of(t[1])
    if fn is None:
        return False
    dty = I.place_ty(fr, t[3])
    if dty[0] == "adt" and dty[1] == "std::result::Result":
        return False
    key = fn.get("rkey") if fn.get("rlocal") else fn.get("key") if fn.get("local") and not fn.get("trait") else None
    if key is not None:
        return key in I.p.fns and quiet_fn(I, key, stack)
    name = fn.get("meth") or fn["n"].split("::")[-1]
    return not fn.get("local") and name in PLAIN


def quiet_fn(I, key, stack=()):
    memo = I.p.__dict__.setdefault("quiet", {})
    if key in stack:
        return False
    if key not in memo:
        f = I.p.fns[key]
        memo[key] = f["kind"] != "Closure" and all(
            quiet_block(I, f, f["body"], b, True, stack + (key,)) for b in I.p.succs(key).rpo)
    return memo[key]


def skip(I, fr, h, st):
    """edges behind the loop at h, or None when it has to be followed"""
    f, body = fr.fn, fr.body
    if body is not f.get("body"):
        return None
    nodes = fr.cfg.loops[h]
    out = {s for b in nodes for s in fr.cfg.succ[b] if s not in nodes and s not in fr.cfg.unreach}
    if len(out) != 1 or not all(quiet_block(I, f, body, b, False, ()) for b in nodes):
        return None
    used, assigned, borrowed = set(), set(), set()
    for b in nodes:
        for s in body["bbs"][b]["s"]:
            assigned.add(s[1][0])
            for p in mir.rv_places(s[2]) if s[0] == "=" else ():
                used.add(p[0])
                if s[2][0] in ("ref", "reborrow") and "*" not in p[1:] and s[2][1] is not False:
                    borrowed.add(p[0])
            for o in mir.rv_operands(s[2]) if s[0] == "=" else ():
                if o[0] != "const":
                    used.add(o[1][0])
        t = body["bbs"][b]["t"]
        ops = [t[1]] if t[0] in ("switch", "assert") else list(t[2]) if t[0] == "call" else []
        for o in ops:
            if o[0] != "const":
                used.add(o[1][0])
        if t[0] == "call":
            assigned.add(t[3][0])
    m = dict(st.m)
    for l in sorted(used | assigned | borrowed):
        c = "%s:%d" % (fr.label, l)
        v = m.get(c, U)
        if v is U:
            continue
        ty = I.p.ty(body["locals"][l], fr.env)
        if ty[0] == "ref" and ty[2] and isinstance(v, R):
            if v.p or v.c not in m:
                return None
            m[v.c] = forget(I, m[v.c], ty[1], "forgot!%s|%d|%s" % (fr.label, h, v.c))
        elif mutable(ty):
            return None
    for l in assigned | borrowed:
        c = "%s:%d" % (fr.label, l)
        if m.get(c, U) is not U:
            ty = I.p.ty(body["locals"][l], fr.env)
            name = "forgot!%s|%d|%s" % (fr.label, h, c)
            if ty[0] == "prim":
                m[c] = I.skolem(ty, name)
            elif ty[0] == "tuple" and ty[1] and all(x[0] == "prim" for x in ty[1]):
                m[c] = S([I.skolem(x, "%s.%d" % (name, i)) for i, x in enumerate(ty[1])])
            else:
                m[c] = forget(I, m[c], ty, name) if l not in assigned and not has_int(ty) else U
    return [(out.pop(), mir.State(st.g, m))]


def has_int(ty):
    """numbers other than f32 directly in a local could be changed by a plain operation (an iterator that moves on)"""
    return not (ty[0] == "adt" and ty[1] in ("tensor::Tensor", "std::vec::Vec"))


def mutable(ty):
    if isinstance(ty, tuple):
        if ty and ty[0] == "ref" and len(ty) == 3 and ty[2] is True:
            return True
        if ty and ty[0] in ("closure", "other", "dyn", "param", "ptr"):
            return True
        if ty and ty[0] == "adt" and "Mut" in ty[1]:
            return True
        return any(mutable(x) for x in ty)
    return False


def forget(I, v, ty, name, r=0):
    """the value with unknown numbers"""
    if ty in FLOAT:
        return I.symtree(ty, name, r) if r else I.skolem(ty, name)
    if ty[0] == "prim":
        return v
    if isinstance(v, S) and ty[0] == "tuple":
        return S([forget(I, x, t, "%s.%d" % (name, i), r) for i, (x, t) in enumerate(zip(v.f, ty[1]))], v.tag)
    if isinstance(v, S) and ty[0] == "adt":
        a = I.p.adts.get(ty[1])
        if a and a["local"] and a["kind"] == "struct":
            return S([forget(I, x, I.p.ty(f["t"]), "%s.%s" % (name, f["n"]), r)
                      for x, f in zip(v.f, a["v"][0]["f"])], v.tag)
    if isinstance(v, V):
        e = ty[2][0] if ty[0] == "adt" and ty[2] else ty[1] if ty[0] in ("slice", "array") else None
        if e is not None:
            return V(v.n, forget(I, v.e, e, name + "[]", r + 1))
    return U
