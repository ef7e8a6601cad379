"""C21: the modulus types and their marker traits.  The value of every static modulus is computed by constant
propagation through its impls and compared with what its marker traits promise."""
import re
from modint import *
import modint

MT = "mod_int::"
FORM = {"to_modulus": "Modulus", "into_modulus": "Modulus", "get_modulus": "StaticModulus"}


def is_prime(n):
    return n >= 2 and all(n % d for d in range(2, int(n ** 0.5) + 1))


class SI(Interp):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.overflow = True


def unit_moduli(P):
    """the fieldless modulus types and the value types they are moduli of"""
    out = {}
    for k, i in P.d["impls"].items():
        if i.get("trait") != MT + "Modulus":
            continue
        t = P.ty(i["self"])
        if t[0] == "adt" and not t[2] and t[1] in P.d["adts"]:
            a = P.d["adts"][t[1]]
            if len(a["variants"]) == 1 and not a["variants"][0][1]:
                out.setdefault(t[1], []).append(P.ty(i["targs"][1]))
    return out


def has(P, tr, name, vt):
    for i in P.d["impls"].values():
        if i.get("trait") == MT + tr and P.ty(i["self"])[:2] == ("adt", name) and P.ty(i["targs"][1]) == vt:
            return i
    return None


def method(P, tr, name, vt, nm):
    i = has(P, tr, name, vt)
    if i is None:
        return None
    return i["items"].get(nm) or "mod_int::%s::%s" % (tr, nm)


def constant(I, s, v):
    v = I.deref(s, v)
    if isinstance(v, Agg) and v.t[0] == "adt" and v.t[1].endswith("Cow"):
        v = I.deref(s, v.f[0])
    if isinstance(v, Num):
        c = s.facts.norm(v.p).as_const()
        return None if c is None else int(c)
    return None


def call(ctx, key, selft, vt, with_self):
    P = ctx.P
    I = SI(P)
    st = State()
    f = P.fns.get(key)
    if f is None or f.get("mir") is None:
        return None, []
    args = []
    if with_self:
        v = Agg(selft, 0, ())
        if P.ty(f["in"][0])[0] == "ref":
            st.cells[("d", "self")] = v
            v = Ref(("d", "self"), ())
        args = [v]
    ta = {"Self": selft, "Value": vt} if P.impl_of(key) is None else None
    return I, run(ctx, I, st, key, args, ta)


def check_static(ctx, name):
    P = ctx.P
    selft = ("adt", name, ())
    m = re.search(r"(\d+)$", name)
    want = int(m.group(1)) if m else None
    for vt in unit_moduli(P)[name]:
        label = " (for %s)" % tname(vt)
        value = want
        for nm, tr in FORM.items():
            key = method(P, tr, name, vt, nm)
            if key is None:
                continue
            I, res = call(ctx, key, selft, vt, nm != "get_modulus")
            for s, kind, v in res:
                if kind == "panic":
                    ctx.ob(False, key, "the modulus exists in every value type" + label)
                    continue
                c = constant(I, s, v)
                if c is None:
                    ctx.undec(key, "value of the modulus not tracked" + label)
                    continue
                if value is None:
                    value = c
                ctx.ob(c == value, key, "%s::%s gives %s%s" % (name.split("::")[-1], nm, "the number in the type's name" if want is not None else "the same modulus", label), "gives %d" % c)
        if value is None:
            continue
        key = "<%s as %s>" % (name, "mod_int::Modulus")
        ctx.ob(value >= 1, key, "a modulus is positive" + label)
        if has(P, "OddModulus", name, vt):
            ctx.ob(value % 2 == 1, key, "a type marked as odd modulus is odd" + label, "value %d" % value)
        if has(P, "PrimeModulus", name, vt):
            ctx.ob(is_prime(value), key, "a type marked as prime modulus is prime" + label, "value %d" % value)
        k2 = method(P, "PrimePowerModulus", name, vt, "base_and_exponent")
        if k2:
            I, res = call(ctx, k2, selft, vt, True)
            for s, kind, v in res:
                if kind == "panic":
                    ctx.ob(False, k2, "base and exponent exist in every value type" + label)
                    continue
                v = I.deref(s, v)
                if not isinstance(v, Agg) or v.t[0] != "adt":
                    ctx.undec(k2, "result not tracked")
                    continue
                fs = dict(zip([n for n, _, _ in P.d["adts"][v.t[1]]["variants"][0][1]], v.f))
                b, e = constant(I, s, fs.get("base")), constant(I, s, fs.get("exponent"))
                if b is None or e is None:
                    ctx.undec(k2, "result not tracked")
                    continue
                ctx.ob(is_prime(b) and e >= 1 and b ** e == value, k2, "base and exponent give the modulus and the base is prime" + label,
                       "base %d, exponent %d, modulus %d" % (b, e, value))
                if has(P, "PrimeModulus", name, vt):
                    ctx.ob(e == 1, k2, "a prime modulus has exponent one" + label)


# ------------------------------------------------------------------ wrappers
def c_inner_pp(I, st, fn, args, dt):
    t = mod_term(I, st, args[0]) or inner_term(I, st, args[0])
    if t is None or dt is None or dt[0] != "adt":
        return None
    names = [n for n, _, _ in I.P.d["adts"][dt[1]]["variants"][0][1]]
    vals = {"base": Num(Poly.atom(("ppbase", t)), I.value_t), "exponent": Num(Poly.atom(("ppexp", t)), ("prim", "usize"))}
    if sorted(names) != ["base", "exponent"]:
        return None
    return ret(st, Agg(dt, 0, tuple(vals[n] for n in names)))


def inner_term(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, Opq) and v.t[0] == "param" and v.t[2] == "T":
        return v.term
    return None


def c_inner_modulus(I, st, fn, args, dt):
    if fn["nm"] == "get_modulus":
        t = ("static",)
        if fn["a"][0][0] != "param":
            return None
    else:
        t = inner_term(I, st, args[0])
    if t is None:
        return None
    v = Num(Poly.atom(("modulus", t)), I.value_t)
    if fn["nm"] == "to_modulus":
        v = Agg(("adt", "std::borrow::Cow", (I.value_t,)), 1, (v,))
    return ret(st, v)


def inner_of(I, st, v):
    """the wrapped modulus inside a wrapper value"""
    v = I.deref(st, v)
    t = inner_term(I, st, v)
    if t is not None:
        return t
    if isinstance(v, Agg) and len(v.f) == 1:
        return inner_of(I, st, v.f[0])
    return None


WRAP = {MT + "Modulus::to_modulus": c_inner_modulus, MT + "Modulus::into_modulus": c_inner_modulus,
        MT + "StaticModulus::get_modulus": c_inner_modulus, MT + "PrimePowerModulus::base_and_exponent": c_inner_pp}


def wrapper_items(P):
    out = []
    for k, i in P.d["impls"].items():
        if i.get("trait") in (MT + "Modulus", MT + "StaticModulus", MT + "PrimePowerModulus"):
            t = P.ty(i["self"])
            if t[0] == "ref" or (t[0] == "adt" and t[2]):
                out += list(i["items"].values())
    return out


def check_wrapper(ctx, key):
    P = ctx.P
    f = P.fns[key]
    I = Interp(P, contracts=dict(WRAP), num_params={"Value"})
    I.value_t = ("param", 0, "Value")
    st = State()
    args = [I.sym(st, "a%d" % i, P.norm(P.ty(t))) for i, t in enumerate(f["in"])]
    t = inner_of(I, st, args[0]) if args else ("static",)
    if t is None:
        ctx.undec(key, "wrapper layout")
        return
    m = Poly.atom(("modulus", t))
    prime = P.impl_of(key).get("preds") and any("T as mod_int::PrimePowerModulus" in p or "T as mod_int::PrimeModulus" in p for p in P.impl_of(key)["preds"])
    for s, kind, v in run(ctx, I, st, key, args):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "a wrapped modulus does not panic", lazy(s))
            continue
        v = I.deref(s, v)
        if f["name"] == "base_and_exponent":
            if not isinstance(v, Agg) or len(v.f) != 2:
                ctx.undec(key, "result not tracked")
                continue
            fs = dict(zip([n for n, _, _ in P.d["adts"][v.t[1]]["variants"][0][1]], (I.deref(s, x) for x in v.f)))
            if not all(isinstance(x, Num) for x in fs.values()):
                ctx.undec(key, "result not tracked")
                continue
            b, e = s.facts.norm(fs["base"].p), s.facts.norm(fs["exponent"].p)
            own = b == s.facts.norm(m) and e.as_const() == 1
            fwd = b == Poly.atom(("ppbase", t)) and e == Poly.atom(("ppexp", t))
            ctx.ob(own or fwd if not unknown_in(b) and not unknown_in(e) else None, key, "base and exponent describe the wrapped modulus", "base %s, exponent %s" % (show(b), show(e)))
            continue
        if isinstance(v, Agg) and v.t[0] == "adt" and v.t[1].endswith("Cow"):
            v = I.deref(s, v.f[0])
        if not isinstance(v, Num):
            ctx.undec(key, "result not tracked")
            continue
        eq_ob(ctx, key, s, s.facts.norm(v.p), m, "a wrapper has the modulus of what it wraps")


# ------------------------------------------------------------------ markers that need markers
def check_markers(ctx, _):
    """a wrapper carries a marker only when it asserts it itself or what it wraps carries it"""
    P = ctx.P
    asserts = {MT + "KnownPrime": {"PrimeModulus", "PrimePowerModulus"}, MT + "KnownOdd": {"OddModulus"}}
    implies = {"OddModulus": ("OddModulus", "OddPrimePowerModulus", "OddPrimeModulus"),
               "PrimeModulus": ("PrimeModulus", "OddPrimeModulus"),
               "PrimePowerModulus": ("PrimePowerModulus", "PrimeModulus", "OddPrimePowerModulus", "OddPrimeModulus")}
    for k, i in P.d["impls"].items():
        tr = (i.get("trait") or "").replace(MT, "")
        t = P.ty(i["self"])
        if tr in implies:
            if t[0] == "adt" and t[2] and tr not in asserts.get(t[1], ()):
                ctx.functions.add(k)
                ok = any("as mod_int::%s<" % n in p for n in implies[tr] for p in i["preds"])
                ctx.ob(ok, k, "the wrapped type must carry the marker", ", ".join(re.findall(r"<(\w+ as [\w:]+)", " ".join(i["preds"]))))
            elif t[0] == "param":
                ctx.functions.add(k)
                ctx.ob(False, k, "a marker is not given to every type")
        if tr in ("OddPrimePowerModulus", "OddPrimeModulus") and t[0] == "param":
            ctx.functions.add(k)
            need = ("PrimePowerModulus", "OddModulus") if tr == "OddPrimePowerModulus" else ("PrimeModulus", "Odd")
            ok = all(any("as mod_int::%s" % n in p for p in i["preds"]) for n in need)
            ctx.ob(ok, k, "a combined marker needs both markers")
        if (i.get("trait") or "").startswith("traits::AlwaysExactDiv") and is_mi(peel(t)):
            ctx.functions.add(k)
            ok = any("M as mod_int::PrimeModulus" in p or "M as mod_int::OddPrimeModulus" in p for p in i["preds"])
            ctx.ob(ok, k, "division of residues is always exact only for prime moduli")


def items(ctx):
    return [("static", n) for n in unit_moduli(ctx.P)] + [("wrap", k) for k in wrapper_items(ctx.P)] + [("markers", "")]


def work(ctx, item):
    {"static": check_static, "wrap": check_wrapper, "markers": check_markers}[item[0]](ctx, item[1])


def C21(ctx):
    ctx.rules.append("constant propagation through the impls of every static modulus type, compared with its name and marker traits; "
                     "value flow through the wrapper types; bounds of the marker impls")
    ctx.parallel(items(ctx), work)
