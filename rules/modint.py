"""C20: modular integers.  Layer 1: every ModularReduce method of every integer type (inherited defaults included)
returns the canonical residue.  Layer 2: every operation of ModularInteger over a generic value type, with layer 1
at its specification."""
from intervals import *
from models import ret, some, none, num
import models
from term import _atoms

MR = "mod_int::ModularReduce::"
MRP = "mod_int::ModularReducePow::pow_modular_reduce"
MI = "mod_int::ModularInteger"
PARAM_M = "M"


def mod(p, m):
    """canonical residue of p modulo m > 0"""
    return p - m * floor(p * m.inv())


class ModInterp(Interp):
    def __init__(self, prog, contracts=None, **kw):
        cs = {"mod_int::Modulus::to_modulus": c_modulus, "mod_int::Modulus::into_modulus": c_modulus,
              "std::cmp::PartialEq::eq": c_eq, "std::cmp::PartialEq::ne": c_ne}
        cs.update(contracts or {})
        super().__init__(prog, contracts=cs, **kw)
        self.overflow = True
        self.value_t = None

    def on_bool(self, s, term, v):
        if term[0] == "same modulus" and v:
            a, b = term[1]
            self.add_fact(s, "eq", self.modulus(s, a) - self.modulus(s, b))

    def modulus(self, st, term):
        p = self.mk(st, ("modulus", term), self.value_t).p
        self.add_fact(st, "ge", p - C(1))
        return p


def mod_term(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, Opq) and v.t[0] == "param" and v.t[2] == PARAM_M:
        return v.term
    return None


def c_modulus(I, st, fn, args, dt):
    t = mod_term(I, st, args[0])
    if t is None:
        return None
    st = st.fork()
    if I.value_t is None:
        I.value_t = I.P.norm(fn["a"][1])
    v = Num(I.modulus(st, t), I.value_t)
    if fn["nm"] == "to_modulus":
        v = Agg(("adt", "std::borrow::Cow", (I.value_t,)), 1, (v,))
    return ret(st, v)


def c_eq(I, st, fn, args, dt):
    a, b = mod_term(I, st, args[0]), mod_term(I, st, args[1])
    if a is None or b is None:
        return None
    if a == b:
        return ret(st, Bool(True))
    return ret(st, Bool(("b", ("same modulus", tuple(sorted((a, b), key=repr))))))


def c_ne(I, st, fn, args, dt):
    r = c_eq(I, st, fn, args, dt)
    return r and ret(st, Bool(cond_not(r[0][2].c)))


# ------------------------------------------------------------------ specification of ModularReduce
def expected(nm, a, b):
    """the exact integer the canonical residue of which method `nm` returns, or None"""
    if nm.startswith("modular_add_"):
        return a + b
    if nm.startswith("modular_sub_"):
        return a - b
    if nm.startswith("modular_mul_"):
        return a * b
    if nm.startswith("modular_neg_"):
        return -a
    if nm.startswith("modular_reduce"):
        return a
    return None


def reduced_args(nm):
    return not nm.startswith("modular_reduce")


def c_reduce(I, st, fn, args, dt):
    """a ModularReduce method on a generic value type, at its specification"""
    nm = fn["nm"]
    if not (fn["a"] and fn["a"][0][0] == "param"):
        return None
    t = mod_term(I, st, args[-1])
    ns = [num(I, st, a) for a in args[:-1]]
    if t is None or any(n is None for n in ns):
        return None
    st = st.fork()
    m = I.modulus(st, t)
    w = expected(nm, ns[0].p, ns[1].p if len(ns) > 1 else None)
    if w is None:
        return None
    if reduced_args(nm):
        for n in ns:
            if not (st.facts.nonneg(n.p) and (st.facts.nonneg(m - n.p - C(1)) or st.facts.nonneg(m - n.p - C(1), products=True))):
                I.unreduced.append((nm, st, n.p, m))
    v = Num(mod(st.facts.norm(w), m), fn["a"][0])
    if nm.endswith("_assign"):
        r = args[0]
        while isinstance(I.load(st, r), Ref):
            r = I.load(st, r)
        I.store(st, r, v)
        return ret(st, models.UNIT)
    return ret(st, v)


def c_pow(I, st, fn, args, dt):
    if not (fn["a"] and fn["a"][0][0] == "param"):
        return None
    t = mod_term(I, st, args[-1])
    a, e = num(I, st, args[0]), num(I, st, args[1])
    if t is None or a is None or e is None:
        return None
    st = st.fork()
    m = I.modulus(st, t)
    return ret(st, Num(mod(Poly.atom(("pow", a.p, e.p)), m), fn["a"][0]))


def c_extgcd(I, st, fn, args, dt):
    """g = a*x + b*y, g = gcd(a, b) >= 0 (zero only for two zeros)"""
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None or dt is None or dt[0] != "adt":
        return None
    st = st.fork()
    u, v = st.facts.norm(a.p), st.facts.norm(b.p)
    g, x, y = (Poly.atom((h, u, v)) for h in ("igcd", "bezx", "bezy"))
    I.add_fact(st, "ge", g)
    I.add_fact(st, "eq", g - a.p * x - b.p * y)
    t = fn["a"][0]
    names = [n for n, _, _ in I.P.d["adts"][dt[1]]["variants"][0][1]]
    if sorted(names) != ["gcd", "x", "y"]:
        return None
    return ret(st, Agg(dt, 0, tuple(Num({"gcd": g, "x": x, "y": y}[n], t) for n in names)))


# ------------------------------------------------------------------ goals
def residue_ob(ctx, key, s, r, want, m, label=""):
    if not isinstance(r, Num):
        ctx.undec(key, "result not tracked")
        return
    f = s.facts
    p = f.norm(r.p)
    ctx.ob(any_of(s, [[(p, "ge"), (m - p, "gt")]]), key, "the result is reduced: between zero and the modulus" + label,
           lazy(s, "result %s", p))
    q = f.norm((want - p) * m.inv())
    ctx.ob(any_of(s, [[(f.norm(floor(q) - q), "eq")]]), key, "the result is congruent to the exact result" + label,
           lazy(s, "result %s, exact %s", p, want))


def exact_mod(ctx, key, s, r, want, m, label=""):
    """r is the canonical residue of want"""
    if isinstance(r, Num):
        if s.facts.is_zero(s.facts.norm(r.p - mod(s.facts.norm(want), m))):
            ctx.ob(True, key, "the result is the canonical residue of the exact result" + label)
            return
    residue_ob(ctx, key, s, r, want, m, label)


# ------------------------------------------------------------------ layer 1
def int_types(P):
    out = []
    for k, im, pats in P.by_trait.get("mod_int::ModularReduce", ()):
        out.append(pats[0])
    return out


def methods(P):
    return sorted(P.traits["mod_int::ModularReduce"]["items"])


def layer1_items(ctx):
    P = ctx.P
    out = []
    for t in int_types(P):
        for nm in methods(P):
            out.append(("reduce", t, nm))
        out += [("pow", t, e) for e in POW_TYPES]
    return out


def entry(P, t, nm):
    r = P.find_impl("mod_int::ModularReduce", (t,))
    key = r[1]["items"].get(nm)
    ta = dict(r[2])
    if key is None:
        key = P.traits["mod_int::ModularReduce"]["items"][nm][0]
        ta = {"Self": t}
    return key, ta


def tname(t):
    return t[1].rsplit("::", 1)[-1]


def check_reduce(ctx, t, nm):
    P = ctx.P
    key, ta = entry(P, t, nm)
    f = P.fns.get(key)
    if f is None or f.get("mir") is None:
        ctx.undec(key, "no body")
        return
    I = ModInterp(P)
    I.value_t = t
    st = State()
    args, ns = [], []
    for i, ti in enumerate(f["in"]):
        ty = P.norm(P.sub(P.ty(ti), ta))
        a = I.sym(st, "a%d" % i, ty)
        args.append(a)
        v = I.deref(st, a)
        if isinstance(v, Num):
            ns.append(v.p)
    mt = mod_term(I, st, args[-1])
    want = expected(nm, *(ns + [None, None])[:2]) if ns else None
    if mt is None or want is None:
        ctx.undec(key, "signature")
        return
    m = I.modulus(st, mt)
    if reduced_args(nm):
        for n in ns:
            I.add_fact(st, "ge", n)
            I.add_fact(st, "ge", m - n - C(1))
    label = " (for %s)" % tname(t)
    for s, kind, v in run(ctx, I, st, key, args, ta):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "no reduced operand panics" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        r = I.deref(s, args[0]) if nm.endswith("_assign") else I.deref(s, v)
        residue_ob(ctx, key, s, r, want, m, label)


POW_TYPES = [("prim", "usize"), ("adt", "num_bigint::BigUint", ()), ("prim", "u8"), ("prim", "i32")]


def exponents(ctx, t):
    top = 200 if ctx.tier == "thorough" else 36
    lo, hi = models.trange(t)
    es = set(range(top)) | {2 ** k + d for k in range(5, 64) for d in (-1, 0, 1)}
    if ctx.tier != "thorough":
        es = set(range(top)) | {2 ** k + d for k in (6, 7, 15, 31, 63) for d in (-1, 0, 1)}
    return sorted(e for e in es if hi is None or e <= hi)


def c_power_mul(I, st, fn, args, dt):
    """modular multiplication of values known to be powers of the base: exponents add"""
    return None


def check_pow(ctx, t, et):
    """constant exponents, generic base and modulus; products are tracked as powers of the base"""
    P = ctx.P
    r = P.find_impl("mod_int::ModularReducePow", (t, et))
    if r is None:
        return
    key = r[1]["items"]["pow_modular_reduce"]
    f = P.fns[key]
    ta = dict(r[2])
    ta["E"] = et
    label = " (for %s)" % tname(t)
    for e in exponents(ctx, et):
        I = ModInterp(P)
        I.value_t = t
        base = ("sym", "base")
        for nm in methods(P):
            I.contracts[MR + nm] = c_powers(base)
            k2, _ = entry(P, t, nm)
            I.contracts[k2] = c_powers(base)
        for n in ("BigInt", "BigUint"):
            I.contracts["num_bigint::%s::modpow" % n] = c_modpow(base)
        st = State()
        b = I.sym(st, "base", t).p
        st.cells[("d", "b")] = Num(b, t)
        st.cells[("d", "e")] = Num(C(e), et)
        marg = I.mk(st, ("sym", "m"), ("param", 1, PARAM_M))
        m = I.modulus(st, marg.term)
        for s, kind, v in run(ctx, I, st, key, [Ref(("d", "b"), ()), Ref(("d", "e"), ()), marg], ta):
            if kind == "panic":
                ctx.ob(refuted(s, []), key, "no exponent panics" + label,
                       lazy(s, "exponent %d panics: %s" % (e, str(v[0])[:80].replace("%", ""))))
                continue
            p = I.deref(s, v)
            if not isinstance(p, Num):
                ctx.undec(key, "result not tracked")
                continue
            k = power_of(s.facts.norm(p.p), b, m)
            ok = None if k is None else (k[1] and (k[0] == e))
            if ok is False:
                ok = pow_differs(k, e)
            ctx.ob(ok, key, "the result is the reduced power of the base" + label,
                   lambda e=e, k=k: "exponent %d: the code returns %s" % (e, "base^%s%s" % (k[0], " mod m" if k[1] else ", not reduced") if k else "?"))


def pow_differs(k, e):
    """base^k mod m (or base^k itself) differs from base^e mod m for some base and modulus"""
    j, red = k
    for m in range(1, 60):
        for b in range(0, 60):
            x = pow(b, j, m) if red else b ** min(j, 8)
            if x != pow(b, e, m):
                return False
    return None


def power_of(p, b, m):
    """(k, reduced) when p is base^k, or its residue"""
    if p == b:
        return (1, False)
    c = p.as_const()
    if c == 1:
        return (0, False)
    if len(p.d) == 1:
        (mon, co), = p.d.items()
        if co == 1 and not mon[1] and len(mon[0]) == 1 and mon[0][0][1] == 1:
            t = _atoms[mon[0][0][0]]
            if t[0] == "residue of power":
                return (t[1], True)
    return None


def c_modpow(base):
    def h(I, st, fn, args, dt):
        x, e, m = (num(I, st, a) for a in args)
        if x is None or e is None or m is None or m.p != Poly.atom(("modulus", ("sym", "m"))):
            return None
        k, c = power_of(x.p, Poly.atom(base), m.p), e.p.as_const()
        if k is None or c is None or c < 0:
            return None
        return ret(st, I.mk(st, ("residue of power", k[0] * int(c)), x.t))
    return h


def c_powers(base):
    def h(I, st, fn, args, dt):
        nm = fn["nm"]
        b = Poly.atom(base)
        ns = [num(I, st, a) for a in args[:-1]]
        md = I.deref(st, args[-1])
        t = mod_term(I, st, args[-1])
        if any(n is None for n in ns):
            return None
        m = Poly.atom(("modulus", ("sym", "m")))
        if t is None and not (isinstance(md, Num) and md.p == m):
            return None
        if nm.startswith("modular_mul_"):
            ks = [power_of(n.p, b, m) for n in ns]
            if any(k is None for k in ks):
                return None
            if not all(k[1] for k in ks):
                return None
            e = ks[0][0] + ks[1][0]
        elif nm in ("modular_reduce", "modular_reduce_assign"):
            k = power_of(ns[0].p, b, m)
            if k is None:
                return None
            e = k[0]
        else:
            return None
        st = st.fork()
        v = I.mk(st, ("residue of power", e), ns[0].t)
        I.add_fact(st, "ge", v.p)
        I.add_fact(st, "ge", m - v.p - C(1))
        if nm.endswith("_assign"):
            r = args[0]
            while isinstance(I.load(st, r), Ref):
                r = I.load(st, r)
            I.store(st, r, v)
            return ret(st, models.UNIT)
        return ret(st, v)
    return h


# ------------------------------------------------------------------ layer 2
class MV:
    """view of a ModularInteger value"""

    def __init__(self, I, s, v):
        self.ok = False
        v = I.deref(s, v)
        if isinstance(v, Agg) and is_mi(v.t) and len(v.f) == 2:
            a, b = v.f if mod_term(I, s, v.f[0]) is None else v.f[::-1]
            self.value = I.deref(s, a)
            self.mod = mod_term(I, s, b)
            self.ok = isinstance(self.value, Num) and self.mod is not None


def is_mi(t):
    return t[0] == "adt" and t[1].split("~")[0] == MI


GCD_C = {"traits::ExtendedGCD::extended_gcd": c_extgcd}


def layer2_items(ctx):
    P = ctx.P
    out = []
    for k, f in P.fns.items():
        if f.get("mir") is None or f["kind"] == "Closure" or not f.get("exported"):
            continue
        if "in" not in f or f["name"] in SKIP:
            continue
        tys = [peel(P.ty(t)) for t in f["in"]] + ([P.ty(f["out"])] if "out" in f else [])
        owner = P.impl_of(k)
        if k.startswith(MI + "::") or (owner and is_mi(peel(P.ty(owner["self"])))):
            out.append(("op", k))
    return out


SKIP = {"fmt", "hash", "clone", "assert_receiver_is_total_eq", "assert_fields_are_eq", "get_nonzero_reducing_factor",
        "coefficients_to_elements", "get_reduced_divisor", "reduce_divisor", "divisor_pow_usize"}
BIN = {"add": "+", "sub": "-", "mul": "*"}


def opname(nm):
    """(operation, form): form is op, assign, checked or checked_assign"""
    n, form = nm, "op"
    if n.startswith("checked_"):
        n, form = n[8:], "checked"
    if n.endswith("_assign"):
        n, form = n[:-7], "assign" if form == "op" else "checked_assign"
    return n, form


def cow_inner(t):
    if t[0] == "adt" and t[1] == "std::borrow::Cow":
        return t[2][-1]
    return None


def check_op(ctx, key):
    P = ctx.P
    f = P.fns[key]
    cows = any(cow_inner(P.ty(t)) for t in f["in"])
    for owned in (True, False) if cows else (True,):
        check_form(ctx, key, f, owned)


def check_form(ctx, key, f, owned):
    P = ctx.P
    nm = f["name"]
    I = ModInterp(P, dict(GCD_C), num_params={"V"})
    I.unreduced = []
    for m in methods(P):
        I.contracts[MR + m] = c_reduce
    I.contracts[MRP] = c_pow
    I.value_t = ("param", 0, "V")
    st = State()
    args, vals = [], []
    for i, ti in enumerate(f["in"]):
        raw = P.ty(ti)
        inner = cow_inner(raw)
        a = I.sym(st, "a%d" % i, P.norm(raw) if inner is None else P.norm(inner) if owned else ("ref", False, P.norm(inner)))
        v = I.deref(st, a)
        args.append(a if inner is None else Agg(raw, 1 if owned else 0, (a,)))
        vals.append(v)
        if isinstance(v, Agg) and is_mi(v.t):
            x = MV(I, st, v)
            if not x.ok:
                ctx.undec(key, "operand layout")
                return
            I.value_t = x.value.t
            m = I.modulus(st, x.mod)
            I.add_fact(st, "ge", x.value.p)
            I.add_fact(st, "ge", m - x.value.p - C(1))
    mis = [MV(I, st, v) for v in vals if isinstance(v, Agg) and is_mi(v.t)]
    same = None
    if len(mis) == 2:
        same = ("b", ("same modulus", tuple(sorted((mis[0].mod, mis[1].mod), key=repr))))
    op, form = opname(nm)
    spec = specification(ctx, I, st, key, nm, op, form, vals, mis)
    if spec is None:
        ctx.undec(key, "no specification for this operation")
        return
    for s, kind, v in run(ctx, I, st, key, args):
        ss = [s]
        if same is not None:
            ss = [(x) for x, _ in I.branch(s, same)]
        for s in ss:
            if feasible(s):
                outcome(ctx, I, s, key, kind, v, spec, form, args, mis, same)
    for nm2, s, p, m in I.unreduced:
        ctx.ob(any_of(s, [[(p, "ge"), (m - p, "gt")]]), key, "%s is given reduced operands" % nm2, lazy(s, "operand %s", p))


class Spec:
    """want: exact value; refuse: conditions under which the operation must refuse; kind: shape of the result"""

    def __init__(self, want=None, modulus=None, division=None, kind="mi", test=None, refuse=()):
        self.want, self.modulus, self.division, self.kind, self.test, self.refuse = want, modulus, division, kind, test, refuse


def specification(ctx, I, st, key, nm, op, form, vals, mis):
    a = mis[0].value.p if mis else None
    b = mis[1].value.p if len(mis) > 1 else None
    md = mis[0].mod if mis else None
    n = len(mis)
    if op in BIN and n == 2:
        return Spec({"add": a + b, "sub": a - b, "mul": a * b}[op], md)
    if op in ("div", "exact_div") and n == 2:
        return Spec(division=(a, b), modulus=md)
    if op == "inverse" and n == 1:
        return Spec(division=(C(1), a), modulus=md)
    if op in ("neg", "negate_element") and n == 1:
        s = Spec(-a, md)
        if nm == "negate_element":
            s.kind = "in place"
        return s
    if nm == "new" or nm.startswith("from"):
        v = vals[0]
        mt = None
        if nm == "from" and isinstance(v, Agg) and len(v.f) == 2:
            v, mt = I.deref(st, v.f[0]), mod_term(I, st, v.f[1])
        elif len(vals) == 2:
            mt = mod_term(I, st, vals[1])
        if mt is None or not isinstance(v, Num):
            return None
        return Spec(v.p, mt)
    if nm == "into" and n == 1:
        return Spec(a, md, kind="pair")
    if nm in ("value", "modulus") and n == 1:
        return Spec(a, md, kind=nm)
    if nm == "has_matching_moduli" and n == 2:
        return Spec(kind="same")
    if nm == "eq" and n == 2:
        return Spec(kind="bool", test=[(a - b, "eq")])
    if nm == "ne" and n == 2:
        return Spec(kind="notbool", test=[(a - b, "eq")])
    if nm in ("is_element_zero", "is_coefficient_zero") and n == 1:
        return Spec(kind="bool", test=[(a, "eq")])
    if nm in ("is_element_one", "is_coefficient_one") and n == 1:
        return Spec(kind="bool", test=[(a - C(1), "eq")])
    if nm.startswith("set_") and n == 1:
        return Spec(C(0) if nm.endswith("zero") else C(1), md, kind="in place")
    if nm.startswith("make_zero") and n == 1:
        return Spec(C(0), md)
    if nm.startswith("make_one") and n == 1:
        return Spec(C(1), md)
    if nm == "divisor_to_element" and n == 1:
        return Spec(C(1), md)
    if nm in ("make_coefficient",) and n == 1:
        return Spec(a, md)
    if nm == "coefficient_to_element" and n == 1:
        return Spec(a, md, kind="first")
    if nm in ("mul_element_by_usize", "mul_assign_element_by_usize") and n == 1:
        k = [v for v in vals if isinstance(v, Num)]
        if len(k) != 1:
            return None
        return Spec(a * k[0].p, md, kind="in place" if "assign" in nm else "mi")
    if nm == "element_pow_usize" and n == 1:
        k = [v for v in vals if isinstance(v, Num)]
        if len(k) != 1:
            return None
        return Spec(Poly.atom(("pow", a, k[0].p)), md)
    if nm == "require_matching_moduli":
        return Spec(kind="none")
    return None


def known(s, I, c):
    return I.decide(s, c)


def outcome(ctx, I, s, key, kind, v, spec, form, args, mis, same):
    """one trace of an operation against its specification"""
    match = True if same is None else I.decide(s, same)
    refusal = kind == "panic"
    if kind == "ret" and form.startswith("checked"):
        parts = I.split(s, v)
        err = 1 if form == "checked_assign" else 0
        for s2, vi, fs in parts:
            if not feasible(s2):
                continue
            if vi == err:
                refused(ctx, I, s2, key, spec, match, mis, "refuses")
                if form == "checked_assign":
                    now, was = MV(I, s2, args[0]), mis[0]
                    ctx.ob(now.ok and any_of(s2, [[(now.value.p - was.value.p, "eq")]]), key,
                           "a refused division leaves the receiver unchanged", lazy(s2))
            else:
                accepted(ctx, I, s2, key, spec, match, mis, args[0] if form == "checked_assign" else fs[0])
        return
    if refusal:
        if form.startswith("checked"):
            ctx.ob(refuted(s, []), key, "checked operations do not panic", lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
        else:
            refused(ctx, I, s, key, spec, match, mis, "panics")
        return
    if spec.kind == "none":
        ctx.ob(match is True, key, "different moduli are refused", lazy(s))
        return
    if spec.kind == "same":
        c = v.c if isinstance(v, Bool) else None
        if c is None:
            ctx.undec(key, "result not tracked")
            return
        for s2, tr in I.branch(s, c):
            ctx.ob(tr == (I.decide(s2, same) is True), key, "answers whether the moduli are equal", lazy(s2))
        return
    if spec.kind in ("bool", "notbool"):
        if not isinstance(v, Bool):
            ctx.undec(key, "result not tracked")
            return
        for s2, tr in I.branch(s, v.c):
            if not feasible(s2):
                continue
            if spec.kind == "notbool":
                tr = not tr
            m2 = match
            if same is not None:
                m2 = I.decide(s2, same)
            if m2 is False:
                ctx.ob(not tr or refuted(s2, []), key, "numbers with different moduli are not equal", lazy(s2))
                continue
            p = spec.test[0][0]
            if tr:
                ctx.ob(any_of(s2, [[(p, "eq")]]), key, "answers yes only when it holds", lazy(s2))
            else:
                ctx.ob(any_of(s2, [[(p, "ne")]]), key, "answers no only when it does not hold", lazy(s2))
        return
    target = v
    if form == "assign" or spec.kind == "in place":
        target = args[0]
    accepted(ctx, I, s, key, spec, match, mis, target)


def refused(ctx, I, s, key, spec, match, mis, how):
    if match is False:
        ctx.ob(True, key, "different moduli are refused")
        return
    if spec.division is None:
        ctx.ob(refuted(s, []), key, "nothing but different moduli is refused", lazy(s))
        return
    b = spec.division[1]
    m = I.modulus(s, mis[-1].mod)
    g = [a for a in (_atoms[x] for p in list(s.facts.ge) + list(s.facts.ne) + list(s.facts.gt) for x in p.deep_atoms()) if a[0] == "igcd"]
    alts = [[(b, "eq")]]
    for a in g:
        if a[1] == s.facts.norm(b) or a[1] == b:
            gp = Poly.atom(a)
            alts.append([(gp - C(1), "ne")])
    ctx.ob(any_of(s, alts), key, "only zero and divisors that share a factor with the modulus are refused", lazy(s))


def accepted(ctx, I, s, key, spec, match, mis, target):
    if match is False:
        ctx.ob(refuted(s, []), key, "different moduli are refused", lazy(s))
        return
    v = I.deref(s, target)
    f = s.facts
    if spec.kind == "first":
        v = I.deref(s, v.f[0]) if isinstance(v, Agg) and v.f else v
    if spec.kind == "pair" and isinstance(v, Agg) and len(v.f) == 2:
        val, mt = I.deref(s, v.f[0]), mod_term(I, s, v.f[1])
    elif spec.kind == "value":
        val, mt = v, spec.modulus
    elif spec.kind == "modulus":
        val, mt = None, mod_term(I, s, v)
    else:
        r = MV(I, s, v)
        if not r.ok:
            ctx.undec(key, "result not tracked")
            return
        val, mt = r.value, r.mod
    ctx.ob(mt == spec.modulus or (match is True and len(mis) == 2 and mt in (x.mod for x in mis)), key, "the result keeps the modulus", lazy(s))
    if val is None:
        return
    m = I.modulus(s, spec.modulus)
    if spec.division is None:
        exact_mod(ctx, key, s, val, f.norm(spec.want), f.norm(m))
        return
    a, b = spec.division
    p = s.facts.norm(val.p)
    ctx.ob(any_of(s, [[(p, "ge"), (m - p, "gt")]]), key, "the result is reduced: between zero and the modulus", lazy(s, "result %s", p))
    q = s.facts.norm((p * b - a) * m.inv())
    ok = integral(s, q, m, a)
    if ok is None:
        ok = any_of(s, [[(s.facts.norm(floor(q) - q), "eq")]])
    ctx.ob(ok, key, "quotient times divisor is congruent to the dividend", lazy(s, "result %s", p))


def integral(s, q, m, a):
    """q is an integer after using the Bezout equation g = b x + m y with g = 1"""
    from term import is_integer_valued, default_ints
    f = s.facts
    for cand in [q] + [f.norm(q + k * e * m.inv()) for e in f.eq for k in (C(1), C(-1), a, -a)]:
        if is_integer_valued(f.norm(cand), default_ints):
            return True
    return None


def C20(ctx):
    ctx.rules.append("abstract interpretation of every ModularReduce method for each integer type and of every "
                     "ModularInteger operation over a generic value type: the result is the canonical residue")
    ctx.parallel(layer1_items(ctx) + layer2_items(ctx), work)


def work(ctx, item):
    if item[0] == "reduce":
        check_reduce(ctx, item[1], item[2])
    elif item[0] == "pow":
        check_pow(ctx, item[1], item[2])
    elif item[0] == "op":
        check_op(ctx, item[1])
