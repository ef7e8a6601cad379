"""Powers of real algebraic numbers: the transcendental detour through log and exp.

Intervals keep enclosing ln(u), r*ln(u) and u^r for the ghost values u they enclose; u^r for a larger
base bounds u^r for r > 0.  A power u^r with a symbolic rational exponent is the term ("rpow", u, r)."""
from algebraic import *
from models import parity
from term import _atoms, NONINT
import algebraic
import math
import witness
from fractions import Fraction

NP = {"rpow", "ln"}


def pos_atom(I, st, x):
    """x = sign * u^m with u > 0 known positive: (sign, u, m), None when the domain cannot tell"""
    x = st.facts.norm(x)
    if not single(x):
        return None
    ((at, p2), c), = x.d.items()
    if p2 or abs(c) != 1 or len(at) != 1:
        return None
    a, m = at[0]
    A = Poly.atom(_atoms[a])
    sg = int(c)
    if _atoms[a][0] == "rpow":
        return sg, _atoms[a][1], _atoms[a][2].scale(m)
    if st.facts.positive(A):
        return sg, A, C(m)
    if st.facts.positive(-A):
        return sg * (-1) ** (m % 2), -A, C(m)
    return None


def rpow(st, u, r):
    r = st.facts.norm(r)
    k = r.as_const()
    if k is not None and k.denominator == 1 and abs(k) <= 6:
        return u.ipow(int(k)) if k >= 0 else u.inv().ipow(int(-k))
    a = ("rpow", st.facts.norm(u), r)
    NONINT.add(a)
    return Poly.atom(a)


def mk_rpow(I, st, u, r):
    w = rpow(st, u, r)
    I.add_fact(st, "gt", w)
    return w


def sympower(I):
    def h(s, x, k):
        d = pos_atom(I, s, x)
        if d is None:
            return None
        sg, u, m = d
        w = rpow(s, u, m * k)
        if sg > 0:
            return w
        odd = I.decide(s, parity(s.facts.norm(k))) if not isinstance(parity(s.facts.norm(k)), bool) else parity(s.facts.norm(k))
        if odd is None:
            return None
        return -w if odd else w
    return h


def ln(st, x):
    """ln of a positive term, with ln(u^m) = m ln(u)"""
    x = st.facts.norm(x)
    if single(x):
        ((at, p2), c), = x.d.items()
        if not p2 and len(at) == 1:
            a, m = at[0]
            if _atoms[a][0] == "rpow" and c == 1:
                return ln(st, _atoms[a][1]) * _atoms[a][2].scale(m)
            if c in (1, -1) and (c == 1 or m % 2):
                u = Poly.atom(_atoms[a]).scale(int(c))
                t = ("ln", u)
                NONINT.add(t)
                return Poly.atom(t).scale(m)
    t = ("ln", x)
    NONINT.add(t)
    return Poly.atom(t)


def real_fn(f, x):
    def h(ev):
        witness.APPROX[0] = True
        try:
            return Fraction(f(ev(x.L))), Fraction(f(ev(x.U)))
        except (ValueError, OverflowError):
            raise witness.Bad()
    return h


def c_log(I, st, fn, args, dt):
    if not is_iv_v(I, st, args[0]):
        return None
    iv = I.deref(st, args[0])
    out = []
    x = Iv(st, iv)
    for s, ok in I.branch(st, simp_c(("gt", x.lo))):
        if not ok:
            out.append((s, "panic", ("logarithm of an interval that is not positive", None)))
            continue
        x = Iv(s, iv)
        for g in list(I.ghosts):
            ghost(I, -s.facts.norm(g))
        gs = [s.facts.norm(g) for g in ghosts_in(I, s, iv)]
        for g in gs:
            I.add_fact(s, "gt", g)
        if s.facts.is_zero(x.hi - x.lo):
            gs.append(s.facts.norm(x.U))
        s2, v = derived_interval(I, s, iv, [ln(s, g) for g in gs if not has_ln(g)], real=(real_fn(math.log, x), (x.L, x.U)))
        if fn["nm"].endswith("assign"):
            I.store(s2, args[0], v)
            v = UNIT
        out.append((s2, "ret", v))
    return out


def has_ln(p):
    return any(_atoms[a][0] == "ln" for a in p.deep_atoms())


def exp_of(st, g):
    """u^r for g = r ln(u)"""
    g = st.facts.norm(g)
    if not single(g):
        return None
    ((at, p2), c), = g.d.items()
    if p2:
        return None
    ls = [(a, m) for a, m in at if _atoms[a][0] == "ln"]
    if len(ls) != 1 or ls[0][1] != 1:
        return None
    u = _atoms[ls[0][0]][1]
    return u, Poly({(tuple((a, m) for a, m in at if a != ls[0][0]), ()): c})


def c_exp(I, st, fn, args, dt):
    if not is_iv_v(I, st, args[0]):
        return None
    iv = I.deref(st, args[0])
    s = st.fork()
    gs = []
    for g in ghosts_in(I, s, iv):
        d = exp_of(s, g)
        if d:
            gs.append((d[0], d[1], mk_rpow(I, s, *d)))
    for u, r, w in gs:
        if not s.facts.positive(r):
            continue
        for t in I.target_terms + I.ghosts:
            t = s.facts.norm(t)
            for sg in (t, -t):
                d = pos_atom(I, s, sg)
                if d and d[0] == 1 and s.facts.is_zero(d[2] - r):
                    if s.facts.nonneg(u - d[1]):
                        I.add_fact(s, "ge", w - sg)
                    if s.facts.nonneg(d[1] - u):
                        I.add_fact(s, "ge", sg - w)
                elif d and d[0] == 1 and s.facts.is_zero(d[2] + r):
                    # d^-r = (1/d)^r
                    if s.facts.nonneg(u - d[1].inv()):
                        I.add_fact(s, "ge", w - sg)
    x = Iv(s, iv)
    s2, v = derived_interval(I, s, iv, [w for _, _, w in gs], real=(real_fn(math.exp, x), (x.L, x.U)))
    o = Iv(s2, v)
    # exp is positive
    I.add_fact(s2, "gt", o.hi)
    I.add_fact(s2, "ge", o.lo)
    if fn["nm"].endswith("assign"):
        I.store(s2, args[0], v)
        v = UNIT
    return ret(s2, v)


PCT = {DI + "::log": c_log, DI + "::into_log": c_log, DI + "::into_exp": c_exp, DI + "::exp": c_exp,
       DI + "::log_assign": c_log, DI + "::exp_assign": c_exp}


def c_is_integer(I, st, fn, args, dt):
    n = mnum(I, st, args[0])
    if n is None:
        return None
    s = st.fork()
    _, d = I.ratio_nd(s, n.p)
    return ret(s, Bool(cond_eq(d - C(1))))


def c_ipow(I, st, fn, args, dt):
    """the power of a non-zero base is not zero"""
    a, b = mnum(I, st, args[0]), mnum(I, st, args[1])
    if a is None or b is None:
        return None
    out = []
    for s, z in I.branch(st, cond_eq(st.facts.norm(a.p))):
        for s1, k0 in I.branch(s, cond_eq(s.facts.norm(b.p))):
            if z or k0:
                out.append((s1, "ret", Num(C(1 if k0 else 0), a.t)))
                continue
            w = ipow(I, s1, s1.facts.norm(a.p), s1.facts.norm(b.p))
            if s1.facts.positive(s1.facts.norm(a.p)):
                I.add_fact(s1, "gt", w)
            else:
                I.add_fact(s1, "ne", w)
            out.append((s1, "ret", Num(w, a.t)))
    return out


PCT["num_traits::Pow::pow"] = c_ipow
PCT["num_rational::Ratio::<T>::is_integer"] = c_is_integer


def ipow(I, s, b, k):
    c = s.facts.norm(k).as_const()
    if c is not None and 0 <= c <= 8:
        return b.ipow(int(c))
    return Poly.atom(("pow", s.facts.norm(b), s.facts.norm(k)))


MAXU = Poly.const((1 << 64) - 1) if hasattr(Poly, "const") else C((1 << 64) - 1)


def s_pow(I, st, a):
    p, e = a
    out = []
    for s, z in I.branch(st, cond_eq(st.facts.norm(e))):
        if z:
            for s2, pz in I.branch(s, cond_eq(s.facts.norm(p))):
                out.append((s2, ("none",) if pz else ("some", ("ran", C(1)))))
            continue
        for s2, pz in I.branch(s, cond_eq(s.facts.norm(p))):
            if pz:
                for s3, neg in I.branch(s2, simp_c(("gt", -s2.facts.norm(e)))):
                    out.append((s3, ("none",) if neg else ("some", ("ran", C(0)))))
                continue
            for s2, one in I.branch(s2, cond_eq(s2.facts.norm(e) - C(1))):
                if one:
                    out.append((s2, ("some", ("ran", s2.facts.norm(p)))))
                    continue
                for s2, one in I.branch(s2, cond_eq(s2.facts.norm(e) + C(1))):
                    if one:
                        out.append((s2, ("some", ("ran", inv(s2, p)))))
                        continue
                    out += pow_general(I, s2, p, e)
    return out


def pow_general(I, s2, p, e):
    out = []
    en, ed = I.ratio_nd(s2, s2.facts.norm(e))
    for s3, integer in I.branch(s2, cond_eq(s2.facts.norm(ed) - C(1))):
        big = [[(s3.facts.norm(x).scale(g) - MAXU, "gt")] for x in (en, ed) for g in (1, -1)]
        for s4, o in pow_nonzero(I, s3, p, e, en, ed, integer):
            out.append((s4, ("or_panic", o, big)))
    return out


def pow_nonzero(I, s, p, e, en, ed, integer):
    out = []
    q = s.facts.norm(p)
    for s1, one in I.branch(s, cond_eq(q - C(1))):
        if one:
            out.append((s1, ("some", ("ran", C(1)))))
            continue
        for s2, m1 in I.branch(s1, cond_eq(s1.facts.norm(p) + C(1))):
            if m1:
                if not integer:
                    out.append((s2, ("none",)))
                    continue
                for s3, odd in branch_parity(I, s2, en):
                    out.append((s3, ("some", ("ran", C(-1 if odd else 1)))))
                continue
            for s3, pos in I.branch(s2, simp_c(("gt", s2.facts.norm(p)))):
                if not pos:
                    I.add_fact(s3, "gt", -s3.facts.norm(p))
                if not integer:
                    out.append((s3, ("some", ("ran", mk_rpow(I, s3, s3.facts.norm(p), s3.facts.norm(e)))) if pos else ("none",)))
                    continue
                out += int_pow(I, s3, p, e, pos)
    return out


def branch_parity(I, s, n):
    c = parity(s.facts.norm(n))
    return [(s, c)] if isinstance(c, bool) else I.branch(s, c)


def int_pow(I, s, p, e, pos):
    out = []
    if True:
        if True:
            s2 = s
            for s3, irr in fork_irr(I, s2, p):
                E = s3.facts.norm(e)
                if irr:
                    if pos:
                        out.append((s3, ("some", ("ran", mk_rpow(I, s3, s3.facts.norm(p), E)))))
                        continue
                    for s4, odd in branch_parity(I, s3, E):
                        w = mk_rpow(I, s4, -s4.facts.norm(p), s4.facts.norm(e))
                        out.append((s4, ("some", ("ran", -w if odd else w))))
                    continue
                n, d = ratio_parts(I, s3, p)
                for s4, up in I.branch(s3, simp_c(("gt", E))):
                    k = s4.facts.norm(e) if up else -s4.facts.norm(e)
                    x, y = (n, d) if up else (d, n)
                    w = ipow(I, s4, s4.facts.norm(x), k) * ipow(I, s4, s4.facts.norm(y), k).inv()
                    out.append((s4, ("some", ("ran", w))))
    return out


RATIO = ("adt", "num_rational::Ratio", (BIGINT,))
EXPONENTS = [RATIO, BIGINT, ("prim", "i32"), ("prim", "u64"), ("ref", False, RATIO), ("adt", "num_rational::Ratio", (("prim", "i64"),))]
POWS = [M + "checked_pow", M + "checked_into_pow"]


def s_pow_op(I, st, a):
    """the operator panics where the checked form refuses"""
    def conv(o):
        if o[0] == "none":
            return ("panic",)
        if o[0] == "some":
            return o[1]
        if o[0] == "or_panic":
            q = conv(o[1])
            return q if q == ("panic",) else (o[0], q) + o[2:]
        return o
    return [(s, conv(o)) for s, o in s_pow(I, st, a)]


def pow_ops(P):
    return [k for k in P.fns if P.fns[k].get("name") == "pow" and (P.impl_of(k) or {}).get("trait") == "num_traits::Pow"
            and RAN in k.split(" as ")[0]]


def check_pow(ctx, item):
    key, et = item
    specs = build_specs(ctx.P)
    specs[key] = s_pow if key in POWS else s_pow_op
    g = ctx.P.generics(key)

    def prep(I):
        I.sympower = sympower(I)
    return check_fn(ctx, key, specs, extra=PCT, ta={g[-1]: et}, prep=prep)


def exponent_items(P):
    """every exponent type, generic ones at one instance"""
    out = []
    for k in P.fns:
        if P.fns[k].get("name") != "into_rational_exponent" or "::IntoRationalExponent>" not in k:
            continue
        g = P.generics(k)
        ta = {} if not g else {"T": RATIO} if g == ["T"] else dict(zip(g, (("prim", "i64"), BIGINT))) if len(g) == 2 else None
        if ta is not None:
            out.append((k, tuple(ta.items())))
    return out


def check_exponent(ctx, item):
    """the conversion keeps the exact value; a pair is the quotient and panics on a zero denominator"""
    key, ta = item
    ta = dict(ta)
    P = ctx.P
    I = AI(P, {})
    st = State()
    ty = P.norm(P.sub(P.ty(P.fns[key]["in"][0]), ta))
    if ty[0] == "tuple":
        n, d = I.sym(st, "n", ty[1][0]), I.sym(st, "d", ty[1][1])
        arg, zero, want = Agg(ty, 0, (n, d)), d.p, n.p * d.p.inv()
    else:
        arg, zero = I.sym(st, "e", ty), None
        want = st.facts.norm(I.deref(st, arg).p)
    for s, kind, v in run(ctx, I, st, key, [arg], ta):
        if kind == "panic":
            ctx.ob(any_of(s, [[(zero, "eq")]]) if zero is not None else refuted(s, []), key,
                   "converts every exponent that is defined", lazy(s))
            continue
        v = I.deref(s, v)
        if not isinstance(v, Num):
            ctx.undec(key, "result not tracked")
            continue
        ctx.ob(any_of(s, [[(s.facts.norm(v.p) - s.facts.norm(want), "eq")]]), key, "the exponent keeps its exact value",
               lazy(s, "got %s", v.p))
    return I


if __name__ == "__main__":
    ctx = Ctx("C10")
    import time
    for k in POWS + pow_ops(ctx.P):
        for et in EXPONENTS if k in POWS else EXPONENTS[:1]:
            t0 = time.time()
            nv, nu, no = len(ctx.violations), len(ctx.undecided), ctx.obligations
            I = check_pow(ctx, (k, et))
            print(k, et, ctx.obligations - no, "%.1f" % (time.time() - t0), dict(I.uninterp) if I else "")
            for v in ctx.violations[nv:]:
                print("     V", v[0].split(" :: ")[-1], "|", v[1][:160])
            for u in ctx.undecided[nu:]:
                print("     U", u[1][:160]) if nu < 9 else 0
