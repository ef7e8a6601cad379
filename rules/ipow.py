"""C03: integer powers of intervals.  The loop over the exponent's bits is unrolled for each exponent of a list; the interval is
generic.  Enclosure is decided by relaxing the nested roundings monotonically to the exact power."""
from intervals import *
from models import BIGINT, width, trange
from term import _atoms

QUICK = list(range(-6, 14)) + [15, 16, 17, 31, 32, 33, -16, -17, 64, 100]
DEEP = list(range(-40, 80)) + [100, 127, 128, 129, 255, 256, 257, 1000, -64, -65, -100]


def atom_sign(s, a, depth=0):
    """1: atom >= 0, -1: atom <= 0, None"""
    at = _atoms[a]
    if at[0] == "floor":
        return poly_sign(s, at[1], depth + 1)
    p = Poly.atom(at)
    if s.facts.nonneg(p):
        return 1
    if s.facts.nonneg(-p):
        return -1
    return None


def mono_sign(s, m, c, depth):
    r = 1 if c > 0 else -1
    for a, e in m[0]:
        if e % 2:
            t = atom_sign(s, a, depth)
            if t is None:
                return None
            r *= t
    return r


def poly_sign(s, p, depth=0):
    if depth > 40:
        return None
    if not p.d:
        return 1
    if s.facts.nonneg(p):
        return 1
    if s.facts.nonneg(-p):
        return -1
    sg = {mono_sign(s, m, c, depth) for m, c in p.d.items()}
    if len(sg) == 1:
        return sg.pop()
    return None


def relax(s, p, up, depth=0):
    """a polynomial without (some of) the floors of p that is >= p (up) or <= p (not up); p itself when nothing is known"""
    if depth > 40:
        return p
    out = C(0)
    for m, c in p.d.items():
        mono = Poly({m: c})
        if not any(_atoms[a][0] == "floor" for a, e in m[0]):
            out = out + mono
            continue
        sg = mono_sign(s, m, c, depth)
        r = C(c) * Poly({((), m[1]): 1})
        ok = sg is not None
        if ok:
            bigger = (sg > 0) == up           # may the magnitude grow?
            for a, e in m[0]:
                at = _atoms[a]
                if at[0] != "floor":
                    r = r * Poly({(((a, e),), ()): 1})
                    continue
                ws = poly_sign(s, at[1], depth + 1)
                # |floor(w)| <= |w| when w >= 0 and |floor(w)| >= |w| when w <= 0
                if ws is None or e < 0 or e != int(e) or (ws > 0) != bigger:
                    r = r * Poly({(((a, e),), ()): 1})
                    continue
                w = relax(s, at[1], True, depth + 1)
                for _ in range(int(e)):
                    r = r * w
        out = out + (r if ok else mono)
    return out


def power(p, n):
    if n < 0:
        return power(p.inv(), -n)
    r = C(1)
    for _ in range(n):
        r = r * p
    return r


def bounded(ctx, s, key, goal_up, r, v, name, label):
    """r <= v (goal_up: the exact value bounds r from above) or r >= v"""
    f = s.facts
    w = f.norm(relax(s, r, goal_up))
    d = v - w if goal_up else w - v
    ok = f.nonneg(f.norm(d)) or poly_sign(s, f.norm(d)) == 1
    if not ok:
        d0 = v - r if goal_up else r - v
        ok = verdict(s, d0)
    ctx.ob(ok, key, name + label, lazy(s, "bound %s, exact %s", r, v))


class Probe:
    """collects obligations without reporting"""
    def __init__(self, ctx):
        self.P, self.tier, self.open, self.obs, self.discharged = ctx.P, ctx.tier, [], [], 0
        self.c = ctx

    def ob(self, ok, fn, name, detail="", where=None):
        self.obs.append((fn, name))
        if ok is not True:
            self.open.append((fn, name))
        return ok

    def undec(self, key, why):
        self.open.append((key, why))

    def __getattr__(self, n):
        return getattr(self.c, n)


def check_pow(ctx, key, e, et):
    if e >= 0:
        pow_body(ctx, key, e, et, False)
        if e > 1:
            pow_body(ctx, key, e, et, False, True)
        return
    pr = Probe(ctx)
    pow_body(pr, key, e, et, True)
    if not pr.open:
        for fn, name in pr.obs:
            ctx.ob(True, fn, name)
        return
    pow_body(ctx, key, e, et, False)        # not by the reciprocal's contract: decide on its body


def pow_body(ctx, key, e, et, by_contract, whole=False):
    P = ctx.P
    f = P.fns[key]
    log = []
    I = Interp(P, contracts=recip_contract(log)) if by_contract else Interp(P)
    st = State()
    ta = {"E": et}
    a = I.sym(st, "a0", P.norm(P.ty(f["in"][0])))
    v0 = I.deref(st, a)
    if not (isinstance(v0, Agg) and len(v0.f) == 3):
        ctx.undec(key, "operand layout")
        return
    if whole:
        # without fraction bits nothing is rounded
        v0 = Agg(v0.t, v0.v, (v0.f[0], v0.f[1], Num(C(0), v0.f[2].t)))
        if P.norm(P.ty(f["in"][0]))[0] == "ref":
            return
        a = v0
    I.add_fact(st, "ge", v0.f[1].p - v0.f[0].p)
    label = " (exponent %d)" % e
    for s0 in split_sign(I, st, [v0.f[0].p, v0.f[1].p]):
        if not feasible(s0):
            continue
        for s, kind, v in run(ctx, I, s0, key, [a, Num(C(e), et)], ta):
            x = Iv(s, v0)
            if kind == "panic":
                ctx.ob(any_of(s, zero_in(x)) if e < 0 else refuted(s, []), key,
                       "refuses only negative powers of an interval with zero" + label,
                       lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
                continue
            if e < 0:
                ctx.ob(any_of(s, zero_out(x)), key, "negative powers of an interval with zero are refused" + label, lazy(s))
            out = I.deref(s, v)
            if not (isinstance(out, Agg) and len(out.f) == 3 and all(isinstance(y, Num) for y in out.f)):
                ctx.undec(key, "result is not an interval the domain tracks")
                continue
            r = Iv(s, out)
            eq_ob(ctx, key, s, r.k, x.k, "the power keeps the precision" + label)
            if e == 0:
                eq_ob(ctx, key, s, r.L, C(1), "the zeroth power is one" + label)
                eq_ob(ctx, key, s, r.U, C(1), "the zeroth power is one" + label)
                continue
            if e == 1:
                eq_ob(ctx, key, s, r.L, x.L, "the first power is the interval itself" + label)
                eq_ob(ctx, key, s, r.U, x.U, "the first power is the interval itself" + label)
            y, n = x, e
            if by_contract:
                rec = [b for c, b in log if s.facts.is_zero(c.f[0].p - x.lo) and s.facts.is_zero(c.f[1].p - x.hi)]
                if not rec:
                    ctx.undec(key, "negative power not taken from the interval's reciprocal")
                    continue
                # the exact reciprocals lie in y by the reciprocal's contract (C02): enclosing y's power is enough
                y, n = Iv(s, rec[0]), -e
            for s2 in split_sign(I, s, [y.lo, y.hi]):
                if feasible(s2):
                    enclosure(ctx, s2, key, r, y, n, label, whole)


def enclosure(ctx, s, key, r, y, n, label, whole):
    f = s.facts
    pos, neg = f.nonneg(y.lo), f.nonneg(-y.hi)
    if n < 0 and not (pos or neg):
        return
    pl, ph = power(y.L, n), power(y.U, n)
    if pos or neg:
        # monotone on one side of zero
        rising = pos or n % 2 == 1
        low, high = ([pl], [ph]) if rising == (n > 0) else ([ph], [pl])
    elif n % 2:
        low, high = [pl], [ph]
    else:
        low, high = [C(0)], [pl, ph]
        if f.nonneg(y.hi + y.lo):
            high = [ph]
        elif f.nonneg(-y.hi - y.lo):
            high = [pl]
    if whole:
        w = low[0]
        eq_ob(ctx, key, s, r.L, f.norm(w), "powers without fraction bits are exact" + label)
        if len(high) == 1:
            eq_ob(ctx, key, s, r.U, f.norm(high[0]), "powers without fraction bits are exact" + label)
        return
    for w in low:
        bounded(ctx, s, key, True, r.L, f.norm(w), "lower bound encloses the exact power", label)
    for w in high:
        bounded(ctx, s, key, False, r.U, f.norm(w), "upper bound encloses the exact power", label)


def items(ctx):
    P = ctx.P
    out = []
    es = QUICK if ctx.tier == "quick" else DEEP
    for key, f in P.fns.items():
        imp = P.impl_of(key)
        if f.get("mir") is None or not imp or imp.get("trait") != "num_traits::Pow" or not is_di(peel(P.ty(imp["self"]))):
            continue
        ref = P.ty(imp["self"])[0] == "ref"
        for e in es if not ref or ctx.tier != "quick" else (-3, -2, -1, 0, 1, 2, 3, 6):
            out.append((key, e, BIGINT))
            if ctx.tier != "quick" or abs(e) < 6:
                out.append((key, e, ("prim", "i32")))
                if e >= 0:
                    out.append((key, e, ("prim", "u8")))
    return [i for i in out if trange(i[2]) == (None, None) or trange(i[2])[0] <= i[1] <= trange(i[2])[1]]


def C03(ctx):
    ctx.rules.append("abstract interpretation of Pow for intervals on a generic interval, the bit loop unrolled per exponent; nested roundings "
                     "are relaxed monotonically to the exact power")
    ctx.assumptions += ["one exponent at a time from a fixed list (quick: -6..13 and larger ones; thorough: -40..79 and larger ones)"]
    ctx.parallel(items(ctx), work)


def work(ctx, item):
    check_pow(ctx, *item)
