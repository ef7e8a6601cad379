"""C40: exact division, greatest common divisors and bit helpers of the integer types and ratios."""
from modint import *
from models import BIGINT, trange
import models

RATIO = ("adt", "num_rational::Ratio", (BIGINT,))
EXACT = {"traits::ExactDiv": False, "traits::ExactDivAssign": True}


class HI(Interp):
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.overflow = True


def number_self(P, imp):
    t = peel(P.ty(imp["self"]))
    if is_scalar(t):
        return t
    return None


def items(ctx):
    P = ctx.P
    out = []
    for key, f in P.fns.items():
        imp = P.impl_of(key)
        if f.get("mir") is None or not imp or number_self(P, imp) is None:
            continue
        tr = imp.get("trait")
        if tr in EXACT:
            out.append(("exact", key))
        elif tr in ("traits::GCD", "traits::ExtendedGCD"):
            out.append(("gcd", key))
        elif tr == "traits::TrailingZeros":
            out.append(("ctz", key))
    return out


def gcd_atom(h, u, v):
    """symmetric, and blind to the signs of its arguments"""
    def pos(p):
        k = min(p.d, default=None, key=repr)
        return -p if k is not None and p.d[k] < 0 else p
    u, v = sorted((pos(u), pos(v)), key=lambda p: repr(sorted(p.d.items(), key=repr)))
    return Poly.atom((h, u, v))


def int_gcd(nm):
    """num-integer's gcd family"""
    def h(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None:
            return None
        st = st.fork()
        u, v = st.facts.norm(a.p), st.facts.norm(b.p)
        t = a.t
        g, l = gcd_atom("igcd", u, v), gcd_atom("ilcm", u, v)
        I.add_fact(st, "ge", g)
        I.add_fact(st, "ge", l)
        if nm in ("gcd", "lcm"):
            return ret(st, Num(g if nm == "gcd" else l, t))
        if nm == "gcd_lcm":
            return ret(st, Agg(("tuple", (t, t)), 0, (Num(g, t), Num(l, t))))
        x, y = (Poly.atom((k, u, v)) for k in ("bezx", "bezy"))
        I.add_fact(st, "eq", g - a.p * x - b.p * y)
        et = dt
        if nm == "extended_gcd_lcm":
            if dt[0] != "tuple":
                return None
            et = I.P.norm(dt[1][0])
        if et[0] != "adt":
            return None
        e = Agg(et, 0, (Num(g, t), Num(x, t), Num(y, t)))       # num_integer::ExtendedGcd { gcd, x, y }
        return ret(st, e if nm == "extended_gcd" else Agg(dt, 0, (e, Num(l, t))))
    return h


INT_GCD = {"num_integer::Integer::" + n: int_gcd(n) for n in ("gcd", "lcm", "gcd_lcm", "extended_gcd", "extended_gcd_lcm")}


def check_gcd(ctx, key):
    P = ctx.P
    f = P.fns[key]
    I = HI(P, num_params={"T"}, contracts=dict(INT_GCD))
    st = State()
    args = [I.sym(st, "a%d" % i, P.norm(P.ty(t))) for i, t in enumerate(f["in"])]
    a, b = (I.deref(st, x) for x in args)
    if not isinstance(a, Num) or not isinstance(b, Num):
        ctx.undec(key, "operand types")
        return
    ratio = a.t[0] == "adt" and a.t[1] == "num_rational::Ratio"
    nm = f["name"]
    for s, kind, v in run(ctx, I, st, key, args):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic", lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        n = s.facts.norm
        if ratio:
            (na, da), (nb, db) = I.ratio_nd(s, a.p), I.ratio_nd(s, b.p)
            u, w, d = n(na * db), n(nb * da), n(da * db)
        else:
            u, w, d = n(a.p), n(b.p), C(1)
        g, l = gcd_atom("igcd", u, w) * d.inv(), gcd_atom("ilcm", u, w) * d.inv()
        v = I.deref(s, v)
        got = {nm: v}
        if isinstance(v, Agg) and v.t[0] == "adt":
            got = dict(zip([x for x, _, _ in P.d["adts"][v.t[1]]["variants"][0][1]], v.f))
        got = {k: I.deref(s, x) for k, x in got.items()}
        if not all(isinstance(x, Num) for x in got.values()):
            ctx.undec(key, "result not tracked")
            continue
        if "gcd" in got:
            r = got["gcd"].p
            ctx.ob(any_of(s, [[(n(r - g), "eq")], [(a.p, "eq"), (n(r * r - b.p * b.p), "eq")], [(b.p, "eq"), (n(r * r - a.p * a.p), "eq")]]),
                   key, "gives the greatest common divisor", lazy(s, "result %s", r))
        if "lcm" in got:
            r = got["lcm"].p
            ctx.ob(any_of(s, [[(n(r - l), "eq")], [(a.p, "eq"), (r, "eq")], [(b.p, "eq"), (r, "eq")]]),
                   key, "gives the least common multiple", lazy(s, "result %s", r))
        if "x" in got and "y" in got:
            r = n(got["gcd"].p - a.p * got["x"].p - b.p * got["y"].p)
            ctx.ob(any_of(s, [[(r, "eq")], [(n(r * d), "eq")]]), key, "the cofactors combine the operands to the divisor", lazy(s, "difference %s", r))


def check_exact(ctx, key):
    P = ctx.P
    f = P.fns[key]
    I = HI(P, num_params={"T"})
    st = State()
    args = [I.sym(st, "a%d" % i, P.norm(P.ty(t))) for i, t in enumerate(f["in"])]
    a, b = (I.deref(st, x) for x in args)
    if not isinstance(a, Num) or not isinstance(b, Num):
        ctx.undec(key, "operand types")
        return
    nm = f["name"]
    assign, checked = nm.endswith("assign"), nm.startswith("checked")
    integer = not (a.t[0] == "adt" and a.t[1] == "num_rational::Ratio")
    for s, kind, v in run(ctx, I, st, key, args):
        if kind == "panic":
            if checked:
                ctx.ob(refuted(s, []), key, "checked division does not panic", lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            else:
                refuse(ctx, s, key, a, b, integer)
            continue
        if not checked:
            quotient(ctx, I, s, key, args[0] if assign else v, a, b)
            continue
        for s2, vi, fs in I.split(s, v):
            if not feasible(s2):
                continue
            if vi == (1 if assign else 0):
                refuse(ctx, s2, key, a, b, integer)
                if assign:
                    now = I.deref(s2, args[0])
                    ctx.ob(isinstance(now, Num) and any_of(s2, [[(now.p - a.p, "eq")]]), key,
                           "a refused division leaves the receiver unchanged", lazy(s2))
            else:
                quotient(ctx, I, s2, key, args[0] if assign else fs[0], a, b)


def quotient(ctx, I, s, key, v, a, b):
    v = I.deref(s, v)
    if not isinstance(v, Num):
        ctx.undec(key, "result not tracked")
        return
    f = s.facts
    ctx.ob(any_of(s, [[(b.p, "ne")]]), key, "division by zero is refused", lazy(s))
    s3 = s
    if not f.nonzero(f.norm(b.p)):
        s3 = s.fork()
        I.add_fact(s3, "ne", b.p)
    f = s3.facts
    ctx.ob(any_of(s3, [[(f.norm(v.p * b.p - a.p), "eq")], [(f.norm(v.p - a.p * f.norm(b.p).inv()), "eq")]]), key, "quotient times divisor is the dividend",
           lazy(s3, "dividend %s, divisor %s, result %s", a.p, b.p, v.p))


def refuse(ctx, s, key, a, b, integer):
    f = s.facts
    alts = [[(b.p, "eq")]]
    if integer:
        bn = f.norm(b.p)
        if f.nonzero(bn):
            q = f.norm(a.p * bn.inv())
            alts += [[(f.norm(q - floor(q)), "ne")], [(f.norm(a.p - b.p * floor(q)), "ne")], [(f.norm(a.p + b.p * floor(-q)), "ne")]]
            lo, hi = trange(a.t)
            if lo is not None and lo < 0:
                alts.append([(a.p - C(lo), "eq"), (b.p + C(1), "eq")])
    ctx.ob(any_of(s, alts), key, "only division by zero, inexact division and overflow are refused" if integer else
           "only division by zero is refused", lazy(s, "dividend %s, divisor %s", a.p, b.p))


def work(ctx, item):
    {"exact": check_exact, "gcd": check_gcd}[item[0]](ctx, item[1])


def C40(ctx):
    ctx.parallel([i for i in items(ctx) if i[0] != "ctz"], work)
