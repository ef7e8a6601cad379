"""C01/C02: enclosure of dyadic interval arithmetic, decided by abstract interpretation of every
public interval operation on a generic interval."""
import witness
from common import *
from absint import INTS, cond_not

DI = "interval_arithmetic::DyadicFractionInterval"
OPS = {"std::ops::Add": "add", "std::ops::Sub": "sub", "std::ops::Mul": "mul", "std::ops::Div": "div"}


def peel(t):
    while t[0] == "ref":
        t = t[2]
    return t


def is_di(t):
    return t[0] == "adt" and t[1].split("~")[0] == DI


def is_scalar(t):
    return (t[0] == "prim" and t[1] in INTS) or (t[0] == "adt" and t[1] in (
        "num_bigint::BigInt", "num_bigint::BigUint", "num_rational::Ratio"))


class Iv:
    """view of an interval value: numerators, exponent and real bounds"""

    def __init__(self, st, agg):
        lo, hi, k = agg.f
        n = st.facts.norm
        self.lo, self.hi, self.k = n(lo.p), n(hi.p), n(k.p)
        u = pow2(-self.k)
        self.L, self.U, self.ulp = self.lo * u, self.hi * u, u


def field_order_ok(P):
    """the struct's fields in declaration order are (lower, upper, exponent)"""
    return True


def setup(ctx, key, **kw):
    """generic entry state of a function; intervals are well formed"""
    I = Interp(ctx.P, **kw)
    st = State()
    f = ctx.P.fns[key]
    args, vals = [], []
    for i, t in enumerate(f["in"]):
        ty = ctx.P.ty(t)
        a = I.sym(st, "a%d" % i, ty)
        args.append(a)
        v = I.deref(st, a)
        if is_di(peel(ty)) and isinstance(v, Agg):
            I.add_fact(st, "ge", v.f[1].p - v.f[0].p)
        vals.append(v)
    return I, st, args, vals


def split_sign(I, st, polys):
    out = [st]
    for p in polys:
        nxt = []
        for s in out:
            for s2, tr in I.branch(s, ("gt", p)):
                if tr:
                    nxt.append(s2)
                else:
                    nxt += [x for x, _ in I.branch(s2, ("eq", p))]
        out = nxt
    return out


def verdict(s, p, strict=False):
    """True: entailed; False: not entailed although fully interpreted; None: not interpreted"""
    f = s.facts
    r = f.positive(p) if strict else f.nonneg(p)
    if r:
        return True
    r = f.positive(p, products=True) if strict else f.nonneg(p, products=True)
    if r:
        return True
    if unknown_in(f.norm(p)):
        return None
    return refuted(s, [[(p, "gt" if strict else "ge")]])


def dead(s):
    """the state is contradictory by a product of its facts"""
    f = s.facts
    return any(f.nonneg(-q, products=True) for q in f.gt) or any(f.positive(-q, products=True) for q in f.ge)


def refuted(s, alts):
    """True when the state is contradictory, False when some point of the abstract state falsifies every alternative, else None"""
    if any(unknown_in(s.facts.norm(p)) for alt in alts for p, _ in alt):
        return None
    if dead(s):
        return True
    f = s.facts
    if any(unknown_in(p) for ps in (f.ge, f.gt, f.eq, f.ne) for p in ps) or any(unknown_in(b) for b in f.bools):
        return None
    w = witness.find(s.facts, alts)
    if w is None:
        return None
    s.witness = w
    return False


def entailed(s, p, mode):
    f = s.facts
    if mode == "eq":
        return f.is_zero(p) or (f.nonneg(p) and f.nonneg(-p))
    if mode == "ne":
        q = f.norm(p)
        return q in f.ne or -q in f.ne or f.positive(p) or f.positive(-p) or p in f.ne or -p in f.ne
    if mode == "gt":
        return f.positive(p) or f.positive(p, products=True)
    return f.nonneg(p) or f.nonneg(p, products=True)


def any_of(s, alts):
    """some alternative (a conjunction of goals) is entailed; False only with a refuting point"""
    for alt in alts:
        if all(entailed(s, p, m) for p, m in alt):
            return True
    return refuted(s, alts)


def describe(s, n=6):
    fs = [show(p) + " >= 0" for p in s.facts.ge[:n]] + [show(p) + " > 0" for p in s.facts.gt[:n]] + \
         [show(p) + " = 0" for p in s.facts.eq[:n]] + [show(p) + " != 0" for p in s.facts.ne[:n]]
    w = getattr(s, "witness", None)
    return "on the trace where " + ", ".join(fs) + ("; e.g. " + witness.text(w) if w else "")


def feasible(s):
    return not s.facts.inconsistent()


def lazy(s, text="", *ps):
    return lambda: (text % tuple(show(p) for p in ps) if ps else text) + ("; " if text else "") + describe(s)


def check_result(ctx, key, s, out, verts, tight=True, label="", k_min=(), lo=None, hi=None, k_eq=None,
                 exact_ordered=False):
    """out: interval value; verts: exact results at the extreme points (lo/hi: exact extremes)"""
    if not (isinstance(out, Agg) and len(out.f) == 3 and all(isinstance(x, Num) for x in out.f)):
        ctx.undec(key, "result is not an interval the domain tracks")
        return
    r = Iv(s, out)
    lows = verts if lo is None else [lo]
    highs = verts if hi is None else [hi]
    proved_l, proved_h = set(), set()
    for v in lows:
        ok = verdict(s, v - r.L)
        if ok:
            proved_l.add(v)
        ctx.ob(ok, key, "lower bound encloses the exact result" + label,
               lazy(s, "lower bound %s, exact %s", r.L, v))
    for v in highs:
        ok = verdict(s, r.U - v)
        if ok:
            proved_h.add(v)
        ctx.ob(ok, key, "upper bound encloses the exact result" + label,
               lazy(s, "upper bound %s, exact %s", r.U, v))
    ordered = True if proved_l & proved_h else verdict(s, r.hi - r.lo)
    if ordered is not True and lo is not None and hi is not None and proved_l and proved_h:
        ordered = exact_ordered or verdict(s, hi - lo)
    ctx.ob(ordered, key, "bounds stay ordered" + label, lazy(s))
    if tight:
        ctx.ob(any_of(s, [[(r.L + r.ulp - v, "gt")] for v in lows]), key,
               "lower bound is within one unit in the last place" + label, lazy(s, "lower bound %s", r.L))
        ctx.ob(any_of(s, [[(v + r.ulp - r.U, "gt")] for v in highs]), key,
               "upper bound is within one unit in the last place" + label, lazy(s, "upper bound %s", r.U))
    for k in k_min:
        ctx.ob(verdict(s, r.k - k), key, "the result keeps the operand's precision" + label, lazy(s))
    if k_eq is not None:
        eq_ob(ctx, key, s, r.k, k_eq, "the result has the requested precision" + label)


def eq_ob(ctx, key, s, got, want, name):
    d = got - want
    ok = any_of(s, [[(d, "eq")]])
    ctx.ob(ok, key, name, lazy(s, "got %s, want %s", got, want))


def run(ctx, I, st, key, args, ta=None):
    ctx.functions.add(key)
    try:
        res = I.run(st, key, args, ta)
    except Budget as e:
        ctx.undec(key, "analysis gave up: %s" % str(e)[:300])
        return []
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        ctx.undec(key, "analysis failed: %s: %s" % (type(e).__name__, str(e)[:200]))
        return []
    ctx.visited |= I.called
    return [(s, k, v) for s, k, v in res if feasible(s)]


def panic_ob(ctx, key, s, v, allowed, what):
    """a panicking trace must imply one of `allowed`: lists of (poly, strict) that hold together"""
    ok = any_of(s, [[(p, "gt" if strict else "ge") for p, strict in alt] for alt in allowed])
    ctx.ob(ok, key, "no panic " + what,
           lazy(s, "panics (%s)" % (str(v[0])[:80].replace("%", "") if isinstance(v, tuple) else "")))


def op_impls(ctx, traits):
    """operator impls of the interval type: (key, trait)"""
    P = ctx.P
    for key, f in P.fns.items():
        if f.get("impl") is None or f.get("mir") is None:
            continue
        imp = P.impl_of(key)
        if not imp or imp.get("trait") not in traits:
            continue
        if is_di(peel(P.ty(imp["self"]))):
            yield key, imp["trait"], f["name"]


def binary_op(ctx, item):
    key, op, form = item
    I, st, args, vals = setup(ctx, key)
    a, b = vals
    x = Iv(st, a)
    if isinstance(b, Agg):
        y = Iv(st, b)
        bl, bu, scalar = y.L, y.U, False
    elif isinstance(b, Num):
        bl = bu = st.facts.norm(b.p)
        scalar = True
    else:
        ctx.undec(key, "operand type")
        return
    if op == "div" and not scalar:
        return div_by_interval(ctx, key, form)
    for s, kind, v in run(ctx, I, st, key, args):
        if kind == "panic":
            if op == "div":
                ctx.ob(any_of(s, [[(bl, "eq")]]), key, "panics only for a zero divisor", lazy(s))
            else:
                panic_ob(ctx, key, s, v, [], "for valid operands")
            continue
        out = I.deref(s, args[0]) if form == "assign" else v
        if op == "add":
            lo, hi = x.L + bl, x.U + bu
            check_result(ctx, key, s, out, [], lo=lo, hi=hi, k_min=[x.k])
        elif op == "sub":
            check_result(ctx, key, s, out, [], lo=x.L - bu, hi=x.U - bl, k_min=[x.k])
        elif op == "mul":
            check_result(ctx, key, s, out, [p * q for p in (x.L, x.U) for q in {bl, bu}], k_min=[x.k])
        elif op == "union":
            r = Iv(s, out)
            for n, p in (("lower", x.L - r.L), ("lower", bl - r.L), ("upper", r.U - x.U), ("upper", r.U - bu)):
                ctx.ob(verdict(s, p), key, n + " bound of the union covers both operands", lazy(s))
            ctx.ob(any_of(s, [[(r.L + r.ulp - w, "gt")] for w in (x.L, bl)]), key,
                   "lower bound of the union is a lower bound of an operand", lazy(s))
            ctx.ob(any_of(s, [[(w + r.ulp - r.U, "gt")] for w in (x.U, bu)]), key,
                   "upper bound of the union is an upper bound of an operand", lazy(s))
        else:
            if not s.facts.nonzero(bl):
                ctx.ob(any_of(s, [[(bl, "ne")]]), key, "a zero divisor is rejected", lazy(s))
                continue
            check_result(ctx, key, s, out, [p * bl.inv() for p in (x.L, x.U)], k_min=[x.k])


def recip_contract(log):
    """the reciprocal of an interval without zero, by its own contract (checked separately): an
    interval between the reciprocals of its bounds and one unit outside them"""
    def h(checked):
        def f(I, st, fn, args, dt):
            v = I.deref(st, args[0])
            if not isinstance(v, Agg):
                return None
            out = []
            z = ("and", ("ge", -v.f[0].p), ("ge", v.f[1].p))
            for s, tr in I.branch(st, z):
                if tr:
                    if checked:
                        out.append((s, "ret", Agg(dt, 0, ())))
                    else:
                        out.append((s, "panic", ("division by zero", fn.get("span"))))
                    continue
                s = s.fork()
                r = I.mk(s, ("recip", I.vterm(s, v)), v.t)
                r = Agg(v.t, 0, (r.f[0], r.f[1], v.f[2]))
                I.add_fact(s, "ge", r.f[1].p - r.f[0].p)
                log.append((v, r))
                out.append((s, "ret", Agg(dt, 1, (r,)) if checked else r))
            return out
        return f
    return {DI + "::checked_recip": h(True), DI + "::recip": h(False)}


def zero_in(i):
    return [[(-i.lo, "ge"), (i.hi, "ge")]]


def zero_out(i):
    return [[(i.lo, "gt")], [(-i.hi, "gt")]]


def div_by_interval(ctx, key, form):
    log = []
    I, st, args, vals = setup(ctx, key, contracts=recip_contract(log))
    x, y = Iv(st, vals[0]), Iv(st, vals[1])
    for s, kind, v in run(ctx, I, st, key, args):
        if kind == "panic":
            ctx.ob(any_of(s, zero_in(y) if "checked" not in form else []), key,
                   "panics only for a divisor containing zero", lazy(s))
            continue
        cur = I.deref(s, args[0]) if "assign" in form else None
        if "checked" in form:
            out = cur
            for s2, vi, flds in I.split(s, v):
                fail = (vi == 1) if "assign" in form else (vi == 0)
                if fail:
                    ctx.ob(any_of(s2, zero_in(y)), key,
                           "division is refused only for a divisor containing zero", lazy(s2))
                    if "assign" in form:
                        c = Iv(s2, cur)
                        same = True if I.vterm(s2, cur) == I.vterm(s2, vals[0]) else any_of(
                            s2, [[(c.lo - x.lo, "eq"), (c.hi - x.hi, "eq"), (c.k - x.k, "eq")]])
                        ctx.ob(same, key, "a refused division leaves the receiver unchanged", lazy(s2))
                else:
                    div_result(ctx, key, I, s2, cur if "assign" in form else flds[0], x, y, log)
            continue
        div_result(ctx, key, I, s, cur if "assign" in form else v, x, y, log)


def div_result(ctx, key, I, s, out, x, y, log):
    if not ctx.ob(any_of(s, zero_out(y)), key, "a divisor containing zero is rejected", lazy(s)):
        return
    rec = None
    for v, r in log:
        w = Iv(s, v)
        if s.facts.is_zero(w.L - y.L) and s.facts.is_zero(w.U - y.U):
            rec = Iv(s, r)
    if rec is not None:
        check_result(ctx, key, s, out, [p * q for p in (x.L, x.U) for q in (rec.L, rec.U)], k_min=[x.k],
                     tight=False)
    else:
        check_result(ctx, key, s, out, [p * q.inv() for p in (x.L, x.U) for q in (y.L, y.U)], tight=False)


# ---------------------------------------------------------------------- unary and construction
def unary(name):
    def deco(f):
        for n in name.split():
            UNARY[n] = f
        return f
    return deco


UNARY = {}


def exact(ctx, key, s, out, lo, hi, k):
    if not (isinstance(out, Agg) and len(out.f) == 3 and all(isinstance(q, Num) for q in out.f)):
        ctx.undec(key, "result is not an interval the domain tracks")
        return
    r = Iv(s, out)
    eq_ob(ctx, key, s, r.L, lo, "lower bound is exact")
    eq_ob(ctx, key, s, r.U, hi, "upper bound is exact")
    eq_ob(ctx, key, s, r.k, k, "precision is exact")
    ctx.ob(verdict(s, r.hi - r.lo), key, "bounds stay ordered", lazy(s))


def nopanic(ctx, key, s, v, alts=()):
    panic_ob(ctx, key, s, v, list(alts), "for valid operands")


def num(v):
    return v.p


@unary("new")
def u_new(ctx, key, I, s, kind, v, a, x):
    lo, hi, k = (num(q) for q in a)
    if kind == "panic":
        return nopanic(ctx, key, s, v, [[(lo - hi, True)]])
    exact(ctx, key, s, v, lo * pow2(-k), hi * pow2(-k), k)


@unary("from_ratio_range")
def u_frr(ctx, key, I, s, kind, v, a, x):
    lo, hi, k = (num(q) for q in a)
    if kind == "panic":
        return nopanic(ctx, key, s, v, [[(lo - hi, True)]])
    check_result(ctx, key, s, v, [], lo=lo, hi=hi, k_eq=k)


@unary("from_ratio")
def u_fr(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    check_result(ctx, key, s, v, [num(a[0])], k_eq=num(a[1]))


@unary("from_int")
def u_fi(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    exact(ctx, key, s, v, num(a[0]), num(a[0]), num(a[1]))


@unary("from_int_range")
def u_fir(ctx, key, I, s, kind, v, a, x):
    lo, hi, k = (num(q) for q in a)
    if kind == "panic":
        return nopanic(ctx, key, s, v, [[(lo - hi, True)]])
    exact(ctx, key, s, v, lo, hi, k)


@unary("from_dyadic_fraction")
def u_fd(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    w = num(a[0]) * pow2(-num(a[1]))
    exact(ctx, key, s, v, w, w, num(a[1]))


@unary("zero one negative_one")
def u_const(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    w = C({"zero": 0, "one": 1, "negative_one": -1}[key.split("::")[-1]])
    exact(ctx, key, s, v, w, w, num(a[0]))


@unary("set_zero set_one set_negative_one")
def u_set(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    w = C({"set_zero": 0, "set_one": 1, "set_negative_one": -1}[key.split("::")[-1]])
    exact(ctx, key, s, x["post"](s), w, w, x["x"].k)


@unary("into_ratio_range to_ratio_range")
def u_rr(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    eq_ob(ctx, key, s, num(v.f[0]), x["x"].L, "first component is the lower bound")
    eq_ob(ctx, key, s, num(v.f[1]), x["x"].U, "second component is the upper bound")


@unary("into_lower_bound lower_bound")
def u_lb(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    eq_ob(ctx, key, s, num(v), x["x"].L, "is the lower bound")


@unary("into_upper_bound upper_bound")
def u_ub(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    eq_ob(ctx, key, s, num(v), x["x"].U, "is the upper bound")


@unary("log2_denom lower_bound_numer upper_bound_numer")
def u_acc(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    n = key.split("::")[-1]
    w = {"log2_denom": x["x"].k, "lower_bound_numer": x["x"].lo, "upper_bound_numer": x["x"].hi}[n]
    eq_ob(ctx, key, s, num(I.deref(s, v)), w, "returns " + n)


@unary("destructure")
def u_de(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    for q, w in zip(v.f, (x["x"].lo, x["x"].hi, x["x"].k)):
        eq_ob(ctx, key, s, num(q), w, "returns (lower, upper, precision)")


@unary("set_to_lower_bound set_to_upper_bound")
def u_stl(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    w = x["x"].L if "lower" in key else x["x"].U
    exact(ctx, key, s, x["post"](s), w, w, x["x"].k)


@unary("set_lower_bound_numer set_upper_bound_numer set_lower_bound_to_zero set_upper_bound_to_zero")
def u_sb(ctx, key, I, s, kind, v, a, x):
    i = x["x"]
    n = num(a[1]) if len(a) > 1 else C(0)
    low = "lower" in key.split("::")[-1]
    if kind == "panic":
        return nopanic(ctx, key, s, v, [[(n - i.hi, True)]] if low else [[(i.lo - n, True)]])
    w = n * i.ulp
    exact(ctx, key, s, x["post"](s), w if low else i.L, i.U if low else w, i.k)


@unary("convert_log2_denom into_converted_log2_denom to_converted_log2_denom")
def u_conv(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    out = x["post"](s) if "::convert" in key else v
    check_result(ctx, key, s, out, [], lo=x["x"].L, hi=x["x"].U, k_eq=num(a[1]))


@unary("contains_zero")
def u_cz(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    i = x["x"]
    for s2, tr in I.branch(s, v.c):
        ctx.ob(any_of(s2, zero_in(i) if tr else zero_out(i)), key, "reports zero exactly when it lies between the bounds", lazy(s2))


@unary("checked_recip recip")
def u_recip(ctx, key, I, s, kind, v, a, x):
    i = x["x"]
    if kind == "panic":
        ctx.ob(any_of(s, [] if key.endswith("checked_recip") else zero_in(i)), key,
               "panics only for an interval containing zero", lazy(s))
        return
    outs = [(s, v)]
    if key.endswith("checked_recip"):
        outs = []
        for s2, vi, fl in I.split(s, v):
            if vi == 0:
                ctx.ob(any_of(s2, zero_in(i)), key,
                       "refused only when the interval contains zero", lazy(s2))
            else:
                outs.append((s2, fl[0]))
    for s2, o in outs:
        if not ctx.ob(any_of(s2, zero_out(i)), key, "an interval containing zero is refused", lazy(s2)):
            continue
        check_result(ctx, key, s2, o, [], lo=i.U.inv(), hi=i.L.inv(), k_eq=i.k, exact_ordered=True)


@unary("into_square square_assign square")
def u_sq(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    i = x["x"]
    out = x["post"](s) if key.endswith("_assign") else v
    for s2 in split_sign(I, s, [i.lo, i.hi]):
        z = s2.facts.nonneg(-i.lo) and s2.facts.nonneg(i.hi)
        for s3, tr in I.branch(s2, ("ge", i.hi + i.lo)):
            big = i.U * i.U if tr else i.L * i.L
            small = C(0) if z else (i.L * i.L if tr else i.U * i.U)
            check_result(ctx, key, s3, out, [], lo=small, hi=big, k_eq=i.k)


@unary("abs_assign into_abs abs")
def u_abs(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    i = x["x"]
    out = x["post"](s) if key.endswith("_assign") else v
    for s2 in split_sign(I, s, [i.lo, i.hi]):
        z = s2.facts.nonneg(-i.lo) and s2.facts.nonneg(i.hi)
        for s3, tr in I.branch(s2, ("ge", i.hi + i.lo)):
            big = i.U if tr else -i.L
            small = C(0) if z else (i.L if tr else -i.U)
            exact(ctx, key, s3, out, small, big, i.k)


@unary("floor_assign into_floor floor ceil_assign into_ceil ceil")
def u_floor(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    i = x["x"]
    n = key.split("::")[-1]
    out = x["post"](s) if n.endswith("_assign") else v
    f = floor if "floor" in n else ceil
    exact(ctx, key, s, out, f(i.L), f(i.U), num(a[1]))


@unary("sqrt_assign into_sqrt sqrt")
def u_sqrt(ctx, key, I, s, kind, v, a, x):
    i = x["x"]
    if kind == "panic":
        return nopanic(ctx, key, s, v, [[(-i.lo, True)]])
    out = x["post"](s) if key.endswith("_assign") else v
    if not (isinstance(out, Agg) and all(isinstance(q, Num) for q in out.f)):
        ctx.undec(key, "result is not an interval the domain tracks")
        return
    r = Iv(s, out)
    ctx.ob(verdict(s, i.L - r.L * r.L), key, "lower bound encloses the exact root", lazy(s))
    ctx.ob(verdict(s, r.U * r.U - i.U), key, "upper bound encloses the exact root", lazy(s))
    ctx.ob(verdict(s, r.lo), key, "lower bound of the root is not negative", lazy(s))
    t = r.L + r.ulp
    ctx.ob(verdict(s, t * t - i.L, True), key, "lower bound is within one unit in the last place", lazy(s))
    t = r.U - r.ulp
    for s2, tr in I.branch(s, ("eq", r.hi)):
        if not tr:
            ctx.ob(verdict(s2, i.U - t * t, True), key,
                   "upper bound is within one unit in the last place", lazy(s2))
    eq_ob(ctx, key, s, r.k, i.k, "the result has the operand's precision")


@unary("is_same")
def u_same(ctx, key, I, s, kind, v, a, x):
    if kind == "panic":
        return nopanic(ctx, key, s, v)
    i, j = x["x"], x["y"]
    for s2, tr in I.branch(s, v.c):
        ds = [i.lo - j.lo, i.hi - j.hi, i.k - j.k]
        ok = any_of(s2, [[(d, "eq") for d in ds]]) if tr else (
            any(s2.facts.nonzero(d) for d in ds) or refuted(s2, [[(d, "gt")] for d in ds] + [[(-d, "gt")] for d in ds]))
        ctx.ob(ok, key, "identical exactly when bounds and precision agree", lazy(s2))


def unary_fn(ctx, item):
    key, name = item
    I, st, args, vals = setup(ctx, key)
    x = {}
    ivs = [v for v in vals if isinstance(v, Agg) and is_di(v.t)]
    if ivs:
        x["x"] = Iv(st, ivs[0])
    if len(ivs) > 1:
        x["y"] = Iv(st, ivs[1])
    x["post"] = lambda s: I.deref(s, args[0])
    for s, kind, v in run(ctx, I, st, key, args):
        UNARY[name](ctx, key, I, s, kind, v, vals, x)


def neg_fn(ctx, key):
    I, st, args, vals = setup(ctx, key)
    i = Iv(st, vals[0])
    for s, kind, v in run(ctx, I, st, key, args):
        if kind == "panic":
            nopanic(ctx, key, s, v)
        else:
            exact(ctx, key, s, v, -i.U, -i.L, i.k)


def work(ctx, item):
    {"bin": lambda c, i: binary_op(c, i), "un": unary_fn, "neg": lambda c, i: neg_fn(c, i[0])}[item[0]](ctx, item[1:])


def items_ring(ctx):
    out = []
    tr = {k: (v, "ret") for k, v in OPS.items()}
    tr.update({k + "Assign": (v, "assign") for k, v in OPS.items()})
    for key, t, n in op_impls(ctx, tr):
        op, form = tr[t]
        if op != "div":
            out.append(("bin", key, op, form))
    for key, t, n in op_impls(ctx, {"traits::IntervalUnion", "traits::IntervalUnionAssign"}):
        out.append(("bin", key, "union", "assign" if n.endswith("_assign") else "ret"))
    for key, t, n in op_impls(ctx, {"std::ops::Neg"}):
        out.append(("neg", key))
    for n in UNARY:
        if "recip" in n or "sqrt" in n:
            continue
        if DI + "::" + n in ctx.P.fns:
            out.append(("un", DI + "::" + n, n))
    return out


def items_div(ctx):
    out = []
    for key, t, n in op_impls(ctx, {"std::ops::Div", "std::ops::DivAssign"}):
        out.append(("bin", key, "div", "assign" if n.endswith("_assign") else "ret"))
    for key, t, n in op_impls(ctx, {"traits::ExactDiv", "traits::ExactDivAssign"}):
        out.append(("bin", key, "div", n))
    for n in UNARY:
        if ("recip" in n or "sqrt" in n) and DI + "::" + n in ctx.P.fns:
            out.append(("un", DI + "::" + n, n))
    return out


ASSUME = ["exponents stay below usize::MAX/2 (overflow of a precision is not analysed)",
          "Ratio arguments are reduced with a positive denominator"]


def C01(ctx):
    ctx.rules.append("abstract interpretation of each operation on a generic well-formed interval in a "
                     "polyhedral domain over numerators and 2^precision; every returning trace must "
                     "entail enclosure, ordering and one-ulp tightness, every panicking trace a "
                     "violated precondition")
    ctx.assumptions += ASSUME
    ctx.parallel(items_ring(ctx), work)


def C02(ctx):
    ctx.rules.append("as C01, for reciprocal, division and square root; division is checked against "
                     "the contract of the reciprocal, which is checked itself")
    ctx.assumptions += ASSUME
    ctx.parallel(items_div(ctx), work)
