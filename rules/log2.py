"""Binary logarithms: floor_log2 / ceil_log2 of integers, intervals and algebraic numbers."""
from algebraic import *
import algebraic
import models

LOGS = ("floor_log2", "ceil_log2")


def log_goals(nm, x, r):
    """what r = floor/ceil(log2 x) means"""
    if nm.endswith("floor_log2"):
        return [(x - pow2(r), "ge"), (pow2(r + C(1)) - x, "gt")]
    return [(pow2(r) - x, "ge"), (x - pow2(r - C(1)), "gt")]


def check_log_value(ctx, key, I, s, v, nm, x):
    """v must be Some(floor/ceil(log2 x)) exactly when x > 0"""
    for s2, vi, f in I.split(s, v):
        if not feasible(s2):
            continue
        if vi == 0:
            ctx.ob(any_of(s2, [[(-x, "ge")]]), key, "refuses only values that are not positive", lazy(s2))
            continue
        ctx.ob(any_of(s2, [[(x, "gt")]]), key, "answers only for positive values", lazy(s2))
        r = I.deref(s2, f[0])
        if not isinstance(r, Num):
            ctx.undec(key, "result not tracked")
            continue
        rp = s2.facts.norm(r.p)
        for g, kind in log_goals(nm, x, rp):
            s3 = s2.fork()
            I.add_fact(s3, "gt", x)
            ctx.ob(any_of(s3, [[(s3.facts.norm(g), kind)]]), key, "the logarithm is the rounded binary logarithm",
                   lazy(s3, "argument %s, result %s", x, rp))


def check_int(ctx, key):
    P = ctx.P
    f = P.fns[key]
    I = AI(P, {})
    st = State()
    v = I.sym(st, "a0", P.norm(P.ty(f["in"][0])))
    n = I.deref(st, v)
    if not isinstance(n, Num):
        ctx.undec(key, "argument type")
        return
    x = n.p
    for s, kind, r in run(ctx, I, st, key, [v]):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "the logarithm does not panic", lazy(s, "panics: %s" % str(r[0])[:80].replace("%", "")))
            continue
        check_log_value(ctx, key, I, s, r, f["name"], s.facts.norm(x))


def c_integer_log2(I, st, fn, args, dt):
    """Some(e) with x = 2^e, or None when x is no power of two"""
    x = value(I, st, I.deref(st, args[0]))
    if x is None:
        return None
    t = ("prim", "i64")
    e = models.power_of_two(st.facts.norm(x))
    if e is not None:
        return ret(st, some(Num(e, t), t))
    s = st.fork()
    e = Poly.atom(("log2", st.facts.norm(x)))
    I.add_fact(s, "eq", x - pow2(e))
    return [(s, "ret", some(Num(e, t), t)), (st, "ret", none(t))]


def check_ran_log(ctx, key):
    P = ctx.P
    f = P.fns[key]
    specs = build_specs(P)
    for shape in SHAPES:
        I = AI(P, contracts_for(ctx, specs, key, {M + "to_integer_log2": c_integer_log2}))
        st = State()
        x, v = shape(I, st)
        st.cells[("d", "x")] = v
        arg = Ref(("d", "x"), ()) if P.norm(P.ty(f["in"][0]))[0] == "ref" else v
        for s, kind, r in run(ctx, I, st, key, [arg]):
            inv_signs(I, s)
            if not feasible(s):
                continue
            if kind == "panic":
                ctx.ob(refuted(s, []), key, "the logarithm does not panic", lazy(s, "panics: %s" % str(r[0])[:80].replace("%", "")))
                continue
            check_log_value(ctx, key, I, s, r, f["name"], s.facts.norm(x))
        ctx.used |= I.used


def check_exact_log(ctx, key):
    P = ctx.P
    f = P.fns[key]
    specs = build_specs(P)
    for shape in SHAPES:
        I = AI(P, contracts_for(ctx, specs, key))
        st = State()
        x, v = shape(I, st)
        st.cells[("d", "x")] = v
        pw = models.power_of_two(x)
        arg = Ref(("d", "x"), ()) if P.norm(P.ty(f["in"][0]))[0] == "ref" else v
        for s, kind, r in run(ctx, I, st, key, [arg]):
            inv_signs(I, s)
            if not feasible(s):
                continue
            if kind == "panic":
                ctx.ob(refuted(s, []), key, "the logarithm does not panic", lazy(s, "panics: %s" % str(r[0])[:80].replace("%", "")))
                continue
            for s2, vi, fs in I.split(s, r):
                if not feasible(s2):
                    continue
                if vi == 0:
                    ctx.ob(pw is None or refuted(s2, []), key, "powers of two have an integer logarithm", lazy(s2))
                    continue
                n = I.deref(s2, fs[0])
                if not isinstance(n, Num):
                    ctx.undec(key, "result not tracked")
                    continue
                n = s2.facts.norm(n.p)
                if pw is not None:
                    eq_ob(ctx, key, s2, n, s2.facts.norm(pw), "the integer logarithm of a power of two is its exponent")
                else:
                    alts = [[(s2.facts.norm(x) - pow2(n), "eq")]]
                    if s2.facts.bools.get(("irr", x)) is False:
                        num, den = (s2.facts.norm(y) for y in ratio_parts(I, s2, x))
                        alts.append([(num - den * pow2(n), "eq")])
                    ctx.ob(any_of(s2, alts), key, "an integer logarithm is exact", lazy(s2, "argument %s, result %s", x, n))
        ctx.used |= I.used


def sh_any(I, st):
    p = real("x")
    return p, mk_ran(I, st, p)


def sh_pow(sign):
    def h(I, st):
        e = Poly.atom(("sym", "e"))
        I.add_fact(st, "ge", e if sign > 0 else e - C(1))
        I.add_fact(st, "ge", C(1 << 62) - e)
        p = pow2(e.scale(sign))
        I.ratio_parts[p] = (p, C(1)) if sign > 0 else (C(1), pow2(e))
        st.facts = st.facts.add_bool(("irr", p), False)
        return p, mk_ran(I, st, p)
    return h


SHAPES = [sh_any, sh_pow(1), sh_pow(-1)]
RLOGS = [M + a + b for a in ("checked_", "into_checked_") for b in LOGS]


def items(ctx):
    P = ctx.P
    out = []
    for key, f in P.fns.items():
        imp = P.impl_of(key)
        if f.get("mir") is None or not imp:
            continue
        if imp.get("trait") in ("traits::FloorLog2", "traits::CeilLog2") and f["name"] in LOGS:
            out.append(("int", key))
    for k in RLOGS:
        if k in P.fns:
            out.append(("ran", k))
    if M + "to_integer_log2" in P.fns:
        out.append(("exact", M + "to_integer_log2"))
    return out


def work(ctx, item):
    {"int": check_int, "ran": check_ran_log, "exact": check_exact_log}[item[0]](ctx, item[1])


if __name__ == "__main__":
    import time
    ctx = Ctx("C10")
    for it in items(ctx):
        if len(sys.argv) > 1 and it[0] != sys.argv[1]:
            continue
        t0 = time.time()
        nv, nu, no = len(ctx.violations), len(ctx.undecided), ctx.obligations
        work(ctx, it)
        print(it, ctx.obligations - no, "%.1f" % (time.time() - t0))
        for v in ctx.violations[nv:]:
            print("     V", v[0].split(" :: ")[-1], "|", v[1][:300])
        for u in ctx.undecided[nu:][:3]:
            print("     U", u[1][:300])
