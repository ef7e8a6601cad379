"""Further library items: those a rewrite of the code is likely to reach for."""
from models import *
from models import model, ret, panic, num, some, none, okv, errv, simp, three_way, each, walk, by_ref, bools, it_arg, \
    vec_of, index_of, fits, trange, width, enum_model, OPT, RES, call_map, zero_guard, tdiv, is_ratio, into_iter

BSIGN = ("adt", "num_bigint::Sign", ())


@model("num_bigint::BigInt::magnitude")
def m_mag(I, st, fn, args, dt):
    n = num(I, st, args[0])
    if n is None:
        return None
    out = []
    for s, nn in I.branch(st, simp(("ge", n.p))):
        s = s.fork()
        out.append((s, "ret", I.alloc(s, Num(n.p if nn else -n.p, BIGUINT))))
    return out


@model("num_bigint::BigInt::into_parts")
def m_parts(I, st, fn, args, dt):
    n = num(I, st, args[0])
    if n is None:
        return None
    return [(s, "ret", Agg(("tuple", (BSIGN, BIGUINT)), 0,
                           (Agg(BSIGN, v.v, ()), Num(n.p if v.v else -n.p, BIGUINT))))
            for s, v in three_way(I, st, n.p, C(0))]


@model("num_bigint::BigInt::from_biguint")
def m_frombu(I, st, fn, args, dt):
    n = num(I, st, args[1])
    if n is None:
        return None
    return [(s, "ret", Num(n.p.scale(v - 1), BIGINT)) for s, v, _ in I.split(st, args[0])]


@model("num_traits::Signed::abs_sub")
def m_abs_sub(I, st, fn, args, dt):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    return [(s, "ret", Num(C(0) if le else a.p - b.p, a.t)) for s, le in I.branch(st, simp(("ge", b.p - a.p)))]


@model("num_integer::Integer::is_multiple_of", "num_integer::Integer::divides")
def m_mult(I, st, fn, args, dt):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    return zero_guard(I, st, b.p, fn, lambda s: ret(s, Bool(simp(("eq", canon_sign(
        s.facts.norm(a.p) - s.facts.norm(b.p) * floor(a.p * b.p.inv())))))))


@model("std::cmp::Ordering::then")
def m_then(I, st, fn, args, dt):
    return [(s, "ret", Agg(ORD_T, v, ()) if v != 1 else args[1]) for s, v, _ in I.split(st, args[0])]


@model("std::cmp::Ordering::then_with")
def m_then_with(I, st, fn, args, dt):
    out = []
    for s, v, _ in I.split(st, args[0]):
        out += ret(s, Agg(ORD_T, v, ())) if v != 1 else I.call_value(s, args[1], [])
    return out


@model("std::cmp::Ord::clamp")
def m_clamp(I, st, fn, args, dt):
    a, lo, hi = (num(I, st, x) for x in args)
    if a is None or lo is None or hi is None:
        return None
    out = []
    for s, bad in I.branch(st, simp(("gt", lo.p - hi.p))):
        if bad:
            out += panic(s, fn, "clamp with minimum above maximum")
            continue
        for s1, low in I.branch(s, simp(("gt", lo.p - a.p))):
            if low:
                out.append((s1, "ret", lo))
                continue
            for s2, high in I.branch(s1, simp(("gt", a.p - hi.p))):
                out.append((s2, "ret", hi if high else a))
    return out


def int_models(t):
    T = ("prim", t)
    pre = "core::num::<impl %s>::" % t
    lo, hi = trange(T)

    def one(f):
        def m(I, st, fn, args, dt):
            a = num(I, st, args[0])
            return None if a is None else f(I, st, fn, a.p, args, dt)
        return m

    def two(f):
        def m(I, st, fn, args, dt):
            a, b = num(I, st, args[0]), num(I, st, args[1])
            return None if a is None or b is None else f(I, st, fn, a.p, b.p)
        return m

    def sat(op):
        def f(I, st, fn, a, b):
            p = op(a, b)
            out = []
            for s, up in I.branch(st, simp(("gt", p - C(hi)))):
                if up:
                    out.append((s, "ret", Num(C(hi), T)))
                    continue
                for s2, dn in I.branch(s, simp(("gt", C(lo) - p))):
                    out.append((s2, "ret", Num(C(lo) if dn else p, T)))
            return out
        return f

    def wrap(op):
        def f(I, st, fn, a, b):
            p = st.facts.norm(op(a, b))
            out = []
            for s, ok in I.branch(st, fits(I, st, p, T)):
                m = C(hi - lo + 1)
                q = p if ok else p - m * floor((p - C(lo)) * m.inv())
                out.append((s, "ret", Num(q, T)))
            return out
        return f
    ops = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}
    for nm, op in ops.items():
        if nm != "mul":
            MODELS[pre + "saturating_" + nm] = two(sat(op))
        MODELS[pre + "wrapping_" + nm] = two(wrap(op))
    if t[0] == "u":
        UT = T
    else:
        UT = ("prim", "u" + t[1:])
        MODELS[pre + "is_negative"] = one(lambda I, st, fn, a, args, dt: ret(st, Bool(simp(("gt", -a)))))
        MODELS[pre + "is_positive"] = one(lambda I, st, fn, a, args, dt: ret(st, Bool(simp(("gt", a)))))
        MODELS[pre + "signum"] = one(lambda I, st, fn, a, args, dt: [
            (s, "ret", Num(C(v.v - 1), T)) for s, v in three_way(I, st, a, C(0))])
        MODELS[pre + "unsigned_abs"] = one(lambda I, st, fn, a, args, dt: [
            (s, "ret", Num(a if nn else -a, UT)) for s, nn in I.branch(st, simp(("ge", a)))])
    MODELS[pre + "abs_diff"] = two(lambda I, st, fn, a, b: [
        (s, "ret", Num(a - b if ge else b - a, UT)) for s, ge in I.branch(st, simp(("ge", a - b)))])

    def euclid(rem):
        def f(I, st, fn, a, b):
            def k(s):
                out = []
                for s2, pos in I.branch(s, simp(("gt", b))):
                    q = floor(a * b.inv()) if pos else ceil(a * b.inv())
                    out.append((s2, "ret", Num(a - b * q if rem else q, T)))
                return out
            return zero_guard(I, st, b, fn, k)
        return f
    MODELS[pre + "rem_euclid"] = two(euclid(True))
    MODELS[pre + "div_euclid"] = two(euclid(False))

    def chk_div(rem):
        def f(I, st, fn, a, b):
            out = []
            for s, z in I.branch(st, simp(("eq", canon_sign(b)))):
                if z:
                    out.append((s, "ret", none(T)))
                    continue
                for s2, q in tdiv(I, s, a, b):
                    for s3, ok in quotient_fits(I, s2, a, b, T):
                        out.append((s3, "ret", some(Num(a - b * q if rem else q, T), T) if ok else none(T)))
            return out
        return f
    MODELS[pre + "checked_div"] = two(chk_div(False))
    MODELS[pre + "checked_rem"] = two(chk_div(True))
    if t[0] == "i":
        def chk_neg(I, st, fn, a, args, dt):
            return [(s, "ret", some(Num(-a, T), T) if ok else none(T)) for s, ok in I.branch(st, fits(I, st, -a, T))]
        MODELS[pre + "checked_neg"] = one(chk_neg)


for _t in INTS:
    int_models(_t)


# ------------------------------------------------------------------ options and results
enum_model([OPT + "unwrap_or_default"], lambda I, s, fn, vi, fl, args, a:
           ret(s, fl[0]) if vi == 1 else I.call(s, {"p": "std::default::Default::default", "a": (I.P.norm(fn["a"][0]),),
                                                    "tr": "std::default::Default", "nm": "default", "l": False,
                                                    "span": fn.get("span")}, [], I.P.norm(fn["a"][0]), fn.get("span")))
enum_model([OPT + "xor"], lambda I, s, fn, vi, fl, args, a: [
    (s2, "ret", none() if vi == vj else (some(fl[0], I.vtype(fl[0])) if vi else some(fj[0], I.vtype(fj[0]))))
    for s2, vj, fj in I.split(s, args[1])])
enum_model([OPT + "and"], lambda I, s, fn, vi, fl, args, a: ret(s, args[1] if vi else none()))
enum_model([OPT + "zip"], lambda I, s, fn, vi, fl, args, a: [
    (s2, "ret", some(Agg(("tuple", (I.vtype(fl[0]), I.vtype(fj[0]))), 0, (fl[0], fj[0]))) if vi and vj else none())
    for s2, vj, fj in I.split(s, args[1])])
enum_model([RES + "unwrap_or"], lambda I, s, fn, vi, fl, args, a: ret(s, fl[0] if vi == 0 else args[1]))
enum_model([RES + "unwrap_err"], lambda I, s, fn, vi, fl, args, a:
           ret(s, fl[0]) if vi == 1 else panic(s, fn, "unwrap_err"))
enum_model([RES + "map_or"], lambda I, s, fn, vi, fl, args, a:
           ret(s, args[1]) if vi == 1 else I.call_value(s, args[2], [fl[0]]))
enum_model([RES + "or_else"], lambda I, s, fn, vi, fl, args, a:
           ret(s, okv(fl[0])) if vi == 0 else I.call_value(s, args[1], [fl[0]]))
enum_model([RES + "and"], lambda I, s, fn, vi, fl, args, a: ret(s, args[1] if vi == 0 else errv(fl[0])))


# ------------------------------------------------------------------ iterators
@model("std::iter::Iterator::take_while", "std::iter::Iterator::skip_while")
def m_take_while(I, st, fn, args, dt):
    take = fn["nm"] == "take_while"
    f = args[1]

    def go(s, xs):
        s = s.fork()
        fr = f if isinstance(f, Ref) else I.alloc(s, f)
        out = []
        cur = s
        states = [(s, 0)]
        for k, x in enumerate(xs):
            nxt = []
            for s2, _ in states:
                for s3, kind, v in I.call_value(s2, fr, by_ref(I, s2, None, x)):
                    if kind == "panic":
                        out.append((s3, kind, v))
                        continue
                    b = bools(I, s3, v)
                    if b is None:
                        return None
                    for s4, y in b:
                        if y:
                            nxt.append((s4, k + 1))
                        else:
                            out.append((s4, "ret", It("list", tuple(xs[:k] if take else xs[k:]))))
            states = nxt
        return out + [(s2, "ret", It("list", tuple(xs) if take else ())) for s2, _ in states]
    return each(I, st, args[0], go)


@model("std::iter::Iterator::flatten")
def m_flatten(I, st, fn, args, dt):
    return each(I, st, args[0], lambda s, xs: flat(I, s, xs, ()))


def flat(I, s, xs, acc):
    if not xs:
        return ret(s, It("list", acc))
    return each(I, s, xs[0], lambda s2, ys: flat(I, s2, xs[1:], acc + tuple(ys)))


@model("std::iter::Iterator::flat_map")
def m_flat_map(I, st, fn, args, dt):
    r = walk(I, st, args[0], args[1], lambda I, s, acc, x: [x], lambda s, acc, x, v: [(s, acc + (v,), False)],
             lambda s, a: It("list", a), ())
    if r is None:
        return None
    out = []
    for s, k, v in r:
        if k == "panic":
            out.append((s, k, v))
            continue
        y = flat(I, s, v.data, ())
        if y is None:
            return None
        out += y
    return out


@model("std::iter::Iterator::nth")
def m_nth(I, st, fn, args, dt):
    k = index_of(I, st, args[1])
    if k is None or not isinstance(args[0], Ref):
        return None

    def go(s, x):
        s = s.fork()
        I.store(s, args[0], It("list", tuple(x[k + 1:])))
        return ret(s, some(x[k], I.vtype(x[k])) if k < len(x) else none())
    return each(I, st, it_arg(I, st, args[0]), go)


@model("std::iter::DoubleEndedIterator::next_back")
def m_next_back(I, st, fn, args, dt):
    if not isinstance(args[0], Ref):
        return None

    def go(s, x):
        s = s.fork()
        I.store(s, args[0], It("list", tuple(x[:-1])))
        return ret(s, some(x[-1], I.vtype(x[-1])) if x else none())
    return each(I, st, it_arg(I, st, args[0]), go)


@model("std::iter::Iterator::inspect")
def m_inspect(I, st, fn, args, dt):
    return walk(I, st, args[0], args[1], by_ref, lambda s, acc, x, v: [(s, acc + (x,), False)],
                lambda s, a: It("list", a), ())


@model("std::iter::Iterator::try_for_each")
def m_try_for_each(I, st, fn, args, dt):
    def step(s, acc, x, v):
        out = []
        opt = isinstance(v, Agg) and v.t[1] == "std::option::Option"
        for s2, vi, fl in I.split(s, v):
            good = vi == 1 if opt else vi == 0
            out.append((s2, v if not good else acc, not good))
        return out
    opt = I.P.norm(dt)[1] == "std::option::Option" if dt else False
    return walk(I, st, it_arg(I, st, args[0]), args[1], lambda I, s, acc, x: [x], step,
                lambda s, a: some(UNIT) if opt else okv(UNIT), None)


@model("std::iter::Iterator::partition")
def m_partition(I, st, fn, args, dt):
    def step(s, acc, x, v):
        b = bools(I, s, v)
        return None if b is None else [(s2, (acc[0] + (x,), acc[1]) if y else (acc[0], acc[1] + (x,)), False) for s2, y in b]
    T = I.P.norm(dt)
    if T[0] != "tuple" or T[1][0][:2] != ("adt", "std::vec::Vec"):
        return None
    return walk(I, st, args[0], args[1], by_ref, step,
                lambda s, a: Agg(T, 0, (Lst(T[1][0], a[0]), Lst(T[1][1], a[1]))), ((), ()))


# ------------------------------------------------------------------ slices and vectors
@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_get(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst) or r is None:
        return None
    k = num(I, st, args[1])
    if k is None:
        return None
    c = index_of(I, st, args[1])
    if c is not None:
        return ret(st, some(Ref(r.cell, r.path + (("i", c),))) if c < len(v.items) else none())
    out = []
    cur = [st]
    for i in range(len(v.items)):
        nxt = []
        for s in cur:
            for s2, eq in I.branch(s, simp(("eq", canon_sign(k.p - C(i))))):
                if eq:
                    out.append((s2, "ret", some(Ref(r.cell, r.path + (("i", i),)))))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, "ret", none()) for s in cur]


@model("core::slice::<impl [T]>::swap")
def m_sswap(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    a, b = index_of(I, st, args[1]), index_of(I, st, args[2])
    if not isinstance(v, Lst) or r is None or a is None or b is None:
        return None
    if max(a, b) >= len(v.items):
        return panic(st, fn, "index out of bounds")
    x = list(v.items)
    x[a], x[b] = x[b], x[a]
    s = st.fork()
    I.store(s, r, Lst(v.t, tuple(x)))
    return ret(s, UNIT)


@model("std::vec::Vec::<T, A>::resize")
def m_resize(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    k = index_of(I, st, args[1])
    if not isinstance(v, Lst) or r is None or k is None:
        return None
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items[:k] + (args[2],) * max(0, k - len(v.items))))
    return ret(s, UNIT)


@model("std::vec::Vec::<T, A>::split_off")
def m_split_off(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    k = index_of(I, st, args[1])
    if not isinstance(v, Lst) or r is None or k is None:
        return None
    if k > len(v.items):
        return panic(st, fn, "index out of bounds")
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items[:k]))
    return ret(s, Lst(v.t, v.items[k:]))


@model("std::vec::Vec::<T, A>::as_slice", "std::vec::Vec::<T, A>::as_mut_slice")
def m_as_slice(I, st, fn, args, dt):
    return ret(st, args[0])


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::vec::Vec::<T, A>::reserve_exact")
def m_reserve(I, st, fn, args, dt):
    return ret(st, UNIT)


def split_end(first):
    def m(I, st, fn, args, dt):
        r, v = vec_of(I, st, args[0])
        if not isinstance(v, Lst) or r is None:
            return None
        if not v.items:
            return ret(st, none())
        s = st.fork()
        n = len(v.items)
        k = 0 if first else n - 1
        rest = I.alloc(s, Lst(v.t, v.items[1:] if first else v.items[:-1]))
        e = Ref(r.cell, r.path + (("i", k),))
        return ret(s, some(Agg(("tuple", (I.vtype(e), I.vtype(rest))), 0, (e, rest))))
    return m


MODELS["core::slice::<impl [T]>::split_first"] = split_end(True)
MODELS["core::slice::<impl [T]>::split_last"] = split_end(False)


@model("core::slice::<impl [T]>::contains")
def m_contains(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    n = num(I, st, args[1])
    if not isinstance(v, Lst) or n is None:
        return None
    out, cur = [], [st]
    for x in v.items:
        nxt = []
        for s in cur:
            y = num(I, s, x)
            if y is None:
                return None
            for s2, eq in I.branch(s, simp(("eq", canon_sign(y.p - n.p)))):
                if eq:
                    out.append((s2, "ret", Bool(True)))
                else:
                    nxt.append(s2)
        cur = nxt
    return out + [(s, "ret", Bool(False)) for s in cur]


def chunks(nm):
    def m(I, st, fn, args, dt):
        r, v = vec_of(I, st, args[0])
        k = index_of(I, st, args[1])
        if r is None or not isinstance(v, Lst) or not k:
            return None
        n = len(v.items)
        if nm == "windows":
            xs = [(i, i + k) for i in range(n - k + 1)]
        elif nm == "rchunks_exact" or nm == "rchunks":
            xs = [(max(0, e - k), e) for e in range(n, 0, -k)]
        else:
            xs = [(b, min(n, b + k)) for b in range(0, n, k)]
        if "exact" in nm:
            xs = [x for x in xs if x[1] - x[0] == k]
        return ret(st, It("list", tuple(Ref(r.cell, r.path + (("s",) + x,)) for x in xs)))
    return m


for _n in ("windows", "rchunks_exact", "rchunks", "chunks", "chunks_exact"):
    MODELS["core::slice::<impl [T]>::" + _n] = chunks(_n)


@model("std::iter::Iterator::try_fold")
def m_try_fold(I, st, fn, args, dt):
    dt = I.P.norm(dt) if dt else None
    if dt is None or dt[0] != "adt" or dt[1] not in ("std::option::Option", "std::result::Result"):
        return None
    good = 1 if dt[1] == "std::option::Option" else 0

    def step(s, acc, x, v):
        out = []
        for s2, vi, fl in I.split(s, I.deref(s, v)):
            out.append((s2, fl[0], False) if vi == good else (s2, Agg(dt, vi, tuple(fl)), True))
        return out
    return walk(I, st, it_arg(I, st, args[0]), args[2], lambda I, s, acc, x: [acc, x], step, lambda s, a: Agg(dt, good, (a,)), args[1])
