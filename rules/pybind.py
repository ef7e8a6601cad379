"""C70: the Python class.  Every method is interpreted on generic algebraic numbers with the operations of RealAlgebraicNumber at their
specifications (the obligations of C10-C13) and pyo3 at its documented behaviour, and must give the operation its name stands for."""
from algebraic import *
import log2

PY = "src/python.rs"
NUM = "python::RealAlgebraicNumberPy2"
OPS = ["Lt", "Le", "Eq", "Ne", "Gt", "Ge"]
I64 = ("prim", "i64")
M = RAN + "::"


def opt(p, t):
    """a value where the number is positive"""
    def h(I, st, fn, args, dt):
        v = value(I, st, I.deref(st, args[0]))
        if v is None:
            return None
        out = []
        for s, pos in I.branch(st, ("gt", v)):
            out.append((s, "ret", some(Num(Poly.atom((p, s.facts.norm(v))), t), t) if pos else none(t)))
        return out
    return h


def unwrapped(p, t):
    def h(I, st, fn, args, dt):
        r = opt(p, t)(I, st, fn, args, dt)
        return r and [(s, k, v.f[0]) if v.v == 1 else (s, "panic", ("undefined logarithm", fn.get("span"))) for s, k, v in r]
    return h


def c_pow(mode):
    def h(I, st, fn, args, dt):
        x = value(I, st, I.deref(st, args[0]))
        e = I.deref(st, args[1])
        if x is None:
            return None
        ep = e.p if isinstance(e, Num) else value(I, st, e)
        if ep is None:
            return None
        ep = st.facts.norm(ep)
        out = []
        for s, ok in fork_bool(I, st, ("has power", x, ep)):
            s = s.fork()
            if ok:
                v = mk_ran(I, s, power_of(x, ep))
                out.append((s, "ret", some(v, RAN_T) if mode == "checked" else v))
            elif mode == "checked":
                out.append((s, "ret", none(RAN_T)))
            else:
                out.append((s, "panic", ("undefined power", fn.get("span"))))
        return out
    return h


def power_of(x, e):
    a = ("real", ("power", x, e))
    NONINT.add(a)
    return Poly.atom(a)


def fork_bool(I, st, k):
    out = []
    for w in (True, False):
        s = st.fork()
        if s.facts.bools.get(k, w) == w:
            s.facts = s.facts.add_bool(k, w)
            out.append((s, w))
    return out


def c_threads(I, st, fn, args, dt):
    return I.call_value(st, args[1], [])


def c_err(I, st, fn, args, dt):
    return ret(st, Opq(("pyerr", fn["p"].split("::<")[0].rsplit("::", 2)[-2]), ("adt", "pyo3::PyErr", ())))


def c_isnone(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    return [(s, "ret", Bool(w)) for s, w in fork_bool(I, st, ("is none", I.vterm(st, v)))]


def c_extract(I, st, fn, args, dt):
    """a Python object converts to the wrapped class exactly where it is an instance, and to an integer exactly where it is one"""
    t = I.P.norm(dt)
    if t[0] != "adt" or not t[1].endswith("Result"):
        return None
    t = t[2][0]
    e = Opq(("pyerr", "conversion"), ("adt", "pyo3::PyErr", ()))
    out = []
    cls = t[0] == "adt" and (t[1].endswith("PyRef") or t[1].endswith("PyCell")) or t[0] == "ref" and t[2][0] == "adt" and t[2][1].endswith("PyCell")
    if not cls and t != BIGINT:
        return None
    for s, w in fork_bool(I, st, "is a number" if cls else "is an integer"):
        if w and s.facts.bools.get("is an integer" if cls else "is a number"):
            continue
        s = s.fork()
        out.append((s, "ret", okv((I.number if cls else Num(Poly.atom(("sym", "n")), BIGINT))) if w else errv(e)))
    return out


def c_ptr_eq(I, st, fn, args, dt):
    """the same allocation holds one number; different allocations can hold equal ones"""
    a, b = (value(I, st, inner(I, st, x)) for x in args)
    if a is None or b is None:
        return None
    out = [(st.fork(), "ret", Bool(False))]
    for s, w in I.branch(st, ("eq", a - b)):
        if w:
            out.append((s, "ret", Bool(True)))
    return out


def same(I, st, fn, args, dt):
    return ret(st, args[0])


def extra():
    ct = {}
    for n, p in (("floor", "floor log2"), ("ceil", "ceil log2")):
        ct[M + "checked_%s_log2" % n] = opt(p, I64)
        ct[M + "checked_into_%s_log2" % n] = opt(p, I64)
        ct[M + "%s_log2" % n] = unwrapped(p, I64)
        ct[M + "into_%s_log2" % n] = unwrapped(p, I64)
    ct[M + "checked_pow"] = ct[M + "checked_into_pow"] = c_pow("checked")
    # two shared numbers compare as what they share
    for n in ("eq", "cmp", "partial_cmp"):
        t = "std::cmp::" + {"eq": "PartialEq", "cmp": "Ord", "partial_cmp": "PartialOrd"}[n] + "::" + n
        ct[t] = chain(contract_of(cmp_spec(n)), CT.get(t, lambda *a: None))
    return ct


class BI(AI):
    """pyo3's items are recognised by the last parts of their path, which differs between its versions"""

    def call(self, st, fn, args, dest_t, span):
        p = fn["p"]
        if "pyo3::" in p:
            n = fn["nm"]
            h = None
            if n == "allow_threads":
                h = c_threads
            elif n == "new_err":
                h = c_err
            elif n == "is_none":
                h = c_isnone
            elif n == "extract" and "FromPyObject" not in p:
                h = c_extract
            elif n in ("borrow", "try_borrow") and len(args) == 1:
                h = same if n == "borrow" else None
            if h is not None:
                r = h(self, st, fn, args, dest_t)
                if r is not None:
                    return r
        if fn["nm"] == "ptr_eq" and len(args) == 2:
            r = c_ptr_eq(self, st, fn, args, dest_t)
            if r is not None:
                return r
        if fn["nm"] == "deref" and len(args) == 1 and fn.get("a") and str(fn["a"][0]).find("PyRef") >= 0:
            r = args[0]
            while isinstance(r, Ref) and isinstance(self.load(st, r), Ref):
                r = self.load(st, r)
            return ret(st, r)
        return super().call(st, fn, args, dest_t, span)


# method: outcomes [(state, outcome)] in terms of the operands in Python's order
def binary(f):
    def h(I, st, a):
        return [(st, ("ok", ("ran", f(*a))))]
    return h


def c_truediv(I, st, a):
    return [(s, ("ok", ("ran", a[0] * inv(s, a[1])))) if w else (s, ("err", "PyZeroDivisionError")) for s, w in I.branch(st, ("ne", a[1]))]


def powspec(I, st, a):
    out = []
    for s, w in fork_bool(I, st, ("is none", I.modulus)):
        if not w:
            out.append((s, ("err", "PyTypeError")))
            continue
        for s2, irr in fork_irr(I, s, a[1]):
            if irr:
                out.append((s2, ("err", "PyValueError")))
                continue
            x, e = s2.facts.norm(a[0]), s2.facts.norm(a[1])
            for s3, ok in fork_bool(I, s2, ("has power", x, e)):
                out.append((s3, ("ok", ("ran", power_of(x, e))) if ok else ("err", "PyValueError")))
    return out


def logspec(p):
    def h(I, st, a):
        return [(s, ("ok", ("num", Poly.atom((p, s.facts.norm(a[0]))))) if pos else ("err", "PyValueError")) for s, pos in I.branch(st, ("gt", a[0]))]
    return h


def swap(f):
    return lambda I, st, a: f(I, st, a[::-1])


def of(n):
    def h(I, st, a):
        return SPEC[M + n](I, st, a)
    return h


def recip(I, st, a):
    return [(s, ("ok", ("ran", inv(s, a[0]))) if w else ("err", "PyZeroDivisionError")) for s, w in I.branch(st, ("ne", a[0]))]


def to_rational(I, st, a):
    out = []
    for s, irr in fork_irr(I, st, a[0]):
        out.append((s, ("none",) if irr else ("some", ("pair",) + tuple(ratio_parts(I, s, a[0])))))
    return out


add, sub, mul = binary(lambda x, y: x + y), binary(lambda x, y: x - y), binary(lambda x, y: x * y)
METHODS = {
    "__add__": add, "__radd__": swap(add), "__sub__": sub, "__rsub__": swap(sub), "__mul__": mul, "__rmul__": swap(mul),
    "__truediv__": c_truediv, "__rtruediv__": swap(c_truediv), "__pow__": powspec, "__rpow__": swap(powspec),
    "__neg__": lambda I, st, a: [(st, ("ok", ("ran", -a[0])))],
    "__abs__": lambda I, st, a: [(s, ("ok", ("ran", a[0] if w else -a[0]))) for s, w in I.branch(st, ("ge", a[0]))],
    "__trunc__": of("to_integer_trunc"), "__floor__": of("to_integer_floor"), "__ceil__": of("to_integer_ceil"),
    "to_integer": of("to_integer"), "is_rational": of("is_rational"), "is_integer": of("is_integer"), "to_rational": to_rational,
    "recip": recip, "floor_log2": logspec("floor log2"), "ceil_log2": logspec("ceil log2"),
    "degree": lambda I, st, a: [(s, ("num", Poly.atom(("deg", a[0])) if irr else C(1))) for s, irr in fork_irr(I, st, a[0])],
    "minimal_polynomial": lambda I, st, a: [(st, ("mp", a[0]))],
    "pynew": lambda I, st, a: [(st, ("ran", a[0] if a else C(0)))],
    "extract": None, "from": None,
}


def inner(I, s, v):
    """the algebraic number inside the wrappers"""
    for _ in range(8):
        v = I.deref(s, v)
        if isinstance(v, Agg) and not is_ran(v.t) and len(v.f) == 1:
            v = v.f[0]
        else:
            break
    return v


def outcome(ctx, key, I, s, kind, v, o, label):
    k = o[0]
    if kind == "panic":
        ctx.ob(refuted(s, []), key, "raises only the documented exceptions" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
        return
    if k in ("ok", "err"):
        for s2, vi, f in I.split(s, v):
            ok = vi == (0 if k == "ok" else 1)
            ctx.ob(ok or refuted(s2, []), key, "succeeds exactly where the result is defined" + label, lazy(s2))
            if not ok:
                continue
            if k == "ok":
                outcome(ctx, key, I, s2, kind, f[0], o[1], label)
            else:
                e = I.deref(s2, f[0])
                c = e.term[1] if isinstance(e, Opq) and e.term[0] == "pyerr" else None
                ctx.ob(None if c is None else c == o[1] or refuted(s2, []), key, "raises the exception of the refused operation" + label,
                       lazy(s2, "raises %s, expected %s" % (c, o[1])))
        return
    if k in ("none", "some"):
        for s2, vi, f in I.split(s, v):
            ok = vi == (1 if k == "some" else 0)
            ctx.ob(ok or refuted(s2, []), key, "gives None exactly where there is no value" + label, lazy(s2))
            if ok and k == "some":
                outcome(ctx, key, I, s2, kind, f[0], o[1], label)
        return
    if k == "pair":
        v = I.deref(s, v)
        if not isinstance(v, Agg) or len(v.f) != 2 or not all(isinstance(x, Num) for x in v.f):
            ctx.undec(key, "result not tracked")
            return
        for x, w, n in zip(v.f, o[1:], ("numerator", "denominator")):
            eq_ob(ctx, key, s, s.facts.norm(x.p), s.facts.norm(w), "gives numerator and denominator" + label)
        return
    if k == "mp":
        v = I.deref(s, v)
        r = poly_list(I, s, Opq(("mp", o[1]), I.poly_t))
        if r is None or not isinstance(v, Lst):
            ctx.undec(key, "result not tracked")
            return
        for s2, cs in r:
            if len(cs) != len(v.items):
                ctx.ob(refuted(s2, []), key, "lists the coefficients of the minimal polynomial" + label, lazy(s2, "%d coefficients for a polynomial of %d" % (len(v.items), len(cs))))
                continue
            for x, w in zip(v.items, cs):
                x, w = I.deref(s2, x), I.deref(s2, w)
                if not isinstance(x, Num):
                    ctx.undec(key, "result not tracked")
                    continue
                eq_ob(ctx, key, s2, s2.facts.norm(x.p), s2.facts.norm(w.p), "lists the coefficients of the minimal polynomial, lowest power first" + label)
        return
    if k == "ran":
        p = value(I, s, inner(I, s, v))
        if p is None:
            ctx.undec(key, "result not tracked")
            return
        eq_ob(ctx, key, s, s.facts.norm(p), s.facts.norm(o[1]), "returns the exact value" + label)
        return
    check_outcome(ctx, key, I, s, kind, v, o, [], None, label)


def wrap(I, st, t, v):
    """v inside the wrapper type t"""
    P = I.P
    t = P.norm(t)
    if t[0] == "ref":
        return I.alloc(st, wrap(I, st, t[2], v))
    if is_ran(t):
        return v
    if t[0] == "adt" and t[1] in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc", "pyo3::PyCell", "pyo3::PyRef"):
        return wrap(I, st, t[2][0], v)
    if t[0] == "adt" and t[1] in P.d["adts"]:
        fs = (P.variants(t) or [None])[0]
        if fs and len(fs) == 1:
            return Agg(t, 0, (wrap(I, st, fs[0], v),))
    return None


def has_ran(P, t, d=0):
    t = P.norm(t)
    if is_ran(t):
        return True
    if d > 8:
        return False
    if t[0] == "ref":
        return has_ran(P, t[2], d + 1)
    if t[0] == "adt":
        if t[1] in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc", "pyo3::PyCell", "pyo3::PyRef"):
            return has_ran(P, t[2][0], d + 1)
        if t[1].startswith("python::") and t[1] in P.d["adts"]:
            fs = (P.variants(t) or [None])[0]
            return bool(fs) and len(fs) == 1 and has_ran(P, fs[0], d + 1)
    return False


def method(ctx, key, name, case):
    P = ctx.P
    f = P.fns[key]
    specs = build_specs(P)
    I = BI(P, contracts_for(ctx, specs, None, extra()))
    st = State()
    args, vals = [], []
    I.modulus = None
    want = METHODS.get(name)
    op = None
    I.number = None
    for i, t in enumerate(f["in"]):
        t = P.norm(P.ty(t))
        if has_ran(P, t):
            p = real("x%d" % len(vals))
            args.append(wrap(I, st, t, mk_ran(I, st, p)))
            vals.append(p)
        elif t[0] == "adt" and t[1].endswith("Option") and has_ran(P, t[2][0]):
            if case:
                p = real("x%d" % len(vals))
                args.append(some(wrap(I, st, t[2][0], mk_ran(I, st, p)), t[2][0]))
                vals.append(p)
            else:
                args.append(none(t[2][0]))
        elif t[0] == "adt" and t[1].endswith("CompareOp"):
            args.append(Agg(t, OPS.index(case), ()))
        elif t[0] == "ref" and t[2][0] == "adt" and t[2][1].endswith("PyAny"):
            v = I.sym(st, "object", t)
            args.append(v)
            I.modulus = I.vterm(st, I.deref(st, v))
            if name == "extract":
                I.number = wrap(I, st, ("ref", False, ("adt", NUM, ())), mk_ran(I, st, real("x0")))
        else:
            args.append(Agg(t, 0, ()))
    if any(a is None for a in args):
        ctx.undec(key, "argument type")
        return
    label = " (%s)" % case if isinstance(case, str) else ""
    if name == "extract":
        def want(I, st, a):
            out = []
            for s, w in fork_bool(I, st, "is a number"):
                if w:
                    if not s.facts.bools.get("is an integer"):
                        out.append((s, ("ok", ("ran", real("x0")))))
                    continue
                for s2, w2 in fork_bool(I, s, "is an integer"):
                    out.append((s2, ("ok", ("ran", Poly.atom(("sym", "n")))) if w2 else ("err", "conversion")))
            return out
    if name == "from":
        def want(I, st, a):
            return [(st, ("ran", a[0]))]
    if name == "__richcmp__":
        def want(I, st, a):
            return [(s, ("ok", o)) for s, o in cmp_spec(case.lower())(I, st, a)]
    for s, kind, v in run(ctx, I, st, key, args, {}):
        for s2, o in want(I, s.fork(), vals):
            inv_signs(I, s2)
            if feasible(s2):
                outcome(ctx, key, I, s2, kind, v, o, label)
    if I.uninterp:
        ctx.extra["uninterpreted"] = ctx.extra.get("uninterpreted", 0) + sum(I.uninterp.values())


def items(ctx):
    P = ctx.P
    out = []
    for key, f in P.fns.items():
        if f.get("mir") is None or "in" not in f or "{closure" in key:
            continue
        n = f["name"]
        if key.startswith(NUM + "::") and n in METHODS or key.startswith("<python::SharedNumber as ") and n in ("extract", "from"):
            if n == "pynew":
                out += [(key, n, False), (key, n, True)]
            else:
                out.append((key, n, None))
        elif key == NUM + "::__richcmp__":
            out += [(key, n, o) for o in OPS]
    return out


def work(ctx, item):
    method(ctx, *item)


def C70(ctx):
    ctx.rules.append("abstract interpretation of every method of the Python class on generic algebraic numbers, the numbers' operations at their specifications")
    ctx.assumptions += ["the operations of RealAlgebraicNumber meet their specifications (C10-C13)", "pyo3 converts arguments and results and dispatches methods as documented"]
    its = items(ctx)
    have = {i[1] for i in its}
    for n in sorted((set(METHODS) | {"__richcmp__"}) - have):
        ctx.undec(n, "method not found")
    ctx.parallel(its, work)
