"""C35: resultants and greatest common divisors of polynomials.  The resultant is interpreted on generic integer polynomials of
each pair of lengths and compared with the Sylvester determinant; the subresultant gcd on generic multiples of a common factor."""
from poly import *
import poly
from term import _atoms


def sylvester(a, b):
    """determinant of the Sylvester matrix of coefficient lists (lowest power first)"""
    m, n = len(a) - 1, len(b) - 1
    rows = []
    for i in range(n):
        rows.append([C(0)] * i + a[::-1] + [C(0)] * (n - 1 - i))
    for i in range(m):
        rows.append([C(0)] * i + b[::-1] + [C(0)] * (m - 1 - i))
    return det(rows)


def det(rows):
    if not rows:
        return C(1)
    out = C(0)
    for i, c in enumerate(rows[0]):
        if c.d:
            d = det([r[:i] + r[i + 1:] for r in rows[1:]])
            out = out + (c * d if i % 2 == 0 else -(c * d))
    return out


def substitute(p, a, w):
    """p with the atom numbered a replaced by w, or None"""
    q = C(0)
    pw = [C(1), w]
    for m, c in p.d.items():
        n = dict(m[0]).get(a, 0)
        if n < 0 or n != int(n):
            return None
        while len(pw) <= n:
            pw.append(pw[-1] * w)
        q = q + Poly({m: c}) * Poly.atom(_atoms[a]).inv().ipow(n) * pw[n]
    return q


def linear(s, e):
    """(atom number, its value) for the atoms that the equality e = 0 determines"""
    for a in sorted({a for m in e.d for a, _ in m[0]}):
        lin = [(m, c) for m, c in e.d.items() if dict(m[0]).get(a, 0)]
        if len(lin) != 1 or dict(lin[0][0][0])[a] != 1:
            continue
        t = Poly({lin[0][0]: lin[0][1]})
        k = t * Poly.atom(_atoms[a]).inv()
        if nz(s, k):
            yield a, (t - e) * k.inv()


def solved_zero(s, p, eqs, budget):
    """p is zero by the equalities, eliminating one atom by each"""
    if not p.d:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        return False
    for i, e in enumerate(eqs):
        rest = eqs[:i] + eqs[i + 1:]
        for a, w in linear(s, e):
            q = substitute(p, a, w)
            r = [substitute(x, a, w) for x in rest]
            if q is not None and solved_zero(s, q, [x for x in r if x is not None and x.d], budget):
                return True
        if budget[0] < 0:
            return False
    return False


def known_zero(s, p):
    f = s.facts
    eqs = [e for e in (strip(s, e, True) for e in f.eq) if e.d]
    return solved_zero(s, f.norm(p), eqs, [60])


def is0(s, p):
    """p is zero on this trace: True, False (refuted by a point) or None"""
    if known_zero(s, p):
        return True
    return any_of(s, [[(strip(s, p, True), "eq")]])


class GI(PI):
    """zero tests are simplified by the equalities and the nonzero factors known on the trace"""

    def reduce(self, st, p):
        f = st.facts
        p = strip(st, p, True)
        if not p.d:
            return p
        subs = []
        for e in f.eq:
            e = f.norm(e)
            for a, w in subs:
                e = substitute(e, a, w) if e is not None else None
            if e is None or not e.d:
                continue
            for a, w in linear(st, strip(st, e, True)):
                subs.append((a, w))
                break
        for a, w in subs:
            q = substitute(p, a, w)
            if q is not None:
                p = q
        p = strip(st, p, True)
        for n in f.ne:
            if len(n.d) < 2:
                continue
            for _ in range(6):
                q = exact_quotient(p, n) if p.d and len(p.d) < 200 else None
                if q is None:
                    break
                p = strip(st, q, True)
        return p

    def branch(self, st, c):
        if isinstance(c, tuple) and c and c[0] in ("eq", "ne") and isinstance(c[1], Poly):
            want = c[0] == "eq"
            if self.decide(st, c) is None:
                p = self.reduce(st, c[1])
                if p.as_const() is not None or known_zero(st, c[1]):
                    z = p.as_const() == 0 or known_zero(st, c[1])
                    return [(st, want == z)]
                low = {}
                for m in p.d:
                    d = dict(m[0])
                    low = {a: min(e, d.get(a, 0)) for a, e in (low or d).items()}
                low = {a: e for a, e in low.items() if e > 0}
                if low:
                    out = []
                    cur = [st]
                    for a, e in low.items():
                        k = Poly.atom(_atoms[a])
                        p = p * k.inv().ipow(e)
                        nxt = []
                        for s in cur:
                            for s2, z in super().branch(s, ("eq", k)):
                                if z:
                                    out.append((s2, want))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                    for s in cur:
                        for s2, z in [(s, False)] if p.as_const() else super().branch(s, ("eq", p)):
                            out.append((s2, want == z))
                    return out
                c = (c[0], p)
        return super().branch(st, c)


def no_panic(ctx, s, key, v):
    bad = [e[1] for e in s.events if e[0] == "inexact"]
    ok = any_of(s, [[(floor(bad[-1]) - bad[-1], "eq")]]) if bad else refuted(s, [])
    ctx.ob(ok, key, "does not panic", lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))


def sym(n):
    return Poly.atom(("sym", n))


def operands(I, st, how):
    """two coefficient lists; leading coefficients are nonzero"""
    if how[0] == "any":
        out = []
        for c, n in zip("ab", how[1:]):
            out.append([I.sym(st, "%s%d" % (c, k), BIGINT).p for k in range(n)])
            if n:
                I.add_fact(st, "ne", out[-1][-1])
        return out
    if how[0] == "sparse":
        out = []
        for c, ks in zip("ab", how[1:]):
            x = [C(0)] * (max(ks) + 1)
            for k in ks:
                x[k] = I.sym(st, "%s%d" % (c, k), BIGINT).p
            I.add_fact(st, "ne", x[-1])
            out.append(x)
        return out
    # a chosen first remainder: a = q*b + r
    b, q, r = operands(I, st, ("sparse",) + how[1:3]) + operands3(I, st, how[3])
    w = [C(0)] * (len(b) + len(q) - 1)
    for i, x in enumerate(b):
        for k, y in enumerate(q):
            w[i + k] = w[i + k] + x * y
    for i, x in enumerate(r):
        w[i] = w[i] + x
    return [w, b]


def operands3(I, st, ks):
    x = [C(0)] * (max(ks) + 1)
    for k in ks:
        x[k] = I.sym(st, "r%d" % k, BIGINT).p
    I.add_fact(st, "ne", x[-1])
    return [x]


def resultant(ctx, key, how):
    P = ctx.P
    T = BIGINT
    f = P.fns[key]
    nm = f["name"]
    ctx.I = I = GI(P, div_contracts(T))
    I.max_traces = 4000
    st = State()
    ts = fn_types(P, key, T)
    x, y = operands(I, st, how)
    args = [wrap_like(I, st, build(I, T, PolyV(w, C(1))), t) for w, t in zip((x, y), ts)]
    want = sylvester(x, y) if x and y else C(0)
    I.integral = lambda s, q: known_zero(s, q - want) or known_zero(s, q + want)
    for s, kind, v in run(ctx, I, st, key, args, {"T": T}):
        if how[0] != "any" and s.facts.eq:
            continue              # the longer polynomials only where nothing cancels
        if kind == "panic":
            no_panic(ctx, s, key, v)
            continue
        v = I.deref(s, v)
        if nm.startswith("nonzero"):
            if not isinstance(v, Agg) or v.v is None:
                ctx.undec(key, "result not tracked")
                continue
            if v.v == 0:
                ctx.ob(is0(s, want), key, "is none only where the resultant is zero", lazy(s, "resultant %s", want))
                continue
            v = I.deref(s, v.f[0])
        if not isinstance(v, Num):
            ctx.undec(key, "result not tracked")
            continue
        ctx.ob(is0(s, v.p - want), key, "is the Sylvester determinant", lazy(s, "got %s, want %s", v.p, want))


def prem(a, b):
    """pseudo-remainder of coefficient lists"""
    a = list(a)
    while len(a) >= len(b):
        c = a.pop()
        if not c.d:
            continue
        a = [x * b[-1] for x in a]
        for k, y in enumerate(b[:-1]):
            i = len(a) - len(b) + 1 + k
            a[i] = a[i] - c * y
    return a


def subgcd(ctx, key, ng, nu, nv):
    """operands g*u and g*v"""
    P = ctx.P
    T = BIGINT
    ctx.I = I = GI(P, div_contracts(T))
    I.max_traces = 4000
    st = State()
    ts = fn_types(P, key, T)
    g, u, v = ([I.sym(st, "%s%d" % (c, k), BIGINT).p for k in range(n)] for c, n in zip("guv", (ng, nu, nv)))
    for w in (g, u, v):
        if w:
            I.add_fact(st, "ne", w[-1])
    x, y = (pmul(PolyV(g, C(1)), PolyV(w, C(1))) for w in (u, v))
    args = [wrap_like(I, st, build(I, T, w), t) for w, t in zip((x, y), ts)]
    for s, kind, r in run(ctx, I, st, key, args, {"T": T}):
        if kind == "panic":
            no_panic(ctx, s, key, r)
            continue
        if nu + nv > 6 and s.facts.eq:
            continue              # the longer polynomials only where nothing cancels
        r = view(I, s, r)
        if r is None:
            ctx.undec(key, "result not tracked")
            continue
        if not x.n and not y.n:
            ctx.ob(not r.n or refuted(s, []), key, "the gcd of zeros is zero", lazy(s, "has %d coefficients" % len(r.n)))
            continue
        if not r.n:
            ctx.ob(refuted(s, []), key, "only the gcd of zeros is zero", lazy(s))
            continue
        for w in (x, y):
            for c in prem(w.n, r.n):
                ctx.ob(is0(s, c), key, "divides both operands up to a constant", lazy(s, "a remainder has coefficient %s", c))
        if len(r.n) < ng:
            ctx.ob(refuted(s, []), key, "is divided by every common divisor", lazy(s, "degree %d, common divisor of degree %d" % (len(r.n) - 1, ng - 1)))
            continue
        for c in prem(r.n, g):
            ctx.ob(is0(s, c), key, "is divided by every common divisor", lazy(s, "a remainder has coefficient %s", c))


def sublong(ctx, key, how):
    P = ctx.P
    T = BIGINT
    ctx.I = I = GI(P, div_contracts(T))
    I.max_traces = 4000
    st = State()
    x, y = operands(I, st, how)
    args = [wrap_like(I, st, build(I, T, PolyV(w, C(1))), t) for w, t in zip((x, y), fn_types(P, key, T))]
    for s, kind, r in run(ctx, I, st, key, args, {"T": T}):
        if s.facts.eq:
            continue
        if kind == "panic":
            no_panic(ctx, s, key, r)
            continue
        r = view(I, s, r)
        if r is None:
            ctx.undec(key, "result not tracked")
        elif not r.n:
            ctx.ob(refuted(s, []), key, "only the gcd of zeros is zero", lazy(s))
        else:
            for w in (x, y):
                for c in prem(w, r.n):
                    ctx.ob(is0(s, c), key, "divides both operands up to a constant", lazy(s, "a remainder has coefficient %s", c))


# ------------------------------------------------------------------ Euclid's algorithm, polynomials as elements of a ring
PT = ("adt", POLY, (RATIO,))
STEPS = 3


def ring(I, st, v):
    v = I.deref(st, v)
    return v.p if isinstance(v, Num) and v.t == PT else None


def scalar_atom(a):
    return a[0] == "sym" and a[1].startswith("c.")


def core(p):
    """(polynomial atom, scalar factor) of a monomial with a single polynomial atom"""
    if len(p.d) != 1:
        return None
    (m, c), = p.d.items()
    big = [(a, e) for a, e in m[0] if not scalar_atom(_atoms[a])]
    if len(big) != 1 or big[0][1] != 1:
        return None
    a = Poly.atom(_atoms[big[0][0]])
    return a, p * a.inv()


def lead(a):
    (m, _), = a.d.items()
    return sym("c." + str(_atoms[m[0][0][0]][1]))


def resolved(st, p):
    """p in terms of what the divisions left"""
    for e in st.events:
        if e[0] == "sub":
            q = substitute(p, e[1], e[2])
            p = q if q is not None else p
    return st.facts.norm(p)


def zero_cases(I, st, p):
    """(state, p is zero): a product of atoms none of which is an unknown polynomial is not zero"""
    p = st.facts.norm(p)
    if not p.d:
        return [(st, True)]
    k = core(p)
    if k is None:
        if all(scalar_atom(_atoms[a]) for m in p.d for a, _ in m[0]) and len(p.d) == 1:
            return [(st, False)]
        return None
    return I.branch(st, ("eq", k[0]))


def rc(fn):
    """contract on ring elements: fn(I, st, [terms], raw args, type) -> results or None"""
    def h(I, st, f, args, dt):
        xs = [ring(I, st, a) for a in args]
        if xs[0] is None:
            return None
        return fn(I, st.fork(), xs, args, dt)
    return h


def rbin(op, assign=False):
    @rc
    def h(I, st, xs, args, dt):
        if xs[1] is None:
            return None
        v = Num(st.facts.norm(op(*xs)), PT)
        if assign:
            I.store(st, args[0], v)
            return ret(st, UNIT)
        return ret(st, v)
    return h


def rdiv(nm):
    """exact division by a scalar or by a polynomial that divides"""
    @rc
    def h(I, st, xs, args, dt):
        d = xs[1]
        if d is None:
            n = I.deref(st, args[1])
            if not isinstance(n, Num):
                return None
            d = n.p
        cases = zero_cases(I, st, d) if xs[1] is not None else [(st, False)]
        if cases is None:
            return None
        out = []
        for s, z in cases:
            s = s.fork()
            if z:
                if nm.startswith("checked"):
                    return None
                out += panic(s, {"p": nm}, "division by zero")
                continue
            p, q = resolved(s, xs[0]), resolved(s, d)
            w = qdiv(p, q)
            if w is None or any(e < 0 and not scalar_atom(_atoms[a]) for m in w.d for a, e in m[0]):
                return None
            w = Num(s.facts.norm(w), PT)
            if nm.endswith("_assign"):
                I.store(s, args[0], w)
                w = UNIT
            if nm.startswith("checked"):
                out += ret(s, Agg(I.P.norm(dt), 0, (w,)) if nm.endswith("_assign") else some(w, PT))
            else:
                out += ret(s, w)
        return out
    return h


@rc
def r_is_zero(I, st, xs, args, dt):
    cs = zero_cases(I, st, xs[0])
    return None if cs is None else [r for s, z in cs for r in ret(s.fork(), Bool(z))]


def rfactor(nm):
    @rc
    def h(I, st, xs, args, dt):
        cs = zero_cases(I, st, xs[0])
        if cs is None:
            return None
        out = []
        for s, z in cs:
            s = s.fork()
            if z:
                w = none() if nm == "nonzero_reducing_factor" else Num(C(0), RATIO if nm == "reducing_factor" else PT)
                if nm == "reduce_assign":
                    w = UNIT
                out += ret(s, w)
                continue
            k = core(s.facts.norm(xs[0]))
            f = lead(k[0]) * k[1] if k else s.facts.norm(xs[0])
            if nm == "nonzero_reducing_factor":
                out += ret(s, some(Num(f, RATIO), RATIO))
            elif nm == "reducing_factor":
                out += ret(s, Num(f, RATIO))
            else:
                w = Num(s.facts.norm(xs[0] * f.inv()), PT)
                if nm == "reduce_assign":
                    I.store(s, args[0], w)
                    w = UNIT
                out += ret(s, w)
        return out
    return h


@rc
def r_one_if(I, st, xs, args, dt):
    cs = zero_cases(I, st, xs[0])
    return None if cs is None else [r for s, z in cs for r in ret(s.fork(), none() if z else some(Num(C(1), PT), PT))]


def reval(nm):
    """quotient and remainder: the dividend becomes quotient * divisor + remainder"""
    @rc
    def h(I, st, xs, args, dt):
        if xs[1] is None:
            return None
        cs = zero_cases(I, st, xs[1])
        if cs is None:
            return None
        out = []
        for s, z in cs:
            s = s.fork()
            if z:
                if "checked" in nm:
                    out += ret(s, none())
                else:
                    out += panic(s, {"p": nm}, "polynomial division by zero")
                continue
            n = sum(e[0] == "sub" for e in s.events)
            p, d = s.facts.norm(xs[0]), s.facts.norm(xs[1])
            k = core(p)
            if not p.d:
                q, r = C(0), C(0)
            elif k is None or core(d) is None or core(d)[0].key() == k[0].key():
                return None
            else:
                q = sym("q%d" % n)
                r = sym("r%d" % n) if n < STEPS else C(0)
                (m, _), = k[0].d.items()
                s.events = s.events + (("sub", m[0][0][0], s.facts.norm((q * d + r) * k[1].inv())),)
            q, r = Num(q, PT), Num(r, PT)
            if "div_rem" in nm:
                w = Agg(("tuple", (PT, PT)), 0, (q, r))
            else:
                w = q if "div" in nm else r
            if nm.endswith("_assign"):
                I.store(s, args[0], w)
                w = UNIT
            out += ret(s, some(w, I.vtype(w)) if "checked" in nm else w)
        return out
    return h


@rc
def r_subgcd(I, st, xs, args, dt):
    """the greatest common divisor up to a constant (the other half of this check)"""
    if xs[1] is None:
        return None
    out = []
    for s, z in zero_cases(I, st, xs[0]) or ():
        for s2, z2 in zero_cases(I, s, xs[1]) or ():
            s2 = s2.fork()
            k = sym("c.unit")
            if z or z2:
                out += ret(s2, Num(s2.facts.norm((xs[0] if z2 else xs[1]) * k), PT))
                continue
            a, b = core(s2.facts.norm(xs[0])), core(s2.facts.norm(xs[1]))
            if a is None or b is None or a[0].key() == b[0].key():
                return None
            for c, n in ((a[0], "u"), (b[0], "v")):
                (m, _), = c.d.items()
                s2.events = s2.events + (("sub", m[0][0][0], sym("g") * sym(n)),)
            out += ret(s2, Num(sym("g") * k, PT))
    return out or None


@rc
def r_same(I, st, xs, args, dt):
    return ret(st, Num(xs[0], PT))


def r_const(k):
    def h(I, st, fn, args, dt):
        if dt is not None and I.P.norm(dt) == PT:
            return ret(st, Num(C(k), PT))
        return None
    return h


def ring_contracts(P):
    c = {}
    for t, n, op in (("Add", "add", lambda a, b: a + b), ("Sub", "sub", lambda a, b: a - b), ("Mul", "mul", lambda a, b: a * b)):
        c["std::ops::%s::%s" % (t, n)] = rbin(op)
        c["std::ops::%sAssign::%s_assign" % (t, n)] = rbin(op, True)
    c["std::ops::Neg::neg"] = rc(lambda I, st, xs, args, dt: ret(st, Num(-xs[0], PT)))
    for n in ("exact_div", "checked_exact_div"):
        c["traits::ExactDiv::" + n] = rdiv(n)
        c["traits::ExactDivAssign::" + n + "_assign"] = rdiv(n + "_assign")
    for n in ("Div::div", "Rem::rem", "DivAssign::div_assign", "RemAssign::rem_assign"):
        c["std::ops::" + n] = reval(n.split("::")[1])
    c["num_traits::CheckedDiv::checked_div"] = reval("checked_div")
    c["num_traits::CheckedRem::checked_rem"] = reval("checked_rem")
    c["num_traits::Zero::zero"] = r_const(0)
    c["num_traits::One::one"] = r_const(1)
    c["num_traits::Zero::is_zero"] = r_is_zero
    c["std::clone::Clone::clone"] = r_same
    for key, f, imp in poly_methods(P, RATIO, {"nonzero_reducing_factor", "reducing_factor", "reduce_assign", "into_reduced", "to_reduced"}):
        c[key] = rfactor(f["name"])
    for key, f, imp in poly_methods(P, RATIO, {"to_one_if_nonzero", "into_one_if_nonzero"}):
        c[key] = r_one_if
    for key, f, imp in poly_methods(P, RATIO, {"div_rem", "checked_div_rem"}):
        c[key] = reval(f["name"])
    for key, f, imp in poly_methods(P, RATIO, {"subresultant_gcd"}):
        c[key] = r_subgcd
    for key, f, imp in poly_methods(P, RATIO, {"is_empty"}):
        c[key] = r_is_zero
    return c


def euclid(ctx, key, nm):
    P = ctx.P
    ctx.I = I = PI(P, ring_contracts(P))
    I.max_traces = 4000
    st = State()
    A, B = sym("A"), sym("B")
    for n in ("A", "B", "g", "unit") + tuple("r%d" % k for k in range(STEPS)):
        I.add_fact(st, "ne", sym("c." + n))
    args = [I.alloc(st, Num(A, PT)), I.alloc(st, Num(B, PT))]
    for s, kind, v in run(ctx, I, st, key, args, {"T": RATIO, "Self": PT, "Rhs": PT}):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic", lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        v = I.deref(s, v)
        got = {}
        if isinstance(v, Num):
            got[nm] = v
        elif isinstance(v, Agg):
            got = parts(I, s, v, len(v.f)) or {}
        got = {k: ring(I, s, x) for k, x in got.items()}
        if not got or any(x is None for x in got.values()):
            ctx.undec(key, "result not tracked")
            continue
        got = {k: resolved(s, x) for k, x in got.items()}
        if any(_atoms[a][0] != "sym" for x in got.values() for m in x.d for a, _ in m[0]):
            ctx.undec(key, "result not tracked")
            continue
        a, b = resolved(s, A), resolved(s, B)
        g = got.get("gcd")

        def ob(p, what, *xs):
            if not p.d:
                ctx.ob(True, key, what)
            elif s.facts.is_zero(p):
                ctx.ob(True, key, what)
            else:
                # two different elements of a free ring
                ctx.ob(False, key, what, "got %s; operands %s and %s" % (", ".join("%s = %s" % (k, show(x)) for k, x in got.items()), show(a), show(b)))
        if g is not None:
            if not a.d and not b.d:
                ob(g, "the gcd of zeros is zero")
            else:
                k = core(g)
                if k is None:
                    ob(g - C(1) if not g.d else g * C(0) + C(1), "divides both operands")
                else:
                    for w in (a, b):
                        q = exact_quotient(w, k[0]) if w.d else C(0)
                        bad = q is None or any(e < 0 and not scalar_atom(_atoms[x]) for m in q.d for x, e in m[0])
                        ob(C(1) if bad else C(0), "divides both operands")
                    ob(k[1] * lead(k[0]) - C(1), "is in reduced form")
                if nm == "gcd" or "x" not in got:
                    want = [sym("g")] if a.d and b.d else [a if a.d else b]
                    ob(C(0) if k is not None and core(want[0]) is not None and core(want[0])[0].key() == k[0].key() else C(1), "is the greatest common divisor")
        if "x" in got and "y" in got and g is not None:
            ob(s.facts.norm(got["x"] * a + got["y"] * b - g), "the cofactors combine the operands to the gcd")
        l = got.get("lcm")
        if l is not None:
            if not a.d or not b.d:
                ob(l, "the lcm with zero is zero")
            elif g is not None or sum(e[0] == "sub" for e in s.events) == 2 and nm == "lcm":
                d = g if g is not None else sym("g")
                q = qdiv(s.facts.norm(l * d), s.facts.norm(a * b))
                ok = q is not None and len(q.d) == 1 and all(scalar_atom(_atoms[x]) for m in q.d for x, e in m[0])
                ob(C(0) if ok else C(1), "the lcm times the gcd is the product of the operands")


def items_euclid(ctx):
    P = ctx.P
    out = []
    for tr, names in (("traits::GCD", ("gcd", "lcm", "gcd_lcm")), ("traits::ExtendedGCD", ("extended_gcd", "extended_gcd_lcm"))):
        ks = {f["name"]: key for key, f, imp in poly_methods(P, RATIO, set(names)) if imp.get("trait") == tr}
        for n in names:
            out.append(("euclid", ks.get(n, tr + "::" + n), n))
    return out


# longer polynomials with few coefficients, so that the remainders drop by several degrees
LONG = (("sparse", (0, 1, 3), (0, 2, 3)), ("sparse", (0, 2, 3), (0, 1, 3)), ("sparse", (1, 2, 3), (0, 3)), ("sparse", (0, 4), (1, 3, 4)), ("sparse", (0, 1, 5), (0, 4)), ("sparse", (0, 7), (1, 5)), 
        ("chain", (0, 4), (1,), (1, 2)), ("chain", (1, 4), (0, 1), (0, 2)), ("chain", (0, 4), (2,), (0, 1, 2)), ("chain", (0, 3), (1,), (0, 1)))


def items(ctx):
    out = []
    q = ctx.tier == "quick"
    for key, f, imp in poly_methods(ctx.P, BIGINT, {"resultant", "nonzero_resultant"}):
        for na in range(6 if q else 7):
            for nb in range(6 if q else 7):
                if na + nb < 9 and (na, nb) != (4, 4) or not q and min(na, nb) < 4 and na + nb < 10:
                    out.append(("resultant", key, ("any", na, nb)))
        for how in LONG:
            out.append(("resultant", key, how))
    for key, f, imp in poly_methods(ctx.P, BIGINT, {"subresultant_gcd"}):
        for ng in range(1, 4):
            for nu in range(5):
                for nv in range(5):
                    if ng + max(nu, nv) <= 5 and nu + nv <= (5 if q else 6) or ng == 1 and nu + nv < 8:
                        out.append(("subgcd", key, ng, nu, nv))
        for how in LONG:
            out.append(("sublong", key, how))
    return out + items_euclid(ctx)


def work(ctx, item):
    globals()[item[0]](ctx, *item[1:])


def C35(ctx):
    ctx.rules.append("abstract interpretation of resultant and gcd on generic polynomials")
    ctx.parallel(items(ctx), work)
