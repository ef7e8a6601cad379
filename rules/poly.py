"""C30-C33: polynomials with integer and rational coefficients.  Every operation is interpreted on generic polynomials of each
length up to a bound: the coefficients are symbols, the leading one is nonzero, and a rational polynomial has a positive divisor
without a factor common to all elements."""
import math

from helpers import *
from common import *
from term import is_integer_valued, default_ints, _atoms
from absint import canon_sign, UNIT, UNIT_T, Lst
from models import panic

POLY = "polynomial::Polynomial"
RATIO = ("adt", "num_rational::Ratio", (BIGINT,))


# ------------------------------------------------------------------ divisibility
def single_atom(p):
    """atom when p is just that atom"""
    if len(p.d) != 1:
        return None
    (m, c), = p.d.items()
    if c != 1 or m[1] or len(m[0]) != 1 or m[0][0][1] != 1:
        return None
    return _atoms[m[0][0][0]]


def whole(p, depth=0):
    """p is an integer: a polynomial in integer atoms, or a quotient by a greatest common divisor of something it divides"""
    if is_integer_valued(p, default_ints):
        return True
    if depth > 6:
        return False
    for x in {_atoms[a] for (at, _), _c in p.d.items() for a, e in at if e < 0}:
        if x[0] == "igcd" and isinstance(x[1], Poly):
            r = p * Poly.atom(x)
            if any(u.d and divisible(r, u, depth + 1) for u in x[1:]):
                return True
    return False


def divisible(r, u, depth):
    """r is an integer multiple of u"""
    if len(u.d) == 1:
        return whole(r * u.inv(), depth)
    q = exact_quotient(r, u)
    return q is not None and whole(q, depth)


def exact_quotient(p, q, limit=400):
    """p / q when q divides p exactly in the ring of Laurent polynomials over the atoms, else None"""
    if not q.d:
        return None
    if len(q.d) == 1:
        return p * q.inv()
    atoms = sorted({a for f in (p, q) for m in f.d for a, _ in m[0]}, reverse=True)
    # lexicographic order with shifts so that exponents are comparable
    def key(m):
        d = dict(m[0])
        return tuple(d.get(a, 0) for a in atoms) + (repr(sorted(m[1], key=repr)),)
    lq = max(q.d, key=key)
    inv = Poly({lq: q.d[lq]}).inv()
    out = C(0)
    r = p
    prev = None
    for _ in range(limit):
        if not r.d:
            return out
        lr = max(r.d, key=key)
        k = key(lr)
        if prev is not None and k >= prev:
            return None
        prev = k
        t = Poly({lr: r.d[lr]}) * inv
        if any(e < 0 for m in t.d for a, e in m[0] if all(dict(x[0]).get(a, 0) >= 0 for f in (p, q) for x in f.d)):
            return None
        out = out + t
        r = r - t * q
    return None


# ------------------------------------------------------------------ interpreter
def strip(s, p, zeros=False):
    """p without the common factors that are known to be positive (nonzero, when only the zeros matter): same sign, same zeros"""
    f = s.facts
    p = f.norm(p)
    if not p.d:
        return p
    es = {}
    atoms = {a for m in p.d for a, _ in m[0]}
    for m in p.d:
        d = dict(m[0])
        for a in atoms:
            e = d.get(a, 0)
            es[a] = min(es.get(a, e), e)
    for a, e in es.items():
        k = Poly.atom(_atoms[a])
        if not e or e != int(e):
            continue
        n = abs(int(e))
        if not (f.positive(k) or zeros and atom_nz(f, k)):
            n -= n % 2                # a square
            if not n or not atom_nz(f, k):
                continue
        if e > 0:
            k = k.inv()
        for _ in range(n):
            p = p * k
    return p


def atom_nz(f, k):
    return bool(k in f.ne or -k in f.ne or f.nonzero(k) or f.positive(-k))


def nz(st, p):
    q = strip(st, p, True)
    f = st.facts
    if q.as_const() is not None:
        return q.as_const() != 0
    return bool(f.nonzero(q) or f.nonzero(-q) or f.positive(q) or f.positive(-q) or q in f.ne or -q in f.ne)


def gt0(st, p):
    return bool(st.facts.positive(strip(st, p)))


def pos_gcd(I, st, u, v):
    """greatest common divisor of two integers"""
    f = st.facts
    u, v = f.norm(u), f.norm(v)
    cu, cv = u.as_const(), v.as_const()
    if cu is not None and cv is not None:
        return C(math.gcd(int(cu), int(cv)))
    for c in (cu, cv):
        if c is not None and abs(c) == 1:
            return C(1)
    for c, w in ((cu, v), (cv, u)):
        if c == 0:
            if f.nonneg(w):
                return w
            if f.nonneg(-w):
                return -w
    if (u - v).d == {} and f.nonneg(u):
        return u
    g = gcd_atom("igcd", u, v)
    if nz(st, u) or nz(st, v):
        I.add_fact(st, "gt", g)
    else:
        I.add_fact(st, "ge", g)
    return g


def c_gcd(nm):
    def h(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None or a.t != BIGINT:
            return None
        st = st.fork()
        g = pos_gcd(I, st, a.p, b.p)
        f = st.facts
        l = None
        if nm != "gcd":
            if gt0(st, a.p) and gt0(st, b.p):
                l = f.norm(a.p * b.p * g.inv())
                u, w = f.norm(a.p), f.norm(b.p)
                if l not in (u, w):
                    getattr(I, "lcms", {})[l] = (u, w)
            else:
                l = gcd_atom("ilcm", f.norm(a.p), f.norm(b.p))
                I.add_fact(st, "ge", l)
        if nm == "gcd":
            return ret(st, Num(g, a.t))
        if nm == "lcm":
            return ret(st, Num(l, a.t))
        if dt is not None and dt[0] == "tuple":
            return ret(st, Agg(dt, 0, (Num(g, a.t), Num(l, a.t))))
        if dt is None or dt[0] != "adt":
            return None
        names = [x for x, _, _ in I.P.d["adts"][dt[1]]["variants"][0][1]]
        if sorted(names) != ["gcd", "lcm"]:
            return None
        return ret(st, Agg(dt, 0, tuple(Num({"gcd": g, "lcm": l}[n], a.t) for n in names)))
    return h


def c_exact(nm):
    """exact division of integers where the quotient is known to be whole (the operation itself is C40)"""
    def h(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None or a.t != BIGINT or b.t != BIGINT:
            return None
        f = st.facts
        u, v = f.norm(a.p), f.norm(b.p)
        if not nz(st, v):
            return None
        q = None
        if len(v.d) == 1:
            q = u * v.inv()
            if not whole(q):
                return None
        else:
            q = exact_quotient(u, v)
            if q is None or not whole(q):
                return None
        q = f.norm(q)
        st = st.fork()
        if nm == "exact_div" or nm == "div":
            return ret(st, Num(q, a.t))
        if nm == "exact_div_assign" or nm == "div_assign":
            I.store(st, args[0], Num(q, a.t))
            return ret(st, UNIT)
        if nm == "checked_exact_div":
            return ret(st, some(Num(q, a.t), a.t))
        I.store(st, args[0], Num(q, a.t))
        return ret(st, Agg(dt or ("adt", "std::result::Result", (UNIT_T, UNIT_T)), 0, (UNIT,)))
    return h


CON = {}
for _n in ("gcd", "lcm", "gcd_lcm"):
    CON["traits::GCD::" + _n] = c_gcd(_n)
    CON["num_integer::Integer::" + _n] = c_gcd(_n)
for _n, _t in (("exact_div", "ExactDiv"), ("checked_exact_div", "ExactDiv"), ("exact_div_assign", "ExactDivAssign"),
               ("checked_exact_div_assign", "ExactDivAssign")):
    CON["traits::%s::%s" % (_t, _n)] = c_exact(_n)
CON["std::ops::Div::div"] = c_exact("div")
CON["std::ops::DivAssign::div_assign"] = c_exact("div_assign")


class PI(Interp):
    def __init__(self, prog, contracts=None, **kw):
        c = dict(CON)
        c.update(contracts or {})
        super().__init__(prog, contracts=c, **kw)
        self.unroll = True
        self.lcms = {}

    def simple(self, st, c):
        if isinstance(c, tuple) and c and c[0] in ("eq", "ne", "gt", "ge") and isinstance(c[1], Poly):
            p = strip(st, c[1], c[0] in ("eq", "ne"))
            return (c[0], canon_sign(p) if c[0] in ("eq", "ne") else p)
        return c

    def decide(self, st, c):
        return super().decide(st, self.simple(st, c))

    def assume(self, st, c):
        return super().assume(st, self.simple(st, c))


def layout(P):
    """(index of the element list, index of the divisor) in the struct"""
    vs = P.d["adts"][POLY]["variants"][0][1]
    names = [x for x, _, _ in vs]
    if sorted(names) != ["divisor", "elements"]:
        return None
    return names.index("elements"), names.index("divisor")


class PolyV:
    """coefficients n[i]/d"""

    def __init__(self, n, d):
        self.n, self.d = list(n), d


def div_t(T):
    return BIGINT if T == RATIO else ("adt", "polynomial::DivisorIsOne", ())


def mk_poly(I, st, name, n, T, monic=False):
    """generic normalized polynomial of length n"""
    es = [Num(Poly.atom(("sym", "%s%d" % (name, i))), BIGINT) for i in range(n)]
    if n:
        I.add_fact(st, "ne", es[-1].p)
    if T == RATIO:
        if n:
            d = Poly.atom(("sym", name + "d"))
            I.add_fact(st, "gt", d)
            g = d
            for e in es:
                g = gcd_atom("igcd", g, e.p)
            I.add_fact(st, "eq", g - C(1))
        else:
            d = C(1)
        dv = Num(d, BIGINT)
    else:
        d = C(1)
        dv = Agg(div_t(T), 0, ())
    le, ld = layout(I.P)
    f = [None, None]
    f[le] = Lst(("adt", "std::vec::Vec", (BIGINT, ("adt", "std::alloc::Global", ()))), tuple(es))
    f[ld] = dv
    return Agg(("adt", POLY, (T,)), 0, tuple(f)), PolyV([e.p for e in es], d)


def view(I, s, v):
    """PolyV of a polynomial value, or None"""
    v = I.deref(s, v)
    if not (isinstance(v, Agg) and v.t[0] == "adt" and v.t[1] == POLY):
        return None
    le, ld = layout(I.P)
    es, d = I.deref(s, v.f[le]), I.deref(s, v.f[ld])
    if not isinstance(es, Lst):
        return None
    xs = [I.deref(s, x) for x in es.items]
    if not all(isinstance(x, Num) for x in xs):
        return None
    if isinstance(d, Num):
        return PolyV([x.p for x in xs], d.p)
    if isinstance(d, Agg) and d.t[1] == "polynomial::DivisorIsOne":
        return PolyV([x.p for x in xs], C(1))
    return None


def leaves(p, out=None):
    """integers whose common divisor p is"""
    out = [] if out is None else out
    a = single_atom(p)
    if a is not None and a[0] == "igcd" and isinstance(a[1], Poly):
        leaves(a[1], out)
        leaves(a[2], out)
    else:
        out.append(p)
    return out


def canon(p):
    return canon_sign(p)


def gcds_in(s, ps):
    seen = set()
    for p in ps:
        for a in p.deep_atoms():
            x = _atoms[a]
            if x[0] == "igcd" and isinstance(x[1], Poly):
                seen.add(Poly.atom(x))
    return seen


def coprime(s, ps):
    """no factor is common to all of ps: one is a unit, or they are what is left after dividing by a common divisor of all"""
    n = s.facts.norm
    ps = [n(p) for p in ps]
    if any(p.as_const() in (1, -1) for p in ps):
        return True
    rest = [p for p in ps if p.d]
    if not rest:
        return False
    cands = gcds_in(s, rest + list(s.facts.eq) + list(s.facts.ge) + list(s.facts.gt))
    want = None
    for g in cands:
        h = n(g)
        ls = {canon(n(x)) for x in leaves(g)} - {C(0)}
        full = {canon(n(p * h)) for p in rest}
        if ls <= full and h.d:
            # g divides out of at least these; every one of ps times g is a multiple of it already
            return True
    return None


def over_lcm(I, s, ps, d):
    """d is the least common multiple of denominators of reduced fractions and ps holds each fraction's numerator over d: a prime
    power of d comes in full from one denominator, whose element it does not divide"""
    n = s.facts.norm
    todo, dens = [d], []
    while todo:
        x = todo.pop()
        if x in I.lcms:
            todo += I.lcms[x]
        elif x.as_const() != 1:
            dens.append(x)
    have = {canon(n(p)) for p in ps}
    for x in dens:
        for nu, de in I.ratio_parts.values():
            if n(de) == x and canon(n(nu * d * x.inv())) in have:
                break
        else:
            return False
    return True


def canonical(ctx, s, key, r, T, label):
    """the representation invariant"""
    if T == RATIO:
        ctx.ob(any_of(s, [[(strip(s, r.d), "gt")]]), key, "the common divisor stays positive" + label, lazy(s, "divisor %s", r.d))
        if r.n:
            ok = coprime(s, r.n + [r.d])
            if not ok:
                ok = over_lcm(ctx.I, s, r.n, s.facts.norm(r.d))
            if not ok:
                g = r.d
                for e in r.n:
                    g = gcd_atom("igcd", g, e)
                ok = any_of(s, [[(g - C(1), "eq")]])
            ctx.ob(ok, key, "elements and divisor have no common factor" + label, lazy(s, "divisor %s", r.d))
        else:
            eq_ob(ctx, key, s, r.d, C(1), "the zero polynomial has divisor one" + label)
    if r.n:
        ctx.ob(any_of(s, [[(strip(s, r.n[-1], True), "ne")]]), key, "the leading coefficient is not zero" + label, lazy(s, "leading %s", r.n[-1]))


def same_poly(ctx, s, key, r, w, T, name, label, canon_too=True):
    """r equals the polynomial w"""
    if not r.n and not w.n:
        ctx.ob(True, key, name + label)
    for i in range(max(len(r.n), len(w.n))):
        a = r.n[i] if i < len(r.n) else C(0)
        b = w.n[i] if i < len(w.n) else C(0)
        d = s.facts.norm(a * w.d - b * r.d)
        x = any_of(s, [[(strip(s, d, True), "eq")]])
        ctx.ob(x, key, name + label, lazy(s, "coefficient %d: got %%s, want %%s" % i, a * r.d.inv(), b * w.d.inv()))
    if canon_too:
        canonical(ctx, s, key, r, T, label)


def padd(a, b, sg=1):
    n = max(len(a.n), len(b.n))
    A = a.n + [C(0)] * (n - len(a.n))
    B = b.n + [C(0)] * (n - len(b.n))
    return PolyV([x * b.d + C(sg) * y * a.d for x, y in zip(A, B)], a.d * b.d)


def pmul(a, b):
    if not a.n or not b.n:
        return PolyV([], C(1))
    out = [C(0)] * (len(a.n) + len(b.n) - 1)
    for i, x in enumerate(a.n):
        for j, y in enumerate(b.n):
            out[i + j] = out[i + j] + x * y
    return PolyV(out, a.d * b.d)


def pneg(a):
    return PolyV([-x for x in a.n], a.d)


def ppow(a, n):
    r = PolyV([C(1)], C(1))
    for _ in range(n):
        r = pmul(r, a)
    return r


# ------------------------------------------------------------------ arguments
def is_poly(t):
    return t[0] == "adt" and t[1] == POLY


def make_arg(I, st, name, t, T, n):
    """(argument, meaning): meaning is a PolyV, a Num poly, or None"""
    if t[0] == "ref":
        v, m = make_arg(I, st, name, t[2], T, n)
        return (I.alloc(st, v), m) if v is not None else (None, None)
    if is_poly(t):
        v, m = mk_poly(I, st, name, n, T)
        return v, m
    if t == T:
        v = I.sym(st, name, t)
        return v, v.p
    return None, None


def scalar_poly(I, s, p):
    nd = I.ratio_nd(s, p)
    return PolyV([nd[0]], nd[1])


def fn_types(P, key, T):
    f = P.fns[key]
    return [P.norm(P.sub(P.ty(t), {"T": T})) for t in f["in"]]


OPSYM = {"add": "+", "sub": "-", "mul": "*"}


def binary(ctx, key, T, na, nb):
    """+, -, * in every form"""
    P = ctx.P
    ctx.I = I = PI(P)
    st = State()
    f = P.fns[key]
    ts = fn_types(P, key, T)
    nm = f["name"]
    op = nm.replace("checked_", "").replace("_assign", "")
    a, x = make_arg(I, st, "a", ts[0], T, na)
    b, y = make_arg(I, st, "b", ts[1], T, nb)
    if a is None or b is None:
        ctx.undec(key, "operand types")
        return
    if not isinstance(y, PolyV):
        y = scalar_poly(I, st, y)
    w = pmul(x, y) if op == "mul" else padd(x, y, 1 if op == "add" else -1)
    label = " (%s coefficients)" % ("integer" if T == BIGINT else "rational")
    for s, kind, v in run(ctx, I, st, key, [a, b], {"T": T}):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        r = a if nm.endswith("_assign") else v
        if nm.startswith("checked_"):
            v = I.deref(s, v)
            if not isinstance(v, Agg):
                ctx.undec(key, "result not tracked")
                continue
            if v.v == 0:
                ctx.ob(refuted(s, []), key, "always gives a result" + label, lazy(s))
                continue
            r = v.f[0]
        r = view(I, s, r)
        if r is None:
            ctx.undec(key, "result is not a polynomial the domain tracks")
            continue
        same_poly(ctx, s, key, r, w, T, "gives the exact polynomial", label)


def c_pmul(I, st, fn, args, dt):
    """product of rational polynomials (an obligation of C30): exact, reduced by the common divisor of all products"""
    a, b = view(I, st, args[0]), view(I, st, args[1])
    if a is None or b is None:
        return None
    st = st.fork()
    w = pmul(a, b)
    if w.n:
        f = st.facts
        w.n, w.d = [f.norm(x) for x in w.n], f.norm(w.d)
        g = w.d
        for x in w.n:
            if x.d:
                g = gcd_atom("igcd", g, x)
        I.add_fact(st, "gt", g)
        w = PolyV([f.norm(x * g.inv()) for x in w.n], f.norm(w.d * g.inv()))
    return ret(st, build(I, RATIO, w))


def build(I, T, w):
    le, ld = layout(I.P)
    f = [None, None]
    f[le] = Lst(("adt", "std::vec::Vec", (BIGINT, ("adt", "std::alloc::Global", ()))), tuple(Num(x, BIGINT) for x in w.n))
    f[ld] = Num(w.d, BIGINT) if T == RATIO else Agg(div_t(T), 0, ())
    return Agg(("adt", POLY, (T,)), 0, tuple(f))


def tlabel(T):
    return " (%s coefficients)" % ("integer" if T == BIGINT else "rational" if T == RATIO else "polynomial")


def scal_ob(ctx, s, key, got, want, name, label):
    """a coefficient value equals want"""
    if not isinstance(got, Num):
        ctx.undec(key, "result not tracked")
        return
    d = s.facts.norm(got.p - want)
    if len(d.d) > 1:
        d = clear(s, d)
    ctx.ob(any_of(s, [[(strip(s, d, True), "eq")]]), key, name + label, lazy(s, "got %s, want %s", got.p, want))


def clear(s, p):
    """multiply by the nonzero atoms in denominators"""
    for _ in range(8):
        neg = {a for m in p.d for a, e in m[0] if e < 0}
        if not neg:
            break
        for a in neg:
            k = Poly.atom(_atoms[a])
            if not (s.facts.positive(k) or atom_nz(s.facts, k)):
                return p
            p = s.facts.norm(p * k)
    return p


def tidy(s, p, zeros=False):
    return strip(s, clear(s, s.facts.norm(p)), zeros)


def poly_ob(ctx, I, s, key, r, w, T, name, label):
    r = view(I, s, r)
    if r is None:
        ctx.undec(key, "result is not a polynomial the domain tracks")
        return
    same_poly(ctx, s, key, r, w, T, name, label)


def count_ob(ctx, I, s, key, v, want, name, label):
    v = I.deref(s, v)
    if isinstance(v, Num):
        eq_ob(ctx, key, s, v.p, C(want), name + label)
    else:
        ctx.undec(key, "result not tracked")


def bool_ob(ctx, I, s, key, v, alts_true, alts_false, name, label):
    v = I.deref(s, v)
    if not hasattr(v, "c"):
        ctx.undec(key, "result not tracked")
        return
    for s2, tr in I.branch(s, v.c):
        if feasible(s2):
            ctx.ob(any_of(s2, alts_true if tr else alts_false), key, name + label, lazy(s2, "answers %s" % ("true" if tr else "false")))


def opt(ctx, I, s, key, v, want, name, label, then):
    """an Option or Result: want = is there a value"""
    v = I.deref(s, v)
    if not isinstance(v, Agg) or v.v is None:
        ctx.undec(key, "result not tracked")
        return
    good = v.v == (1 if "option" in v.t[1] else 0)
    if good != want:
        ctx.ob(refuted(s, []), key, name + label, lazy(s, "gives %s" % ("a value" if good else "none")))
    elif good:
        then(v.f[0] if v.f else UNIT)
    else:
        ctx.ob(True, key, name + label)


HANDLE = {}


def handles(names):
    def d(fn):
        for n in names.split():
            HANDLE[n] = fn
        return fn
    return d


class U:
    """one unary outcome"""

    def __init__(self, ctx, I, key, T, x, args, extra):
        self.ctx, self.I, self.key, self.T, self.x, self.args, self.extra = ctx, I, key, T, x, args, extra
        self.label = tlabel(T)

    def poly(self, s, r, w, name):
        poly_ob(self.ctx, self.I, s, self.key, r, w, self.T, name, self.label)

    def scal(self, s, r, w, name):
        scal_ob(self.ctx, s, self.key, self.I.deref(s, r), w, name, self.label)

    def opt(self, s, v, want, name, then):
        opt(self.ctx, self.I, s, self.key, v, want, name, self.label, then)

    def co(self, i):
        return self.x.n[i] * self.x.d.inv()


ZERO, ONE = PolyV([], C(1)), PolyV([C(1)], C(1))


@handles("neg")
def h_neg(u, s, v):
    u.poly(s, v, pneg(u.x), "gives the exact negative")


@handles("negate")
def h_negate(u, s, v):
    u.poly(s, u.args[0], pneg(u.x), "gives the exact negative")


@handles("zero default")
def h_zero(u, s, v):
    u.poly(s, v, ZERO, "is the zero polynomial")


@handles("one")
def h_one(u, s, v):
    u.poly(s, v, ONE, "is the polynomial one")


@handles("set_zero")
def h_set_zero(u, s, v):
    u.poly(s, u.args[0], ZERO, "becomes the zero polynomial")


@handles("set_one")
def h_set_one(u, s, v):
    u.poly(s, u.args[0], ONE, "becomes one")


@handles("is_zero is_empty")
def h_is_zero(u, s, v):
    z = len(u.x.n) == 0
    bool_ob(u.ctx, u.I, s, u.key, v, [[]] if z else [], [] if z else [[]], "answers exactly", u.label)


@handles("is_one")
def h_is_one(u, s, v):
    n = u.x.n
    t, f = [], [[]]
    if len(n) == 1:
        # elements and divisor have no common factor, so the coefficient is one only when both are
        a, d = n[0] - C(1), u.x.d - C(1)
        t, f = [[(a, "eq"), (d, "eq")]], [[(a, "ne")], [(d, "ne")]]
    bool_ob(u.ctx, u.I, s, u.key, v, t, f, "answers exactly", u.label)


@handles("pow")
def h_pow(u, s, v):
    u.poly(s, v, ppow(u.x, u.extra), "gives the exact power")


@handles("len")
def h_len(u, s, v):
    count_ob(u.ctx, u.I, s, u.key, v, len(u.x.n), "counts the coefficients", u.label)


@handles("degree")
def h_degree(u, s, v):
    n = len(u.x.n)
    u.opt(s, v, n > 0, "only the zero polynomial has no degree",
          lambda r: count_ob(u.ctx, u.I, s, u.key, r, n - 1, "gives the exact degree", u.label))


@handles("coefficient")
def h_coef(u, s, v):
    i = u.extra
    u.scal(s, v, u.co(i) if i < len(u.x.n) else C(0), "gives the exact coefficient")


@handles("nonzero_coefficient")
def h_ncoef(u, s, v):
    i = u.extra
    u.opt(s, v, i < len(u.x.n), "only an index past the degree has no coefficient",
          lambda r: u.scal(s, r, u.co(i), "gives the exact coefficient"))


@handles("highest_power_coefficient")
def h_hpc(u, s, v):
    u.scal(s, v, u.co(-1) if u.x.n else C(0), "gives the leading coefficient")


@handles("nonzero_highest_power_coefficient")
def h_nhpc(u, s, v):
    u.opt(s, v, bool(u.x.n), "only the zero polynomial has no leading coefficient",
          lambda r: u.scal(s, r, u.co(-1), "gives the leading coefficient"))


@handles("into_coefficients")
def h_intoc(u, s, v):
    v = u.I.deref(s, v)
    if not isinstance(v, Lst):
        u.ctx.undec(u.key, "result not tracked")
        return
    u.ctx.ob(len(v.items) == len(u.x.n) or refuted(s, []), u.key, "lists every coefficient" + u.label, lazy(s))
    for i, r in enumerate(v.items[:len(u.x.n)]):
        u.scal(s, r, u.co(i), "lists the coefficients in order of degree")


@handles("split_out_divisor into")
def h_split(u, s, v):
    v = u.I.deref(s, v)
    if not (isinstance(v, Agg) and len(v.f) == 2):
        u.ctx.undec(u.key, "result not tracked")
        return
    le, ld = layout(u.I.P)
    f = [None, None]
    f[le], f[ld] = v.f
    u.poly(s, Agg(("adt", POLY, (u.T,)), 0, tuple(f)), u.x, "gives elements and divisor of the polynomial")


@handles("derivative into_derivative")
def h_der(u, s, v):
    u.poly(s, v, PolyV([C(i) * c for i, c in enumerate(u.x.n)][1:], u.x.d), "gives the exact derivative")


@handles("eval into_eval")
def h_eval(u, s, v):
    at = u.extra
    w = C(0)
    for i in range(len(u.x.n)):
        t = u.co(i)
        for _ in range(i):
            t = t * at
        w = w + t
    u.scal(s, v, w, "gives the exact value at the point")


@handles("set_one_if_nonzero")
def h_soin(u, s, v):
    u.opt(s, v, bool(u.x.n), "only the zero polynomial is left alone",
          lambda r: u.poly(s, u.args[0], ONE, "becomes one"))
    if not u.x.n:
        u.poly(s, u.args[0], ZERO, "the zero polynomial is left alone")


@handles("into_one_if_nonzero")
def h_ioin(u, s, v):
    u.opt(s, v, bool(u.x.n), "only the zero polynomial is refused",
          lambda r: u.poly(s, r, ONE, "becomes one"))


@handles("to_one_if_nonzero")
def h_toin(u, s, v):
    u.opt(s, v, bool(u.x.n), "only the zero polynomial is refused",
          lambda r: u.poly(s, r, ONE, "becomes one"))


@handles("max_norm nonzero_max_norm")
def h_maxn(u, s, v):
    def then(r):
        r = u.I.deref(s, r)
        if not isinstance(r, Num):
            u.ctx.undec(u.key, "result not tracked")
            return
        cs = [u.co(i) for i in range(len(u.x.n))]
        for c in cs:
            for sg in (1, -1):
                u.ctx.ob(ge_ob(s, r.p - C(sg) * c), u.key, "no coefficient is larger in magnitude" + u.label, lazy(s, "got %s, coefficient %s", r.p, c))
        u.ctx.ob(any_of(s, [[(strip(s, clear(s, r.p - C(sg) * c)), "eq")] for c in cs for sg in (1, -1)]), u.key,
                 "is the magnitude of a coefficient" + u.label, lazy(s, "got %s", r.p))
    if u.key.endswith("nonzero_max_norm"):
        u.opt(s, v, bool(u.x.n), "only the zero polynomial has none", then)
    elif u.x.n:
        then(v)
    else:
        u.scal(s, v, C(0), "the zero polynomial has norm zero")


def ge_ob(s, p):
    return any_of(s, [[(strip(s, clear(s, s.facts.norm(p))), "ge")]])


@handles("manhattan_norm nonzero_manhattan_norm")
def h_mann(u, s, v):
    for c in u.x.n:
        if not s.facts.nonneg(c) and not s.facts.nonneg(-c):
            for s2, _ in u.I.branch(s, ("ge", c)):
                h_mann(u, s2, v)
            return

    def then(r):
        r = u.I.deref(s, r)
        if not isinstance(r, Num):
            u.ctx.undec(u.key, "result not tracked")
            return
        w = C(0)
        for c in u.x.n:
            if s.facts.nonneg(c):
                w = w + c
            elif s.facts.nonneg(-c):
                w = w - c
            else:
                u.ctx.undec(u.key, "sign of a coefficient open on a trace")
                return
        u.scal(s, r, w * u.x.d.inv(), "is the sum of the coefficients' magnitudes")
    if u.key.endswith("nonzero_manhattan_norm"):
        u.opt(s, v, bool(u.x.n), "only the zero polynomial has none", then)
    elif u.x.n:
        then(v)
    else:
        u.scal(s, v, C(0), "the zero polynomial has norm zero")


def c_cabs(I, st, fn, args, dt):
    """magnitude of a coefficient (an obligation of C31)"""
    a = num(I, st, args[0])
    if a is None:
        return None
    return [(s, "ret", Num(a.p if tr else -a.p, a.t)) for s, tr in I.branch(st, ("ge", a.p))]


NORMS = {"max_norm", "nonzero_max_norm", "manhattan_norm", "nonzero_manhattan_norm"}


def method_contracts(nm, T):
    if nm == "pow" and T == RATIO:
        return {"std::ops::Mul::mul": c_pmul}
    if nm in NORMS:
        return {"polynomial::PolynomialCoefficientAbsSupported::coefficient_abs": c_cabs}
    return None


def method(ctx, key, T, n, extra=None):
    P = ctx.P
    f = P.fns[key]
    nm = f["name"]
    ctx.I = I = PI(P, method_contracts(nm, T))
    st = State()
    ts = fn_types(P, key, T)
    args, x = [], None
    ta = {"T": T}
    if ts:
        a, x = make_arg(I, st, "a", ts[0], T, n)
        if a is None:
            ctx.undec(key, "operand types")
            return
        args = [a]
    ex = extra
    if nm == "pow":
        args.append(Num(C(extra[0]), extra[1]))
        ta["E"] = extra[1]
        ex = extra[0]
    elif nm in ("coefficient", "nonzero_coefficient"):
        args.append(Num(C(extra), ("prim", "usize")))
    elif nm in ("eval", "into_eval"):
        at, ex = make_arg(I, st, "t", ts[1], T, 0)
        args.append(at)
    u = U(ctx, I, key, T, x, args, ex)
    for s, kind, v in run(ctx, I, st, key, args, ta):
        if kind == "panic":
            if nm == "pow" and n == 0 and ex <= 0 or nm == "pow" and ex < 0:
                continue
            ctx.ob(refuted(s, []), key, "does not panic" + u.label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        HANDLE[nm](u, s, v)


RING = {"std::ops::Add": 2, "std::ops::Sub": 2, "std::ops::Mul": 2, "std::ops::AddAssign": 2, "std::ops::SubAssign": 2,
        "std::ops::MulAssign": 2, "num_traits::CheckedAdd": 2, "num_traits::CheckedSub": 2, "num_traits::CheckedMul": 2}


POWERS = (0, 1, 2, 3, 4, 5, 6, 7)
RINGM = {"neg", "negate", "zero", "one", "default", "set_zero", "set_one", "is_zero", "is_one", "pow"}


def poly_methods(P, T, names):
    """functions of Polynomial<T> with these names: inherent ones and those of external traits"""
    for key, f in sorted(P.fns.items()):
        imp = P.impl_of(key)
        if f.get("mir") is None or not imp or f["name"] not in names:
            continue
        t = peel(P.ty(imp["self"]))
        if not is_poly(t) or t[2][0][0] != "param" and t[2][0] != T:
            continue
        if imp.get("trait") is None and f.get("vis") != "pub":
            continue
        yield key, f, imp


def items_ring(ctx):
    P = ctx.P
    out = []
    L = 4 if ctx.tier == "quick" else 6
    for key, f in sorted(P.fns.items()):
        imp = P.impl_of(key)
        if f.get("mir") is None or not imp or not is_poly(peel(P.ty(imp["self"]))):
            continue
        tr = imp.get("trait")
        if tr in RING:
            scal = not is_poly(peel(P.ty(f["in"][1])))
            for T in (BIGINT, RATIO):
                for na in range(L + 1):
                    for nb in range(1 if scal else L + 1):
                        out.append(("binary", key, T, na, nb))
    for T in (BIGINT, RATIO):
        for key, f, imp in poly_methods(P, T, RINGM):
            for n in range((L if f["in"] else 0) + 1):
                if f["name"] != "pow":
                    out.append(("method", key, T, n))
                    continue
                for e in POWERS:
                    if (n - 1) * e <= (8 if ctx.tier == "quick" else 16):
                        out.append(("method", key, T, n, (e, ("prim", "usize"))))
                if n < 3:
                    out.append(("method", key, T, n, (3, BIGINT)))
                    out.append(("method", key, T, n, (-1, ("prim", "i32"))))
    return out


ACC = {"len", "is_empty", "degree", "coefficient", "nonzero_coefficient", "highest_power_coefficient", "nonzero_highest_power_coefficient",
       "into_coefficients", "split_out_divisor", "into", "derivative", "into_derivative", "eval", "into_eval", "set_one_if_nonzero",
       "into_one_if_nonzero", "to_one_if_nonzero", "max_norm", "nonzero_max_norm", "manhattan_norm", "nonzero_manhattan_norm"}


def items_access(ctx):
    P = ctx.P
    out = []
    L = 4 if ctx.tier == "quick" else 6
    for T in (BIGINT, RATIO):
        for key, f, imp in poly_methods(P, T, ACC):
            for n in range(L + 1):
                if "norm" in f["name"] and n > 3:
                    continue
                if f["name"] in ("coefficient", "nonzero_coefficient"):
                    for i in range(n + 2):
                        out.append(("method", key, T, n, i))
                else:
                    out.append(("method", key, T, n))
    return out


def coeffs(I, st, T, n):
    """n generic coefficients"""
    vs = [I.sym(st, "c%d" % i, T) for i in range(n)]
    for v in vs:
        if T == RATIO:
            I.ratio_nd(st, v.p)
    return vs


def from_coeffs(I, s, vs):
    """the polynomial with these coefficients over the product of their denominators"""
    ds = [I.ratio_nd(s, v.p) for v in vs]
    D = C(1)
    for _, d in ds:
        D = D * d
    return PolyV([nn * D * d.inv() for nn, d in ds], D)


def lst(t, vs):
    return Lst(t, tuple(vs))


def convert(ctx, key, T, n, how):
    """construction from coefficients"""
    P = ctx.P
    f = P.fns[key]
    ctx.I = I = PI(P)
    st = State()
    ta = {"T": T}
    vec = ("adt", "std::vec::Vec", (T, ("adt", "std::alloc::Global", ())))
    if how == "parts":
        es = [Num(Poly.atom(("sym", "e%d" % i)), BIGINT) for i in range(n)]
        d = C(1)
        dv = Agg(div_t(T), 0, ())
        if T == RATIO:
            d = Poly.atom(("sym", "ed"))
            I.add_fact(st, "gt", d)
            dv = Num(d, BIGINT)
        ev = ("adt", "std::vec::Vec", (BIGINT, ("adt", "std::alloc::Global", ())))
        args = [Agg(("tuple", (ev, div_t(T))), 0, (lst(ev, es), dv))]
        want = PolyV([e.p for e in es], d)
    else:
        vs = coeffs(I, st, T, n)
        want = None
        if how == "vec":
            args = [lst(vec, vs)]
        elif how == "iter":
            args = [lst(vec, vs)]
            ta["I"] = vec
        elif how == "array":
            args = [lst(("array", T, str(n)), vs)]
        elif how == "slice":
            args = [I.alloc(st, lst(("slice", T), vs))]
        elif how == "cow0":
            args = [Agg(("adt", "std::borrow::Cow", (("slice", T),)), 0, (I.alloc(st, lst(("slice", T), vs)),))]
        elif how == "cow1":
            args = [Agg(("adt", "std::borrow::Cow", (("slice", T),)), 1, (lst(vec, vs),))]
        elif how == "one":
            args = [vs[0]]
        elif how == "ref":
            args = [I.alloc(st, vs[0])]
        elif how == "mono":
            args = [vs[0], Num(C(n - 1), ("prim", "usize"))]
            vs = [Num(C(0), T)] * (n - 1) + [vs[0]]
    label = tlabel(T)
    for s, kind, v in run(ctx, I, st, key, args, ta):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        w = want if want is not None else from_coeffs(I, s, vs)
        poly_ob(ctx, I, s, key, v, w, T, "has exactly the given coefficients", label)


def conv_kind(P, key):
    f = P.fns[key]
    t = P.ty(f["in"][0]) if f["in"] else None
    if f["name"] == "make_monomial":
        return "mono"
    if f["name"] in ("from_iter", "from_iterator"):
        return "iter"
    if t is None:
        return None
    if t[0] == "tuple":
        return "parts"
    if t[0] == "array":
        return "array"
    if t[0] == "param":
        return "one"
    if t[0] == "ref":
        return "slice" if t[2][0] == "slice" else "ref" if t[2][0] == "param" else None
    if t[0] == "adt" and t[1] == "std::vec::Vec":
        return "vec"
    if t[0] == "adt" and t[1] == "std::borrow::Cow":
        return "cow0 cow1"
    return None


def items_conv(ctx):
    P = ctx.P
    out = []
    L = 4 if ctx.tier == "quick" else 5
    for key, f in sorted(P.fns.items()):
        imp = P.impl_of(key)
        if f.get("mir") is None or not imp or not is_poly(peel(P.ty(imp["self"]))) or "quadratic_numbers" in key:
            continue
        tr = imp.get("trait")
        if not (tr == "std::convert::From" or tr == "std::iter::FromIterator" or tr is None and f["name"] == "make_monomial"):
            continue
        for how in (conv_kind(P, key) or "").split():
            for T in (BIGINT, RATIO):
                if how == "array":
                    n = int(P.ty(f["in"][0])[2])
                    if T == BIGINT or n <= L:
                        out.append(("convert", key, T, n, how))
                    continue
                for n in (1,) if how in ("one", "ref") else range(1 if how == "mono" else 0, L + 1):
                    out.append(("convert", key, T, n, how))
    return out


def walk(ctx, key, T, n, pattern):
    """coefficients by iteration from either end"""
    P = ctx.P
    ctx.I = I = PI(P)
    st = State()
    t = P.norm(P.sub(P.ty(P.fns[key]["in"][0]), {"T": T}))
    a, x = make_arg(I, st, "a", t, T, n)
    label = tlabel(T)
    for s, kind, v in run(ctx, I, st, key, [a], {"T": T}):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic" + label, lazy(s))
            continue
        cell = I.alloc(s, v)
        it = I.vtype(v)
        lo, hi = 0, n
        cur = [s]
        for c in pattern:
            tr, nm = ("std::iter::Iterator", "next") if c == "f" else ("std::iter::DoubleEndedIterator", "next_back")
            nxt = []
            want = None
            if lo < hi:
                want = x.n[lo if c == "f" else hi - 1] * x.d.inv()
                lo, hi = (lo + 1, hi) if c == "f" else (lo, hi - 1)
            for s1 in cur:
                for s2, k2, r in I.call(s1, {"p": tr + "::" + nm, "a": (it,), "tr": tr, "nm": nm}, [cell], None, None):
                    if k2 == "panic":
                        ctx.ob(refuted(s2, []), key, "iterating does not panic" + label, lazy(s2))
                        continue
                    opt(ctx, I, s2, key, r, want is not None, "yields every coefficient once", label,
                        lambda z: scal_ob(ctx, s2, key, I.deref(s2, z), want, "yields the coefficients in order", label))
                    nxt.append(s2)
            cur = nxt
        left = hi - lo
        for s1 in cur:
            for s2, k2, r in I.call(s1, {"p": "std::iter::Iterator::size_hint", "a": (it,), "tr": "std::iter::Iterator", "nm": "size_hint"},
                                    [cell], None, None):
                r = I.deref(s2, r)
                if isinstance(r, Agg) and len(r.f) == 2 and isinstance(r.f[0], Num) and isinstance(r.f[1], Agg) and r.f[1].f:
                    eq_ob(ctx, key, s2, r.f[0].p, C(left), "announces how many are left" + label)
                    eq_ob(ctx, key, s2, r.f[1].f[0].p, C(left), "announces how many are left" + label)
                else:
                    ctx.undec(key, "size hint not tracked")


def items_walk(ctx):
    P = ctx.P
    out = []
    for T in (BIGINT, RATIO):
        for key, f, imp in poly_methods(P, T, {"iter", "into_iter"}):
            for n in range(4):
                pats = {"f" * (n + 1), "b" * (n + 1), "f", "b", ("fb" * 4)[:n + 1], ("bf" * 4)[:n + 1]}
                for pt in sorted(pats):
                    out.append(("walk", key, T, n, pt))
    return out


# ------------------------------------------------------------------ the coefficient layer
def cow(t, v, I, st, owned):
    return Agg(("adt", "std::borrow::Cow", (t,)), 1, (v,)) if owned else Agg(("adt", "std::borrow::Cow", (t,)), 0, (I.alloc(st, v),))


CO = "polynomial::PolynomialCoefficient"
LAYER = {"is_element_zero", "is_element_one", "is_coefficient_zero", "is_coefficient_one", "set_element_zero", "set_element_one", "set_coefficient_zero",
         "set_coefficient_one", "make_zero_element", "make_one_element", "make_zero_coefficient_from_element", "make_one_coefficient_from_element",
         "make_zero_coefficient_from_coefficient", "make_one_coefficient_from_coefficient", "negate_element", "mul_element_by_usize",
         "mul_assign_element_by_usize", "divisor_to_element", "make_coefficient", "coefficient_to_element", "divisor_pow_usize", "element_pow_usize",
         "coefficient_pow_usize", "coefficient_abs"}


def layer(ctx, T, nm, k, owned):
    P = ctx.P
    ctx.I = I = PI(P)
    st = State()
    tr = CO + ("AbsSupported" if nm == "coefficient_abs" else "")
    E = BIGINT if T == RATIO else T
    D = div_t(T)
    ratio = T == RATIO

    def one_div():
        return Num(C(1), BIGINT) if ratio else Agg(D, 0, ())
    usz = Num(C(k), ("prim", "usize"))
    if nm in ("is_element_zero", "is_element_one", "set_element_zero", "set_element_one", "negate_element", "mul_assign_element_by_usize"):
        v = I.sym(st, "e", E)
        args = [I.alloc(st, v)] + ([usz] if "usize" in nm else [])
    elif nm in ("is_coefficient_zero", "is_coefficient_one", "set_coefficient_zero", "set_coefficient_one"):
        v = I.sym(st, "c", T)
        args = [I.alloc(st, v)]
    elif nm in ("make_zero_element", "make_one_element", "make_zero_coefficient_from_element", "make_one_coefficient_from_element", "mul_element_by_usize"):
        v = I.sym(st, "e", E)
        args = [cow(E, v, I, st, owned)] + ([usz] if "usize" in nm else [])
    elif nm in ("make_zero_coefficient_from_coefficient", "make_one_coefficient_from_coefficient", "coefficient_to_element"):
        v = I.sym(st, "c", T)
        args = [cow(T, v, I, st, owned)]
    elif nm in ("divisor_to_element", "make_coefficient"):
        v = I.sym(st, "e", E)
        dv = one_div()
        if ratio:
            dv = I.sym(st, "d", BIGINT)
            I.add_fact(st, "gt", dv.p)
        a, b = cow(E, v, I, st, owned), cow(D, dv, I, st, owned)
        args = [b, a] if nm == "divisor_to_element" else [a, b]
    elif nm == "divisor_pow_usize":
        v = one_div()
        if ratio:
            v = I.sym(st, "d", BIGINT)
            I.add_fact(st, "gt", v.p)
        args = [v, usz]
    elif nm == "element_pow_usize":
        v = I.sym(st, "e", E)
        args = [v, usz]
    else:
        v = I.sym(st, "c", T)
        args = [v] + ([usz] if "usize" in nm else [])
    key = "<%s as %s>::%s" % (tshow(T), tr, nm)
    ctx.functions.add(key)
    label = ""
    try:
        res = [(s, kd, r) for s, kd, r in I.call(st, {"p": tr + "::" + nm, "a": (T,), "tr": tr, "nm": nm}, args, None, None) if feasible(s)]
    except Budget as e:
        ctx.undec(key, str(e)[:200])
        return
    ctx.visited |= I.called
    for s, kind, r in res:
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic", lazy(s, "panics: %s" % str(r[0])[:80].replace("%", "")))
            continue
        out = I.deref(s, args[0]) if nm.startswith("set_") or nm in ("negate_element", "mul_assign_element_by_usize") else I.deref(s, r)
        if nm.startswith("is_"):
            d = v.p - C(0 if nm.endswith("zero") else 1)
            d = tidy(s, d, True)
            bool_ob(ctx, I, s, key, r, [[(d, "eq")]], [[(d, "ne")]], "answers exactly", label)
            continue
        if nm == "coefficient_to_element":
            if not (isinstance(out, Agg) and len(out.f) == 2):
                ctx.undec(key, "result not tracked")
                continue
            nu, de = (I.deref(s, y) for y in out.f)
            if ratio:
                if not (isinstance(nu, Num) and isinstance(de, Num)):
                    ctx.undec(key, "result not tracked")
                    continue
                wn, wd = I.ratio_nd(s, v.p)
                eq_ob(ctx, key, s, nu.p, wn, "gives the reduced numerator")
                eq_ob(ctx, key, s, de.p, wd, "gives the reduced denominator")
            else:
                scal_ob(ctx, s, key, nu, v.p, "gives the coefficient", label)
            continue
        if nm == "divisor_pow_usize" and not ratio:
            ctx.ob(isinstance(out, Agg), key, "gives the divisor one", lazy(s))
            continue
        if nm == "coefficient_abs":
            out = I.deref(s, out)
            if not isinstance(out, Num):
                ctx.undec(key, "result not tracked")
                continue
            o = out.p
            ctx.ob(any_of(s, [[(tidy(s, o - v.p, True), "eq"), (tidy(s, v.p), "ge")], [(tidy(s, o + v.p, True), "eq"), (tidy(s, -v.p), "ge")]]), key, "gives the magnitude",
                   lazy(s, "got %s for %s", out.p, v.p))
            continue
        if "zero" in nm:
            w = C(0)
        elif "one" in nm:
            w = C(1)
        elif nm == "negate_element":
            w = -v.p
        elif "mul_" in nm:
            w = C(k) * v.p
        elif nm == "divisor_to_element":
            w = dv.p if ratio else C(1)
        elif nm == "make_coefficient":
            w = v.p * dv.p.inv() if ratio else v.p
        else:
            w = C(1)
            for _ in range(k):
                w = w * v.p
        scal_ob(ctx, s, key, out, w, "gives the exact value", label)


def tshow(t):
    if t[0] == "prim":
        return t[1]
    return t[1].split("::")[-1] + ("<%s>" % ",".join(tshow(x) for x in t[2]) if t[2] else "")


def items_layer(ctx):
    out = []
    Ts = [BIGINT, RATIO] + [("prim", x) for x in ("i8", "i16", "i32", "i64", "i128")]
    for T in Ts:
        for nm in sorted(LAYER):
            ks = (0,)
            if "pow" in nm:
                ks = tuple(range(9)) + (13,)
            elif "usize" in nm:
                ks = (0, 1, 2, 3, 5, 100)
            own = (0, 1) if nm.startswith("make_") or nm in ("mul_element_by_usize", "coefficient_to_element", "divisor_to_element") else (0,)
            for k in ks:
                for o in own:
                    out.append(("layer", T, nm, k, o))
    return out


# ------------------------------------------------------------------ division
def fdiv(a, b):
    """quotient and remainder over the field of fractions"""
    inv = b.n[-1].inv() * b.d
    r = [x * a.d.inv() for x in a.n]
    q = [C(0)] * max(0, len(r) - len(b.n) + 1)
    for k in range(len(q) - 1, -1, -1):
        c = r[k + len(b.n) - 1] * inv
        q[k] = c
        for j, y in enumerate(b.n):
            r[k + j] = r[k + j] - c * y * b.d.inv()
    return PolyV(q, C(1)), PolyV(r[:max(0, len(b.n) - 1)], C(1))


def multiple(I, st, c, b, T):
    """the polynomial c*b in normal form"""
    w = pmul(c, b)
    if T == RATIO and w.n:
        f = st.facts
        w.n, w.d = [f.norm(x) for x in w.n], f.norm(w.d)
        g = w.d
        for x in w.n:
            if x.d:
                g = gcd_atom("igcd", g, x)
        I.add_fact(st, "gt", g)
        w = PolyV([f.norm(x * g.inv()) for x in w.n], f.norm(w.d * g.inv()))
    return w


def c_sdiv(nm, T):
    """exact division of coefficients (an obligation of C40): the quotient, refused for a zero divisor or an inexact integer division"""
    base = c_exact(nm)

    def h(I, st, fn, args, dt):
        r = base(I, st, fn, args, dt)
        if r is not None:
            return r
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None or a.t != T or b.t != T:
            return None
        checked, assign = nm.startswith("checked_"), nm.endswith("_assign")

        def no(s):
            if not checked:
                return panic(s, fn, "inexact division")
            return ret(s, Agg(I.P.norm(dt), 1, (UNIT,)) if assign else none())

        def yes(s, q):
            if assign:
                I.store(s, args[0], q)
            if not checked:
                return ret(s, UNIT if assign else q)
            return ret(s, Agg(I.P.norm(dt), 0, (UNIT,)) if assign else some(q, T))
        out = []
        for s, z in I.branch(st, ("eq", b.p)):
            if z:
                out += no(s)
                continue
            f = s.facts
            q = qdiv(f.norm(a.p), f.norm(b.p))
            if q is None:
                return None
            q = f.norm(q)
            if T != RATIO and not whole(q) and not getattr(I, "integral", lambda s, q: False)(s, q):
                # nothing but the quotient tells that it is whole
                z = s.fork()
                z.events = z.events + (("inexact", q),)
                out += no(z)
            out += yes(s.fork(), Num(q, T))
        return out
    return h


def qdiv(u, v):
    if len(v.d) == 1:
        return u * v.inv()
    return exact_quotient(u, v)


def c_from(I, st, fn, args, dt):
    """polynomial with the given rational coefficients (an obligation of C31): in normal form"""
    if (fn.get("ta") or {}).get("T") != RATIO:
        return None
    v = I.deref(st, args[0])
    if isinstance(v, Agg) and "Cow" in v.t[1] and v.f:
        v = I.deref(st, v.f[0])
    if not isinstance(v, Lst):
        return None
    cs = [num(I, st, x) for x in v.items]
    if any(c is None for c in cs):
        return None
    cs = [st.facts.norm(c.p) for c in cs]
    out = []
    cur = [(st, len(cs))]
    while cur:
        nxt = []
        for s, n in cur:
            if n == 0:
                out += ret(s.fork(), build(I, RATIO, ZERO))
                continue
            for s2, z in I.branch(s, ("eq", cs[n - 1])):
                if z:
                    nxt.append((s2, n - 1))
                else:
                    s2 = s2.fork()
                    w = normal_form(I, s2, cs[:n])
                    if w is None:
                        return None
                    out += ret(s2, build(I, RATIO, w))
        cur = nxt
    return out


def normal_form(I, s, cs):
    """normal form of the polynomial with these coefficients"""
    f = s.facts
    cs = [f.norm(c) for c in cs]
    if all(whole(c) for c in cs):
        return PolyV(cs, C(1))
    d = denominator(cs)
    if not (f.nonneg(d) and nz(s, d)):
        if not nz(s, d):
            return None
        d = d * d
    n = [f.norm(c * d) for c in cs]
    g = d
    for x in n:
        if x.d:
            g = gcd_atom("igcd", g, x)
    I.add_fact(s, "gt", g)
    w = PolyV([f.norm(x * g.inv()) for x in n], f.norm(d * g.inv()))
    I.add_fact(s, "gt", w.d)
    return w


def div_contracts(T):
    c = {}
    for n, t in (("exact_div", "ExactDiv"), ("checked_exact_div", "ExactDiv"), ("exact_div_assign", "ExactDivAssign"),
                 ("checked_exact_div_assign", "ExactDivAssign")):
        c["traits::%s::%s" % (t, n)] = c_sdiv(n, T)
    if T == RATIO:
        for a in ("std::vec::Vec<T>", "std::borrow::Cow<'a, [T]>"):
            c["<polynomial::Polynomial<T> as std::convert::From<%s>>::from" % a] = c_from
    return c


def wrap_like(I, st, v, t):
    return I.alloc(st, v) if t[0] == "ref" else v


DIVN = {"checked_pseudo_div_rem", "pseudo_div_rem", "exact_pseudo_div", "checked_exact_pseudo_div", "checked_div_rem", "div_rem", "checked_div",
        "checked_rem", "div", "rem", "div_assign", "rem_assign", "exact_div", "checked_exact_div", "exact_div_assign", "checked_exact_div_assign"}
DIVT = {"num_traits::CheckedDiv", "num_traits::CheckedRem", "std::ops::Div", "std::ops::Rem", "std::ops::DivAssign", "std::ops::RemAssign",
        "traits::ExactDiv", "traits::ExactDivAssign", None}


def parts(I, s, v, k):
    """fields of a tuple or struct value"""
    v = I.deref(s, v)
    if not (isinstance(v, Agg) and len(v.f) == k):
        return None
    if v.t[0] == "adt":
        names = [x for x, _, _ in I.P.d["adts"][v.t[1]]["variants"][0][1]]
        return dict(zip(names, v.f))
    return dict(enumerate(v.f))


def division(ctx, key, T, na, nb, mode):
    """mode: any = unrelated operands, mul = the dividend is a multiple (na is the length of the quotient)"""
    P = ctx.P
    f = P.fns[key]
    nm = f["name"]
    ctx.I = I = PI(P, div_contracts(T))
    st = State()
    ts = fn_types(P, key, T)
    b, y = make_arg(I, st, "b", ts[1], T, nb)
    scalar = not isinstance(y, PolyV)
    if b is None:
        ctx.undec(key, "operand types")
        return
    if scalar:
        if nb == 0:
            I.add_fact(st, "eq", scalar_poly(I, st, y).n[0] if T == RATIO else y)
            y = ZERO
        else:
            I.add_fact(st, "ne", y)
            y = scalar_poly(I, st, y)
            I.add_fact(st, "ne", y.n[0])
            y.n = [st.facts.norm(c) for c in y.n]
    if mode == "mul":
        _, c = mk_poly(I, st, "c", na, T)
        x = multiple(I, st, c, y, T)
        a = wrap_like(I, st, build(I, T, x), ts[0])
    else:
        a, x = make_arg(I, st, "a", ts[0], T, na)
    label = tlabel(T) + (" when it divides" if mode == "mul" else "")
    assign = nm.endswith("_assign")
    checked = nm.startswith("checked_")
    exact = "exact" in nm or scalar or T == BIGINT and "pseudo" not in nm
    q, r = fdiv(x, y) if y.n else (None, None)

    def refuse(s, how):
        if not y.n:
            ctx.ob(True, key, "division by zero is refused" + label)
        elif exact and mode == "mul":
            ctx.ob(refuted(s, []), key, "an exact quotient is given" + label, lazy(s, how))
        elif exact:
            # whatever is returned is the quotient (below), so refusing is right unless the quotient exists
            if T == RATIO or "pseudo" in nm:
                ctx.ob(any_of(s, [[(tidy(s, z, True), "ne")] for z in r.n]), key, "refused only when it does not divide" + label, lazy(s, how))
            else:
                ctx.ob(True, key, "inexact division is refused" + label)
        else:
            ctx.ob(refuted(s, []), key, "refused only for a zero divisor" + label, lazy(s, how))
        if assign and checked:
            poly_ob(ctx, I, s, key, a, x, T, "a refused division leaves the receiver unchanged", label)

    def given(s, v):
        if not y.n:
            if scalar and not x.n:
                # nothing is divided
                return
            ctx.ob(refuted(s, []), key, "division by zero is refused" + label, lazy(s))
            return
        if "pseudo" in nm:
            ex = "exact" in nm
            d = parts(I, s, v, 2 if ex else 3)
            if d is None:
                ctx.undec(key, "result not tracked")
                return
            qv, rv, fv = (d[0], None, d[1]) if ex else (d.get("quotient"), d.get("remainder"), d.get("factor"))
            Q, F = view(I, s, qv), I.deref(s, fv)
            R = view(I, s, rv) if rv is not None else ZERO
            if Q is None or R is None or not isinstance(F, Num):
                ctx.undec(key, "result not tracked")
                return
            ctx.ob(any_of(s, [[(tidy(s, F.p, True), "ne")]]), key, "the factor is not zero" + label, lazy(s, "factor %s", F.p))
            ctx.ob(True if len(R.n) < len(y.n) else refuted(s, []), key, "the remainder has a smaller degree" + label, lazy(s))
            canonical(ctx, s, key, Q, T, label)
            canonical(ctx, s, key, R, T, label)
            w = padd(pmul(Q, y), R)
            for i in range(max(len(w.n), len(x.n))):
                l = (w.n[i] if i < len(w.n) else C(0)) * w.d.inv()
                g = (x.n[i] if i < len(x.n) else C(0)) * x.d.inv() * F.p
                ctx.ob(any_of(s, [[(tidy(s, l - g, True), "eq")]]), key, "factor times dividend is quotient times divisor plus remainder" + label,
                       lazy(s, "coefficient %d: %%s, want %%s" % i, l, g))
            return
        if "div_rem" in nm:
            d = parts(I, s, v, 2)
            if d is None:
                ctx.undec(key, "result not tracked")
                return
            poly_ob(ctx, I, s, key, d[0], q, T, "gives the exact quotient", label)
            poly_ob(ctx, I, s, key, d[1], r, T, "gives the exact remainder", label)
            return
        rem = "rem" in nm
        poly_ob(ctx, I, s, key, a if assign else v, r if rem else q, T, "gives the exact %s" % ("remainder" if rem else "quotient"), label)
        if exact and not rem and mode == "any" and (T == RATIO or not scalar):
            for z in r.n:
                ctx.ob(any_of(s, [[(tidy(s, z, True), "eq")]]), key, "an inexact division is refused" + label, lazy(s, "remainder %s", z))

    for s, kind, v in run(ctx, I, st, key, [a, b], {"T": T}):
        if kind == "panic":
            if checked:
                ctx.ob(refuted(s, []), key, "does not panic" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            else:
                refuse(s, "panics: %s" % str(v[0])[:80].replace("%", ""))
            continue
        if checked:
            v = I.deref(s, v)
            if not isinstance(v, Agg) or v.v is None:
                ctx.undec(key, "result not tracked")
                continue
            if v.v != (1 if "option" in v.t[1] else 0):
                refuse(s, "refused")
                continue
            given(s, v.f[0] if v.f else None)
        else:
            given(s, v)


# ------------------------------------------------------------------ modular powers
def cls(I, k, red):
    """a polynomial congruent to the k-th power of the base, reduced or not"""
    a = Poly.atom(("sym", "power%d%s" % (k, "r" if red else "")))
    return build(I, RATIO, PolyV([a], C(1)))


def cls_of(I, s, v):
    v = view(I, s, v)
    a = single_atom(v.n[0]) if v is not None and len(v.n) == 1 else None
    if a is None or a[0] != "sym" or not a[1].startswith("power"):
        return None
    k = a[1][5:]
    return int(k.rstrip("r")), k.endswith("r")


def c_cmul(assign):
    def h(I, st, fn, args, dt):
        a, b = cls_of(I, st, args[0]), cls_of(I, st, args[1])
        if a is None or b is None:
            return None
        st = st.fork()
        v = cls(I, a[0] + b[0], False)
        if assign:
            I.store(st, args[0], v)
            return ret(st, UNIT)
        return ret(st, v)
    return h


def c_crem(nm, modulus):
    def h(I, st, fn, args, dt):
        a, m = cls_of(I, st, args[0]), view(I, st, args[1])
        if a is None or m is None:
            return None
        st = st.fork()
        if not m.n:
            return ret(st, none()) if nm == "checked_rem" else panic(st, fn, "polynomial division by zero")
        if [x.key() for x in m.n] != [x.key() for x in modulus.n]:
            return None
        v = cls(I, a[0], True)
        if nm == "rem_assign":
            I.store(st, args[0], v)
            return ret(st, UNIT)
        return ret(st, some(v, v.t) if nm == "checked_rem" else v)
    return h


def powmod(ctx, key, n, extra):
    """the n coefficients of the modulus are generic"""
    P = ctx.P
    nm = P.fns[key]["name"]
    st = State()
    c = {}
    ctx.I = I = PI(P, c)
    m, mv = mk_poly(I, st, "m", n, RATIO)
    I.contracts.update({"std::ops::Mul::mul": c_cmul(False), "std::ops::MulAssign::mul_assign": c_cmul(True),
                        "std::ops::Rem::rem": c_crem("rem", mv), "std::ops::RemAssign::rem_assign": c_crem("rem_assign", mv),
                        "num_traits::CheckedRem::checked_rem": c_crem("checked_rem", mv)})
    e, et = extra
    label = tlabel(RATIO)
    args = [I.alloc(st, cls(I, 1, False)), Num(C(e), et), I.alloc(st, m)]
    for s, kind, v in run(ctx, I, st, key, args, {"T": RATIO, "E": et}):
        if kind == "panic":
            ctx.ob(True if nm == "powmod" and (n == 0 or e < 0) else refuted(s, []), key, "a power is refused only for a zero modulus or a negative exponent" + label,
                   lazy(s, "panics for exponent %d" % e))
            continue
        if nm == "checked_powmod":
            v = I.deref(s, v)
            if not isinstance(v, Agg) or v.v is None:
                ctx.undec(key, "result not tracked")
                continue
            if v.v == 0:
                ctx.ob(True if n == 0 or e < 0 else refuted(s, []), key, "a power is refused only for a zero modulus or a negative exponent" + label,
                       lazy(s, "refused for exponent %d" % e))
                continue
            v = v.f[0]
        if n == 0 or e < 0:
            ctx.ob(refuted(s, []), key, "a zero modulus and a negative exponent are refused" + label, lazy(s, "a value for exponent %d" % e))
            continue
        k = cls_of(I, s, v)
        if k is None:
            ctx.undec(key, "result not tracked")
            continue
        ctx.ob(True if k == (e, True) else refuted(s, []), key, "gives the power reduced by the modulus" + label,
               lazy(s, "power %d%s for exponent %d" % (k[0], "" if k[1] else " (not reduced)", e)))


def items_powmod(ctx):
    out = []
    for key, f, imp in poly_methods(ctx.P, RATIO, {"powmod", "checked_powmod"}):
        for n in (0, 2, 3):
            for e in range(-1, 17):
                if e:
                    out.append(("powmod", key, n, (e, ("prim", "i64"))))
                    out.append(("powmod", key, n, (e, BIGINT)))
    return out


def items_div(ctx):
    P = ctx.P
    out = []
    q = ctx.tier == "quick"
    for T in (BIGINT, RATIO):
        for key, f, imp in poly_methods(P, T, DIVN):
            tr = imp.get("trait")
            if tr not in DIVT:
                continue
            nm = f["name"]
            scalar = not is_poly(peel(P.ty(f["in"][1])))
            if T == BIGINT and not scalar and tr in ("num_traits::CheckedDiv", "num_traits::CheckedRem", "std::ops::Div", "std::ops::Rem",
                                                     "std::ops::DivAssign", "std::ops::RemAssign"):
                continue            # not offered for integer coefficients
            for na in range(4 if q else 5):
                for nb in range(2 if scalar else 4):
                    if na - nb > 2 and not scalar:
                        continue
                    out.append(("division", key, T, na, nb, "any"))
                    if nb and ("exact" in nm or scalar or T == BIGINT and "pseudo" not in nm) and na < 4 and na + nb < 6:
                        out.append(("division", key, T, na, nb, "mul"))
    return out


def C32(ctx):
    ctx.rules.append("abstract interpretation of every division form on generic polynomials of each pair of lengths up to the bound")
    ctx.parallel(items_div(ctx) + items_powmod(ctx), work)


# ------------------------------------------------------------------ content, primitive part, monic and reduced forms
def c_rgcd(nm):
    """greatest common divisor of ratios (an obligation of C40, with its sign left open when an operand is zero)"""
    base = c_gcd(nm)

    def h(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None or a.t != RATIO or b.t != RATIO or nm != "gcd":
            return base(I, st, fn, args, dt)
        out = []
        for s, za in I.branch(st, ("eq", a.p)):
            for s2, zb in [(s, None)] if za else I.branch(s, ("eq", b.p)):
                if za or zb:
                    w = b if za else a
                    out += ret(s2.fork(), w) + ret(s2.fork(), Num(-w.p, RATIO))
                    continue
                s2 = s2.fork()
                f = s2.facts
                u, v = f.norm(a.p), f.norm(b.p)
                d = denominator([u, v])
                if not gt0(s2, d):
                    return None
                out += ret(s2, Num(f.norm(pos_gcd(I, s2, f.norm(u * d), f.norm(v * d)) * d.inv()), RATIO))
        return out
    return h


def denominator(cs):
    d = C(1)
    for c in cs:
        low = {}
        k = 1
        for m, x in (d * c).d.items():
            k = k * x.denominator // math.gcd(k, x.denominator)
            for a, e in m[0]:
                if e < 0:
                    low[a] = max(low.get(a, 0), -e)
        d = d * C(k)
        for a, e in low.items():
            d = d * Poly.atom(_atoms[a]).ipow(e)
    return d


def content_contracts(T):
    c = div_contracts(T)
    c["traits::GCD::gcd"] = c_rgcd("gcd")
    c["num_integer::Integer::gcd"] = c_rgcd("gcd")
    return c


FORMS = {"content", "nonzero_content", "primitive_part", "into_primitive_part", "primitive_part_assign", "monic_assign", "into_monic",
         "nonzero_reducing_factor", "reducing_factor", "reduce_assign", "into_reduced", "to_reduced"}


def form(ctx, key, T, n, pre=None):
    """pre: the sign of the leading coefficient"""
    P = ctx.P
    f = P.fns[key]
    nm = f["name"]
    ctx.I = I = PI(P, content_contracts(T))
    st = State()
    a, x = make_arg(I, st, "a", fn_types(P, key, T)[0], T, n)
    if a is None:
        ctx.undec(key, "operand types")
        return
    if n and pre:
        I.add_fact(st, "gt", C(pre) * x.n[-1])
    label = tlabel(T)
    u = U(ctx, I, key, T, x, [a], None)
    monic = "monic" in nm or T == RATIO and "reduc" in nm

    def scalar(s, r):
        r = I.deref(s, r)
        if not isinstance(r, Num):
            ctx.undec(key, "result not tracked")
            return
        if not x.n:
            u.scal(s, r, C(0), "the zero polynomial has none or zero")
        elif monic:
            u.scal(s, r, u.co(-1), "is the leading coefficient")
        else:
            g = s.facts.norm(r.p)
            ctx.ob(any_of(s, [[(strip(s, C(pre) * g), "gt")]]), key, "has the sign of the leading coefficient" + label, lazy(s, "got %s", g))
            if not nz(s, g):
                return
            qs = [qdiv(s.facts.norm(u.co(i)), g) for i in range(n)]
            if any(q is None for q in qs):
                ctx.undec(key, "quotient by the result")
                return
            qs = [s.facts.norm(q) for q in qs]
            gcd_like(s, qs, "every coefficient is a multiple of it", "nothing larger divides every coefficient", "got %s" % g)

    def gcd_like(s, qs, what, what2, how):
        how = how.replace("%", "")
        den = C(1)
        if not all(whole(q) for q in qs):
            den = denominator(qs)
            ctx.ob(any_of(s, [[(strip(s, den - C(1)), "eq")], [(strip(s, den + C(1)), "eq")]]), key, what + label, lazy(s, how))
            return
        ctx.ob(True, key, what + label)
        ok = coprime(s, qs)
        if not ok:
            g = C(0)
            for e in qs:
                g = gcd_atom("igcd", g, e) if g.d else e
            ok = any_of(s, [[(g - C(1), "eq")], [(g + C(1), "eq")]])
        ctx.ob(ok, key, what2 + label, lazy(s, how))

    def poly(s, r):
        if not x.n:
            u.poly(s, r, ZERO, "the zero polynomial stays zero")
            return
        if monic:
            u.poly(s, r, PolyV([c * x.n[-1].inv() for c in x.n], C(1)), "is the polynomial divided by its leading coefficient")
            return
        r = view(I, s, r)
        if r is None:
            ctx.undec(key, "result not tracked")
            return
        ctx.ob(len(r.n) == n or refuted(s, []), key, "keeps the degree" + label, lazy(s))
        if len(r.n) != n:
            return
        for i in range(n - 1):
            d = s.facts.norm(r.n[i] * x.n[-1] - x.n[i] * r.n[-1])
            ctx.ob(any_of(s, [[(strip(s, d, True), "eq")]]), key, "is proportional to the polynomial" + label, lazy(s, "coefficient %d: %%s" % i, r.n[i]))
        ctx.ob(any_of(s, [[(strip(s, r.n[-1]), "gt")]]), key, "the leading coefficient becomes positive" + label, lazy(s, "leading %s", r.n[-1]))
        eq_ob(ctx, key, s, r.d, C(1), "the coefficients become integers" + label)
        gcd_like(s, [s.facts.norm(c) for c in r.n], "the coefficients become integers", "the coefficients have no common factor", "got %s" % (r.n,))

    for s, kind, v in run(ctx, I, st, key, [a], {"T": T}):
        if kind == "panic":
            if monic and T != RATIO and n > 1:
                continue          # an inexact division
            ctx.ob(refuted(s, []), key, "does not panic" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
        elif nm.startswith("nonzero_"):
            u.opt(s, v, n > 0, "only the zero polynomial has none", lambda r: scalar(s, r))
        elif nm in ("content", "reducing_factor"):
            scalar(s, v)
        else:
            poly(s, a if nm.endswith("_assign") else v)


def items_form(ctx):
    out = []
    L = 4 if ctx.tier == "quick" else 5
    for T in (BIGINT, RATIO):
        for key, f, imp in poly_methods(ctx.P, T, FORMS):
            for n in range(L + 1):
                for pre in (1, -1) if n else (0,):
                    out.append(("form", key, T, n, pre))
    return out


def C33(ctx):
    ctx.rules.append("abstract interpretation of content, primitive part, monic and reduced form on generic polynomials of each length up to the bound")
    ctx.parallel(items_form(ctx), work)


# ------------------------------------------------------------------ Sturm sequences
def c_rem(kind, T):
    """some remainder of the two polynomials (C32): any polynomial of a smaller degree, with any nonzero factor for pseudo-division"""
    def h(I, st, fn, args, dt):
        a, b = view(I, st, args[0]), view(I, st, args[1])
        if a is None or b is None or not b.n:
            return None
        k = sum(e[0] == "rem" for e in st.events)
        out = []
        for n in range(min(len(a.n), len(b.n) - 1) + 1 if len(a.n) < len(b.n) else len(b.n)):
            s = st.fork()
            v, m = mk_poly(I, s, "r%d_" % k, n, T)
            f = C(1)
            if "pseudo" in kind:
                f = Poly.atom(("sym", "f%d" % k))
                I.add_fact(s, "ne", f)
            if T == RATIO and "pseudo" in kind:
                fv = I.sym(s, "f%d" % k, T)
                fn_, fd = I.ratio_nd(s, fv.p)
                I.add_fact(s, "ne", fn_)
                f = s.facts.norm(fv.p)
            s.events = s.events + (("rem", a, b, m, f),)
            q = Opq(("quotient", k), ("adt", POLY, (T,)))
            if "pseudo" in kind:
                t = I.P.norm(dt)
                if kind.startswith("checked"):
                    t = t[2][0]
                names = [x for x, _, _ in I.P.d["adts"][t[1]]["variants"][0][1]]
                w = Agg(t, 0, tuple({"quotient": q, "remainder": v, "factor": Num(f, T)}[x] for x in names))
            elif "div_rem" in kind:
                w = Agg(("tuple", (v.t, v.t)), 0, (q, v))
            else:
                w = v
            out += ret(s, some(w, I.vtype(w)) if kind.startswith("checked") else w)
        return out
    return h


def c_content(I, st, fn, args, dt):
    """content of a rational polynomial (an obligation of C33): some number with the sign of the leading coefficient"""
    a = view(I, st, args[0])
    if a is None:
        return None
    if not a.n:
        return ret(st, none())
    out = []
    for s, pos in I.branch(st, ("gt", a.n[-1])):
        s = s.fork()
        g = I.sym(s, "g%d" % len(s.events), RATIO)
        s.events = s.events + (("content",),)
        n, d = I.ratio_nd(s, g.p)
        I.add_fact(s, "gt", n if pos else -n)
        out += ret(s, some(g, RATIO))
    return out


def rem_contracts(P, T):
    c = content_contracts(T)
    if T == RATIO:
        for key, f, imp in poly_methods(P, T, {"nonzero_content"}):
            c[key] = c_content
    c["std::ops::Rem::rem"] = c_rem("rem", T)
    c["num_traits::CheckedRem::checked_rem"] = c_rem("checked_rem", T)
    for key, f, imp in poly_methods(P, T, {"checked_pseudo_div_rem", "pseudo_div_rem", "checked_div_rem", "div_rem"}):
        if imp.get("trait") is None:
            c[key] = c_rem(f["name"], T)
    return c


def pos_multiple(ctx, I, s, key, r, w, f, name, label):
    """r is a positive multiple of w/f"""
    if len(r.n) != len(w.n):
        ctx.ob(refuted(s, []), key, name + label, lazy(s, "has %d coefficients instead of %d" % (len(r.n), len(w.n))))
        return
    if not w.n:
        ctx.ob(True, key, name + label)
        return
    for i in range(len(w.n) - 1):
        d = s.facts.norm(r.n[i] * w.n[-1] - w.n[i] * r.n[-1])
        ctx.ob(any_of(s, [[(strip(s, d, True), "eq")]]), key, name + label, lazy(s, "coefficient %d: got %%s, want a multiple of %%s" % i, r.n[i], w.n[i]))
    ctx.ob(any_of(s, [[(strip(s, s.facts.norm(r.n[-1] * w.n[-1] * f)), "gt")]]), key, name + label,
           lazy(s, "leading coefficient %s, want the sign of (%s)*(%s)", r.n[-1], w.n[-1], f))


STURM = {"to_sturm_sequence", "into_sturm_sequence", "to_primitive_sturm_sequence", "into_primitive_sturm_sequence"}


def sturm(ctx, key, T, n):
    P = ctx.P
    nm = P.fns[key]["name"]
    ctx.I = I = PI(P, rem_contracts(P, T))
    I.max_traces = 4000
    st = State()
    a, x = make_arg(I, st, "a", fn_types(P, key, T)[0], T, n)
    if a is None:
        ctx.undec(key, "operand types")
        return
    label = tlabel(T)
    u = U(ctx, I, key, T, x, [a], None)
    der = PolyV([C(i) * c for i, c in enumerate(x.n)][1:], x.d)
    for s, kind, v in run(ctx, I, st, key, [a], {"T": T}):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "does not panic" + label, lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
            continue
        v = I.deref(s, v)
        if not isinstance(v, Lst):
            ctx.undec(key, "result not tracked")
            continue
        seq = [view(I, s, y) for y in v.items]
        if any(y is None for y in seq):
            ctx.undec(key, "result not tracked")
            continue
        if n < 2:
            ctx.ob(len(seq) == n or refuted(s, []), key, "a constant has no further member" + label, lazy(s, "%d members" % len(seq)))
            if seq and n:
                u.poly(s, v.items[0], x, "starts with the polynomial")
            continue
        if len(seq) < 2:
            ctx.ob(refuted(s, []), key, "has the derivative as second member" + label, lazy(s, "%d members" % len(seq)))
            continue
        u.poly(s, v.items[0], x, "starts with the polynomial")
        pos_multiple(ctx, I, s, key, seq[1], der, C(1), "the second member is a positive multiple of the derivative", label)
        rems = [e for e in s.events if e[0] == "rem"]
        for i in range(2, len(seq) + 1):
            if i == len(seq) and len(seq[-1].n) <= 1:
                break             # zero or a constant
            what = "each member is a negative multiple of the remainder of the two before it"
            if i == len(seq):
                what = "ends only with a constant or where the remainder is zero"
            if not seq[i - 1].n:
                ctx.ob(refuted(s, []), key, "ends with the first zero" + label, lazy(s))
                break
            for _, p, q, m, f in rems:
                if len(p.n) == len(seq[i - 2].n) and len(q.n) == len(seq[i - 1].n) and related(s, p, seq[i - 2], True) and related(s, q, seq[i - 1], False):
                    pos_multiple(ctx, I, s, key, seq[i] if i < len(seq) else ZERO, pneg(m), f, what, label)
                    break
            else:
                if len(rems) >= i - 1:
                    p, q = rems[i - 2][1], rems[i - 2][2]
                    pos_multiple(ctx, I, s, key, p, seq[i - 2], C(1), "each remainder is of the two members before", label)
                    pos_multiple(ctx, I, s, key, q, seq[i - 1], C(1), "each remainder is of the two members before", label)
                elif i == len(seq):
                    ctx.ob(refuted(s, []), key, what + label, lazy(s, "ends with degree %d" % (len(seq[-1].n) - 1)))
                else:
                    ctx.undec(key, "no remainder seen for a member")
                break


def related(s, p, q, signed):
    """proportional, with a positive factor when signed"""
    if not p.n:
        return not q.n
    f = s.facts
    for i in range(len(p.n) - 1):
        if strip(s, f.norm(p.n[i] * q.n[-1] - q.n[i] * p.n[-1]), True).d:
            return False
    return not signed or gt0(s, f.norm(p.n[-1] * q.n[-1]))


def items_sturm(ctx):
    out = []
    for T in (BIGINT, RATIO):
        for key, f, imp in poly_methods(ctx.P, T, STURM):
            if T == BIGINT and "primitive" not in f["name"]:
                continue          # not offered for integer coefficients
            for n in range(5 if ctx.tier == "quick" else 6):
                out.append(("sturm", key, T, n))
    return out


def C34(ctx):
    ctx.rules.append("abstract interpretation of the Sturm sequence builders with every remainder left free, for each length up to the bound")
    ctx.parallel(items_sturm(ctx), work)


def work(ctx, item):
    globals()[item[0]](ctx, *item[1:])


def C30(ctx):
    ctx.rules.append("abstract interpretation of every ring operation on generic polynomials of each length up to the bound")
    ctx.parallel(items_ring(ctx), work)


def C31(ctx):
    ctx.rules.append("abstract interpretation of every accessor and conversion on generic polynomials of each length up to the bound")
    ctx.parallel(items_access(ctx) + items_conv(ctx) + items_walk(ctx) + items_layer(ctx), work)
