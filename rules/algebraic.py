"""Real algebraic numbers: the value domain.

An abstract real algebraic number carries a ghost real value p: its minimal polynomial is the term
("mp", p) and its interval is a generic interval known to contain p.  The primitives that the
number-theoretic core provides (degree, coefficients, Sturm counts, root selection) act on the ghost
value by contract; everything else is analysed from its MIR.  Each function of the type is analysed
against the value it must produce, with the other functions of the type replaced by what they must
produce (assume / guarantee, one obligation per function)."""
from common import *
from absint import cond_not, canon_sign, UNIT, ORD_T, BOOL_T, USIZE, BIGINT, UNIT_T, INTS, Und
import math
import term
import witness
from fractions import Fraction
from term import NONINT, _atoms, is_integer_valued, default_ints
from models import some, none, ret, panic, num as mnum, to_list, each, okv, errv
from intervals import (DI, is_di, peel, Iv, verdict, any_of, refuted, lazy, describe, eq_ob, run, feasible, entailed,
                       is_scalar)

RAN = "algebraic_numbers::RealAlgebraicNumber"
DATA = "algebraic_numbers::RealAlgebraicNumberData"
POLY = "polynomial::Polynomial"
RAN_T = ("adt", RAN, ())
MAXDEG = 3


def is_ran(t):
    return t[0] == "adt" and t[1].split("~")[0] == RAN


def real(name):
    a = ("real", name)
    NONINT.add(a)
    return Poly.atom(a)


class AI(Interp):
    def __init__(self, prog, contracts, **kw):
        super().__init__(prog, opaque_types={POLY}, contracts=contracts, **kw)
        self.ghosts = []
        self.iso = {}
        witness.ISO = self.iso
        self.log = []
        self.duties = []
        self.entry_vals = []
        self.target_terms = []
        self.di_t = None
        for t in self.P.d["adts"]:
            if t.split("~")[0] == DI:
                self.di_t = ("adt", t, ())
        self.data_t = ("adt", DATA, ())
        self.poly_t = ("adt", POLY, (BIGINT,))

    def targets(self, s):
        return self.target_terms

    # invariants offered to the widening: every interval keeps enclosing the values it encloses
    def candidates(self, st):
        out = []
        for c, v in st.cells.items():
            for path, iv in find_intervals(v, ()):
                for g in self.ghosts:
                    out.append((c, path, g))
        return out

    def cand_conds(self, st, cand):
        c, path, g = cand
        v = st.cells.get(c, UND)
        for i in path:
            if not isinstance(v, Agg) or i >= len(v.f):
                return None
            v = v.f[i]
        if not (isinstance(v, Agg) and is_di(v.t)):
            return None
        iv = Iv(st, v)
        return [("ge", g - iv.L), ("ge", iv.U - g)]


def find_intervals(v, path, depth=0):
    if isinstance(v, Agg) and depth < 6:
        if v.t[0] == "adt" and is_di(v.t):
            yield path, v
            return
        for i, x in enumerate(v.f):
            yield from find_intervals(x, path + (i,), depth + 1)


def ghost(I, p):
    if p not in I.ghosts:
        I.ghosts.append(p)


def mk_iv(I, st, p, tag="ivl"):
    """a generic interval enclosing p"""
    u = I.uid()
    lo, hi, k = (Poly.atom((tag, u, i)) for i in range(3))
    I.add_fact(st, "ge", k)
    I.add_fact(st, "ge", p - lo * pow2(-k))
    I.add_fact(st, "ge", hi * pow2(-k) - p)
    I.add_fact(st, "ge", hi - lo)
    ghost(I, p)
    return Agg(I.di_t, 0, (Num(lo, BIGINT), Num(hi, BIGINT), Num(k, USIZE)))


def mk_ran(I, st, p):
    p = st.facts.norm(p)
    iv = mk_iv(I, st, p)
    I.iso.setdefault(p, []).append(Iv(st, iv))
    return ran_of(I, Opq(("mp", p), I.poly_t), iv)


def ran_of(I, poly, iv):
    return Agg(RAN_T, 0, (Agg(I.data_t, 0, (poly, iv)),))


def fork_irr(I, st, p):
    """[(state, irrational?)]; a rational value gets numerator and denominator"""
    p = st.facts.norm(p)
    out = []
    k = ("irr", p)
    known = st.facts.bools.get(k)
    if known is None:
        for q in ([-p] + ([p.inv(), -p.inv()] if single(p) else [])):
            if ("irr", q) in st.facts.bools:
                known = st.facts.bools[("irr", q)]
                break
    if known is None:
        # a quotient of integers is rational
        if is_rational_term(p):
            known = False
    for v in ([known] if known is not None else [False, True]):
        s = st.fork()
        if not v:
            n, d = ratio_parts(I, s, p)
            s.facts = s.facts.add_bool(k, False)
        else:
            s.facts = s.facts.add_bool(k, True)
            I.add_fact(s, "ne", p)
        if not s.facts.inconsistent():
            out.append((s, v))
    return out


def is_rational_term(p):
    for (at, p2) in p.d:
        for a, e in at:
            if _atoms[a][0] in ("real", "exp", "ln", "rpow"):
                return False
    return True


def ratio_parts(I, st, p):
    if p in I.ratio_parts and st.facts.bools.get(("irr", p)) is False:
        return I.ratio_parts[p]
    if is_rational_term(p):
        return I.ratio_nd(st, p)
    n, d = Poly.atom(("numer", p)), Poly.atom(("denom", p))
    I.add_fact(st, "gt", d)
    I.add_fact(st, "eq", p - n * d.inv())
    I.ratio_parts[p] = (n, d)
    I.ratio_parts[n * d.inv()] = (n, d)
    return n, d


def coef(I, st, p, i):
    """coefficient atoms of the minimal polynomial of an irrational p"""
    return Poly.atom(("coef", p, i))


# ------------------------------------------------------------------ polynomials
def pterm(v):
    return v.term if isinstance(v, Opq) else None


def poly_list(I, st, v):
    """[(state, coefficients)] of a polynomial value"""
    t = pterm(I.deref(st, v))
    if t is None:
        return None
    if t[0] == "poly":
        return [(st, list(t[1]))]
    if t[0] == "mp":
        out = []
        for s, irr in fork_irr(I, st, t[1]):
            if not irr:
                n, d = ratio_parts(I, s, s.facts.norm(t[1]) if s.facts.norm(t[1]) in I.ratio_parts else t[1])
                out.append((s, [Num(-n, BIGINT), Num(d, BIGINT)]))
            else:
                known = s.facts.bools.get(("deg", t[1]))
                for n in ([known] if known else range(2, MAXDEG + 1)):
                    s2 = s.fork()
                    s2.facts = s2.facts.add_bool(("deg", t[1]), n)
                    I.add_fact(s2, "eq", Poly.atom(("deg", t[1])) - C(n))
                    cs = [coef(I, s2, t[1], i) for i in range(n + 1)]
                    I.add_fact(s2, "gt", cs[-1])
                    I.add_fact(s2, "ne", cs[0])
                    if s2.facts.inconsistent():
                        continue
                    out.append((s2, [Num(c, BIGINT) for c in cs]))
        return out
    return None


def mk_poly(I, st, items, t):
    items = list(items)
    while items and is_zero_coef(I, st, items[-1]):
        items.pop()
    return Opq(("poly", tuple(items)), t)


def is_zero_coef(I, st, v):
    v = I.deref(st, v)
    if isinstance(v, Num):
        return st.facts.is_zero(v.p)
    if isinstance(v, Opq) and v.term[0] == "poly":
        return len(v.term[1]) == 0
    return False


def root_of(I, st, v):
    """ghost value that a (minimal polynomial) denotes, or None; and its leading coefficient"""
    t = pterm(I.deref(st, v))
    if t is None:
        return None, None
    if t[0] == "mp":
        return t[1], C(1)
    if t[0] == "poly":
        cs = [I.deref(st, c) for c in t[1]]
        if not all(isinstance(c, Num) for c in cs):
            return None, None
        cs = [st.facts.norm(c.p) for c in cs]
        if len(cs) == 2:
            c1 = cs[1]
            return -cs[0] * c1.inv(), c1
        for g in list(I.ghosts):
            if st.facts.bools.get(("deg", g)) != len(cs) - 1:
                continue
            base = [coef(I, st, g, i) for i in range(len(cs))]
            n = len(cs) - 1
            for sg in (1, -1):
                for kind in ("same", "alt", "rev", "revalt"):
                    b = base if kind in ("same", "alt") else base[::-1]
                    if kind.endswith("alt"):
                        b = [x.scale(1 if i % 2 == n % 2 else -1) for i, x in enumerate(b)]
                    if all((c - x.scale(sg)).is_zero() for c, x in zip(cs, b)):
                        r = {"same": g, "alt": -g, "rev": g.inv(), "revalt": -g.inv()}[kind]
                        return r, cs[-1]
        return None, cs[-1]
    if t[0] == "factor":
        return t[1], C(1)
    return None, None


def value(I, st, v):
    """ghost value of a number, None when the domain does not know it"""
    v = I.deref(st, v)
    if isinstance(v, Opq):
        # an unexpanded number value produced by mk
        return None
    if not (isinstance(v, Agg) and is_ran(v.t)):
        return None
    p, _ = root_of(I, st, v.f[0].f[0])
    return None if p is None else st.facts.norm(p)


def ghosts_in(I, st, iv):
    """ghosts the interval surely encloses"""
    r = Iv(st, iv)
    return [g for g in I.ghosts if st.facts.nonneg(st.facts.norm(g) - r.L) and st.facts.nonneg(r.U - st.facts.norm(g))]


CT = {}


def contract(*names):
    def d(f):
        for n in names:
            CT[n] = f
        return f
    return d


PM = POLY + "::<T>::"
PT = "<" + POLY + "<T> as "


@contract(PT + "std::clone::Clone>::clone")
def c_clone(I, st, fn, args, dt):
    return ret(st, I.deref(st, args[0]))


@contract(PT + "std::clone::Clone>::clone_from")
def c_clone_from(I, st, fn, args, dt):
    s = st.fork()
    I.store(s, args[0], I.deref(s, args[1]))
    return ret(s, UNIT)


@contract(PM + "degree")
def c_degree(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    t = pterm(v)
    if t is None:
        return None
    if t[0] == "poly":
        n = len(t[1])
        return ret(st, some(Num(C(n - 1), USIZE), USIZE) if n else none(USIZE))
    if t[0] == "mp":
        out = []
        for s, irr in fork_irr(I, st, t[1]):
            if irr:
                d = Poly.atom(("deg", t[1]))
                I.add_fact(s, "ge", d - C(2))
                out.append((s, "ret", some(Num(d, USIZE), USIZE)))
            else:
                out.append((s, "ret", some(Num(C(1), USIZE), USIZE)))
        return out
    return None


@contract(PM + "len")
def c_len(I, st, fn, args, dt):
    r = c_degree(I, st, fn, args, dt)
    if r is None:
        return None
    return [(s, k, Num(v.f[0].p + C(1), USIZE) if v.v == 1 else Num(C(0), USIZE)) for s, k, v in r]


@contract(PM + "coefficient", PM + "nonzero_coefficient")
def c_coefficient(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    i = mnum(I, st, args[1])
    t = pterm(v)
    k = i.p.as_const() if i else None
    if t is None or k is None:
        return None
    k = int(k)
    if t[0] == "poly":
        cs = t[1]
        return ret(st, cs[k] if k < len(cs) else Num(C(0), BIGINT))
    if t[0] == "mp":
        out = []
        for s, irr in fork_irr(I, st, t[1]):
            if irr:
                c = coef(I, s, t[1], k)
                if k == 0:
                    I.add_fact(s, "ne", c)
                if s.facts.bools.get(("deg", t[1])) == k:
                    I.add_fact(s, "gt", c)
                out.append((s, "ret", Num(c, BIGINT)))
            else:
                n, d = ratio_parts(I, s, t[1])
                out.append((s, "ret", Num([-n, d][k] if k < 2 else C(0), BIGINT)))
        return out
    return None


@contract(PM + "highest_power_coefficient", PM + "nonzero_highest_power_coefficient")
def c_hpc(I, st, fn, args, dt):
    r = poly_list(I, st, args[0])
    if r is None:
        return None
    opt = "nonzero" in fn["nm"]
    out = []
    for s, cs in r:
        c = I.deref(s, cs[-1]) if cs else Num(C(0), BIGINT)
        out.append((s, "ret", (some(c) if cs else none()) if opt else c))
    return out


@contract(PM + "iter", PT + "std::iter::IntoIterator>::into_iter", "<&'a " + POLY + "<T> as std::iter::IntoIterator>::into_iter",
          PM + "into_coefficients")
def c_iter(I, st, fn, args, dt):
    r = poly_list(I, st, args[0])
    if r is None:
        return None
    if fn["nm"] == "into_coefficients":
        return [(s, "ret", Lst(("adt", "std::vec::Vec", (BIGINT,)), tuple(cs))) for s, cs in r]
    return [(s, "ret", It("list", tuple(cs))) for s, cs in r]


def from_list(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    t = fn["ta_self"] if "ta_self" in fn else dt
    if isinstance(v, Lst):
        return ret(st, mk_poly(I, st, v.items, I.P.norm(dt) if dt else I.poly_t))
    return None


for _n in range(33):
    CT[PT + "std::convert::From<[T; %d]>>::from" % _n] = from_list
CT[PT + "std::convert::From<std::vec::Vec<T>>>::from"] = from_list
CT[PT + "std::convert::From<&[T]>>::from"] = from_list


@contract(PT + "std::convert::From<T>>::from", PT + "std::convert::From<&T>>::from")
def c_from_t(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    return ret(st, mk_poly(I, st, [v], I.P.norm(dt) if dt else ("adt", POLY, (I.vtype(v),))))


@contract("std::iter::Iterator::collect", PT + "std::iter::FromIterator<T>>::from_iter")
def c_collect(I, st, fn, args, dt):
    dt = I.P.norm(dt) if dt else None
    if dt is None or not (dt[0] == "adt" and dt[1] == POLY):
        return None
    return each(I, st, args[0], lambda s, xs: ret(s, mk_poly(I, s, [I.deref(s, x) for x in xs], dt)))


@contract(PT + "std::cmp::PartialEq>::eq", "std::cmp::PartialEq::eq")
def c_peq(I, st, fn, args, dt):
    a, b = I.deref(st, args[0]), I.deref(st, args[1])
    ta, tb = pterm(a), pterm(b)
    if ta is None or tb is None:
        return None
    if ta[0] == "poly" and tb[0] == "mp":
        ta, tb = tb, ta
    if ta[0] == "mp" and tb[0] == "poly" and len(tb[1]) == 2:
        c0, c1 = (I.deref(st, x).p for x in tb[1])
        # a polynomial with a rational root is the minimal polynomial of that root only when equal
        n = st.facts.norm
        return ret(st, Bool(cond_eq(n(ta[1]) + n(c0) * n(c1).inv())))
    if ta[0] == "mp" and tb[0] == "mp":
        if ta[1] == tb[1]:
            return ret(st, Bool(True))
        # conjugates share a minimal polynomial; rationals do not
        if is_rational_term(st.facts.norm(ta[1])) or is_rational_term(st.facts.norm(tb[1])):
            return ret(st, Bool(cond_eq(st.facts.norm(ta[1] - tb[1]))))
        x = tuple(sorted((repr(ta[1]), repr(tb[1]))))
        out = []
        c = cond_eq(st.facts.norm(ta[1] - tb[1]))
        for s, e in I.branch(st, c):
            out.append((s, "ret", Bool(True) if e else Bool(("b", ("mpeq",) + x))))
        return out
    if ta[0] == "poly" and tb[0] == "poly":
        if len(ta[1]) != len(tb[1]):
            return ret(st, Bool(False))
        c = True
        for x, y in zip(ta[1], tb[1]):
            e = cond_eq(I.deref(st, x).p - I.deref(st, y).p)
            c = e if c is True else ("and", c, e)
        return ret(st, Bool(c))
    return None


def cond_eq(p):
    c = p.as_const()
    if c is not None:
        return c == 0
    return ("eq", canon_sign(p))


@contract(PT + "std::cmp::PartialEq>::ne", "std::cmp::PartialEq::ne")
def c_pne(I, st, fn, args, dt):
    r = c_peq(I, st, fn, args, dt)
    return None if r is None else [(s, k, Bool(cond_not(v.c))) for s, k, v in r]


def poly_neg(I, st, fn, args, dt):
    r = poly_list(I, st, args[0])
    if r is None:
        return None
    v0 = I.deref(st, args[0])
    return [(s, "ret", mk_poly(I, s, [neg_coef(I, s, c) for c in cs], v0.t)) for s, cs in r]


def neg_coef(I, s, c):
    c = I.deref(s, c)
    if isinstance(c, Num):
        return Num(-c.p, c.t)
    if isinstance(c, Opq) and c.term[0] == "poly":
        return Opq(("poly", tuple(neg_coef(I, s, x) for x in c.term[1])), c.t)
    raise Budget("negated coefficient")


def add_coef(I, s, a, b):
    a, b = I.deref(s, a), I.deref(s, b)
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(a.p + b.p, a.t)
    if isinstance(a, Opq) and isinstance(b, Opq):
        x, y = list(a.term[1]), list(b.term[1])
        n = max(len(x), len(y))
        return mk_poly(I, s, [x[i] if i >= len(y) else y[i] if i >= len(x) else add_coef(I, s, x[i], y[i])
                              for i in range(n)], a.t)
    raise Budget("sum of coefficients")


def mul_coef(I, s, a, b):
    a, b = I.deref(s, a), I.deref(s, b)
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(a.p * b.p, a.t)
    if isinstance(a, Opq) and isinstance(b, Opq):
        x, y = list(a.term[1]), list(b.term[1])
        if not x or not y:
            return Opq(("poly", ()), a.t)
        out = [None] * (len(x) + len(y) - 1)
        for i, p in enumerate(x):
            for j, q in enumerate(y):
                m = mul_coef(I, s, p, q)
                out[i + j] = m if out[i + j] is None else add_coef(I, s, out[i + j], m)
        return mk_poly(I, s, out, a.t)
    raise Budget("product of coefficients")


def is_poly_v(I, st, v):
    v = I.deref(st, v)
    return isinstance(v, Opq) and v.term and v.term[0] in ("poly", "mp", "monomial", "sum")


def depth_of(I, v):
    """nesting depth of a polynomial value: a scalar is 0"""
    if isinstance(v, Num):
        return 0
    t = v.t
    n = 0
    while t[0] == "adt" and t[1] == POLY:
        n += 1
        t = t[2][0]
    return n


def lift(f):
    def h(I, st, fn, args, dt):
        vs = [I.deref(st, a) for a in args[:2]]
        if not any(is_poly_v(I, st, a) for a in vs) or not all(is_poly_v(I, st, a) or isinstance(a, Num) for a in vs):
            return None
        if any(not isinstance(v, Num) and v.term[0] in ("monomial", "sum") for v in vs):
            return sparse(I, st, fn, vs)
        t = max(vs, key=lambda v: depth_of(I, v)).t
        n = depth_of(I, Opq(("poly", ()), t))
        out = []
        for s, x in as_list(I, st, vs[0], n):
            for s2, y in as_list(I, s, vs[1], n):
                a, b = Opq(("poly", tuple(x)), t), Opq(("poly", tuple(y)), t)
                v = f(I, s2, a, b)
                if fn["nm"].endswith("_assign"):
                    s2 = s2.fork()
                    I.store(s2, args[0], v)
                    out.append((s2, "ret", UNIT))
                else:
                    out.append((s2, "ret", v))
        return out
    return h


def as_list(I, st, v, n):
    """coefficients of v seen as a polynomial of nesting depth n"""
    if depth_of(I, v) == n:
        return poly_list(I, st, v)
    if is_zero_coef(I, st, v):
        return [(st, [])]
    t = BIGINT
    for _ in range(n - 1):
        t = ("adt", POLY, (t,))
    if depth_of(I, v) == n - 1:
        if isinstance(v, Opq) and v.term[0] == "mp":
            return [(s, [Opq(("poly", tuple(xs)), v.t)]) for s, xs in poly_list(I, st, v)]
        return [(st, [v])]
    return [(s, [Opq(("poly", tuple(xs)), t)]) for s, xs in as_list(I, st, v, n - 1)]


def sparse(I, st, fn, vs):
    """sums of monomials with symbolic exponents"""
    if fn["nm"] not in ("add", "sub"):
        return None
    terms = []
    n = max(depth_of(I, v) for v in vs)
    for j, v in enumerate(vs):
        t = monomials(I, st, v, n)
        if t is None:
            return None
        if j and fn["nm"] == "sub":
            t = [(-c, e) for c, e in t]
        terms += t
    return ret(st, Opq(("sum", tuple(terms)), max(vs, key=lambda v: depth_of(I, v)).t))


def monomials(I, st, v, n):
    """[(coefficient, exponents outermost first)] of a polynomial of nesting depth n"""
    v = I.deref(st, v)
    d = depth_of(I, v)
    if d < n:
        r = monomials(I, st, v, n - 1)
        return None if r is None else [(c, (C(0),) + e) for c, e in r]
    if n == 0:
        return [(v.p, ())]
    if v.term[0] == "sum":
        return list(v.term[1])
    if v.term[0] == "monomial":
        r = monomials(I, st, v.term[1], n - 1)
        return None if r is None else [(c, (v.term[2],) + e) for c, e in r]
    if v.term[0] == "poly":
        out = []
        for i, c in enumerate(v.term[1]):
            r = monomials(I, st, c, n - 1)
            if r is None:
                return None
            out += [(x, (C(i),) + e) for x, e in r]
        return out
    return None


def orelse(f, g):
    def h(I, st, fn, args, dt):
        r = f(I, st, fn, args, dt)
        return r if r is not None else g(I, st, fn, args, dt)
    return h


for _op, _f in (("Add", add_coef), ("Mul", mul_coef),
                ("Sub", lambda I, s, a, b: add_coef(I, s, a, neg_coef(I, s, b)))):
    CT["std::ops::%s::%s" % (_op, _op.lower())] = lift(_f)
    CT["std::ops::%sAssign::%s_assign" % (_op, _op.lower())] = lift(_f)


@contract("std::ops::Neg::neg")
def c_neg_any(I, st, fn, args, dt):
    if is_poly_v(I, st, args[0]):
        return poly_neg(I, st, fn, args, dt)
    return None


@contract(PM + "make_monomial")
def c_monomial(I, st, fn, args, dt):
    n = mnum(I, st, args[1])
    k = st.facts.norm(n.p).as_const() if n else None
    t = I.P.norm(dt)
    c = I.deref(st, args[0])
    z = Num(C(0), BIGINT) if isinstance(c, Num) else Opq(("poly", ()), I.vtype(c))
    if k is None:
        return ret(st, Opq(("monomial", c, n.p), t))
    return ret(st, mk_poly(I, st, [z] * int(k) + [c], t))


@contract("num_traits::Zero::zero")
def c_zero(I, st, fn, args, dt):
    t = I.P.norm(dt)
    if t[0] == "adt" and t[1] == POLY:
        return ret(st, Opq(("poly", ()), t))
    return None


@contract("num_traits::One::one")
def c_one(I, st, fn, args, dt):
    t = I.P.norm(dt)
    if t[0] == "adt" and t[1] == POLY:
        e = t[2][0]
        one = Num(C(1), BIGINT) if e == BIGINT else Opq(("poly", (Num(C(1), BIGINT),)), e)
        return ret(st, Opq(("poly", (one,)), t))
    return None


@contract(PM + "to_primitive_sturm_sequence", PM + "into_primitive_sturm_sequence")
def c_sturm(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    t = pterm(v)
    if t is None or t[0] != "mp":
        return None
    return ret(st, Opq(("sturm", t[1]), I.P.norm(dt)))


def sc_t(I, dt):
    return I.P.norm(dt)


@contract("algebraic_numbers::sign_changes_at")
def c_sign_changes(I, st, fn, args, dt):
    """Sturm: the number of sign changes drops by one at the root, nowhere else inside the
    isolating interval"""
    seq = I.deref(st, args[0])
    at = args[1]
    if not (isinstance(seq, Opq) and seq.term[0] == "sturm"):
        return None
    p = seq.term[1]
    out = []
    at = I.deref(st, at)
    for s, vi, f in I.split(st, at):
        nm = I.P.variant_name(I.vtype(at), vi)
        if nm == "Zero":
            a = C(0)
        elif nm == "Value":
            x = I.deref(s, f[0])
            if not isinstance(x, Num):
                return None
            a = s.facts.norm(x.p)
        else:
            return None
        q = s.facts.norm(p)
        inside = s.facts.bools.get(("irr", p)) is False or any(
            s.facts.nonneg(a - w.L) and s.facts.nonneg(w.U - a) for w in I.iso.get(p, []))
        if not inside:
            t = ("sc?", p, a)
            out.append((s, "ret", I.mk(s.fork(), t, sc_t(I, dt))))
            continue
        K = Poly.atom(("sturm0", p))
        I.add_fact(s, "ge", K - C(1))
        br = I.branch(s, simp_c(("gt", q - a)))
        if s.facts.bools.get(("irr", p)):
            if s.facts.nonneg(q - a):
                s = s.fork()
                I.add_fact(s, "gt", q - a)
                br = [(s, True)]
            elif s.facts.nonneg(a - q):
                br = [(s, False)]
        for s2, gt in br:
            if gt:
                out.append((s2, "ret", Agg(sc_t(I, dt), 0, (Num(K, USIZE), Bool(False)))))
                continue
            if s2.facts.bools.get(("irr", p)):
                # an irrational value is not equal to a rational point
                s2 = s2.fork()
                I.add_fact(s2, "gt", a - q)
                if s2.facts.inconsistent():
                    continue
                out.append((s2, "ret", Agg(sc_t(I, dt), 0, (Num(K - C(1), USIZE), Bool(False)))))
                continue
            for s3, eq in I.branch(s2, cond_eq(q - a)):
                out.append((s3, "ret", Agg(sc_t(I, dt), 0, (Num(K - C(1), USIZE), Bool(bool(eq))))))
    return out


def simp_c(c):
    k = c[1].as_const()
    if k is None:
        return c
    return k > 0 if c[0] == "gt" else k >= 0 if c[0] == "ge" else k == 0


def interval_cell(I, st, r):
    """the reference to the interval inside an IntervalShrinker"""
    while isinstance(r, Ref) and isinstance(I.load(st, r), Ref):
        r = I.load(st, r)
    v = I.load(st, r)
    return r, v


def shrink_contract(I, st, fn, args, dt):
    """one refinement step: the interval narrows, keeps the values it is known to enclose"""
    r, v = interval_cell(I, st, args[0])
    if not isinstance(v, Agg):
        return None
    found = []
    find_refs(I, st, v, found, 0)
    if len(found) != 1:
        return None
    s = st.fork()
    old = I.load(s, found[0])
    gs = ghosts_in(I, s, old)
    o = Iv(s, old)
    u = I.uid()
    lo, hi, k = (Poly.atom(("shr", u, i)) for i in range(3))
    I.add_fact(s, "ge", k)
    I.add_fact(s, "ge", hi - lo)
    for g in gs:
        I.add_fact(s, "ge", g - lo * pow2(-k))
        I.add_fact(s, "ge", hi * pow2(-k) - g)
    I.add_fact(s, "ge", lo * pow2(-k) - o.L)
    I.add_fact(s, "ge", o.U - hi * pow2(-k))
    I.store(s, found[0], Agg(old.t, 0, (Num(lo, BIGINT), Num(hi, BIGINT), Num(k, USIZE))))
    I.log.append(("shrink", tuple(gs)))
    s.events = s.events + (("shrink", tuple(gs)),)
    return ret(s, Opq(("shrinkres", u), I.P.norm(dt)))


CT["algebraic_numbers::IntervalShrinker::<'a>::shrink"] = shrink_contract


def derived_interval(I, st, iv, gs, k=None, tag="der", real=None):
    """a generic interval enclosing every ghost in gs; real: (function(evaluate) -> exact bounds of the
    result, terms it reads), used to evaluate the interval at a concrete point"""
    s = st.fork()
    u = I.uid()
    lo, hi, kk = (Poly.atom((tag, u, i)) for i in range(3))
    if k is not None:
        kk = k
    if real:
        fn, reads = real
        kt = kk
        reads = tuple(reads) + (kt,)

        def end(i):
            def h(ev):
                return Fraction([math.floor, math.ceil][i](fn(ev)[i] * Fraction(2) ** int(ev(kt))))
            return h
        for i in range(2):
            witness.REAL[term.atom_id((tag, u, i))] = (end(i), reads)
    I.add_fact(s, "ge", kk)
    I.add_fact(s, "ge", hi - lo)
    for g in gs:
        ghost(I, g)
        I.add_fact(s, "ge", g - lo * pow2(-kk))
        I.add_fact(s, "ge", hi * pow2(-kk) - g)
    return s, Agg(I.di_t, 0, (Num(lo, BIGINT), Num(hi, BIGINT), Num(kk, USIZE)))


def is_iv_v(I, st, v):
    v = I.deref(st, v)
    return isinstance(v, Agg) and is_di(v.t)


@contract(DI + "::recip", DI + "::checked_recip")
def c_recip(I, st, fn, args, dt):
    iv = I.deref(st, args[0])
    if not is_iv_v(I, st, iv):
        return None
    out = []
    r = Iv(st, iv)
    chk = fn["nm"] == "checked_recip"
    for s, pos in I.branch(st, simp_c(("gt", r.lo))):
        for s2, neg in ([(s, False)] if pos else I.branch(s, simp_c(("gt", -r.hi)))):
            if not pos and not neg:
                out.append((s2, "ret", none()) if chk else (s2, "panic", ("division by zero", None)))
                continue
            gs = ghosts_in(I, s2, iv)
            def real(ev, r=r):
                a, b = ev(r.L), ev(r.U)
                if a * b <= 0:
                    raise witness.Bad()
                return 1 / b, 1 / a
            s3, v = derived_interval(I, s2, iv, [s2.facts.norm(g).inv() for g in gs], r.k, real=(real, (r.L, r.U)))
            # the reciprocal keeps the sign of the interval
            w = Iv(s3, v)
            out.append((s3, "ret", some(v, I.di_t) if chk else v))
    return out


def c_mul_iv(I, st, fn, args, dt):
    """interval times interval or ratio: encloses the products of the enclosed values"""
    if not is_iv_v(I, st, args[0]):
        return None
    a = I.deref(st, args[0])
    b = I.deref(st, args[1])
    ga = ghosts_in(I, st, a)
    if is_iv_v(I, st, b):
        gb = ghosts_in(I, st, b)
    elif isinstance(b, Num):
        gb = [st.facts.norm(b.p)]
    else:
        return None
    x = Iv(st, a)
    ends = (Iv(st, b).L, Iv(st, b).U) if is_iv_v(I, st, b) else (st.facts.norm(b.p),) * 2

    def real(ev):
        ps = [ev(p) * ev(q) for p in (x.L, x.U) for q in ends]
        return min(ps), max(ps)
    s, v = derived_interval(I, st, a, [st.facts.norm(x) * st.facts.norm(y) for x in ga for y in gb],
                            real=(real, (x.L, x.U) + ends))
    if fn["nm"].endswith("_assign"):
        I.store(s, args[0], v)
        return ret(s, UNIT)
    return ret(s, v)


def find_refs(I, st, v, out, depth):
    """references to intervals held by a value"""
    if isinstance(v, Ref):
        w = I.load(st, v)
        if isinstance(w, Agg) and is_di(w.t):
            out.append(v)
        return
    if isinstance(v, Agg) and depth < 6:
        for x in v.f:
            find_refs(I, st, x, out, depth + 1)


for _n in ("std::ops::Mul::mul", "std::ops::MulAssign::mul_assign"):
    CT[_n] = orelse(CT[_n], c_mul_iv)


@contract(PM + "resultant", "polynomial::gcd::<impl polynomial::Polynomial<T>>::resultant")
def c_resultant(I, st, fn, args, dt):
    a, b = (I.deref(st, x) for x in args[:2])
    if not (is_poly_v(I, st, a) and is_poly_v(I, st, b)):
        return None
    return ret(st, Opq(("res", a, b), I.P.norm(dt)))


@contract("algebraic_numbers::EvalPoint::add_eval_point")
def c_none(I, st, fn, args, dt):
    return None


def minpoly_sub(I, s, p):
    """rewrite with a(x) = 0 for every enclosed irrational x: the constant coefficient is eliminated"""
    p = s.facts.norm(p)
    for g in I.ghosts:
        n = s.facts.bools.get(("deg", g))
        if s.facts.bools.get(("irr", g)) is False and g in I.ratio_parts:
            gn, gd = I.ratio_parts[g]
            if gn.as_const() is None and len(gn.d) == 1 and gn == Poly.atom(("numer", g)):
                p = term.subst(p, {term.atom_id(("numer", g)): s.facts.norm(g) * gd})
            continue
        if not n or s.facts.bools.get(("irr", g)) is not True:
            continue
        sub = C(0)
        gp = s.facts.norm(g)
        pw = C(1)
        for i in range(1, n + 1):
            pw = pw * gp
            sub = sub - coef(I, s, g, i) * pw
        p = term.subst(p, {term.atom_id(("coef", g, 0)): sub})
    return s.facts.norm(p)


def eval_at(I, s, v, xs):
    """a nested polynomial at the point xs (outermost variable first)"""
    v = I.deref(s, v)
    if isinstance(v, Num):
        return v.p
    if not xs or v.term[0] not in ("poly", "monomial", "sum"):
        return None
    if v.term[0] != "poly":
        ms = monomials(I, s, v, len(xs))
        if ms is None:
            return None
        out = C(0)
        for c, es in ms:
            for x, e in zip(xs, es):
                y = power(I, s, x, e)
                if y is None:
                    return None
                c = c * y
            out = out + c
        return out
    out = C(0)
    pw = C(1)
    for c in v.term[1]:
        y = eval_at(I, s, c, xs[1:])
        if y is None:
            return None
        out = out + y * pw
        pw = pw * xs[0]
    return out


def power(I, s, x, e):
    k = s.facts.norm(e).as_const()
    if k is not None and k >= 0:
        out = C(1)
        for _ in range(int(k)):
            out = out * x
        return out
    h = getattr(I, "sympower", None)
    return h(s, x, e) if h else None


def expand(I, st, v):
    """[(state, v with every minimal polynomial written out)]"""
    v = I.deref(st, v)
    if isinstance(v, Opq) and v.term[0] == "mp":
        return [(s, Opq(("poly", tuple(cs)), v.t)) for s, cs in poly_list(I, st, v)]
    return [(st, v)]


@contract("algebraic_numbers::RootSelector::select_root")
def c_select_root(I, st, fn, args, dt):
    """the selected root is the number that the selector's interval keeps enclosing, provided the
    polynomial vanishes there"""
    sel = args[0]
    res = I.deref(st, args[1])
    if not (isinstance(res, Opq) and res.term[0] == "res"):
        return None
    s = st.fork()
    r = I.alloc(s, sel)
    t = I.vtype(sel)
    out = []
    for s2, kind, iv in I.call(s, {"p": "algebraic_numbers::RootSelector::get_interval", "a": (t,), "nm": "get_interval",
                                   "tr": "algebraic_numbers::RootSelector"}, [r], I.di_t, None):
        if kind == "panic":
            out.append((s2, kind, iv))
            continue
        for s3, L in expand(I, s2, res.term[1]):
            for s4, R in expand(I, s3, res.term[2]):
                w = None
                for tg in I.targets(s4):
                    tg = s4.facts.norm(tg)
                    if any(vanishes(I, s4, L, R, x0, tg) for x0 in base_points(I, s4, tg)):
                        w = tg
                        break
                if w is not None:
                    poly = Opq(("mp", w), I.poly_t)
                elif no_common_root(I, s4, L, R):
                    poly = Opq(("unknown root of", res.term), I.poly_t)
                else:
                    poly = Opq(("undetermined root of", res.term), I.poly_t)
                out.append((s4, "ret", ran_of(I, poly, iv)))
    refs = []
    find_refs(I, s, sel, refs, 0)
    for s2, kind, _ in I.call(s, {"p": "algebraic_numbers::RootSelector::shrink_interval", "a": (t,), "nm": "shrink_interval",
                                  "tr": "algebraic_numbers::RootSelector"}, [r], UNIT_T, None):
        for q in refs:
            done = kind == "panic" or I.load(s2, q) != I.load(s, q)
            if not done:
                x = Iv(s2, I.load(s2, q))
                done = any_of(s2, [[(x.hi - x.lo, "eq")]])
            I.duties.append((done, s2, "a step of the root search refines every operand"))
    return out


# (coefficients of an irreducible polynomial, one of its real roots)
SAMPLES = {
    1: [([-3, 2], 1.5), ([5, 3], -5 / 3.0), ([-2, 1], 2.0), ([3, 1], -3.0), ([-1, 3], 1 / 3.0)],
    2: [([-2, 0, 1], 2 ** 0.5), ([-1, -1, 1], (1 - 5 ** 0.5) / 2), ([-1, -3, 2], (3 + 17 ** 0.5) / 4),
        ([-3, 0, 1], -3 ** 0.5)],
    3: [([-2, 0, 0, 1], 2 ** (1 / 3.0)), ([-1, -1, 0, 1], 1.3247179572447460), ([1, -1, 0, 1], -1.3247179572447460)],
}


def no_common_root(I, s, L, R):
    """True when a concrete choice of operands satisfying the state shows that no expected result is a
    common root of the two polynomials (which is what a root of their resultant is)"""
    import itertools
    ops = [v for v in I.entry_vals if single(v) and any(_atoms[a][0] == "real" for (at, _), _c in v.d.items() for a, _e in at)]
    choices = []
    for v in ops:
        irr = s.facts.bools.get(("irr", v))
        degs = [1] if irr is False else [s.facts.bools.get(("deg", v)) or 2]
        choices.append([x for d in degs for x in SAMPLES[d]])
    others = [v for v in I.entry_vals if v not in ops]
    nums = [[Fraction(n, d) for d in (1, 2, 3) for n in (2, 3, -2, -3, 5) if n % d or d == 1] if o else [] for o in others]
    hits = 0
    for pick in itertools.product(*choices):
        for ex in itertools.product(*nums):
            val = {}
            for v, (cs, x) in zip(ops, pick):
                a = next(iter(v.d))[0][0][0]
                val[a] = x
            env = Env(I, s, val, dict(zip(ops, pick)), dict(zip(others, ex)))
            try:
                if not env.consistent():
                    continue
                ls, rs = (env.points(X) for X in (L, R))
                bad = True
                for t in I.targets(s):
                    w = env.ev(s.facts.norm(t))
                    if env.common(ls, rs, w):
                        bad = False
                if bad:
                    hits += 1
            except (witness.Bad, ZeroDivisionError, OverflowError, KeyError, ValueError, TypeError):
                continue
            if hits >= 2:
                return True
    return False


class Env:
    def __init__(self, I, s, val, picks, nums):
        self.I, self.s, self.val, self.picks = I, s, val, picks
        for k, v in nums.items():
            ((at, p2), c), = k.d.items() if single(k) else (((None, None), None),)
            if at is None:
                raise KeyError()
            n, d = I.ratio_parts.get(k, (k, C(1)))
            for t, x in ((n, v.numerator), (d, v.denominator)):
                if single(t) and t.as_const() is None:
                    self.val[next(iter(t.d))[0][0][0]] = float(x)

    def ev(self, p):
        t = 0.0
        for (at, p2), c in p.d.items():
            v = float(c)
            for a, e in at:
                v *= self.atom(a) ** e
            if p2:
                raise KeyError()
            t += v
        return t

    def atom(self, a):
        if a in self.val:
            return self.val[a]
        t = _atoms[a]
        if t[0] in ("coef", "numer", "denom"):
            cs = self.minpoly(t[1])
            return cs[t[2]] if t[0] == "coef" else -cs[0] if t[0] == "numer" else cs[1]
        if t[0] == "rpow":
            b = self.ev(t[1])
            if b <= 0:
                raise KeyError()
            return b ** self.ev(t[2])
        if t[0] == "floor":
            return float(math.floor(self.ev(t[1])))
        raise KeyError(t[0])

    def minpoly(self, g):
        for v, (cs, x) in self.picks.items():
            n = len(cs) - 1
            for r, k in ((v, "same"), (-v, "alt"), (v.inv(), "rev"), (-v.inv(), "revalt")):
                if r == g:
                    b = list(cs) if k in ("same", "alt") else list(cs)[::-1]
                    if k.endswith("alt"):
                        b = [c * (1 if i % 2 == n % 2 else -1) for i, c in enumerate(b)]
                    return [-c for c in b] if b[-1] < 0 else b
        raise KeyError()

    def consistent(self):
        f = self.s.facts
        for kind, ps in (("ge", f.ge), ("gt", f.gt), ("eq", f.eq), ("ne", f.ne)):
            for p in ps:
                try:
                    x = self.ev(p)
                except KeyError:
                    continue
                if (x < -1e-9 if kind == "ge" else x <= 1e-9 if kind == "gt" else abs(x) > 1e-6 if kind == "eq" else abs(x) < 1e-9):
                    return False
        for k, v in f.bools.items():
            if isinstance(k, tuple) and k[0] == "odd":
                try:
                    x = self.ev(k[1])
                except KeyError:
                    continue
                if (round(x) % 2 == 1) != v:
                    return False
        return True

    def points(self, X):
        """[(coefficient, exponent of x, exponent of y)]"""
        ms = monomials(self.I, self.s, X, 2)
        if ms is None:
            raise KeyError()
        out = []
        for c, (ex, ey) in ms:
            out.append((self.ev(self.s.facts.norm(c)), self.ev(self.s.facts.norm(ex)), self.ev(self.s.facts.norm(ey))))
        return out

    def common(self, ls, rs, w):
        la, ra = uni(ls, w), uni(rs, w)
        if len(la) < 2 or len(ra) < 2:
            return len(la) == 0 or len(ra) == 0
        size = sum(abs(c) for c in ra)
        for z in roots(la):
            v = 0
            sc = 0
            for c in reversed(ra):
                v = v * z + c
                sc = sc * abs(z) + abs(c)
            if abs(v) < 1e-4 * max(sc, 1e-9):
                return True
        return False


def uni(ms, w):
    n = max(int(round(e)) for _, e, _ in ms)
    out = [0.0] * (n + 1)
    for c, ex, ey in ms:
        out[int(round(ex))] += c * w ** int(round(ey))
    while out and abs(out[-1]) < 1e-9:
        out.pop()
    return out


def roots(cs):
    """Durand-Kerner"""
    n = len(cs) - 1
    cs = [c / cs[-1] for c in cs]
    zs = [(0.4 + 0.9j) ** i * (1 + max(abs(c) for c in cs)) ** 0.5 for i in range(n)]
    for _ in range(500):
        d = 0
        for i in range(n):
            v = 0
            for c in reversed(cs):
                v = v * zs[i] + c
            q = 1
            for j in range(n):
                if j != i:
                    q *= zs[i] - zs[j]
            step = v / q if q else 0.01
            zs[i] -= step
            d = max(d, abs(step))
        if d < 1e-13:
            break
    return zs


def base_points(I, s, w):
    out = []
    for g in [s.facts.norm(x) for x in I.entry_vals] + [w]:
        out += [g, -g]
        if single(g):
            out += [g.inv(), -g.inv()]
    h = getattr(I, "extra_points", None)
    return out + (h(s) if h else [])


def single(p):
    return len(p.d) == 1


def vanishes(I, s, L, R, x0, w):
    for P in (L, R):
        e = eval_at(I, s, P, [x0, w])
        if e is None or not minpoly_sub(I, s, e).is_zero():
            return False
    return True


# ------------------------------------------------------------------ the specification
def trunc_cases(I, st, p):
    out = []
    for s, pos in I.branch(st, simp_c(("ge", st.facts.norm(p)))):
        out.append((s, floor(s.facts.norm(p)) if pos else ceil(s.facts.norm(p))))
    return out


def sign_cases(I, st, p):
    """[(state, -1 | 0 | 1)]"""
    out = []
    q = st.facts.norm(p)
    for s, pos in I.branch(st, simp_c(("gt", q))):
        if pos:
            out.append((s, 1))
            continue
        for s2, z in I.branch(s, cond_eq(s.facts.norm(p))):
            if not z:
                I.add_fact(s2, "gt", -s2.facts.norm(p))
            out.append((s2, 0 if z else -1))
    return out


def fl(s, p):
    return floor(s.facts.norm(p))


class Spec:
    """name -> function(I, st, argument values) -> [(state, outcome)], outcome one of
    ("num", term) integer/ratio result, ("ran", term), ("bool", cond), ("ord", sign),
    ("none",), ("some", outcome), ("panic",), ("ok", outcome), ("err",)"""


SPEC = {}


def spec(*names):
    def d(f):
        for n in names:
            SPEC[n] = f
        return f
    return d


M = RAN + "::"


@spec(M + "is_rational")
def s_israt(I, st, a):
    return [(s, ("bool", not irr)) for s, irr in fork_irr(I, st, a[0])]


@spec(M + "is_integer")
def s_isint(I, st, a):
    out = []
    for s, irr in fork_irr(I, st, a[0]):
        out.append((s, ("bool", False if irr else cond_eq(ratio_parts(I, s, a[0])[1] - C(1)))))
    return out


@spec(M + "to_rational")
def s_torat(I, st, a):
    return [(s, ("none",) if irr else ("some", ("num", s.facts.norm(a[0])))) for s, irr in fork_irr(I, st, a[0])]


@spec(M + "to_integer")
def s_toint(I, st, a):
    out = []
    for s, irr in fork_irr(I, st, a[0]):
        if irr:
            out.append((s, ("none",)))
            continue
        for s2, e in I.branch(s, cond_eq(ratio_parts(I, s, a[0])[1] - C(1))):
            out.append((s2, ("some", ("num", a[0])) if e else ("none",)))
    return out


@spec(M + "into_integer_floor", M + "to_integer_floor")
def s_ifloor(I, st, a):
    return [(st, ("num", fl(st, a[0])))]


@spec(M + "into_floor", M + "floor")
def s_floor(I, st, a):
    return [(st, ("ran", fl(st, a[0])))]


@spec(M + "into_integer_ceil", M + "to_integer_ceil")
def s_iceil(I, st, a):
    return [(st, ("num", -fl(st, -a[0])))]


@spec(M + "into_ceil", M + "ceil")
def s_ceil(I, st, a):
    return [(st, ("ran", -fl(st, -a[0])))]


@spec(M + "into_integer_trunc", M + "to_integer_trunc")
def s_itrunc(I, st, a):
    return [(s, ("num", t)) for s, t in trunc_cases(I, st, a[0])]


@spec(M + "into_trunc", M + "trunc")
def s_trunc(I, st, a):
    return [(s, ("ran", t)) for s, t in trunc_cases(I, st, a[0])]


@spec(M + "into_fract", M + "fract")
def s_fract(I, st, a):
    return [(st, ("ran", st.facts.norm(a[0]) - fl(st, a[0])))]


@spec(M + "cmp_with_zero")
def s_cwz(I, st, a):
    return [(s, ("ord", x)) for s, x in sign_cases(I, st, a[0])]


@spec(M + "checked_recip")
def s_crecip(I, st, a):
    out = []
    for s, z in I.branch(st, cond_eq(st.facts.norm(a[0]))):
        out.append((s, ("none",) if z else ("some", ("ran", inv(s, a[0])))))
    return out


def inv_signs(I, s):
    """1/x has the sign of x"""
    for g in list(I.ghosts):
        g = s.facts.norm(g)
        if single(g):
            ((at, p2), c), = g.d.items()
            if not p2 and len(at) == 1 and at[0][1] < 0:
                A = Poly.atom(_atoms[at[0][0]])
                for sg in (1, -1):
                    if s.facts.positive(A.scale(sg)):
                        I.add_fact(s, "gt", A.inv().scale(sg))


def inv(s, p):
    return s.facts.norm(p).inv()


@spec(M + "recip")
def s_recip(I, st, a):
    out = []
    for s, z in I.branch(st, cond_eq(st.facts.norm(a[0]))):
        out.append((s, ("panic",) if z else ("ran", inv(s, a[0]))))
    return out


@spec(M + "negative_one")
def s_n1(I, st, a):
    return [(st, ("ran", C(-1)))]


@spec("<" + RAN + " as num_traits::Zero>::zero")
def s_zero(I, st, a):
    return [(st, ("ran", C(0)))]


@spec("<" + RAN + " as num_traits::One>::one")
def s_one(I, st, a):
    return [(st, ("ran", C(1)))]


@spec(M + "set_negative_one")
def s_sn1(I, st, a):
    return [(st, ("self", ("ran", C(-1))))]


@spec(M + "is_negative_one")
def s_isn1(I, st, a):
    return [(st, ("bool", cond_eq(st.facts.norm(a[0]) + C(1))))]


@spec("<" + RAN + " as num_traits::Zero>::is_zero")
def s_isz(I, st, a):
    return [(st, ("bool", cond_eq(st.facts.norm(a[0]))))]


@spec("<" + RAN + " as num_traits::One>::is_one")
def s_is1(I, st, a):
    return [(st, ("bool", cond_eq(st.facts.norm(a[0]) - C(1))))]


SG = "<" + RAN + " as num_traits::Signed>::"


@spec(SG + "abs")
def s_abs(I, st, a):
    return [(s, ("ran", a[0].scale(x or 1))) for s, x in sign_cases(I, st, a[0])]


@spec(SG + "abs_sub")
def s_abssub(I, st, a):
    return [(s, ("ran", (a[0] - a[1]) if x > 0 else C(0))) for s, x in sign_cases(I, st, a[0] - a[1])]


@spec(SG + "signum")
def s_signum(I, st, a):
    return [(s, ("ran", C(x))) for s, x in sign_cases(I, st, a[0])]


@spec(SG + "is_positive")
def s_ispos(I, st, a):
    return [(s, ("bool", x > 0)) for s, x in sign_cases(I, st, a[0])]


@spec(SG + "is_negative")
def s_isneg(I, st, a):
    return [(s, ("bool", x < 0)) for s, x in sign_cases(I, st, a[0])]


def cmp_spec(name):
    def f(I, st, a):
        out = []
        for s, x in sign_cases(I, st, a[0] - a[1]):
            out.append((s, {"eq": ("bool", x == 0), "ne": ("bool", x != 0), "lt": ("bool", x < 0),
                            "le": ("bool", x <= 0), "gt": ("bool", x > 0), "ge": ("bool", x >= 0),
                            "cmp": ("ord", x), "partial_cmp": ("some", ("ord", x))}[name]))
        return out
    return f


def op_spec(op, form):
    def f(I, st, a):
        p, q = a
        n = st.facts.norm
        wrap = (lambda x: ("self", ("ran", x))) if form == "assign" else (
            (lambda x: ("ok", ("self", ("ran", x)))) if form == "checked_assign" else (
                (lambda x: ("some", ("ran", x))) if form == "checked" else (lambda x: ("ran", x))))
        if op == "add":
            return [(st, wrap(n(p) + n(q)))]
        if op == "sub":
            return [(st, wrap(n(p) - n(q)))]
        if op == "mul":
            return [(st, wrap(n(p) * n(q)))]
        out = []
        for s, z in I.branch(st, cond_eq(n(q))):
            if z:
                out.append((s, {"checked": ("none",), "checked_assign": ("err",)}.get(form, ("panic",))))
            elif op == "div":
                out.append((s, wrap(s.facts.norm(p) * inv(s, q))))
            else:
                for s2, t in trunc_cases(I, s, s.facts.norm(p) * inv(s, q)):
                    out.append((s2, wrap(s2.facts.norm(p) - t * s2.facts.norm(q))))
        return out
    return f


def build_specs(P):
    sp = dict(SPEC)
    traits = {}
    for t, o in (("Add", "add"), ("Sub", "sub"), ("Mul", "mul"), ("Div", "div"), ("Rem", "rem")):
        traits["std::ops::" + t] = (o, "ret")
        traits["std::ops::" + t + "Assign"] = (o, "assign")
    for key, f in P.fns.items():
        imp = P.impl_of(key)
        if not imp or not imp.get("trait") or f.get("mir") is None:
            continue
        if not is_ran(peel(P.ty(imp["self"]))):
            continue
        tr = imp["trait"]
        if tr in traits:
            ta = [peel(P.ty(x)) for x in imp["targs"]]
            if all(is_ran(x) for x in ta):
                sp[key] = op_spec(*traits[tr])
        elif tr == "std::ops::Neg":
            sp[key] = lambda I, st, a: [(st, ("ran", -st.facts.norm(a[0])))]
        elif tr in ("traits::ExactDiv", "traits::ExactDivAssign"):
            sp[key] = op_spec("div", {"checked_exact_div": "checked", "checked_exact_div_assign": "checked_assign",
                                      "exact_div": "ret", "exact_div_assign": "assign"}[f["name"]])
        elif tr in ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord"):
            if f["name"] in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "partial_cmp"):
                sp[key] = cmp_spec(f["name"])
        elif tr == "std::convert::From":
            src = P.ty(imp["targs"][1])
            if is_scalar(src):
                sp[key] = lambda I, st, a: [(st, ("ran", st.facts.norm(a[0])))]
    return sp


# trait-method defaults and std traits reached through the generic path name
GENERIC = {
    "num_traits::Zero::set_zero": lambda I, st, a: [(st, ("self", ("ran", C(0))))],
    "num_traits::One::set_one": lambda I, st, a: [(st, ("self", ("ran", C(1))))],
    "traits::ExactDiv::exact_div": op_spec("div", "ret"),
    "traits::ExactDivAssign::exact_div_assign": op_spec("div", "assign"),
    "std::cmp::PartialEq::ne": cmp_spec("ne"),
    "std::cmp::PartialOrd::lt": cmp_spec("lt"),
    "std::cmp::PartialOrd::le": cmp_spec("le"),
    "std::cmp::PartialOrd::gt": cmp_spec("gt"),
    "std::cmp::PartialOrd::ge": cmp_spec("ge"),
}


def arg_vals(I, st, args):
    """ghost values of the arguments; None when one is not known"""
    out = []
    for a in args:
        v = I.deref(st, a)
        if isinstance(v, Num):
            out.append(st.facts.norm(v.p))
        else:
            p = value(I, st, v)
            if p is None:
                return None
            out.append(p)
    return out


def contract_of(sp):
    """use a specification as the contract of a call"""
    def h(I, st, fn, args, dt):
        vals = [I.deref(st, a) for a in args]
        if not any(isinstance(v, Agg) and is_ran(v.t) for v in vals) and not (
                dt is not None and is_ran(I.P.norm(dt))):
            return None
        av = arg_vals(I, st, args)
        if av is None:
            return None
        out = []
        for s, o in sp(I, st.fork(), av):
            s = s.fork()
            r = build(I, s, o, dt, args)
            out.append((s, r[0], r[1] if r[0] == "ret" else ("panic of the contract", fn.get("span"))))
        return out
    return h


def build(I, s, o, dt, args):
    k = o[0]
    if k == "panic":
        return ("panic", None)
    if k == "none":
        return ("ret", none())
    if k == "some":
        it = I.P.norm(dt) if dt is not None else None
        it = it[2][0] if it is not None and it[0] == "adt" and it[1].endswith("Option") and it[2] else None
        r = build(I, s, o[1], it, args)
        return ("ret", some(r[1], I.vtype(r[1])))
    if k == "ok":
        r = build(I, s, o[1], None, args)
        return ("ret", okv(r[1]))
    if k == "err":
        return ("ret", errv(UNIT))
    if k == "self":
        r = build(I, s, o[1], None, args)
        I.store(s, args[0], r[1])
        return ("ret", UNIT)
    if k == "num":
        p = o[1]
        t = BIGINT
        if dt is not None and I.is_num_t(I.P.norm(dt)):
            t = I.P.norm(dt)
        elif not is_integer_valued(s.facts.norm(p), default_ints):
            t = ("adt", "num_rational::Ratio", (BIGINT,))
        return ("ret", Num(s.facts.norm(p), t))
    if k == "ran":
        return ("ret", mk_ran(I, s, o[1]))
    if k == "bool":
        return ("ret", Bool(o[1]))
    if k == "ord":
        return ("ret", {-1: LESS, 0: EQUAL, 1: GREATER}[o[1]])
    raise Budget("outcome " + k)


# ------------------------------------------------------------------ checking one function
def check_outcome(ctx, key, I, s, kind, v, o, args, entry, label=""):
    """one trace of the body (s, kind, v) against the expected outcome o in state s"""
    k = o[0]
    if k == "or_panic":
        if kind == "panic":
            ctx.ob(any_of(s, o[2]), key, "does not panic where a result is defined" + label,
                   lazy(s, "panics: %s" % str(v[0])[:100].replace("%", "")))
            return
        return check_outcome(ctx, key, I, s, kind, v, o[1], args, entry, label)
    if kind == "panic":
        ctx.ob(k == "panic" or refuted(s, []), key, "does not panic where a result is defined" + label,
               lazy(s, "panics: %s" % str(v[0])[:100].replace("%", "")))
        return
    if k == "panic":
        ctx.ob(refuted(s, []), key, "an undefined operation is rejected" + label, lazy(s, "returns a value"))
        return
    if k == "self":
        return check_outcome(ctx, key, I, s, kind, I.deref(s, args[0]), o[1], args, entry, label)
    if k in ("none", "some", "ok", "err"):
        want = {"none": 0, "some": 1, "ok": 0, "err": 1}[k]
        for s2, vi, f in I.split(s, v):
            ok = vi == want
            ctx.ob(ok or refuted(s2, []), key, "succeeds exactly where the result is defined" + label, lazy(s2))
            if not ok:
                continue
            if k == "some":
                check_outcome(ctx, key, I, s2, kind, f[0], o[1], args, entry, label)
            elif k == "ok":
                check_outcome(ctx, key, I, s2, kind, I.deref(s2, args[0]) if o[1][0] == "self" else f[0],
                              o[1][1] if o[1][0] == "self" else o[1], args, entry, label)
            elif k == "err":
                now, was = value(I, s2, I.deref(s2, args[0])), entry
                ctx.ob(None if now is None else any_of(s2, [[(now - was, "eq")]]), key,
                       "a refused operation leaves the receiver unchanged" + label, lazy(s2))
        return
    if k == "bool":
        if not isinstance(v, Bool):
            ctx.undec(key, "result not tracked")
            return
        for s2, tr in I.branch(s, v.c):
            for s3, want in (I.branch(s2, o[1]) if not isinstance(o[1], bool) else [(s2, o[1])]):
                ctx.ob(tr == want or refuted(s3, []), key, "decides its predicate exactly" + label, lazy(s3, "returns %s" % tr))
        return
    if k == "ord":
        for s2, vi, _ in I.split(s, v):
            ctx.ob(vi - 1 == o[1] or refuted(s2, []), key, "orders by the exact value" + label,
                   lazy(s2, "returns %s" % ["Less", "Equal", "Greater"][vi]))
        return
    if k == "num":
        if not isinstance(v, Num):
            ctx.undec(key, "result not tracked")
            return
        eq_ob(ctx, key, s, s.facts.norm(v.p), s.facts.norm(o[1]), "returns the exact value" + label)
        return
    if k == "ran":
        check_ran(ctx, key, I, s, v, o[1], label)
        return
    raise Budget("outcome")


def check_ran(ctx, key, I, s, v, want, label=""):
    v = I.deref(s, v)
    if not (isinstance(v, Agg) and is_ran(v.t)):
        ctx.undec(key, "result not tracked")
        return
    poly, iv = v.f[0].f
    p, lead = root_of(I, s, poly)
    if p is None:
        t = pterm(I.deref(s, poly))
        ctx.ob(refuted(s, []) if t and t[0] in ("poly", "unknown root of") else None, key,
               "the minimal polynomial is that of the exact result" + label, lazy(s, "polynomial %s" % str(t)[:200].replace("%", "")))
        return
    w = s.facts.norm(want)
    eq_ob(ctx, key, s, s.facts.norm(p), w, "returns the exact value" + label)
    ctx.ob(verdict(s, s.facts.norm(lead), True), key,
           "the minimal polynomial has a positive leading coefficient" + label, lazy(s))
    t = pterm(I.deref(s, poly))
    if t[0] == "poly" and len(t[1]) == 2:
        c0, c1 = (s.facts.norm(I.deref(s, x).p) for x in t[1])
        n, d = I.ratio_nd(s, w) if w not in I.ratio_parts else I.ratio_parts[w]
        ctx.ob(any_of(s, [[(c1 - d, "eq"), (c0 + n, "eq")]]), key,
               "the minimal polynomial is primitive" + label, lazy(s, "coefficients %s, %s", c0, c1))
    if not isinstance(iv, Agg):
        ctx.undec(key, "interval not tracked")
        return
    r = Iv(s, iv)
    if entailed(s, s.facts.norm(p) - w, "eq"):
        w = s.facts.norm(p)
    ctx.ob(verdict(s, w - r.L), key, "the interval encloses the value" + label, lazy(s, "lower %s, value %s", r.L, w))
    ctx.ob(verdict(s, r.U - w), key, "the interval encloses the value" + label, lazy(s, "upper %s, value %s", r.U, w))


def contracts_for(ctx, specs, skip, extra=None):
    ct = dict(CT)
    for k, sp in specs.items():
        if k != skip:
            ct[k] = contract_of(sp)
    for k, sp in GENERIC.items():
        if k not in ct:
            ct[k] = contract_of(sp)
        else:
            ct[k] = chain(ct[k], contract_of(sp))
    # the skipped function may be reached through the generic trait path only by itself
    if extra:
        ct.update(extra)
    return ct


def chain(a, b):
    def h(I, st, fn, args, dt):
        r = a(I, st, fn, args, dt)
        return r if r is not None else b(I, st, fn, args, dt)
    return h


def check_fn(ctx, key, specs, extra=None, ta=None, prep=None):
    P = ctx.P
    f = P.fns[key]
    I = AI(P, contracts_for(ctx, specs, key, extra))
    st = State()
    if prep:
        prep(I)
    args, vals = [], []
    for i, t in enumerate(f["in"]):
        ty = P.norm(P.sub(P.ty(t), ta or {}))
        base = peel(ty)
        if is_ran(base):
            p = real("x%d" % i)
            v = mk_ran(I, st, p)
            vals.append(p)
            if ty[0] == "ref":
                st.cells[("d", ("sym", "a%d" % i))] = v
                v = Ref(("d", ("sym", "a%d" % i)), ())
            args.append(v)
        else:
            v = I.sym(st, "a%d" % i, ty)
            args.append(v)
            w = I.deref(st, v)
            if not isinstance(w, Num):
                ctx.undec(key, "argument type")
                return
            if isinstance(w, Num) and not is_integer_valued(w.p, default_ints):
                I.ghosts.append(w.p)
            vals.append(st.facts.norm(w.p))
    entry = vals[0] if vals else None
    I.entry_vals = list(vals)
    for s, o in specs[key](I, st.fork(), vals):
        while o[0] in ("self", "some", "ok", "or_panic"):
            o = o[1]
        if o[0] == "ran":
            I.target_terms.append(o[1])
            ghost(I, o[1])
    for s, kind, v in run(ctx, I, st, key, args, ta):
        for s2, o in specs[key](I, s.fork(), vals):
            inv_signs(I, s2)
            if feasible(s2):
                check_outcome(ctx, key, I, s2, kind, v, o, args, entry)
    for ok, s, name in I.duties:
        ctx.ob(ok, key, name, lazy(s))
    if I.uninterp:
        ctx.extra["uninterpreted"] = ctx.extra.get("uninterpreted", 0) + sum(I.uninterp.values())
    return I


def main():
    ctx = Ctx("C10")
    specs = build_specs(ctx.P)
    import time
    keys = [k for k in specs if k in ctx.P.fns]
    if len(sys.argv) > 1:
        keys = [k for k in keys if sys.argv[1] in k]
    for k in keys:
        t0 = time.time()
        nv, nu, no = len(ctx.violations), len(ctx.undecided), ctx.obligations
        I = check_fn(ctx, k, specs)
        print("%-3s %3d obs %5.2fs %s %s" % ("ok" if len(ctx.violations) == nv and len(ctx.undecided) == nu and ctx.obligations > no else "??",
              ctx.obligations - no, time.time() - t0, k, dict(I.uninterp) if I and I.uninterp else ""))
        for v in ctx.violations[nv:]:
            print("     V", v[0].split(" :: ")[-1], "|", v[1][:300])
        for u in ctx.undecided[nu:]:
            print("     U", u[1][:300])


if __name__ == "__main__":
    main()
