"""What the analysis knows about the standard library, num-bigint, num-rational and num-traits."""
from fractions import Fraction
from term import Poly, C, A, pow2, floor, ceil, is_integer_valued, default_ints, ONE_M
import math
import absint
from absint import (Num, Bool, Agg, Ref, Opq, Clo, FnV, Lst, It, UND, Und, UNIT, UNIT_T, BIGINT, BIGUINT,
                    USIZE, ORD_T, LESS, EQUAL, GREATER, BOOL_T, INTS, Budget, cond_not, canon_sign)

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret(st, v):
    return [(st, "ret", v)]


def panic(st, fn, msg):
    return [(st, "panic", (msg, fn.get("span")))]


def num(I, st, v):
    v = I.deref(st, v)
    return v if isinstance(v, Num) else None


def opt_t(t):
    return ("adt", "std::option::Option", (t,))


def some(v, t=("other", "?")):
    return Agg(opt_t(t), 1, (v,))


def none(t=("other", "?")):
    return Agg(opt_t(t), 0, ())


def okv(v, t=None):
    return Agg(("adt", "std::result::Result", (("other", "?"), ("other", "?"))), 0, (v,))


def errv(v):
    return Agg(("adt", "std::result::Result", (("other", "?"), ("other", "?"))), 1, (v,))


def width(t):
    if t[0] == "prim" and t[1] in INTS:
        w = t[1][1:]
        return 64 if w == "size" else int(w)
    return None


def trange(t):
    w = width(t)
    if w is None:
        return (0, None) if t == BIGUINT else (None, None)
    if t[1][0] == "u":
        return 0, (1 << w) - 1
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def fits(I, st, p, t):
    """condition that p is representable in t (True/False/None-cond list)"""
    lo, hi = trange(t)
    c = True
    if lo is not None:
        c = ("ge", p - C(lo))
    if hi is not None:
        c2 = ("ge", C(hi) - p)
        c = c2 if c is True else ("and", c, c2)
    return c


def int_cast(I, st, p, ft, t):
    c = p.as_const()
    w = width(t)
    if c is not None and w is not None:
        n = int(c) & ((1 << w) - 1)
        if t[1][0] == "i" and n >> (w - 1):
            n -= 1 << w
        return C(n)
    fl, fh = trange(ft)
    tl, th = trange(t)
    if (tl is None or (fl is not None and fl >= tl)) and (th is None or (fh is not None and fh <= th)):
        return p
    # platform-size conversions are taken to be lossless (listed assumption)
    if I.decide(st, fits(I, st, p, t)) is True:
        return p
    if I.overflow:
        return p - C(1 << w) * floor((p - C(tl)) * C(Fraction(1, 1 << w)))
    if t[1] in ("i64", "usize", "u64", "isize") and ft[1] in ("usize", "i64", "u64", "isize", "u32", "i32"):
        if getattr(I, "lossless_size_casts", True):
            return p
    return Poly.atom(("trunc", t[1], p))


def bounds(f, p):
    """constant interval that contains p, by interval evaluation over the atoms' own bounds"""
    f_lo, f_hi = {}, {}
    for g in f.ge:
        atoms = [m for m in g.d if m != ONE_M]
        if len(atoms) == 1 and len(atoms[0][0]) == 1 and not atoms[0][1] and atoms[0][0][0][1] == 1:
            a, c = atoms[0][0][0][0], g.d[atoms[0]]
            b = -Fraction(g.d.get(ONE_M, 0)) / c
            if c > 0:
                f_lo[a] = max(f_lo.get(a, b), b)
            else:
                f_hi[a] = min(f_hi.get(a, b), b)
    lo = hi = Fraction(0)
    for m, c in p.d.items():
        if m[1]:
            return None
        x, y = Fraction(1), Fraction(1)
        for a, e in m[0]:
            if a not in f_lo or a not in f_hi or e < 0 or e != int(e):
                return None
            l, h = f_lo[a], f_hi[a]
            if e > 1:
                vs = [l ** e, h ** e] + ([Fraction(0)] if l < 0 < h else [])
            else:
                vs = [l, h]
            l, h = min(vs), max(vs)
            vs = [x * l, x * h, y * l, y * h]
            x, y = min(vs), max(vs)
        vs = [c * x, c * y]
        lo += min(vs)
        hi += max(vs)
    return lo, hi


def stays_in(I, st, p, t):
    """branches on p being representable in the fixed-width type t"""
    lo, hi = trange(t)
    if hi is None:
        if lo is None:
            return [(st, True)]
        return I.branch(st, simp(("ge", p)))
    b = bounds(st.facts, st.facts.norm(p))
    if b is not None and lo <= b[0] and b[1] <= hi:
        return [(st, True)]
    return I.branch(st, fits(I, st, p, t))


def checked_arith(f):
    """trait-level arithmetic on fixed-width and unsigned numbers: leaving the type panics"""
    def g(I, st, a, b, fn):
        r = f(I, st, a, b, fn)
        if not I.overflow or r is None:
            return r
        out = []
        for s, kind, v in r:
            if kind != "ret" or trange(v.t) == (None, None):
                out.append((s, kind, v))
                continue
            for s2, ok in stays_in(I, s, v.p, v.t):
                out += [(s2, kind, v)] if ok else panic(s2, fn, "arithmetic overflow")
        return out
    return g


# ------------------------------------------------------------------ MIR binary operators
def cmp_conds(a, b):
    d = b - a
    return d


def compare(op, a, b):
    d = a - b
    if op == "lt":
        return ("gt", -d)
    if op == "le":
        return ("ge", -d)
    if op == "gt":
        return ("gt", d)
    if op == "ge":
        return ("ge", d)
    if op == "eq":
        return ("eq", canon_sign(d))
    return ("ne", canon_sign(d))


def simp(c):
    if isinstance(c, tuple) and c[0] in ("gt", "ge", "eq", "ne"):
        k = c[1].as_const()
        if k is not None:
            return {"gt": k > 0, "ge": k >= 0, "eq": k == 0, "ne": k != 0}[c[0]]
    return c


def tdiv(I, st, a, b):
    """truncating division of integers (as num-integer's / and the primitive operators)"""
    ca, cb = a.as_const(), b.as_const()
    if ca is not None and cb is not None and cb != 0:
        q = abs(int(ca)) // abs(int(cb))
        return [(st, C(q if (ca >= 0) == (cb > 0) else -q))]
    out = []
    for s, pa in I.branch(st, ("ge", a)):
        for s2, pb in I.branch(s, ("gt", b)):
            q = a * b.inv()
            out.append((s2, floor(q) if pa == pb else ceil(q)))
    return out


def binop(I, st, op, a, b):
    o = op.replace("WithOverflow", "").replace("Unchecked", "")
    ov = op.endswith("WithOverflow")

    def r(s, v):
        if ov:
            return (s, Agg(("tuple", (I.vtype(v), BOOL_T)), 0, (v, Bool(False))))
        return (s, v)
    if isinstance(a, Num) and isinstance(b, Num):
        p, q, t = a.p, b.p, a.t
        if o in ("Add", "Sub", "Mul"):
            v = p + q if o == "Add" else p - q if o == "Sub" else p * q
            if ov and I.overflow:
                return [(s, Agg(("tuple", (t, BOOL_T)), 0, (Num(v, t), Bool(not ok)))) for s, ok in stays_in(I, st, v, t)]
            return [r(st, Num(v, t))]
        if o == "Div":
            return [r(s, Num(v, t)) for s, v in tdiv(I, st, p, q)]
        if o == "Rem":
            return [r(s2, Num(p - q * v, t)) for s, v in tdiv(I, st, p, q) for s2 in by_parity(I, s, p, q, v)]
        if o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return [(st, Bool(simp(compare(o.lower(), p, q))))]
        if o == "Cmp":
            return [(s, v) for s, v in three_way(I, st, p, q)]
        cp, cq = p.as_const(), q.as_const()
        if o == "BitAnd" and 1 in (cp, cq) and (cp is None or cq is None):
            c = parity(p if cq == 1 else q)
            if isinstance(c, bool):
                return [r(st, Num(C(int(c)), t))]
            return [r(s, Num(C(int(odd)), t)) for s, odd in I.branch(st, c)]
        if o in ("BitAnd", "BitOr", "BitXor") and cp is not None and cq is not None:
            x, y = int(cp), int(cq)
            return [r(st, Num(C({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[o]), t))]
        if o == "Shl":
            return [r(st, Num(p * pow2(q), t))]
        if o == "Shr":
            return [r(st, Num(floor(p * pow2(-q)), t))]
        v = Poly.atom((o, p, q))
        if I.is_unsigned(t):
            st = st.fork()
            I.add_fact(st, "ge", v)
        return [r(st, Num(v, t))]
    if isinstance(a, Bool) and isinstance(b, Bool):
        if o == "BitAnd":
            return [(st, Bool(c_and(a.c, b.c)))]
        if o == "BitOr":
            return [(st, Bool(cond_not(c_and(cond_not(a.c), cond_not(b.c)))))]
        if o in ("Eq", "Ne", "BitXor"):
            out = []
            for s, x in I.branch(st, a.c):
                same = b.c if x else cond_not(b.c)
                out.append((s, Bool(same if o == "Eq" else cond_not(same))))
            return out
    if isinstance(a, It) and a.kind == "disc" or isinstance(b, It) and b.kind == "disc":
        outs = []
        for s, x in disc_val(I, st, a):
            for s2, y in disc_val(I, s, b):
                outs += binop(I, s2, op, x, y)
        return outs
    if isinstance(a, Opq) and isinstance(b, Opq) and a.term[0] == b.term[0] == "f64":
        (x0, x1), (y0, y1) = a.term[1:], b.term[1:]
        if o in ("Add", "Sub", "Mul") or o == "Div" and (y0 > 0 or y1 < 0):
            f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "Div": lambda x, y: x / y}[o]
            z = [f(x, y) for x in (x0, x1) for y in (y0, y1)]
            return [(st, Opq(("f64", min(z), max(z)), a.t))]
        if o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            f = {"Lt": lambda x, y: x < y, "Le": lambda x, y: x <= y, "Gt": lambda x, y: x > y, "Ge": lambda x, y: x >= y,
                 "Eq": lambda x, y: x == y, "Ne": lambda x, y: x != y}[o]
            z = {f(x, y) for x in (x0, x1) for y in (y0, y1)}
            if len(z) > 1 or o in ("Eq", "Ne") and (x0 != x1 or y0 != y1):
                raise absint.Split()
            return [(st, Bool(z.pop()))]
    ta, tb = I.vterm(st, a), I.vterm(st, b)
    if o in ("Eq", "Ne") and isinstance(a, Opq) and isinstance(b, Opq):
        if ta[0] == "char" and tb[0] == "char":
            return [(st, Bool((ta == tb) == (o == "Eq")))]
        if ta == tb:
            return [(st, Bool(o == "Eq"))]
    if o in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
        return [(st, Bool(("b", (o, ta, tb))))]
    s = st.fork()
    v = I.mk(s, ("bin", o, ta, tb), I.vtype(a))
    return [r(s, v)]


def disc_val(I, st, a):
    if isinstance(a, It) and a.kind == "disc":
        val, et = a.data
        d = I.P.discs(et)
        return [(s, Num(C(d[vi] if d else vi), ("prim", "isize"))) for s, vi, _ in I.split(st, val)]
    return [(st, a)]


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def three_way(I, st, p, q):
    out = []
    for s, lt in I.branch(st, simp(("gt", q - p))):
        if lt:
            out.append((s, LESS))
            continue
        for s2, eq in I.branch(s, simp(("eq", canon_sign(p - q)))):
            out.append((s2, EQUAL if eq else GREATER))
    return out


# ------------------------------------------------------------------ numeric traits
def out_t(I, fn, v):
    return v.t


def arith(name, f, assign):
    def m(I, st, fn, args, dt):
        a = num(I, st, args[0])
        b = num(I, st, args[1]) if len(args) > 1 else None
        if a is None or (len(args) > 1 and b is None):
            return None
        res = f(I, st, a, b, fn)
        if res is None:
            return None
        out = []
        for s, kind, v in res:
            if kind == "panic":
                out.append((s, kind, v))
            elif assign:
                s = s.fork()
                r = args[0]
                while isinstance(I.load(s, r), Ref):
                    r = I.load(s, r)
                I.store(s, r, v)
                out.append((s, "ret", UNIT))
            else:
                out.append((s, "ret", v))
        return out
    return m


def is_ratio(t):
    return t[0] == "adt" and t[1] == "num_rational::Ratio"


def wider(a, b):
    return b if is_ratio(b.t) and not is_ratio(a.t) else a


def f_add(I, st, a, b, fn):
    return ret(st, Num(a.p + b.p, wider(a, b).t))


def f_sub(I, st, a, b, fn):
    return ret(st, Num(a.p - b.p, wider(a, b).t))


def f_mul(I, st, a, b, fn):
    return ret(st, Num(a.p * b.p, wider(a, b).t))


def zero_guard(I, st, b, fn, k):
    out = []
    for s, z in I.branch(st, simp(("eq", canon_sign(b)))):
        if z:
            out += panic(s, fn, "division by zero")
        else:
            out += k(s)
    return out


def f_div(I, st, a, b, fn):
    if is_ratio(a.t) or is_ratio(b.t):
        return zero_guard(I, st, b.p, fn, lambda s: ret(s, Num(a.p * b.p.inv(), wider(a, b).t)))
    return zero_guard(I, st, b.p, fn,
                      lambda s: [(s2, "ret", Num(v, a.t)) for s2, v in tdiv(I, s, a.p, b.p)])


def f_rem(I, st, a, b, fn):
    if is_ratio(a.t) or is_ratio(b.t):
        def k(s):
            q = a.p * b.p.inv()
            return [(s2, "ret", Num(a.p - b.p * (floor(q) if nn else ceil(q)), wider(a, b).t))
                    for s2, nn in I.branch(s, simp(("ge", q)))]
        return zero_guard(I, st, b.p, fn, k)
    return zero_guard(I, st, b.p, fn,
                      lambda s: [(s3, "ret", Num(a.p - b.p * v, a.t)) for s2, v in tdiv(I, s, a.p, b.p)
                                 for s3 in by_parity(I, s2, a.p, b.p, v)])


def by_parity(I, st, p, q, v):
    """the remainder by two is the parity: the facts of one decide the other"""
    if q.as_const() != 2 or p.as_const() is not None:
        return [st]
    c = parity(p)
    if isinstance(c, bool):
        return [st]
    out = []
    for s, odd in I.branch(st, c):
        s = s.fork()
        m = p - v.scale(2)
        if not odd:
            I.add_fact(s, "eq", m)
        elif s.facts.nonneg(p):
            I.add_fact(s, "eq", m - C(1))
        out.append(s)
    return out


def f_shl(I, st, a, b, fn):
    return ret(st, Num(a.p * pow2(b.p), a.t))


def f_shr(I, st, a, b, fn):
    return ret(st, Num(floor(a.p * pow2(-b.p)), a.t))


for tr, nm, f in (("Add", "add", checked_arith(f_add)), ("Sub", "sub", checked_arith(f_sub)), ("Mul", "mul", checked_arith(f_mul)),
                  ("Div", "div", f_div), ("Rem", "rem", f_rem), ("Shl", "shl", f_shl),
                  ("Shr", "shr", f_shr)):
    MODELS["std::ops::%s::%s" % (tr, nm)] = arith(nm, f, False)
    MODELS["std::ops::%sAssign::%s_assign" % (tr, nm)] = arith(nm, f, True)

for tr, nm in (("BitAnd", "bitand"), ("BitOr", "bitor"), ("BitXor", "bitxor")):
    def mk(tr, nm):
        def f(I, st, fn, args, dt):
            a, b = I.deref(st, args[0]), I.deref(st, args[1])
            if isinstance(a, (Num, Bool)) and isinstance(b, (Num, Bool)):
                return [(s, "ret", v) for s, v in binop(I, st, tr, a, b)]
            return None

        def fa(I, st, fn, args, dt):
            a, b = I.deref(st, args[0]), I.deref(st, args[1])
            if isinstance(a, (Num, Bool)) and isinstance(b, (Num, Bool)):
                out = []
                for s, v in binop(I, st, tr, a, b):
                    s = s.fork()
                    I.store(s, args[0], v)
                    out.append((s, "ret", UNIT))
                return out
            return None
        return f, fa
    f1, f2 = mk(tr, nm)
    MODELS["std::ops::%s::%s" % (tr, nm)] = f1
    MODELS["std::ops::%sAssign::%s_assign" % (tr, nm)] = f2


@model("std::ops::Neg::neg")
def m_neg(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return None if a is None else ret(st, Num(-a.p, a.t))


@model("std::ops::Not::not")
def m_not(I, st, fn, args, dt):
    a = I.deref(st, args[0])
    return ret(st, Bool(cond_not(a.c))) if isinstance(a, Bool) else None


def cmpmodel(op):
    def m(I, st, fn, args, dt):
        a, b = I.deref(st, args[0]), I.deref(st, args[1])
        if isinstance(a, Num) and isinstance(b, Num):
            return ret(st, Bool(simp(compare(op, a.p, b.p))))
        if op in ("lt", "le", "gt", "ge") and fn.get("tr") == "std::cmp::PartialOrd":
            # defined through partial_cmp of a type of this crate
            key, ta = I.P.resolve(dict(fn, nm="partial_cmp", p="std::cmp::PartialOrd::partial_cmp", r=None)
                                  if False else {"p": "std::cmp::PartialOrd::partial_cmp", "a": fn["a"],
                                                 "tr": "std::cmp::PartialOrd", "nm": "partial_cmp"})
            if key is not None:
                out = []
                fn2 = {"p": "std::cmp::PartialOrd::partial_cmp", "a": fn["a"], "tr": "std::cmp::PartialOrd",
                       "nm": "partial_cmp", "l": False, "span": fn.get("span")}
                for s, k, v in I.call(st, fn2, args, opt_t(ORD_T), fn.get("span")):
                    if k == "panic":
                        out.append((s, k, v))
                        continue
                    for s2, vi, f in I.split(s, v):
                        if vi == 0:
                            out.append((s2, "ret", Bool(False)))
                            continue
                        for s3, oi, _ in I.split(s2, f[0]):
                            out.append((s3, "ret", Bool({"lt": oi == 0, "le": oi != 2, "gt": oi == 2,
                                                         "ge": oi != 0}[op])))
                return out
        if op in ("eq", "ne"):
            return eq_values(I, st, fn, a, b, op)
        return None
    return m


def eq_values(I, st, fn, a, b, op):
    if isinstance(a, Bool) and isinstance(b, Bool):
        return [(s, "ret", v) for s, v in binop(I, st, op.capitalize(), a, b)]
    key = None
    t = I.vtype(a)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.t[0] == "adt" and (
            a.t[1] in absint.ENUMS) or (isinstance(a, Agg) and isinstance(b, Agg) and a.t[0] == "tuple"):
        if a.v != b.v:
            return ret(st, Bool(op == "ne"))
        outs = [(st, True)]
        for x, y in zip(a.f, b.f):
            nxt = []
            for s, ok in outs:
                if not ok:
                    nxt.append((s, ok))
                    continue
                x2, y2 = I.deref(s, x), I.deref(s, y)
                if isinstance(x2, Num) and isinstance(y2, Num):
                    for s2, v in I.branch(s, simp(compare("eq", x2.p, y2.p))):
                        nxt.append((s2, v))
                else:
                    for s2, k, v in eq_values(I, s, fn, x2, y2, "eq") or []:
                        for s3, vv in I.branch(s2, v.c):
                            nxt.append((s3, vv))
            outs = nxt
        return [(s, "ret", Bool(ok == (op == "eq"))) for s, ok in outs]
    # fieldless or builtin enums, possibly symbolic
    vs = I.P.variants(t) if t[0] == "adt" else None
    if vs is not None and (t[1] in absint.ENUMS) and all(isinstance(x, (Agg, Opq)) for x in (a, b)):
        out = []
        for s, va, fa in I.split(st, a):
            for s2, vb, fb in I.split(s, b):
                if va != vb:
                    out.append((s2, "ret", Bool(op == "ne")))
                elif not fa:
                    out.append((s2, "ret", Bool(op == "eq")))
                else:
                    r = eq_values(I, s2, fn, Agg(("tuple", ()), 0, fa), Agg(("tuple", ()), 0, fb), op)
                    out += r
        return out
    ta, tb = I.vterm(st, a), I.vterm(st, b)
    if ta == tb:
        return ret(st, Bool(op == "eq"))
    if t[0] == "adt" and I.P.is_local_adt(t) and isinstance(a, (Agg, Opq)) and isinstance(b, (Agg, Opq)):
        fd = {"p": "std::cmp::PartialEq::eq", "a": (t, I.vtype(b)), "tr": "std::cmp::PartialEq", "nm": "eq"}
        key, kta = I.P.resolve(fd)
        if key is not None and I.P.fns[key].get("mir") is not None and I.depth < I.max_depth - 4:
            s = st.fork()
            ra, rb = I.alloc(s, a), I.alloc(s, b)
            r = I.call_fn(s, key, kta, [ra, rb])
            if all(k == "panic" or isinstance(v, Bool) for _, k, v in r):
                return [(s, k, v if k == "panic" or op == "eq" else Bool(cond_not(v.c))) for s, k, v in r]
    if isinstance(a, (Opq, Agg)) and isinstance(b, (Opq, Agg)):
        x, y = sorted((ta, tb), key=repr)
        c = ("b", ("same", x, y))
        return ret(st, Bool(c if op == "eq" else cond_not(c)))
    return None


for op in ("lt", "le", "gt", "ge"):
    MODELS["std::cmp::PartialOrd::" + op] = cmpmodel(op)
for op in ("eq", "ne"):
    MODELS["std::cmp::PartialEq::" + op] = cmpmodel(op)


@model("std::cmp::Ord::cmp")
def m_cmp(I, st, fn, args, dt):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    return [(s, "ret", v) for s, v in three_way(I, st, a.p, b.p)]


@model("std::cmp::PartialOrd::partial_cmp")
def m_pcmp(I, st, fn, args, dt):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    return [(s, "ret", some(v, ORD_T)) for s, v in three_way(I, st, a.p, b.p)]


def maxmin(is_max):
    def m(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None:
            return None
        out = []
        for s, ge in I.branch(st, simp(("ge", a.p - b.p))):
            out.append((s, "ret", args[0] if ge == is_max else args[1]))
        return out
    return m


MODELS["std::cmp::Ord::max"] = maxmin(True)
MODELS["std::cmp::Ord::min"] = maxmin(False)
MODELS["std::cmp::max"] = maxmin(True)
MODELS["std::cmp::min"] = maxmin(False)


@model("std::cmp::Ordering::reverse")
def m_reverse(I, st, fn, args, dt):
    return [(s, "ret", Agg(ORD_T, 2 - v, ())) for s, v, _ in I.split(st, args[0])]


def ord_is(f):
    def m(I, st, fn, args, dt):
        return [(s, "ret", Bool(f(v))) for s, v, _ in I.split(st, I.deref(st, args[0]))]
    return m


for nm, f in (("is_lt", lambda v: v == 0), ("is_le", lambda v: v <= 1), ("is_gt", lambda v: v == 2),
              ("is_ge", lambda v: v >= 1), ("is_eq", lambda v: v == 1), ("is_ne", lambda v: v != 1)):
    MODELS["std::cmp::Ordering::" + nm] = ord_is(f)


def const_model(n):
    def m(I, st, fn, args, dt):
        t = I.P.norm(fn["a"][0])
        if I.is_num_t(t):
            return ret(st, Num(C(n), t))
        return None
    return m


MODELS["num_traits::Zero::zero"] = const_model(0)
MODELS["num_traits::One::one"] = const_model(1)
MODELS["num_traits::zero"] = const_model(0)
MODELS["num_traits::one"] = const_model(1)


@model("std::default::Default::default")
def m_default(I, st, fn, args, dt):
    t = I.P.norm(fn["a"][0])
    if I.is_num_t(t):
        return ret(st, Num(C(0), t))
    if t == BOOL_T:
        return ret(st, Bool(False))
    if t[0] == "adt" and t[1] == "std::option::Option":
        return ret(st, none(t[2][0]))
    if t[0] == "adt" and t[1] == "std::vec::Vec":
        return ret(st, Lst(t, ()))
    if t[0] == "adt" and t[1] in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc"):
        return I.call(st, {"p": "std::default::Default::default", "a": (t[2][0],), "nm": "default",
                           "tr": "std::default::Default", "l": False}, [], t[2][0], None)
    if t[0] == "tuple":
        out = [(st, ())]
        for x in t[1]:
            nxt = []
            for s, f in out:
                for s2, k, v in I.call(s, {"p": "std::default::Default::default", "a": (x,), "nm": "default",
                                           "tr": "std::default::Default", "l": False}, [], x, None):
                    nxt.append((s2, f + (v,)))
            out = nxt
        return [(s, "ret", Agg(t, 0, f)) for s, f in out]
    return None


def set_const(n):
    def m(I, st, fn, args, dt):
        a = num(I, st, args[0])
        if a is None:
            return None
        s = st.fork()
        I.store(s, args[0], Num(C(n), a.t))
        return ret(s, UNIT)
    return m


MODELS["num_traits::Zero::set_zero"] = set_const(0)
MODELS["num_traits::One::set_one"] = set_const(1)


def pred(f):
    def m(I, st, fn, args, dt):
        a = num(I, st, args[0])
        return None if a is None else ret(st, Bool(simp(f(a.p))))
    return m


MODELS["num_traits::Zero::is_zero"] = pred(lambda p: ("eq", canon_sign(p)))
MODELS["num_traits::One::is_one"] = pred(lambda p: ("eq", canon_sign(p - C(1))))
MODELS["num_traits::Signed::is_negative"] = pred(lambda p: ("gt", -p))
MODELS["num_traits::Signed::is_positive"] = pred(lambda p: ("gt", p))


def parity(p):
    """canonical 'p is odd' condition"""
    odd = Poly({})
    for m, c in p.d.items():
        if c.denominator != 1:
            return ("b", ("odd", p))
        if m == ONE_M:
            if int(c) % 2:
                odd = odd + C(1)
            continue
        if any(e < 0 for _, e in m[0]) or m[1]:
            return ("b", ("odd", p))
        if int(c) % 2:
            odd = odd + Poly({(tuple((a, 1) for a, e in m[0]), ()): Fraction(1)})
    k = odd.as_const()
    if k is not None:
        return int(k) % 2 == 1
    if odd.d.get(ONE_M):
        return cond_not(("b", ("odd", odd - C(1))))
    return ("b", ("odd", odd))


for b in ("num_integer::Integer::",):
    def m_odd(I, st, fn, args, dt):
        a = num(I, st, args[0])
        return None if a is None else ret(st, Bool(parity(a.p)))

    def m_even(I, st, fn, args, dt):
        a = num(I, st, args[0])
        return None if a is None else ret(st, Bool(cond_not(parity(a.p))))
    MODELS[b + "is_odd"] = m_odd
    MODELS[b + "is_even"] = m_even


@model("num_traits::Signed::abs", "num_traits::abs")
def m_abs(I, st, fn, args, dt):
    a = num(I, st, args[0])
    if a is None:
        return None
    return [(s, "ret", Num(a.p if nn else -a.p, a.t)) for s, nn in I.branch(st, simp(("ge", a.p)))]


for t in INTS:
    if t[0] == "i":
        MODELS["core::num::<impl %s>::abs" % t] = m_abs


@model("num_traits::Signed::signum")
def m_signum(I, st, fn, args, dt):
    a = num(I, st, args[0])
    if a is None:
        return None
    return [(s, "ret", Num(C(v.v - 1), a.t)) for s, v in three_way(I, st, a.p, C(0))]


def int_div(kind):
    def m(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None:
            return None

        def k(s):
            q = a.p * b.p.inv()
            f = floor(q)
            if kind == "div_floor":
                return ret(s, Num(f, a.t))
            if kind == "div_ceil":
                return ret(s, Num(ceil(q), a.t))
            if kind == "mod_floor":
                return ret(s, Num(a.p - b.p * f, a.t))
            if kind == "div_mod_floor":
                return ret(s, Agg(("tuple", (a.t, a.t)), 0, (Num(f, a.t), Num(a.p - b.p * f, a.t))))
            return [(s2, "ret", Agg(("tuple", (a.t, a.t)), 0, (Num(v, a.t), Num(a.p - b.p * v, a.t))))
                    for s2, v in tdiv(I, s, a.p, b.p)]
        return zero_guard(I, st, b.p, fn, k)
    return m


for nm in ("div_floor", "div_ceil", "mod_floor", "div_mod_floor", "div_rem"):
    MODELS["num_integer::Integer::" + nm] = int_div(nm)
    MODELS["num_integer::" + nm] = int_div(nm)


def sym_bin(nm):
    def m(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None:
            return None
        x, y = st.facts.norm(a.p), st.facts.norm(b.p)
        x, y = canon_sign(x), canon_sign(y)
        x, y = sorted((x, y), key=repr)
        s = st.fork()
        v = Poly.atom((nm, x, y))
        I.add_fact(s, "ge", v)
        return ret(s, Num(v, a.t))
    return m


MODELS["num_integer::Integer::gcd"] = sym_bin("gcd")
MODELS["num_integer::Integer::lcm"] = sym_bin("lcm")


@model("num_bigint::BigInt::sqrt", "num_bigint::BigUint::sqrt", "num_integer::Roots::sqrt")
def m_sqrt(I, st, fn, args, dt):
    a = num(I, st, args[0])
    if a is None:
        return None
    out = []
    for s, neg in I.branch(st, simp(("gt", -a.p))):
        if neg:
            out += panic(s, fn, "square root of a negative number")
            continue
        s = s.fork()
        x = s.facts.norm(a.p)
        r = Poly.atom(("isqrt", x))
        I.add_fact(s, "ge", r)
        I.add_fact(s, "ge", x - r * r)
        I.add_fact(s, "gt", r * r + r.scale(2) + C(1) - x)
        out.append((s, "ret", Num(r, a.t)))
    return out


# ------------------------------------------------------------------ conversions
@model("std::convert::From::from", "std::convert::Into::into")
def m_from(I, st, fn, args, dt):
    a = fn["a"]
    if fn["p"].endswith("into"):
        src, dst = a[0], a[1]
    else:
        src, dst = a[1], a[0]
    src, dst = I.P.norm(src), I.P.norm(dst)
    v = args[0]
    if src == dst:
        return ret(st, v)
    n = num(I, st, v)
    if n is not None and I.is_num_t(dst):
        return ret(st, Num(n.p, dst))
    if n is not None and dst[0] == "tuple" and len(dst[1]) == 2 and is_ratio(n.t):
        s = st.fork()
        x, y = I.ratio_nd(s, s.facts.norm(n.p))
        return ret(s, Agg(dst, 0, (Num(x, dst[1][0]), Num(y, dst[1][1]))))
    if isinstance(v, Agg) and v.t[0] == "tuple" and is_ratio(dst):
        x, y = v.f
        if isinstance(x, Num) and isinstance(y, Num):
            return zero_guard(I, st, y.p, fn, lambda s: ret(s, Num(x.p * y.p.inv(), dst)))
    if dst[0] == "adt" and dst[1] == "std::option::Option" and dst[2][0] == src:
        return ret(st, some(v, src))
    if dst[0] == "adt" and dst[1] in ("std::sync::Arc", "std::boxed::Box"):
        return ret(st, v)
    if dst[0] == "adt" and dst[1] == "std::vec::Vec" and isinstance(I.deref(st, v), Lst):
        return ret(st, Lst(dst, I.deref(st, v).items))
    if fn["p"].endswith("into"):
        # Into is From the other way round
        fn2 = {"p": "std::convert::From::from", "a": (dst, src), "tr": "std::convert::From", "nm": "from",
               "l": False, "span": fn.get("span")}
        key, ta = I.P.resolve(fn2)
        if key is not None:
            return I.call(st, fn2, args, dt, fn.get("span"))
        return None
    return None


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_try(I, st, fn, args, dt):
    n = num(I, st, args[0])
    a = fn["a"]
    dst = a[1] if fn["p"].endswith("into") else a[0]
    if n is not None and I.is_num_t(dst):
        out = []
        for s, ok in I.branch(st, fits(I, st, n.p, dst)):
            out.append((s, "ret", okv(Num(n.p, dst)) if ok else errv(Opq(("tryerr",), ("other", "?")))))
        return out
    return None


for t in INTS:
    def mk(t):
        def to(I, st, fn, args, dt):
            n = num(I, st, args[0])
            if n is None:
                return None
            T = ("prim", t)
            return [(s, "ret", some(Num(n.p, T), T) if ok else none(T))
                    for s, ok in I.branch(st, fits(I, st, n.p, T))]

        def fr(I, st, fn, args, dt):
            n = num(I, st, args[0])
            T = I.P.norm(fn["a"][0])
            if n is None or not I.is_num_t(T):
                return None
            c = fits(I, st, n.p, T)
            if T[0] == "param":
                c = ("b", ("fits", T, st.facts.norm(n.p)))
            return [(s, "ret", some(Num(n.p, T), T) if ok else none(T))
                    for s, ok in I.branch(st, c)]

        def chk(op):
            def m(I, st, fn, args, dt):
                a, b = num(I, st, args[0]), num(I, st, args[1])
                T = a.t
                p = {"add": lambda: a.p + b.p, "sub": lambda: a.p - b.p, "mul": lambda: a.p * b.p}[op]()
                return [(s, "ret", some(Num(p, T), T) if ok else none(T))
                        for s, ok in I.branch(st, fits(I, st, p, T))]
            return m
        MODELS["num_traits::ToPrimitive::to_" + t] = to
        MODELS["num_traits::FromPrimitive::from_" + t] = fr
        for op in ("add", "sub", "mul"):
            MODELS["core::num::<impl %s>::checked_%s" % (t, op)] = chk(op)

        def unary(nm):
            def m(I, st, fn, args, dt):
                a = num(I, st, args[0])
                c = a.p.as_const()
                w = width(a.t)
                if c is not None:
                    n = int(c) & ((1 << w) - 1)
                    if nm == "leading_zeros":
                        return ret(st, Num(C(w - n.bit_length()), ("prim", "u32")))
                    if nm == "trailing_zeros":
                        return ret(st, Num(C(w if n == 0 else (n & -n).bit_length() - 1), ("prim", "u32")))
                if nm == "leading_zeros":
                    out = []
                    for s, neg in I.branch(st, simp(("gt", -a.p))):
                        if neg:
                            out.append((s, "ret", Num(C(0), ("prim", "u32"))))
                            continue
                        for s2, b in bit_length(I, s, a.p):
                            s2 = s2.fork()
                            I.add_fact(s2, "ge", C(w) - b)
                            out.append((s2, "ret", Num(C(w) - b, ("prim", "u32"))))
                    return out
                s = st.fork()
                v = Poly.atom((nm, s.facts.norm(a.p), t))
                I.add_fact(s, "ge", v)
                return ret(s, Num(v, ("prim", "u32")))
            return m
        for nm in ("leading_zeros", "trailing_zeros"):
            MODELS["core::num::<impl %s>::%s" % (t, nm)] = unary(nm)

        def m_minv(I, st, fn, args, dt):
            return ret(st, Num(C(trange(("prim", t))[0]), ("prim", t)))

        def m_maxv(I, st, fn, args, dt):
            return ret(st, Num(C(trange(("prim", t))[1]), ("prim", t)))
        MODELS["core::num::<impl %s>::min_value" % t] = m_minv
        MODELS["core::num::<impl %s>::max_value" % t] = m_maxv

        def m_wabs(I, st, fn, args, dt):
            a = num(I, st, args[0])
            lo = trange(a.t)[0]
            out = []
            for s, nn in I.branch(st, simp(("ge", a.p))):
                if nn:
                    out.append((s, "ret", a))
                    continue
                for s2, mn in I.branch(s, simp(("eq", canon_sign(a.p - C(lo))))):
                    out.append((s2, "ret", Num(C(lo) if mn else -a.p, a.t)))
            return out
        if t[0] == "i":
            MODELS["core::num::<impl %s>::wrapping_abs" % t] = m_wabs
    mk(t)

for op in ("add", "sub", "mul"):
    def mkc(op):
        def m(I, st, fn, args, dt):
            a, b = num(I, st, args[0]), num(I, st, args[1])
            if a is None or b is None:
                return None
            p = {"add": lambda: a.p + b.p, "sub": lambda: a.p - b.p, "mul": lambda: a.p * b.p}[op]()
            c = fits(I, st, p, a.t)
            if c is True and a.t[0] == "param":
                c = ("b", ("fits", a.t, st.facts.norm(p)))
            return [(s, "ret", some(Num(p, a.t), a.t) if ok else none(a.t)) for s, ok in I.branch(st, c)]
        return m
    MODELS["num_traits::Checked%s::checked_%s" % (op.capitalize(), op)] = mkc(op)


def quotient_fits(I, st, a, b, t):
    """branches on a / b being representable: only MIN / -1 is not"""
    lo, hi = trange(t)
    if lo is None or hi is None or lo == 0:
        return [(st, True)]
    out = []
    for s, m1 in I.branch(st, simp(("eq", canon_sign(b + C(1))))):
        if not m1:
            out.append((s, True))
        else:
            out += [(s2, not mn) for s2, mn in I.branch(s, simp(("eq", canon_sign(a - C(lo)))))]
    return out


def checked_divrem(kind):
    def m(I, st, fn, args, dt):
        a, b = num(I, st, args[0]), num(I, st, args[1])
        if a is None or b is None:
            return None
        out = []
        for s, z in I.branch(st, simp(("eq", canon_sign(b.p)))):
            if z:
                out.append((s, "ret", none(a.t)))
            elif is_ratio(a.t):
                out.append((s, "ret", some(Num(a.p * b.p.inv(), a.t), a.t)))
            else:
                for s2, v in tdiv(I, s, a.p, b.p):
                    r = v if kind == "div" else a.p - b.p * v
                    for s3, ok in quotient_fits(I, s2, a.p, b.p, a.t):
                        out.append((s3, "ret", some(Num(r, a.t), a.t) if ok else none(a.t)))
        return out
    return m


MODELS["num_traits::CheckedDiv::checked_div"] = checked_divrem("div")
MODELS["num_traits::CheckedRem::checked_rem"] = checked_divrem("rem")


@model("num_bigint::BigInt::to_biguint")
def m_tobu(I, st, fn, args, dt):
    n = num(I, st, args[0])
    return [(s, "ret", some(Num(n.p, BIGUINT), BIGUINT) if ok else none(BIGUINT))
            for s, ok in I.branch(st, simp(("ge", n.p)))]


@model("num_bigint::ToBigInt::to_bigint")
def m_tobi(I, st, fn, args, dt):
    n = num(I, st, args[0])
    return None if n is None else ret(st, some(Num(n.p, BIGINT), BIGINT))


@model("num_bigint::BigInt::sign")
def m_bsign(I, st, fn, args, dt):
    n = num(I, st, args[0])
    t = ("adt", "num_bigint::Sign", ())
    return [(s, "ret", Agg(t, v.v, ())) for s, v in three_way(I, st, n.p, C(0))]


@model("num_bigint::BigInt::bits", "num_bigint::BigUint::bits")
def m_bits(I, st, fn, args, dt):
    n = num(I, st, args[0])
    t = I.P.norm(dt) if dt else ("prim", "u64")
    return [(s, "ret", Num(b, t)) for s, b in bit_length(I, st, n.p)]


def power_of_two(p):
    """e when p is literally 2^e"""
    if len(p.d) != 1:
        return None
    ((at, p2), c), = p.d.items()
    if at or c <= 0 or c.numerator & (c.numerator - 1) or c.denominator & (c.denominator - 1):
        return None
    e = C(c.numerator.bit_length() - c.denominator.bit_length())
    for m, k in p2:
        e = e + Poly({m: k})
    return e


def bit_length(I, st, p):
    """[(state, number of bits of |p|)]: 2^(b-1) <= |p| < 2^b, 0 for 0"""
    out = []
    for s, z in I.branch(st, simp(("eq", canon_sign(p)))):
        if z:
            out.append((s, C(0)))
            continue
        for s2, pos in I.branch(s, simp(("gt", p))):
            s2 = s2.fork()
            x = s2.facts.norm(p if pos else -p)
            c = x.as_const()
            if c is not None and c.denominator == 1:
                out.append((s2, C(int(c).bit_length())))
                continue
            e = power_of_two(x)
            if e is not None:
                out.append((s2, e + C(1)))
                continue
            e = power_of_two(x + C(1))
            if e is not None:
                # 2^e - 1, not zero
                out.append((s2, e))
                continue
            b = Poly.atom(("bits", x))
            I.add_fact(s2, "ge", b - C(1))
            I.add_fact(s2, "ge", C(1 << 62) - b)
            I.add_fact(s2, "ge", x - pow2(b - C(1)))
            I.add_fact(s2, "ge", pow2(b) - C(1) - x)
            out.append((s2, b))
    return out


# ------------------------------------------------------------------ ratios
RAT = "num_rational::Ratio::<T>::"


@model(RAT + "new", RAT + "new_raw")
def m_rnew(I, st, fn, args, dt):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    t = ("adt", "num_rational::Ratio", (a.t,))
    raw = fn["p"].endswith("raw")
    if raw and b.p.as_const() is None:
        return ret(st, Num(a.p * b.p.inv(), t))
    return zero_guard(I, st, b.p, fn, lambda s: ret(s, Num(a.p * b.p.inv(), t)))


@model(RAT + "from_integer")
def m_rfi(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return ret(st, Num(a.p, ("adt", "num_rational::Ratio", (a.t,))))


@model(RAT + "floor")
def m_rfloor(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return ret(st, Num(floor(st.facts.norm(a.p)), a.t))


@model(RAT + "ceil")
def m_rceil(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return ret(st, Num(ceil(st.facts.norm(a.p)), a.t))


def truncate(I, st, p):
    if is_integer_valued(p, default_ints):
        return [(st, p)]
    return [(s, floor(p) if nn else ceil(p)) for s, nn in I.branch(st, simp(("ge", p)))]


@model(RAT + "trunc")
def m_rtrunc(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return [(s, "ret", Num(v, a.t)) for s, v in truncate(I, st, st.facts.norm(a.p))]


@model(RAT + "fract")
def m_rfract(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return [(s, "ret", Num(a.p - v, a.t)) for s, v in truncate(I, st, st.facts.norm(a.p))]


@model(RAT + "round")
def m_rround(I, st, fn, args, dt):
    a = num(I, st, args[0])
    h = C(Fraction(1, 2))
    return [(s, "ret", Num(floor(a.p + h) if nn else ceil(a.p - h), a.t))
            for s, nn in I.branch(st, simp(("ge", a.p)))]


@model(RAT + "to_integer")
def m_rtoint(I, st, fn, args, dt):
    a = num(I, st, args[0])
    t = a.t[2][0] if is_ratio(a.t) else a.t
    return [(s, "ret", Num(v, t)) for s, v in truncate(I, st, st.facts.norm(a.p))]


@model(RAT + "recip")
def m_rrecip(I, st, fn, args, dt):
    a = num(I, st, args[0])
    return zero_guard(I, st, a.p, fn, lambda s: ret(s, Num(a.p.inv(), a.t)))


@model(RAT + "is_integer")
def m_risint(I, st, fn, args, dt):
    a = num(I, st, args[0])
    p = st.facts.norm(a.p)
    if is_integer_valued(p, default_ints):
        return ret(st, Bool(True))
    return ret(st, Bool(("eq", canon_sign(p - floor(p)))))


def rpart(i):
    def m(I, st, fn, args, dt):
        a = num(I, st, args[0])
        s = st.fork()
        nd = I.ratio_nd(s, s.facts.norm(a.p))
        t = a.t[2][0]
        return ret(s, I.alloc(s, Num(nd[i], t)))
    return m


MODELS[RAT + "numer"] = rpart(0)
MODELS[RAT + "denom"] = rpart(1)


# ------------------------------------------------------------------ clone / memory
@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec")
def m_clone(I, st, fn, args, dt):
    v = args[0]
    w = I.load(st, v)
    if fn["p"].endswith("to_vec"):
        w = I.deref(st, w)
    return ret(st, w)


@model("std::clone::Clone::clone_from")
def m_clone_from(I, st, fn, args, dt):
    s = st.fork()
    I.store(s, args[0], I.load(s, args[1]))
    return ret(s, UNIT)


@model("std::mem::swap")
def m_swap(I, st, fn, args, dt):
    s = st.fork()
    a, b = I.load(s, args[0]), I.load(s, args[1])
    I.store(s, args[0], b)
    I.store(s, args[1], a)
    return ret(s, UNIT)


@model("std::mem::replace")
def m_replace(I, st, fn, args, dt):
    s = st.fork()
    a = I.load(s, args[0])
    I.store(s, args[0], args[1])
    return ret(s, a)


@model("std::mem::take")
def m_take(I, st, fn, args, dt):
    t = fn["a"][0]
    out = []
    for s, k, v in I.call(st, {"p": "std::default::Default::default", "a": (t,), "nm": "default",
                               "tr": "std::default::Default", "l": False}, [], t, None):
        if k == "panic":
            out.append((s, k, v))
            continue
        s = s.fork()
        a = I.load(s, args[0])
        I.store(s, args[0], v)
        out.append((s, "ret", a))
    return out


@model("std::mem::drop", "std::mem::forget")
def m_drop(I, st, fn, args, dt):
    return ret(st, UNIT)


@model("std::convert::identity", "std::hint::must_use", "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new",
       "std::rc::Rc::<T>::new", "std::iter::IntoIterator::into_iter", "std::hint::black_box")
def m_ident(I, st, fn, args, dt):
    if fn["p"].endswith("into_iter"):
        return into_iter(I, st, args[0], fn)
    return ret(st, args[0])


@model("std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref", "std::borrow::BorrowMut::borrow_mut",
       "std::convert::AsMut::as_mut")
def m_borrow(I, st, fn, args, dt):
    t = fn["a"]
    if fn["p"].startswith("std::borrow::Borrow") and len(t) == 2:
        if t[0] == t[1]:
            return ret(st, args[0])
        if t[0][0] == "ref" and t[0][2] == t[1]:
            return ret(st, I.load(st, args[0]))
    return m_deref(I, st, fn, args, dt)


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def m_deref(I, st, fn, args, dt):
    r = args[0]
    v = I.load(st, r)
    if isinstance(v, Ref):
        return ret(st, v)
    t = I.vtype(v)
    if t[0] == "adt" and t[1] == "std::borrow::Cow":
        out = []
        for s, vi, f in I.split(st, v):
            if vi == 0:
                out.append((s, "ret", f[0]))
            else:
                out.append((s, "ret", Ref(r.cell, r.path + (("d", 1), ("f", 0)))))
        return out
    if isinstance(v, Lst) or (t[0] == "adt" and t[1] in ("std::vec::Vec", "std::sync::Arc", "std::boxed::Box",
                                                          "std::rc::Rc")):
        return ret(st, r)
    if isinstance(v, (Num, Agg)) and t[0] == "adt" and t[1] not in ("std::sync::RwLockReadGuard",):
        # Arc/Box are kept transparent
        ft = fn["a"][0]
        if ft[0] == "adt" and ft[1] in ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc"):
            return ret(st, r)
    return None


@model("std::borrow::Cow::<'_, B>::into_owned", "std::borrow::Cow::<'_, B>::to_mut")
def m_into_owned(I, st, fn, args, dt):
    v = I.deref(st, args[0]) if not isinstance(args[0], (Agg, Opq)) else args[0]
    out = []
    for s, vi, f in I.split(st, v):
        x = f[0]
        if vi == 0:
            x = I.load(s, x)
            if isinstance(x, Ref):
                x = I.deref(s, x)
        out.append((s, "ret", x))
    return out


@model("lazy_static::lazy::Lazy::<T>::get")
def m_lazy(I, st, fn, args, dt):
    cell = None
    if isinstance(args[0], Ref):
        cell = ("lazy",) + args[0].cell[1:]
        if cell in st.cells:
            return ret(st, Ref(cell, ()))
    out = []
    for s, k, v in I.call_value(st, args[1], []):
        if k == "panic":
            out.append((s, k, v))
            continue
        s = s.fork()
        c = cell or ("lazy", I.uid())
        s.cells[c] = v
        out.append((s, "ret", Ref(c, ())))
    return out


@model("std::boxed::Box::<T>::new_uninit")
def m_uninit(I, st, fn, args, dt):
    s = st.fork()
    return ret(s, I.alloc(s, UND))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_intovec(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    while isinstance(v, Agg):
        v = [x for x in v.f if not isinstance(x, Und)][0]
    return ret(st, Lst(dt or v.t, v.items) if isinstance(v, Lst) else v)


# ------------------------------------------------------------------ panics and formatting
def m_panic(I, st, fn, args, dt):
    msg = "panic"
    for a in args:
        v = I.deref(st, a)
        if isinstance(v, Opq) and v.term[0] == "str":
            msg = v.term[1]
    return panic(st, fn, msg)


for p in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::assert_failed",
          "core::panicking::unreachable_default_msg", "core::panicking::unreachable_display",
          "core::panicking::unimplemented_default_msg", "std::rt::begin_panic", "std::rt::panic_fmt",
          "core::panicking::panic_explicit", "core::panicking::panic_display", "std::process::abort",
          "core::panicking::panic_const::panic_const_div_by_zero", "core::panicking::panic_bounds_check"):
    MODELS[p] = m_panic


def m_fmt(I, st, fn, args, dt):
    return ret(st, Opq(("fmt",), dt or ("other", "?")))


for p in ("std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::from_str",
          "std::fmt::Arguments::<'a>::from_str_nonconst",
          "core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug"):
    MODELS[p] = m_fmt


# ------------------------------------------------------------------ Option / Result / Try
OPT = "std::option::Option::<T>::"
RES = "std::result::Result::<T, E>::"


def enum_model(names, f):
    def m(I, st, fn, args, dt):
        a = args[0]
        by_ref = isinstance(a, Ref)
        v = I.deref(st, a)
        out = []
        for s, vi, fl in I.split(st, v):
            out += f(I, s, fn, vi, fl, args, a)
        return out
    for n in names:
        MODELS[n] = m


def e_expect(I, s, fn, vi, fl, args, a):
    if vi == 1:
        return ret(s, fl[0])
    msg = fn["nm"]
    if len(args) > 1:
        v = I.deref(s, args[1])
        if isinstance(v, Opq) and v.term[0] == "str":
            msg = v.term[1]
    return panic(s, fn, msg)


enum_model([OPT + "expect", OPT + "unwrap"], e_expect)


def r_expect(I, s, fn, vi, fl, args, a):
    return ret(s, fl[0]) if vi == 0 else panic(s, fn, fn["nm"])


enum_model([RES + "expect", RES + "unwrap"], r_expect)
enum_model([OPT + "is_some", RES + "is_err"], lambda I, s, fn, vi, fl, args, a: ret(s, Bool(vi == 1)))
enum_model([OPT + "is_none", RES + "is_ok"], lambda I, s, fn, vi, fl, args, a: ret(s, Bool(vi == 0)))


def call_map(I, s, f, xs, wrap):
    return [(s2, k, wrap(v) if k == "ret" else v) for s2, k, v in I.call_value(s, f, xs)]


enum_model([OPT + "map"], lambda I, s, fn, vi, fl, args, a:
           ret(s, none()) if vi == 0 else call_map(I, s, args[1], [fl[0]], lambda v: some(v, I.vtype(v))))
enum_model([OPT + "and_then"], lambda I, s, fn, vi, fl, args, a:
           ret(s, none()) if vi == 0 else I.call_value(s, args[1], [fl[0]]))
enum_model([OPT + "or_else"], lambda I, s, fn, vi, fl, args, a:
           ret(s, some(fl[0], I.vtype(fl[0]))) if vi == 1 else I.call_value(s, args[1], []))
enum_model([OPT + "or"], lambda I, s, fn, vi, fl, args, a:
           ret(s, some(fl[0], I.vtype(fl[0]))) if vi == 1 else ret(s, args[1]))
enum_model([OPT + "unwrap_or"], lambda I, s, fn, vi, fl, args, a: ret(s, fl[0] if vi == 1 else args[1]))
enum_model([OPT + "unwrap_or_else"], lambda I, s, fn, vi, fl, args, a:
           ret(s, fl[0]) if vi == 1 else I.call_value(s, args[1], []))
enum_model([OPT + "map_or"], lambda I, s, fn, vi, fl, args, a:
           ret(s, args[1]) if vi == 0 else I.call_value(s, args[2], [fl[0]]))
enum_model([OPT + "map_or_else"], lambda I, s, fn, vi, fl, args, a:
           I.call_value(s, args[1], []) if vi == 0 else I.call_value(s, args[2], [fl[0]]))
enum_model([OPT + "ok_or"], lambda I, s, fn, vi, fl, args, a: ret(s, okv(fl[0]) if vi == 1 else errv(args[1])))
enum_model([OPT + "ok_or_else"], lambda I, s, fn, vi, fl, args, a:
           ret(s, okv(fl[0])) if vi == 1 else call_map(I, s, args[1], [], errv))
enum_model([OPT + "filter"], lambda I, s, fn, vi, fl, args, a: opt_filter(I, s, fn, vi, fl, args))
enum_model([RES + "ok"], lambda I, s, fn, vi, fl, args, a:
           ret(s, some(fl[0], I.vtype(fl[0])) if vi == 0 else none()))
enum_model([RES + "err"], lambda I, s, fn, vi, fl, args, a:
           ret(s, some(fl[0], I.vtype(fl[0])) if vi == 1 else none()))
enum_model([RES + "map"], lambda I, s, fn, vi, fl, args, a:
           ret(s, errv(fl[0])) if vi == 1 else call_map(I, s, args[1], [fl[0]], okv))
enum_model([RES + "map_err"], lambda I, s, fn, vi, fl, args, a:
           ret(s, okv(fl[0])) if vi == 0 else call_map(I, s, args[1], [fl[0]], errv))
enum_model([RES + "and_then"], lambda I, s, fn, vi, fl, args, a:
           ret(s, errv(fl[0])) if vi == 1 else I.call_value(s, args[1], [fl[0]]))
enum_model([RES + "unwrap_or_else"], lambda I, s, fn, vi, fl, args, a:
           ret(s, fl[0]) if vi == 0 else I.call_value(s, args[1], [fl[0]]))
enum_model([OPT + "is_some_and"], lambda I, s, fn, vi, fl, args, a:
           ret(s, Bool(False)) if vi == 0 else I.call_value(s, args[1], [fl[0]]))
enum_model([OPT + "is_none_or"], lambda I, s, fn, vi, fl, args, a:
           ret(s, Bool(True)) if vi == 0 else I.call_value(s, args[1], [fl[0]]))


def opt_filter(I, s, fn, vi, fl, args):
    if vi == 0:
        return ret(s, none())
    s = s.fork()
    r = I.alloc(s, fl[0])
    out = []
    for s2, k, v in I.call_value(s, args[1], [r]):
        if k == "panic":
            out.append((s2, k, v))
            continue
        for s3, tr in I.branch(s2, v.c):
            out.append((s3, "ret", some(fl[0], I.vtype(fl[0])) if tr else none()))
    return out


def opt_ref(I, st, fn, args, dt):
    r = args[0]
    while isinstance(I.load(st, r), Ref):
        r = I.load(st, r)
    v = I.load(st, r)
    out = []
    for s, vi, fl in I.split(st, v):
        if vi == 0:
            out.append((s, "ret", none()))
        else:
            out.append((s, "ret", some(Ref(r.cell, r.path + (("d", 1), ("f", 0))))))
    return out


for n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
    MODELS[OPT + n] = opt_ref


@model(OPT + "take")
def m_otake(I, st, fn, args, dt):
    r = args[0]
    v = I.load(st, r)
    s = st.fork()
    I.store(s, r, none(v.t[2][0] if v.t[0] == "adt" and v.t[2] else ("other", "?")))
    return ret(s, v)


@model(OPT + "replace")
def m_oreplace(I, st, fn, args, dt):
    v = I.load(st, args[0])
    s = st.fork()
    I.store(s, args[0], some(args[1], I.vtype(args[1])))
    return ret(s, v)


@model(OPT + "cloned", OPT + "copied")
def m_ocloned(I, st, fn, args, dt):
    return [(s, "ret", none() if vi == 0 else some(I.deref(s, fl[0])))
            for s, vi, fl in I.split(st, args[0])]


def get_or_insert(I, st, fn, args, dt, mkv):
    r = args[0]
    while isinstance(I.load(st, r), Ref):
        r = I.load(st, r)
    out = []
    for s, vi, fl in I.split(st, I.load(st, r)):
        if vi == 1:
            s = s.fork()
            I.store(s, r, some(fl[0], I.vtype(fl[0])))
            out.append((s, "ret", Ref(r.cell, r.path + (("d", 1), ("f", 0)))))
            continue
        for s2, k, v in mkv(s):
            if k == "panic":
                out.append((s2, k, v))
                continue
            s2 = s2.fork()
            I.store(s2, r, some(v, I.vtype(v)))
            out.append((s2, "ret", Ref(r.cell, r.path + (("d", 1), ("f", 0)))))
    return out


MODELS[OPT + "get_or_insert_with"] = lambda I, st, fn, args, dt: get_or_insert(
    I, st, fn, args, dt, lambda s: I.call_value(s, args[1], []))
MODELS[OPT + "get_or_insert"] = lambda I, st, fn, args, dt: get_or_insert(
    I, st, fn, args, dt, lambda s: ret(s, args[1]))


CF = ("adt", "std::ops::ControlFlow", (("other", "?"), ("other", "?")))


@model("std::ops::Try::branch")
def m_branch(I, st, fn, args, dt):
    v = args[0]
    t = I.P.norm(fn["a"][0])
    out = []
    for s, vi, fl in I.split(st, v):
        if t[1] == "std::option::Option":
            out.append((s, "ret", Agg(CF, 0, (fl[0],)) if vi == 1 else Agg(CF, 1, (none(),))))
        else:
            out.append((s, "ret", Agg(CF, 0, (fl[0],)) if vi == 0 else Agg(CF, 1, (errv(fl[0]),))))
    return out


@model("std::ops::FromResidual::from_residual")
def m_resid(I, st, fn, args, dt):
    v = args[0]
    if isinstance(v, Agg) and v.t[1] == "std::result::Result" and v.f:
        return ret(st, v)
    return ret(st, v)


@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_call(I, st, fn, args, dt):
    tup = args[1]
    if isinstance(tup, Agg):
        xs = list(tup.f)
    else:
        xs = [tup]
    f = I.deref(st, args[0])
    if isinstance(f, (Clo, FnV)):
        return I.call_value(st, args[0], xs)
    s = st.fork()
    term = ("app", "call", (I.vterm(s, f),) + tuple(I.vterm(s, a) for a in xs))
    return ret(s, I.mk(s, term, dt or ("other", "?")))


# ------------------------------------------------------------------ sequences
def into_iter(I, st, v, fn=None):
    if isinstance(v, It):
        return ret(st, v)
    if isinstance(v, Ref):
        w = I.load(st, v)
        r = v
        while isinstance(w, Ref):
            r = w
            w = I.load(st, w)
        if isinstance(w, Lst):
            return ret(st, It("list", tuple(Ref(r.cell, r.path + (("i", k),)) for k in range(len(w.items)))))
        if isinstance(w, Agg) and w.t[0] == "adt" and w.t[1] == "std::option::Option":
            if w.v == 0:
                return ret(st, It("list", ()))
            return ret(st, It("list", (Ref(r.cell, r.path + (("d", 1), ("f", 0))),)))
        return None
    if isinstance(v, Lst):
        return ret(st, It("list", v.items))
    if isinstance(v, Agg) and v.t[0] == "adt" and v.t[1].startswith("std::ops::Range"):
        return ret(st, v)
    if isinstance(v, Agg) and v.t[0] == "adt" and v.t[1] == "std::option::Option":
        return ret(st, It("list", v.f))
    if isinstance(v, Agg) and v.t[0] == "adt" and I.P.is_local_adt(v.t) and I.P.find_impl("std::iter::Iterator", (v.t,)):
        return ret(st, v)
    return None


@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def m_iter(I, st, fn, args, dt):
    return into_iter(I, st, args[0])


@model("std::vec::IntoIter::<T, A>::as_slice", "std::slice::Iter::<'a, T>::as_slice")
def m_it_slice(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    if not (isinstance(v, It) and v.kind == "list") or dt is None:
        return None
    t = I.P.norm(dt)
    if t[0] != "ref":
        return None
    s = st.fork()
    return ret(s, I.alloc(s, Lst(t[2], tuple(I.load(s, x) if "slice::Iter" in fn["p"] else x for x in v.data))))


@model("std::iter::Iterator::size_hint")
def m_size_hint(I, st, fn, args, dt):
    v = I.deref(st, args[0])
    if not (isinstance(v, It) and v.kind == "list"):
        return None
    n = Num(C(len(v.data)), USIZE)
    o = some(n, USIZE)
    return ret(st, Agg(("tuple", (USIZE, o.t)), 0, (n, o)))


@model("std::iter::once")
def m_once(I, st, fn, args, dt):
    return ret(st, It("list", (args[0],)))


def as_it(I, st, v):
    """an iterator value; a struct of the crate that implements Iterator is stepped through its own next"""
    if isinstance(v, Agg) and v.t[0] == "adt" and I.P.is_local_adt(v.t) and I.P.find_impl("std::iter::Iterator", (v.t,)):
        return It("user", (v, "next"))
    if isinstance(v, Agg) and v.t[0] == "adt" and v.t[1] == "std::ops::Range" and len(v.f) == 2 and all(isinstance(x, Num) for x in v.f):
        a, b = (st.facts.norm(x.p).as_const() for x in v.f)
        if a is not None and b is not None and b - a <= max(64, getattr(I, "max_unroll", 0)):
            return It("list", tuple(Num(C(k), v.f[0].t) for k in range(int(a), int(b))))
    return v


def it_next(I, st, it):
    """[(state, iterator', None | (value,))] or None"""
    if not isinstance(it, It):
        return None
    if it.kind == "user":
        v, nm = it.data
        tr = "std::iter::Iterator" if nm == "next" else "std::iter::DoubleEndedIterator"
        st = st.fork()
        cell = I.alloc(st, v)
        out = []
        for s, k, x in I.call(st, {"p": tr + "::" + nm, "a": (v.t,), "tr": tr, "nm": nm}, [cell], None, None):
            if k == "panic":
                out.append((s, ("panic", x), None))
                continue
            for s2, vi, flds in I.split(s, x):
                out.append((s2, It("user", (I.deref(s2, cell), nm)), (flds[0],) if vi == 1 else None))
        return out
    if it.kind == "list":
        if not it.data:
            return [(st, it, None)]
        return [(st, It("list", it.data[1:]), (it.data[0],))]
    if it.kind == "map":
        inner, f = it.data
        r = it_next(I, st, inner)
        if r is None:
            return None
        out = []
        for s, i2, v in r:
            if v is None:
                out.append((s, It("map", (i2, f)), None))
                continue
            for s2, k, x in I.call_value(s, f, list(v)):
                if k == "panic":
                    out.append((s2, ("panic", x), None))
                else:
                    out.append((s2, It("map", (i2, f)), (x,)))
        return out
    if it.kind == "enumerate":
        inner, n = it.data
        r = it_next(I, st, inner)
        if r is None:
            return None
        return [(s, It("enumerate", (i2, n + (v is not None))),
                 None if v is None else (Agg(("tuple", (USIZE, I.vtype(v[0]))), 0, (Num(C(n), USIZE), v[0])),))
                for s, i2, v in r]
    return None


def each(I, st, it, f):
    """outcomes of f(state, items) over every way the iterator can run"""
    it = as_it(I, st, it)
    if not isinstance(it, It):
        x = into_iter(I, st, it)
        if x is None or not isinstance(x[0][2], It):
            return None
        it = x[0][2]
    r = to_list(I, st, it)
    if r is None:
        return None
    out = []
    for s, x in r:
        if isinstance(x, Esc):
            out.append((s, "panic", x.v))
            continue
        y = f(s, x)
        if y is None:
            return None
        out += y
    return out


class Esc:
    def __init__(self, v):
        self.v = v


def to_list(I, st, it):
    """[(state, items)] for an iterator of known length"""
    if not isinstance(it, It):
        return None
    cur = [(st, it, ())]
    done = []
    for _ in range(max(200, getattr(I, "max_unroll", 0))):
        nxt = []
        for s, i, acc in cur:
            r = it_next(I, s, i)
            if r is None:
                return None
            for s2, i2, v in r:
                if isinstance(i2, tuple) and not isinstance(i2, It):
                    done.append((s2, Esc(i2[1])))
                elif v is None:
                    done.append((s2, acc))
                else:
                    nxt.append((s2, i2, acc + v))
        cur = nxt
        if not cur:
            return done
    return None


@model("std::iter::Iterator::next")
def m_next(I, st, fn, args, dt):
    it = I.load(st, args[0])
    r0 = args[0]
    while isinstance(it, Ref):
        r0 = it
        it = I.load(st, it)
    r = it_next(I, st, it)
    if r is not None:
        out = []
        for s, i2, v in r:
            if not isinstance(i2, It):
                out.append((s, "panic", i2[1]))
                continue
            s = s.fork()
            I.store(s, r0, i2)
            out.append((s, "ret", none() if v is None else some(v[0], I.vtype(v[0]))))
        return out
    if isinstance(it, Agg) and it.t[0] == "adt" and it.t[1] == "std::ops::Range":
        a, b = it.f
        if isinstance(a, Num) and isinstance(b, Num):
            out = []
            for s, lt in I.branch(st, simp(("gt", b.p - a.p))):
                if not lt:
                    out.append((s, "ret", none(a.t)))
                    continue
                s = s.fork()
                I.store(s, r0, Agg(it.t, it.v, (Num(a.p + C(1), a.t), b)))
                out.append((s, "ret", some(a, a.t)))
            return out
    return None


@model("std::iter::Iterator::map")
def m_imap(I, st, fn, args, dt):
    it = as_it(I, st, args[0])
    return ret(st, It("map", (it, args[1]))) if isinstance(it, It) else None


@model("std::iter::Iterator::enumerate")
def m_enum(I, st, fn, args, dt):
    it = as_it(I, st, args[0])
    return ret(st, It("enumerate", (it, 0))) if isinstance(it, It) else None


@model("std::iter::Iterator::rev")
def m_rev(I, st, fn, args, dt):
    it = as_it(I, st, args[0])
    if isinstance(it, It) and it.kind == "user":
        return ret(st, It("user", (it.data[0], "next_back" if it.data[1] == "next" else "next")))
    return each(I, st, args[0], lambda s, x: ret(s, It("list", tuple(reversed(x)))))


@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def m_cloned(I, st, fn, args, dt):
    return each(I, st, args[0], lambda s, x: ret(s, It("list", tuple(I.deref(s, y) for y in x))))


@model("std::iter::Iterator::by_ref", "std::iter::Iterator::peekable", "std::iter::Iterator::fuse")
def m_same(I, st, fn, args, dt):
    if fn["nm"] == "by_ref":
        return ret(st, args[0])
    return ret(st, args[0]) if isinstance(args[0], It) else None


@model("std::iter::Iterator::skip", "std::iter::Iterator::take", "std::iter::Iterator::step_by")
def m_skip(I, st, fn, args, dt):
    k = num(I, st, args[1])
    c = st.facts.norm(k.p).as_const() if k is not None else None
    if c is None:
        return None
    c = int(c)
    nm = fn["nm"]
    return each(I, st, args[0], lambda s, x: ret(s, It("list", x[c:] if nm == "skip" else x[:c] if nm == "take" else x[::c])))


@model("std::iter::Iterator::chain")
def m_chain(I, st, fn, args, dt):
    return each(I, st, args[0], lambda s, x: each(I, s, args[1], lambda s2, y: ret(s2, It("list", tuple(x) + tuple(y)))))


@model("std::iter::Iterator::zip")
def m_zip(I, st, fn, args, dt):
    def pair(a, b):
        return Agg(("tuple", (I.vtype(a), I.vtype(b))), 0, (a, b))
    return each(I, st, args[0], lambda s, x: each(I, s, args[1], lambda s2, y: ret(
        s2, It("list", tuple(pair(a, b) for a, b in zip(x, y))))))


@model("std::iter::Iterator::collect")
def m_collect(I, st, fn, args, dt):
    dt = I.P.norm(dt)
    if dt[0] == "adt" and dt[1] in ("std::option::Option", "std::result::Result") and dt[2][0][:2] == ("adt", "std::vec::Vec"):
        return collect_try(I, st, args[0], dt)
    if not (dt[0] == "adt" and dt[1] == "std::vec::Vec"):
        return None
    return each(I, st, args[0], lambda s, x: ret(s, Lst(dt, tuple(x))))


def collect_try(I, st, it, dt):
    """stops at the first None or Err"""
    opt = dt[1] == "std::option::Option"
    it = as_it(I, st, it)
    if not isinstance(it, It):
        x = into_iter(I, st, it)
        if x is None or not isinstance(x[0][2], It):
            return None
        it = x[0][2]
    cur = [(st, it, ())]
    out = []
    for _ in range(max(100, getattr(I, "max_unroll", 0))):
        nxt = []
        for s, i, acc in cur:
            r = it_next(I, s, i)
            if r is None:
                return None
            for s2, i2, v in r:
                if isinstance(i2, tuple) and not isinstance(i2, It):
                    out.append((s2, "panic", i2[1]))
                elif v is None:
                    l = Lst(dt[2][0], acc)
                    out.append((s2, "ret", Agg(dt, 1 if opt else 0, (l,))))
                else:
                    for s3, vi, fl in I.split(s2, I.deref(s2, v[0])):
                        if (vi == 1) == opt:
                            nxt.append((s3, i2, acc + (fl[0],)))
                        else:
                            out.append((s3, "ret", Agg(dt, vi, tuple(fl))))
        cur = nxt
        if not cur:
            return out
    return None


def walk(I, st, it, f, args_of, step, end, init):
    """call f on every item in turn; step(state, acc, item, result) gives [(state, acc, stop)]"""
    def go(s, xs):
        out = []
        s = s.fork()
        fr = f if f is None or isinstance(f, Ref) else I.alloc(s, f)
        cur = [(s, init)]
        for x in xs:
            nxt = []
            for s2, acc in cur:
                for s3, k, v in I.call_value(s2, fr, args_of(I, s2, acc, x)):
                    if k == "panic":
                        out.append((s3, k, v))
                        continue
                    r = step(s3, acc, x, v)
                    if r is None:
                        return None
                    for s4, a2, stop in r:
                        if stop:
                            out.append((s4, "ret", a2))
                        else:
                            nxt.append((s4, a2))
            cur = nxt
            if len(cur) > 4000:
                raise Budget("iterator traces")
        return out + [(s2, "ret", end(s2, a)) for s2, a in cur]
    return each(I, st, it, go)


def by_ref(I, s, acc, x):
    return [I.alloc(s, x)]


def bools(I, s, v):
    v = I.deref(s, v)
    if isinstance(v, Bool):
        return I.branch(s, v.c)
    return None


@model("std::iter::Iterator::fold")
def m_fold(I, st, fn, args, dt):
    return walk(I, st, args[0], args[2], lambda I, s, acc, x: [acc, x], lambda s, acc, x, v: [(s, v, False)],
                lambda s, a: a, args[1])


@model("std::iter::Iterator::for_each")
def m_foreach(I, st, fn, args, dt):
    return walk(I, st, args[0], args[1], lambda I, s, acc, x: [x], lambda s, acc, x, v: [(s, UNIT, False)],
                lambda s, a: a, UNIT)


@model("std::iter::Iterator::filter")
def m_filter(I, st, fn, args, dt):
    def step(s, acc, x, v):
        b = bools(I, s, v)
        return None if b is None else [(s2, acc + (x,) if y else acc, False) for s2, y in b]
    return walk(I, st, args[0], args[1], by_ref, step, lambda s, a: It("list", a), ())


@model("std::iter::Iterator::filter_map", "std::iter::Iterator::find_map")
def m_filter_map(I, st, fn, args, dt):
    find = fn["nm"] == "find_map"

    def step(s, acc, x, v):
        out = []
        for s2, vi, f in I.split(s, v):
            if vi == 0:
                out.append((s2, acc, False))
            elif find:
                out.append((s2, v if isinstance(v, Agg) else some(f[0], I.vtype(f[0])), True))
            else:
                out.append((s2, acc + (f[0],), False))
        return out
    return walk(I, st, args[0], args[1], lambda I, s, acc, x: [x], step,
                lambda s, a: none() if find else It("list", a), ())


def it_arg(I, st, v):
    return I.deref(st, v) if isinstance(v, Ref) else v


@model("std::iter::Iterator::any", "std::iter::Iterator::all")
def m_any(I, st, fn, args, dt):
    want = fn["nm"] == "any"

    def step(s, acc, x, v):
        b = bools(I, s, v)
        return None if b is None else [(s2, Bool(want) if y == want else acc, y == want) for s2, y in b]
    return walk(I, st, it_arg(I, st, args[0]), args[1], lambda I, s, acc, x: [x], step, lambda s, a: Bool(not want), None)


@model("std::iter::Iterator::find")
def m_find(I, st, fn, args, dt):
    def step(s, acc, x, v):
        b = bools(I, s, v)
        return None if b is None else [(s2, some(x, I.vtype(x)) if y else acc, y) for s2, y in b]
    return walk(I, st, it_arg(I, st, args[0]), args[1], by_ref, step, lambda s, a: none(), None)


@model("std::iter::Iterator::position")
def m_position(I, st, fn, args, dt):
    def step(s, acc, x, v):
        b = bools(I, s, v)
        return None if b is None else [(s2, some(Num(C(acc), USIZE), USIZE) if y else acc + 1, y) for s2, y in b]
    return walk(I, st, it_arg(I, st, args[0]), args[1], lambda I, s, acc, x: [x], step, lambda s, a: none(), 0)


@model("std::iter::Iterator::rposition")
def m_rposition(I, st, fn, args, dt):
    def step(s, acc, x, v):
        b = bools(I, s, v)
        return None if b is None else [(s2, some(Num(C(acc), USIZE), USIZE) if y else acc - 1, y) for s2, y in b]
    return each(I, st, it_arg(I, st, args[0]), lambda s, xs: walk(
        I, s, It("list", tuple(reversed(xs))), args[1], lambda I, s2, acc, x: [x], step, lambda s2, a: none(), len(xs) - 1))


@model("std::iter::DoubleEndedIterator::rfold")
def m_rfold(I, st, fn, args, dt):
    return each(I, st, args[0], lambda s, xs: m_fold(I, s, fn, [It("list", tuple(reversed(xs)))] + list(args[1:]), dt))


@model("std::iter::DoubleEndedIterator::rfind")
def m_rfind(I, st, fn, args, dt):
    return each(I, st, it_arg(I, st, args[0]), lambda s, xs: m_find(I, s, fn, [It("list", tuple(reversed(xs)))] + list(args[1:]), dt))


@model("std::iter::Iterator::reduce")
def m_reduce(I, st, fn, args, dt):
    def go(s, xs):
        if not xs:
            return ret(s, none())
        return walk(I, s, It("list", tuple(xs[1:])), args[1], lambda I, s2, acc, x: [acc, x], lambda s2, acc, x, v: [(s2, v, False)],
                    lambda s2, a: some(a, I.vtype(a)), xs[0])
    return each(I, st, args[0], go)


@model("std::iter::Iterator::count")
def m_count(I, st, fn, args, dt):
    return each(I, st, args[0], lambda s, x: ret(s, Num(C(len(x)), USIZE)))


@model("std::iter::Iterator::last")
def m_last(I, st, fn, args, dt):
    return each(I, st, args[0], lambda s, x: ret(s, some(x[-1], I.vtype(x[-1])) if x else none()))


@model("std::iter::Iterator::sum", "std::iter::Iterator::product")
def m_sum(I, st, fn, args, dt):
    prod = fn["nm"] == "product"

    def go(s, xs):
        acc = C(1) if prod else C(0)
        t = I.P.norm(dt) if dt else None
        for x in xs:
            n = num(I, s, x)
            if n is None or t is None or not I.is_num_t(t) or t[0] == "prim":
                return None
            acc = acc * n.p if prod else acc + n.p
        return ret(s, Num(acc, t))
    return each(I, st, args[0], go)


def reducer(is_max):
    def m(I, st, fn, args, dt):
        def go(s, xs):
            if not xs:
                return ret(s, none())
            cur = [(s, xs[0])]
            for x in xs[1:]:
                nxt = []
                for s2, best in cur:
                    a, b = num(I, s2, best), num(I, s2, x)
                    if a is None or b is None:
                        return None
                    c = ("ge", b.p - a.p) if is_max else ("gt", a.p - b.p)
                    for s3, take in I.branch(s2, simp(c)):
                        nxt.append((s3, x if take else best))
                cur = nxt
            return [(s2, "ret", some(v, I.vtype(v))) for s2, v in cur]
        return each(I, st, args[0], go)
    return m


MODELS["std::iter::Iterator::max"] = reducer(True)
MODELS["std::iter::Iterator::min"] = reducer(False)


@model("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity")
def m_vnew(I, st, fn, args, dt):
    return ret(st, Lst(I.P.norm(dt) if dt else ("adt", "std::vec::Vec", (fn["a"][0],)), ()))


def vec_of(I, st, r):
    while isinstance(r, Ref):
        v = I.load(st, r)
        if not isinstance(v, Ref):
            return r, v
        r = v
    return None, r


@model("std::vec::Vec::<T, A>::push")
def m_push(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst):
        return None
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items + (args[1],)))
    return ret(s, UNIT)


@model("std::vec::Vec::<T, A>::pop")
def m_pop(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst):
        return None
    if not v.items:
        return ret(st, none())
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items[:-1]))
    return ret(s, some(v.items[-1], I.vtype(v.items[-1])))


@model("std::vec::Vec::<T, A>::clear")
def m_clear(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if r is None:
        return None
    s = st.fork()
    I.store(s, r, Lst(I.vtype(v), ()))
    return ret(s, UNIT)


def index_of(I, st, v):
    k = num(I, st, v)
    c = st.facts.norm(k.p).as_const() if k is not None else None
    return None if c is None else int(c)


@model("std::vec::Vec::<T, A>::drain")
def m_drain(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    g = args[1]
    if not isinstance(v, Lst) or not (isinstance(g, Agg) and g.t[0] == "adt"):
        return None
    n = len(v.items)
    idx = [index_of(I, st, x) for x in g.f]
    if any(i is None for i in idx):
        return None
    nm = g.t[1].split("::")[-1]
    if nm == "RangeFull":
        a, b = 0, n
    elif nm == "Range":
        a, b = idx
    elif nm == "RangeFrom":
        a, b = idx[0], n
    elif nm == "RangeTo":
        a, b = 0, idx[0]
    else:
        return None
    if not 0 <= a <= b <= n:
        return panic(st, fn, "drain range out of bounds")
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items[:a] + v.items[b:]))
    return ret(s, It("list", v.items[a:b]))


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_remove(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    k = index_of(I, st, args[1])
    if not isinstance(v, Lst) or k is None:
        return None
    if k >= len(v.items):
        return panic(st, fn, "index out of bounds")
    x = v.items[k]
    if fn["nm"] == "remove":
        rest = v.items[:k] + v.items[k + 1:]
    else:
        rest = list(v.items)
        rest[k] = rest[-1]
        rest = tuple(rest[:-1])
    s = st.fork()
    I.store(s, r, Lst(v.t, rest))
    return ret(s, x)


@model("std::vec::Vec::<T, A>::insert")
def m_insert(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    k = index_of(I, st, args[1])
    if not isinstance(v, Lst) or k is None:
        return None
    if k > len(v.items):
        return panic(st, fn, "index out of bounds")
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items[:k] + (args[2],) + v.items[k:]))
    return ret(s, UNIT)


@model("std::vec::Vec::<T, A>::truncate")
def m_vtrunc(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    k = index_of(I, st, args[1])
    if not isinstance(v, Lst) or k is None:
        return None
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items[:k]))
    return ret(s, UNIT)


@model("std::vec::Vec::<T, A>::append")
def m_append(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    r2, w = vec_of(I, st, args[1])
    if not isinstance(v, Lst) or not isinstance(w, Lst) or r2 is None:
        return None
    s = st.fork()
    I.store(s, r, Lst(v.t, v.items + w.items))
    I.store(s, r2, Lst(w.t, ()))
    return ret(s, UNIT)


@model("std::iter::Extend::extend", "std::vec::Vec::<T, A>::extend_from_slice")
def m_extend(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst) or r is None:
        return None
    deref = fn["nm"] == "extend_from_slice"

    def go(s, x):
        s = s.fork()
        w = I.load(s, r)
        if not isinstance(w, Lst):
            return None
        I.store(s, r, Lst(w.t, w.items + tuple(I.deref(s, y) if deref else y for y in x)))
        return ret(s, UNIT)
    return each(I, st, args[1], go)


@model("std::vec::Vec::<T, A>::retain")
def m_retain(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst) or r is None:
        return None

    def step(s, acc, x, y):
        b = bools(I, s, y)
        return None if b is None else [(s2, acc + (x,) if z else acc, False) for s2, z in b]
    out = walk(I, st, It("list", v.items), args[1], by_ref, step, lambda s, a: It("list", a), ())
    if out is None:
        return None
    res = []
    for s, k, x in out:
        if k == "panic":
            res.append((s, k, x))
            continue
        s = s.fork()
        I.store(s, r, Lst(v.t, x.data))
        res.append((s, "ret", UNIT))
    return res


@model("core::slice::<impl [T]>::reverse")
def m_reverse(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst) or r is None:
        return None
    s = st.fork()
    I.store(s, r, Lst(v.t, tuple(reversed(v.items))))
    return ret(s, UNIT)


@model("core::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::to_vec", "alloc::slice::<impl [T]>::to_vec")
def m_tovec(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if not isinstance(v, Lst) or dt is None:
        return None
    return ret(st, Lst(I.P.norm(dt), v.items))


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "std::iter::ExactSizeIterator::len")
def m_len(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if isinstance(v, Lst):
        return ret(st, Num(C(len(v.items)), USIZE))
    if isinstance(v, It):
        return ret(st, Num(C(len(v.data)), USIZE)) if v.kind == "list" else None
    s = st.fork()
    return ret(s, I.mk(s, ("len", I.vterm(s, v)), USIZE))


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def m_isempty(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    if isinstance(v, Lst):
        return ret(st, Bool(not v.items))
    s = st.fork()
    n = I.mk(s, ("len", I.vterm(s, v)), USIZE)
    return ret(s, Bool(("eq", n.p)))


def ends(i):
    def m(I, st, fn, args, dt):
        r, v = vec_of(I, st, args[0])
        if isinstance(v, Lst):
            if not v.items:
                return ret(st, none())
            k = len(v.items) - 1 if i else 0
            return ret(st, some(Ref(r.cell, r.path + (("i", k),))))
        return None
    return m


MODELS["core::slice::<impl [T]>::last"] = ends(1)
MODELS["core::slice::<impl [T]>::first"] = ends(0)
MODELS["core::slice::<impl [T]>::last_mut"] = ends(1)
MODELS["core::slice::<impl [T]>::first_mut"] = ends(0)


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(I, st, fn, args, dt):
    r, v = vec_of(I, st, args[0])
    g = I.deref(st, args[1])
    if isinstance(g, Agg) and g.t[0] == "adt" and g.t[1].startswith("std::ops::Range") and r is not None:
        return sub_slice(I, st, fn, r, v, g)
    k = num(I, st, args[1])
    if r is None or k is None:
        return None
    c = st.facts.norm(k.p).as_const()
    if isinstance(v, Lst) and c is not None:
        if int(c) >= len(v.items):
            return panic(st, fn, "index out of bounds")
        return ret(st, Ref(r.cell, r.path + (("i", int(c)),)))
    if isinstance(v, Opq) and v.t[0] == "adt" and v.t[1] == "std::vec::Vec":
        return ret(st, Ref(r.cell, r.path + (("i", st.facts.norm(k.p) if c is None else int(c)),)))
    return None


def sub_slice(I, st, fn, r, v, g):
    if not isinstance(v, Lst):
        return None
    w = []
    for x in g.f:
        x = num(I, st, x)
        c = st.facts.norm(x.p).as_const() if x is not None else None
        if c is None:
            return None
        w.append(int(c))
    kind = g.t[1].split("::")[-1]
    n = len(v.items)
    if kind == "Range":
        a, b = w
    elif kind == "RangeFrom":
        a, b = w[0], n
    elif kind == "RangeTo":
        a, b = 0, w[0]
    elif kind == "RangeToInclusive":
        a, b = 0, w[0] + 1
    elif kind == "RangeFull":
        a, b = 0, n
    else:
        return None
    if a > b or b > n:
        return panic(st, fn, "slice index out of bounds")
    return ret(st, Ref(r.cell, r.path + (("s", a, b),)))


@model("num_traits::Pow::pow")
def m_pow(I, st, fn, args, dt):
    a, b = num(I, st, args[0]), num(I, st, args[1])
    if a is None or b is None:
        return None
    c = st.facts.norm(b.p).as_const()
    if c is not None and 0 <= c <= 8:
        return ret(st, Num(a.p.ipow(int(c)), a.t))
    s = st.fork()
    return ret(s, I.mk(s, ("pow", s.facts.norm(a.p), s.facts.norm(b.p)), I.P.norm(dt) if dt else a.t))


def f64_fn(f):
    """a nondecreasing function of floats, on ranges"""
    def h(I, st, fn, args, dt):
        xs = [I.deref(st, a) for a in args]
        if not all(isinstance(x, Opq) and x.term[0] == "f64" for x in xs):
            return None
        try:
            return ret(st, Opq(("f64", float(f(*(x.term[1] for x in xs))), float(f(*(x.term[2] for x in xs)))), xs[0].t))
        except (ValueError, OverflowError):
            return None
    return h


for _n, _f in (("log2", math.log2), ("log10", math.log10), ("ln", math.log), ("exp2", lambda x: 2.0 ** x), ("floor", math.floor),
               ("ceil", math.ceil), ("trunc", math.trunc), ("sqrt", math.sqrt), ("max", max), ("min", min)):
    for _p in ("std", "core"):
        MODELS[_p + "::f64::<impl f64>::" + _n] = f64_fn(_f)


def int_range(I, st, p):
    """bounds of an integer: a constant, or a linear term over the symbols the rule gave ranges to"""
    r = term_range(I, p)
    return r and (math.floor(r[0]), math.ceil(r[1]))


def term_range(I, p):
    c = p.as_const()
    if c is not None:
        return c, c
    lo = hi = Fraction(0)
    for (at, p2), c in p.d.items():
        if p2 or len(at) > 1 or at and at[0][1] != 1:
            return None
        a, b = 1, 1
        if at:
            r = I.ranges.get(at[0][0])
            if r is None:
                x = absint._atoms[at[0][0]]
                if x[0] not in ("floor", "trunc", "isqrt") or len(x) != 2 or not isinstance(x[1], Poly):
                    return None
                r = term_range(I, x[1])
                if r is None or x[0] == "isqrt" and r[0] < 0:
                    return None
                f = {"floor": math.floor, "trunc": math.trunc, "isqrt": lambda v: math.isqrt(math.floor(v))}[x[0]]
                r = f(r[0]), f(r[1])
            a, b = r
        lo += c * (a if c > 0 else b)
        hi += c * (b if c > 0 else a)
    return lo, hi


@model("std::ops::RangeInclusive::<Idx>::new")
def m_range_incl(I, st, fn, args, dt):
    """a..=b, kept as a..b+1"""
    a, b = (I.deref(st, x) for x in args)
    if not (isinstance(a, Num) and isinstance(b, Num)):
        return None
    return ret(st, Agg(("adt", "std::ops::Range", (a.t,)), 0, (a, Num(b.p + C(1), b.t))))


@model("std::mem::size_of", "core::mem::size_of")
def m_size_of(I, st, fn, args, dt):
    t = I.P.norm(fn["a"][0])
    if t[0] != "prim" or t[1] not in INTS:
        return None
    return ret(st, Num(C(8 if t[1].endswith("size") else int(t[1][1:]) // 8), USIZE))
