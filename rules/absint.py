"""Abstract interpreter over the compiler's MIR.

Values are elements of a relational domain: numbers are polynomial terms over the symbols of the
entry state (value numbering), with the sign facts known on the current trace; structs, enums and
references are kept structurally; everything the domain does not interpret is an uninterpreted
application (so equal inputs give equal results and nothing more is assumed).  Traces are
partitioned at undecided branches; a loop whose exit is not decided by the domain is widened: every
cell that changes in it is set to top.  Calls to functions of the crate are analysed in place, with
trait calls resolved against the crate's impl table; a contract can be given instead."""
import sys
import struct
from collections import namedtuple
from fractions import Fraction
from term import Poly, Facts, C, A, pow2, floor, ceil, is_integer_valued, default_ints, _atoms, NONINT

sys.setrecursionlimit(20000)

Num = namedtuple("Num", "p t")
Bool = namedtuple("Bool", "c")
Agg = namedtuple("Agg", "t v f")
Ref = namedtuple("Ref", "cell path")
Opq = namedtuple("Opq", "term t")
Clo = namedtuple("Clo", "key ta f")
FnV = namedtuple("FnV", "fn")
Lst = namedtuple("Lst", "t items")
It = namedtuple("It", "kind data")
Und = namedtuple("Und", "x")
UND = Und(0)

F64 = ("prim", "f64")


class Split(Exception):
    """a float computed from a range of integers does not round to one integer: split the range"""


INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"}
BIGINT = ("adt", "num_bigint::BigInt", ())
BIGUINT = ("adt", "num_bigint::BigUint", ())
UNIT_T = ("tuple", ())
BOOL_T = ("prim", "bool")
ORD_T = ("adt", "std::cmp::Ordering", ())
USIZE = ("prim", "usize")
NUM_ADTS = {"num_bigint::BigInt", "num_bigint::BigUint", "num_rational::Ratio"}
ENUMS = {
    "std::option::Option": [("None", 0), ("Some", 1)],
    "std::result::Result": [("Ok", 1), ("Err", 1)],
    "std::borrow::Cow": [("Borrowed", 1), ("Owned", 1)],
    "std::cmp::Ordering": [("Less", 0), ("Equal", 0), ("Greater", 0)],
    "std::ops::ControlFlow": [("Continue", 1), ("Break", 1)],
    "num_bigint::Sign": [("Minus", 0), ("NoSign", 0), ("Plus", 0)],
    "std::ops::Bound": [("Included", 1), ("Excluded", 1), ("Unbounded", 0)],
}
LESS, EQUAL, GREATER = (Agg(ORD_T, i, ()) for i in range(3))
UNIT = Agg(UNIT_T, 0, ())


class Budget(Exception):
    pass


class State:
    __slots__ = ("cells", "facts", "trace", "events", "witness")

    def __init__(self, cells=None, facts=None, trace=(), events=()):
        self.cells = cells if cells is not None else {}
        self.facts = facts or Facts()
        self.trace = trace
        self.events = events

    def fork(self):
        return State(dict(self.cells), self.facts, self.trace, self.events)


def cond_not(c):
    if c is True or c is False:
        return not c
    k = c[0]
    if k == "gt":
        return ("ge", -c[1])
    if k == "ge":
        return ("gt", -c[1])
    if k == "eq":
        return ("ne", c[1])
    if k == "ne":
        return ("eq", c[1])
    if k == "not":
        return c[1]
    return ("not", c)


def same_power(p):
    """c*2^a - d*2^b = 0 with d/c a power of two: a - b - log2(d/c), which is zero as well"""
    (m1, c1), (m2, c2) = p.d.items()
    r = -c2 / c1
    if m1[0] or m2[0] or r <= 0 or r.numerator & (r.numerator - 1) or r.denominator & (r.denominator - 1):
        return None
    e = C(r.denominator.bit_length() - r.numerator.bit_length())
    for m, k in m1[1]:
        e = e + Poly({m: k})
    for m, k in m2[1]:
        e = e - Poly({m: k})
    return e


def canon_sign(p):
    """eq/ne conditions do not depend on the sign of the term"""
    if not p.d:
        return p
    m = min(p.d.items(), key=lambda kv: repr(kv[0]))
    return p if m[1] > 0 else -p


class Interp:
    def __init__(self, prog, opaque_types=(), contracts=None, num_params=(), max_paths=4000,
                 max_depth=60, inline=None, split_params=True):
        self.used = set()
        self.P = prog
        self.opaque_types = set(opaque_types)
        self.contracts = contracts or {}
        self.num_params = set(num_params)
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.fresh = 0
        self.paths = 0
        self.depth = 0
        self.called = set()
        self.inline = inline
        self.widened = 0
        self.uninterp = {}
        self.ranges = {}
        self.ratio_parts = {}
        self.unroll = False       # follow undecided loop exits trace by trace instead of widening
        self.overflow = False     # fixed-width arithmetic that leaves its type panics
        import models
        import models2
        self.models = models2.MODELS
        self.mod = models

    # ------------------------------------------------------------------ symbols
    def uid(self):
        self.fresh += 1
        return self.fresh

    def is_num_t(self, t):
        if t[0] == "prim":
            return t[1] in INTS
        if t[0] == "adt":
            return t[1] in NUM_ADTS
        if t[0] == "param":
            return t[2] in self.num_params
        return False

    def is_unsigned(self, t):
        return (t[0] == "prim" and t[1] in INTS and t[1][0] == "u") or t == BIGUINT

    def sym(self, st, name, t):
        return self.mk(st, ("sym", name), t)

    def mk(self, st, term, t):
        """a value of type t that is nothing but the term"""
        t = self.P.norm(t)
        k = t[0]
        if k == "prim" and t[1] == "bool":
            key = ("b", term)
            return Bool(key)
        if self.is_num_t(t):
            if k == "adt" and t[1] == "num_rational::Ratio":
                return Num(self.mk_ratio(st, term), t)
            p = Poly.atom(term)
            if self.is_unsigned(t):
                self.add_fact(st, "ge", p)
            if self.overflow:
                lo, hi = self.mod.trange(t)
                if hi is not None:
                    self.add_fact(st, "ge", p - C(lo))
                    self.add_fact(st, "ge", C(hi) - p)
            return Num(p, t)
        if k == "ref" or k == "ptr":
            cell = ("d", term)
            if cell not in st.cells:
                st.cells[cell] = self.mk(st, ("*", term), t[2])
            return Ref(cell, ())
        if k == "tuple":
            return Agg(t, 0, tuple(self.mk(st, ("fld", 0, i, term), x) for i, x in enumerate(t[1])))
        if k == "adt" and t[1] not in self.opaque_types:
            vs = self.P.variants(t)
            if vs is not None and len(vs) == 1 and self.P.is_local_adt(t):
                return Agg(t, 0, tuple(self.mk(st, ("fld", 0, i, term), x)
                                       for i, x in enumerate(vs[0])))
        if k == "array" and t[2].isdigit() and int(t[2]) <= 8:
            return Lst(t, tuple(self.mk(st, ("el", i, term), t[1]) for i in range(int(t[2]))))
        if k in ("fndef",):
            return FnV((t[1], t[2]))
        return Opq(term, t)

    def mk_ratio(self, st, term):
        n, d = Poly.atom(("numer", term)), Poly.atom(("denom", term))
        self.add_fact(st, "gt", d)
        p = n * d.inv()
        self.ratio_parts[p] = (n, d)
        return p

    def ratio_nd(self, st, p):
        """numerator and denominator of a reduced fraction"""
        if p in self.ratio_parts:
            return self.ratio_parts[p]
        if is_integer_valued(p, default_ints):
            return p, C(1)
        q = -p
        if q in self.ratio_parts:
            n, d = self.ratio_parts[q]
            return -n, d
        c = p.as_const()
        if c is not None:
            return C(c.numerator), C(c.denominator)
        n, d = Poly.atom(("numer", p)), Poly.atom(("denom", p))
        self.add_fact(st, "gt", d)
        self.add_fact(st, "eq", n - p * d)
        self.ratio_parts[p] = (n, d)
        return n, d

    def add_fact(self, st, kind, p):
        if kind == "gt" and is_integer_valued(p, default_ints):
            kind, p = "ge", p - C(1)
        c = p.as_const()
        if c is not None:
            return
        if kind == "eq" and len(p.d) == 2:
            e = same_power(p)
            if e is not None:
                p = e
        f = getattr(st.facts, kind)
        if p in f:
            return
        st.facts = st.facts.add(kind, p)
        if kind == "ge" and len(p.d) <= 2 and -p in f:
            # pinned from both sides
            st.facts = st.facts.add("eq", p)

    # ------------------------------------------------------------------ conditions
    def decide(self, st, c):
        if c is True or c is False:
            return c
        f = st.facts
        k = c[0]
        if k == "gt":
            if self.pos(f, c[1]):
                return True
            if f.nonneg(-c[1]):
                return False
            return None
        if k == "ge":
            if f.nonneg(c[1]):
                return True
            if self.pos(f, -c[1]):
                return False
            return None
        if k in ("eq", "ne"):
            r = None
            if f.is_zero(c[1]):
                r = True
            elif f.nonzero(c[1]):
                r = False
            elif f.nonneg(c[1]) and f.nonneg(-c[1]):
                r = True
            if r is None:
                return None
            return r if k == "eq" else not r
        if k == "not":
            r = self.decide(st, c[1])
            return None if r is None else not r
        if k == "b":
            r = f.bools.get(c[1])
            if r is None and isinstance(c[1], tuple) and c[1][0] == "odd" and isinstance(c[1][1], Poly):
                n = f.norm(c[1][1]).as_const()
                if n is not None and n.denominator == 1:
                    return int(n) % 2 == 1
            return r
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == "or":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def pos(self, f, p):
        if f.positive(p):
            return True
        if is_integer_valued(p, default_ints):
            return f.nonneg(p - C(1))
        return False

    def assume(self, st, c):
        """st strengthened by c, or None when contradictory"""
        r = self.decide(st, c)
        if r is True:
            return st
        if r is False:
            return None
        s = st.fork()
        k = c[0]
        if k in ("gt", "ge"):
            self.add_fact(s, k, c[1])
            # p >= 0 and p != 0 known separately is used by the prover
        elif k == "eq":
            self.add_fact(s, "eq", c[1])
        elif k == "ne":
            self.add_fact(s, "ne", c[1])
            for q in (c[1], -c[1]):
                if s.facts.nonneg(q):
                    self.add_fact(s, "gt", q)
        elif k == "not":
            if c[1][0] == "b":
                s.facts = s.facts.add_bool(c[1][1], False)
            elif c[1][0] == "and":
                # not (a and b): keep only when one side is decided
                if self.decide(s, c[1][1]) is True:
                    return self.assume(s, cond_not(c[1][2]))
                if self.decide(s, c[1][2]) is True:
                    return self.assume(s, cond_not(c[1][1]))
            elif c[1][0] == "or":
                s2 = self.assume(s, cond_not(c[1][1]))
                return None if s2 is None else self.assume(s2, cond_not(c[1][2]))
        elif k == "b":
            s.facts = s.facts.add_bool(c[1], True)
            self.on_bool(s, c[1], True)
        elif k == "and":
            s2 = self.assume(s, c[1])
            return None if s2 is None else self.assume(s2, c[2])
        if s.facts.inconsistent():
            return None
        return s

    def on_bool(self, s, term, v):
        pass

    def candidates(self, st):
        return ()

    def cand_conds(self, st, cand):
        return None

    def branch(self, st, c):
        """[(state, truth)]"""
        r = self.decide(st, c)
        if r is not None:
            return [(st, r)]
        if c[0] == "and":
            out = []
            for s, v in self.branch(st, c[1]):
                if v:
                    out += self.branch(s, c[2])
                else:
                    out.append((s, False))
            return out
        if c[0] == "or":
            out = []
            for s, v in self.branch(st, c[1]):
                if not v:
                    out += self.branch(s, c[2])
                else:
                    out.append((s, True))
            return out
        out = []
        a = self.assume(st, c)
        if a is not None:
            out.append((a, True))
        b = self.assume(st, cond_not(c))
        if b is not None:
            out.append((b, False))
        if len(out) > 1:
            self.paths += 1
            if self.paths > self.max_paths:
                raise Budget("too many traces")
        return out

    # ------------------------------------------------------------------ memory
    def read(self, st, cell, path):
        v = st.cells.get(cell, UND)
        i = 0
        var = None
        while i < len(path):
            s = path[i]
            i += 1
            if isinstance(v, Ref) and s[0] == "f":
                # Box / Unique / NonNull wrappers around a pointer
                continue
            if s[0] == "d":
                if isinstance(v, Opq):
                    var = s[1]
                continue
            v = self.step(st, v, s, var)
            var = None
        return v

    def step(self, st, v, s, var):
        if s[0] == "f":
            if isinstance(v, (Agg,)):
                if s[1] < len(v.f):
                    return v.f[s[1]]
                return UND
            if isinstance(v, Clo):
                return v.f[s[1]]
            if isinstance(v, Opq):
                ft = self.P.field_ty(v.t, var or 0, s[1]) or (s[2] if len(s) > 2 else None)
                return self.mk(st, ("fld", var or 0, s[1], v.term), ft)
            if isinstance(v, Und):
                return UND
            if isinstance(v, Lst):  # MaybeUninit / ManuallyDrop style wrappers
                return v
            raise Budget("field of %r" % (v,))
        if s[0] == "i":
            if isinstance(v, Lst):
                k = s[1]
                if isinstance(k, int) and k < len(v.items):
                    return v.items[k]
            if isinstance(v, Opq):
                et = self.P.elem_ty(v.t)
                return self.mk(st, ("el", s[1], v.term), et)
            if isinstance(v, Lst):
                return self.mk(st, ("el", s[1], self.vterm(st, v)), self.P.elem_ty(v.t))
            raise Budget("index of %r" % (v,))
        if s[0] == "s":
            if isinstance(v, Lst) and s[2] <= len(v.items):
                return Lst(v.t, tuple(v.items[s[1]:s[2]]))
            raise Budget("sub-slice of %r" % (v,))
        raise Budget("step %r" % (s,))

    def write(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        v = st.cells.get(cell, UND)
        st.cells[cell] = self._wr(st, v, path, 0, val, None)

    def _wr(self, st, v, path, i, val, var):
        if i == len(path):
            return val
        s = path[i]
        if s[0] == "d":
            if isinstance(v, Opq):
                v = self.expand(st, v, s[1])
            return self._wr(st, v, path, i + 1, val, s[1])
        if isinstance(v, Ref) and s[0] == "f":
            return self._wr(st, v, path, i + 1, val, var)
        if s[0] == "f":
            if isinstance(v, Opq):
                v = self.expand(st, v, var or 0)
            if isinstance(v, Und):
                v = Agg(("other", "?"), var or 0, ())
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= s[1]:
                    f.append(UND)
                f[s[1]] = self._wr(st, f[s[1]], path, i + 1, val, None)
                return Agg(v.t, v.v, tuple(f))
            if isinstance(v, Clo):
                f = list(v.f)
                f[s[1]] = self._wr(st, f[s[1]], path, i + 1, val, None)
                return Clo(v.key, v.ta, tuple(f))
            raise Budget("write field of %r" % (v,))
        if s[0] == "i":
            if isinstance(v, Lst) and isinstance(s[1], int) and s[1] < len(v.items):
                f = list(v.items)
                f[s[1]] = self._wr(st, f[s[1]], path, i + 1, val, None)
                return Lst(v.t, tuple(f))
            t = self.vtype(v)
            inner = self.step(st, v, s, None)
            nv = self._wr(st, inner, path, i + 1, val, None)
            return Opq(("upd", self.vterm(st, v), s[1], self.vterm(st, nv)), t)
        if s[0] == "s" and isinstance(v, Lst) and s[2] <= len(v.items):
            w = self._wr(st, Lst(v.t, tuple(v.items[s[1]:s[2]])), path, i + 1, val, None)
            if isinstance(w, Lst) and len(w.items) == s[2] - s[1]:
                return Lst(v.t, tuple(v.items[:s[1]]) + tuple(w.items) + tuple(v.items[s[2]:]))
        raise Budget("write %r" % (s,))

    def expand(self, st, v, var):
        t = v.t
        vs = self.P.variants(t)
        if vs is None:
            if t[0] == "tuple":
                vs = [t[1]]
            else:
                raise Budget("cannot expand %r" % (v,))
        return Agg(t, var, tuple(self.mk(st, ("fld", var, i, v.term), x)
                                 for i, x in enumerate(vs[var])))

    def alloc(self, st, v, tag="t"):
        c = (tag, self.uid())
        st.cells[c] = v
        return Ref(c, ())

    def deref(self, st, v):
        while isinstance(v, Ref):
            v = self.read(st, v.cell, v.path)
        return v

    def load(self, st, r):
        if isinstance(r, Ref):
            return self.read(st, r.cell, r.path)
        return r

    def store(self, st, r, v):
        if not isinstance(r, Ref):
            raise Budget("store through %r" % (r,))
        self.write(st, r.cell, r.path, v)

    # ------------------------------------------------------------------ values to terms
    def vterm(self, st, v, depth=0):
        if isinstance(v, Num):
            return st.facts.norm(v.p)
        if isinstance(v, Bool):
            return ("bool", v.c)
        if isinstance(v, Ref):
            if depth > 30:
                return ("deep",)
            return self.vterm(st, self.read(st, v.cell, v.path), depth + 1)
        if isinstance(v, Agg):
            return ("agg", v.t[1] if v.t[0] == "adt" else v.t[0], v.v,
                    tuple(self.vterm(st, x, depth + 1) for x in v.f))
        if isinstance(v, Opq):
            vi = st.facts.bools.get(("var", v.term))
            vs = self.P.variants(v.t) if vi is not None else None
            if vi is not None and vs is not None and (not vs[vi]):
                return ("agg", v.t[1], vi, ())
            return v.term
        if isinstance(v, Clo):
            return ("clo", v.key, tuple(self.vterm(st, x, depth + 1) for x in v.f))
        if isinstance(v, Lst):
            return ("lst", tuple(self.vterm(st, x, depth + 1) for x in v.items))
        if isinstance(v, It):
            return ("it", v.kind, tuple(self.vterm(st, x, depth + 1) if isinstance(x, tuple) and
                                        hasattr(x, "_fields") else x for x in v.data))
        if isinstance(v, FnV):
            return ("fn", v.fn[0])
        return ("und",)

    def vtype(self, v):
        if isinstance(v, (Num, Agg, Opq, Lst)):
            return v.t
        if isinstance(v, Bool):
            return BOOL_T
        return ("other", "?")

    # ------------------------------------------------------------------ enums
    def split(self, st, v, t=None):
        """[(state, variant, fields)] of an enum value"""
        if isinstance(v, Agg):
            return [(st, v.v, v.f)]
        if isinstance(v, Opq):
            vs = self.P.variants(v.t)
            if vs is None:
                raise Budget("enum %r" % (v,))
            k = ("var", v.term)
            known = st.facts.bools.get(k)
            if known is not None:
                return [(st, known, self.expand(st, v, known).f)]
            out = []
            for i in range(len(vs)):
                if st.facts.bools.get(("notvar", v.term, i)):
                    continue
                s = st.fork()
                s.facts = s.facts.add_bool(k, i)
                out.append((s, i, self.expand(s, v, i).f))
            self.paths += len(out) - 1
            if self.paths > self.max_paths:
                raise Budget("too many traces")
            return out
        raise Budget("split %r" % (v,))

    # ------------------------------------------------------------------ running functions
    def run(self, st, key, args, ta=None):
        """analyse function `key` on argument values; returns [(state, kind, value)]"""
        return self.call_fn(st, key, ta or {}, list(args))

    def call_fn(self, st, key, ta, args):
        f = self.P.fns[key]
        if f.get("mir") is None:
            raise Budget("no body: " + key)
        self.called.add(key)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Budget("call depth at " + key)
        try:
            fr = Frame(self, key, f["mir"], ta, self.uid())
            st = st.fork()
            for i, a in enumerate(args):
                st.cells[("l", fr.id, i + 1)] = a
            out = []
            for r in fr.region(st, 0, None, None):
                kind, s, x = r
                if kind == "ret":
                    v = s.cells.get(("l", fr.id, 0), UND)
                    if fr.is_unit():
                        v = UNIT
                    fr.drop_locals(s, v)
                    out.append((s, "ret", v))
                elif kind == "panic":
                    out.append((s, "panic", x))
                else:
                    raise Budget("region exit")
            return out
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------ calls
    def call_value(self, st, f, args):
        """call a closure / fn item value with a list of argument values"""
        fv = self.deref(st, f)
        if isinstance(fv, Clo):
            mir = self.P.fns[fv.key]["mir"]
            t0 = self.P.ty(mir["locals"][1][0])
            env = fv
            if t0[0] == "ref":
                env = f
                # peel to the reference that points at the closure itself
                while isinstance(env, Ref) and isinstance(self.load(st, env), Ref):
                    env = self.load(st, env)
                if not isinstance(env, Ref):
                    st = st.fork()
                    env = self.alloc(st, fv)
            return self.call_fn(st, fv.key, dict(fv.ta), [env] + list(args))
        if isinstance(fv, FnV):
            fn = self.P.fn_from_key(fv.fn)
            return self.call(st, fn, list(args), None, None)
        t = ("app", "call", (self.vterm(st, fv),) + tuple(self.vterm(st, a) for a in args))
        rt = self.P.fn_param_out(self.vtype(fv))
        s = st.fork()
        return [(s, "ret", self.mk(s, t, rt or ("other", "?")))]

    def call(self, st, fn, args, dest_t, span):
        """fn: dict(p, a (types, substituted), tr, nm).  Returns [(state, kind, value)]"""
        p = fn["p"]
        h = self.contracts.get(p)
        if h is not None:
            r = h(self, st, fn, args, dest_t)
            if r is not None:
                self.used.add(p)
                return r
        key, ta = self.P.resolve(fn)
        if key is not None and "{closure#" in key and p.startswith("std::ops::Fn"):
            key = None                    # the arguments come as a tuple: see the model of Fn::call
        if key is not None:
            h = self.contracts.get(key)
            if h is not None:
                fn2 = dict(fn)
                fn2["ta"] = ta
                r = h(self, st, fn2, args, dest_t)
                if r is not None:
                    self.used.add(key)
                    return r
            # an iterator held as a list is not the crate's own iterator type
            it = fn.get("tr") and args and isinstance(args[0], (Ref, It)) and isinstance(self.deref(st, args[0]), It)
            if not it and (self.inline is None or self.inline(key)):
                if self.P.fns[key].get("mir") is not None:
                    return self.call_fn(st, key, ta, args)
        m = self.models.get(p)
        if m is not None:
            r = m(self, st, fn, args, dest_t)
            if r is not None:
                return r
        if fn.get("tr"):
            m = self.models.get("::" + fn["nm"])
            if m is not None:
                r = m(self, st, fn, args, dest_t)
                if r is not None:
                    return r
        if key is not None and self.P.fns[key].get("mir") is not None and self.inline is None:
            return self.call_fn(st, key, ta, args)
        return self.uninterpreted(st, key or p, fn, args, dest_t)

    def uninterpreted(self, st, name, fn, args, dest_t):
        self.uninterp[name] = self.uninterp.get(name, 0) + 1
        s = st.fork()
        at = tuple(self.vterm(s, a) for a in args)
        ta = tuple(x for x in fn.get("a", ()))
        term = ("app", name, at)
        # anything reachable through a &mut argument may change
        ins = self.P.sig_inputs(fn)
        for i, a in enumerate(args):
            if isinstance(a, Ref):
                it = ins[i] if ins and i < len(ins) else None
                mut = it is None or (it[0] == "ref" and it[1])
                if mut:
                    old = self.load(s, a)
                    try:
                        self.store(s, a, self.mk(s, ("post", i, name, at), self.vtype(old)))
                    except Budget:
                        pass
        if dest_t is None:
            dest_t = ("other", "?")
        return [(s, "ret", self.mk(s, term, dest_t))]


class Frame:
    def __init__(self, I, key, mir, ta, fid):
        self.I = I
        self.P = I.P
        self.key = key
        self.mir = mir
        self.ta = ta
        self.id = fid
        self.blocks = mir["blocks"]
        self.loops = I.P.loops(mir)
        self.seen = 0

    def is_unit(self):
        return self.lty(0) == UNIT_T

    def lty(self, i):
        return self.P.sub(self.P.ty(self.mir["locals"][i][0]), self.ta)

    def drop_locals(self, st, ret):
        for i in range(len(self.mir["locals"])):
            st.cells.pop(("l", self.id, i), None)

    # -- CFG walk
    def region(self, st, b, body, header):
        """run from block b; inside a loop `body` (set of blocks) leaving it is reported"""
        out = []
        work = [(st, b, True)]
        while work:
            st, b, first = work.pop()
            if not first:
                if header is not None and b == header:
                    out.append(("back", st, b))
                    continue
                if body is not None and b not in body:
                    out.append(("exit", st, b))
                    continue
            if b in self.loops and not (first and b == header):
                for kind, s, x in self.loop(st, b):
                    if kind == "exit":
                        work.append((s, x, False))
                    else:
                        out.append((kind, s, x))
                continue
            for kind, s, x in self.block(st, b):
                if kind == "goto":
                    work.append((s, x, False))
                else:
                    out.append((kind, s, x))
        return out

    def loop(self, st, h):
        I = self.I
        body = self.loops[h]
        cur = [st]
        out = []
        for _ in range(getattr(I, "max_unroll", 80)):
            nxt = []
            for s in cur:
                res = self.region(s, h, body, h)
                backs = [x for k, x, _ in res if k == "back"]
                leave = [r for r in res if r[0] in ("exit", "ret")]
                if backs and leave and not I.unroll:
                    out += self.fix(s, h, body)
                else:
                    out += [r for r in res if r[0] != "back"]
                    nxt += backs
            cur = nxt
            if not cur:
                return out
            if len(cur) > getattr(I, "max_traces", 60 if I.unroll else 600):
                raise Budget("loop traces")
        if I.unroll and cur:
            raise Budget("loop not unrolled")
        for s in cur:
            out += self.fix(s, h, body)
        return out

    def fix(self, st, h, body):
        """widening: cells that change around the loop become top, until stable; candidate
        invariants that hold on entry are kept as long as every iteration re-establishes them"""
        I = self.I
        I.widened += 1
        keep = []
        for cand in I.candidates(st):
            cs = I.cand_conds(st, cand)
            if cs is not None and all(I.decide(st, c) is True for c in cs):
                keep.append(cand)
        for _ in range(len(keep) + 1):
            cur = st
            for _ in range(8):
                res = self.region(cur, h, body, h)
                backs = [x for k, x, _ in res if k == "back"]
                nxt = cur.fork()
                changed = False
                for b in backs:
                    for c, v in list(nxt.cells.items()):
                        w = b.cells.get(c, UND)
                        if w != v:
                            m = I_merge(I, nxt, v, w)
                            if m != v:
                                nxt.cells[c] = m
                                changed = True
                if not changed:
                    break
                for cand in keep:
                    for c in I.cand_conds(nxt, cand) or ():
                        s = I.assume(nxt, c)
                        if s is not None:
                            nxt = s
                cur = nxt
            else:
                raise Budget("no fixpoint")
            bad = []
            for cand in keep:
                for b in backs:
                    cs = I.cand_conds(b, cand)
                    if cs is None or not all(I.decide(b, c) is True for c in cs):
                        bad.append(cand)
                        break
            if not bad:
                return [r for r in res if r[0] != "back"]
            keep = [c for c in keep if c not in bad]
        raise Budget("no invariant")

    # -- blocks
    def block(self, st, b):
        self.seen += 1
        if self.seen > getattr(self.I, "max_blocks", 60000):
            raise Budget("block budget in " + self.key)
        stmts, term = self.blocks[b][0], self.blocks[b][1]
        cur = [st.fork()]
        for s in stmts:
            nxt = []
            for c in cur:
                if s[0] == "=":
                    for c2, v in self.rvalue(c, s[2], s[1]):
                        cell, path = self.place(c2, s[1])
                        self.I.write(c2, cell, path, v)
                        nxt.append(c2)
                elif s[0] == "setd":
                    cell, path = self.place(c, s[1])
                    v = self.I.read(c, cell, path)
                    t = self.I.vtype(v)
                    self.I.write(c, cell, path, Agg(t, s[2], v.f if isinstance(v, Agg) else ()))
                    nxt.append(c)
                else:
                    nxt.append(c)
            cur = nxt
        out = []
        for c in cur:
            out += self.term(c, term, b)
        return out

    def term(self, st, t, b):
        I = self.I
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            return [("ret", st, None)]
        if k == "unr":
            return []
        if k == "unw":
            return []
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "switch":
            return self.switch(st, t)
        if k == "assert":
            msg = t[3]
            c = self.operand(st, t[1])
            skip = ("Misaligned", "NullPointer") if I.overflow else ("Overflow", "Misaligned", "NullPointer")
            if isinstance(c, Bool) and not msg.startswith(skip):
                cc = c.c if t[2] else cond_not(c.c)
                out = []
                for s, v in I.branch(st, cc):
                    out.append(("goto", s, t[4]) if v else ("panic", s, (msg, t[5])))
                return out
            return [("goto", st, t[4])]
        if k == "call":
            return self.callterm(st, t)
        raise Budget("terminator %r" % (t[0],))

    def switch(self, st, t):
        I = self.I
        v = self.operand(st, t[1])
        out = []
        if isinstance(v, Bool):
            tgt = {int(a): bb for a, bb in t[2]}
            for s, tr in I.branch(st, v.c):
                s = self.note(s, v.c, tr)
                out.append(("goto", s, tgt.get(1 if tr else 0, t[3])))
            return out
        if isinstance(v, Num):
            c = st.facts.norm(v.p).as_const()
            if c is not None:
                for a, bb in t[2]:
                    if int(a) == c:
                        return [("goto", st, bb)]
                return [("goto", st, t[3])]
            cur = st
            for a, bb in t[2]:
                q = ("eq", canon_sign(v.p - C(int(a))))
                nxt = None
                for s, tr in I.branch(cur, q):
                    if tr:
                        out.append(("goto", s, bb))
                    else:
                        nxt = s
                cur = nxt
                if cur is None:
                    break
            if cur is not None and not self.is_unreachable(t[3]):
                out.append(("goto", cur, t[3]))
            return out
        if isinstance(v, It) and v.kind == "disc":
            # discriminant of an enum value: (value, type)
            val, et = v.data
            disc = I.P.discs(et)
            tgt = {int(a): bb for a, bb in t[2]}
            for s, vi, _ in I.split(st, val):
                d = disc[vi] if disc else vi
                bb = tgt.get(d, t[3])
                if not self.is_unreachable(bb):
                    out.append(("goto", s, bb))
            return out
        # uninterpreted discriminating value
        term = I.vterm(st, v)
        cases = [(int(a), bb) for a, bb in t[2]] + ([] if self.is_unreachable(t[3]) else [("other", t[3])])
        known = st.facts.bools.get(("case", term))
        for a, bb in cases:
            if known is not None and known != a:
                continue
            s = st.fork()
            s.facts = s.facts.add_bool(("case", term), a)
            out.append(("goto", s, bb))
        I.paths += len(out) - 1
        if I.paths > I.max_paths:
            raise Budget("too many traces")
        return out

    def is_unreachable(self, b):
        return not self.blocks[b][0] and self.blocks[b][1][0] == "unr"

    def note(self, s, c, tr):
        return s

    # -- places and operands
    def place(self, st, pl):
        I = self.I
        cell = ("l", self.id, pl[0])
        path = ()
        for e in pl[1]:
            if e == "*":
                v = I.read(st, cell, path)
                if isinstance(v, Ref):
                    cell, path = v.cell, v.path
                elif isinstance(v, Agg) and v.t[0] == "adt" and v.t[1] == "std::boxed::Box":
                    path = path + (("f", 0),)
                elif isinstance(v, Opq):
                    t = v.t
                    inner = t[2] if t[0] in ("ref", "ptr") else (
                        t[2][0] if t[0] == "adt" and t[2] else ("other", "?"))
                    r = I.mk(st, v.term, ("ref", False, inner))
                    cell, path = r.cell, r.path
                else:
                    raise Budget("deref of %r in %s" % (v, self.key))
            elif e[0] == "f":
                path = path + (("f", e[1], self.P.sub(self.P.ty(e[3]), self.ta)),)
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "i":
                iv = st.cells.get(("l", self.id, e[1]))
                k = iv.p.as_const() if isinstance(iv, Num) else None
                path = path + (("i", int(k) if k is not None else I.vterm(st, iv)),)
            elif e[0] == "ci":
                if e[2]:
                    v = I.read(st, cell, path)
                    if isinstance(v, Lst):
                        path = path + (("i", len(v.items) - e[1]),)
                    else:
                        path = path + (("i", ("fromend", e[1])),)
                else:
                    path = path + (("i", e[1]),)
            else:
                raise Budget("projection %r" % (e,))
        return cell, path

    def operand(self, st, o):
        if o[0] in ("cp", "mv"):
            cell, path = self.place(st, o[1])
            return self.I.read(st, cell, path)
        return self.const(st, o[1])

    def const(self, st, c):
        I = self.I
        if "t" not in c:
            return Bool(False)
        t = self.P.sub(self.P.ty(c["t"]), self.ta)
        if "fn" in c:
            fn = c["fn"]
            return FnV((fn["p"], tuple(self.P.sub(self.P.targ(x), self.ta) for x in fn["a"])))
        if "prom" in c:
            cell = ("prom", self.id, c["of"], c["prom"])
            f = self.P.fns[c["of"]]
            fr = Frame(I, c["of"], f["prom"][c["prom"]], self.ta, I.uid())
            for kind, s, _ in fr.region(st, 0, None, None):
                if kind == "ret":
                    v = s.cells.get(("l", fr.id, 0))
                    st.cells.update({k: x for k, x in s.cells.items() if k not in st.cells})
                    return v
            raise Budget("promoted")
        if "v" in c:
            n = int(c["v"])
            if t == BOOL_T:
                return Bool(bool(n))
            if t == ("prim", "char"):
                return Opq(("char", n), t)
            return Num(C(n), t)
        if "zst" in c:
            if t[0] == "closure":
                return Clo(t[1], tuple(sorted(zip(self.P.generics(t[1]), t[3]))), ())
            if t[0] == "tuple":
                return UNIT
            vs = self.P.variants(t)
            if vs is not None and len(vs) >= 1:
                return Agg(t, 0, ())
            return Opq(("zst", t), t)
        if "str" in c:
            return Opq(("str", c["str"]), t)
        if "static" in c:
            cell = ("static", c["static"])
            if cell not in st.cells:
                st.cells[cell] = Opq(("static", c["static"]), t[2] if t[0] in ("ref", "ptr") else t)
            return Ref(cell, ())
        if "bits" in c:
            vs = self.P.variants(t)
            if vs is not None:
                d = self.P.discs(t)
                n = int(c["bits"])
                if t[1] == "std::cmp::Ordering":
                    return Agg(t, {255: 0, 0: 1, 1: 2}[n], ())
                if len(vs) > 1 and all(not x for x in vs):
                    return Agg(t, d.index(n) if d else n, ())
            if t == F64:
                x = struct.unpack("<d", int(c["bits"]).to_bytes(8, "little"))[0]
                return Opq(("f64", x, x), t)
            return Opq(("bits", c["bits"], t), t)
        if "name" in c:
            r = I.P.const_fn(c, self.ta)
            if r is not None:
                key, ta = r
                if self.P.fns[key].get("mir"):
                    res = I.call_fn(st, key, ta, [])
                    for s, kind, v in res:
                        if kind == "ret":
                            return v
            return I.mk(st, ("const", c["name"], tuple(self.P.sub(self.P.targ(x), self.ta)
                                                        for x in c.get("nargs", []))), t)
        if "mem" in c:
            b = bytes(c["mem"])
            if t[0] == "ref" and t[2][0] == "prim" and t[2][1] in INTS:
                n = int.from_bytes(b, "little", signed=t[2][1][0] == "i")
                return I.alloc(st, Num(C(n), t[2]))
            return I.mk(st, ("mem", tuple(c["mem"])), t)
        return I.mk(st, ("const?", self.id, I.uid()), t)

    # -- rvalues
    def rvalue(self, st, r, dst):
        I = self.I
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, r[1]))]
        if k == "ref" or k == "raw":
            pl = r[2] if k == "ref" else r[1]
            cell, path = self.place(st, pl)
            return [(st, Ref(cell, path))]
        if k == "cast":
            return self.cast(st, r)
        if k == "bin":
            return self.I.mod.binop(I, st, r[1], self.operand(st, r[2]), self.operand(st, r[3]))
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if isinstance(v, Bool):
                    return [(st, Bool(cond_not(v.c)))]
                if isinstance(v, Num):
                    c = v.p.as_const()
                    if c is not None and v.t[0] == "prim" and v.t[1] in INTS:
                        n = int(c)
                        if v.t[1][0] == "u":
                            w = {"usize": 64}.get(v.t[1]) or int(v.t[1][1:])
                            return [(st, Num(C((1 << w) - 1 - n), v.t))]
                        return [(st, Num(C(-n - 1), v.t))]
                    return [(st, Num(Poly.atom(("not", v.p)), v.t))]
            if r[1] == "Neg" and isinstance(v, Num):
                return [(st, Num(-v.p, v.t))]
            t = self.P.sub(self.P.ty(r[3]), self.ta)
            if r[1] == "PtrMetadata":
                w = I.deref(st, v)
                if isinstance(w, Lst):
                    return [(st, Num(C(len(w.items)), USIZE))]
                return [(st, I.mk(st, ("len", I.vterm(st, v)), USIZE))]
            return [(st, I.mk(st, ("un", r[1], I.vterm(st, v)), t))]
        if k == "disc":
            cell, path = self.place(st, r[1])
            v = I.read(st, cell, path)
            t = self.P.norm(self.P.sub(self.P.ty(r[2]), self.ta))
            return [(st, It("disc", (v, t)))]
        if k == "agg":
            vals = tuple(self.operand(st, o) for o in r[2])
            a = r[1]
            if a[0] == "tuple":
                return [(st, Agg(("tuple", tuple(I.vtype(x) for x in vals)), 0, vals))]
            if a[0] == "array":
                t = ("array", self.P.sub(self.P.ty(a[1]), self.ta), str(len(vals)))
                return [(st, Lst(t, vals))]
            if a[0] == "adt":
                t = ("adt", a[1], tuple(self.P.sub(self.P.targ(x), self.ta) for x in a[5]))
                return [(st, Agg(t, a[2], vals))]
            if a[0] == "closure":
                pa = [self.P.sub(self.P.targ(x), self.ta) for x in a[2]]
                return [(st, Clo(a[1], tuple(sorted(zip(self.P.generics(a[1]), pa))), vals))]
            raise Budget("aggregate %r" % (a,))
        if k == "rep":
            v = self.operand(st, r[1])
            n = r[2]
            if n.isdigit() and int(n) <= 16:
                return [(st, Lst(("array", I.vtype(v), n), (v,) * int(n)))]
            return [(st, Opq(("rep", I.vterm(st, v), n), self.lty(dst[0])))]
        t = self.lty(dst[0])
        return [(st, I.mk(st, ("rv", str(r[1])[:60], I.uid()), t))]

    def cast(self, st, r):
        I = self.I
        v = self.operand(st, r[2])
        t = self.P.sub(self.P.ty(r[3]), self.ta)
        ft = self.P.sub(self.P.ty(r[4]), self.ta)
        if r[1] == "int":
            if isinstance(v, Bool):
                out = []
                for s, tr in I.branch(st, v.c):
                    out.append((s, Num(C(1 if tr else 0), t)))
                return out
            if isinstance(v, It) and v.kind == "disc":
                val, et = v.data
                disc = I.P.discs(et)
                out = []
                for s, vi, _ in I.split(st, val):
                    out.append((s, Num(C(disc[vi] if disc else vi), t)))
                return out
            if isinstance(v, Num):
                if I.overflow and I.mod.width(t) is not None:
                    return [(s, Num(v.p if ok else I.mod.int_cast(I, s, v.p, v.t, t), t))
                            for s, ok in I.mod.stays_in(I, st, v.p, t)]
                return [(st, Num(I.mod.int_cast(I, st, v.p, v.t, t), t))]
        if r[1] == "IntToFloat" and t == F64 and isinstance(v, Num):
            b = self.I.mod.int_range(self.I, st, v.p)
            if b is not None:
                return [(st, Opq(("f64", float(b[0]), float(b[1])), t))]
        if r[1] == "FloatToInt" and isinstance(v, Opq) and v.term[0] == "f64" and t[0] == "prim" and t[1] in INTS:
            w = 64 if t[1].endswith("size") else int(t[1][1:])
            lo, hi = (0, (1 << w) - 1) if t[1][0] == "u" else (-(1 << w - 1), (1 << w - 1) - 1)
            a, b = (0 if x != x else max(lo, min(hi, int(x) if abs(x) < 2.0 ** 1000 else hi if x > 0 else lo)) for x in v.term[1:])
            if a != b:
                raise Split()
            return [(st, Num(C(a), t))]
        if isinstance(v, (Ref, Clo, FnV)):
            return [(st, v)]
        if isinstance(v, Lst):
            return [(st, v)]
        return [(st, I.mk(st, ("cast", r[1], I.vterm(st, v), t), t))]

    # -- calls
    def callterm(self, st, t):
        I = self.I
        f = t[1]
        args = [self.operand(st, a) for a in t[2]]
        cell, path = None, None
        dl = t[3]
        dest_t = self.place_ty(dl)
        if f[0] == "c" and "fn" in f[1]:
            fn = f[1]["fn"]
            fd = {"p": fn["p"], "a": tuple(self.P.sub(self.P.targ(x), self.ta) for x in fn["a"]),
                  "tr": fn.get("tr"), "nm": fn["nm"], "l": fn["l"], "span": t[5],
                  "caller": self.key}
            if "r" in fn:
                fd["r"] = fn["r"]
                fd["ra"] = tuple(self.P.sub(self.P.targ(x), self.ta) for x in fn["ra"])
                fd["rl"] = fn["rl"]
            res = I.call(st, fd, args, dest_t, t[5])
        else:
            fv = self.operand(st, f)
            res = I.call_value(st, fv, args)
        out = []
        for s, kind, v in res:
            if kind == "panic":
                out.append(("panic", s, v if isinstance(v, tuple) else (v, t[5])))
                continue
            if t[4] is None:
                continue  # diverging callee that returned: cannot happen
            s = s.fork()
            cell, path = self.place(s, dl)
            I.write(s, cell, path, v)
            out.append(("goto", s, t[4]))
        return out

    def place_ty(self, pl):
        t = self.lty(pl[0])
        for e in pl[1]:
            if e == "*":
                t = t[2] if t[0] in ("ref", "ptr") else ("other", "?")
            elif e[0] == "f":
                t = self.P.sub(self.P.ty(e[3]), self.ta)
        return self.P.norm(t)


TOPS = ("top", "ivtop")


def I_merge(I, st, v, w, head="top"):
    if v == w:
        return v
    if isinstance(v, Agg) and v.t[0] == "adt" and v.t[1].split("~")[0].endswith("::DyadicFractionInterval"):
        head = "ivtop"
    if isinstance(v, Agg) and isinstance(w, Agg) and v.t == w.t and v.v == w.v and len(v.f) == len(w.f):
        return Agg(v.t, v.v, tuple(I_merge(I, st, a, b, head) for a, b in zip(v.f, w.f)))
    if isinstance(v, Clo) and isinstance(w, Clo) and v.key == w.key:
        return Clo(v.key, v.ta, tuple(I_merge(I, st, a, b, head) for a, b in zip(v.f, w.f)))
    if isinstance(v, Opq) and v.term and v.term[0] == "top":
        return v
    if isinstance(v, Num):
        a = st.facts.norm(v.p)
        if len(a.d) == 1:
            (m, c), = a.d.items()
            if c == 1 and len(m[0]) == 1 and not m[1] and _atoms[m[0][0][0]][0] in TOPS:
                return v
        return I.mk(st, (head, I.uid()), v.t)
    if isinstance(v, Bool):
        if isinstance(v.c, tuple) and v.c[0] == "b" and v.c[1][0] == "top":
            return v
        return Bool(("b", ("top", I.uid())))
    if isinstance(v, Und) or isinstance(w, Und):
        return UND
    t = I.vtype(v)
    if t == ("other", "?"):
        t = I.vtype(w)
    if isinstance(v, Ref) or isinstance(w, Ref):
        return UND
    return Opq(("top", I.uid()), t)
