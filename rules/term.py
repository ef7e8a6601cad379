"""Normal forms for the abstract value domain: Laurent polynomials over atoms, with powers of two
whose exponents are themselves linear terms, rational coefficients, floor() atoms, and a small
sign calculus (no solver): a term is shown non-negative by rewriting it over variables that are
non-negative by the recorded facts and looking at the coefficients."""
from fractions import Fraction

_atom_ids = {}
_atoms = []


def atom_id(a):
    i = _atom_ids.get(a)
    if i is None:
        i = len(_atoms)
        _atom_ids[a] = i
        _atoms.append(a)
    return i


ONE_M = ((), ())


class Poly:
    __slots__ = ("d", "_h", "_k")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None

    # ---- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({ONE_M: c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({(((atom_id(a), 1),), ()): Fraction(1)})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items(), key=repr))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def is_zero(self):
        return not self.d

    def as_const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and ONE_M in self.d:
            return self.d[ONE_M]
        return None

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        c = Fraction(c)
        return Poly({m: v * c for m, v in self.d.items()} if c else {})

    def __mul__(self, o):
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m, k = mono_mul(m1, m2)
                n = d.get(m, 0) + c1 * c2 * k
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
        return Poly(d)

    def ipow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def inv(self):
        if len(self.d) == 1:
            (m, c), = self.d.items()
            at = tuple((a, -e) for a, e in m[0])
            p2 = tuple((k, -v) for k, v in m[1])
            return Poly({(at, p2): 1 / c})
        # general denominator: one atom, normalised by its leading coefficient
        if not self.d:
            return Poly.atom(("inv0",))
        lead = min(self.d.items(), key=lambda kv: repr(kv[0]))
        n = self.scale(1 / lead[1])
        return Poly.atom(("inv", n)).scale(1 / lead[1])

    def atoms(self):
        s = set()
        for (at, p2) in self.d:
            for a, _ in at:
                s.add(a)
            for k, _ in p2:
                for a, _ in k[0]:
                    s.add(a)
        return s

    def deep_atoms(self, seen=None):
        seen = set() if seen is None else seen
        for a in self.atoms():
            if a in seen:
                continue
            seen.add(a)
            for x in _atoms[a]:
                if isinstance(x, Poly):
                    x.deep_atoms(seen)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Poly):
                            y.deep_atoms(seen)
        return seen

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if m1 == ONE_M:
        return m2, 1
    if m2 == ONE_M:
        return m1, 1
    if m1[0] and m2[0]:
        d = dict(m1[0])
        for a, e in m2[0]:
            d[a] = d.get(a, 0) + e
        at = tuple(sorted((a, e) for a, e in d.items() if e))
    else:
        at = m1[0] or m2[0]
    if m1[1] and m2[1]:
        d = dict(m1[1])
        for a, e in m2[1]:
            d[a] = d.get(a, 0) + e
        p2 = tuple(sorted(((k, v) for k, v in d.items() if v), key=repr))
    else:
        p2 = m1[1] or m2[1]
    return (at, p2), 1


def pow2(e):
    """2**e for a linear term e"""
    c = Fraction(1)
    p2 = []
    for m, k in e.d.items():
        if m == ONE_M:
            if k.denominator == 1 and abs(k) < 1 << 20:
                c = Fraction(2) ** int(k)
            else:
                return Poly.atom(("pow2", e))
        else:
            p2.append((m, k))
    p2.sort(key=repr)
    return Poly({((), tuple(p2)): c})


def C(n):
    return Poly.const(n)


def A(*a):
    return Poly.atom(tuple(a))


def is_integer_valued(p, ints):
    """p is surely an integer: every monomial has integer coefficient, no negative exponents,
    no negative powers of two; ints(atom) says whether the atom is an integer"""
    for (at, p2), c in p.d.items():
        if c.denominator != 1:
            return False
        for a, e in at:
            if e < 0 or not ints(_atoms[a]):
                return False
        if p2:
            for k, v in p2:
                if v < 0:
                    return False
    return True


NONINT = set()


def default_ints(a):
    if a[0] in ("inv", "inv0", "delta", "w", "pow2"):
        return False
    if a in NONINT:
        return False
    return True


def floor(p):
    if is_integer_valued(p, default_ints):
        return p
    # pull out integer part
    d_int, d_rest = {}, {}
    for m, c in p.d.items():
        q = Poly({m: c})
        if is_integer_valued(q, default_ints):
            d_int[m] = c
        else:
            d_rest[m] = c
    r = Poly(d_rest)
    k = r.as_const()
    if k is not None:
        return Poly(d_int) + C(k.numerator // k.denominator)
    return Poly(d_int) + Poly.atom(("floor", r))


def ceil(p):
    return -floor(-p)


def subst(p, mp, cache=None):
    """replace atoms (by id) using mp: id -> Poly, recursively inside floor/inv/app atoms"""
    if not mp:
        return p
    out = Poly({})
    ch = False
    for (at, p2), c in p.d.items():
        t = Poly({((), ()): c})
        for a, e in at:
            b = subst_atom(a, mp)
            if b is None:
                t = t * Poly({(((a, e),), ()): Fraction(1)})
            else:
                ch = True
                if e >= 0:
                    t = t * b.ipow(e)
                else:
                    t = t * b.inv().ipow(-e)
        if p2:
            ex = Poly({k: v for k, v in p2})
            ex2 = subst(ex, mp)
            if ex2 != ex:
                ch = True
            t = t * pow2(ex2)
        out = out + t
    return out if ch else p


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    at = _atoms[a]
    if any(isinstance(x, (Poly, tuple)) for x in at):
        new = tuple(_subst_any(x, mp) for x in at)
        if new != at:
            if at[0] == "floor":
                return floor(new[1])
            if at[0] == "inv":
                return new[1].inv()
            if at[0] == "pow2":
                return pow2(new[1])
            return Poly.atom(new)
    return None


def _subst_any(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, mp) for y in x)
    return x


def show_atom(a):
    a = _atoms[a] if isinstance(a, int) else a
    if a[0] == "sym":
        return str(a[1])
    if a[0] == "floor":
        return "floor(%s)" % show(a[1])
    if a[0] == "inv":
        return "1/(%s)" % show(a[1])
    return "%s(%s)" % (a[0], ",".join(show(x) if isinstance(x, Poly) else str(x) for x in a[1:]))


def show(p):
    if not isinstance(p, Poly):
        return str(p)
    if not p.d:
        return "0"
    ts = []
    for (at, p2), c in sorted(p.d.items(), key=repr):
        s = []
        if c != 1 or (not at and not p2):
            s.append(str(c))
        for a, e in at:
            s.append(show_atom(a) + ("^%d" % e if e != 1 else ""))
        if p2:
            s.append("2^(%s)" % show(Poly({k: v for k, v in p2})))
        ts.append("*".join(s))
    return " + ".join(ts)


# ------------------------------------------------------------------ facts and the sign calculus
class Facts:
    """a conjunction of sign facts and boolean facts; persistent (copy on add)"""
    __slots__ = ("ge", "gt", "eq", "ne", "bools", "_eqsub")

    def __init__(self, ge=(), gt=(), eq=(), ne=(), bools=None):
        self.ge, self.gt, self.eq, self.ne = ge, gt, eq, ne
        self.bools = bools or {}
        self._eqsub = None

    def add(self, kind, p):
        f = Facts(self.ge, self.gt, self.eq, self.ne, self.bools)
        if kind == "ge":
            f.ge = self.ge + (p,)
        elif kind == "gt":
            f.gt = self.gt + (p,)
        elif kind == "eq":
            f.eq = self.eq + (p,)
        elif kind == "ne":
            f.ne = self.ne + (p,)
        f._eqsub = None
        return f

    def add_bool(self, b, v):
        n = dict(self.bools)
        n[b] = v
        return Facts(self.ge, self.gt, self.eq, self.ne, n)

    def eqsub(self):
        """substitution from equalities with a linearly occurring atom"""
        if self._eqsub is not None:
            return self._eqsub
        mp = {}
        for p in self.eq:
            p = subst_fix(p, mp)
            if p.is_zero():
                continue
            best = None
            for (at, p2), c in p.d.items():
                if len(at) == 1 and at[0][1] == 1 and not p2:
                    a = at[0][0]
                    rest = Poly({m: v for m, v in p.d.items() if m != (at, p2)})
                    if a in rest.deep_atoms():
                        continue
                    depth = _depth(a)
                    if best is None or depth > best[0]:
                        best = (depth, a, rest.scale(-1 / c))
            if best is None:
                # c * mono == 0 with invertible factors: single-monomial equality
                continue
            mp = {k: subst(v, {best[1]: best[2]}) for k, v in mp.items()}
            mp[best[1]] = best[2]
        self._eqsub = mp
        return mp

    def norm(self, p):
        return subst_fix(p, self.eqsub())

    # -- queries: True when proved
    def is_zero(self, p):
        p = self.norm(p)
        if p.is_zero():
            return True
        for e in self.eq:
            e = self.norm(e)
            if e.d and same_up_to_scale(p, e):
                return True
        return False

    def nonzero(self, p):
        if self.positive(p) or self.positive(-p):
            return True
        p = self.norm(p)
        for e in self.ne:
            if same_up_to_scale(p, self.norm(e)):
                return True
        # a product of non-zero things
        if len(p.d) == 1:
            (m, c), = p.d.items()
            return all(e < 0 or self._atom_nz(a) for a, e in m[0])
        return False

    def _atom_nz(self, a):
        q = Poly({(((a, 1),), ()): Fraction(1)})
        if any(self.norm(e) == q or self.norm(e) == -q for e in self.ne):
            return True
        return False

    def nonneg(self, p, products=False):
        return prove(self, p, False, products)

    def positive(self, p, products=False):
        return prove(self, p, True, products)

    def inconsistent(self):
        for p in self.gt:
            c = self.norm(p).as_const()
            if c is not None and c <= 0:
                return True
        for p in self.ge:
            c = self.norm(p).as_const()
            if c is not None and c < 0:
                return True
        for p in self.ne:
            if self.norm(p).is_zero():
                return True
        for p in self.eq:
            c = self.norm(p).as_const()
            if c is not None and c != 0:
                return True
        for k, v in self.bools.items():
            if isinstance(k, tuple) and k and k[0] == "odd" and isinstance(k[1], Poly):
                c = self.norm(k[1]).as_const()
                if c is not None and c.denominator == 1 and (int(c) % 2 == 1) != v:
                    return True
        return False


def subst_fix(p, mp):
    for _ in range(6):
        q = subst(p, mp)
        if q == p:
            return p
        p = q
    return p


def _depth(a):
    at = _atoms[a]
    d = 0
    for x in at:
        if isinstance(x, Poly):
            for b in x.atoms():
                d = max(d, 1 + _depth(b))
        elif isinstance(x, tuple):
            d = max(d, 1)
    return d


def same_up_to_scale(p, q):
    if len(p.d) != len(q.d) or not p.d:
        return False
    m = next(iter(p.d))
    if m not in q.d:
        return False
    k = p.d[m] / q.d[m]
    return all(x in q.d and q.d[x] * k == c for x, c in p.d.items())


def delta_cap(e):
    """an upper bound for delta(e): 1 - 2^-n when 2^n * e is an integer, else 1"""
    # find common power of two denominator among monomials
    for (at, p2), c in e.d.items():
        pass
    neg = None
    for (at, p2), c in e.d.items():
        ex = Poly({k: -v for k, v in p2 if v < 0})
        if any(x < 0 for _, x in at):
            return C(1)
        den = c.denominator
        if den & (den - 1):
            return C(1)
        ex = ex + C(den.bit_length() - 1)
        if neg is None:
            neg = ex
        elif neg != ex:
            return C(1)
    if neg is None:
        return C(1)
    if not is_integer_valued(e * pow2(neg), default_ints):
        return C(1)
    return C(1) - pow2(-neg)


_prove_cache = {}
STATS = {"entail": 0, "lp": 0}


def prove(facts, p, strict, products=False):
    p = facts.norm(p)
    c = p.as_const()
    if c is not None:
        return c > 0 or (c == 0 and not strict)
    k = (id(facts), p, strict, products)
    r = _prove_cache.get(k)
    if r is not None and r[0] is facts:
        return r[1]
    STATS["entail"] += 1
    v = _prove(facts, p, strict, products)
    if len(_prove_cache) > 100000:
        _prove_cache.clear()
    _prove_cache[k] = (facts, v)
    return v


def _floor_rows(polys):
    """facts about the floor atoms occurring in polys (recursively): e - f >= 0, f + 1 - e > 0"""
    rows = []
    seen = set()
    todo = list(polys)
    while todo:
        q = todo.pop()
        for a in q.atoms():
            if a in seen:
                continue
            seen.add(a)
            at = _atoms[a]
            if at[0] == "floor":
                e = at[1]
                f = Poly({(((a, 1),), ()): Fraction(1)})
                rows.append((e - f, False))
                cap = delta_cap(e)
                rows.append((f - e + cap, cap == C(1)))
                todo.append(e)
    return rows


def _prove(facts, p, strict, products):
    base = []
    for q in facts.ge:
        q = facts.norm(q)
        if q.as_const() is None:
            base.append((q, False))
    for q in facts.gt:
        q = facts.norm(q)
        if q.as_const() is None:
            base.append((q, True))
    nes = [facts.norm(e) for e in facts.ne]
    for q, s in list(base):
        if not s and any(same_up_to_scale(q, e) for e in nes):
            base.append((q, True))
    for q, s in base:
        if same_up_to_scale(p, q):
            m = next(iter(p.d))
            if p.d[m] / q.d[m] > 0 and (s or not strict):
                return True
    # relevant facts: connected to p through shared atoms
    rows = base + _floor_rows([p] + [q for q, _ in base])
    eqs = [facts.norm(e) for e in facts.eq]
    eqs = [e for e in eqs if e.d and e.as_const() is None]
    for e in eqs:
        rows.append((e, False))
        rows.append((-e, False))
    reach = p.deep_atoms()
    rel = []
    rest = rows
    for _ in range(4):
        nxt = []
        grow = False
        for r in rest:
            if r[0].atoms() & reach:
                rel.append(r)
                grow = True
            else:
                nxt.append(r)
        for r in rel:
            reach = reach | r[0].atoms()
        rest = nxt
        if not grow:
            break
    if farkas(p, strict, rel):
        return True
    # floor is monotone
    fl = [(_atoms[a][1], Poly({(((a, 1),), ()): Fraction(1)})) for a in p.atoms() if _atoms[a][0] == "floor"]
    if fl:
        for a, v in facts.eqsub().items():
            if _atoms[a][0] == "floor" and v.atoms() & p.atoms():
                fl.append((facts.norm(_atoms[a][1]), v))
    if 1 < len(fl) <= 6:
        mono = []
        for ea, fa in fl:
            for eb, fb in fl:
                if fa is not fb and prove(facts, eb - ea, False):
                    mono.append((fb - fa, False))
        if mono:
            rel = rel + mono
            if farkas(p, strict, rel):
                return True
    if products:
        prods = []
        pa = p.atoms()
        lim = rel[:]
        for i in range(len(lim)):
            for j in range(i, len(lim)):
                q = lim[i][0] * lim[j][0]
                if len(q.d) <= 12:
                    prods.append((q, lim[i][1] and lim[j][1]))
        for _ in range(2):
            lim2 = [r for r in prods if r[0].atoms() <= (reach | pa)]
            if len(lim2) <= 1500:
                break
            lim2 = lim2[:1500]
        return farkas(p, strict, rel + lim2)
    return False


def farkas(p, strict, rows):
    """is p a non-negative combination of the rows (each known >= 0, or > 0) plus monomials that
    are positive by construction (pure powers of two)?  The combination is the certificate."""
    STATS["lp"] += 1
    # scale rows by powers of two so that they speak about p's monomials
    cols = []
    seenc = set()

    def add(q, s):
        k = frozenset(q.d.items())
        if k not in seenc:
            seenc.add(k)
            cols.append((q.d, s))

    want = {}
    for (at, p2) in p.d:
        want.setdefault(at, set()).add(p2)
    frontier = want
    for rnd in range(2):
        new = {}
        for q, s in rows:
            scales = set()
            for (at, p2) in q.d:
                for t in frontier.get(at, ()):
                    m, _ = mono_mul(((), t), ((), tuple((k, -v) for k, v in p2)))
                    scales.add(m)
            for m in scales:
                qq = q * Poly({m: Fraction(1)}) if m != ONE_M else q
                add(qq, s)
                for (at, p2) in qq.d:
                    if p2 not in want.get(at, ()):
                        new.setdefault(at, set()).add(p2)
        for at, ps in new.items():
            want.setdefault(at, set()).update(ps)
        frontier = new
        if not new:
            break
    monos = set(p.d)
    for d, _ in cols:
        monos.update(d)
    for m in monos:
        at, p2 = m
        if not at or all(e % 2 == 0 for _, e in at):
            add(Poly({m: Fraction(1)}), not at)
    # prune: repeatedly drop columns having a monomial that cannot be cancelled
    changed = True
    while changed:
        changed = False
        pos, neg = {}, {}
        for d, s in cols:
            for m, c in d.items():
                (pos if c > 0 else neg).setdefault(m, 0)
                if c > 0:
                    pos[m] += 1
                else:
                    neg[m] += 1
        nc = []
        for d, s in cols:
            ok = True
            for m, c in d.items():
                t = p.d.get(m, 0)
                if c > 0 and t <= 0 and not neg.get(m):
                    ok = False
                    break
                if c < 0 and t >= 0 and not pos.get(m):
                    ok = False
                    break
            if ok:
                nc.append((d, s))
            else:
                changed = True
        cols = nc
    have = set()
    for d, _ in cols:
        have.update(d)
    if any(m not in have for m in p.d):
        return False
    return lp_feasible(cols, p.d, strict)


def lp_feasible(cols, target, strict):
    """exact two-phase simplex: lambda >= 0 with sum(lambda*col) == target; when strict, some
    strictly positive column must be usable"""
    rown = {}
    for m in target:
        rown.setdefault(m, len(rown))
    for d, _ in cols:
        for m in d:
            rown.setdefault(m, len(rown))
    nr, nc = len(rown), len(cols)
    if nr * nc > 200000:
        return False
    T = [dict() for _ in range(nr)]
    b = [Fraction(0)] * nr
    for m, c in target.items():
        b[rown[m]] = c
    for j, (d, _) in enumerate(cols):
        for m, c in d.items():
            T[rown[m]][j] = c
    for i in range(nr):
        if b[i] < 0:
            b[i] = -b[i]
            T[i] = {j: -c for j, c in T[i].items()}
    basis = [nc + i for i in range(nr)]
    # phase 1 objective: sum of rows
    def run(obj, objv, allowed, stop=None):
        it = 0
        while True:
            it += 1
            if it > 400:
                return obj, objv, False
            e = None
            best = 0
            if it < 200:
                for j, c in obj.items():
                    if c > best and allowed(j):
                        best, e = c, j
            else:
                for j in sorted(obj):
                    if obj[j] > 0 and allowed(j):
                        e = j
                        break
            if e is None:
                return obj, objv, True
            r, rat = None, None
            for i in range(nr):
                a = T[i].get(e)
                if a is not None and a > 0:
                    q = b[i] / a
                    if rat is None or q < rat or (q == rat and basis[i] < basis[r]):
                        r, rat = i, q
            if r is None:
                return obj, None, True  # unbounded
            piv = T[r][e]
            if piv != 1:
                T[r] = {j: c / piv for j, c in T[r].items()}
                b[r] = b[r] / piv
            Tr = T[r]
            for i in range(nr):
                if i != r:
                    a = T[i].get(e)
                    if a:
                        Ti = T[i]
                        for j, c in Tr.items():
                            v = Ti.get(j, 0) - a * c
                            if v:
                                Ti[j] = v
                            else:
                                Ti.pop(j, None)
                        b[i] -= a * b[r]
            a = obj.get(e, 0)
            if a:
                for j, c in Tr.items():
                    v = obj.get(j, 0) - a * c
                    if v:
                        obj[j] = v
                    else:
                        obj.pop(j, None)
                objv = objv - a * b[r]
            basis[r] = e
            if stop is not None and stop(objv):
                return obj, objv, True

    obj = {}
    tot = Fraction(0)
    for i in range(nr):
        for j, c in T[i].items():
            v = obj.get(j, 0) + c
            if v:
                obj[j] = v
            else:
                obj.pop(j, None)
        tot += b[i]
    obj, tot, ok = run(obj, tot, lambda j: j < nc, lambda v: v == 0)
    if not ok or tot is None or tot != 0:
        return False
    if not strict:
        return True
    # artificial variables leave the basis; a row with nothing else in it is redundant
    for r in range(nr):
        if basis[r] < nc:
            continue
        e = next((j for j, c in T[r].items() if j < nc and c), None)
        if e is None:
            T[r] = {}
            continue
        piv = T[r][e]
        T[r] = {j: c / piv for j, c in T[r].items()}
        Tr = T[r]
        for i in range(nr):
            if i != r:
                a = T[i].get(e)
                if a:
                    Ti = T[i]
                    for j, c in Tr.items():
                        v = Ti.get(j, 0) - a * c
                        if v:
                            Ti[j] = v
                        else:
                            Ti.pop(j, None)
        basis[r] = e
    # strict: maximise the total weight of strict columns
    obj = {j: Fraction(1) for j, (d, s) in enumerate(cols) if s}
    val = Fraction(0)
    for i in range(nr):
        j = basis[i]
        a = obj.get(j, 0)
        if a:
            for k, c in T[i].items():
                v = obj.get(k, 0) - a * c
                if v:
                    obj[k] = v
                else:
                    obj.pop(k, None)
            val += a * b[i]
    if val > 0:
        return True
    def stop(v):
        return v < 0
    o2, v2, ok = run(obj, Fraction(0), lambda j: j < nc, stop)
    return v2 is None or v2 < 0
