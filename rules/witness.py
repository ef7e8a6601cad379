"""Confirmation of a failed entailment: look for a point of the abstract state (a valuation of its
base symbols satisfying every recorded fact) at which the obligation is false.  An obligation that
is neither entailed nor refuted by a point is reported as undecided, never as a violation."""
import math
import random
import time
from fractions import Fraction

from term import Poly, _atoms, NONINT, ONE_M

SMALL = [0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 7, -7, 8, 12, -12, 17, 100, -100, 1 << 20, -(1 << 20) - 1]
EXPS = [0, 1, 2, 3, 5, 8]
EVAL = {"pow", "ilcm", "igcd", "bezx", "bezy", "floor", "inv", "inv0", "isqrt", "bits", "trunc", "pow2", "numer", "denom"}


def evaluable(at):
    """the value follows from the arguments"""
    return at[0] in EVAL and not (at[0] in ("numer", "denom") and not isinstance(at[1], Poly))


# atoms whose value an over-approximating contract hides: id -> function(evaluate) giving the value the
# operation actually produces, so that a refuting point is a point of the real computation
REAL = {}
# set while a term is evaluated that involves a transcendental function (floating point)
APPROX = [False]


# seconds for one search
WALL = 10


class Bad(Exception):
    pass


class Undefined(Bad):
    """a power or logarithm of something not positive: a fact about it says nothing here"""


def transcendental(at, val, mp, depth):
    u = ev(at[1], val, mp, depth)
    if u <= 0:
        raise Undefined()
    APPROX[0] = True
    try:
        if at[0] == "ln":
            return Fraction(math.log(u))
        r = ev(at[2], val, mp, depth)
        if r.denominator == 1 and abs(r) <= 40:
            return u ** int(r)
        return Fraction(math.exp(math.log(u) * float(r)))
    except (OverflowError, ValueError):
        raise Bad()


def _collect(x, out, exps, in_exp=False):
    """base atom ids of a term; exps: those used in an exponent of two"""
    if isinstance(x, Poly):
        for (at, p2), _ in x.d.items():
            for a, _e in at:
                _collect_atom(a, out, exps, in_exp)
            for k, _v in p2:
                for a, _e in k[0]:
                    _collect_atom(a, out, exps, True)
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, (Poly, tuple)):
                _collect(y, out, exps, in_exp)


def _collect_atom(a, out, exps, in_exp):
    at = _atoms[a]
    if in_exp:
        exps.add(a)
    if evaluable(at) or at[0] in ("ln", "rpow"):
        _collect(at[1:], out, exps, in_exp and at[0] not in ("bits", "numer", "denom", "isqrt", "ln"))
    elif a in REAL:
        for q in REAL[a][1]:
            _collect(q, out, exps, in_exp)
    else:
        out.add(a)


def ev(p, val, mp, depth=0):
    if depth > 40:
        raise Bad()
    t = Fraction(0)
    for (at, p2), c in p.d.items():
        v = c
        for a, e in at:
            x = ev_atom(a, val, mp, depth + 1)
            if e < 0 and x == 0:
                raise Bad()
            if abs(e) > 64:
                raise Bad()
            v *= x ** e
        if p2:
            e = Fraction(0)
            for m, k in p2:
                e += ev(Poly({m: Fraction(k)}), val, mp, depth + 1)
            if e.denominator != 1 or abs(e) > 4000:
                raise Bad()
            v *= Fraction(2) ** int(e)
        t += v
    return t


def egcd(a, b):
    x0, y0, x1, y1 = 1, 0, 0, 1
    while b:
        q = a // b
        a, b, x0, x1, y0, y1 = b, a - q * b, x1, x0 - q * x1, y1, y0 - q * y1
    return (a, x0, y0) if a >= 0 else (-a, -x0, -y0)


def ev_atom(a, val, mp, depth):
    at = _atoms[a]
    h = at[0]
    if h in ("ln", "rpow"):
        return transcendental(at, val, mp, depth)
    if not evaluable(at):
        if a in REAL:
            return REAL[a][0](lambda q: ev(q, val, mp, depth + 1))
        if a in mp:
            return ev(mp[a], val, mp, depth)
        return val[a]
    if h == "inv0":
        raise Bad()
    if h == "pow" and len(at) == 3:
        x, k = ev(at[1], val, mp, depth), ev(at[2], val, mp, depth)
        if k.denominator != 1 or not 0 <= k <= 64 or abs(x) > 1 << 64:
            raise Bad()
        return x ** int(k)
    if h in ("igcd", "bezx", "bezy", "ilcm"):
        x, y = ev(at[1], val, mp, depth), ev(at[2], val, mp, depth)
        if x.denominator != 1 or y.denominator != 1:
            raise Bad()
        g, u, v = egcd(int(x), int(y))
        if h == "ilcm":
            return Fraction(abs(x * y) / g if g else 0)
        return Fraction(g if h == "igcd" else u if h == "bezx" else v)
    if len(at) != 2 or not isinstance(at[1], Poly):
        if h in ("numer", "denom"):
            raise Bad()
        raise Bad()
    x = ev(at[1], val, mp, depth)
    if h == "floor":
        return Fraction(math.floor(x))
    if h == "trunc":
        return Fraction(math.trunc(x))
    if h == "inv":
        if x == 0:
            raise Bad()
        return 1 / x
    if h == "isqrt":
        if x < 0:
            raise Bad()
        return Fraction(math.isqrt(math.floor(x)))
    if h == "bits":
        return Fraction(abs(math.floor(x)).bit_length())
    if h == "numer":
        return Fraction(x.numerator)
    if h == "denom":
        return Fraction(x.denominator)
    if h == "pow2":
        if x.denominator != 1 or abs(x) > 4000:
            raise Bad()
        return Fraction(2) ** int(x)
    raise Bad()


def scale(p, val, mp):
    """size of the largest monomial"""
    out = Fraction(0)
    for m, c in p.d.items():
        out = max(out, abs(ev(Poly({m: c}), val, mp)))
    return out


def ev_bool(k, val, mp):
    """truth of a recorded boolean fact, None when it is free"""
    if isinstance(k, tuple) and k and k[0] == "odd" and isinstance(k[1], Poly):
        x = ev(k[1], val, mp)
        return x.denominator == 1 and int(x) % 2 == 1
    return None


# isolating intervals of the numbers under analysis: ghost value -> [interval view]
ISO = {}
_POOL = {}


def polys(n):
    """irreducible polynomials of degree n with their real roots (to 2^-160)"""
    if n in _POOL:
        return _POOL[n]
    rnd = random.Random(n)
    out = []
    while len(out) < 400:
        c = [rnd.choice((-9, -7, -5, -3, -2, -1, 0, 1, 2, 3, 4, 6, 8)) for _ in range(n)] + [rnd.choice((1, 1, 1, 2, 3, 5))]
        if c[0] == 0 or math.gcd(*c) != 1 or not irreducible(c):
            continue
        rs = real_roots(c)
        if rs:
            out.append((c, rs))
    _POOL[n] = out
    return out


def irreducible(c):
    """degree 2 and 3: no rational root; degree 4: Eisenstein at 2, 3 or 5"""
    n = len(c) - 1
    if n > 3:
        return any(c[n] % p and all(x % p == 0 for x in c[:n]) and c[0] % (p * p) for p in (2, 3, 5))
    for p in range(1, abs(c[0]) + 1):
        if c[0] % p:
            continue
        for q in range(1, abs(c[n]) + 1):
            if c[n] % q == 0:
                for x in (Fraction(p, q), Fraction(-p, q)):
                    if at_point(c, x) == 0:
                        return False
    return True


def at_point(c, x):
    t = Fraction(0)
    for k in reversed(c):
        t = t * x + k
    return t


def real_roots(c):
    B = 1 + max(abs(k) for k in c[:-1])
    xs = [Fraction(-B * 64 + i, 64) for i in range(B * 128 + 1)]
    out = []
    for a, b in zip(xs, xs[1:]):
        fa, fb = at_point(c, a), at_point(c, b)
        if fa * fb < 0:
            while b - a > Fraction(1, 1 << 160):
                m = (a + b) / 2
                if at_point(c, m) * fa > 0:
                    a = m
                else:
                    b = m
            out.append(a)
    return out


def deg_of(q, mp):
    d = Poly.atom(("deg", q))
    ((m, _), _), = d.d.items()
    t = mp.get(m[0][0])
    c = t.as_const() if t is not None else None
    return int(c) if c is not None else None


def groups(facts, free, mp):
    """{id of a ghost's atom: (degree, its coefficient atoms)}; None when the coefficients belong to something else"""
    out = {}
    for a in free:
        at = _atoms[a]
        if at[0] != "coef":
            continue
        q = at[1]
        if len(q.d) != 1:
            return None
        ((m, p2), c), = q.d.items()
        if p2 or c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0] not in free:
            return None
        n = facts.bools.get(("deg", q))
        if n is None:
            n = deg_of(q, mp)
        if not isinstance(n, int) or isinstance(n, bool) or not 2 <= n <= 4:
            return None
        out.setdefault(m[0][0], (n, {}))[1][at[2]] = a
    return out


def find(facts, alts=(), tries=6000, seed=1):
    """a valuation satisfying the facts at which every alternative is false; an alternative is a
    conjunction of (p, "ge"|"gt"|"eq") goals"""
    mp = facts.eqsub()
    base, exps = set(), set()
    todo = [p for alt in alts for p, _ in alt] + list(facts.ge) + list(facts.gt) + list(facts.eq) + list(facts.ne)
    for k in facts.bools:
        if isinstance(k, tuple) and k and k[0] == "odd":
            todo.append(k[1])
    for v in mp.values():
        todo.append(v)
    for q in todo:
        _collect(q, base, exps)
    for p in ISO if any(_atoms[a][0] == "coef" for a in base) else ():
        for e in ISO[p]:
            _collect(e.L, base, exps)
            _collect(e.U, base, exps)
    free = sorted(a for a in base if a not in mp)
    grp = groups(facts, set(free), mp)
    if grp is None:
        return None
    member = {}
    for g, (n, cs) in grp.items():
        member[g] = g
        for a in cs.values():
            member[a] = g
    other = {}
    cons = [("ge", q) for q in facts.ge] + [("gt", q) for q in facts.gt] + \
           [("eq", q) for q in facts.eq] + [("ne", q) for q in facts.ne]
    bl = [(k, v) for k, v in facts.bools.items()
          if isinstance(k, tuple) and k and k[0] == "odd" and isinstance(k[1], Poly)]
    # which free atoms a constraint depends on
    deps = []
    for _, q in cons:
        s = set()
        _close(q, s, mp)
        deps.append(s)
    asp = []
    for alt in alts:
        sp = set()
        for p, _ in alt:
            _close(p, sp, mp)
        asp.append(sp)
    consts = set()
    for q in todo:
        for c in q.d.values():
            if c.denominator == 1 and abs(c) < 1 << 40:
                consts.add(int(c))
    epool = sorted({abs(c) for c in consts if abs(c) < 3000} | {0})
    pool = SMALL + sorted(consts)
    rnd = random.Random(seed)
    irr = set()
    for k, v in facts.bools.items():
        if v and isinstance(k, tuple) and k[0] == "irr":
            _close(k[1], irr, mp)

    def draw(val, a):
        """a new value for one symbol; the root and coefficients of one polynomial move together"""
        g = member.get(a)
        if g is None:
            val[a] = pick(a)
            return
        n, cs = grp[g]
        c, rs = rnd.choice(polys(n))
        r = rnd.choice(rs)
        val[g] = r
        other[r] = [x for x in rs if x != r]
        for i, k in cs.items():
            val[k] = Fraction(c[i])

    iso = []
    for g in grp:
        for p, ends in ISO.items():
            if p == Poly.atom(_atoms[g]):
                for e in ends:
                    sp = {g}
                    _close(e.L, sp, mp)
                    _close(e.U, sp, mp)
                    iso.append((g, (e.L, e.U), sp))

    def pick(a):
        if a in exps and _atoms[a] not in NONINT:
            if rnd.random() < 0.5:
                return Fraction(rnd.choice(EXPS))
            return Fraction(rnd.choice(epool) + rnd.choice((0, 0, 1, 2, 5)))
        at = _atoms[a]
        if at in NONINT:
            if a in irr:
                return Fraction(rnd.randrange(-5 * 1009, 5 * 1009), 1009)
            return Fraction(rnd.choice(SMALL[:16]), rnd.choice([1, 1, 1, 2, 3, 4, 8]))
        r = rnd.random()
        if r < 0.75:
            return Fraction(rnd.choice(pool[:12]))
        if r < 0.88:
            return Fraction(rnd.choice(pool) + rnd.choice((-1, 0, 1)))
        if r < 0.93:
            return Fraction(rnd.randrange(-300, 300))
        return Fraction(rnd.choice((1, 1, -1)) * (1 << rnd.choice((32, 40, 63, 64, 100, 128, 200))) +
                        rnd.choice((-1, 0, 0, 1)))

    parts = {}
    for a in free:
        if _atoms[a][0] in ("numer", "denom"):
            parts.setdefault(_atoms[a][1], []).append(a)
    parts = [x for x in parts.values() if len(x) == 2]

    def score(val):
        bad = []
        for g, e, sp in iso:
            try:
                lo, hi = ev(e[0], val, mp), ev(e[1], val, mp)
            except Bad:
                bad.append(sp)
                continue
            if any(lo <= x <= hi for x in other[val[g]]):
                bad.append(sp)
        for x in parts:
            if math.gcd(int(val[x[0]]), int(val[x[1]])) != 1:
                bad.append(set(x))
        for i, (k, q) in enumerate(cons):
            try:
                APPROX[0] = False
                x = ev(q, val, mp)
            except Undefined:
                continue
            except Bad:
                bad.append(deps[i])
                continue
            if APPROX[0]:
                tol = Fraction(1, 10**9) * (1 + scale(q, val, mp))
                ok = x >= -tol if k == "ge" else x > -tol if k == "gt" else abs(x) <= tol if k == "eq" else True
                if not ok:
                    bad.append(deps[i])
                continue
            ok = x >= 0 if k == "ge" else x > 0 if k == "gt" else x == 0 if k == "eq" else x != 0
            if not ok:
                bad.append(deps[i])
        for k, v in bl:
            try:
                if ev_bool(k, val, mp) is not v:
                    s = set()
                    _close(k[1], s, mp)
                    bad.append(s)
            except Bad:
                bad.append(set(free))
        # integrality of substituted integer symbols
        for a, t in mp.items():
            at = _atoms[a]
            if evaluable(at) or at in NONINT:
                continue
            try:
                if ev(t, val, mp).denominator != 1 and at[0] not in ("inv", "delta", "w"):
                    s = set()
                    _close(t, s, mp)
                    bad.append(s)
            except Bad:
                bad.append(set(free))
        for alt, sp in zip(alts, asp):
            fail = False
            try:
                for p, m in alt:
                    APPROX[0] = False
                    x = ev(p, val, mp)
                    if APPROX[0]:
                        tol = Fraction(1, 10**6) * (1 + scale(p, val, mp))
                        if m == "ne":
                            continue
                        if abs(x) > tol if m == "eq" else x < -tol:
                            fail = True
                            break
                        continue
                    if x == 0 if m == "ne" else x != 0 if m == "eq" else (x <= 0 if m == "gt" else x < 0):
                        fail = True
                        break
            except Bad:
                fail = False
            if not fail:
                bad.append(sp)
        return bad

    which = {id(d): c for d, c in zip(deps, cons)}
    for alt, sp in zip(alts, asp):
        which[id(sp)] = None if len(alt) != 1 or alt[0][1] == "eq" else ("eq" if alt[0][1] == "ne" else "lt", alt[0][0])

    def solve(val, a, c):
        """the value of one symbol at which a violated constraint, linear in it, just holds"""
        k, q = c
        try:
            y0 = ev(q, val, mp)
            up = dict(val)
            up[a] = val[a] + 1
            d = ev(q, up, mp) - y0
        except Bad:
            return None
        if d == 0 or k == "ne":
            return None
        if k == "lt":
            y0, d = -y0, -d
        x = val[a] - y0 / d
        step = 1 if d > 0 else -1
        if _atoms[a] in NONINT:
            return x + (step * Fraction(rnd.choice((0, 1, 2, 3)), rnd.choice((1, 2, 7, 100))) if k != "eq" else 0)
        if k == "eq":
            return x if x.denominator == 1 else None
        x = Fraction(math.ceil(x) if step > 0 else math.floor(x))
        if abs(x) > 1 << 5000:
            return None
        return x + step * rnd.choice((0, 0, 1, 1, 2, 3, 7))

    def start():
        val = {}
        for a in free:
            if a not in val:
                draw(val, a)
        return val

    val = start()
    best = score(val)
    stale = 0
    end = time.time() + WALL
    for n in range(tries):
        if time.time() > end:
            break
        if not best:
            return {a: v for a, v in val.items()}
        if stale > 150:
            val = start()
            best = score(val)
            stale = 0
            continue
        worst = rnd.choice(best)
        s = [a for a in worst if a in val]
        if not s:
            s = free
            if not s:
                return None
        new = dict(val)
        c = which.get(id(worst))
        if c is not None and rnd.random() < 0.4:
            a = rnd.choice(sorted(s))
            x = None if a in exps or a in member else solve(val, a, c)
            if x is not None:
                new[a] = x
                b = score(new)
                if len(b) <= len(best):
                    stale = 0 if len(b) < len(best) else stale + 1
                    val, best = new, b
                else:
                    stale += 1
                continue
        for a in rnd.sample(sorted(s), min(len(s), 1 if rnd.random() < 0.7 else 2)):
            if a not in exps and a not in member and rnd.random() < 0.3:
                new[a] = new[a] + rnd.choice((-1, 1, -2, 2))
            else:
                draw(new, a)
        b = score(new)
        if len(b) <= len(best):
            stale = 0 if len(b) < len(best) else stale + 1
            val, best = new, b
        else:
            stale += 1
    return None if best else dict(val)


def _close(q, out, mp, seen=None):
    base = set()
    _collect(q, base, set())
    seen = seen if seen is not None else set()
    for a in base:
        if a in mp:
            if a not in seen:
                seen.add(a)
                _close(mp[a], out, mp, seen)
        else:
            out.add(a)


def text(val):
    from term import show_atom
    return ", ".join("%s = %s" % (show_atom(_atoms[a]), v) for a, v in sorted(val.items())[:12])
