"""The cached constants: natural_log_of_2 and sqrt_2 of dyadic intervals.

The precision is a symbol over a range; the range is split until the cache slot computed from it (in floating
point, as the code does) is one number.  The shared list behind the lock is a typestate: at each acquisition the
list is any list another thread may have left there.  Two descriptions of "any list" are used.

 * reachable: the lists the code itself publishes when it starts from an empty cache.  What goes wrong with one of
   these can happen, and is reported.
 * general: any number of entries, entry i of the precision the code publishes for entry i, enclosing the constant,
   no wider than the published entries may be.  What the code publishes from such a list has to be such a list
   again, so the description holds after every history and interleaving (rely/guarantee); what the code returns
   from such a list has to be right.

Both end in terms over the precision and the bounds of cache entries; those have finitely many values, and the
obligations are decided at each of them."""
import itertools
import math
import signal
import time
import common
from fractions import Fraction
from algebraic import *
import witness
from absint import Split, Budget, Agg, Ref, Lst, Num
from term import C, Poly, _atoms

DIT = "interval_arithmetic::DyadicFractionInterval"
BITS = 9000


def ln2_bounds():
    """sum of 1/(i 2^i) to BITS bits, with the rest of the series below 2^-BITS"""
    n = BITS + 64
    lo = sum(((1 << n) // i) >> i for i in range(1, n))
    return Fraction(lo, 1 << n), Fraction(lo + n + 2, 1 << n)


def sqrt2_bounds():
    r = math.isqrt(2 << 2 * BITS)
    return Fraction(r, 1 << BITS), Fraction(r + 1, 1 << BITS)


CONSTS = {"natural_log_of_2": ("ln 2", ln2_bounds), "sqrt_2": ("the square root of 2", sqrt2_bounds)}
WIDTH = 2
LOCKS = ("std::sync::RwLock::<T>::read", "std::sync::RwLock::<T>::write", "std::sync::Mutex::<T>::lock")


def atom(p):
    return list(p.d)[0][0][0][0]


class Cache:
    """what the rule knows about the shared list while one function is analysed"""

    def __init__(self, c, lists=None, prec=None, cap=0, near=()):
        self.c, self.lists, self.prec, self.cap, self.near = c, lists, prec, cap, near
        self.memo, self.fl = {}, {}
        self.dom = {}                 # atom -> (slot, 0 for lower / 1 for upper)

    def floor(self, k):
        if k not in self.fl:
            a, b = (math.floor(x * (1 << k)) for x in self.c)
            if a != b:
                raise Budget("precision of the reference value")
            self.fl[k] = a
        return self.fl[k]

    def pairs(self, k):
        f = self.floor(k)
        return [(lo, hi) for lo in range(f - WIDTH + 1, f + 1) for hi in range(f + 1, lo + WIDTH + 1)]

    def choices(self, I, st, least):
        """the lists that may be behind the lock now"""
        if self.lists is not None:
            for n in sorted(self.lists):
                for l in sorted(self.lists[n]) if n >= least else ():
                    yield [self.entry(C(lo), C(hi), k) for lo, hi, k in l]
            return
        # first acquisition: every length up to one past the slot in question, and the longest list; a later one: the
        # lengths at which a comparison with the new list or with the slot can change
        first = not st.cells.get(("g", "locks"))
        top = max(self.near) if self.near else self.cap
        for n in range(least, self.cap + 1):
            if not (n == self.cap or n == least or (n <= top if first else n in self.near)):
                continue
            out = []
            u = I.uid()
            for i in range(n):
                lo, hi = (Poly.atom(("sym", "%s%d_%d" % (w, i, u))) for w in ("lo", "hi"))
                self.dom[atom(lo)], self.dom[atom(hi)] = (i, u, 0), (i, u, 1)
                f = self.floor(self.prec[i])
                for w in (lo, hi):
                    I.ranges[atom(w)] = (f - 2, f + 3)
                out.append((lo, hi, i))
            yield [self.entry(lo, hi, self.prec[i]) for lo, hi, i in out]

    def entry(self, lo, hi, k):
        return Agg(self.t, 0, (Num(lo, BIGINT), Num(hi, BIGINT), Num(C(k), USIZE)))


BOX = ("std::sync::Arc", "std::boxed::Box", "std::rc::Rc")


def unbox(P, t):
    t = P.norm(t)
    while t[0] == "adt" and t[1] in BOX:
        t = P.norm(t[2][0])
    return t


def c_lock(cache):
    def h(I, st, fn, args, dt):
        t = unbox(I.P, fn["a"][0])
        u = unbox(I.P, t[2][0]) if t[0] == "adt" and t[1] == "std::vec::Vec" else t
        if t == u or u[0] != "adt" or u[1].split("~")[0] != DIT:
            raise Budget("what the lock holds: %s" % str(t)[:80])
        cache.t = u
        log = st.cells.get(("g", "locks"), ())
        least = 0
        for cell, _ in log:
            v = st.cells.get(cell)
            if not isinstance(v, Lst):
                raise Budget("what was published is not tracked")
            least = max(least, len(v.items))
        out = []
        for es in cache.choices(I, st, least):
            s = st.fork()
            cell = ("lock", I.uid())
            v = Lst(t, tuple(es))
            s.cells[cell] = v
            s.cells[("g", "locks")] = log + ((cell, v),)
            out.append((s, "ret", Agg(I.P.norm(dt), 0, (Ref(cell, ()),))))
        return out
    return h


class Sequential(Cache):
    """one thread: the list is the one left by the requests before"""

    def __init__(self, c, l):
        super().__init__(c, lists={len(l): {l}})
        self.l = l

    def choices(self, I, st, least):
        log = st.cells.get(("g", "locks"), ())
        if log:
            yield list(st.cells[log[-1][0]].items)
        else:
            yield [self.entry(C(lo), C(hi), k) for lo, hi, k in self.l]


def histories(ctx, name, key, c, rs, end):
    """requests one after another, on the small precisions, until a result is wrong"""
    rs = [(a, b) for a, b, _ in rs if b <= 256]
    level, seen = [()], {()}
    for step in range(3):
        nxt = []
        for l in level:
            for a, b in rs:
                if time.time() > end:
                    return
                got = {}
                q = Quiet(ctx, key, "after other requests", False)
                try:
                    for k in sorted({a, b}):
                        one(ctx, q, key, Sequential(c, l), k, k, got)
                except (Split, Budget):
                    continue
                if ctx.violations:
                    return
                for x in itertools.chain(*got.values()):
                    if x not in seen:
                        seen.add(x)
                        nxt.append(x)
        level = nxt


def interp(P, cache, a, b):
    I = Interp(P, contracts={n: c_lock(cache) for n in LOCKS}, max_paths=20000)
    I.max_unroll, I.max_blocks, I.max_traces = 20000, 10 ** 7, 64
    st = State()
    k = Poly.atom(("sym", "k")) if a < b else C(a)
    if a < b:
        I.ranges[atom(k)] = (a, b)
        I.add_fact(st, "ge", k - C(a))
        I.add_fact(st, "ge", C(b) - k)
        cache.k = atom(k)
    else:
        cache.k = None
    return I, st, k


def points(cache, s, exprs, a, b):
    """every valuation of the symbols in exprs and in the facts of the path; None when that is not finite"""
    f = s.facts
    key = (tuple(exprs), f.ge, f.gt, f.eq, f.ne, bool(f.bools))
    if key not in cache.memo:
        cache.memo[key] = points1(cache, f, exprs, a, b)
    return cache.memo[key]


def points1(cache, f, exprs, a, b):
    mp = f.eqsub()
    cons = [("ge", q) for q in f.ge] + [("gt", q) for q in f.gt] + [("eq", q) for q in f.eq] + [("ne", q) for q in f.ne]
    if f.bools:
        return None
    free = set()
    for q in list(exprs) + [q for _, q in cons]:
        witness._close(q, free, mp)
    slots = set()
    for x in free | set(mp):
        if x in cache.dom:
            slots.add(cache.dom[x][:2])
        elif x != cache.k:
            return None
    slots = sorted(slots)
    dom = [(x, d[:2], d[2]) for x, d in cache.dom.items() if d[:2] in slots]
    n = b - a + 1
    for i, _ in slots:
        n *= len(cache.pairs(cache.prec[i]))
    if n > 60000:
        return None
    out = []
    for k in range(a, b + 1):
        for ps in itertools.product(*(cache.pairs(cache.prec[i]) for i, _ in slots)):
            at = dict(zip(slots, ps))
            val = {x: Fraction(at[d][w]) for x, d, w in dom}
            if cache.k is not None:
                val[cache.k] = Fraction(k)
            try:
                if all(witness.ev(mp[x], val, mp) == val[x] for x in mp) and all({"ge": v >= 0, "gt": v > 0, "eq": v == 0, "ne": v != 0}[m]
                       for m, v in ((m, witness.ev(q, val, mp)) for m, q in cons)):
                    out.append((k, val, [witness.ev(e, val, mp) for e in exprs]))
            except (witness.Bad, KeyError):
                return None
    return out


def nums(I, s, v):
    v = I.deref(s, v)
    if not isinstance(v, Agg) or len(v.f) != 3:
        return None
    fs = [I.deref(s, x) for x in v.f]
    return [x.p for x in fs] if all(isinstance(x, Num) for x in fs) else None


def published(I, s):
    """[(list at the acquisition, list at the end)] of the acquisitions that changed the list"""
    out = []
    for cell, old in s.cells.get(("g", "locks"), ()):
        new = s.cells.get(cell)
        if new is None or new == old:
            continue
        new = I.deref(s, new)
        out.append((old, new if isinstance(new, Lst) else None))
    return out


def published_values(cache, s, es, a, b):
    cs = [e.as_const() for e in es]
    if all(c is not None for c in cs):
        return [(a, None, cs)]
    return points(cache, s, es, a, b)


class Quiet:
    """collects the verdicts of a pass"""

    def __init__(self, ctx, key, name, weak):
        self.ctx, self.key, self.name, self.weak = ctx, key, name, weak
        self.bad = 0

    def ob(self, ok, what, detail=""):
        if ok is not True:
            self.bad += 1
        if self.weak and ok is False:
            ok = None
        if self.weak and ok is None:
            self.ctx.obligations += 1
            self.missed = getattr(self, "missed", []) + [what + ": " + detail]
            return
        self.ctx.ob(ok, self.key, what + " (%s)" % self.name, detail)


def one(ctx, q, key, cache, a, b, lists=None):
    """analyse one precision range under one description of the shared list"""
    P = ctx.P
    I, st, k = interp(P, cache, a, b)
    for s, kind, v in I.run(st, key, [Num(k, USIZE)]):
        if kind == "panic":
            pts = points(cache, s, [], a, b)
            q.ob(None if pts is None else not pts, "does not panic", "precision %s: %s" % (pts and pts[0][0], str(v[0])[:80]))
            continue
        r = nums(I, s, v)
        pts = r and points(cache, s, r, a, b)
        if pts is None:
            q.ob(None, "the result is tracked", str(v)[:200])
            continue
        bad = {}
        for kk, val, (lo, hi, d) in pts:
            f = cache.floor(kk)
            for ok, what in ((d == kk, "the result has the requested precision"),
                             (lo <= f and hi >= f + 1, "the result encloses the constant"),
                             (hi - lo <= WIDTH, "the result is at most two units wide")):
                if not ok and what not in bad:
                    bad[what] = "precision %d, list of %s entries: [%s, %s] / 2^%s" % (
                        kk, "/".join(str(len(o.items)) for _, o in s.cells.get(("g", "locks"), ())), lo, hi, d)
        for what in ("the result has the requested precision", "the result encloses the constant", "the result is at most two units wide"):
            q.ob(what not in bad, what, bad.get(what, ""))
        ctx.extra["points_decided"] = ctx.extra.get("points_decided", 0) + len(pts)
        for old, new in published(I, s):
            if new is None:
                q.ob(None, "what is published is tracked")
                continue
            q.ob(len(new.items) >= len(old.items) or (None if not pts else False), "a published entry is never dropped",
                 "precision %d: a list of %d entries is replaced by one of %d" % (pts[0][0] if pts else a, len(old.items), len(new.items)))
            for i, e in enumerate(new.items):
                if i < len(old.items) and old.items[i] == e:
                    continue
                if cache.lists is not None:
                    continue
                es = nums(I, s, e)
                ep = es and published_values(cache, s, es, a, b)
                if ep is None or i >= len(cache.prec):
                    q.ob(None, "what is published is tracked", str(e)[:200])
                    continue
                q.ob(all(d == cache.prec[i] and (lo, hi) in cache.pairs(cache.prec[i]) for _, _, (lo, hi, d) in ep),
                     "what is published is what the cache may hold", "entry %d of %d" % (i, len(new.items)))
            if lists is not None:
                for kk in sorted({a, b}):
                    l = []
                    for e in new.items:
                        es = nums(I, s, e)
                        ep = es and points(cache, s, es, a, b)
                        ep = ep and [x for kx, _, x in ep if kx == kk]
                        if not ep:
                            break
                        l.append(tuple(int(x) for x in ep[0]))
                    if len(l) == len(new.items):
                        lists.setdefault(len(l), set()).add(tuple(l))
    ctx.functions.add(key)
    ctx.visited |= I.called


def bound(ctx):
    return 2600 if ctx.tier == "thorough" else 700


class Reached(Exception):
    """the analysis got to the first acquisition of the lock"""


class Probe(Cache):
    def choices(self, I, st, least):
        raise Reached()


def whole(ctx, key, c, a, b):
    """is the slot one number on this range, as far as the code decides it before it takes the lock?"""
    I, st, k = interp(ctx.P, Probe(c), a, b)
    try:
        I.run(st, key, [Num(k, USIZE)])
    except Split:
        return False
    except Reached:
        pass
    return True


def cover(ctx, key, c, lo, hi):
    out = []
    while lo <= hi:
        a, b = lo, hi
        while a < b:
            m = (a + b + 1) // 2
            if whole(ctx, key, c, lo, m):
                a = m
            else:
                b = m - 1
        out.append((lo, a))
        lo = a + 1
    return out


def ranges(ctx, key, c, lo, hi):
    """split the precisions until the code's choice of a slot is one number on each range"""
    out, lists, slow = [], {}, 0
    todo = cover(ctx, key, c, lo, hi)
    while todo:
        a, b = todo.pop()
        cache = Cache(c, lists={0: {()}})
        q = Quiet(ctx, key, "starting from an empty cache", False)
        signal.signal(signal.SIGALRM, common._alarm)
        signal.alarm(40)
        try:
            got = {}
            one(ctx, q, key, cache, a, b, got)
        except common.Timeout:
            slow += 1
            ctx.undec(key, "precisions %d to %d: time limit" % (a, b))
            if slow > 2:
                break
            continue
        except Split:
            m = (a + b) // 2
            todo += [(m + 1, b), (a, m)]
            continue
        except Budget as e:
            if a < b and b - a > 64:
                m = (a + b) // 2
                todo += [(m + 1, b), (a, m)]
                continue
            ctx.undec(key, "precisions %d to %d: %s" % (a, b, str(e)[:200]))
            continue
        finally:
            signal.alarm(0)
        out.append((a, b, max(got, default=0)))
        for n, l in got.items():
            lists.setdefault(n, set()).update(l)
    return out, lists


def items(ctx):
    out = []
    for name in CONSTS:
        key = DIT + "::" + name
        if key not in ctx.P.fns:
            ctx.undec(key, "not found")
            continue
        out.append((name, key))
    return out


def work(ctx, item):
    name, key, c, lists, prec, a, b, cap, n = item
    if prec is None:
        weak = None
    else:
        cache = Cache(c, prec=prec, cap=cap, near={max(0, n - 1), n, min(n + 1, cap)})
        weak = Quiet(ctx, key, "from any cache", True)
        try:
            one(ctx, weak, key, cache, a, b)
        except Split:
            weak.bad += 1
        except Budget as e:
            weak.bad += 1
            weak.missed = getattr(weak, "missed", []) + [str(e)[:200]]
    if weak is not None and not weak.bad:
        return
    nv = len(ctx.violations)
    cache = Cache(c, lists=lists)
    q = Quiet(ctx, key, "after other requests", False)
    try:
        one(ctx, q, key, cache, a, b)
    except (Split, Budget) as e:
        ctx.undec(key, "precisions %d to %d: %s" % (a, b, str(e)[:200]))
    if len(ctx.violations) == nv:
        ctx.undec(key, "precisions %d to %d: %s" % (a, b, "; ".join(getattr(weak, "missed", ["the published precisions vary"]))[:300]))


def C04(ctx):
    ctx.rules.append("interval analysis of the slot computation over precision ranges, constant propagation through the series, and a "
                     "rely/guarantee typestate for the list behind the lock")
    todo = []
    for name, key in items(ctx):
        c = CONSTS[name][1]()
        rs, lists = ranges(ctx, key, c, 0, bound(ctx))
        ctx.extra[name + "_ranges"] = len(rs)
        lists[0] = {()}
        prec, cap = {}, max(lists)
        same = True
        for n, ls in lists.items():
            for l in ls:
                for i, (lo, hi, d) in enumerate(l):
                    same &= prec.setdefault(i, d) == d
        for a, b, n in rs:
            todo.append((name, key, c, lists, prec if same else None, a, b, cap, n))
    todo.sort(key=lambda t: -t[6])
    ctx.parallel(todo, work, 400)
    if ctx.undecided and not ctx.violations:
        end = time.time() + 150
        for name, key in items(ctx):
            t = [x for x in todo if x[0] == name]
            if t:
                histories(ctx, name, key, t[0][2], sorted((x[5], x[6], x[8]) for x in t), end)


if __name__ == "__main__":
    ctx = Ctx("C04", tier=sys.argv[1] if len(sys.argv) > 1 else "quick")
    C04(ctx)
    for v in ctx.violations:
        print("V", v)
    for v in ctx.undecided[:10]:
        print("U", v)
    print(ctx.obligations, ctx.discharged, ctx.extra, time.time() - ctx.t0)
