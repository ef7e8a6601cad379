#!/usr/bin/env python3
"""random cross-check of the entailment procedure: a proved goal must hold at every sampled point of its facts"""
import os
import random
import sys
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rules"))
import term
import witness
from term import Poly, C, pow2, floor

rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
V = [Poly.atom(("sym", n)) for n in "abc"]
K = Poly.atom(("sym", "k"))


def rpoly():
    p = C(rnd.randint(-3, 3))
    for _ in range(rnd.randint(1, 3)):
        m = C(rnd.choice([-3, -2, -1, 1, 2, 3]))
        for _ in range(rnd.randint(0, 2)):
            m = m * rnd.choice(V)
        if rnd.random() < .3:
            m = m * pow2(K.scale(rnd.choice([-1, 1])))
        p = p + m
    if rnd.random() < .2:
        p = p + floor(rnd.choice(V) * pow2(-K))
    return p


def main():
    n = bad = proved = 0
    pts = []
    for _ in range(1500):
        pts.append([Fraction(rnd.randint(-6, 6)) for _ in V] + [Fraction(rnd.randint(0, 4))])
    ids = [next(iter(v.d))[0][0][0] for v in V + [K]]
    for _ in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1500):
        f = term.Facts()
        f = f.add("ge", K)
        for _ in range(rnd.randint(1, 4)):
            k = rnd.choice(["ge", "ge", "gt", "eq", "ne"])
            p = rpoly()
            if p.as_const() is None:
                f = f.add(k, p)
        goals = [rpoly() for _ in range(3)]
        q = [x for x in f.ge + f.gt]
        if q:
            goals.append(rnd.choice(q) + C(rnd.choice([0, 0, 1])))
            goals.append(rnd.choice(q) + rnd.choice(q))
            goals.append(rnd.choice(q) * rnd.choice(q))
        for g in goals:
            strict = rnd.random() < .5
            n += 1
            if not term.prove(f, g, strict, rnd.random() < .3):
                continue
            proved += 1
            for pt in pts:
                val = dict(zip(ids, pt))
                try:
                    ok = all(witness.ev(x, val, {}) >= 0 for x in f.ge) and all(witness.ev(x, val, {}) > 0 for x in f.gt) and \
                        all(witness.ev(x, val, {}) == 0 for x in f.eq) and all(witness.ev(x, val, {}) != 0 for x in f.ne)
                    if not ok:
                        continue
                    v = witness.ev(g, val, {})
                except witness.Bad:
                    continue
                if v < 0 or (strict and v == 0):
                    bad += 1
                    print("WRONG", f.ge, f.gt, f.eq, f.ne, "|-", g, "strict" if strict else "", [str(x) for x in pt])
                    break
    print(n, "goals", proved, "proved", bad, "wrong")
    return bad


sys.exit(1 if main() else 0)
