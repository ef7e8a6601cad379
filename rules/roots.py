"""The root machinery below the number type: Sturm sign counting, one refinement step of an isolating
interval, and root selection.  Each body is analysed against the contract the rest of the analysis
assumes of it."""
import itertools

from algebraic import *
import algebraic

SCA = "algebraic_numbers::sign_changes_at"
SHRINK = "algebraic_numbers::IntervalShrinker::<'a>::shrink"
SELECT = "algebraic_numbers::RootSelector::select_root"


# ------------------------------------------------------------------ sign changes
def check_sign_changes(ctx, key):
    offs = {}
    for where in ("Value", "Zero", "NegativeInfinity", "PositiveInfinity"):
        for n in (1, 2, 3, 4) if where in ("Value", "Zero") else (1, 2, 3):
            sign_changes_case(ctx, key, n, where, offs)
    # counts are only ever compared with each other
    seen = []
    for o in sorted(offs) if len(offs) > 1 else ():
        for sg, s in offs[o]:
            if refuted(s, []) is False:
                seen.append(sg)
                break
    ctx.ob(True if len(offs) <= 1 else False if len(seen) > 1 else None, key, "counts every sign change once",
           "sign patterns %s differ by more than the number of their sign changes" % sorted(seen))


def sign_changes_case(ctx, key, n, where, offs):
    P = ctx.P

    def c_ev(I, st, fn, args, dt):
        v = I.deref(st, args[0])
        if not (isinstance(v, Opq) and v.term[0] == "seq"):
            return None
        at = I.deref(st, args[1]) if len(args) > 1 else None
        if not isinstance(at, Num) or at.p != AT:
            return None
        return ret(st, Num(val(v.term[1]), ("adt", "num_rational::Ratio", (BIGINT,))))

    def c_coef(I, st, fn, args, dt):
        v = I.deref(st, args[0])
        if not (isinstance(v, Opq) and v.term[0] == "seq"):
            return None
        if "highest" in fn["nm"]:
            return ret(st, Num(lead(v.term[1]), BIGINT))
        k = mnum(I, st, args[1])
        if k is None or k.p.as_const() != 0:
            return None
        return ret(st, Num(cons(v.term[1]), BIGINT))

    def c_deg(I, st, fn, args, dt):
        v = I.deref(st, args[0])
        if not (isinstance(v, Opq) and v.term[0] == "seq"):
            return None
        s = st.fork()
        d = Poly.atom(("dg", v.term[1]))
        I.add_fact(s, "ge", d)
        return ret(s, some(Num(d, USIZE), USIZE) if fn["nm"] == "degree" else Num(d + C(1), USIZE))

    def val(i):
        a = ("val", i)
        NONINT.add(a)
        return Poly.atom(a)

    def lead(i):
        return Poly.atom(("lead", i))

    def cons(i):
        return Poly.atom(("cons", i))

    AT = real("at")
    ct = {PM + "eval_generic": c_ev, PM + "coefficient": c_coef, PM + "highest_power_coefficient": c_coef,
          PM + "degree": c_deg, PM + "eval": c_ev, PM + "len": c_deg}
    I = AI(P, ct)
    st = State()
    seq = Lst(("slice", I.poly_t), tuple(Opq(("seq", i), I.poly_t) for i in range(n)))
    st.cells[("d", "seq")] = seq
    at_t = P.norm(P.ty(P.fns[key]["in"][1]))
    vs = P.variants(at_t)
    names = [P.variant_name(at_t, i) for i in range(len(vs))]
    if where not in names:
        return
    vi = names.index(where)
    fields = ()
    if vs[vi]:
        st.cells[("d", "at")] = Num(AT, ("adt", "num_rational::Ratio", (BIGINT,)))
        fields = (Ref(("d", "at"), ()),)
    out_t = P.norm(P.ty(P.fns[key]["out"]))
    fs = [x for x in P.variants(out_t)[0]]
    term_of = {"Value": val, "Zero": cons, "PositiveInfinity": lead, "NegativeInfinity": lead}[where]
    for s, kind, v in run(ctx, I, st, key, [Ref(("d", "seq"), ()), Agg(at_t, vi, fields)]):
        if kind == "panic":
            ctx.ob(refuted(s, []), key, "counts signs without panicking", lazy(s, "panics: %s" % str(v[0])[:80]))
            continue
        # all sign patterns compatible with the trace
        todo = [(s, ())]
        for i in range(n):
            nxt = []
            for s1, sg in todo:
                for s2, x in sign_cases(I, s1, term_of(i)):
                    if where == "NegativeInfinity" and x:
                        for s3, odd in I.branch(s2, ("b", ("odd", Poly.atom(("dg", i))))):
                            nxt.append((s3, sg + (-x if odd else x,)))
                    else:
                        nxt.append((s2, sg + (x,)))
            todo = nxt
        for s2, sg in todo:
            if not feasible(s2):
                continue
            nz = [x for x in sg if x]
            if not nz:
                continue
            changes = sum(1 for a, b in zip(nz, nz[1:]) if a != b)
            cnt, root = read_sc(I, s2, v)
            c = s2.facts.norm(cnt.p).as_const() if isinstance(cnt, Num) else None
            if c is None or not isinstance(root, Bool):
                ctx.undec(key, "count not tracked")
                continue
            o = offs.setdefault(int(c) - changes, [])
            if len(o) < 40:
                o.append((sg, s2))
            ctx.ob(True, key, "counts the sign changes")
            if n > 1 or where == "Value":
                # a point where both leading members vanish is not a point of a Sturm sequence
                if len(sg) > 1 and sg[0] == 0 and sg[1] == 0:
                    continue
                if where != "Value" and where != "Zero":
                    continue
                for s3, r in I.branch(s2, root.c):
                    ctx.ob(r == (sg[0] == 0) or refuted(s3, []), key, "reports a root exactly where the first member vanishes",
                           lazy(s3, "signs %s" % (sg,)))


def read_sc(I, st, v):
    v = I.deref(st, v)
    cnt = root = None
    if isinstance(v, Agg):
        for x in v.f:
            if isinstance(x, Num):
                cnt = x
            elif isinstance(x, Bool):
                root = x
    return cnt, root


# ------------------------------------------------------------------ one refinement step
def check_shrink(ctx, item):
    key, irr, lo_cached, hi_cached = item
    P = ctx.P
    ct = dict(CT)
    ct.pop(SHRINK)
    I = AI(P, ct)
    st = State()
    p = real("x")
    ran = mk_ran(I, st, p)
    poly, iv = ran.f[0].f
    st.facts = st.facts.add_bool(("irr", p), irr)
    if not irr:
        ratio_parts(I, st, p)
    st.cells[("d", "poly")] = poly
    st.cells[("d", "iv")] = iv
    t = peel(P.norm(P.ty(P.fns[key]["in"][0])))
    r0 = Iv(st, iv)
    sc = P.norm(P.ty(P.fns[SCA]["out"]))
    states = [(st, [])]
    for at, want in ((r0.L, lo_cached), (r0.U, hi_cached)):
        nxt = []
        for s, cs in states:
            if not want:
                nxt.append((s, cs + [none(sc)]))
                continue
            s = s.fork()
            at_v = value_at(P, I, s, at)
            for s2, kind, v in c_sign_changes(I, s, {"nm": "sign_changes_at"},
                                              [Opq(("sturm", p), ("slice", I.poly_t)), at_v], sc):
                nxt.append((s2, cs + [some(v, sc)]))
        states = nxt
    for s0, caches in states:
        if not feasible(s0):
            continue
        s0 = s0.fork()
        sh = build_shrinker(P, I, s0, t, Ref(("d", "poly"), ()), Opq(("sturm", p), ("slice", I.poly_t)),
                            Ref(("d", "iv"), ()), caches)
        if sh is None:
            ctx.undec(key, "shrinker layout")
            return
        s0.cells[("d", "sh")] = sh
        for s, kind, v in run(ctx, I, s0, key, [Ref(("d", "sh"), ())]):
            if kind == "panic":
                ctx.ob(refuted(s, []), key, "a refinement step succeeds on an isolating interval",
                       lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
                continue
            new = I.load(s, Ref(("d", "iv"), ()))
            if not (isinstance(new, Agg) and is_di(new.t)):
                ctx.undec(key, "interval not tracked")
                continue
            r = Iv(s, new)
            q = s.facts.norm(p)
            ctx.ob(verdict(s, q - r.L), key, "the refined interval still contains the root", lazy(s, "lower %s", r.L))
            ctx.ob(verdict(s, r.U - q), key, "the refined interval still contains the root", lazy(s, "upper %s", r.U))
            o = Iv(s, iv)
            ctx.ob(verdict(s, r.L - o.L), key, "a refinement step never widens", lazy(s))
            ctx.ob(verdict(s, o.U - r.U), key, "a refinement step never widens", lazy(s))
            # either exact or at most 7/8 of the width is left
            ctx.ob(any_of(s, [[(r.hi - r.lo, "eq")], [((o.U - o.L).scale(7) - (r.U - r.L).scale(8), "ge")]]), key,
                   "a refinement step makes progress", lazy(s))
            if isinstance(v, Agg) or isinstance(v, Opq):
                names = P.variant_name
                for s2, vi, _ in I.split(s, v):
                    if names(I.vtype(v), vi) == "Exact":
                        x = Iv(s2, new)
                        ctx.ob(any_of(s2, [[(x.hi - x.lo, "eq")]]), key, "an exact result is a point", lazy(s2))
            sh2 = I.load(s, Ref(("d", "sh"), ()))
            caches2 = find_caches(P, I, s, sh2, sc)
            for c, at in zip(caches2, (r.L, r.U)):
                check_cache(ctx, key, I, s, c, p, at, sc)


def value_at(P, I, st, at):
    t = P.norm(P.ty(P.fns[SCA]["in"][1]))
    vs = P.variants(t)
    i = [P.variant_name(t, j) for j in range(len(vs))].index("Value")
    c = ("d", "at", I.uid())
    st.cells[c] = Num(st.facts.norm(at), ("adt", "num_rational::Ratio", (BIGINT,)))
    return Agg(t, i, (Ref(c, ()),))


def build_shrinker(P, I, st, t, poly, seq, iv, caches):
    """an aggregate of the shrinker type, fields filled by type"""
    caches = list(caches)

    def mk(t):
        t = P.norm(t)
        if t[0] == "ref":
            b = peel(t)
            if is_di(b):
                return iv
            if b[0] == "adt" and b[1] == POLY:
                return poly
            return None
        if t[0] == "adt" and t[1].endswith("Option"):
            return caches.pop(0) if caches else None
        if t[0] == "adt" and t[1].endswith("borrow::Cow"):
            st.cells[("d", "seq")] = seq
            return Agg(t, 0, (Ref(("d", "seq"), ()),))
        vs = P.variants(t)
        if vs is None or len(vs) != 1:
            return None
        fs = [mk(x) for x in vs[0]]
        if any(f is None for f in fs):
            return None
        return Agg(t, 0, tuple(fs))
    return mk(t)


def find_caches(P, I, st, v, sc):
    out = []

    def go(v):
        if isinstance(v, Agg):
            if v.t[0] == "adt" and v.t[1].endswith("Option"):
                out.append(v)
                return
            for x in v.f:
                go(x)
        elif isinstance(v, Opq) and v.t[0] == "adt" and v.t[1].endswith("Option"):
            out.append(v)
    go(v)
    return out


def check_cache(ctx, key, I, s, c, p, at, sc):
    """a remembered sign count is the sign count at the current bound"""
    for s2, vi, f in I.split(s, c):
        if vi != 1:
            continue
        cnt, root = read_sc(I, s2, f[0])
        if not isinstance(cnt, Num) or not isinstance(root, Bool):
            ctx.undec(key, "remembered sign count not tracked")
            continue
        s2 = s2.fork()
        at_v = value_at(ctx.P, I, s2, at)
        for s3, kind, v in c_sign_changes(I, s2, {"nm": "sign_changes_at"}, [Opq(("sturm", p), ("slice", I.poly_t)), at_v], sc):
            if not feasible(s3):
                continue
            c2, r2 = read_sc(I, s3, v)
            if not isinstance(c2, Num) or not isinstance(r2, Bool):
                ctx.undec(key, "sign count not tracked")
                continue
            ctx.ob(any_of(s3, [[(cnt.p - c2.p, "eq")]]), key, "a remembered sign count belongs to the current bound", lazy(s3))
            for s4, x in I.branch(s3, root.c):
                for s5, y in I.branch(s4, r2.c):
                    ctx.ob(x == y or refuted(s5, []), key, "a remembered root flag belongs to the current bound", lazy(s5))


# ------------------------------------------------------------------ root selection
def check_select(ctx, item):
    key, n, j = item
    P = ctx.P
    w = real("w")
    box = {}

    def c_factor(I, st, fn, args, dt):
        v = I.deref(st, args[0])
        if not (isinstance(v, Opq) and v.term == ("resultant",)):
            return None
        t = P.norm(dt)
        return ret(st, fill(t, I))

    def fill(t, I):
        t = P.norm(t)
        fs = []
        for ft in P.variants(t)[0]:
            ft = P.norm(ft)
            if ft[0] == "adt" and ft[1] == "std::vec::Vec":
                et = P.norm(ft[2][0])
                items = []
                for i in range(n):
                    es = []
                    for x in P.variants(et)[0]:
                        x = P.norm(x)
                        es.append(Opq(("fac", i), I.poly_t) if x[0] == "adt" and x[1] == POLY else Num(C(1), USIZE))
                    items.append(Agg(et, 0, tuple(es)))
                fs.append(Lst(ft, tuple(items)))
            else:
                fs.append(Num(Poly.atom(("content",)), BIGINT))
        return Agg(t, 0, tuple(fs))

    def c_seq(I, st, fn, args, dt):
        v = I.deref(st, args[0])
        if not (isinstance(v, Opq) and v.term[0] == "fac"):
            return None
        return ret(st, Lst(P.norm(dt), (v, Opq(("dfac", v.term[1]), I.poly_t))))

    def c_sc(I, st, fn, args, dt):
        seq = I.deref(st, args[0])
        if isinstance(seq, Lst) and seq.items and isinstance(seq.items[0], Opq) and seq.items[0].term[0] == "fac":
            i = seq.items[0].term[1]
        else:
            return None
        at = I.deref(st, args[1])
        if not isinstance(at, Agg) or not at.f:
            return None
        x = I.deref(st, at.f[0])
        if not isinstance(x, Num):
            return None
        s = st.fork()
        a = s.facts.norm(x.p)
        lo, hi = s.facts.norm(box["L"]), s.facts.norm(box["U"])
        cnt = root = None
        for nm, b in (("L", lo), ("U", hi)):
            if s.facts.is_zero(a - b):
                cnt = Poly.atom(("V" + nm, i))
                root = ("b", ("root" + nm, i))
        if cnt is None:
            return None
        return ret(s, Agg(P.norm(dt), 0, (Num(cnt, USIZE), Bool(root))))

    def c_get(I, st, fn, args, dt):
        s = st.fork()
        if "iv" in box:
            # the selector is not refined between two looks at it
            return ret(s, box["iv"])
        v = mk_iv(I, s, w)
        r = Iv(s, v)
        box.update(L=r.L, U=r.U, iv=v)
        # roots of factor i in [L, U]: VL - VU, plus one when L itself is a root
        for i in range(n):
            VL, VU = Poly.atom(("VL", i)), Poly.atom(("VU", i))
            I.add_fact(s, "ge", VU)
            I.add_fact(s, "ge", VL - VU)
        return ret(s, v)

    def c_cut(I, st, fn, args, dt):
        return [(st, "panic", ("cut", None))]

    def c_from(I, st, fn, args, dt):
        return None
    ct = {SCA: c_sc, PM + "factor": c_factor, PM + "into_primitive_sturm_sequence": c_seq, PM + "to_primitive_sturm_sequence": c_seq,
          "algebraic_numbers::RootSelector::get_interval": c_get, "algebraic_numbers::RootSelector::shrink_interval": c_cut}
    for k in P.fns:
        if k.startswith("polynomial::") and k.endswith("::factor") and "Polynomial<" in k:
            ct[k] = c_factor
        if k.startswith("polynomial::") and k.endswith("primitive_sturm_sequence"):
            ct[k] = c_seq
    specs = build_specs(P)
    for k, sp in specs.items():
        if "convert::From" in k:
            ct[k] = contract_of(sp)
    ct["std::convert::Into::into"] = None
    ct.pop("std::convert::Into::into")
    ct[PT + "std::clone::Clone>::clone"] = c_clone
    I = AI(P, ct)
    I.max_paths = 20000
    st = State()
    selt = ("param", "Self")
    sel = Opq(("selector",), selt)
    for s, kind, v in run(ctx, I, st, key, [sel, Opq(("resultant",), I.poly_t)]):
        for s, roots_ in root_cases(I, s, n, j, box):
            if not feasible(s):
                continue
            total = C(0)
            for i in range(n):
                total = total + roots_[i]
            if kind == "panic":
                if v[0] == "cut":
                    # going on is right unless exactly one root is left, where it only costs time
                    ctx.ob(True, key, "keeps refining while several roots remain")
                else:
                    ctx.ob(refuted(s, []), key, "selecting a root of the resultant succeeds",
                           lazy(s, "panics: %s" % str(v[0])[:80].replace("%", "")))
                continue
            v2 = I.deref(s, v)
            if not (isinstance(v2, Agg) and is_ran(v2.t)):
                ctx.undec(key, "result not tracked")
                continue
            ctx.ob(any_of(s, [[(C(1) - total, "ge")]]), key, "a root is returned only when it is the only one left in the interval",
                   lazy(s, "roots left %s", total))
            poly, iv = v2.f[0].f
            t = pterm(I.deref(s, poly))
            if t is None:
                ctx.undec(key, "polynomial not tracked")
                continue
            if t[0] == "fac":
                ctx.ob(t[1] == j or refuted(s, []), key, "the polynomial returned is the factor with the root in the interval", lazy(s))
                r = Iv(s, iv)
                q = s.facts.norm(w)
                ctx.ob(verdict(s, q - r.L), key, "the interval returned contains the root", lazy(s))
                ctx.ob(verdict(s, r.U - q), key, "the interval returned contains the root", lazy(s))
            else:
                x, _ = root_of(I, s, v2.f[0].f[0])
                if x is None:
                    ctx.undec(key, "polynomial not tracked")
                    continue
                x = s.facts.norm(x)
                alts = []
                for nm in ("L", "U"):
                    if any(s.facts.bools.get(("root" + nm, i)) for i in range(n)):
                        alts.append([(x - s.facts.norm(box[nm]), "eq")])
                ctx.ob(any_of(s, alts), key, "a rational result is an end of the interval that is a root", lazy(s, "value %s", x))
    return I


def root_cases(I, s, n, j, box):
    """number of roots of every factor in [L, U] (closed); the wanted factor has at least one"""
    out = [(s, [])]
    for i in range(n):
        nxt = []
        for s1, rs in out:
            for s2, rl in I.branch(s1, ("b", ("rootL", i))):
                cnt = Poly.atom(("VL", i)) - Poly.atom(("VU", i))
                if rl:
                    cnt = cnt + C(1)
                s2 = s2.fork()
                if i == j:
                    I.add_fact(s2, "ge", cnt - C(1))
                if rl:
                    # an irreducible polynomial with a rational root has no other root, and factors share none
                    I.add_fact(s2, "eq", cnt - C(1))
                    if any(s2.facts.bools.get(("rootL", m)) for m in range(i)):
                        continue
                for s3, ru in I.branch(s2, ("b", ("rootU", i))):
                    if ru:
                        s3 = s3.fork()
                        I.add_fact(s3, "eq", cnt - C(1))
                        if any(s3.facts.bools.get(("rootU", m)) for m in range(i)):
                            continue
                        if rl:
                            I.add_fact(s3, "eq", box["U"] - box["L"])
                    nxt.append((s3, rs + [cnt]))
        out = nxt
    return out


def items(ctx):
    P = ctx.P
    out = []
    if SCA in P.fns:
        out.append(("sc", SCA))
        if SHRINK in P.fns:
            for irr in (True, False):
                for a in (False, True):
                    for b in (False, True):
                        out.append(("shrink", (SHRINK, irr, a, b)))
        if SELECT in P.fns:
            for n in (1, 2, 3):
                for j in range(n):
                    out.append(("select", (SELECT, n, j)))
    return out


def work(ctx, item):
    kind, it = item
    {"sc": check_sign_changes, "shrink": check_shrink, "select": check_select}[kind](ctx, it)


if __name__ == "__main__":
    import time
    ctx = Ctx("C13")
    for it in items(ctx):
        if len(sys.argv) > 1 and it[0] != sys.argv[1]:
            continue
        t0 = time.time()
        nv, nu, no = len(ctx.violations), len(ctx.undecided), ctx.obligations
        work(ctx, it)
        print(it, ctx.obligations - no, "%.1f" % (time.time() - t0))
        for v in ctx.violations[nv:]:
            print("     V", v[0].split(" :: ")[-1], "|", v[1][:300])
        for u in ctx.undecided[nu:][:3]:
            print("     U", u[1][:300])
