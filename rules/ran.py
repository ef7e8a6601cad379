"""C10-C14: exactness of real algebraic numbers.  Every function is analysed against its specification with
its callees at theirs; the specification of every callee used that way is an obligation of the same check."""
from algebraic import *
import log2
import ranpow
import roots

N1 = "<" + RAN + " as "
BEHIND = {
    "num_traits::Zero::set_zero": [N1 + "num_traits::Zero>::zero"],
    "num_traits::One::set_one": [N1 + "num_traits::One>::one"],
    "std::cmp::PartialEq::ne": [N1 + "std::cmp::PartialEq>::eq"],
}
for n in ("lt", "le", "gt", "ge"):
    BEHIND["std::cmp::PartialOrd::" + n] = [N1 + "std::cmp::PartialOrd>::partial_cmp"]
ASSUME = ["the polynomial layer: factorization, resultants, Sturm sequences and exact polynomial division return what "
          "their names say (their size and content are unbounded run-time quantities)",
          "numbers given to the library are canonical: primitive irreducible polynomial with positive leading "
          "coefficient, interval isolating one root",
          "precisions and bit lengths stay below 2^62"]


def work(ctx, item):
    kind, it = item
    if kind == "fn":
        I = check_fn(ctx, it, build_specs(ctx.P))
    elif kind == "pow":
        I = ranpow.check_pow(ctx, it)
    elif kind == "exp":
        I = ranpow.check_exponent(ctx, it)
    elif kind == "log":
        I = log2.work(ctx, it)
    else:
        I = roots.work(ctx, it)
    if I is not None:
        ctx.used |= I.used


def expand(ctx, specs, used):
    """obligations behind the contracts that were used"""
    out = []
    P = ctx.P
    for k in sorted(used):
        ks = BEHIND.get(k, [k])
        if k in ("traits::ExactDiv::exact_div", "traits::ExactDivAssign::exact_div_assign"):
            tr = k.rsplit("::", 1)[0]
            ks = [q for q in specs if q in P.fns and (P.impl_of(q) or {}).get("trait") == tr]
        for q in ks:
            if q in specs and q in P.fns:
                out.append(("fn", q))
        if k == roots.SHRINK:
            out += [("root", i) for i in roots.items(ctx) if i[0] in ("sc", "shrink")]
        if k == roots.SCA:
            out += [("root", i) for i in roots.items(ctx) if i[0] == "sc"]
        if k.endswith("::select_root"):
            out += [("root", i) for i in roots.items(ctx) if i[0] in ("sc", "select")]
        if k == M + "to_integer_log2":
            out += [("log", i) for i in log2.items(ctx) if i[0] == "exact"]
    return out


def decide(ctx, seeds, limit=240):
    ctx.assumptions += ASSUME
    specs = build_specs(ctx.P)
    done = set()
    todo = list(dict.fromkeys(seeds))
    rounds = 0
    while todo:
        ctx.parallel(todo, work, limit)
        done |= set(todo)
        rounds += 1
        todo = [x for x in dict.fromkeys(expand(ctx, specs, ctx.used)) if x not in done]
    ctx.extra["closure_rounds"] = rounds
    ctx.extra["contracts_checked"] = len(done)


def by_name(ctx, pred):
    specs = build_specs(ctx.P)
    return [("fn", k) for k in specs if k in ctx.P.fns and pred(ctx.P.fns[k]["name"], k)]


RULE = ("abstract interpretation of the compiled body on a generic algebraic number (any root, any isolating interval): "
        "every trace must yield the exact value of the operation, its minimal polynomial and an interval that encloses it")
ORDER = {"eq", "ne", "cmp", "partial_cmp", "lt", "le", "gt", "ge", "cmp_with_zero", "is_zero", "is_one", "is_negative_one",
         "is_positive", "is_negative", "signum"}


def parts(n):
    return any(w in n for w in ("floor", "ceil", "trunc", "fract")) or n in (
        "is_rational", "is_integer", "to_rational", "to_integer")


def C10(ctx):
    ctx.rules.append(RULE)
    decide(ctx, by_name(ctx, lambda n, k: n in ORDER))


def C11(ctx):
    ctx.rules.append(RULE)
    decide(ctx, by_name(ctx, lambda n, k: parts(n)) + [("log", i) for i in log2.items(ctx)])


def C12(ctx):
    ctx.rules.append(RULE)
    decide(ctx, by_name(ctx, lambda n, k: n not in ORDER and not parts(n)))


def C13(ctx):
    ctx.rules.append(RULE)
    ets = ranpow.EXPONENTS if ctx.tier == "thorough" else ranpow.EXPONENTS[:1]
    decide(ctx, [("exp", i) for i in ranpow.exponent_items(ctx.P)] + [("pow", (k, e)) for k in ranpow.POWS if k in ctx.P.fns for e in ets] +
           [("pow", (k, ets[0])) for k in ranpow.pow_ops(ctx.P)])


def C14(ctx):
    ctx.rules.append("abstract interpretation of the sign counting, refinement and selection bodies over every sign pattern of "
                     "Sturm sequences up to four members, every cache state and up to three candidate factors")
    ctx.assumptions += ASSUME
    ctx.parallel([("root", i) for i in roots.items(ctx)], work)
