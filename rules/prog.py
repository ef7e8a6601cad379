"""The resolved program: types, impl lookup, control-flow helpers over the extracted facts."""


class Prog:
    def __init__(self, d):
        self.d = d
        self.fns = d["fns"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.types = d["types"]
        self.traits = d["traits"]
        self._ty = {}
        self._loops = {}
        self._res = {}
        self.by_trait = {}
        for k, im in self.impls.items():
            if "trait" in im:
                self.by_trait.setdefault(im["trait"], []).append((k, im, tuple(self.ty(x) if isinstance(
                    x, int) else ("const", x) for x in im["targs"])))
        self.trait_of_method = {}

    # ------------------------------------------------------------------ types
    def ty(self, i):
        if not isinstance(i, int):
            return ("const", i)
        r = self._ty.get(i)
        if r is not None:
            return r
        t = self.types[i]
        k = t[0]
        if k in ("ref", "ptr"):
            r = (k, t[1], self.ty(t[2]))
        elif k == "adt":
            r = (k, t[1], tuple(self.ty(x) for x in t[2]))
        elif k == "tuple":
            r = (k, tuple(self.ty(x) for x in t[1]))
        elif k == "slice":
            r = (k, self.ty(t[1]))
        elif k == "array":
            r = (k, self.ty(t[1]), t[2])
        elif k == "proj":
            r = (k, t[1], t[2], tuple(self.ty(x) for x in t[3]))
        elif k == "fndef":
            r = (k, t[1], tuple(self.ty(x) for x in t[2]))
        elif k == "closure":
            r = (k, t[1], tuple(self.ty(x) for x in t[2]), tuple(self.ty(x) for x in t[3]))
        else:
            r = tuple(t)
        self._ty[i] = r
        return r

    targ = ty

    def sub(self, t, ta):
        if not ta:
            return t if t[0] != "proj" else self.norm(t)
        k = t[0]
        if k == "param":
            return ta.get(t[2], t)
        if k in ("prim", "other", "dyn", "never", "fnptr", "const"):
            return t
        if k in ("ref", "ptr"):
            return (k, t[1], self.sub(t[2], ta))
        if k == "adt":
            return (k, t[1], tuple(self.sub(x, ta) for x in t[2]))
        if k == "tuple":
            return (k, tuple(self.sub(x, ta) for x in t[1]))
        if k == "slice":
            return (k, self.sub(t[1], ta))
        if k == "array":
            return (k, self.sub(t[1], ta), t[2])
        if k == "proj":
            return self.norm((k, t[1], t[2], tuple(self.sub(x, ta) for x in t[3])))
        if k == "fndef":
            return (k, t[1], tuple(self.sub(x, ta) for x in t[2]))
        if k == "closure":
            return (k, t[1], tuple(self.sub(x, ta) for x in t[2]), tuple(self.sub(x, ta) for x in t[3]))
        return t

    def norm(self, t):
        """resolve associated type projections"""
        if t is None:
            return ("other", "?")
        if t[0] != "proj":
            return t
        tr, nm, args = t[1], t[2], tuple(self.norm(a) for a in t[3])
        r = self.find_impl(tr, args)
        if r is not None:
            k, im, s = r
            if nm in im["types"]:
                return self.norm(self.sub(self.ty(im["types"][nm]), s))
        s = args[0]
        while s[0] == "ref":
            s = s[2]
        if nm == "Output" and s[0] in ("prim", "adt"):
            if s[0] == "prim" or s[1] in ("num_bigint::BigInt", "num_bigint::BigUint", "num_rational::Ratio"):
                return s
        if nm == "Owned":
            if s[0] == "slice":
                return ("adt", "std::vec::Vec", (s[1],))
            return s
        if nm == "Target" and s[0] == "adt":
            if s[1] == "std::vec::Vec":
                return ("slice", s[2][0])
            if s[1] in ("std::sync::Arc", "std::boxed::Box", "std::borrow::Cow"):
                return s[2][-1] if s[1] == "std::borrow::Cow" else s[2][0]
        if nm == "Item":
            a = args[0]
            if a[0] == "adt" and a[1] == "std::ops::Range":
                return a[2][0]
            if a[0] == "ref" and a[2][0] == "adt" and a[2][1] == "std::vec::Vec":
                return ("ref", a[1], a[2][2][0])
            if a[0] == "ref" and a[2][0] == "slice":
                return ("ref", a[1], a[2][1])
            if a[0] == "adt" and a[1] in ("std::vec::Vec", "std::vec::IntoIter", "std::vec::Drain"):
                return a[2][0]
            if a[0] == "adt" and a[1] in ("std::slice::Iter", "std::slice::IterMut"):
                return ("ref", a[1].endswith("Mut"), a[2][0])
        return ("proj", tr, nm, args)

    def is_local_adt(self, t):
        return t[0] == "adt" and t[1] in self.adts

    def adt_params(self, path):
        """names of the generic parameters of a local ADT in order (read off an impl-free view)"""
        return self._adt_params(path)

    def _adt_params(self, path):
        c = getattr(self, "_ap", None)
        if c is None:
            c = self._ap = {}
        if path in c:
            return c[path]
        names = {}
        for v in self.adts[path]["variants"]:
            for f in v[1]:
                self._collect(self.ty(f[1]), names)
        r = [names[i] for i in sorted(names)]
        c[path] = r
        return r

    def _collect(self, t, out):
        if t[0] == "param":
            out[t[1]] = t[2]
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in ("param", "adt", "ref", "ptr", "tuple", "slice",
                                                            "array", "proj", "closure", "fndef"):
                    self._collect(x, out)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            self._collect(y, out)

    def variants(self, t):
        """list of field type lists, or None"""
        if t[0] != "adt":
            return None
        if t[1] in self.adts:
            ps = self._adt_params(t[1])
            ta = dict(zip(ps, [x for x in t[2]])) if len(ps) == len(t[2]) else dict(zip(ps, t[2]))
            return [[self.norm(self.sub(self.ty(f[1]), ta)) for f in v[1]]
                    for v in self.adts[t[1]]["variants"]]
        a = t[2]
        if t[1] == "std::option::Option":
            return [[], [a[0]]]
        if t[1] == "std::result::Result":
            return [[a[0]], [a[1]]]
        if t[1] == "std::borrow::Cow":
            return [[("ref", False, a[0])], [self.norm(("proj", "std::borrow::ToOwned", "Owned", (a[0],)))]]
        if t[1] == "std::cmp::Ordering":
            return [[], [], []]
        if t[1] == "std::ops::ControlFlow":
            return [[a[1]], [a[0]]]
        if t[1] == "num_bigint::Sign":
            return [[], [], []]
        if t[1] == "std::ops::Range":
            return [[a[0], a[0]]]
        if t[1] == "std::ops::Bound":
            return [[a[0]], [a[0]], []]
        return None

    def variant_name(self, t, i):
        if t[1] in self.adts:
            return self.adts[t[1]]["variants"][i][0]
        from absint import ENUMS
        e = ENUMS.get(t[1])
        return e[i][0] if e else str(i)

    def discs(self, t):
        if t[0] == "adt" and t[1] == "std::cmp::Ordering":
            return [-1, 0, 1]
        return None

    def field_ty(self, t, var, i):
        if t[0] == "tuple":
            return t[1][i]
        vs = self.variants(t)
        if vs is not None and var < len(vs) and i < len(vs[var]):
            return vs[var][i]
        return None

    def elem_ty(self, t):
        while t[0] in ("ref", "ptr"):
            t = t[2]
        if t[0] in ("array", "slice"):
            return t[1]
        if t[0] == "adt" and t[2]:
            return t[2][0]
        return ("other", "?")

    # ------------------------------------------------------------------ impl lookup
    def unify(self, pat, t, s):
        if pat[0] == "param":
            if pat[2] in s:
                return s[pat[2]] == t
            s[pat[2]] = t
            return True
        if pat[0] == "proj":
            return True  # checked by the compiler
        if pat[0] != t[0]:
            return False
        k = pat[0]
        if k in ("ref", "ptr"):
            return pat[1] == t[1] and self.unify(pat[2], t[2], s)
        if k in ("adt", "fndef"):
            return pat[1] == t[1] and len(pat[2]) == len(t[2]) and all(
                self.unify(a, b, s) for a, b in zip(pat[2], t[2]))
        if k == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(a, b, s) for a, b in zip(pat[1], t[1]))
        if k in ("slice",):
            return self.unify(pat[1], t[1], s)
        if k == "array":
            return self.unify(pat[1], t[1], s)
        return pat == t

    def find_impl(self, trait, args):
        key = (trait, args)
        if key in self._res:
            return self._res[key]
        best = None
        nargs = tuple(self.norm(a) if a[0] == "proj" else a for a in args)
        for k, im, pats in self.by_trait.get(trait, ()):
            s = {}
            n = min(len(pats), len(nargs))
            if all(self.unify(p, a, s) for p, a in zip(pats[:n], nargs[:n])):
                # a bare parameter pattern does not match an unresolved parameter unless blanket
                score = sum(1 for p in pats if p[0] == "param")
                if best is None or score < best[0]:
                    best = (score, k, im, s)
        r = None if best is None else best[1:]
        self._res[key] = r
        return r

    def generics(self, key):
        f = self.fns.get(key)
        if f is None:
            return []
        if f["kind"] == "Closure":
            root = self.fns.get(f["root"])
            g = root["generics"] if root else f["generics"]
        else:
            g = f["generics"]
        return [x[1] for x in g]

    def resolve(self, fn):
        """(function key, generic substitution) of a callee with a body in this crate, else (None, {})"""
        p, a = fn["p"], fn["a"]
        tr = fn.get("tr")
        if tr is None:
            tr = self.method_trait(p)
            if tr is None:
                if p in self.fns:
                    g = self.generics(p)
                    return p, dict(zip(g, a))
                return None, {}
        # a trait method
        nm = fn["nm"]
        generic = any(self.has_param(x) for x in a)
        if "r" in fn and fn.get("rl") and not generic:
            g = self.generics(fn["r"])
            return fn["r"], dict(zip(g, fn["ra"]))
        # number of trait arguments: read off an impl
        ims = self.by_trait.get(tr)
        if ims:
            n = len(ims[0][2])
            r = self.find_impl(tr, a[:n])
            if r is not None:
                k, im, s = r
                key = im["items"].get(nm)
                if key is None:
                    t = self.traits.get(tr)
                    if t and nm in t["items"] and t["items"][nm][1]:
                        key = t["items"][nm][0]
                        g = self.generics(key)
                        return key, dict(zip(g, a))
                    return None, {}
                g = self.generics(key)
                ta = dict(s)
                rest = [x for x in g if x not in s]
                own = a[n:]
                if own:
                    for x, y in zip(g[len(g) - len(own):], own):
                        ta[x] = y
                return key, ta
        t = self.traits.get(tr)
        if t and nm in t["items"] and t["items"][nm][1]:
            # default method on a type parameter
            key = t["items"][nm][0]
            return key, dict(zip(self.generics(key), a))
        return None, {}

    def has_param(self, t):
        if t[0] in ("param", "proj"):
            return True
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    if self.has_param(x):
                        return True
                else:
                    for y in x:
                        if isinstance(y, tuple) and self.has_param(y):
                            return True
        return False

    def method_trait(self, p):
        if not self.trait_of_method:
            for t, d in self.traits.items():
                for nm, (k, _) in d["items"].items():
                    self.trait_of_method[k] = t
            self.trait_of_method[""] = None
        return self.trait_of_method.get(p)

    def fn_from_key(self, fk):
        p, a = fk
        nm = p.rsplit("::", 1)[-1]
        d = {"p": p, "a": a, "nm": nm, "l": p in self.fns, "tr": None}
        tr = self.method_trait(p)
        if tr is None and "::" in p:
            owner = p.rsplit("::", 1)[0]
            if owner in self.by_trait or owner in KNOWN_TRAITS:
                tr = owner
        d["tr"] = tr
        return d

    def fn_param_out(self, t):
        return None

    def const_fn(self, c, ta):
        """associated/free constant with a body in this crate"""
        nm = c["name"]
        if nm in self.fns:
            args = [self.sub(self.targ(x), ta) for x in c.get("nargs", [])]
            tr = None
            owner = nm.rsplit("::", 1)[0]
            if owner in self.traits:
                r = self.find_impl(owner, tuple(args))
                if r is not None:
                    k, im, s = r
                    key = im["items"].get(nm.rsplit("::", 1)[1])
                    if key:
                        return key, s
            return nm, dict(zip(self.generics(nm), args))
        owner = nm.rsplit("::", 1)[0]
        if owner in self.traits:
            args = tuple(self.sub(self.targ(x), ta) for x in c.get("nargs", []))
            r = self.find_impl(owner, args)
            if r is not None:
                k, im, s = r
                key = im["items"].get(nm.rsplit("::", 1)[1])
                if key:
                    return key, s
        return None

    def sig_inputs(self, fn):
        f = self.fns.get(fn["p"])
        if f is not None and "in" in f:
            return [self.ty(x) for x in f["in"]]
        return None

    # ------------------------------------------------------------------ CFG
    def succs(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def loops(self, mir):
        """natural loops: header -> set of blocks"""
        key = id(mir)
        if key in self._loops:
            return self._loops[key][1]
        blocks = mir["blocks"]
        color = {}
        back = []
        stack = [(0, iter(self.succs(blocks[0][1])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                if color.get(n) == 1:
                    back.append((b, n))
                elif n not in color:
                    color[n] = 1
                    stack.append((n, iter(self.succs(blocks[n][1]))))
                    break
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b in color:
            for n in self.succs(blocks[b][1]):
                pred.setdefault(n, []).append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            todo = [b]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo += pred.get(x, [])
        self._loops[key] = (mir, loops)
        return loops


KNOWN_TRAITS = {"std::convert::From", "std::convert::Into", "std::clone::Clone", "std::ops::Neg",
                "std::ops::Add", "std::ops::Mul", "std::ops::Sub", "std::ops::Div", "std::ops::Rem",
                "std::default::Default", "num_traits::Zero", "num_traits::One"}


def _impl_of(self, key):
    f = self.fns.get(key)
    if not f or not f.get("impl"):
        return None
    return self.d["impls"].get(f["impl"])


Prog.impl_of = _impl_of
