"""Shared plumbing of the checks: obligations, verdicts, evidence."""
import hashlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import extract
import prog
from absint import Interp, State, Budget, Num, Bool, Agg, Ref, Opq, Lst, Clo, It, UND, LESS, EQUAL, GREATER
from term import Poly, C, A, pow2, floor, ceil, _atoms, show

UNKNOWN_HEADS = {"top", "app", "post", "rv", "const?", "cast", "un", "upd", "mem", "und"}


def pretty_fn(k):
    return re.sub(r"\b[a-z_0-9]+::(?=[A-Za-z_<])", "", k)


class Ctx:
    """one run of one check"""

    def __init__(self, prop, tier="quick", seed=1, python=False):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        d, info = extract.facts(python=python)
        self.facts_info = info
        self.P = prog.Prog(d)
        self.d = d
        self.obligations = 0
        self.discharged = 0
        self.violations = []      # (key, text, where)
        self.undecided = []       # (what, why)
        self.functions = set()
        self.visited = set()
        self.used = set()         # functions taken at their contract
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.rules = []

    def where(self, key):
        f = self.P.fns.get(key)
        if not f:
            return "?"
        sp = f.get("span") or f.get("bspan")
        return str(sp)

    def ob(self, ok, fn, name, detail="", where=None):
        """one obligation. ok: True discharged, False violated, None undecided"""
        self.obligations += 1
        if ok is True:
            self.discharged += 1
            if len(self.samples) < 6 and (not self.samples or self.samples[-1]["function"] != fn):
                self.samples.append({"function": fn, "obligation": name, "site": self.where(fn)})
            return True
        if ok is None:
            if callable(detail):
                detail = detail()
            self.undecided.append((fn, (name + (": " + detail if detail else ""))[:400]))
            return None
        key = fn + " :: " + name
        if callable(detail):
            detail = detail()
        if all(v[0] != key for v in self.violations):
            self.violations.append((key, detail, where or self.where(fn)))
        return False

    # ---------------------------------------------------------------- parallel work
    def parallel(self, items, work, limit=120):
        """run work(item) for every item in forked workers; results are merged into this context"""
        import multiprocessing as mp
        items = list(items)
        global _CTX, _WORK
        _CTX, _WORK = self, (work, limit)
        n = min(8, os.cpu_count() or 1, max(1, len(items)))
        if n == 1:
            save = (self.obligations, self.discharged, self.violations, self.undecided,
                    self.samples, self.functions, self.visited, self.used, self.extra)
            res = [_job(i) for i in items]
            (self.obligations, self.discharged, self.violations, self.undecided,
             self.samples, self.functions, self.visited, self.used, self.extra) = save
        else:
            res = []
            with mp.get_context("fork").Pool(n) as pool:
                it = pool.imap_unordered(_job, items)
                for _ in items:
                    try:
                        res.append(it.next(max(1, DEADLINE + 20 - (time.time() - self.t0))))
                    except (StopIteration, mp.TimeoutError):
                        break
                    if time.time() - self.t0 > FAILED and any(r["v"] for r in res):
                        break
                pool.terminate()
            if len(res) < len(items):
                self.undecided.append(("%d work items" % (len(items) - len(res)), "not analysed: time limit of the whole check"))
            res.sort(key=lambda r: str(r["i"]))
        for r in res:
            self.obligations += r["o"]
            self.discharged += r["d"]
            for v in r["v"]:
                if all(w[0] != v[0] for w in self.violations):
                    self.violations.append(v)
            self.undecided += r["u"]
            self.functions |= r["f"]
            self.visited |= r["vis"]
            self.used |= r["used"]
            for x in r["s"]:
                if len(self.samples) < 8:
                    self.samples.append(x)
            for k, x in r["x"].items():
                self.extra[k] = self.extra.get(k, 0) + x

    def undec(self, fn, why):
        self.undecided.append((fn, why))

    # ---------------------------------------------------------------- output
    def finish(self):
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        known = load_known(self.prop)
        new = [v for v in self.violations if v[0] not in known]
        old = [v for v in self.violations if v[0] in known]
        rep = os.path.join(ev, self.prop + ".report.txt")
        with open(rep, "w") as f:
            for k, t, w in self.violations:
                f.write("%s\n  at %s\n  %s\n" % (k, w, t))
            for k, t in self.undecided:
                f.write("undecided: %s: %s\n" % (k, t))
        cov = {
            "obligations": self.obligations,
            "discharged": self.discharged,
            "undecided": len(self.undecided),
            "functions_analysed": len(self.functions),
            "function_bodies_visited": len(self.visited),
            "bodies_in_crate": len(self.P.fns),
            "checker_cmd": "python3 check.py %s" % self.prop,
            "trusted_base": ["rustc's MIR", "the models of std and num items in rules/models.py",
                             "the entailment procedure in rules/term.py"],
            "samples": self.samples,
            "explanation": "; ".join(self.rules) or "static analysis of the current tree",
        }
        cov.update(self.extra)
        out = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
               "coverage": cov, "assumptions": self.assumptions,
               "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(ev, self.prop + ".json"), "w") as f:
            json.dump(out, f, indent=1)
            f.write("\n")
        for v in old:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, v[0]))
        for k, t, w in new:
            print("%s: %s\n    at %s%s" % (self.prop, k, w, ("\n    " + t) if t else ""))
        print("%s: %d obligations over %d functions, %d discharged, %d undecided, %d violations (%.1f s)" % (
            self.prop, self.obligations, len(self.functions), self.discharged, len(self.undecided),
            len(new), time.time() - self.t0))
        if new:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            return 1
        return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    out = set()
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"finding: property=(\w+) (.*)", line)
            if m and m.group(1) == prop:
                out.add(m.group(2))
    return out


def atoms_of(p):
    return p.deep_atoms() if isinstance(p, Poly) else set()


def unknown_in(p):
    """does the term contain something the domain does not interpret"""
    def heads(x, depth=0):
        if isinstance(x, Poly):
            for a in x.deep_atoms():
                if heads(_atoms[a], depth + 1):
                    return True
            return False
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in UNKNOWN_HEADS:
                return True
            return any(heads(y, depth + 1) for y in x if isinstance(y, (tuple, Poly)))
        return False
    return heads(p)


_CTX = _WORK = None


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


# seconds: no item runs past DEADLINE; after FAILED a run that has found a violation stops
DEADLINE, FAILED = 600, 200


def _job(item):
    import signal
    c = _CTX
    c.obligations = c.discharged = 0
    c.violations, c.undecided, c.samples = [], [], []
    c.functions, c.visited, c.used, c.extra = set(), set(), set(), {}
    work, limit = _WORK
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(max(1, min(limit, DEADLINE - (time.time() - c.t0)))))
    try:
        work(c, item)
    except Timeout:
        c.undecided.append((str(item)[:200], "time limit"))
    except Budget as e:
        c.undecided.append((str(item)[:200], "analysis gave up: %s" % str(e)[:200]))
    except RecursionError:
        c.undecided.append((str(item)[:200], "recursion"))
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
        c.undecided.append((str(item)[:200], "analysis gave up: %s" % repr(e)[:200]))
    finally:
        signal.alarm(0)
    return {"i": item, "o": c.obligations, "d": c.discharged, "v": c.violations, "u": c.undecided,
            "f": c.functions, "vis": c.visited, "used": c.used, "s": c.samples[:2], "x": c.extra}
