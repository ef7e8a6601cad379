#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on the current tree of /repo."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "rules"))
import registry
from common import Ctx


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn, opts = registry.CHECKS[prop]
    ctx = Ctx(prop, tier, seed, **opts)
    fn(ctx)
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
