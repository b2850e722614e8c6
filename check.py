#!/usr/bin/env python3
"""check.py ID...: decide the named properties (or `all`) on /repo's current tree."""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "analysis"))
sys.path.insert(0, os.path.join(HERE, "scripts"))
import db as D
import rule
from registry import RULES
from props import BY


def main():
    ids = sys.argv[1:]
    if ids == ["all"]:
        ids = sorted(RULES)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cache = []

    def loader():
        if not cache:
            try:
                cache.append(D.load())
            except SystemExit as e:
                raise D.AnchorLost("fact extraction failed: %s" % e)
            except D.AnchorLost:
                raise
            except Exception as e:
                raise D.AnchorLost("fact extraction failed: %s" % e)
        return cache[0]

    rc = 0
    for i in ids:
        mod, fn = RULES[i]
        f = getattr(importlib.import_module(mod), fn)
        rc |= rule.run(i, BY[i]["title"], f, loader, tier, seed)
    return rc


if __name__ == "__main__":
    sys.exit(main())
