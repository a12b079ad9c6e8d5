"""run.py <ID> [quick|thorough] [--replay FILE] [--only GROUP,...]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from mc import boot, engine

    try:
        boot.load()
    except SystemExit:
        raise
    except BaseException as e:
        # A package that cannot be imported breaks every property.
        os.makedirs(os.path.join(boot.HERE, "evidence"), exist_ok=True)
        rp = os.path.join(boot.HERE, "evidence", a.id + "-violation-import.json")
        open(rp, "w").write(repr(e))
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
        print("  importing gdspy failed: %s" % engine.exception_text(e))
        return 1
    mod = importlib.import_module("checks." + a.id.lower())
    groups = mod.groups(a.tier)
    if a.replay:
        return engine.replay(groups, a.replay)
    only = set(a.only.split(",")) if a.only else None
    return engine.main(
        a.id, getattr(mod, "LEVEL", "model_checking"), groups, a.tier, seed,
        assumptions=getattr(mod, "ASSUMPTIONS", ()), only=only,
    )


sys.exit(main())
