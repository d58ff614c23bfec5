#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness

MODULES = ["arrays", "views", "iters", "exprs", "scalars", "textio", "rand", "fixed", "statics", "consts", "stable", "tolerance", "bridge", "config"]


def checks():
    r = {}
    for m in MODULES:
        r.update(importlib.import_module(m).CHECKS)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    ctx = harness.Ctx(a.property, a.tier, a.seed)
    harness.stop_late(ctx, 450 if ctx.quick else 10800)
    try:
        harness.sanity(ctx)
        checks()[a.property](ctx)
    except harness.CheckError as e:
        print("CHECK ERROR %s: %s" % (a.property, e))
        return ctx.viol and harness.finish(ctx) or 3       # what was found before stands
    except Exception:
        traceback.print_exc()
        return ctx.viol and harness.finish(ctx) or 4
    return harness.finish(ctx)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
