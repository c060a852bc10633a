import argparse, json, os, sys
from . import engine as E


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--nobuild", action="store_true")
    a = ap.parse_args()
    if a.replay:
        if not a.nobuild:
            E.B.build()
        mod = E.load(a.id)
        case = json.load(open(a.replay))
        try:
            ctx, msg = E.execute(mod, case)
        except E.Inconclusive as e:
            msg = str(e)
        if msg is None:
            print("replay: property holds; labels", sorted(set(ctx.labels)))
            return 0
        print("replay: %s" % msg)
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return 1
    return E.run_check(a.id, a.tier, a.seed, a.scale, a.jobs, a.nobuild)


sys.exit(main())
