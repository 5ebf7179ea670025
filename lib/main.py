"""main.py <property> <quick|thorough>   or   main.py --replay <file>"""
import importlib, json, os, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0:0] = [HERE, os.path.join(HERE, "..", "checks")]
from check import Ctx
from tlc import MachineryError


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fh:
            b = json.load(fh)
        print("clause:", b["clause"], "\nrecorded detail:", b["detail"])
        ctx = Ctx(b["property"], "quick", 1)
        if b["driver"] and b["trace"] is not None:
            d, f = b["driver"].split(":")
            r = ctx.drive(d, [b["trace"]], func=f, procs=1)
            print("result now:", json.dumps(r[0], indent=1)[:6000])
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        importlib.import_module(prop.lower()).run(ctx)
    except MachineryError as e:
        if ctx.violations:
            return ctx.finish()
        print("MACHINERY ERROR:", e, flush=True)
        return 2
    except Exception:
        if ctx.violations:
            return ctx.finish()
        traceback.print_exc()
        return 2
    return ctx.finish()


rc = main()
sys.stdout.flush()
os._exit(rc)
