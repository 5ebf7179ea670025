"""Runs a driver function on every n-th item of a file; talks to the parent in JSON lines on the
original standard output (the library's own prints are thrown away)."""
import importlib, json, os, sys, traceback

out = os.fdopen(os.dup(1), "w")
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0:0] = [os.path.join(HERE, "..", "drivers"), HERE]


def send(**kw):
    out.write(json.dumps(kw) + "\n")
    out.flush()


def main():
    driver, func, path, start, step = sys.argv[1:6]
    start, step = int(start), int(step)
    import warnings
    warnings.filterwarnings("ignore")
    try:
        f = getattr(importlib.import_module(driver), func)
    except BaseException:
        tb = traceback.format_exc()
        send(k="I", d=tb[-3000:], repo="sigmaepsilon/math" in tb)
        return
    with open(path) as fh:
        for i, line in enumerate(fh):
            if i < start or (i - start) % step or line.strip() == "null":
                continue
            send(k="S", i=i)
            try:
                r = f(json.loads(line))
            except Exception:
                r = dict(clause="exception", detail=traceback.format_exc()[-2500:])
            send(k="R", i=i, r=r)
    send(k="D")


main()
out.flush()
os._exit(0)
