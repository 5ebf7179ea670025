"""Thin wrapper around TLC: runs a specification module with given constants, collects the
behaviours it prints (lines "@@<json>") and the statistics of the run."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")


class MachineryError(Exception):
    """The verification machinery itself failed (never reported as a violation)."""


class TLCResult:
    def __init__(self):
        self.records = []      # parsed "@@" records
        self.generated = 0     # states generated
        self.distinct = 0
        self.depth = 0
        self.violated = None   # name of a violated invariant/property of the specification
        self.truncated = 0     # simulation runs which ended by 32-bit overflow
        self.rc = 0
        self.out = ""
        self.wall = 0.0

    def merge(self, o):
        self.records += o.records
        self.generated += o.generated
        self.distinct += o.distinct
        self.depth = max(self.depth, o.depth)
        self.violated = self.violated or o.violated
        self.truncated += o.truncated
        return self


def tla(v):
    """Python value -> TLA+ text."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise TypeError(v)


def run(module, constants=None, *, invariants=(), properties=(), constraint=None, action_constraint=None,
        view=None, simulate=None, seed=1, workers=1, timeout=600, files=None, postcondition=None,
        heap="2g", coverage=False, spec="Spec"):
    """One TLC run. simulate=(num, depth) switches to random simulation."""
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), wd)
        for name, text in (files or {}).items():
            with open(os.path.join(wd, name), "w") as fh:
                fh.write(text)
        mc = "MC_" + module
        lines = [f"---- MODULE {mc} ----", f"EXTENDS {module}"]
        cfg = [f"SPECIFICATION {spec}", "CHECK_DEADLOCK FALSE"]
        for k, v in (constants or {}).items():
            lines.append(f"const_{k} == {tla(v)}")
            cfg.append(f"CONSTANT {k} <- const_{k}")
        lines.append("====")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for i in properties:
            cfg.append(f"PROPERTY {i}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        with open(os.path.join(wd, mc + ".tla"), "w") as fh:
            fh.write("\n".join(lines) + "\n")
        with open(os.path.join(wd, mc + ".cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Djava.io.tmpdir={wd}", f"-Xmx{heap}", "-Xss32m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-cp", CP, "tlc2.TLC", "-config", mc + ".cfg", "-metadir", os.path.join(wd, "states"),
               "-workers", str(workers), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(seed)]
        else:
            cmd += ["-seed", str(seed), "-fp", "1"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(mc + ".tla")
        outp = os.path.join(wd, "out.txt")
        res = TLCResult()
        with open(outp, "w") as fo:
            try:
                p = subprocess.run(cmd, cwd=wd, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
                res.rc = p.returncode
            except subprocess.TimeoutExpired:
                res.rc = -9
        other = []
        with open(outp, errors="replace") as fi:
            for line in fi:
                if line.startswith('"@@'):
                    try:
                        res.records.append(json.loads(json.loads(line.strip())[2:]))
                    except ValueError:
                        if res.rc != -9:
                            raise
                else:
                    other.append(line)
        res.out = "".join(other)
        res.wall = time.time() - t0
        m = re.findall(r"([\d,]+) states generated(?:.*?([\d,]+) distinct states found)?", res.out)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.distinct = int((m[-1][1] or "0").replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", res.out)
        if m:
            res.generated = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", res.out)
        if m:
            res.depth = int(m[-1])
        m = re.search(r"(?:Invariant|property) (\w+) (?:is|was) violated", res.out)
        if m:
            res.violated = m.group(1)
        if "Overflow when computing" in res.out or "OverflowException" in res.out:
            res.truncated = 1
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def check_ok(res, what, allow_overflow=False):
    if res.violated:
        raise MachineryError(f"{what}: the specification violates its own {res.violated}\n" + res.out[-4000:])
    if res.rc not in (0,) and not (allow_overflow and res.truncated):
        raise MachineryError(f"{what}: TLC ended with {res.rc}\n" + res.out[-4000:])
    return res


def simulate(module, constants, num, depth, *, seed=1, procs=6, invariants=(), timeout=600, what=None, files=None,
             min_records=None, **kw):
    """Random behaviours, several TLC processes with different seeds."""
    per = max(1, (num + procs - 1) // procs)
    procs = min(procs, num)

    def one(i):
        got = TLCResult()
        todo, k = per, 0
        while todo > 0 and k < 40:
            r = run(module, constants, invariants=invariants, simulate=(todo, depth),
                    seed=seed * 100003 + i * 1009 + k * 31 + 7, timeout=timeout, files=files, **kw)
            check_ok(r, what or module, allow_overflow=True)
            got.merge(r)
            got.rc = r.rc
            got.out = r.out
            if not r.truncated:
                break
            todo = per - len(got.records)
            k += 1
        return got

    with ThreadPoolExecutor(procs) as ex:
        parts = list(ex.map(one, range(procs)))
    res = TLCResult()
    for p in parts:
        res.merge(p)
        res.out = p.out
    if min_records is None:
        min_records = num // 2
    if len(res.records) < min_records:
        raise MachineryError(f"{what or module}: only {len(res.records)} of {num} behaviours generated\n" + res.out[-3000:])
    return res


EVAL_ERROR = r"Attempted to|Overflow when computing|Evaluating an expression of the form|The error occurred when TLC was evaluating"


def validate(module, traces, constants=None, *, procs=8, timeout=900, what=None, name="traces.json", **kw):
    """Validates recorded traces against a trace specification: returns (result, verdicts), a verdict per trace
    being the record printed by the specification for it (clause "" = accepted)."""
    procs = max(1, min(procs, len(traces)))
    parts = [list(range(k, len(traces), procs)) for k in range(procs)]

    def one(idx):
        total, idx, done = TLCResult(), list(idx), []
        for _ in range(6):
            r = run(module, constants, files={name: json.dumps([traces[j] for j in idx])}, timeout=timeout, **kw)
            for rec in r.records:
                rec["i"] = idx[rec["i"] - 1]
            if r.rc == 0 or r.violated or not re.search(EVAL_ERROR, r.out):
                check_ok(r, what or module)
                total.merge(r)
                return total
            # a recorded value lies where the specification is not even defined: that trace is not one of its behaviours
            seen = {rec["i"] for rec in r.records}
            bad = next(j for j in idx if j not in seen)
            r.records.append({"i": bad, "clause": "the record lies outside the domain of the specification"})
            total.merge(r)
            idx = idx[idx.index(bad) + 1:]
            if not idx:
                return total
        for j in idx:
            total.records.append({"i": j, "clause": "", "skipped": True})
        return total

    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(one, parts))
    out = [None] * len(traces)
    res = TLCResult()
    for idx, r in zip(parts, rs):
        for rec in r.records:
            out[rec["i"]] = rec
        n = r.records
        r.records = []
        res.merge(r)
    res.records = out
    if any(v is None for v in out):
        raise MachineryError(f"{what or module}: {sum(v is None for v in out)} of {len(traces)} recorded traces got no verdict")
    return res, out
