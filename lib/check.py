"""Frame of every check: runs implementation drivers in worker processes, collects violations,
writes the evidence file and decides the exit code."""
import hashlib, json, os, selectors, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.json")


def canon(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.level = "model_checking"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.violations = []   # (clause, detail, replay)
        self.known = []
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        self._known_list = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                self._known_list = [k for k in json.load(fh)["findings"] if k.get("property") == prop and k.get("status") == "known"]

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- specification runs -------------------------------------------------
    def add_tlc(self, res, key=None, exhaustive=False):
        self.cov["states"] += res.distinct if res.distinct else res.generated
        self.cov["transitions"] += res.generated
        if key:
            self.cov.setdefault("runs", {})[key] = dict(states=res.distinct or res.generated, generated=res.generated,
                                                        depth=res.depth, exhaustive=exhaustive, records=len(res.records))

    # -- violations ---------------------------------------------------------
    def violation(self, clause, detail, driver=None, trace=None):
        for k in self._known_list:
            if k["clause"] == clause and (k.get("detail") is None or k["detail"] in str(detail)):
                if k not in self.known:
                    self.known.append(k)
                return
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        body = dict(property=self.prop, clause=clause, detail=detail, driver=driver, trace=trace)
        h = hashlib.sha1(canon([clause, trace]).encode()).hexdigest()[:10]
        path = os.path.join(d, f"{self.prop}-{h}.json")
        with open(path, "w") as fh:
            json.dump(body, fh, indent=1)
        self.violations.append((clause, detail, path))
        self.log("violation:", clause, "--", str(detail)[:1500])

    # -- implementation -----------------------------------------------------
    def drive(self, driver, items, *, procs=6, timeout=300, max_violations=3, func="replay", numba_threads=2, kind="trace", env_extra=None):
        """Runs drivers/<driver>.py:<func> on every item in worker processes. The function returns None (conforms),
        or a dict with clause/detail (does not conform), or a dict with 'rec' (a recorded observation).
        A crash or hang of the implementation is a violation too. Returns the list of recorded observations."""
        if not any(it is not None for it in items):
            return []
        procs = max(1, min(procs, (len(items) + 3) // 4, 8))
        path = os.path.join(self.scratch, f"items_{time.time_ns()}.jsonl")
        with open(path, "w") as fh:
            for it in items:
                fh.write(json.dumps(it) + "\n")
        env = dict(os.environ)
        cache = os.path.join(self.scratch, "numba")     # one folder per worker: Numba's cache is not safe if processes fill it concurrently
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", MPLCONFIGDIR="/opt/venv/var/matplotlib",
                   NUMBA_NUM_THREADS=str(numba_threads), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   PYTHONWARNINGS="ignore", VERIF_SEED=str(self.seed), PYTHONPATH=os.path.join(REPO, "src"))
        env.update(env_extra or {})
        results = [None] * len(items)
        lock = threading.Lock()
        stop = threading.Event()
        nviol = [0]
        machinery = []

        def fail(i, clause, detail):
            with lock:
                self.violation(clause, detail, driver=f"{driver}:{func}", trace=items[i] if i is not None else None)
                if len(self.violations) > 0:
                    nviol[0] += 1
                if nviol[0] >= max_violations:
                    stop.set()

        def confirm(i):
            cmd = [PY, "-B", os.path.join(VERIF, "lib", "worker.py"), driver, func, path, str(i), str(len(items) + 1)]
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=self.scratch, timeout=timeout,
                                   env=dict(env, NUMBA_CACHE_DIR=os.path.join(cache, f"c{i}")))
            except subprocess.TimeoutExpired:
                return None
            for ln in p.stdout.splitlines():
                m = json.loads(ln)
                if m["k"] == "R":
                    return m["r"] if m["r"] is not None else {"ok": True}
            return None

        def work(k):
            start = k
            while start < len(items) and not stop.is_set():
                p = subprocess.Popen([PY, "-B", os.path.join(VERIF, "lib", "worker.py"), driver, func, path, str(start), str(procs)],
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(env, NUMBA_CACHE_DIR=os.path.join(cache, str(k))), cwd=self.scratch)
                errbuf = []
                te = threading.Thread(target=lambda: errbuf.append(p.stderr.read()), daemon=True)
                te.start()
                sel = selectors.DefaultSelector()
                sel.register(p.stdout, selectors.EVENT_READ)
                buf = b""
                cur, done, dead = None, False, None
                deadline = time.time() + timeout
                while True:
                    if stop.is_set():
                        p.kill(); dead = "stopped"; break
                    if sel.select(timeout=0.5):
                        chunk = os.read(p.stdout.fileno(), 1 << 16)
                        if not chunk:
                            break
                        buf += chunk
                        *lines, buf = buf.split(b"\n")
                        for ln in lines:
                            msg = json.loads(ln)
                            deadline = time.time() + timeout
                            if msg["k"] == "S":
                                cur = msg["i"]
                            elif msg["k"] == "I":      # library could not be imported
                                machinery.append(msg["d"]) if not msg["repo"] else fail(None, "import", msg["d"])
                                stop.set()
                            elif msg["k"] == "R":
                                i, r = msg["i"], msg["r"]
                                cur = None
                                results[i] = r if r is not None else {"ok": True}
                                if r is not None and "clause" in r:
                                    fail(i, r["clause"], r.get("detail"))
                            elif msg["k"] == "D":
                                done = True
                    elif time.time() > deadline:
                        p.kill(); dead = "hang"; break
                p.wait()
                te.join(5)
                if stop.is_set() or done:
                    return
                err = (errbuf[0].decode(errors="replace") if errbuf else "")[-1500:]
                if cur is None:
                    machinery.append(f"worker died (rc={p.returncode}) outside of a {kind}: {err}")
                    return
                if dead == "hang":
                    fail(cur, "termination", f"no answer within {timeout} s")
                else:
                    again = confirm(cur)          # a crash has to be reproducible in a fresh process
                    if again is None:
                        fail(cur, "crash", f"the process died with code {p.returncode}: {err}")
                    else:
                        results[cur] = again
                        if "clause" in again:
                            fail(cur, again["clause"], again.get("detail"))
                start = cur + procs

        ths = [threading.Thread(target=work, args=(k,)) for k in range(procs)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        os.unlink(path)
        if machinery and not self.violations:
            from tlc import MachineryError
            raise MachineryError("\n".join(machinery))
        return results

    def replay_all(self, driver, traces, **kw):
        n0 = len(self.violations)
        res = self.drive(driver, traces, **kw)
        self.cov["traces_validated_against_impl"] += sum(1 for r in res if r is not None and "clause" not in r)
        return len(self.violations) == n0

    def validate(self, module, driver, items, constants=None, *, func="record", key=None, what=None, max_violations=3, procs=8, **kw):
        """Records the behaviour of the implementation on every item (drivers/<driver>.py:<func> returns {"rec": ...})
        and has TLC validate the records against the trace specification."""
        import tlc
        n0 = len(self.violations)
        obs = self.drive(driver, items, func=func, max_violations=max_violations, **kw)
        if len(self.violations) > n0:
            return None
        recs = [o["rec"] for o in obs]
        r, verdicts = tlc.validate(module, recs, constants, what=what or key or module, procs=procs)
        self.add_tlc(r, key)
        bad = 0
        for it, rec, v in zip(items, recs, verdicts):
            if v["clause"]:
                bad += 1
                if bad <= max_violations:
                    self.violation(v["clause"], dict(at=v.get("at"), item=it, note=v.get("note")), driver=f"{driver}:{func}", trace=it)
            else:
                self.cov["traces_validated_against_impl"] += 1
        return recs

    def sample(self, *xs):
        for x in xs:
            if len(self.cov["samples"]) < 6:
                s = canon(x)
                self.cov["samples"].append(x if len(s) < 4000 else s[:4000])

    def count(self, key, name, n=1):
        d = self.cov.setdefault(key, {})
        d[name] = d.get(name, 0) + n

    # -- end ----------------------------------------------------------------
    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
        if self.violations:
            print(f"VIOLATION property={self.prop} replay={self.violations[0][2]}", flush=True)
            return 1
        self.log(f"held; {self.cov['traces_validated_against_impl']} traces validated against the implementation")
        return 0
