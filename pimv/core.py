"""Shared machinery: TLC runner, case runner, verdicts, evidence, findings.

Nothing here knows what the implementation should do: what is right is said by
the modules in /verif/spec; this file only carries records to TLC and back.
"""
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PIMV_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EVAL = (75, 76, 77)  # TLC: an expression has no value


class MachineryError(Exception):
    pass


def env_for_code(work):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{VERIF}:{REPO}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(work, "mpl"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        TMPDIR=work,
        HOME=work,
        PYTHONWARNINGS="ignore",
    )
    return env


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier=None, seed=None, only=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.only = only
        self.t0 = time.time()
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=f"{pid}-", dir=base)
        os.makedirs(os.path.join(self.work, "mpl"), exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.models = []
        self.samples = []
        self.notes = {}
        self.violations = []
        self.last = None  # dicts: case, fails, record
        self.assumptions = []

    @property
    def quick(self):
        return self.tier == "quick"

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=8, extra=(), timeout=800, heap="4g"):
        """Run TLC on spec/<module>.tla with configuration text or file."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), d)
        if "\n" in cfg or not cfg.endswith(".cfg"):
            with open(os.path.join(d, "_run.cfg"), "w") as f:
                f.write(cfg)
            cfg = "_run.cfg"
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss16m", "-Djava.io.tmpdir=" + d, "-cp", JARS,
               "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
               "-deadlock", "-config", cfg, *extra, module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as ex:
            raise MachineryError(f"TLC timeout on {module}: {str(ex.stdout)[-2000:]}")
        res = TLCResult(module, rc, out, time.time() - t)
        shutil.rmtree(d, ignore_errors=True)
        return res

    def model_check(self, module, cfg, min_states=2, **kw):
        """Design-level model checking: must pass; counts states."""
        r = self.tlc(module, cfg, **kw)
        if r.rc != 0:
            raise MachineryError(f"model {module}/{cfg[:60]!r} rc={r.rc}:\n{r.out[-3000:]}")
        if r.distinct < min_states:
            raise MachineryError(f"model {module}: only {r.distinct} states")
        self.states += r.distinct
        self.transitions += r.generated
        ck_log(self, module, r)
        self.models.append(dict(module=module, distinct=r.distinct, generated=r.generated,
                                depth=r.depth, wall_s=round(r.wall, 1)))
        return r

    def model_expect_violation(self, module, cfg, what, **kw):
        """A deliberately broken design must be refuted (the invariant is not vacuous)."""
        r = self.tlc(module, cfg, **kw)
        ck_log(self, 'refute ' + module, r)
        if r.rc not in (12, 13, 10):  # safety / liveness / assumption violation
            raise MachineryError(f"vacuous: {what}: {module} rc={r.rc}\n{r.out[-2000:]}")
        self.models.append(dict(module=module, refuted=what))

    def behaviours(self, module, cfg, **kw):
        """Behaviours printed by a generating configuration as '@@GEN {json}'."""
        r = self.tlc(module, cfg, **kw)
        if r.rc != 0:
            raise MachineryError(f"generator {module} rc={r.rc}:\n{r.out[-3000:]}")
        self.states += r.distinct
        self.transitions += r.generated
        out, seen = [], set()
        for line in r.out.splitlines():
            s = _payload(line, "@@GEN ")
            if s is not None and s not in seen:
                seen.add(s)
                out.append(json.loads(s))
        if not out:
            raise MachineryError(f"generator {module}: no behaviour\n{r.out[-2000:]}")
        self.models.append(dict(module=module, behaviours=len(out), distinct=r.distinct, generated=r.generated))
        return out

    # ---------------------------------------------------------------- cases
    def run_cases(self, worker, cases, procs=8, case_timeout=120, env=None, batch=None):
        """Run pimv.workers.<worker>.run(case) on the real code, in subprocesses.

        Every case gives exactly one record; a crash or a hang of the code is
        itself the observation ({"crash": ...}).
        """
        for i, c in enumerate(cases):
            c.setdefault("id", f"{worker}-{i}")
        if len({c["id"] for c in cases}) != len(cases):
            raise MachineryError("duplicate case ids")
        procs = max(1, min(procs, len(cases)))
        queues = [cases[i::procs] for i in range(procs)]
        slots = []
        results = {}
        e = env_for_code(self.work)
        e.update(env or {})
        deadline = time.time() + 850
        for k, q in enumerate(queues):
            slots.append(dict(k=k, todo=list(q), proc=None, n=0))
        active = list(slots)
        while active:
            for s in list(active):
                if s["proc"] is None:
                    if not s["todo"]:
                        active.remove(s)
                        continue
                    self._spawn(worker, s, e)
                self._poll(s, results, case_timeout)
            if time.time() > deadline:
                for s in active:
                    if s["proc"]:
                        _kill(s["proc"])
                raise MachineryError("out of time running cases")
            time.sleep(0.02)
        ck_log(self, "cases " + worker, len(cases))
        recs = []
        for c in cases:
            r = results.get(c["id"])
            if r is None:
                raise MachineryError(f"no record for {c['id']}")
            if "machinery" in r:
                raise MachineryError(f"case {c['id']}: {r['machinery']}")
            recs.append(r)
        self.last = (recs, cases)
        return recs

    def _spawn(self, worker, s, e):
        s["n"] += 1
        cf = os.path.join(self.work, f"{worker}-{s['k']}-{s['n']}.cases")
        of = os.path.join(self.work, f"{worker}-{s['k']}-{s['n']}.out")
        with open(cf, "w") as f:
            for c in s["todo"]:
                f.write(json.dumps(c) + "\n")
        open(of, "w").close()
        log = open(of + ".log", "w")
        tmp = tempfile.mkdtemp(prefix="w-", dir=self.work)
        e2 = dict(e, TMPDIR=tmp)
        s.update(of=of, pos=0, last=time.time(), cf=cf, tmp=tmp,
                 proc=subprocess.Popen([PY, "-m", "pimv.worker", worker, cf, of], env=e2, cwd=tmp, stdout=log,
                                       stderr=subprocess.STDOUT, start_new_session=True))
        log.close()

    def _poll(self, s, results, case_timeout):
        def drain():
            with open(s["of"]) as f:
                f.seek(s["pos"])
                while True:
                    line = f.readline()
                    if not line.endswith("\n"):
                        break
                    s["pos"] += len(line.encode())
                    r = json.loads(line)
                    results[r["id"]] = r
                    s["last"] = time.time()
        # ndjson is ascii, so byte and text offsets agree
        rc = s["proc"].poll()
        drain()
        hung = rc is None and time.time() - s["last"] > case_timeout
        if rc is None and not hung:
            return
        if hung:
            _kill(s["proc"])
            s["proc"].wait()
            drain()
        s["todo"] = [c for c in s["todo"] if c["id"] not in results]
        if rc == 77:
            with open(s["of"] + ".log") as f:
                raise MachineryError("worker: " + f.read()[-3000:])
        if s["todo"]:
            # the first one left is the one that died or hung
            c = s["todo"].pop(0)
            with open(s["of"] + ".log") as f:
                tail = f.read()[-300:]
            results[c["id"]] = dict(id=c["id"], crash="hang" if hung else f"exit {rc}", log=_ascii(tail), case=c)
        _kill(s["proc"])
        shutil.rmtree(s["tmp"], ignore_errors=True)
        s["proc"] = None

    # -------------------------------------------------------------- judging
    def judge(self, module, records, canaries=(), cases=None, timeout=700, heap="6g", workers=8, cfg="", nstates=None):
        """Let TLC judge records with spec/<module>.tla; collect failing clauses.

        canaries: corrupted copies of records, which must be rejected.
        """
        by_id = {}
        lines = []
        for r in records:
            by_id[r["id"]] = r
        if len(by_id) != len(records):
            raise MachineryError("duplicate record ids")
        ok = []
        casemap = {c["id"]: c for c in (cases or [])}
        for r in records:
            if "crash" in r:
                self._add_violation(r["id"], ["implementation-" + str(r["crash"]).replace(" ", "-")], r,
                                    casemap.get(r["id"]) or r.get("case"), module)
            else:
                ok.append(r)
        cans = []
        for i, c in enumerate(canaries):
            c = dict(c)
            c["id"] = f"canary-{i}-{c['id']}"
            cans.append(c)
        all_ = ok + cans
        if not all_:
            return []
        tf = os.path.join(self.work, f"{module}-{len(self.models)}-{int(time.time()*1000)%10**7}.ndjson")

        def run(recs, name):
            path = tf + name
            with open(path, "w") as f:
                for r in recs:
                    f.write(json.dumps(_clean(r)) + "\n")
            return self.tlc(module, "INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n" + cfg, env={"TRACE": path}, timeout=timeout,
                            heap=heap, workers=workers)
        r = run(all_, "")
        if r.rc != 0:
            bad = self._undefined(run, ok) if r.rc in EVAL else None
            if bad is None and cans and r.rc in EVAL:
                # a canary made from a record that is wrong already
                found = self.judge(module, records, (), cases, timeout, heap, workers, cfg, nstates)
                if found:
                    return found
            if bad is None:
                raise MachineryError(f"judge {module} rc={r.rc}:\n{r.out[-3500:]}")
            # the specification gives no meaning to what was observed
            self._add_violation(bad["id"], ["undefined-in-specification"], bad, casemap.get(bad["id"]), module)
            self.validated += len(ok)
            return [self.violations[-1]]
        want = sum(nstates(x) for x in all_) if nstates else 2 * len(all_)
        if r.distinct != want:
            raise MachineryError(f"judge {module}: {r.distinct} states, not {want}, for {len(all_)} records\n{r.out[-2000:]}")
        failed = {}
        for line in r.out.splitlines():
            s = _payload(line, "@@FAIL ")
            if s is not None:
                d = json.loads(s)
                failed.setdefault(d["id"], set()).update(d["fails"])
        ck_log(self, "judge " + module, r)
        before = len(self.violations)
        for i, f in failed.items():
            if i in by_id:
                self._add_violation(i, sorted(f), by_id[i], casemap.get(i), module)
        missed = [c["id"] for c in cans if c["id"] not in failed]
        if missed and len(self.violations) == before:
            raise MachineryError(f"canary accepted by {module}: {missed[:5]}")
        self.validated += len(ok)
        self.notes.setdefault("canaries_rejected", 0)
        self.notes["canaries_rejected"] += len(cans) - len(missed)
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append(dict(module=module, judged=len(ok), failed=len(self.violations) - before))
        if ok and len(self.samples) < 6:
            for x in (ok[0], ok[len(ok) // 2]):
                self.samples.append(_short(x))
        return [v for v in self.violations[before:]]

    def rescue(self, source):
        """Judge what was observed although the check stumbled over it (a broken record spoils its canaries, say)."""
        calls = re.findall(r'ck\.judge\("(\w+)"', source)
        if not self.violations and len(calls) == 1 and self.last and "nstates=" not in source:
            self.judge(calls[0], self.last[0], (), self.last[1])
        return bool(self.violations)

    def _undefined(self, run, recs):
        """A record on which the judging specification cannot be evaluated, if any."""
        n = 0
        while recs:
            n += 1
            half = recs[:(len(recs) + 1) // 2]
            if run(half, f".{n}").rc in EVAL:
                if len(half) == 1:
                    return half[0]
                recs = half
            else:
                recs = recs[len(half):]
        return None

    def _add_violation(self, rid, fails, record, case, module):
        self.violations.append(dict(id=rid, fails=fails, record=record, case=case, module=module))

    # ------------------------------------------------------------ finishing
    def finish(self, level, rule, extra=None, exhaustive=None):
        known = load_findings(self.pid)
        fresh, listed = [], []
        for v in self.violations:
            hit = next((k for k in known if k["match"] in v["id"] and (
                not k["clause"] or set(v["fails"]) <= set(k["clause"].split(",")))), None)
            (listed if hit else fresh).append((v, hit))
        for k in known:
            if any(h is k for _, h in listed):
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated, samples=self.samples[:6],
                   evaluations=self.validated, rule=rule, models=self.models, **self.notes)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        cov.update(extra or {})
        if self.only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                      assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
            tmp = os.path.join(VERIF, "evidence", f".{self.pid}.tmp")
            with open(tmp, "w") as f:
                json.dump(ev, f, indent=1, default=str)
            os.replace(tmp, os.path.join(VERIF, "evidence", f"{self.pid}.json"))
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{self.pid}-{os.getpid()}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                               violations=[v for v, _ in fresh][:40]), f, indent=1, default=str)
            for v, _ in fresh[:12]:
                print(f"  {v['module']}: {v['id']}: {', '.join(map(str, v['fails']))}"[:300])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"OK property={self.pid} tier={self.tier} states={self.states} validated={self.validated} "
              f"wall={time.time()-self.t0:.1f}s")
        return 0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


class TLCResult:
    def __init__(self, module, rc, out, wall):
        out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Computed ")))
        self.module, self.rc, self.out, self.wall = module, rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = ((int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", out)  # simulation mode
        if m and not self.generated:
            self.generated = self.distinct = int(m[-1].replace(",", ""))


def _payload(line, tag):
    line = line.strip()
    if line.startswith('"') and line.endswith('"') and tag in line[:len(tag) + 1]:
        return json.loads(line)[len(tag):]
    if line.startswith(tag):
        return line[len(tag):]
    return None


def _kill(p):
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(p.pid, signal.SIGKILL)
    with contextlib.suppress(Exception):
        p.wait(timeout=10)


def _ascii(s):
    return s.encode("ascii", "replace").decode()


def _clean(o):
    """JSON that TLC's reader accepts: no null, no floats, 32-bit integers."""
    if isinstance(o, dict):
        return {k: _clean(v) for k, v in o.items() if v is not None and k not in ("case", "log")}
    if isinstance(o, (list, tuple)):
        return [_clean(v) for v in o]
    if isinstance(o, bool) or isinstance(o, str):
        return o
    if isinstance(o, int):
        if abs(o) > 2**31 - 1:
            raise MachineryError(f"integer {o} too large for TLC")
        return o
    raise MachineryError(f"cannot send {type(o)} to TLC")


def _short(r, n=700):
    s = json.dumps({k: v for k, v in r.items() if k != "case"}, default=str)
    return s if len(s) <= n else s[:n] + "..."


def load_findings(pid):
    """Known findings: 'finding: property=C99 match=<substring of the case id> [clause=<a,b>] -- text'."""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+)(?: clause=(\S+))? -- (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append(dict(match=m.group(2), clause=m.group(3), what=m.group(4)))
    return out


def ck_log(ck, what, r):
    if os.environ.get("PIMV_VERBOSE"):
        print(f"[{time.time()-ck.t0:6.1f}s] {what}: {getattr(r, 'distinct', r)} {getattr(r, 'wall', 0):.1f}s", flush=True)
