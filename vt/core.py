"""Plumbing shared by all checks: run TLC, run drivers against /repo, judge, report.

A check is a Python module in checks/ with a function run(ctx).  It composes
  ctx.tlc(...)     one TLC run (model checking, behaviour generation or trace validation)
  ctx.drive(...)   one run of a driver (drivers/*.py) on the code in /repo
  ctx.fail(...)    a deviation between code and specification (or a broken model)
and the context turns that into exit status, VIOLATION lines and the evidence file.
"""
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
PY = "/opt/venv/bin/python"
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")


class CheckError(Exception):
    """The machinery itself failed; this is not a verdict on the code."""


def py_env(extra=None):
    env = dict(os.environ)
    env.update(
        PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin",
        PYTHONPATH=f"{REPO}:{VERIF}",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        LANG="C.UTF-8",
        LC_ALL="C.UTF-8",
        TZ="UTC",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    for k, v in (extra or {}).items():
        env[k] = str(v)
    return env


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or (
            rc == 0 and "The number of states generated:" in out)
        if "The number of states generated:" in out:
            g = re.findall(r"The number of states generated: (\d+)", out)
            self.generated = int(g[-1])
        self.records = []
        for line in out.splitlines():
            # TLC!PrintT of a string produced by Json!ToJson
            if line.startswith('"{') or line.startswith('"['):
                try:
                    self.records.append(json.loads(json.loads(line)))
                except ValueError:
                    raise CheckError(f"unparsable record printed by TLC: {line[:200]}")
        self.uncovered = []

    def tail(self, n=40):
        keep = [l for l in self.out.splitlines() if not (l.startswith('"{') or l.startswith('"['))]
        return "\n".join(keep[-n:])


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.tmp = tempfile.mkdtemp(prefix=f"vt-{pid}-")
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.failures = []  # (key, text, payload)
        self.parts = []
        self.assumptions = []
        self.level = "model_checking"
        self.extra_cov = {}
        self.serial = itertools.count()

    # ------------------------------------------------------------------ tools
    def path(self, name):
        return os.path.join(self.tmp, name)

    def tlc(self, spec, cfg=None, env=None, workers=None, timeout=600, args=(), what="", model=False, heap="6g"):
        """Run TLC on specs/<spec>.tla.  model=True: counts into the model-checking totals."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        cfg = cfg or spec
        e = dict(os.environ)
        for k, v in (env or {}).items():
            e[k] = str(v)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock",
               "-metadir", meta, "-workers", str(workers or min(8, os.cpu_count() or 4)), "-config", os.path.join(SPECS, cfg + ".cfg"),
               *args, os.path.join(SPECS, spec + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out after {timeout}s on {spec}/{cfg}")
        r = TlcResult(p.stdout.decode("utf-8", "replace"), p.returncode, time.time() - t)
        shutil.rmtree(meta, ignore_errors=True)
        if model:
            self.states += r.distinct
            self.transitions += r.generated
            self.parts.append(dict(part=what or f"{spec}/{cfg}", kind="model", distinct_states=r.distinct,
                                   states_generated=r.generated, wall_s=round(r.wall, 1)))
        return r

    def model_check(self, spec, cfg=None, env=None, what="", min_states=1, **kw):
        """Check the invariants/properties of a model; a failure here is an error of the
        specification (it does not look at the code), so it is not reported as a violation."""
        r = self.tlc(spec, cfg, env, what=what, model=True, **kw)
        if not r.ok:
            raise CheckError(f"model {spec}/{cfg or spec} does not hold:\n{r.tail()}")
        if r.distinct < min_states:
            raise CheckError(f"model {spec}/{cfg or spec}: only {r.distinct} states")
        return r

    def model_refuted(self, spec, cfg, invariant, what="", **kw):
        """The variant of a model that describes a known mistake must violate the invariant:
        shows that the invariant says something."""
        r = self.tlc(spec, cfg, **kw)
        if f"Invariant {invariant} is violated" not in r.out:
            raise CheckError(f"model {spec}/{cfg} should violate {invariant}:\n{r.tail()}")
        self.parts.append(dict(part=what or cfg, kind="faulty variant of the model refuted", invariant=invariant, distinct_states=r.distinct))
        return r

    def drive(self, driver, out, args=(), env=None, stdin=None, timeout=600):
        """Run a driver on the code under test; it writes ndjson to `out`."""
        cmd = [PY, "-X", "faulthandler", os.path.join(VERIF, "drivers", driver), "--out", out, "--seed", str(self.seed), "--tier", self.tier, *map(str, args)]
        cwd = tempfile.mkdtemp(prefix="drv-", dir=self.tmp)
        try:
            p = subprocess.run(cmd, env=py_env(env), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            # The driver bounds its own work; the code under test hangs.
            self.fail(f"{driver}:hang", f"{driver} {' '.join(map(str, args))}: code under test did not terminate within {timeout}s", {"args": list(map(str, args))})
            return False
        if p.returncode != 0:
            err = p.stderr.decode("utf-8", "replace")
            # On the unchanged tree drivers never fail: what they trip over is what the code did - unless the
            # machine (memory, disk, a kill) or the driver's own bookkeeping is to blame.
            last = err.strip().splitlines()[-1] if err.strip() else ""
            if "VT-DRIVER-BROKEN" in err or p.returncode < 0 and "Fatal Python error" not in err or re.match(r"(MemoryError|OSError|BlockingIOError|PermissionError|SyntaxError)\b", last):
                raise CheckError(f"driver {driver} failed ({p.returncode}):\n{err[-3000:]}")
            self.fail(f"{driver}:crash", f"{driver}: code under test broke the driver: {err.strip().splitlines()[-1] if err.strip() else p.returncode}", {"stderr": err[-3000:]})
            return False
        return True

    def parallel(self, thunks, n=8):
        with ThreadPoolExecutor(n) as ex:
            return [f.result() for f in [ex.submit(t) for t in thunks]]

    def drive_shards(self, driver, name, shards, args=(), env=None, timeout=600):
        """Run `shards` copies of a driver (different --shard) and concatenate their cases."""
        outs = [self.path(f"{name}.{i}.ndjson") for i in range(shards)]
        oks = self.parallel([
            (lambda i=i: self.drive(driver, outs[i], [*args, "--shard", i, "--shards", shards], env=env, timeout=timeout)) for i in range(shards)])
        merged = self.path(f"{name}.ndjson")
        with open(merged, "w") as f:
            for o, ok in zip(outs, oks):
                if os.path.exists(o):
                    with open(o) as g:
                        shutil.copyfileobj(g, f)
                    os.unlink(o)
        return merged

    # ------------------------------------------------- behaviours of the model
    def replay(self, spec, cfg, driver, args=(), env=None, what="", shards=8, min_behaviours=10, timeout=600, **kw):
        """Model-check spec/cfg, which prints every transition (or behaviour) as a JSON record,
        and replay all of them on the code under test."""
        r = self.model_check(spec, cfg, env, what=what, **kw)
        if len(r.records) < min_behaviours:
            raise CheckError(f"model {spec}/{cfg} printed only {len(r.records)} behaviours")
        tag = f"{cfg or spec}.{next(self.serial)}"
        src = self.path(f"{tag}.behaviours.ndjson")
        with open(src, "w") as f:
            for rec in r.records:
                f.write(json.dumps(rec, separators=(",", ":")) + "\n")
        outs = [self.path(f"{tag}.replay.{i}.ndjson") for i in range(shards)]
        self.parallel([(lambda i=i: self.drive(driver, outs[i], ["--replay", src, "--shard", i, "--shards", shards, *args], timeout=timeout)) for i in range(shards)])
        n = bad = 0
        for o in outs:
            if not os.path.exists(o):
                continue
            with open(o) as f:
                for line in f:
                    rec = json.loads(line)
                    if "mismatch" in rec:
                        bad += 1
                        self.fail(rec["key"], f"{what or cfg}: {rec['mismatch']}", rec)
                    else:
                        n += rec["n"]
            os.unlink(o)
        if n < len(r.records) and not self.failures:
            raise CheckError(f"{driver} replayed {n} of {len(r.records)} behaviours")
        self.traces += n - bad
        self.parts.append(dict(part=what or cfg, kind="behaviours of the model replayed on the code", behaviours=len(r.records), replayed=n, rejected=bad))
        if len(self.samples) < 6:
            self.samples.append({"part": what or cfg, "behaviour": r.records[(self.seed * 7919) % len(r.records)]})
        os.unlink(src)
        return r

    def scenarios(self, spec, cfg, driver, args=(), env=None, what="", shards=8, **kw):
        """Model-check spec/cfg, which prints scenarios; run each on the code.  Returns the
        file with the recorded outcomes (to be validated) and the TLC result."""
        r = self.model_check(spec, cfg, env, what=what, **kw)
        tag = f"{cfg or spec}.{next(self.serial)}"
        src = self.path(f"{tag}.scenarios.ndjson")
        with open(src, "w") as f:
            for rec in r.records:
                f.write(json.dumps(rec, separators=(",", ":")) + "\n")
        t = self.drive_shards(driver, tag, shards, ["--scenarios", src, *args])
        return t, r

    # ------------------------------------------------------- trace validation
    def validate(self, spec, trace, cfg=None, env=None, what="", timeout=800, per_case_events=None, sample=True, heap="10g", workers=None, only=None):
        """Trace validation: every case recorded from the code must be a behaviour of the
        specification.  The trace module prints one record per deviation:
        {"fail": <clause>, "case": <1-based line>, "step": <n>, "key": <grouping key>}"""
        with open(trace) as f:
            cases = [l for l in f if l.strip()]
        if not cases:
            if self.failures:
                return None
            raise CheckError(f"empty trace {trace}")
        e = dict(env or {})
        e["TRACE"] = trace
        r = self.tlc(spec, cfg, e, timeout=timeout, heap=heap, workers=workers)
        if not r.ok:
            m = re.search(r"Attempted to .*|.*was not in the domain.*|.*no fields? named.*|.*null.*", r.out)
            if m and "OutOfMemory" not in r.out and "StackOverflow" not in r.out and "Semantic error" not in r.out and "Parsing or semantic" not in r.out:
                # a recorded outcome is not even of the kind the specification describes
                q = re.findall(r"/\\ c = (\d+)", r.out)
                self.fail(f"{spec}: kind of outcome", f"{what or spec}: outcome is of a kind the specification does not know: {m.group(0)[:200]}",
                          {"spec": spec, "tlc": r.tail(), "case": json.loads(cases[int(q[-1]) - 1]) if q and int(q[-1]) <= len(cases) else None})
                return None
            raise CheckError(f"trace validation {spec} failed to run:\n{r.tail()}")
        if r.distinct < len(cases) + 1 and r.distinct < len(cases):
            raise CheckError(f"trace validation {spec}: {r.distinct} states for {len(cases)} cases")
        bad = set()
        undecided = 0
        for rec in r.records:
            undecided += "undecided" in rec
            if "fail" not in rec or (only and not only(rec.get("key") or rec["fail"])):
                continue
            c = json.loads(cases[rec["case"] - 1])
            bad.add(rec["case"])
            self.fail(rec.get("key") or rec["fail"], f"{what or spec}: case {c.get('id', rec['case'])} step {rec.get('step', 0)}: {rec['fail']}",
                      {"spec": spec, "cfg": cfg or spec, "verdict": rec, "case": c})
        if undecided > 0.6 * len(cases):
            raise CheckError(f"{what or spec}: the specification decides only {len(cases) - undecided} of {len(cases)} cases")
        self.traces += len(cases) - len(bad) - undecided
        self.states += r.distinct
        self.transitions += r.generated
        self.parts.append(dict(part=what or spec, kind="trace validation", cases=len(cases), rejected=len(bad), undecided=undecided,
                               distinct_states=r.distinct, wall_s=round(r.wall, 1)))
        if sample and len(self.samples) < 6:
            s = cases[(self.seed * 7919) % len(cases)]
            self.samples.append({"part": what or spec, "case": json.loads(s) if len(s) < 3000 else s[:3000]})
        return r

    # ---------------------------------------------------------------- verdict
    def fail(self, key, text, payload=None):
        self.failures.append((key, text, payload or {}))

    def finish(self):
        known = load_known(self.pid)
        rdir = os.path.join(VERIF, "evidence", "replay")
        hits, fresh = {}, []
        for key, text, payload in self.failures:
            k = next((x for x in known if re.fullmatch(x["match"], key)), None)
            if k is not None:
                hits.setdefault(k["match"], (k, text))
            else:
                fresh.append((key, text, payload))
        for k, text in hits.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']} (e.g. {text[:200]})")
        for k in known:
            if k["match"] not in hits:
                print(f"note: known finding not reproduced in this run: {k['what']}")
        seen = set()
        if fresh:
            os.makedirs(rdir, exist_ok=True)
        n = 0
        for key, text, payload in fresh:
            if key in seen and n >= 5:
                continue
            seen.add(key)
            n += 1
            if n > 12:
                break
            rp = os.path.join(rdir, f"{self.pid}-{n}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "key": key, "what": text, "payload": payload}, f, indent=1)
            print(f"  {text[:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples or ["-"], parts=self.parts)
        cov.update(self.extra_cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        print(f"{self.pid} {self.tier}: {'OK' if not fresh else f'{len(fresh)} deviation(s)'}; {self.states} states, "
              f"{self.traces} behaviours matched against the code, {wall:.1f}s")
        return 1 if fresh else 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [x for x in d.get("known", []) if x["property"] == pid]
