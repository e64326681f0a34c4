"""Shared machinery of the checks: TLC runner, trace validation, verdicts, evidence, known findings."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")      # another tree during development only
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    """The check itself failed (never a verdict about the code)."""


class Ctx:
    """One run of one check."""

    def __init__(self, pid, level, tier, seed):
        self.pid, self.level, self.tier, self.seed = pid, level, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.violations = []      # (clause, detail)
        self.cov = {}             # coverage counters
        self.samples = []
        self.assumptions = []
        self.states = self.transitions = self.traces = 0
        self.notes = {}
        self.clauses = {}         # clause -> number of times it was judged non vacuously
        self.models = []
        kf = json.load(open(os.path.join(VERIF, "known_findings.json")))
        self.known = [k for k in kf["findings"] if k["property"] == pid]
        self.known_hits = {}

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, heap="2g", timeout=600, dfs=False, extra=()):
        """Run TLC on spec/<module>.tla with spec/<cfg>; return its output. Fails on any TLC error but invariants."""
        d = tempfile.mkdtemp(dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=%d" % (4 if workers > 1 else 4), "-Xss64m",
               "-Xmx" + heap, "-cp", TLA_CP,
               "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=1",
               "tlc2.TLC", "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s (%ss)" % (module, timeout))
        shutil.rmtree(d, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, out, gen, dist

    def model_check(self, module, cfg=None, workers=4, heap="4g", timeout=600, env=None, label=None):
        """Exhaustive check of a design model: must pass, else the specification itself is wrong."""
        rc, out, gen, dist = self.tlc(module, cfg or module + ".cfg", workers=workers, heap=heap, timeout=timeout,
                                      env=env)
        if rc != 0:
            raise MachineryError("design model %s rejected by TLC (rc=%s):\n%s" % (module, rc, out[-6000:]))
        if dist < 1:
            raise MachineryError("design model %s explored no state:\n%s" % (module, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": label or module, "distinct_states": dist, "states_generated": gen})
        return out

    def generate(self, module, cfg=None, env=None, timeout=600, heap="4g", workers=1):
        """Let TLC enumerate cases: the module writes JSON to IOEnv.OUT. Returns the parsed JSON."""
        out_path = os.path.join(self.work, "gen-%s-%d.json" % (module, len(self.models)))
        e = {"OUT": out_path}
        e.update(env or {})
        rc, out, gen, dist = self.tlc(module, cfg or module + ".cfg", env=e, heap=heap, timeout=timeout,
                                      workers=workers)
        if rc != 0 or not os.path.exists(out_path):
            raise MachineryError("generator %s failed (rc=%s):\n%s" % (module, rc, out[-6000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": module + " (generator)", "distinct_states": dist, "states_generated": gen})
        txt = open(out_path).read()
        try:
            return json.loads(txt)
        except ValueError:
            return [json.loads(l) for l in txt.splitlines() if l.strip()]

    def judge(self, module, lines, cfg=None, env=None, timeout=600, heap="4g", ntraces=None, describe=None,
              count_clauses=True):
        """Let TLC judge a recorded trace (list of JSON objects). The trace spec is total: it consumes every line and
        writes {"lines": n, "bad": [[line, clause], ...], "seen": {clause: count}} to IOEnv.OUT."""
        if not lines:
            raise MachineryError("empty trace for %s" % module)
        k = len(self.models)
        tpath = os.path.join(self.work, "trace-%s-%d.ndjson" % (module, k))
        opath = os.path.join(self.work, "verdict-%s-%d.json" % (module, k))
        with open(tpath, "w") as f:
            for l in lines:
                f.write(dumps_tla(l) + "\n")
        e = {"TRACE": tpath, "OUT": opath}
        e.update(env or {})
        rc, out, gen, dist = self.tlc(module, cfg or module + ".cfg", env=e, timeout=timeout, heap=heap)
        if rc != 0 or not os.path.exists(opath):
            keep = os.path.join(VERIF, "replays", "failed-%s.ndjson" % module)
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copy(tpath, keep)
            why = rc != 150 and re.search(r"Attempted to [^\n]*|not in the domain[^\n]*|[Oo]verflow[^\n]*|cannot be compared[^\n]*", out)
            if why:     # a record of a shape (or size) that no behaviour of the specification has
                self.violation("unexpected_record", {"module": module, "error": why.group(0), "trace": keep, "tail": out[-1500:]})
                return {"lines": 0, "bad": [], "seen": {}}
            raise MachineryError("trace spec %s failed (rc=%s), trace kept in %s:\n%s" % (module, rc, keep, out[-6000:]))
        v = json.load(open(opath))
        if isinstance(v, list):
            v = v[0]
        if v["lines"] != len(lines):
            raise MachineryError("trace spec %s consumed %s of %s lines" % (module, v["lines"], len(lines)))
        self.states += dist
        self.transitions += gen
        self.traces += ntraces if ntraces is not None else 1
        self.models.append({"model": module, "distinct_states": dist, "states_generated": gen, "lines": len(lines)})
        for c, n in (v.get("seen") or {}).items():
            self.clauses[c] = self.clauses.get(c, 0) + n
        for ln, clause in v["bad"]:
            l = lines[ln - 1]
            ctxl = lines[max(0, ln - 3):ln]
            self.violation(clause, {"module": module, "line": ln, "event": l, "context": ctxl,
                                    "where": describe(l) if describe else l.get("tag")})
        return v

    # ----------------------------------------------------------- verdicts
    def violation(self, clause, detail):
        for k in self.known:
            if k["clause"] == clause and all(_match(detail, p, v) for p, v in k.get("match", {}).items()):
                self.known_hits.setdefault(k["id"], []).append(detail)
                return
        self.violations.append((clause, detail))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def require(self, *clauses):
        """Vacuity guard: every named clause must have been judged at least once on this run."""
        missing = [c for c in clauses if not self.clauses.get(c)]
        if missing:
            if self.violations:
                return
            raise MachineryError("vacuous run, never judged: %s" % missing)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        samples = self.samples or self.models[:3]
        if self.level == "model_checking":
            cov.update({"states": self.states, "transitions": self.transitions,
                        "traces_validated_against_impl": self.traces, "samples": samples})
        else:
            cov.setdefault("samples", samples)
        cov["tlc_runs"] = self.models[:40]
        cov["clauses_judged"] = self.clauses
        cov["violated_clauses"] = sorted({c for c, _ in self.violations})
        if self.known_hits:
            cov["known_findings_seen"] = {k: len(v) for k, v in self.known_hits.items()}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        txt = json.dumps(ev, indent=1, default=str)
        if len(txt) > 60000:
            cov["samples"] = [str(s)[:500] for s in samples[:3]]
            cov["tlc_runs"] = cov["tlc_runs"][:10]
            txt = json.dumps(ev, indent=1, default=str)
        with open(path, "w") as f:
            f.write(txt)
        for k in self.known:
            if k["id"] in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.violations:
            rp = os.path.join(VERIF, "replays")
            os.makedirs(rp, exist_ok=True)
            rpath = os.path.join(rp, "%s.json" % self.pid)
            with open(rpath, "w") as f:
                json.dump([{"clause": c, "detail": d} for c, d in self.violations[:50]], f, indent=1, default=str)
            by = {}
            for c, d in self.violations:
                by.setdefault(c, []).append(d)
            for c, ds in sorted(by.items()):
                print("  clause %-28s failed %d time(s); first: %s" % (c, len(ds), json.dumps(ds[0], default=str)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rpath))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def _match(detail, path, value):
    cur = detail
    for p in path.split("."):
        if not isinstance(cur, dict) or p not in cur:
            return False
        cur = cur[p]
    return cur == value


# ------------------------------------------------------------ JSON for TLC (32-bit integers, no floats, no null)
LIM = 2 ** 31 - 1


def clampint(x):
    return max(-LIM, min(LIM, int(x)))


def fx(x, scale):
    """Fixed point: nearest integer to scale * x; non finite values become the sentinel LIM."""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return LIM
    return clampint(round(x * scale))


def fxs(xs, scale):
    return [fx(x, scale) for x in xs]


def dumps_tla(o):
    def conv(v):
        if isinstance(v, bool):
            return v
        if v is None:
            return "none"
        if isinstance(v, int):
            if abs(v) > LIM:
                raise MachineryError("integer out of TLC range: %r" % v)
            return v
        if isinstance(v, float):
            raise MachineryError("float in a trace: %r" % v)
        if isinstance(v, dict):
            return {str(k): conv(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [conv(x) for x in v]
        if isinstance(v, str):
            return v
        if hasattr(v, "item"):
            return conv(v.item())
        raise MachineryError("cannot serialise %r" % (v,))
    return json.dumps(conv(o))


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


# --------------------------------------------------------------- running code under test
def setup_env():
    os.environ.setdefault("SDL_VIDEODRIVER", "dummy")
    os.environ.setdefault("SDL_AUDIODRIVER", "dummy")
    os.environ["PYGAME_HIDE_SUPPORT_PROMPT"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.WARNING)


class CodeError(Exception):
    """An exception escaped from the code under test: a verdict, not a machinery failure."""


def in_repo(tb):
    """Whether an exception was raised while running code of the repository."""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def call(f, *a, **k):
    """Call into the code under test; returns (value, None) or (None, "ExcType: message")."""
    try:
        return f(*a, **k), None
    except MachineryError:
        raise
    except Exception as e:
        return None, "%s: %s" % (type(e).__name__, str(e)[:200])


def main(pid, level, run):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    setup_env()
    ctx = Ctx(pid, level, tier, seed)
    try:
        try:
            run(ctx)
        except MachineryError:
            raise
        except Exception as e:
            # an exception that escaped from the repository's code is a verdict about this code
            if in_repo(e.__traceback__):
                ctx.violation("raises", {"exception": "%s: %s" % (type(e).__name__, e),
                                         "trace": traceback.format_exc()[-3000:]})
            else:
                raise
        rc = ctx.finish()
    except MachineryError as e:
        if ctx.violations:
            # violations already established stand, whatever happened to the rest of the run
            print("note: the run was cut short: %s" % str(e)[:500])
            sys.exit(ctx.finish())
        print("MACHINERY ERROR: %s" % e)
        shutil.rmtree(ctx.work, ignore_errors=True)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            sys.exit(ctx.finish())
        shutil.rmtree(ctx.work, ignore_errors=True)
        sys.exit(2)
    print("%s %s: %s (%.1fs, %d distinct TLC states, %d traces)" % (
        pid, tier, "held on everything explored" if rc == 0 else "VIOLATED", time.time() - ctx.t0, ctx.states, ctx.traces))
    sys.exit(rc)
