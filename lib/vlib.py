"""Shared machinery: run TLC, judge recorded executions, report, write evidence."""
import contextlib
import json
import math
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
CP = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)

# Codes of observations that are not integers (TLC cannot compare across types)
NAN, PINF, NINF, INEXACT, NONE, BADSHAPE = (2000000001 + i for i in range(6))


class Machinery(Exception):
    """The check itself failed (neither pass nor violation)."""


class OpTimeout(BaseException):
    """An operation of the code under test did not return."""


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise OpTimeout()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


STUCK = []


def attempt(fn, *args, limit=20, **kwargs):
    """Call code under test. Returns (value, '') or (None, error class name)."""
    if len(STUCK) >= 60:
        return None, "DidNotReturn"
    try:
        # (wait less for code that did not return before)
        with time_limit(max(1, limit // 4 ** len(STUCK)) if STUCK else limit):
            return fn(*args, **kwargs), ""
    except OpTimeout:
        STUCK.append(fn)
        return None, "DidNotReturn"
    except Exception as e:  # noqa
        return None, type(e).__name__


def q(x, scale=1, tol=1e-7):
    """Encode a number as an integer multiple of 1 / scale (or an error code)."""
    if x is None:
        return NONE
    try:
        x = float(x)
    except Exception:
        return BADSHAPE
    if math.isnan(x):
        return NAN
    if math.isinf(x):
        return PINF if x > 0 else NINF
    y = x * scale
    r = round(y)
    if abs(y - r) > tol * max(1.0, abs(y)) or abs(r) >= 2000000000:
        return INEXACT
    return int(r)


def qi(x, scale):
    """Encode a number, rounded to the nearest multiple of 1 / scale."""
    try:
        x = float(x)
    except Exception:
        return BADSHAPE
    if math.isnan(x):
        return NAN
    if math.isinf(x) or abs(x * scale) >= 2000000000:
        return PINF if x > 0 else NINF
    return int(round(x * scale))


def qv(a, scale=1, tol=1e-7):
    """Encode a 1-dimensional array."""
    import numpy as np

    try:
        a = np.asarray(a)
        if a.ndim != 1:
            return [BADSHAPE]
        return [q(x, scale, tol) for x in a.tolist()]
    except Exception:
        return [BADSHAPE]


def qm(a, scale=1, tol=1e-7):
    """Encode a 2-dimensional array (as rows)."""
    import numpy as np

    try:
        a = np.asarray(a)
        if a.ndim != 2:
            return [[BADSHAPE]]
        return [[q(x, scale, tol) for x in row] for row in a.tolist()]
    except Exception:
        return [[BADSHAPE]]


def unwrap(line):
    """Parse a TLC-printed JSON string (PrintT(ToJson(x)))."""
    return json.loads(json.loads(line))


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_" + pid + "_")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.behaviours = 0
        self.samples = []
        self.violations = []
        self.known = {}
        self.notes = {}
        self.assumptions = []
        self._n = 0
        self.findings = {}
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    self.findings[m.group(2)] = m.group(3)

    # ---- TLC ----

    def _tlc(self, module, cfg, args=(), timeout=600, workers=1, heap="6g", files=()):
        self._n += 1
        d = os.path.join(self.work, f"{module}_{self._n}")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, text in dict(files).items():
            with open(os.path.join(d, name), "w") as fp:
                fp.write(text)
        with open(os.path.join(d, "run.cfg"), "w") as fp:
            fp.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", CP]
        cmd += ["tlc2.TLC", "-config", "run.cfg", "-workers", str(workers)]
        cmd += ["-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
        cmd += ["-deadlock"] + list(args) + [module + ".tla"]
        out = os.path.join(d, "out.txt")
        with open(out, "w") as fp:
            try:
                rc = subprocess.run(
                    cmd, cwd=d, stdout=fp, stderr=subprocess.STDOUT, timeout=timeout
                ).returncode
            except subprocess.TimeoutExpired:
                raise Machinery(f"TLC timed out on {module}")
        text = open(out, errors="replace").read()
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return rc, text

    @staticmethod
    def _stats(text):
        m = re.findall(
            r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states", text
        )
        if m:
            return tuple(int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"([\d,]+) states checked", text)
        if m:
            return int(m[-1].replace(",", "")), 0
        return 0, 0

    def model(self, module, cfg, timeout=600, workers=8, args=(), count=True):
        """Exhaustively check a model. Returns JSON values it printed."""
        rc, text = self._tlc(module, cfg, args, timeout, workers)
        if rc != 0:
            text = "\n".join(x for x in text.splitlines() if not x.startswith('"'))
            raise Machinery(f"TLC failed on model {module} ({rc}):\n" + text[-3000:])
        gen, distinct = self._stats(text)
        if count:
            self.states += distinct
            self.transitions += gen
        self.notes.setdefault("models", []).append(
            {"module": module, "states": distinct, "transitions": gen}
        )
        return [unwrap(x) for x in text.splitlines() if x.startswith('"')]

    def behaviours_of(self, module, cfg, timeout=600, workers=1, args=()):
        """Check a model and return the behaviours (JSON) it prints."""
        out = self.model(module, cfg, timeout, workers, args)
        self.behaviours += len(out)
        return out

    def judge(self, module, histories, label="", cfg="", timeout=700, sample=None):
        """
        Validate recorded executions against a trace specification.

        Each history is {"kf": str, "ev": [event, ...], ...}.
        The trace specification visits every event of every history, and prints
        the failing clauses of each event (total verdict).
        """
        if not histories:
            raise Machinery(f"No histories for {module} {label}")
        text = json.dumps(histories)
        cfg = (
            "SPECIFICATION TraceSpec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n" + cfg
        )
        rc, out = self._tlc(
            module, cfg, timeout=timeout, workers=8, files={"trace.json": text}
        )
        bad = []
        for line in out.splitlines():
            if line.startswith('"') and "BAD" in line:
                r = unwrap(line)
                bad.append((r["h"] - 1, r["l"] - 1, sorted(r["bad"])))
        gen, distinct = self._stats(out)
        n = sum(len(h["ev"]) for h in histories)
        if rc != 0:
            if "Error:" in out and (
                "evaluat" in out or "Attempted" in out or "nonexistent" in out
            ):
                # Observation outside the domain of the specification
                msg = out[out.index("Error:") :][:2000]
                print(msg)
                bad.append((-1, -1, ["observation outside specification"]))
            else:
                raise Machinery(f"TLC failed on {module} ({rc}):\n" + out[-3000:])
        elif distinct != n + len(histories):
            raise Machinery(
                f"{module}: visited {distinct} states, expected {n + len(histories)}\n"
                + out[-2000:]
            )
        self.states += distinct
        self.transitions += gen
        self.traces += len(histories)
        self.events += n
        k = self.notes.setdefault("judged", [])
        k.append({"module": module, "label": label, "histories": len(histories),
                  "events": n})
        if sample is None:
            sample = histories[len(histories) // 2]
        s = json.dumps(sample)
        if len(s) < 6000:
            self.samples.append(sample)
        else:
            self.samples.append({"label": label, "excerpt": s[:3000]})
        seen = set()
        for h, l, clauses in sorted(bad):
            hist = histories[h] if h >= 0 else {"kf": "", "ev": []}
            kf = hist.get("kf", "")
            if kf and kf in self.findings:
                self.known[kf] = self.findings[kf]
                continue
            # Report the first failing event of each history
            if h in seen:
                continue
            seen.add(h)
            self.violations.append(
                {
                    "module": module,
                    "label": label,
                    "history": h,
                    "event": l,
                    "clauses": clauses,
                    "input": hist if len(json.dumps(hist)) < 200000 else "large",
                    "failing_event": hist["ev"][l] if 0 <= l < len(hist["ev"]) else None,
                }
            )
        return bad

    # ---- Results ----

    def violation(self, clause, detail):
        self.violations.append({"clauses": [clause], "input": detail})

    def finish(self, extra=None):
        level = "model_checking"
        ev = {
            "property": self.pid,
            "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
            "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "behaviours_generated_by_tlc": self.behaviours,
                "samples": self.samples[:8],
                **self.notes,
                **(extra or {}),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
        for key, what in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.pid} {key}: {what}")
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            path = os.path.join(d, self.pid + ".replay.json")
            with open(path, "w") as fp:
                json.dump(self.violations[:20], fp, indent=1)
            for v in self.violations[:5]:
                print("  ", json.dumps({k: v.get(k) for k in (
                    "module", "label", "history", "event", "clauses",
                    "failing_event")})[:1500])
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(
            f"OK property={self.pid} states={self.states} traces={self.traces} "
            f"events={self.events} behaviours={self.behaviours} "
            f"wall={time.time() - self.t0:.1f}s"
        )
        return 0


def main(pid, run):
    c = Check(pid)
    try:
        run(c)
        rc = c.finish()
    except Machinery as e:
        print("MACHINERY:", e)
        rc = 2
    except OpTimeout:
        c.violation("operation did not return", traceback.format_exc())
        rc = c.finish()
    except Exception as e:
        tb = traceback.format_exc()
        print(tb)
        if isinstance(e, (OSError, MemoryError, ImportError, SyntaxError)) and not re.search(
            r'File "/repo/src/glimpse', tb
        ):
            rc = 2
        else:
            # Either the code under test raised where it should have returned,
            # or it returned something that this (deterministic) driver, which
            # completes on the unchanged tree, cannot even record.
            c.violation("observation outside what can be recorded", tb)
            rc = c.finish()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.stdout.flush()
    return rc
