"""Check definition, case encoding, and the per-shard search loop."""
import base64
import errno
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Optional


class Violation(Exception):
    """The property does not hold for the case being run. `key` classifies it (see known_findings.json)."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The check itself could not run (never reported as a violation)."""


class CaseTimeout(BaseException):
    """A single case ran for far longer than any case does."""


@dataclass
class Outcome:
    nontrivial: bool
    labels: list = field(default_factory=list)


@dataclass
class Check:
    id: str
    strategy: Callable[[], Any]
    run: Callable[[Any, Any], Outcome]
    rule: str
    quick: int
    thorough: int
    level: str = "exploration"
    examples: Callable[[], list] = lambda: []
    context: Optional[Callable[[str], Any]] = None
    shards: int = 6
    batch: int = 200
    case_limit: int = 150       # seconds; generous, only ever hit by a genuine hang
    quick_budget: float = 150.0
    thorough_budget: float = 700.0
    assumptions: list = field(default_factory=list)
    exhaustive_examples: Optional[Callable[[str], list]] = None   # enumerated cases, split over the shards


# -- case encoding ------------------------------------------------------------------------------

def enc(x):
    if isinstance(x, bytes):
        return {"__b64__": base64.b64encode(x).decode()}
    if isinstance(x, (list, tuple)):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {"__d__": [[enc(k), enc(v)] for k, v in x.items()]} if any(not isinstance(k, str) for k in x) else {k: enc(v) for k, v in x.items()}
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(i) for i in x]
    if isinstance(x, dict):
        if "__b64__" in x:
            return base64.b64decode(x["__b64__"])
        if "__d__" in x:
            return {dec(k): dec(v) for k, v in x["__d__"]}
        return {k: dec(v) for k, v in x.items()}
    return x


def dumps(case):
    return json.dumps(enc(case), sort_keys=True, ensure_ascii=True)


def blob(b):
    """Expands a blob description: raw bytes, or ['fill', n, s] = n pseudo-random bytes derived from s."""
    if isinstance(b, (bytes, bytearray)):
        return bytes(b)
    kind, n, s = b
    if kind == "fill":
        unit = hashlib.sha256(str(s).encode()).digest() + bytes(range(256))
        return (unit * (n // len(unit) + 1))[:n]
    if kind == "rep":
        return (bytes([s % 256]) * n)
    if kind == "lines":
        out = b"".join(b"line %d of %d\n" % (i, s) for i in range(n // 8 + 1))
        return out[:n]
    raise HarnessError(f"bad blob {b!r}")


# -- known findings -----------------------------------------------------------------------------

def load_known(pid):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["key"]: e["what"] for e in data.get("findings", []) if e["property"] == pid}


ENV_ERRNOS = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM}


class Shard:
    """Runs a share of a check's cases and collects measurements."""

    def __init__(self, check: Check, tier: str, seed: int, index: int, count: int, budget: float):
        self.check, self.tier, self.seed, self.index, self.count = check, tier, seed, index, count
        self.deadline = time.monotonic() + budget
        self.known = load_known(check.id)
        self.evaluations = 0
        self.hashes = set()
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self.failure = None          # (case, message, trace)
        self.known_hit = {}
        self.shrink_deadline = None
        self.ctx = None
        self.scratch = tempfile.mkdtemp(prefix=f"vf-{check.id}-{index}-")
        os.chmod(self.scratch, 0o755)
        self.harness_error = None

    # context handling: a context that a failing case may have damaged is thrown away
    def _context(self):
        if self.ctx is None and self.check.context is not None:
            self.ctx = self.check.context(self.scratch)
        return self.ctx if self.ctx is not None else self.scratch

    def drop_context(self):
        if self.ctx is not None:
            ctx, self.ctx = self.ctx, None
            try:
                ctx.close()
            except BaseException:
                pass

    def run_case(self, case):
        """Returns None or a (message, key, trace) triple."""
        def on_alarm(*_):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(self.check.case_limit)
        try:
            ctx = self._context()
            out = self.check.run(case, ctx)
            signal.alarm(0)
        except HarnessError:
            signal.alarm(0)
            raise
        except Violation as e:
            signal.alarm(0)
            self.drop_context()
            return (str(e), e.key, traceback.format_exc())
        except CaseTimeout:
            self.drop_context()
            return (f"no answer within {self.check.case_limit} s (hang)", "hang", traceback.format_exc())
        except MemoryError as e:
            raise HarnessError("out of memory") from e
        except KeyboardInterrupt:
            raise
        except BaseException as e:  # pylint: disable=broad-except
            signal.alarm(0)
            self.drop_context()
            if isinstance(e, OSError) and e.errno in ENV_ERRNOS:
                raise HarnessError(f"environment: {e}") from e
            return (f"unexpected {type(e).__name__}: {e}", f"exc:{type(e).__name__}", traceback.format_exc())
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self._account(case, out)
        return None

    def _account(self, case, out):
        if out is None:
            out = Outcome(False)
        h = hashlib.sha1(dumps(case).encode()).hexdigest()
        self.evaluations += 1
        self.hashes.add(h)
        for lab in out.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if out.nontrivial:
            if h not in self.nontrivial_hashes and len(self.samples) < 4 and len(dumps(case)) < 3000:
                self.samples.append(enc(case))
            self.nontrivial_hashes.add(h)

    def _handle(self, case, res):
        """Returns True when the result is an unlisted violation."""
        if res is None:
            return False
        msg, key, trace = res
        if key is not None and key in self.known:
            self.evaluations += 1
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return False
        self.evaluations += 1
        size = len(dumps(case))
        if self.failure is None or size < len(dumps(self.failure[0])):
            self.failure = (case, msg, trace)
        if self.shrink_deadline is None:
            self.shrink_deadline = time.monotonic() + (5 if key == "hang" else 40)
        return True

    def go(self):
        try:
            self._go()
        finally:
            self.drop_context()
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _go(self):
        check = self.check
        # 1. fixed regression cases (shard 0) and enumerated cases (split)
        fixed = check.examples() if self.index == 0 else []
        if check.exhaustive_examples is not None:
            fixed = fixed + check.exhaustive_examples(self.tier)[self.index::self.count]
        for case in fixed:
            case = dec(json.loads(dumps(case)))
            if self._handle(case, self.run_case(case)):
                return
            if time.monotonic() > self.deadline:
                return
        total = check.quick if self.tier == "quick" else check.thorough
        mine = (total + self.count - 1) // self.count
        if mine <= 0:
            return
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        strat = check.strategy()
        done = 0
        batch_no = 0
        while done < mine and time.monotonic() < self.deadline:
            n = min(check.batch, mine - done)

            @hypothesis.seed((self.seed * 1000003 + self.index * 7919 + batch_no * 104729) & 0xffffffff)
            @settings(max_examples=n, deadline=None, database=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)
            @given(strat)
            def prop(case):
                if self.shrink_deadline is not None and time.monotonic() > self.shrink_deadline:
                    return
                case = dec(json.loads(dumps(case)))
                if self.failure is None and time.monotonic() > self.deadline:
                    return
                if self._handle(case, self.run_case(case)):
                    raise AssertionError("violation")
            try:
                prop()
            except HarnessError:
                raise
            except BaseException as e:  # pylint: disable=broad-except
                if self.failure is None:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    cause = e
                    while cause is not None:
                        if isinstance(cause, HarnessError):
                            raise cause
                        cause = cause.__cause__ or cause.__context__
                    raise HarnessError(f"search loop: {type(e).__name__}: {e}") from e
            if self.failure is not None:
                return
            done += n
            batch_no += 1

    def result(self):
        return {
            "evaluations": self.evaluations,
            "hashes": sorted(self.hashes),
            "nontrivial": sorted(self.nontrivial_hashes),
            "labels": self.labels,
            "samples": self.samples,
            "known_hit": self.known_hit,
            "failure": None if self.failure is None else {"case": enc(self.failure[0]), "message": self.failure[1], "trace": self.failure[2]},
            "error": self.harness_error,
        }
