"""
Driver for the generated checks.

A property module (hv/props/pNN.py) exposes

    RULE   text: how cases are made and what makes one non-trivial
    SUBS   list of Sub: a named strategy producing *plain JSON data* (the case)
           and a function run(case, env) which interprets the case against
           the code in /repo and an explicit oracle.

run() returns a dict {"nontrivial": bool, "labels": [...]}, or raises Violation.
Because a case is plain data, a shrunk failure is written as a JSON replay file and
`run.py ID --replay FILE` runs it again without Hypothesis.
"""

import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import sqlite3
import sys
import tempfile
import time
import traceback
import zlib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PKG = os.path.join(os.path.realpath(REPO), "hyperreal") + os.sep


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        # identity of a recorded finding, see known_findings.jsonl
        self.key = key


class BudgetExceeded(BaseException):
    pass


class ShrinkTimeout(BaseException):
    pass


class Hang(BaseException):
    pass


class HarnessError(Exception):
    pass


def expect(cond, message, key=None):
    if not cond:
        raise Violation(message, key)


def short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + f"...({len(s)} chars)"


def expect_eq(got, want, what, key=None):
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}", key)


def in_repo(exc):
    """True if the exception came out of the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO_PKG):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


class Sub:
    def __init__(self, name, strategy, run, quick, thorough=None, shards=None, hang=150):
        self.name = name
        self.strategy = strategy  # zero-argument callable returning a strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.shards = shards  # at most this many shards run it
        self.hang = hang


class Env:
    """Scratch space and helpers for one shard."""

    def __init__(self, prop, tier, seed, shard):
        self.prop, self.tier, self.seed, self.shard = prop, tier, seed, shard
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix=f"hv-{prop}-", dir=base)
        # anything the code under test creates through tempfile stays in here too
        self.tmp = os.path.join(self.base, "tmp")
        os.mkdir(self.tmp)
        tempfile.tempdir = self.tmp
        os.environ["TMPDIR"] = self.tmp
        self.n = 0
        self.cleanups = []
        self.persistent = {}

    def fresh(self):
        self.n += 1
        d = os.path.join(self.base, f"case{self.n}")
        os.mkdir(d)
        return d

    def end_case(self):
        for fn in reversed(self.cleanups):
            try:
                fn()
            except Exception:
                pass
        self.cleanups.clear()
        d = os.path.join(self.base, f"case{self.n}")
        if self.n and os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)

    def close(self):
        for obj, closer in self.persistent.values():
            try:
                closer(obj)
            except Exception:
                pass
        if os.path.basename(self.base).startswith("hv-"):
            shutil.rmtree(self.base, ignore_errors=True)


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    rec = json.loads(line)
                    if rec.get("property") == prop and rec.get("status") == "known":
                        out.append(rec)
    return out


def _alarm(signum, frame):
    raise Hang()


def run_case(sub, case, env):
    """Run one case. Returns (info, failure) where failure is None or (message, key, tb)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.hang)
    try:
        info = sub.run(case, env)
        return info or {}, None
    except Violation as v:
        return {}, (v.message, v.key, traceback.format_exc())
    except Hang:
        return {}, (
            f"no result after {sub.hang} s for a case that normally takes well under a second",
            "hang",
            traceback.format_exc(),
        )
    except (BudgetExceeded, ShrinkTimeout, KeyboardInterrupt):
        raise
    except Exception as e:
        if in_repo(e):
            return {}, (
                f"unexpected {type(e).__name__} on a valid input: {short(str(e))}",
                None,
                traceback.format_exc(),
            )
        if isinstance(e, UNREADABLE):
            # never happens with correct results, so the results are not what they should be
            return {}, (
                f"results that cannot be interpreted: {type(e).__name__} {short(str(e))}",
                None,
                traceback.format_exc(),
            )
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        env.end_case()


# Raised by the comparison itself when the code under test returns something of another shape.
UNREADABLE = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, StopIteration, sqlite3.Error)

SHRINK_SECONDS = {"quick": 45, "thorough": 240}


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.per_sub = collections.Counter()
        self.sub_seconds = collections.Counter()
        self.known_hits = collections.Counter()
        self.budget_hit = False

    def add(self, sub, case, text, info):
        self.evaluations += 1
        self.per_sub[sub.name] += 1
        for lab in info.get("labels", ()):
            self.labels[f"{sub.name}:{lab}"] += 1
        if info.get("nontrivial"):
            h = hashlib.sha1((sub.name + text).encode()).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                self.labels[f"{sub.name}:nontrivial"] += 1
                have = sum(1 for s in self.samples if s["sub"] == sub.name)
                if have < 1 and len(text) < 3000:
                    self.samples.append({"sub": sub.name, "case": case})

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "nontrivial": sorted(self.nontrivial),
            "labels": dict(self.labels),
            "samples": self.samples,
            "per_sub": dict(self.per_sub),
            "sub_seconds": dict(self.sub_seconds),
            "known_hits": dict(self.known_hits),
            "budget_hit": self.budget_hit,
        }


def run_sub(sub, n, env, rec, known_keys, deadline, seed, skip_first=False):
    """Search for a failing case. Returns None or a failure dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    best = {}
    state = {"shrink_until": None, "skip": skip_first}

    def body(case):
        if state["skip"]:
            # Hypothesis starts with the simplest case: one shard is enough for that
            state["skip"] = False
            return
        now = time.monotonic()
        if state["shrink_until"] is None:
            if now > deadline:
                rec.budget_hit = True
                raise BudgetExceeded()
        elif now > state["shrink_until"]:
            raise ShrinkTimeout()
        text = canonical(case)
        case = json.loads(text)
        info, failure = run_case(sub, case, env)
        if failure is not None and failure[1] is not None and failure[1] in known_keys:
            rec.known_hits[failure[1]] += 1
            failure = None
        if state["shrink_until"] is None:
            rec.add(sub, case, text, info)
        if failure is not None:
            if state["shrink_until"] is None:
                state["shrink_until"] = now + SHRINK_SECONDS[env.tier]
            if not best or len(text) <= len(best["text"]):
                best.update(
                    text=text, case=case, message=failure[0], key=failure[1], tb=failure[2]
                )
            if failure[1] == "hang":
                raise ShrinkTimeout()
            raise Violation(failure[0])

    test = given(sub.strategy())(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n + skip_first,
        deadline=None,
        database=None,
        derandomize=False,
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        print_blob=False,
    )(test)
    try:
        test()
    except BudgetExceeded:
        pass
    except BaseException:
        if not best:
            raise
    if best:
        return {
            "sub": sub.name,
            "case": best["case"],
            "message": best["message"],
            "key": best["key"],
            "traceback": best["tb"],
        }
    return None


def load_prop(prop):
    return importlib.import_module(f"hv.props.{prop.lower()}")


def sub_by_name(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise HarnessError(f"no sub check {name}")


def shard_main(prop, tier, seed, shard, shards, out_path, budget):
    start = time.monotonic()
    cov = None
    if os.environ.get("VERIF_COVERAGE"):  # a folder, see tools/coverage
        import coverage

        cov = coverage.Coverage(
            data_file=os.path.join(os.environ["VERIF_COVERAGE"], f"cov.{prop}.{shard}"), branch=True,
            include=[REPO_PKG + "*"], config_file=False,
        )
        cov.start()
    mod = load_prop(prop)
    env = Env(prop, tier, seed, shard)
    rec = Recorder()
    result = {"failure": None, "error": None}
    known = load_known(prop)
    known_keys = {k["key"] for k in known}
    deadline = start + budget
    try:
        # Saved regression cases first, spread over the shards
        reg_dir = os.path.join(VERIF, "regress", prop)
        names = sorted(os.listdir(reg_dir)) if os.path.isdir(reg_dir) else []
        for i, name in enumerate(names):
            if i % shards != shard or not name.endswith(".json"):
                continue
            with open(os.path.join(reg_dir, name)) as f:
                saved = json.load(f)
            sub = sub_by_name(mod, saved["sub"])
            info, failure = run_case(sub, saved["case"], env)
            rec.add(sub, saved["case"], canonical(saved["case"]), info)
            rec.labels["regression-replays"] += 1
            if failure is not None and failure[1] in known_keys and failure[1] is not None:
                rec.known_hits[failure[1]] += 1
                failure = None
            if failure is not None:
                result["failure"] = {
                    "sub": sub.name,
                    "case": saved["case"],
                    "message": failure[0],
                    "key": failure[1],
                    "traceback": failure[2],
                }
                break
        if result["failure"] is None:
            only = os.environ.get("VERIF_SUB")
            for sub in mod.SUBS:
                if only and sub.name != only:
                    continue
                total = sub.quick if tier == "quick" else sub.thorough
                k = min(shards, sub.shards or shards)
                # rotate so that rarely sharded subs do not all land on shard 0
                slot = (shard - zlib.crc32(sub.name.encode())) % shards
                if slot >= k:
                    continue
                n = total // k + (1 if slot < total % k else 0)
                if n <= 0:
                    continue
                sub_seed = (seed * 1000003 + zlib.crc32(f"{prop}/{sub.name}".encode()) + slot * 7919) % (1 << 48)
                t0 = time.monotonic()
                failure = run_sub(sub, n, env, rec, known_keys, deadline, sub_seed, skip_first=slot > 0)
                rec.sub_seconds[sub.name] += time.monotonic() - t0
                if failure is not None:
                    result["failure"] = failure
                    break
    except BaseException:
        result["error"] = traceback.format_exc()
    finally:
        env.close()
    if cov is not None:
        cov.stop()
        cov.save()
    result.update(rec.dump())
    result["wall"] = time.monotonic() - start
    with open(out_path + ".part", "w") as f:
        json.dump(result, f)
    os.replace(out_path + ".part", out_path)
