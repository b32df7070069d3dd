"""P04: indexing replaces the index contents all or nothing."""
import os
import shutil

from hypothesis import strategies as st

from hv import editing, faults, gen
from hv.core import Sub, Violation, expect, expect_eq
from hv.util import MemCorpus, open_index, pool, raw, short

TECHNIQUE = "fault, kill and read injection at every point of generated indexing runs (Hypothesis)"
LEVEL = "fault_enumeration"
RULE = (
    "Generated old corpus with a model (possibly an empty index) and new corpus, batch size, positions and schedule. "
    "The run is repeated from a copy of the old index with a failure injected at every database statement, every "
    "background task (error or broken pool) and every document of the corpus, with the process killed (forked child) "
    "before every statement, and with a second connection reading before every statement. The stored contents read "
    "through a fresh connection must equal the dump before the run or after an undisturbed run; then indexing is "
    "repeated and must give the undisturbed result. Non-trivial: old and new contents differ and at least 5 points "
    "were tried."
)
ASSUMPTIONS = [
    "A failing statement fails before it takes effect; pragma, savepoint, rollback, release and detach statements "
    "are kill and read points but not failure points.",
    "A killed process is modelled by _exit of a forked process: loss of power or of the operating system's buffers is "
    "left to SQLite.",
    "Background processes are modelled by an in-process pool, except in the sub-check realpool.",
]

CORPUS = gen.small_corpus(5, mixed=False, min_docs=1)


def case_st(corpus=CORPUS, empty=True):
    return st.fixed_dictionaries(
        {
            "old": st.integers(0, 6).flatmap(lambda n: corpus if n else st.none()),
            "old_positions": st.booleans(),
            "ops": editing.ops_st(0, 3, ["init", "create", "pinf", "pinc"]).flatmap(
                lambda ops: editing.XS.map(lambda xs: [["init", xs]] * (xs[0] % 4 > 0) + [list(o) for o in ops])
            ),
            "new": st.integers(0, 8).flatmap(lambda n: corpus if n or not empty else st.just({"keys": "seq", "docs": []})),
            "batch": st.integers(1, 4),
            "positions": st.booleans(),
            "wd": st.booleans(),
            "sched": gen.sched(),
            "skip": st.integers(0, 1000),
        }
    )


class Setup:
    """The old index, and the dump of it and of the result of an undisturbed run."""

    def __init__(self, case, env):
        self.case, self.env = case, env
        self.d = env.fresh()
        self.base = os.path.join(self.d, "base.db")
        self.path = os.path.join(self.d, "i.db")
        self.wd = None
        if case["wd"]:
            self.wd = os.path.join(self.d, "wd")
            os.mkdir(self.wd)
        self.new_docs = gen.expand(case["new"])
        old_docs = gen.expand(case["old"]) if case["old"] else []
        idx = open_index(env, self.base, MemCorpus(old_docs), case["sched"], seed=1)
        if case["old"] is not None:
            idx.index(doc_batch_size=case["batch"], index_positions=case["old_positions"])
            from hv.util import features

            fids = sorted(features(idx))
            for op, xs in case["ops"]:
                r = editing.resolve(op, xs, fids, idx.cluster_ids)
                if r:
                    editing.call(idx, r)
        idx.close()
        self.old = faults.snapshot(self.base)
        # undisturbed run
        idx = self.open()
        proxy = faults.install(idx, self.note)
        self.statements = []
        self.run(idx)
        self.tasks = idx.pool.submitted
        faults.uninstall(idx)
        idx.close()
        self.check_temp("an undisturbed run")
        self.new = faults.snapshot(self.path)

    def note(self, n, sql):
        self.statements.append(sql)

    def open(self, fault=None, fail_at=None):
        faults.copy_db(self.base, self.path)
        return self.reopen(fault, fail_at)

    def reopen(self, fault=None, fail_at=None):
        s = self.case["sched"]
        p = pool.SchedPool(s["workers"], s["choices"], fail_at)
        return open_index(self.env, self.path, MemCorpus(self.new_docs, fault), pool_obj=p)

    def run(self, idx):
        idx.index(
            doc_batch_size=self.case["batch"], index_positions=self.case["positions"], working_dir=self.wd
        )

    def check_temp(self, what):
        dirs = [self.env.tmp] + ([self.wd] if self.wd else [])
        for x in dirs:
            expect(os.path.isdir(x), f"{what}: the directory {os.path.basename(x)} itself was removed")
        left = faults.leftovers(*dirs)
        expect_eq([os.path.relpath(x, self.env.base) for x in left], [], f"{what}: temporary files left behind")
        extra = sorted(
            x for x in os.listdir(self.d) if x not in ("base.db", "wd") and not x.startswith("i.db")
        )
        expect_eq(extra, [], f"{what}: files left next to the index")

    def clear_temp(self):
        for x in [self.env.tmp] + ([self.wd] if self.wd else []):
            for y in os.listdir(x):
                shutil.rmtree(os.path.join(x, y), ignore_errors=True)
                if os.path.exists(os.path.join(x, y)):
                    os.remove(os.path.join(x, y))

    def check_state(self, what, got=None):
        got = got if got is not None else faults.snapshot(self.path)
        if got != self.old and got != self.new:
            raise Violation(
                f"{what}: the index is neither the old one ({faults.diff(got, self.old)}) "
                f"nor the new one ({faults.diff(got, self.new)})"
            )
        return got == self.new

    def check_usable(self, what, idx):
        try:
            self.run(idx)
        except Exception as e:
            raise Violation(f"{what}: indexing again raised {type(e).__name__}: {e}")
        got = faults.snapshot(self.path)
        if got != self.new:
            raise Violation(f"{what}: indexing again gave {faults.diff(got, self.new)}")

    def label(self, n):
        return {
            "nontrivial": self.old != self.new and n >= 5,
            "labels": ["model"] * bool(self.old["cluster"])
            + ["from-empty"] * (self.case["old"] is None)
            + ["changed"] * (self.old != self.new),
        }


def run_faults(case, env):
    s = Setup(case, env)
    points = [
        ("statement", n) for n, sql in enumerate(s.statements) if not faults.is_control(sql)
    ]
    points += [("interrupt", n) for _, n in points]
    points += [("task-error", n) for n in range(s.tasks)] + [("pool-broken", n) for n in range(s.tasks)]
    points += [("corpus-" + at, n) for at in ("keys", "docs", "index") for n in range(len(s.new_docs))]
    points = faults.spread(points, 60 if env.tier == "quick" else 200, case["skip"])
    labels = []
    for kind, n in points:
        fault, fail_at, hook = None, None, None
        what = f"failure at {kind} {n}"
        if kind in ("statement", "interrupt"):
            hook = faults.failing(n, kind == "interrupt")
            what += f" ({' '.join(s.statements[n].split())[:60]})"
        elif kind == "task-error":
            fail_at = {n: "error"}
        elif kind == "pool-broken":
            fail_at = {n: "broken"}
        else:
            fault = {"at": kind.split("-")[1], "n": n}
        idx = s.open(fault, fail_at)
        if hook:
            faults.install(idx, hook)
        try:
            s.run(idx)
            failed = False
        except (Exception, KeyboardInterrupt):
            failed = True
        faults.uninstall(idx)
        idx.pool.drain()
        expect_eq(
            idx.pool.lost, 0,
            f"{what}: unfinished background batches, started after the run had ended, that end their worker process",
        )
        s.check_temp(what)
        is_new = s.check_state(what)
        if not failed:
            expect(is_new, f"{what}: no error was reported but the contents are the old ones")
        else:
            labels.append(kind.split("-")[0] + "-failure")
        expect(not idx.db.in_transaction, f"{what}: a transaction was left open")
        s.check_state(what + ", same connection", faults.snapshot(idx.db))
        # and again, by the same object and a working corpus and pool
        idx.corpus = MemCorpus(s.new_docs)
        idx.pool.repair()
        s.check_usable(what, idx)
        idx.close()
    info = s.label(len(points))
    info["labels"] += sorted(set(labels))
    return info


class KillCorpus(MemCorpus):
    """Ends the process when it reaches a document."""

    def index(self, doc):
        if self.fault and self._docs[self.fault["n"]][0] == doc["key"]:
            os._exit(77)
        return super().index(doc)


def run_kills(case, env):
    s = Setup(case, env)
    points = [("statement", n) for n in range(len(s.statements))]
    points += [("document", n) for n in range(len(s.new_docs))]
    points = faults.spread(points, 24 if env.tier == "quick" else 200, case["skip"])
    outcomes = set()
    for kind, n in points:
        faults.copy_db(s.base, s.path)

        def child():
            idx = s.reopen()
            if kind == "statement":
                faults.install(idx, faults.killing(n))
            else:
                idx.corpus = KillCorpus(s.new_docs, {"at": "kill", "n": n})
            s.run(idx)

        code = faults.in_child(child)
        what = f"killed at {kind} {n}"
        if kind == "statement":
            what += f" ({' '.join(s.statements[n].split())[:60]})"
        expect_eq(code, 77, f"{what}: exit status")
        s.clear_temp()
        outcomes.add("new" if s.check_state(what) else "old")
        idx = s.reopen()
        s.check_state(what + ", opened again", faults.snapshot(idx.db))
        s.check_usable(what, idx)
        idx.close()
        s.check_temp(what + " and indexed again")
    info = s.label(len(points))
    info["labels"] += [f"killed-{o}" for o in outcomes]
    return info


def answers(idx):
    fs = idx.indexed_field_summary()
    return [
        idx.cluster_ids,
        [(c, n, sorted(f)) for c, n, f in idx.top_cluster_features(top_k=2**62)],
        sorted(fs),
        [sorted(idx[f]) for f in range(1, 12)],
        sorted(idx.pinned_cluster_ids),
    ]


def run_reader(case, env):
    """A second connection reads before every statement and in every corpus callback."""
    s = Setup(case, env)
    new = open_index(env, s.path)
    new_answers = answers(new)
    new.close()
    idx = s.open()
    reader = raw(s.path)
    env.cleanups.append(reader.close)
    # Another user of the index, who just edited the model.
    user = open_index(env, s.path)
    user.db.execute("pragma busy_timeout=0")
    pins = user.db.execute("select feature_id, pinned from feature_cluster").fetchall()
    for f, pinned in pins[:1]:
        user.pin_features([f], pinned=bool(pinned))
    old_answers = answers(user)
    seen = []
    looks = [0]

    def look(what):
        looks[0] += 1
        if looks[0] % 5 == case["skip"] % 5:
            try:
                got = answers(user)
            except Exception as e:
                raise Violation(f"reading {what}: {type(e).__name__}: {e}")
            for n, a in enumerate(got):
                expect(
                    a in (old_answers[n], new_answers[n]),
                    f"reading {what}: answered {short(a)}, old contents {short(old_answers[n])}, new contents {short(new_answers[n])}",
                )
        got = faults.snapshot(reader)
        is_new = s.check_state(f"reading {what}", got)
        if s.old != s.new:
            expect(is_new or not (seen and seen[-1]), f"reading {what}: the old contents returned")
            seen.append(is_new)

    class Watched(MemCorpus):
        def keys(self):
            for k in super().keys():
                look(f"while the key {k!r} is read")
                yield k

    idx.corpus = Watched(s.new_docs)
    Watched.__reduce__ = lambda self: (MemCorpus, (self._docs,))
    faults.install(
        idx, lambda n, sql: look(f"before statement {n} ({' '.join(sql.split())[:60]})")
    )
    s.run(idx)
    faults.uninstall(idx)
    expect(s.check_state("after the run"), "after the run: old contents")
    return s.label(len(s.statements))


class ExitCorpus(MemCorpus):
    """Kills the worker process, or fails slowly, at one document."""

    def index(self, doc):
        if self.fault and self._docs[self.fault["n"]][0] == doc["key"]:
            if self.fault["at"] == "exit":
                os._exit(1)
        return super().index(doc)


def run_real(case, env):
    """Real background processes: one dies, or the corpus fails while they work."""
    import concurrent.futures as cf
    import multiprocessing

    with pool.real_manager():
        s = Setup(dict(case, sched={"workers": 2, "choices": [0]}), env)
        if not s.new_docs:
            return {"nontrivial": False, "labels": []}
        n = case["skip"] % len(s.new_docs)
        labels = []
        for at in ("exit", "index", "keys"):
            faults.copy_db(s.base, s.path)
            p = cf.ProcessPoolExecutor(2, mp_context=multiprocessing.get_context("spawn"))
            try:
                idx = open_index(env, s.path, ExitCorpus(s.new_docs, {"at": at, "n": n}), pool_obj=pool.Switch(p))
                what = f"{at} failure at document {n} in a real process"
                try:
                    s.run(idx)
                    expect(False, f"{what}: no error was reported")
                except Violation:
                    raise
                except Exception:
                    labels.append(at)
            finally:
                p.shutdown(wait=True)
            s.check_temp(what)
            s.check_state(what)
            idx.pool.current = pool.SchedPool(2)
            idx.corpus = MemCorpus(s.new_docs)
            s.check_usable(what, idx)
            idx.close()
    info = s.label(5)
    info["labels"] += labels
    return info


def run_inflight(case, env):
    """The corpus fails while many batches are queued and running in real processes."""
    import concurrent.futures as cf

    with pool.real_manager():
        d = env.fresh()
        wd = os.path.join(d, "wd")
        os.mkdir(wd)
        p = pool.real_pool(env, 4)
        docs = [
            (k, {"text": ["L", [f"w{k}-{i % 100}" for i in range(case["length"])]]}) for k in range(case["docs"])
        ]
        n = case["fail"] % len(docs)
        what = f"keys failing at document {n} of {len(docs)}"
        for rep in range(3):
            idx = open_index(env, os.path.join(d, f"i{rep}.db"), MemCorpus(docs, {"at": "keys", "n": n}), pool_obj=p)
            try:
                idx.index(doc_batch_size=case["batch"], working_dir=wd, workers=case["workers"])
                expect(False, f"{what}: no error was reported")
            except OSError as e:
                expect("injected" in str(e), f"{what}: raised {type(e).__name__}: {e}")
            expect_eq(faults.leftovers(wd), [], f"{what}: temporary files left behind")
            idx.corpus = MemCorpus(docs[:3])
            try:
                p.submit(len, "abc").result(timeout=40)
                idx.index()
            except (cf.BrokenExecutor, cf.TimeoutError) as e:
                env.persistent.pop(("pool", 4), None)
                for proc in list((p._processes or {}).values()):
                    proc.kill()
                p.shutdown(wait=False, cancel_futures=True)
                raise Violation(f"{what}: background processes are unusable afterwards: {type(e).__name__}")
            expect_eq(sorted(idx[("text", "w1-0")]), [1], f"{what}: indexing again")
            idx.close()
    return {"nontrivial": n > case["batch"], "labels": []}


SUBS = [
    Sub(
        "inflight",
        lambda: st.fixed_dictionaries(
            {
                "docs": st.integers(20, 60),
                "length": st.integers(10, 3000),
                "batch": st.integers(1, 3),
                "workers": st.integers(3, 12),
                "fail": st.integers(5, 1000),
            }
        ),
        run_inflight,
        quick=10,
        thorough=300,
        shards=2,
    ),
    Sub("faults", case_st, run_faults, quick=240, thorough=4000),
    Sub("kills", case_st, run_kills, quick=160, thorough=2000),
    Sub("reader", case_st, run_reader, quick=800, thorough=12000),
    Sub("realpool", lambda: case_st(gen.small_corpus(6, mixed=False, min_docs=1), False), run_real, quick=4, thorough=120, shards=2),
]
