"""P12: model edits are all or nothing and serialisable."""
import os
import threading

from hypothesis import strategies as st

from hv import editing, faults, gen
from hv.core import Sub, Violation, expect, expect_eq
from hv.util import Index, MemCorpus, check_summaries, features, open_index, pool

TECHNIQUE = "fault and kill injection and schedule-controlled interleaving at every statement of generated edits (Hypothesis)"
LEVEL = "fault_enumeration"
RULE = (
    "Generated corpus and model, then an edit (create, merge, delete, pin, initialise, refine). faults: the edit is "
    "repeated from a copy with a failure at every database statement and background task; kills: the process is killed "
    "(forked child) before every statement; the stored model must be the one before, or if no error was reported the "
    "one after, and the index must accept and durably store another edit. interleave: two connections run one or two "
    "edits each (or one reindexes), switching at generated statements, or one runs completely at every statement of "
    "the other; the final contents must equal one of the serial executions of the edits that reported success. "
    "Non-trivial: the edit changes the model (faults, kills), or the connections really alternated and at least one "
    "edit changed the model (interleave)."
)
ASSUMPTIONS = [
    "A failing statement fails before it takes effect; transaction control statements are kill and switch points but "
    "not failure points.",
    "A killed process is modelled by _exit of a forked process.",
    "Background processes are modelled by an in-process pool. Lock waiting is switched off (busy_timeout 0), so a "
    "conflicting writer gets its error at once instead of after five seconds.",
]

KINDS = editing.BASIC + ["refine", "refine"]


def case_st(n_edits, kinds=KINDS):
    return st.fixed_dictionaries(
        {
            "corpus": gen.small_corpus(6, mixed=False, min_docs=1),
            "n": st.integers(0, 4),
            "ops": editing.ops_st(0, 2),
            "edits": gen.sized(editing.op_st(kinds), n_edits, n_edits),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "skip": st.integers(0, 1000),
            "turns": st.lists(st.integers(0, 3), min_size=1, max_size=25),
        }
    )


def resolve(op, xs, fids, cids):
    if op == "refine":
        if not cids:
            return None
        return (
            "refine_clusters",
            [],
            {
                "iterations": 1 + xs[0] % 2,
                "target_clusters": None if xs[-1] % 2 else 1 + xs[-1] % 6,
                "minimum_cluster_features": 1,
            },
        )
    if op == "index":
        return "index", [], {"doc_batch_size": 1 + xs[0] % 3}
    return editing.resolve(op, xs, fids, cids)


class Setup:
    def __init__(self, case, env):
        self.case, self.env = case, env
        self.d = env.fresh()
        self.base = os.path.join(self.d, "base.db")
        self.path = os.path.join(self.d, "i.db")
        self.docs = gen.expand(case["corpus"])
        idx = open_index(env, self.base, MemCorpus(self.docs), case["sched"], seed=1)
        idx.index(index_positions=False)
        self.fids = sorted(features(idx))
        if case["n"]:
            idx.initialise_clusters(case["n"], min_docs=1)
        for op, xs in case["ops"]:
            r = editing.resolve(op, xs, self.fids, idx.cluster_ids)
            if r:
                editing.call(idx, r)
        self.cids = idx.cluster_ids
        self.edits = [resolve(op, xs, self.fids, self.cids) for op, xs in case["edits"]]
        idx.close()
        self.before = faults.snapshot(self.base)

    def open(self, fail_at=None, copy=True, track=True, seed=0, path=None):
        if copy:
            faults.copy_db(self.base, self.path)
        s = self.case["sched"]
        p = pool.SchedPool(s["workers"], s["choices"], fail_at)
        corpus = MemCorpus(self.docs[1:] + [("new", {"tag": ["S", ["a", "new"]]})])
        idx = Index(path or self.path, corpus=corpus, pool=p, random_seed=self.case["seed"] + seed)
        idx.db.execute("pragma busy_timeout=0")
        if track:
            self.env.cleanups.append(idx.close)
        return idx

    def check_usable(self, what, idx):
        """Another edit by the same object is stored, and other connections can write."""
        expect(not idx.db.in_transaction, f"{what}: a transaction was left open")
        f = self.fids[: 1 + self.case["skip"] % 2]
        try:
            c = idx.create_cluster_from_features(f)
        except Exception as e:
            raise Violation(f"{what}: the next edit raised {type(e).__name__}: {e}")
        other = self.open(copy=False)
        expect_eq(
            sorted(r[0] for r in other.cluster_features(c)), sorted(f), f"{what}: features of a cluster created next"
        )
        check_summaries(other, what + ", after the next edit")
        try:
            other.pin_clusters([c])
        except Exception as e:
            raise Violation(f"{what}: another connection can't write: {type(e).__name__}: {e}")
        other.close()


def dry_run(s, edit):
    statements = []
    idx = s.open()
    faults.install(idx, lambda n, sql: statements.append(sql))
    editing.call(idx, edit)
    faults.uninstall(idx)
    tasks = idx.pool.submitted
    idx.close()
    return statements, tasks, faults.snapshot(s.path)


def run_faults(case, env):
    s = Setup(case, env)
    edit = s.edits[0]
    if edit is None or not s.fids:
        return {"nontrivial": False, "labels": ["no-edit"]}
    statements, tasks, after = dry_run(s, edit)
    points = [("statement", n) for n, sql in enumerate(statements) if not faults.is_control(sql)]
    points += [("interrupt", n) for k, n in points]
    points += [(k, n) for k in ("error", "broken") for n in range(tasks)]
    points = faults.spread(points, 50 if env.tier == "quick" else 150, case["skip"])
    failures = 0
    for kind, n in points:
        what = f"{edit}, failure at {kind} {n}"
        at_statement = kind in ("statement", "interrupt")
        if at_statement:
            what += f" ({' '.join(statements[n].split())[:60]})"
        idx = s.open({} if at_statement else {n: kind})
        if at_statement:
            faults.install(idx, faults.failing(n, kind == "interrupt"))
        try:
            editing.call(idx, edit)
            failed = False
        except (Exception, KeyboardInterrupt):
            failed = True
        faults.uninstall(idx)
        idx.pool.drain()
        want = s.before if failed else after
        got = faults.snapshot(s.path)
        if got != want:
            raise Violation(
                f"{what}: {'reported an error' if failed else 'succeeded'}, but the index differs: "
                + faults.diff(got, want)
            )
        idx.pool.repair()
        s.check_usable(what, idx)
        idx.close()
        failures += failed
    return {
        "nontrivial": failures > 2 and after != s.before,
        "labels": [edit[0]] + ["changed"] * (after != s.before),
    }


def run_kills(case, env):
    s = Setup(case, env)
    edit = s.edits[0]
    if edit is None or not s.fids:
        return {"nontrivial": False, "labels": ["no-edit"]}
    statements, tasks, after = dry_run(s, edit)
    points = faults.spread(list(range(len(statements))), 20 if env.tier == "quick" else 150, case["skip"])
    outcomes = set()
    for n in points:
        what = f"{edit}, killed at statement {n} ({' '.join(statements[n].split())[:60]})"
        faults.copy_db(s.base, s.path)

        def child():
            idx = s.open(copy=False, track=False)
            faults.install(idx, faults.killing(n))
            editing.call(idx, edit)

        expect_eq(faults.in_child(child), 77, f"{what}: exit status")
        got = faults.snapshot(s.path)
        if got != s.before and got != after:
            raise Violation(
                f"{what}: the model is neither the one before ({faults.diff(got, s.before)}) nor the one after "
                f"({faults.diff(got, after)})"
            )
        outcomes.add("after" if got == after else "before")
        idx = s.open(copy=False)
        s.check_usable(what, idx)
        idx.close()
    return {"nontrivial": after != s.before, "labels": [edit[0]] + [f"killed-{o}" for o in outcomes]}


class Turns:
    """Lets exactly one of the threads run between statements, in a generated order."""

    def __init__(self, n, turns):
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.turns, self.ti = turns, 0
        self.turn = 0
        self.switches = 0

    def _next(self, me):
        c = self.turns[self.ti % len(self.turns)]
        self.ti += 1
        if self.alive:
            new = self.alive[c % len(self.alive)]
            self.switches += new != me
            self.turn = new
        self.cond.notify_all()

    def wait(self, me):
        with self.cond:
            while self.turn != me:
                self.cond.wait(60)

    def point(self, me):
        with self.cond:
            self._next(me)
            while self.turn != me:
                if not self.cond.wait(60):
                    raise RuntimeError("harness: no turn")

    def done(self, me):
        with self.cond:
            self.alive.remove(me)
            self._next(me)


def serial_outcomes(s, ops):
    """{set of successful ops: [dumps after each serial order]}. ops: [(connection, edit)], in program order
    per connection."""
    import itertools

    ids = range(len(ops))
    cache = {}

    def run(order):
        if order in cache:
            return cache[order]
        idxs = {}
        path = os.path.join(s.d, f"serial{len(cache)}.db")
        faults.copy_db(s.base, path)
        ok = True
        try:
            for i in order:
                c, edit = ops[i]
                if c not in idxs:
                    idxs[c] = s.open(copy=False, seed=c, path=path)
                try:
                    editing.call(idxs[c], edit)
                except Exception:
                    ok = False
                    break
        finally:
            for x in idxs.values():
                x.close()
        cache[order] = faults.snapshot(path) if ok else None
        return cache[order]

    def legal(order):
        for a, b in itertools.combinations(order, 2):
            if ops[a][0] == ops[b][0] and a > b:
                return False
        return True

    def outcomes(successful):
        out = []
        for order in itertools.permutations(successful):
            if legal(order):
                r = run(order)
                if r is not None:
                    out.append((order, r))
        return out

    return outcomes


def judge(s, ops, results, outcomes, what):
    ok = tuple(i for i in range(len(ops)) if results[i] is None)
    got = faults.snapshot(s.path)
    want = outcomes(ok)
    if not any(got == w for _, w in want):
        detail = "; ".join(f"order {o}: {faults.diff(got, w)}" for o, w in want[:2])
        raise Violation(
            f"{what}: results {[repr(r) for r in results]}: the index is not the result of running the successful "
            f"edits in any order: {detail}"
        )
    return ok


def run_single(case, env):
    """B runs completely at one statement of A, for every statement."""
    s = Setup(case, env)
    if None in s.edits or not s.fids:
        return {"nontrivial": False, "labels": ["no-edit"]}
    ops = [(0, s.edits[0]), (1, s.edits[1])]
    statements, _, after = dry_run(s, s.edits[0])
    outcomes = serial_outcomes(s, ops)
    labels = set()
    points = faults.spread(list(range(len(statements))), 20 if env.tier == "quick" else 100, case["skip"])
    for n in points:
        results = [None, None]
        a = s.open()
        b = s.open(copy=False, seed=1)

        def hook(k, sql):
            if k == n:
                try:
                    editing.call(b, s.edits[1])
                except Exception as e:
                    results[1] = e

        faults.install(a, hook)
        try:
            editing.call(a, s.edits[0])
        except Exception as e:
            results[0] = e
        faults.uninstall(a)
        what = f"{s.edits[1]} at statement {n} ({' '.join(statements[n].split())[:50]}) of {s.edits[0]}"
        expect(not a.db.in_transaction and not b.db.in_transaction, f"{what}: a transaction was left open")
        ok = judge(s, ops, results, outcomes, what)
        labels.add({(): "none-ok", (0,): "first-ok", (1,): "second-ok", (0, 1): "both-ok"}[ok])
        b.close()
        check_summaries(a, what)
        s.check_usable(what, a)
        a.close()
    return {"nontrivial": after != s.before and len(points) > 3, "labels": sorted(labels) + [e[0] for e in s.edits]}


def run_threads(case, env):
    """Statement by statement alternation of two connections with one or two edits each."""
    s = Setup(case, env)
    edits = [e for e in s.edits if e is not None]
    if len(edits) < 2 or not s.fids:
        return {"nontrivial": False, "labels": ["no-edit"]}
    ops = [(i % 2, e) for i, e in enumerate(edits)]
    outcomes = serial_outcomes(s, ops)
    results = ["not run"] * len(ops)
    faults.copy_db(s.base, s.path)
    turns = Turns(2, case["turns"])
    left_open = []

    def work(me):
        try:
            turns.wait(me)
            idx = s.open(copy=False, track=False, seed=me)
            faults.install(idx, lambda n, sql: turns.point(me))
            for i, (c, edit) in enumerate(ops):
                if c == me:
                    try:
                        editing.call(idx, edit)
                        results[i] = None
                    except Exception as e:
                        results[i] = e
            faults.uninstall(idx)
            if idx.db.in_transaction:
                left_open.append(me)
            idx.close()
        finally:
            turns.done(me)

    threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(2)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    what = f"connections alternating over {ops}"
    expect(not left_open, f"{what}: a transaction was left open")
    ok = judge(s, ops, results, outcomes, what)
    idx = s.open(copy=False)
    check_summaries(idx, what)
    s.check_usable(what, idx)
    idx.close()
    return {
        "nontrivial": turns.switches > 3 and faults.snapshot(s.path) != s.before,
        "labels": [f"{len(ok)}-of-{len(ops)}-ok"] + sorted({e[0] for e in edits}),
    }


SUBS = [
    Sub("faults", lambda: case_st(1), run_faults, quick=320, thorough=8000),
    Sub("kills", lambda: case_st(1), run_kills, quick=120, thorough=3000),
    Sub("single", lambda: case_st(2, KINDS + ["index"]), run_single, quick=200, thorough=5000),
    Sub("threads", lambda: st.integers(2, 4).flatmap(lambda n: case_st(n, KINDS + ["index"])), run_threads, quick=400, thorough=12000),
]
