"""P30: edits made inside an enclosing transaction are nested in it."""
import os

from hypothesis import strategies as st

from hv import editing, faults, gen, pool
from hv.core import Sub, Violation, expect, expect_eq, short
from hv.util import AbstractBitMap, MemCorpus, check_summaries, features, open_index

from hyperreal.index import IndexingError

TECHNIQUE = "stateful property-based testing (Hypothesis) against a twin index without transactions, with fault injection"
LEVEL = "fault_enumeration"
RULE = (
    "Generated corpus and model, and 3-12 steps: beginning a transaction or a savepoint within it, committing, rolling back, "
    "model edits and refinement (some failing at a generated statement or background task), and attempts to index. A "
    "twin makes only the edits that were neither undone nor failed, each on its own. After each step the contents seen by the "
    "object equal those of the twin and answers agree, while another connection sees those of the last commit. "
    "Non-trivial: some edit inside a transaction changed the model, and it was committed or rolled back."
)
ASSUMPTIONS = ["Background work reads committed contents, so queries that use it are left out while edits are uncommitted."]

STEPS = ["begin", "begin", "begin", "commit", "rollback", "index", "query"]


def case_st():
    edit = st.tuples(st.just("edit"), st.sampled_from(editing.BASIC + ["refine", "refine"]), editing.XS)
    fail = st.tuples(st.just("fail"), st.sampled_from(editing.BASIC + ["refine", "refine"]), editing.XS)
    step = gen.mix(edit, edit, edit, fail, st.tuples(st.sampled_from(STEPS), st.just("-"), editing.XS), st.tuples(st.sampled_from(STEPS), st.just("-"), editing.XS))
    return st.fixed_dictionaries(
        {
            "corpus": gen.small_corpus(6, mixed=False, min_docs=1),
            "n": st.integers(0, 4),
            "first": st.booleans(),
            "steps": gen.sized(step, 3, 12),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
        }
    )


def contents(db):
    return {
        name: sorted((tuple(tuple(c) if isinstance(c, AbstractBitMap) else c for c in row) for row in list(db.execute(sql))), key=repr)
        for name, sql in faults.TABLES.items()
    }


def answers(idx, seed):
    idx.random.seed(seed)
    cids = idx.cluster_ids
    sample, marks = idx.structured_doc_sample(docs_per_cluster=1)
    return [
        cids,
        [list(map(repr, r)) for r in idx.top_cluster_features(top_k=3)],
        [[tuple(r) for r in idx.cluster_features(c)] for c in cids],
        [list(idx.cluster_docs(c)) for c in cids],
        [list(idx.cluster_query(c)[0]) for c in cids],
        sorted(idx.pinned_cluster_ids),
        {c: list(x) for c, x in sample.items()},
        {c: list(x) for c, x in marks.items()},
    ]


def refine(op, xs, fids, cids):
    if op != "refine":
        return editing.resolve(op, xs, fids, cids)
    if not cids:
        return None
    return "refine_clusters", [], {"iterations": 1 + xs[0] % 2, "target_clusters": None if xs[-1] % 2 else 1 + xs[-1] % 6}


def run(case, env):
    d = env.fresh()
    path, base, other = (os.path.join(d, n) for n in ("i.db", "base.db", "twin.db"))
    corpus, s = MemCorpus(gen.expand(case["corpus"])), case["sched"]
    idx = open_index(env, base, corpus, s, seed=case["seed"])
    idx.index()
    if case["n"]:
        idx.initialise_clusters(case["n"], min_docs=1)
    fids = sorted(features(idx))
    idx.close()
    faults.copy_db(base, path)
    p = pool.SchedPool(s["workers"], s["choices"])
    idx = open_index(env, path, corpus, seed=0, pool_obj=p)
    done, stack, committed = [], [], faults.snapshot(base)

    def edit(i, call, seed):
        i.random.seed(seed)
        return editing.call(i, call)

    twin = None

    def remake():
        nonlocal twin
        if twin is not None:
            twin.close()
        faults.copy_db(base, other)
        twin = open_index(env, other, corpus, s, seed=0)
        for call, seed in done:
            edit(twin, call, seed)

    remake()
    changed = finished = False
    steps = ([("begin", "-", [0])] if case["first"] else []) + [tuple(x) for x in case["steps"]] + [("commit", "-", [0])] * 3
    for n, (kind, op, xs) in enumerate(steps):
        what = f"step {n} of {steps}, {kind} {op}"
        seed = case["seed"] + n
        if kind == "begin":
            if len(stack) == 3:
                continue
            idx.db.execute(f'savepoint "outer{len(stack)}"' if stack else "begin")
            stack.append(len(done))
        elif kind == "commit":
            if not stack:
                continue
            stack.pop()
            if stack:
                idx.db.execute(f'release "outer{len(stack)}"')
            else:
                idx.db.execute("commit")
                finished |= changed
        elif kind == "rollback":
            if not stack:
                continue
            finished |= len(done) > stack[-1] and changed
            del done[stack.pop() :]
            if stack:
                idx.db.execute(f'rollback to "outer{len(stack)}"')
                idx.db.execute(f'release "outer{len(stack)}"')
            else:
                idx.db.execute("rollback")
            remake()
        elif kind == "index":
            if not stack:
                continue
            try:
                idx.index()
            except IndexingError:
                pass
            except Exception as e:
                raise Violation(f"{what}: raised {e!r}, expected IndexingError")
            else:
                raise Violation(f"{what}: indexing in a transaction was not refused")
        elif kind == "query":
            expect_eq(answers(idx, seed), answers(twin, seed), f"{what}: answers")
        else:
            call = refine(op, xs, fids, sorted(set(r[0] for r in twin.db.execute("select cluster_id from cluster"))))
            if call is None:
                continue
            what += f" {call}"
            failed = None
            if kind == "fail":
                if xs[-1] % 3 == 0:
                    p.fail_at = {p.submitted + xs[0] % 4: ["error", "broken"][xs[-1] % 2]}
                else:
                    left = [1 + xs[0] % 12]

                    def hook(n, sql):
                        if not faults.is_control(sql):
                            left[0] -= 1
                            if left[0] == 0:
                                raise faults.Injected("disk I/O error")

                    faults.install(idx, hook)
            try:
                result = edit(idx, call, seed)
            except Exception as e:
                failed = e
            finally:
                faults.uninstall(idx)
                p.repair()
            if failed is None:
                before = contents(twin.db)
                expect_eq(result, edit(twin, call, seed), f"{what}: result")
                done.append((call, seed))
                changed |= bool(stack) and contents(twin.db) != before
            elif kind == "edit":
                raise Violation(f"{what}: raised {failed!r}")
            else:
                what += f" failed with {short(repr(failed), 80)}"
        expect_eq(idx.db.in_transaction, bool(stack), f"{what}: in a transaction")
        got, want = contents(idx.db), contents(twin.db)
        expect_eq(faults.diff(got, want), "equal", f"{what}: contents, and those after the edits that count")
        if not stack:
            committed = want
        expect_eq(faults.diff(faults.snapshot(path), committed), "equal", f"{what}: contents seen by others, and those last committed")
    idx.close()
    idx = open_index(env, path, corpus, s)
    check_summaries(idx, f"after {steps}")
    expect_eq(answers(idx, 1), answers(twin, 1), f"answers after {steps}")
    return {"nontrivial": finished, "labels": sorted({k for k, _, _ in steps})}


SUBS = [Sub("nested", case_st, run, quick=1200)]
