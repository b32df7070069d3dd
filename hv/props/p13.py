"""P13: a fixed seed reproduces models and samples whatever the scheduling."""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from hv import editing, gen
from hv.core import VERIF, Sub, expect, expect_eq
from hv.util import BitMap, MemCorpus, features, model_state, open_index, pool

TECHNIQUE = "metamorphic property-based testing (Hypothesis): twin runs under different schedules, batchings, processes"
RULE = (
    "A generated corpus is indexed twice with different batch sizes, worker counts and completion orders; the same "
    "generated sequence of 1-8 operations (initialise, refine with all options, edits, reopening, every kind of "
    "sampling) runs on both with the same seed, and feature ids, the stored model and every sample are compared after "
    "each one. Sub-check process repeats one side in another interpreter with another hash seed, realpool with real "
    "worker processes. Non-trivial: a random operation ran and the schedules differed."
)

OP = gen.mix(
    st.tuples(st.just("init"), editing.XS),
    st.tuples(st.just("refine"), gen.sized(st.integers(0, 200), 6, 6)),
    st.tuples(st.just("refine"), gen.sized(st.integers(0, 200), 6, 6)),
    st.tuples(st.sampled_from(["delf", "merge", "create", "pinf", "pinc", "reopen"]), editing.XS),
    st.tuples(
        st.sampled_from(["bitmap", "structured", "html", "table", "windows", "passages", "conc"]),
        gen.sized(st.integers(0, 200), 3, 3),
    ),
    st.tuples(st.just("passages"), gen.sized(st.integers(0, 200), 3, 3)),
)


MANY = st.tuples(st.just("many"), gen.sized(st.integers(0, 200), 1, 1))


def many_st():
    """More clusters than workers, so that groups of them are tested with the default settings."""
    base = case_st(gen.rand_corpus(200, min_docs=40, vocab=300))
    return st.tuples(base, MANY).map(
        lambda t: {**t[0], "ops": [list(t[1]), *t[0]["ops"][:4], ["refine", [2, 1, 1, 1, 0, 1]]]}
    )


def case_st(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": st.tuples(gen.batch_size(), gen.batch_size()),
            "sched": st.tuples(gen.sched(), gen.sched()),
            "seed": gen.SEEDS,
            "ops": gen.sized(OP, 1, 8),
        }
    )


def plain(x):
    if isinstance(x, (BitMap, set, frozenset)):
        return sorted(x, key=repr)
    if isinstance(x, dict):
        return [[plain(k), plain(v)] for k, v in sorted(x.items(), key=lambda t: repr(t[0]))]
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


class Side:
    def __init__(self, case, n, env, d, pool_obj=None):
        self.case, self.env = case, env
        self.docs = gen.expand(case["corpus"])
        self.path = os.path.join(d, f"side{n}.db")
        self.sched = case["sched"][n]
        self.pool_obj = pool_obj
        self.open()
        self.idx.index(doc_batch_size=case["batch"][n], index_positions=True)

    def open(self):
        self.idx = open_index(
            self.env, self.path, MemCorpus(self.docs), self.sched, seed=self.case["seed"], pool_obj=self.pool_obj
        )

    def step(self, op, xs):
        idx = self.idx
        feats = sorted(features(idx))
        cids = idx.cluster_ids
        rows = sorted(r[0] for r in idx.db.execute("select doc_id from doc_key"))
        out = None
        if op == "reopen":
            idx.close()
            self.open()
        elif op == "many":
            idx.initialise_clusters(12 + xs[0] % 50, min_docs=1)
        elif op == "refine":
            if cids:
                idx.refine_clusters(
                    iterations=1 + xs[0] % 4,
                    cluster_ids=None if xs[1] % 3 else [cids[x % len(cids)] for x in xs[2:4]],
                    minimum_cluster_features=1 + xs[2] % 2,
                    target_clusters=None if xs[3] % 2 else 1 + xs[4] % 9,
                    tolerance=0 if xs[5] % 2 else 0.05,
                    move_acceptance_probability=[0.5, 0.5, 1, 0.2][xs[1] % 4],
                    group_test_batches=[None, None, 0, 2, 3][xs[5] % 5],
                    group_test_top_k=1 + xs[0] % 2,
                )
        elif op in ("bitmap", "html", "table", "windows", "conc"):
            query = BitMap(rows[xs[0] % 3 :])
            n = xs[1] % (len(rows) + 2)
            if op == "bitmap":
                out = idx.sample_bitmap(query, n)
            elif op == "html":
                out = [list(r) for r in idx.render_docs_html(query, random_sample_size=n)]
            elif op == "table":
                out = idx.render_docs_table(query, random_sample_size=n)
            elif feats:
                f = feats[xs[2] % len(feats)]
                if op == "windows":
                    out = list(idx.extract_matching_feature_windows(query, [f], 2, random_sample_size=n))
                else:
                    out = [list(r) for r in idx.concordances(query, [f], 2, random_sample_size=n)]
        elif op == "structured":
            out = idx.structured_doc_sample(docs_per_cluster=xs[0] % 4)
        elif op == "passages":
            text = [
                f for f, (field, v, _, _) in sorted(features(idx).items())
                if field in ("text", "title") and isinstance(v, str)
            ]
            if text:
                p = idx.score_passages_dnf([[text[xs[0] % len(text)]]], 2)
                p = {d: ps for d, ps in p.items() if ps}
                out = sorted(
                    (d, k, ps)
                    for d, k, ps in (
                        (d, k, plain(r)) for d, k, r in idx.render_passages_table(
                            p, batch_size=1 + xs[2] % 3, random_sample_size=xs[1] % 5
                        )
                    )
                )
        else:
            r = editing.resolve(op, xs, feats, cids)
            if r:
                out = editing.call(idx, r)
        cl, fc = model_state(self.idx)
        return json.loads(json.dumps([plain(out), plain(cl), plain(fc)]))

    def feature_map(self):
        return json.loads(json.dumps(sorted([i, f, v] for i, (f, v, _, _) in features(self.idx).items())))


RANDOM = {"init", "many", "refine", "bitmap", "structured", "html", "table", "windows", "passages", "conc"}


def compare(case, env, other):
    d = env.fresh()
    a = Side(case, 0, env, d)
    fa = a.feature_map()
    outs = [a.step(op, xs) for op, xs in case["ops"]]
    fb, outs_b = other(d)
    expect_eq(fb, fa, "feature ids of two indexes of the same corpus")
    for n, ((op, xs), x, y) in enumerate(zip(case["ops"], outs, outs_b)):
        what = f"after step {n + 1} ({op} {xs})"
        expect_eq(y[0], x[0], f"{what}: result")
        expect_eq(y[1], x[1], f"{what}: clusters")
        expect_eq(y[2], x[2], f"{what}: features of clusters")
    return {
        "nontrivial": bool(fa) and any(op in RANDOM for op, _ in case["ops"])
        and (case["sched"][0] != case["sched"][1] or case["batch"][0] != case["batch"][1]),
        "labels": sorted({op for op, _ in case["ops"]}),
    }


def run(case, env, pool_obj=None):
    def other(d):
        b = Side(case, 1, env, d, pool_obj)
        return b.feature_map(), [b.step(op, xs) for op, xs in case["ops"]]

    return compare(case, env, other)


def run_real(case, env):
    with pool.real_manager():
        return run(case, env, pool.real_pool(env))


def run_process(case, env):
    def other(d):
        path = os.path.join(d, "case.json")
        with open(path, "w") as f:
            json.dump(case, f)
        out = subprocess.run(
            [sys.executable, "-W", "ignore", os.path.join(VERIF, "run.py"), "P13", "--child", path],
            env={**os.environ, "VERIF_CHILD_HASHSEED": str(1 + case["seed"] % 5)},
            capture_output=True,
            text=True,
            timeout=120,
        )
        expect(out.returncode == 0, f"the same operations fail in another process: {out.stderr[-1500:]}")
        return json.loads(out.stdout.splitlines()[-1])

    return compare(case, env, other)


def child(path, env):
    with open(path) as f:
        case = json.load(f)
    b = Side(case, 1, env, os.path.dirname(path))
    print(json.dumps([b.feature_map(), [b.step(op, xs) for op, xs in case["ops"]]]))


SUBS = [
    Sub("pair", lambda: case_st(gen.corpus(8, 60, min_docs=1, mixed=False)), run, quick=1200),
    Sub("large", lambda: case_st(gen.rand_corpus(400, min_docs=100, vocab=400)), run, quick=24, thorough=500),
    Sub("many", many_st, run, quick=60, thorough=2000),
    Sub("process", lambda: case_st(gen.rand_corpus(60, min_docs=10, vocab=60)), run_process, quick=32, thorough=600),
    Sub("realpool", lambda: case_st(gen.rand_corpus(60, min_docs=10, vocab=60)), run_real, quick=12, thorough=200, shards=2),
]
