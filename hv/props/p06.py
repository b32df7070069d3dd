"""P06: collocation counts."""
from hypothesis import strategies as st

from hv import gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import build, feature_ids

RULE = (
    "Generated corpora with several sequence fields (also mixed sequence/set fields), batch sizes and schedules; "
    "collocations of generated feature sets of one field with generated windows are compared with counts over the "
    "token lists of each document. Non-trivial: some other feature lies both inside and outside the windows."
)


def case_st(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": gen.batch_size(),
            "sched": gen.sched(),
            "queries": gen.sized(
                st.fixed_dictionaries(
                    {
                        "field": st.integers(0, 5),
                        "features": gen.sized(st.integers(0, 200), 1, 4),
                        "window": st.one_of(st.integers(0, 6), st.sampled_from([20, 1000])),
                    }
                ),
                1,
                4,
            ),
        }
    )


def run(case, env):
    idx, docs, ids, path = build(env, case["corpus"], case["batch"], True, case["sched"])
    fid = feature_ids(idx)
    fields = sorted({f for f, _ in fid})
    if not fields:
        return {}
    nontrivial = False
    for q in case["queries"]:
        f = fields[q["field"] % len(fields)]
        order = sorted((t for t in fid if t[0] == f), key=lambda t: model.sort_key(t[1]))
        chosen = {order[x % len(order)][1] for x in q["features"]}
        w = q["window"]
        got, q_hits, w_hits = idx.count_collocations(f, sorted(fid[f, v] for v in chosen), w)
        total, inside = {}, {}
        want_q = want_w = 0
        for seq in model.sequences(docs, ids, f).values():
            pos = [i for i, v in enumerate(seq) if v in chosen]
            window = set()
            for p in pos:
                window.update(range(max(0, p - w), min(len(seq), p + w + 1)))
            want_q += len(pos)
            want_w += len(window)
            for i, v in enumerate(seq):
                if v not in chosen:
                    total[v] = total.get(v, 0) + 1
                    inside[v] = inside.get(v, 0) + (i in window)
        what = f"field {f!r} features {sorted(map(repr, chosen))} window {w}"
        expect_eq(q_hits, want_q, f"{what}: occurrences of the features")
        expect_eq(w_hits, want_w, f"{what}: positions covered by the windows")
        by_id = {i: t for t, i in fid.items()}
        seen = {}
        for i, (n, t) in got.items():
            expect(i in by_id and by_id[i][0] == f, f"{what}: feature {by_id.get(i)} is not of the field")
            expect(by_id[i][1] not in chosen, f"{what}: queried feature {by_id[i]} is listed")
            seen[by_id[i][1]] = (n, t)
        for v in total:
            expect_eq(seen.get(v), (inside[v], total[v]), f"{what}: counts of {v!r}")
        for v in set(seen) - set(total):
            expect_eq(seen[v], (0, 0), f"{what}: counts of {v!r} without positions")
        nontrivial |= any(0 < inside[v] < total[v] for v in total)
    return {"nontrivial": nontrivial}


def run_large(case, env):
    """Batches of a few documents would only repeat what the other sub-checks do, slowly."""
    return run(dict(case, batch=max(case["batch"], 97)), env)


SUBS = [
    Sub("counts", lambda: case_st(gen.corpus(8, 60)), run, quick=3500),
    Sub("large", lambda: case_st(gen.rand_corpus(2500, min_docs=800, vocab=30, length=60)), run_large, quick=8, thorough=200),
    Sub("long", lambda: case_st(gen.rand_corpus(8, min_docs=2, vocab=30, length=60000)), run, quick=12, thorough=200),
]
