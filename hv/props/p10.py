"""P10: what refinement may and may not change."""
from hypothesis import strategies as st

from hv import editing, gen
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, build, check_summaries, features, model_state

TECHNIQUE = "stateful property-based testing (Hypothesis): pre/post relation over generated refinements"
RULE = (
    "Generated corpus and model (initialise, then edits and pins), then 1-3 refinements with generated iterations, "
    "selection, target, minimum size, probe query, tolerance, acceptance and group testing, under generated "
    "background completion order; feature sets, pins, unselected clusters, ids, sizes and cluster counts are compared "
    "before and after. Non-trivial: a refinement moved features while something (a pin, an unselected cluster or a "
    "changed target) constrained it."
)


REFINE = st.fixed_dictionaries(
    {
        "iterations": st.integers(1, 5),
        "select": st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=4)),
        "target": gen.mix(st.none(), st.integers(1, 10), st.integers(1, 10), st.integers(10, 150)),
        "minimum": st.sampled_from([1, 1, 1, 2, 3, 5]),
        "probe": st.one_of(st.none(), st.integers(0, 2**20)),
        "tolerance": st.sampled_from([0, 0.05, 1]),
        "accept": st.sampled_from([0, 0.5, 0.5, 1]),
        "batches": st.one_of(st.none(), st.integers(0, 5)),
        "top_k": st.integers(1, 3),
    }
)


def case_st(corpus, max_clusters=8):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "n": st.integers(1, max_clusters),
            "ops": editing.ops_st(0, 5, ["delf", "delc", "merge", "create", "pinf", "pinf", "pinc"]),
            "refine": gen.sized(REFINE, 1, 3),
        }
    )


def run(case, env):
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    feats = features(idx)
    fids = sorted(feats)
    idx.initialise_clusters(case["n"], min_docs=1)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    nontrivial, labels = False, []
    all_docs = sorted(ids.values())
    for q in case["refine"]:
        before = editing.RefModel.of(idx)
        cl = before.clusters()
        cids = sorted(cl)
        select = None
        if q["select"] is not None and cids:
            select = sorted({cids[x % len(cids)] for x in q["select"]})
        selected = set(select if select else cids)
        probe = None
        if q["probe"] is not None:
            probe = BitMap(d for n, d in enumerate(all_docs) if (q["probe"] >> (n % 20)) & 1)
        what = f"refine(select={select}, {q}) of {cl} pinned features {before.pf} pinned clusters {before.pc}"
        idx.refine_clusters(
            iterations=q["iterations"],
            cluster_ids=select,
            minimum_cluster_features=q["minimum"],
            probe_query=probe,
            target_clusters=q["target"],
            tolerance=q["tolerance"],
            move_acceptance_probability=q["accept"],
            group_test_batches=q["batches"],
            group_test_top_k=q["top_k"],
        )
        after = editing.RefModel.of(idx)
        acl = after.clusters()
        expect_eq(set(after.fc), set(before.fc), f"{what}: features of the model")
        expect_eq(after.pf, before.pf, f"{what}: pinned features")
        expect_eq(after.pc, before.pc, f"{what}: pinned clusters")
        for f, c in before.fc.items():
            if f in before.pf or c in before.pc or c not in selected:
                expect_eq(after.fc[f], c, f"{what}: cluster of the fixed feature {f}")
        for c in cl:
            if c in before.pc or c not in selected:
                expect_eq(acl[c], cl[c], f"{what}: fixed cluster {c}")
        new = set(acl) - set(cl)
        for c in new:
            expect(c > max(cl), f"{what}: new cluster id {c}")

        # number of clusters in the selection
        n_sel = len(selected)
        target = q["target"] or n_sel
        fixed = selected & before.pc
        free = selected - before.pc
        movable = {f for c in free for f in cl[c] if f not in before.pf}
        anchored = {c for c in free if cl[c] & before.pf}
        count = len((set(acl) & selected) | new)
        low = len(fixed) + max(1, len(anchored))
        high = len(fixed) + len(anchored) + len(movable)
        if not movable:
            expect_eq(after.fc, before.fc, f"{what}: nothing is movable")
        elif q["minimum"] == 1:
            if low <= target <= high:
                expect_eq(count, target, f"{what}: number of clusters in the selection, now {acl}")
                if target != n_sel:
                    labels.append("target-reached")
            elif target < low:
                expect(low <= count <= n_sel, f"{what}: {count} clusters in the selection, now {acl}")
        if target <= n_sel:
            expect(not new, f"{what}: new clusters {new} without being asked for")
            for c in free & set(acl):
                if len(cl[c]) >= q["minimum"]:
                    expect(
                        len(acl[c]) >= q["minimum"],
                        f"{what}: cluster {c} shrank from {len(cl[c])} to {len(acl[c])} features",
                    )
        check_summaries(idx, what)
        moved = after.fc != before.fc
        nontrivial |= moved and bool(before.pf or before.pc or select or target != n_sel)
        labels += ["moved"] * moved + ["probe"] * bool(probe)
    return {"nontrivial": nontrivial, "labels": labels}


SUBS = [
    Sub("refine", lambda: case_st(gen.corpus(8, 40, min_docs=1)), run, quick=1500),
    Sub("groups", lambda: case_st(gen.rand_corpus(120, min_docs=20, vocab=200), 40), run, quick=60, thorough=1500),
    Sub("wide", lambda: case_st(gen.rand_corpus(120, min_docs=60, vocab=3000), 200), run, quick=8, thorough=200),
]
