"""P11: contributions are the exact change of the objective, and moves go to the best cluster."""
import itertools
from fractions import Fraction

from hypothesis import strategies as st

from hv import editing, gen
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, build, features

import hyperreal.index as hi

TECHNIQUE = "property-based testing (Hypothesis): exact rational recomputation of the objective"
RULE = (
    "Generated corpora, feature groups, candidate features and probe queries: contributions are recomputed with exact "
    "fractions from the definition of the objective before and after adding/removing the feature. Then generated "
    "models are refined with every move accepted, without group testing or with every group followed up, and every movable feature must end in a "
    "cluster of maximal recomputed contribution or be held by the minimum size (with approximate group testing: in no worse cluster than before, "
    "and some division of the clusters into groups must explain all the moves). passes: several passes, simulated as long as no tie or order of moves matters. "
    "resize: the dissolved clusters must be those of least exact objective and their features go to the best remaining cluster, and a split must halve the "
    "largest cluster. Non-trivial: some contribution is neither 0 nor -1 (measure), some feature moved (greedy), in several passes (passes), the clusters differ (resize)."
)
ASSUMPTIONS = ["Contributions are compared within 1e-9; ties within that may be resolved either way."]


def objective(groups):
    """groups: list of sets of documents, one per feature."""
    n = len(groups)
    if not n:
        return Fraction(0)
    hits = sum(map(len, groups))
    cover = len(set().union(*groups))
    return Fraction(hits, cover + n) - Fraction(hits, hits + n)


def add_score(group, f):
    """Contribution of adding document set f to group, None where only 'worst' is specified."""
    if not f & set().union(*group):
        return Fraction(-1)
    return objective(group + [f]) - objective(group)


def own_score(group, i):
    rest = group[:i] + group[i + 1 :]
    if not rest:
        return Fraction(0)
    union = set().union(*rest)
    if not union:
        return None  # nothing else in the cluster covers anything: not specified
    if not group[i] & union:
        return Fraction(-1)
    return objective(group) - objective(rest)


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9


def measure_case(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "probe": st.one_of(st.none(), st.integers(0, 2**30)),
            "groups": gen.sized(st.tuples(gen.sized(st.integers(0, 300), 0, 6), gen.sized(st.integers(0, 300), 0, 5)), 1, 3),
        }
    )


def probe_of(x, all_docs):
    if x is None:
        return None
    return BitMap(d for n, d in enumerate(all_docs) if (x >> (n % 30)) & 1)


def run_measure(case, env):
    idx, docs, ids, path = build(env, case["corpus"])
    feats = features(idx)
    fids = sorted(feats)
    if not fids:
        return {}
    probe = probe_of(case["probe"], sorted(ids.values()))
    pset = set(probe) if probe else None
    ds = {f: feats[f][3] if pset is None else feats[f][3] & pset for f in fids}
    nontrivial = False
    for n, (g, a) in enumerate(case["groups"]):
        group = {fids[x % len(fids)] for x in g}
        add = {fids[x % len(fids)] for x in a}
        # as run by a background worker, which gets its own connection
        import pickle

        worker_idx = pickle.loads(pickle.dumps(idx))
        env.cleanups.append(worker_idx.close)
        key, obj, rem_f, rem_d, add_f, add_d = hi.measure_feature_contribution_to_cluster(
            worker_idx, ("key", n), set(group), set(add), probe
        )
        what = f"group { {f: sorted(ds[f]) for f in group} } probe {pset}"
        expect_eq(key, ("key", n), f"{what}: key")
        order = sorted(group)
        sets = [ds[f] for f in order]
        expect(close(obj, objective(sets)), f"{what}: objective {obj}, expected {float(objective(sets))}")
        if not group:
            continue
        expect_eq(sorted(rem_f), order, f"{what}: measured members")
        expect_eq(sorted(add_f), sorted(add - group), f"{what}: measured candidates")
        for f, d in zip(rem_f, rem_d):
            want = own_score(sets, order.index(f))
            if want is not None:
                expect(close(d, want), f"{what}: contribution of member {f} is {d}, expected {float(want)}")
                nontrivial |= want not in (0, -1)
        for f, d in zip(add_f, add_d):
            want = add_score(sets, ds[f])
            expect(close(d, want), f"{what}: contribution of candidate {sorted(ds[f])} is {d}, expected {float(want)}")
            nontrivial |= want not in (0, -1)
    return {"nontrivial": nontrivial, "labels": ["probe"] * bool(probe)}


def greedy_case(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "n": st.integers(2, 6),
            "ops": editing.ops_st(0, 4, ["delf", "merge", "create", "pinf", "pinc"]),
            "minimum": st.sampled_from([1, 1, 2, 3]),
            "probe": st.one_of(st.none(), st.integers(0, 2**30)),
            "select": st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=2, max_size=4)),
            # group testing: off, with every group followed up, or approximate
            "groups": st.one_of(st.just([0, 1]), st.tuples(st.integers(1, 3), st.sampled_from([1, 2, 50])).map(list)),
            "repeat": st.sampled_from([0, 0, 3]),
        }
    )


def grouptest_case():
    def fix(case, n, batches, follow):
        batches = min(batches, n // 2)
        return {**case, "n": n, "groups": [batches, min(follow, batches - 1)], "select": None, "minimum": 1}

    return st.builds(
        fix,
        greedy_case(gen.rand_corpus(40, min_docs=8)),
        st.integers(4, 6),
        st.sampled_from([2, 2, 3]),
        st.sampled_from([1, 1, 2]),
    )


def run_greedy(case, env):
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    feats = features(idx)
    fids = sorted(feats)
    idx.initialise_clusters(case["n"], min_docs=1)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    before = editing.RefModel.of(idx)
    cl = before.clusters()
    cids = sorted(cl)
    if not cids:
        return {}
    select = sorted({cids[x % len(cids)] for x in case["select"]}) if case["select"] else None
    selected = (set(select) if select else set(cids)) - before.pc
    probe = probe_of(case["probe"], sorted(ids.values()))
    pset = set(probe) if probe else None
    ds = {f: feats[f][3] if pset is None else feats[f][3] & pset for f in fids}
    batches, follow = case["groups"]
    idx.refine_clusters(
        # a tolerance above one ends the refinement after its first pass
        iterations=case["repeat"] or 1,
        cluster_ids=select,
        minimum_cluster_features=case["minimum"],
        probe_query=probe,
        tolerance=1.5 if case["repeat"] else 0,
        move_acceptance_probability=1,
        group_test_batches=batches,
        group_test_top_k=follow,
    )
    exact = not batches or follow >= batches
    after = editing.RefModel.of(idx)
    if len(selected) < 2:
        expect_eq(after.fc, before.fc, "model with a single cluster to refine")
        return {}
    groups = {c: sorted(cl[c]) for c in selected}
    moved, ends = 0, {}
    for c in selected:
        leaves = sum(after.fc[f] != c for f in groups[c])
        for f in groups[c]:
            if f in before.pf:
                continue
            scores = {}
            for o in selected:
                sets = [ds[x] for x in groups[o]]
                s = own_score(sets, groups[o].index(f)) if o == c else add_score(sets, ds[f])
                scores[o] = s
            if scores[c] is None:
                continue
            best = max(scores.values())
            end = after.fc[f]
            what = (
                f"feature {f} of cluster {c}, contributions { {o: float(s) for o, s in scores.items()} }, "
                f"clusters { {o: {x: sorted(ds[x]) for x in g} for o, g in groups.items()} }, minimum {case['minimum']}, "
                f"group testing {case['groups']}"
            )
            moved += end != c
            if not exact:
                ends[f] = (c, scores, len(groups[c]) - leaves <= case["minimum"])
            if close(scores[end], best):
                continue
            if not exact:
                expect(end == c or scores[end] > scores[c] or close(scores[end], scores[c]), f"{what}: moved to the worse cluster {end}")
                continue
            expect_eq(end, c, f"{what}: moved to a cluster that is not the best")
            expect(
                len(groups[c]) - leaves <= case["minimum"],
                f"{what}: stayed although a better cluster exists and its own has {len(groups[c])} features of which {leaves} left",
            )
    tested = not exact and 2 <= batches <= len(selected) / 2 and len(selected) <= 6
    if tested:
        check_groups(ends, after.fc, {c: [ds[f] for f in groups[c]] for c in groups}, groups, ds, batches, follow)
    return {
        "nontrivial": moved > 0,
        "labels": ["moved"] * bool(moved) + ["groups"] * bool(batches) + ["follow-some"] * tested,
    }


def partitions(items, sizes):
    """All ways of dividing items into groups of the given sizes."""
    if not sizes:
        yield []
        return
    if len(set(sizes)) == 1:
        # the order of equal groups does not matter
        first = [(items[0], *c) for c in itertools.combinations(items[1:], sizes[0] - 1)]
    else:
        first = itertools.combinations(items, sizes[0])
    for group in first:
        for more in partitions([i for i in items if i not in group], sizes[1:]):
            yield [group, *more]


def check_groups(ends, fc, sets, groups, ds, batches, follow):
    """Some division of the clusters into groups explains where every feature went."""
    ids = sorted(sets)
    sizes = [len(ids[i::batches]) for i in range(batches)]
    whole = {}

    def group_scores(f, c, division):
        out = {}
        for g in division:
            if (g, f) not in whole:
                members = [x for o in g for x in groups[o]]
                docs = [ds[x] for x in members]
                whole[g, f] = own_score(docs, members.index(f)) if c in g else add_score(docs, ds[f])
            out[g] = whole[g, f]
        return out

    def explains(division):
        for f, (c, scores, held) in ends.items():
            by_group = group_scores(f, c, division)
            if None in by_group.values():
                continue
            cut = sorted(by_group.values(), reverse=True)[follow - 1]
            must = {o for g, v in by_group.items() if v > cut and not close(v, cut) for o in g} | {c}
            may = {o for g, v in by_group.items() if v >= cut or close(v, cut) for o in g} | {c}
            end, least = fc[f], max(scores[o] for o in must)
            # the clusters of one of the tied groups may all be better than those of the other
            if end == c and held:
                continue
            if end not in may or not (scores[end] >= least or close(scores[end], least)):
                return False
            rivals = [g for g, v in by_group.items() if close(v, cut)]
            if len(rivals) == 1:
                least = max(scores[o] for o in may)
                if not (scores[end] >= least or close(scores[end], least)):
                    return False
        return True

    expect(
        any(explains(d) for d in partitions(ids, sizes)),
        f"group testing with {batches} groups, following {follow}: no division of the clusters {groups} of documents "
        f"{ds} into groups explains the result {fc}",
    )


def passes_case(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "n": st.integers(2, 5),
            "ops": editing.ops_st(0, 3, ["delf", "merge", "create", "pinf"]),
            "iterations": st.integers(2, 5),
        }
    )


def run_passes(case, env):
    """Several passes, as long as the result of each does not depend on ties or on the order of the moves."""
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    feats = features(idx)
    fids = sorted(feats)
    idx.initialise_clusters(case["n"], min_docs=1)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    before = editing.RefModel.of(idx)
    ds = {f: feats[f][3] for f in fids}
    fc, moves = dict(before.fc), []
    if len(set(fc.values())) < 2:
        return {}
    for _ in range(case["iterations"]):
        groups = {}
        for f, c in fc.items():
            groups.setdefault(c, []).append(f)
        new = dict(fc)
        for f, c in fc.items():
            if f in before.pf:
                continue
            scores = {
                o: own_score([ds[x] for x in g], g.index(f)) if o == c else add_score([ds[x] for x in g], ds[f])
                for o, g in groups.items()
            }
            if None in scores.values():
                return {"labels": ["unspecified"]}
            best = max(scores.values())
            tops = [o for o, v in scores.items() if close(v, best)]
            if len(tops) > 1:
                return {"labels": ["tie"]}
            new[f] = tops[0]
        moves.append(sum(new[f] != fc[f] for f in fc))
        if any(all(new[f] != c for f in g) for c, g in groups.items()):
            return {"labels": ["order"]}
        fc = new
        if not moves[-1]:
            break
    idx.refine_clusters(
        iterations=case["iterations"], tolerance=0, move_acceptance_probability=1, group_test_batches=0
    )
    expect_eq(
        editing.RefModel.of(idx).fc,
        fc,
        f"clusters {before.clusters()} of features with documents {ds} after {case['iterations']} passes",
    )
    return {"nontrivial": sum(map(bool, moves)) > 1, "labels": [f"passes-{sum(map(bool, moves))}"]}


def resize_case(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "n": st.integers(2, 7),
            "ops": editing.ops_st(0, 4, ["delf", "merge", "create", "pinf", "pinc"]),
            "probe": st.one_of(st.none(), st.integers(0, 2**30)),
            "change": st.sampled_from([1, 1, -1, -1, -2, -3]),
            "accept": st.sampled_from([0, 0, 1]),
        }
    )


def run_resize(case, env):
    """Which clusters are dissolved and split when the number of clusters changes."""
    idx, docs, ids, path = build(env, case["corpus"], sched=case["sched"], seed=case["seed"])
    feats = features(idx)
    fids = sorted(feats)
    idx.initialise_clusters(case["n"], min_docs=1)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    before = editing.RefModel.of(idx)
    cl = before.clusters()
    free = {c: fs for c, fs in cl.items() if c not in before.pc}
    loose = {c for c, fs in free.items() if not fs & before.pf}
    probe = probe_of(case["probe"], sorted(ids.values()))
    pset = set(probe) if probe else None
    ds = {f: feats[f][3] if pset is None else feats[f][3] & pset for f in fids}
    if case["change"] > 0:
        splittable = {c for c, fs in free.items() if len(fs) > 1 and fs - before.pf}
        if not splittable:
            return {}
        # only the split itself, without any other moves
        idx.refine_clusters(
            iterations=1, target_clusters=len(cl) + 1, tolerance=0, probe_query=probe, move_acceptance_probability=0
        )
        after = editing.RefModel.of(idx)
        what = f"splitting {cl}, pinned {before.pf} {before.pc}: now {after.clusters()}"
        (new,) = set(after.clusters()) - set(cl)
        moved = {f for f in before.fc if after.fc[f] != before.fc[f]}
        expect_eq(moved, after.clusters()[new], f"{what}: features moved")
        sources = {before.fc[f] for f in moved}
        expect_eq(len(sources), 1, f"{what}: clusters split")
        (source,) = sources
        expect_eq(len(cl[source]), max(len(cl[c]) for c in splittable), f"{what}: size of the cluster split")
        can = len(cl[source] - before.pf)
        expect(max(1, can // 2) <= len(moved) <= (can + 1) // 2, f"{what}: {len(moved)} of {can} features split off")
        return {"nontrivial": len(splittable) > 1, "labels": ["split"]}
    n = min(-case["change"], len(loose) if len(loose) < len(free) else len(loose) - 1)
    if n < 1:
        return {}
    idx.refine_clusters(
        iterations=1,
        target_clusters=len(cl) - n,
        tolerance=0,
        probe_query=probe,
        group_test_batches=0,
        move_acceptance_probability=case["accept"],
    )
    after = editing.RefModel.of(idx)
    gone = set(cl) - set(after.clusters())
    groups = {c: sorted(fs) for c, fs in free.items()}
    value = {c: objective([ds[f] for f in groups[c]]) for c in free}
    what = (
        f"dissolving {n} of { {o: {x: sorted(ds[x]) for x in g} for o, g in groups.items()} }, objectives "
        f"{ {c: float(v) for c, v in value.items()} }, pinned {before.pf} {before.pc}: now {after.clusters()}"
    )
    expect_eq(len(gone), n, f"{what}: number of clusters dissolved")
    expect(gone <= loose, f"{what}: dissolved {gone}")
    worst = max(value[c] for c in gone)
    for c in loose - gone:
        expect(value[c] >= worst or close(value[c], worst), f"{what}: dissolved {gone} although {c} contributes less")
    for c in gone:
        for f in groups[c]:
            scores = {
                o: own_score([ds[x] for x in groups[o]], groups[o].index(f)) if o == c else add_score([ds[x] for x in groups[o]], ds[f])
                for o in free
            }
            if None in scores.values():
                continue
            best = max(scores.values())
            if any(close(scores[o], best) for o in gone):
                continue  # its best cluster may be one that is dissolved as well
            expect(
                close(scores[after.fc[f]], best),
                f"{what}: feature {f} of the dissolved cluster {c} moved to {after.fc[f]}, contributions { {o: float(s) for o, s in scores.items()} }",
            )
    if not case["accept"]:
        for f, c in before.fc.items():
            if c not in gone:
                expect_eq(after.fc[f], c, f"{what}: cluster of feature {f}, without accepting any move")
    return {"nontrivial": len(set(value.values())) > 1, "labels": ["dissolved"]}


SUBS = [
    Sub("measure", lambda: measure_case(gen.corpus(8, 40, min_docs=1)), run_measure, quick=2500),
    Sub("greedy", lambda: greedy_case(gen.corpus(8, 40, min_docs=1)), run_greedy, quick=1500),
    Sub("grouptest", grouptest_case, run_greedy, quick=300),
    Sub("passes", lambda: passes_case(gen.corpus(8, 60, min_docs=2)), run_passes, quick=1500),
    Sub("resize", lambda: resize_case(gen.corpus(8, 40, min_docs=1)), run_resize, quick=1000),
]
