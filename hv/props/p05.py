"""P05: passage search."""
from hypothesis import strategies as st

from hv import gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import build, feature_ids, short

RULE = (
    "Generated corpora with sequence fields (also mixed sequence/set fields, tuples, empty documents), batch sizes "
    "and schedules, and queries of 1-4 clauses of feature ids or keys over one or several fields with windows 0 to "
    "beyond document length. For 1-2 clauses per field the passages are compared exactly with a per-document "
    "reference; for more clauses every passage must start and end at a match lying within the window of a match of "
    "every clause, hold a count between two computable bounds, be separated from the next by more than the window, "
    "and cover every set of one match per clause that is pairwise within the window. Non-trivial: at least 2 "
    "documents with passages or a document with 2 passages."
)
ASSUMPTIONS = [
    "For three or more clauses the exact extent of a passage depends on the order in which clauses are combined; "
    "only the stated guarantees are checked there."
]

CLAUSE = st.lists(st.integers(0, 400), min_size=1, max_size=3)


def case_st(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": gen.batch_size(),
            "sched": gen.sched(),
            "queries": gen.sized(
                st.fixed_dictionaries(
                    {
                        "clauses": gen.sized(CLAUSE, 1, 4),
                        "window": st.one_of(st.integers(0, 6), st.sampled_from([10, 100])),
                        "field": st.integers(0, 3),  # 0: any field
                        "ids": st.booleans(),
                    }
                ),
                1,
                4,
            ),
        }
    )


def runs(positions, w):
    out = []
    for p in sorted(positions):
        if out and p - out[-1][-1] <= w:
            out[-1].append(p)
        else:
            out.append([p])
    return out


def near(p, ms, w):
    if len(ms) > 2 * w + 1:
        return any(q in ms for q in range(p - w, p + w + 1))
    return any(abs(p - m) <= w for m in ms)


def exact(matches, w):
    """matches: list of 1-2 sets of positions. -> list of (start, end, count)"""
    if len(matches) == 1:
        keep = set(matches[0])
    else:
        a, b = matches
        keep = {p for p in a if near(p, b, w)} | {p for p in b if near(p, a, w)}
    return [(r[0], r[-1], len(r)) for r in runs(keep, w)]


def check_many(what, matches, w, got):
    union = set().union(*matches)
    upper = {p for p in union if all(near(p, m, w) for m in matches)}
    lower = set()
    for p in union:
        for s in range(p - w, p + 1):
            if all(any(s <= q <= s + w for q in m) for m in matches):
                lower.add(p)
                break
    prev = None
    for start, end, count in got:
        expect(start in upper and end in upper, f"{what}: passage {start}-{end} does not start and end at matches {sorted(upper)}")
        expect(start <= end and (count == 1) == (start == end), f"{what}: passage {(start, end, count)}")
        lo = sum(start <= p <= end for p in lower)
        hi = sum(start <= p <= end for p in upper)
        expect(lo <= count <= hi, f"{what}: passage {start}-{end} counts {count}, must be in {lo}..{hi}")
        if prev is not None:
            expect(start - prev > w, f"{what}: passages at {prev} and {start} are not separated")
        prev = end
    for group in runs(lower, 0):
        p = group[0]
        expect(any(s <= p <= e for s, e, _ in got), f"{what}: match at {p} is missing from {got}")
    for r in runs(lower, w):
        # neighbouring matches at most w apart belong to one passage
        expect(any(s <= r[0] and r[-1] <= e for s, e, _ in got), f"{what}: matches {r} are split over {got}")


def run(case, env):
    idx, docs, ids, path = build(env, case["corpus"], case["batch"], True, case["sched"])
    fid = feature_ids(idx)
    if not fid:
        return {}
    order = sorted(fid, key=lambda t: (t[0], model.sort_key(t[1])))
    counts = model.position_counts(docs)
    fields = sorted(f for f, n in counts.items() if n)
    expect_eq(set(idx.positional_fields), set(fields), "fields with positions")
    nontrivial, labels = False, []
    for q in case["queries"]:
        pool_ = order
        if q["field"] and fields:
            f = fields[(q["field"] - 1) % len(fields)]
            pool_ = [t for t in order if t[0] == f]
        clauses = [[pool_[x % len(pool_)] for x in c] for c in q["clauses"]]
        w = q["window"]
        query = [[fid[t] if q["ids"] else t for t in c] for c in clauses]
        res = idx.score_passages_dnf(query, w)
        got = {d: sorted(map(tuple, ps)) for d, ps in res.items() if ps}
        for d, ps in res.items():
            expect(d in set(ids.values()), f"passages for unknown document {d}")
            for p in ps:
                expect(p[0] in fields, f"passage in field {p[0]!r} without positions")
        total = 0
        for f in fields:
            fc = [s for s in ({v for g, v in c if g == f} for c in clauses) if s]
            seqs = model.sequences(docs, ids, f)
            per_doc = {d: [tuple(p[1:]) for p in ps if p[0] == f] for d, ps in got.items()}
            for d in set(seqs) | set(per_doc):
                mine = per_doc.get(d, [])
                what = f"document {d} field {f!r} clauses {fc} window {w} tokens {short(seqs.get(d), 2000)}"
                if not fc:
                    expect_eq(mine, [], f"{what}: field not queried")
                    continue
                seq = seqs.get(d, [])
                matches = [{i for i, v in enumerate(seq) if v in c} for c in fc]
                if len(fc) <= 2:
                    expect_eq(mine, exact(matches, w), f"{what}: passages")
                else:
                    if not all(matches):
                        expect_eq(mine, [], f"{what}: document lacks a clause")
                    else:
                        check_many(what, matches, w, mine)
                    labels.append("three-or-more" if mine else "three-or-more-empty")
                total += len(mine)
        nontrivial |= total >= 2
    return {"nontrivial": nontrivial, "labels": labels}


DENSE = st.fixed_dictionaries(
    {
        "keys": gen.KEYS,
        "docs": gen.sized(
            st.fixed_dictionaries({"text": st.tuples(st.just("L"), gen.seq_values(12, words=["a", "b", "c", "d", "x"]))}),
            1,
            6,
        ),
    }
)

def run_large(case, env):
    """Batches of a few documents would only repeat what the other sub-checks do, slowly."""
    return run(dict(case, batch=max(case["batch"], 97)), env)


SUBS = [
    Sub("passages", lambda: case_st(gen.corpus(8, 60)), run, quick=2000),
    Sub("dense", lambda: case_st(DENSE), run, quick=2500),
    Sub("large", lambda: case_st(gen.rand_corpus(2500, min_docs=800, vocab=30, length=60)), run_large, quick=8, thorough=200),
    Sub("long", lambda: case_st(gen.rand_corpus(8, min_docs=2, vocab=30, length=60000)), run, quick=12, thorough=200),
]
