"""P07: windows, concordances and passage texts."""
from hypothesis import strategies as st

from hv import gen, model
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, FrozenBitMap, build, feature_ids

RULE = (
    "Generated corpora (sequence, tuple, set and missing fields, None entries in some), queries, feature lists (ids "
    "and keys, several fields), window sizes, sample sizes, passages (from passage search and arbitrary spans within "
    "documents), overhangs, batch sizes and schedules; windows, concordances and passage texts are compared with "
    "slices of the documents' token lists. Non-trivial: a window or passage is clipped at neither or only one end "
    "of its document, in at least 2 documents."
)


def case_st(corpus):
    return st.fixed_dictionaries(
        {
            "corpus": corpus,
            "batch": gen.batch_size(),
            "positions": st.booleans(),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "query": st.one_of(st.just(-1), st.integers(0, 2**20)),
            "features": gen.sized(st.integers(0, 300), 1, 4),
            "ids": st.booleans(),
            "window": st.one_of(st.integers(0, 4), st.just(50)),
            "n": gen.mix(st.none(), st.integers(0, 8), st.none(), st.integers(0, 8), st.integers(9, 1200)),
            "overhang": st.one_of(st.integers(0, 4), st.just(50)),
            "pbatch": gen.mix(st.integers(1, 7), st.integers(1, 7), st.integers(1, 7), st.sampled_from([100, 1000])),
            "spans": st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99), st.integers(0, 99)), max_size=8),
            "join": st.sampled_from([" ", "", "|"]),
        }
    )


def strip_none(c):
    return c


def run(case, env):
    c = case["corpus"]
    positions = case["positions"]
    if positions and "docs" in c:
        c = dict(c)
        c["docs"] = [
            {f: [t, [v for v in vs if v is not None] if t in "LT" else vs] for f, (t, vs) in d.items()} for d in c["docs"]
        ]
    idx, docs, ids, path = build(env, c, case["batch"], positions, case["sched"], case["seed"])
    content = dict(docs)
    key_of = {i: k for k, i in ids.items()}
    all_ids = sorted(key_of)
    sel = [i for n, i in enumerate(all_ids) if case["query"] == -1 or (case["query"] >> (n % 20)) & 1]
    query = BitMap(sel)
    fid = feature_ids(idx)
    if not fid:
        return {}
    order = sorted(fid, key=lambda t: (t[0], model.sort_key(t[1])))
    feats = [order[x % len(order)] for x in case["features"]]
    args = [fid[t] if case["ids"] and n % 2 == 0 else t for n, t in enumerate(feats)]
    w, n = case["window"], case["n"]

    def expected(key):
        out, partial = {}, 0
        for f, v in feats:
            enc = content[key].get(f)
            mine = out.setdefault(f, {})
            if enc is None:
                continue
            if enc[0] == "S":
                if v in set(enc[1]):
                    mine[v] = []
            else:
                vals = list(enc[1])
                ws = []
                for i, x in enumerate(vals):
                    if x is not None and x == v:
                        ws.append(vals[max(0, i - w) : i + w + 1])
                        partial += i - w >= 0 or i + w < len(vals)
                if ws:
                    mine[v] = ws
        return out, partial

    def norm(res):
        return {f: {v: [list(x) for x in ws] for v, ws in m.items()} for f, m in res.items()}

    got = list(idx.extract_matching_feature_windows(query, args, w, random_sample_size=n))
    keys = [k for k, _, _ in got]
    if n is None:
        expect_eq(keys, sorted(key_of[i] for i in sel), "documents of the extraction, in key order")
    else:
        expect_eq(len(keys), min(n, len(sel)), f"documents in a sample of {n} of {len(sel)}")
        expect_eq(len(set(keys)), len(keys), "distinct sampled documents")
        expect(set(keys) <= {key_of[i] for i in sel}, "sampled documents are from the query")
        expect_eq(keys, sorted(keys), "key order")
    partial_docs = 0
    for k, i, res in got:
        expect_eq(ids[k], i, f"id of document {k!r}")
        want, partial = expected(k)
        partial_docs += bool(partial)
        expect_eq(norm(res), want, f"windows of document {k!r} = {content[k]} for {feats} size {w}")
    expect_eq(list(query), sel, "the query after extraction")

    # concordances: only for text tokens
    text_feats = [
        a for a, (f, v) in zip(args, feats)
        if all(
            isinstance(x, str) or x is None
            for d in content.values() if f in d and d[f][0] in "LT" for x in d[f][1]
        )
    ]
    if text_feats:
        plain = list(idx.extract_matching_feature_windows(query, text_feats, w))
        conc = list(idx.concordances(query, text_feats, w, join_character=case["join"]))
        want = [
            (k, i, {f: {v: [case["join"].join(x for x in ws if x is not None) for ws in wss] for v, wss in m.items()} for f, m in r.items()})
            for k, i, r in plain
        ]
        expect_eq([(k, i, {f: dict(m) for f, m in r.items()}) for k, i, r in conc], want, "concordances")
        if n is not None:
            s = list(idx.concordances(query, text_feats, w, random_sample_size=n))
            expect_eq(len({k for k, _, _ in s}), min(n, len(sel)), "sampled concordances")

    # passages
    passages = {}
    lists = [
        (ids[k], f, list(vs)) for k, d in docs for f, (t, vs) in sorted(d.items())
        if t in "LT" and vs and all(isinstance(v, str) for v in vs)
    ]
    listed = {}
    for d, f, vs in lists:
        listed[d, f] = vs
    for a, b, c_ in case["spans"]:
        if lists:
            d, f, vs = lists[a % len(lists)]
            s = b % len(vs)
            e = min(len(vs) - 1, s + c_ % 5)
            passages.setdefault(d, []).append((f, s, e, 1))
    if positions and case["query"] % 2:
        found = idx.score_passages_dnf([[feats[0]]], w)
        if all((d, p[0]) in listed for d, ps in found.items() for p in ps):
            passages = {d: ps for d, ps in found.items()}
    oh = case["overhang"]
    rendered = list(
        idx.render_passages_table(passages, passage_overhang=oh, batch_size=case["pbatch"], random_sample_size=n)
    )
    want_n = len(passages) if n is None else min(n, len(passages))
    expect_eq(len(rendered), want_n, "documents in the rendered passages")
    expect_eq(len({r[0] for r in rendered}), want_n, "distinct documents in the rendered passages")
    for d, k, res in rendered:
        expect(d in passages, f"rendered document {d} has no passages")
        expect_eq(key_of[d], k, f"key of document {d}")
        want = {f: set(vs) for f, (t, vs) in content[k].items() if t == "S"}
        for p in passages[d]:
            f, s, e = p[:3]
            if want.get(f) is None or isinstance(want[f], set):
                want[f] = []
            vs = listed[d, f]
            want[f].append(" ".join(vs[max(0, s - oh) : e + oh + 1]))
            partial_docs += s - oh > 0 or e + oh + 1 < len(vs)
        expect_eq(dict(res), want, f"passages of document {d} = {content[k]}, {passages[d]} overhang {oh}")
    return {"nontrivial": partial_docs >= 2, "labels": ["passages"] * bool(passages)}


def words_st():
    """Fields of strings of every kind only, which concordances can join."""
    words = st.sampled_from(["", "", " ", "a", "a", "b", "b", "c"] + gen.WORDS)
    seq = st.tuples(st.sampled_from("LLT"), gen.sized(words, 0, 8)).map(list)
    tags = st.lists(words, max_size=3, unique=True).map(lambda vs: ["S", vs])
    doc = st.fixed_dictionaries({"text": seq}, optional={"note": seq, "tag": tags})
    return st.fixed_dictionaries({"keys": gen.KEYS, "docs": gen.sized(doc, 1, 8)})


SUBS = [
    Sub("words", lambda: case_st(words_st()), run, quick=1000),
    Sub("quote", lambda: case_st(gen.corpus(10, 60, none=True)), run, quick=2500),
    Sub("large", lambda: case_st(gen.rand_corpus(2500, min_docs=600, vocab=60, length=40)), run, quick=8, thorough=200),
]
