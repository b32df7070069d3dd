"""P28: random samples, assignments, splits and moves are fair and independent."""
import math
import os
from collections import Counter

from hypothesis import strategies as st

from hv import gen
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, MemCorpus, doc_id_map, features, model_state, open_index

TECHNIQUE = "property-based testing (Hypothesis) with a statistical oracle: exact tail bounds on repeated draws"
RULE = (
    "samples: a generated corpus, set and sample size, 60-400 draws by a generated kind of sample (ids, pages, rows, windows, "
    "passages, over clusters), made one after the other, with successive seeds, or by newly opened indexes without a "
    "seed. models: a generated model is made, split, dissolved or refined 150 times from the same state, with generated "
    "probabilities of accepting moves. wide and big do so for sets of up to 200 000 ids and models of hundreds of features. How often each member, pair and member of successive draws is chosen is compared with its "
    "probability by the Chernoff bound; a deviation of less than 1 in 10^10 is a violation. Non-trivial: the number of "
    "draws suffices to see a member that is never (or always) chosen."
)
ASSUMPTIONS = ["A biased choice whose counts stay within a chance of 1 in 10^10 is not noticed."]

LIMIT = math.log(1e10)


def kl(a, p):
    """Relative entropy of coins with probabilities a and p."""
    if not 0 < p < 1:
        return 0 if a == p else math.inf
    return sum(x * math.log(x / y) for x, y in ((a, p), (1 - a, 1 - p)) if x)


class Coin:
    """Counts hits and adds up their probabilities."""

    def __init__(self):
        self.n, self.hits, self.p = 0, 0, 0.0

    def add(self, hit, p):
        self.n, self.hits, self.p = self.n + 1, self.hits + bool(hit), self.p + p

    def check(self, what):
        if not self.n:
            return False
        p = min(1, self.p / self.n)
        if p > 1 - 1e-9:
            p = 1
        a = self.hits / self.n
        # By Chernoff and Hoeffding, exp(-n * kl) bounds the chance of such a deviation.
        expect(self.n * kl(a, p) < LIMIT, f"{what}: {self.hits} times out of {self.n}, with probability {p:.3f}")
        return 0 < p < 1 and self.n * max(kl(0, p), kl(1, p)) > LIMIT


class Draws:
    """Repeated choices of k of the same members, which may be chosen with the probability k / b."""

    def __init__(self, what):
        self.what, self.last, self.i = what, None, 0
        self.coins = {}

    def coin(self, *name):
        return self.coins.setdefault(name, Coin())

    def add(self, members, chosen):
        members, b, k = sorted(members), len(members), len(chosen)
        expect(set(chosen) <= set(members), f"{self.what}: {sorted(chosen)} chosen out of {members}")
        for m in members:
            self.coin("member", m).add(m in chosen, k / b)
        if b > 1:
            for x, y in zip(members, members[1:] + members[:1]):
                self.coin("pair", x, y).add(x in chosen and y in chosen, k * (k - 1) / (b * (b - 1)))
        if self.i % 2 and self.last and self.last[0] == members:
            for m in members:
                p = k / b * len(self.last[1]) / b
                self.coin("twice in a row", m).add(m in chosen and m in self.last[1], p)
        self.last = members, set(chosen)
        self.i += 1

    def check(self):
        return any([c.check(f"{self.what}: {' '.join(map(str, name))}") for name, c in sorted(self.coins.items(), key=repr)])


KINDS = ["bitmap", "html", "table", "windows", "passages", "structured"]
MODES = ["successive", "successive", "seeds", "unseeded"]


def corpus_st():
    text = st.lists(st.sampled_from(["x", "x", "y", "z"]), min_size=1, max_size=5)
    tags = st.lists(st.sampled_from("abcdefghij"), max_size=5, unique=True)
    return gen.sized(st.fixed_dictionaries({"text": text, "tag": tags}), 2, 16)


def sample_st():
    return st.fixed_dictionaries(
        {
            "docs": corpus_st(),
            "kind": st.sampled_from(KINDS + ["structured"]),
            "mode": st.sampled_from(MODES),
            "n": st.integers(1, 6),
            "skip": st.lists(st.integers(0, 15), max_size=4),
            "clusters": st.integers(1, 5),
            "seed": gen.SEEDS,
        }
    )


def build(case, env):
    docs = [(100 + k, {"text": ["L", d["text"]], "tag": ["S", d["tag"]]}) for k, d in enumerate(case["docs"])]
    path = os.path.join(env.fresh(), "i.db")
    corpus = MemCorpus(docs)
    idx = open_index(env, path, corpus, seed=case["seed"])
    idx.index(index_positions=True)
    return path, corpus, idx


def sample(case, env):
    path, corpus, idx = build(case, env)
    ids, kind, n, mode = doc_id_map(idx), case["kind"], case["n"], case["mode"]
    feats = sorted(features(idx))
    skip = {x % len(ids) for x in case["skip"]}
    query = BitMap(i for k, i in ids.items() if i not in skip)
    word = next(k for k in (("text", w) for w in "xyz") if len(idx[k]))
    scored = {d: sorted(p) for d, p in idx.score_passages_dnf([[word]], 2).items()}
    if kind == "structured":
        idx.initialise_clusters(case["clusters"])
        docs_of = {c: set(idx.cluster_docs(c)) for c, _, _ in idx.top_cluster_features(top_k=0)}
        order = [c for c, _, _ in reversed(idx.top_cluster_features(top_k=0))]

    def draw(idx):
        """Pairs of what could be chosen and what was."""
        if kind == "bitmap":
            got = [idx.sample_bitmap(query, n)]
        elif kind == "html":
            got = [[r[0] for r in idx.render_docs_html(query, random_sample_size=n)]]
        elif kind == "table":
            got = [[ids[r[0]] for r in idx.render_docs_table(query, random_sample_size=n)]]
        elif kind == "windows":
            got = [[r[1] for r in idx.extract_matching_feature_windows(query, feats[:2], 1, random_sample_size=n)]]
        elif kind == "passages":
            got = [[r[0] for r in idx.render_passages_table(scored, random_sample_size=n)]]
        else:
            chosen, _ = idx.structured_doc_sample(docs_per_cluster=n)
            gone = set()
            for c in order:
                yield f" from cluster {c}", docs_of[c] - gone, set(chosen[c])
                gone |= set(chosen[c])
            return
        yield "", set(scored) if kind == "passages" else set(query), set(got[0])

    times = {"successive": 400, "seeds": 200, "unseeded": 60}[mode]
    draws = {}
    for i in range(times):
        if mode != "successive":
            idx.close()
            idx = open_index(env, path, corpus, seed=case["seed"] + i if mode == "seeds" else None)
        for name, members, chosen in draw(idx):
            expect_eq(len(chosen), min(n, len(members)), f"number of documents sampled by {kind}{name}")
            if members:
                draws.setdefault(name, Draws(f"{kind}{name}, {mode}, {n} of {len(members)}")).add(members, chosen)
    seen = [d.check() for d in draws.values()]
    return {"nontrivial": any(seen), "labels": [kind, mode]}


def model_st():
    return st.fixed_dictionaries(
        {
            "docs": corpus_st(),
            "kind": st.sampled_from(["init", "split", "dissolve", "moves", "moves"]),
            "clusters": st.integers(1, 5),
            "k": st.integers(1, 4),
            "p": st.sampled_from([0.0, 0.2, 0.35, 0.5, 0.5, 0.8]),
            "mode": st.sampled_from(["successive", "successive", "seeds"]),
            "seed": gen.SEEDS,
        }
    )


def models(case, env):
    path, corpus, idx = build(case, env)
    kind, n, k, p = case["kind"], case["clusters"], case["k"], case["p"]
    feats = sorted(features(idx))
    idx.initialise_clusters(n)
    start = {f: c for f, (c, _, _) in model_state(idx)[1].items()}
    size = Counter(start.values())

    def attempt(idx, change):
        """The cluster of each feature after a change, which is then undone."""
        idx.db.execute("begin")
        try:
            change(idx)
            return {f: c for f, (c, _, _) in model_state(idx)[1].items()}
        finally:
            idx.db.execute("rollback")

    if kind == "init":
        change = lambda idx: idx.initialise_clusters(n)
    elif kind == "split":
        change = lambda idx: idx.refine_clusters(iterations=1, target_clusters=len(size) + 1, move_acceptance_probability=0.0)
    elif kind == "dissolve":
        change = lambda idx: idx.refine_clusters(iterations=2, target_clusters=min(k, len(size)), move_acceptance_probability=0.0)
    else:
        change = lambda idx: idx.refine_clusters(iterations=1, move_acceptance_probability=p)
    if kind in ("dissolve", "moves"):
        every = attempt(idx, lambda idx: idx.refine_clusters(iterations=1, move_acceptance_probability=1.0))
        stay = Counter(start[f] for f in start if every[f] == start[f])
    if kind == "moves":
        # Never near the minimum size, so that each move depends on its own chance only.
        free = [f for f in start if every[f] != start[f] and stay[start[f]] > 1]
    coins = {}

    def count(name, hit, p):
        coins.setdefault(name, Coin()).add(hit, p)

    times = 150
    runs = []
    for i in range(times):
        if case["mode"] == "seeds":
            idx.close()
            idx = open_index(env, path, corpus, seed=case["seed"] + i)
        runs.append(attempt(idx, change))
    fs = sorted(start)
    neighbours = list(zip(fs, fs[1:] + fs[:1])) if len(fs) > 1 else []
    if kind == "init":
        for now in runs:
            sizes = Counter(now.values())
            for f in fs:
                for c in sizes:
                    count(f"{n} clusters made, feature {f} in {c}", now[f] == c, sizes[c] / len(fs))
            for f, g in neighbours:
                same = sum(s * (s - 1) for s in sizes.values()) / (len(fs) * (len(fs) - 1))
                count(f"{n} clusters made, features {f} and {g} in the same", now[f] == now[g], same)
        for a, b in zip(runs[::2], runs[1::2]):
            sa, sb = Counter(a.values()), Counter(b.values())
            for f in fs:
                count(f"{n} clusters made twice, feature {f} in the same", a[f] == b[f], sum(sa[c] * sb[c] for c in sa) / len(fs) ** 2)
    elif kind == "split":
        for now in runs:
            new = set(now.values()) - set(size)
            moved = {f for f in fs if now[f] != start[f]}
            expect_eq({now[f] for f in moved}, new, f"splitting {start}: clusters of moved features")
            for c in {start[f] for f in moved}:
                members = sorted(f for f in fs if start[f] == c)
                b, m = len(members), len(moved)
                for f, g in zip(members, members[1:] + members[:1]):
                    count(f"cluster of {b} split, feature {f} moved", f in moved, m / b)
                    if b > 1:
                        count(f"cluster of {b} split, features {f} and {g} moved", f in moved and g in moved, m * (m - 1) / (b * (b - 1)))
    elif kind == "dissolve":
        left = sorted(set(runs[0].values()))
        for now in runs:
            expect_eq(sorted(set(now.values())), left, "clusters left")
        to = {f: {now[f] for now in runs} for f in fs}
        # Their best cluster is dissolved as well. The others go to their best cluster, or stay.
        lost = [f for f in fs if start[f] not in left and every[f] not in left and (every[f] != start[f] or stay[start[f]] > 1)]
        free = [f for f in fs if len(to[f]) > 1 or f in lost]
        for now in runs:
            for f, g in zip(free, free[1:] + free[:1]):
                for c in left:
                    count(f"{len(size)} clusters reduced to {len(left)}, feature {f} in {c}", now[f] == c, 1 / len(left))
                if f != g:
                    count(f"features {f} and {g} in the same one of {len(left)} clusters", now[f] == now[g], 1 / len(left))
    else:
        for now in runs:
            for f, g in zip(free, free[1:] + free[:1]):
                expect(now[f] in (start[f], every[f]), f"feature {f} of {start[f]} moved to {now[f]}, always accepting to {every[f]}")
                count(f"feature {f} moved, accepting with {p}", now[f] != start[f], p)
                if f != g:
                    count(f"features {f} and {g} moved, accepting with {p}", now[f] != start[f] and now[g] != start[g], p * p)
    seen = [c.check(name) for name, c in sorted(coins.items())]
    return {"nontrivial": any(seen) or (kind == "moves" and p == 0 and bool(free)), "labels": [kind, case["mode"]]}


def wide_st():
    span = st.tuples(st.integers(0, 2**32 - 70000), st.integers(1, 60000), st.sampled_from([1, 1, 2, 7, 64]))
    return st.fixed_dictionaries(
        {
            "spans": gen.sized(span, 1, 4),
            "part": st.one_of(st.floats(0.001, 0.1), st.floats(0.1, 0.99), st.just(0.5)),
            "seed": gen.SEEDS,
        }
    )


def wide(case, env):
    """Samples of large sets: groups of members instead of single ones."""
    idx = open_index(env, os.path.join(env.fresh(), "i.db"), seed=case["seed"])
    members = BitMap()
    for start, n, step in case["spans"]:
        members |= BitMap(range(start, start + n, step))
    b = len(members)
    n = max(1, min(b - 1, int(b * case["part"]), 3000))
    if b < 2:
        return {"nontrivial": False}
    rank = {m: i for i, m in enumerate(members)}
    groups = {
        "first 1%": lambda r: r < b / 100,
        "last 1%": lambda r: r >= b - b / 100,
        "second half": lambda r: r >= b / 2,
        "second and fourth eighth": lambda r: r * 8 // b in (1, 3),
        "odd": lambda r: r % 2,
        "every seventh": lambda r: r % 7 == 0,
        "first 1000": lambda r: r < 1000,
        "not first 65536": lambda r: r >= 65536,
    }
    size = {g: sum(map(bool, map(f, range(b)))) for g, f in groups.items()}
    coins = {g: Coin() for g in groups}
    again, last = Coin(), None
    for i in range(10):
        got = idx.sample_bitmap(members, n)
        expect(len(got) == n and got <= members, f"sample of {n} out of {b}: {len(got)}, {len(got - members)} not of them")
        for g, f in groups.items():
            hits = sum(bool(f(rank[m])) for m in got)
            # Sampling without replacement deviates less than with.
            coins[g].n, coins[g].hits, coins[g].p = coins[g].n + n, coins[g].hits + hits, coins[g].p + n * size[g] / b
        if i % 2:
            again.n, again.hits, again.p = again.n + n, again.hits + len(got & last), again.p + n * n / b
        last = got
    seen = [c.check(f"samples of {n} out of {b}: {g}") for g, c in coins.items()]
    again.check(f"samples of {n} out of {b}: again in the next sample")
    return {"nontrivial": any(seen) and b > 1000, "labels": ["wide"]}


def big_st():
    return st.fixed_dictionaries(
        {
            "corpus": gen.rand_corpus(300, min_docs=60, vocab=400, length=20),
            "kind": st.sampled_from(["init", "split", "moves", "moves"]),
            "clusters": st.integers(2, 30),
            "p": st.sampled_from([0.2, 0.35, 0.5, 0.5, 0.8]),
            "seed": gen.SEEDS,
        }
    )


def big(case, env):
    """Models of hundreds of features: groups of features instead of single ones."""
    docs = gen.expand(case["corpus"])
    path, kind, n, p = os.path.join(env.fresh(), "i.db"), case["kind"], case["clusters"], case["p"]
    idx = open_index(env, path, MemCorpus(docs), seed=case["seed"])
    idx.index(doc_batch_size=100)
    fs = sorted(features(idx))
    counts = {f: x[2] for f, x in features(idx).items()}
    by_count = {f: i for i, f in enumerate(sorted(fs, key=lambda f: (counts[f], f)))}
    if len(fs) < 2:
        return {"nontrivial": False}
    groups = {
        "all": lambda f: True,
        "first quarter": lambda f: fs.index(f) < len(fs) / 4,
        "last quarter": lambda f: fs.index(f) >= len(fs) * 3 / 4,
        "odd": lambda f: f % 2,
        "rare": lambda f: by_count[f] < len(fs) / 4,
        "frequent": lambda f: by_count[f] >= len(fs) * 3 / 4,
    }
    groups = {g: {x for x in fs if f(x)} for g, f in groups.items()}
    coins = {g: Coin() for g in groups}
    what = f"{kind} of {len(fs)} features in {n} clusters"

    def count(subset, hit, p):
        for g, members in groups.items():
            for f in members & subset:
                coins[g].add(hit(f), p)

    def state():
        return {f: c for f, (c, _, _) in model_state(idx)[1].items()}

    idx.initialise_clusters(n)
    if kind == "init":
        for i in range(6):
            idx.initialise_clusters(n)
            now = state()
            sizes = Counter(now.values())
            half = {c for c in sizes if c % 2}
            count(set(fs), lambda f: now[f] in half, sum(sizes[c] for c in half) / len(fs))
    elif kind == "split":
        for i in range(6):
            idx.initialise_clusters(1)
            start = state()
            idx.refine_clusters(iterations=1, target_clusters=2, move_acceptance_probability=0.0)
            now = state()
            moved = {f for f in fs if now[f] != start[f]}
            count(set(fs), lambda f: f in moved, len(moved) / len(fs))
    else:
        for i in range(6):
            idx.initialise_clusters(n)
            start = state()
            ends = []
            for q in (1.0, p):
                idx.db.execute("begin")
                # Without group tests, which are random themselves.
                idx.refine_clusters(iterations=1, move_acceptance_probability=q, group_test_batches=len(fs))
                ends.append(state())
                idx.db.execute("rollback")
            every, now = ends
            stay = Counter(start[f] for f in fs if every[f] == start[f])
            free = {f for f in fs if every[f] != start[f] and stay[start[f]] > 1}
            for f in free:
                expect(now[f] in (start[f], every[f]), f"{what}: {f} moved to {now[f]}, always accepting to {every[f]}")
            count(free, lambda f: now[f] != start[f], p)
    seen = [c.check(f"{what}, probability {p}: {g}") for g, c in coins.items()]
    return {"nontrivial": any(seen), "labels": [kind]}


SUBS = [
    Sub("samples", sample_st, sample, quick=160),
    Sub("models", model_st, models, quick=160),
    Sub("wide", wide_st, wide, quick=300),
    Sub("big", big_st, big, quick=120),
]
