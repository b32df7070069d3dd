"""P29: documents are streamed: bounded batches, each document read once, and only those that are needed."""
import itertools
import os
from collections import Counter

from hypothesis import strategies as st

from hv import gen, pool
from hv.core import Sub, expect, expect_eq
from hv.util import BitMap, MemCorpus, doc_id_map, features, open_index

TECHNIQUE = "property-based testing (Hypothesis) with a corpus and pool that record the history of accesses"
RULE = (
    "Generated corpus of up to 120 documents, batch size, number of workers and order in which tasks complete. The corpus records when "
    "each key is read, which documents are requested together and which are indexed, and how many tasks are unfinished; "
    "then generated queries are read in part or completely, with and without sampling, and the requests for documents "
    "compared with the documents of the answer. Non-trivial: more batches than may be under way at once."
)
ASSUMPTIONS = ["The corpus itself gives its documents one at a time."]

LOG = {}


def reset(pool_obj=None):
    LOG.clear()
    LOG.update(keys=0, listed=0, requests=[], given=[], indexed=Counter(), rendered=[], ahead=0, under_way=0, pool=pool_obj)


class LogCorpus(MemCorpus):
    CORPUS_TYPE = "LogCorpus"

    def keys(self):
        LOG["listed"] += 1
        for k in super().keys():
            LOG["keys"] += 1
            LOG["ahead"] = max(LOG["ahead"], LOG["keys"] - sum(LOG["indexed"].values()))
            if LOG["pool"]:
                LOG["under_way"] = max(LOG["under_way"], len(LOG["pool"].pending))
            yield k

    def docs(self, doc_keys=None):
        doc_keys = None if doc_keys is None else list(doc_keys)
        LOG["requests"].append(doc_keys)
        for item in super().docs(doc_keys):
            LOG["given"].append(item[0])
            yield item

    def index(self, doc):
        LOG["indexed"][doc["key"]] += 1
        return super().index(doc)

    def render_docs_html(self, doc_keys):
        LOG["rendered"].append(list(doc_keys))
        return super().render_docs_html(doc_keys)

    def render_docs_table(self, doc_keys):
        LOG["rendered"].append(list(doc_keys))
        return super().render_docs_table(doc_keys)


def corpus_st():
    rand = gen.rand_corpus(120, min_docs=10, vocab=12, length=6)
    return gen.mix(gen.small_corpus(10), rand, rand)


READS = ["docs", "docs", "windows", "windows", "concordances", "html", "table", "passages", "passages"]


def case_st():
    return st.fixed_dictionaries(
        {
            "corpus": corpus_st(),
            "batch": st.one_of(st.integers(1, 6), st.integers(1, 40)),
            "workers": st.one_of(st.none(), st.integers(1, 5)),
            "positions": st.booleans(),
            # Tasks that complete as late as possible leave most of them under way.
            "sched": gen.mix(gen.sched(), st.fixed_dictionaries({"workers": st.integers(1, 4), "choices": st.sampled_from([[0], [1], [2], [0, 1, 2]])})),
            "runs": st.integers(1, 2),
            "reads": gen.sized(
                st.fixed_dictionaries(
                    {
                        "kind": st.sampled_from(READS),
                        "n": st.one_of(st.none(), st.integers(1, 8)),
                        "stop": st.one_of(st.none(), st.integers(0, 5)),
                        "batch": st.integers(1, 6),
                        "skip": st.lists(st.integers(0, 200), max_size=3),
                    }
                ),
                1,
                4,
            ),
            "seed": gen.SEEDS,
        }
    )


def once(keys, what):
    expect_eq([k for k, n in Counter(keys).items() if n > 1], [], f"{what}: keys requested more than once")


def flat(requests):
    return [k for r in requests for k in r]


def run(case, env):
    docs = gen.expand(case["corpus"])
    corpus = LogCorpus(docs)
    p = pool.SchedPool(case["sched"]["workers"], case["sched"]["choices"])
    idx = open_index(env, os.path.join(env.fresh(), "i.db"), corpus, seed=case["seed"], pool_obj=p)
    workers, batch = case["workers"] or case["sched"]["workers"], case["batch"]
    keys = [k for k, _ in docs]
    for _ in range(case["runs"]):
        reset(p)
        idx.index(doc_batch_size=batch, workers=case["workers"], index_positions=case["positions"])
        what = f"indexing {len(keys)} documents in batches of {batch} with {workers} workers"
        expect_eq(LOG["listed"], 1, f"{what}: times the keys were read")
        expect(None not in LOG["requests"], f"{what}: all documents requested at once")
        expect(all(len(r) <= batch for r in LOG["requests"]), f"{what}: batches of {[len(r) for r in LOG['requests']]}")
        expect_eq(sorted(flat(LOG["requests"]), key=repr), sorted(keys, key=repr), f"{what}: keys requested")
        expect_eq(sorted(LOG["given"], key=repr), sorted(keys, key=repr), f"{what}: documents read")
        expect_eq(LOG["indexed"], Counter(keys), f"{what}: documents indexed")
        expect(LOG["under_way"] <= workers + 1, f"{what}: {LOG['under_way']} batches unfinished while more keys are read")
        expect(LOG["ahead"] <= (workers + 2) * batch, f"{what}: {LOG['ahead']} keys read ahead of the documents")
    labels = set()
    key_of = {i: k for k, i in doc_id_map(idx).items()}
    feats = features(idx)
    for r in case["reads"]:
        kind, n, stop = r["kind"], r["n"], r["stop"]
        query = BitMap(key_of) - BitMap(x % (len(key_of) + 1) for x in r["skip"])
        chosen = sorted(f for f in feats if isinstance(feats[f][1], str))[:2]
        if kind == "concordances":
            # Only text can be joined to text.
            other = {x[0] for x in feats.values() if not isinstance(x[1], str)}
            chosen = [f for f in chosen if feats[f][0] not in other]
        scored = None
        if kind == "passages":
            f = next((f for f in chosen if feats[f][0] == "text"), None)
            if not case["positions"] or f is None:
                continue
            scored = {d: sorted(x) for d, x in idx.score_passages_dnf([[f]], 2).items()}
            query = BitMap(scored)
        if kind == "docs":
            n = None
        reset()
        what = f"{kind} of {len(query)} documents, sample {n}, {stop} read"
        if kind in ("html", "table"):
            rows = list((idx.render_docs_html if kind == "html" else idx.render_docs_table)(query, random_sample_size=n))
            requested = flat(LOG["rendered"]) + flat(LOG["requests"])
            got = [x[1] if kind == "html" else x[0] for x in rows]
            expect_eq(sorted(requested, key=repr), sorted(got, key=repr), f"{what}: documents rendered")
            once(requested, what)
        elif kind == "passages":
            rows = list(idx.render_passages_table(scored, batch_size=r["batch"], random_sample_size=n))
            got = [key_of[x[0]] for x in rows]
            expect_eq(sorted(LOG["given"], key=repr), sorted(got, key=repr), f"{what}: documents read")
            expect(all(x is not None and len(x) <= r["batch"] for x in LOG["requests"]), f"{what}: requested {LOG['requests']}, batches of {r['batch']}")
        else:
            if kind == "docs":
                rows = idx.docs(query)
            elif kind == "windows":
                rows = idx.extract_matching_feature_windows(query, chosen, 1, random_sample_size=n)
            else:
                rows = idx.concordances(query, chosen, 1, random_sample_size=n)
            total = len(query) if n is None else min(n, len(query))
            read = list(rows if stop is None else itertools.islice(rows, stop))
            given = list(LOG["given"])
            if stop is None or stop > total:
                expect_eq(len(given), total, f"{what}: number of documents read")
            else:
                expect(len(given) <= stop + 1, f"{what}: {len(given)} documents read for {len(read)} of the answer")
            expect(None not in LOG["requests"], f"{what}: all documents requested")
            requested = flat(LOG["requests"])
            once(requested, what)
            expect(len(requested) <= total, f"{what}: {len(requested)} documents requested")
            expect(set(requested) <= {key_of[i] for i in query}, f"{what}: other documents requested")
            if hasattr(rows, "close"):
                rows.close()
        labels.add(kind)
    return {"nontrivial": len(keys) > batch * (workers + 2), "labels": sorted(labels)}


SUBS = [Sub("streams", case_st, run, quick=1600)]
