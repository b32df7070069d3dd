"""P23: the command line does the same as the library calls."""
import collections
import concurrent.futures as cf
import csv
import hashlib
import os
import signal
import sqlite3
import subprocess
import sys
import time

from hv import pool

# Commands make their own process pools; most cases run them on a schedule-controlled pool.
_RealPool = cf.ProcessPoolExecutor
_choices = [0]
_use_real = [False]


def _make_pool(*args, **kwargs):
    if _use_real[0]:
        kwargs["max_workers"] = 2
        return _RealPool(*args[1:], **kwargs)
    return pool.SchedPool(kwargs.get("max_workers") or 3, _choices)


cf.ProcessPoolExecutor = _make_pool

from click.testing import CliRunner
from hypothesis import strategies as st
import networkx as nx

from hv import faults, gen
from hv.core import Sub, expect, expect_eq, short
from hv.props import p21, p22
from hv.util import Index, doc_id_map, features, model_state, raw

import cherrypy
import hyperreal.cli
from hyperreal.corpus import PlainTextSqliteCorpus, StackExchangeCorpus

TECHNIQUE = "stateful property-based testing (Hypothesis): differential of click commands against library calls"
RULE = (
    "A plain text file or Stack Exchange dump is turned into a corpus and indexed by the commands, followed by a "
    "generated sequence of commands (model with generated options, restarts confirmed or not, sample, export clusters, "
    "export graph, index again, serve up to the point of accepting requests, and all of them on files that are not an "
    "index). After each command the index is compared with a copy on which the library calls were made, and written "
    "files are read back and compared with the library's results. Non-trivial: a model with at least 2 clusters was "
    "made and a file exported from it (commands), or a file that is not an index refused (refusals)."
)
ASSUMPTIONS = [
    "Process pools made by the commands are replaced by a schedule-controlled pool with the same interface; sub "
    "'processes' runs a few sequences on the real ones. CherryPy's engine is not started for serve, except by sub 'serving', which runs the "
    "command as a process on a free port.",
    "Documents have no control characters (GraphML is XML and cannot hold them).",
]

WORDS = ["alpha", "beta", "Gamma", "delta", "x,y", '"q"', "a<b", "&", "naïve", "日本", "don't", "epsilon", "3.14"]
LINE = st.lists(st.sampled_from(WORDS), min_size=1, max_size=7).map(" ".join)
X = st.integers(0, 200)
MODEL = st.fixed_dictionaries(
    {
        "cmd": st.just("model"),
        "clusters": st.sampled_from([None, 1, 2, 3, 4, 5, 6]),
        "iterations": st.sampled_from([None, 0, 1, 2, 3]),
        "min_docs": st.integers(1, 2),
        "field": st.sampled_from([None] * 6 + ["one", "all", "absent"]),
        "restart": st.sampled_from([None, None, "y\n", "y\n", "n\n", ""]),
        "tolerance": st.sampled_from([None, 0, 0.3, 1]),
        "accept": st.sampled_from([None, 1, 0.2]),
        "min_features": st.sampled_from([None, 1, 2]),
        "batches": st.sampled_from([None, None, 0, 1, 2]),
        "top_k": st.sampled_from([None, 1, 3]),
        "seed": st.integers(0, 1000),
        "x": X,
    }
)
EXPORT = st.fixed_dictionaries(
    {
        "cmd": st.sampled_from(["sample", "sample", "clusters", "clusters", "graph", "graph", "serve"]),
        "per": st.sampled_from([None, 0, 0, 1, 2, 100]),
        "k": st.sampled_from([None, 0, 1, 3, 50]),
        "label": st.sampled_from([None, "--include-field-in-label", "--exclude-field-in-label"]),
        "exists": st.booleans(),
        "plain": st.booleans(),
    }
)
INDEX = st.fixed_dictionaries(
    {"cmd": st.just("index"), "batch": st.sampled_from([None, 1, 2, 5]), "positions": st.sampled_from([None, "True", "False", "0", "yes"])}
)
REFUSE = st.fixed_dictionaries(
    {
        "cmd": st.just("refuse"),
        "which": st.sampled_from(["sample", "clusters", "graph", "serve", "serve-corpus", "serve-tweets", "index-tweets", "model", "index"]),
        "kind": st.sampled_from(["text", "empty", "sqlite", "corpus", "app"]),
        "exists": st.booleans(),
    }
)


# A plain text file with a document of many words.
WIDE = st.fixed_dictionaries(
    {"lines": st.tuples(gen.sized(LINE, 2, 5), st.integers(300, 1500)).map(lambda t: t[0] + [" ".join(f"w{i}" for i in range(t[1]))])}
)


def case_st(lo, hi, source=None):
    return st.fixed_dictionaries(
        {
            "source": source or gen.mix(
                st.fixed_dictionaries({"lines": gen.sized(LINE, 2, 9)}),
                st.fixed_dictionaries({"lines": gen.sized(LINE, 2, 9)}),
                st.fixed_dictionaries({"load": p21.load_st()}),
            ),
            "choices": gen.CHOICES,
            "first": INDEX,
            "model": MODEL,
            "steps": gen.sized(gen.mix(MODEL, EXPORT, EXPORT, EXPORT, INDEX, REFUSE), lo, hi),
        }
    )


def digest(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def contents(path):
    """What an index holds, by field and value."""
    db = raw(path)
    try:
        keys = dict(db.execute("select doc_id, doc_key from doc_key"))
        post = {
            (f, v): (n, sorted(keys[d] for d in bm))
            for f, v, n, bm in db.execute("select field, value, docs_count, doc_ids from inverted_index")
            if n
        }
        pos = collections.Counter()
        for f, v, n in db.execute(
            "select field, value, position_count from position_index inner join inverted_index using(feature_id)"
        ):
            pos[f, v] += n
        parts = sorted((r[0], r[1], r[2]) for r in db.execute("select field, first_doc_id, docs_count from position_doc_map"))
        return sorted(keys.items()), post, dict(pos), parts, sorted(db.execute("select * from field_summary"), key=repr)
    finally:
        db.close()


class World:
    def __init__(self, case, env):
        self.env = env
        self.d = env.fresh()
        self.n = 0
        self.index, self.lib = self.path("index.db"), self.path("library.db")
        self.corpus_path = self.path("corpus.db")
        if "lines" in case["source"]:
            self.group, self.klass = "plaintext-corpus", PlainTextSqliteCorpus
        else:
            self.group, self.klass = "stackexchange-corpus", StackExchangeCorpus
        self.opened = []
        env.cleanups.append(lambda: [c.close() for c in self.opened])

    def path(self, name):
        return os.path.join(self.d, name)

    def cli(self, *args, input=None):
        # in the background of some commands, the index is closed only when it is collected
        r = CliRunner().invoke(hyperreal.cli.cli, [str(a) for a in args], input=input)
        return r

    def ok(self, *args, input=None):
        r = self.cli(*args, input=input)
        expect(r.exit_code == 0, f"{' '.join(map(str, args))}: exit code {r.exit_code}: {r.exception!r} {short(r.output)}")
        return r

    def corpus(self):
        c = self.klass(self.corpus_path)
        self.opened.append(c)
        return c

    def library(self, path=None, seed=None):
        idx = Index(path or self.lib, corpus=self.corpus(), pool=pool.SchedPool(2, [0, 1]), random_seed=seed)
        self.opened.append(idx)
        return idx

    def sync(self):
        """The library's copy becomes a copy of what the commands made."""
        src, dst = sqlite3.connect(self.index), sqlite3.connect(self.lib)
        src.backup(dst)
        src.close()
        dst.close()


def make_corpus(w, case):
    src = case["source"]
    if "lines" in src:
        text = w.path("t.txt")
        with open(text, "w", encoding="utf-8") as f:
            f.write("\n".join(src["lines"]) + "\n")
        w.ok("plaintext-corpus", "create", text, w.corpus_path)
        want = [x if not (x[0] == x[-1] == '"' and len(x) > 1) else None for x in src["lines"]]
        got = [d["text"] for _, d in w.corpus().docs()]
        expect_eq(len(got), len(want), "create: number of documents")
        expect(all(b is None or a == b for a, b in zip(got, want)), f"create: documents {got}, lines {src['lines']}")
        return
    load = dict(src["load"], cut=None)
    posts, comments, users = p21.rows_of(load)
    names = []
    for name, rows in (("posts", posts), ("comments", comments), ("users", users)):
        names.append(w.path(name + ".xml"))
        with open(names[-1], "wb") as f:
            f.write(p21.xml(name, p21.public(rows)))
    site = p21.SITES[load["site"]]
    w.ok("stackexchange-corpus", "add-site", *names, site, w.corpus_path)
    other = StackExchangeCorpus(w.path("other.db"))
    w.opened.append(other)
    other.add_site_data(*names, site)
    plain = lambda c: [(k, dict(doc, Tags=sorted(doc["Tags"]))) for k, doc in c.docs()]
    expect_eq(plain(w.corpus()), plain(other), "add-site: documents, against add_site_data")


def do_index(w, step):
    args = [w.group, "index", w.corpus_path, w.index]
    kw = {"doc_batch_size": 5000, "index_positions": True}
    if step["batch"] is not None:
        args += ["--doc-batch-size", step["batch"]]
        kw["doc_batch_size"] = step["batch"]
    if step["positions"] is not None:
        args += ["--index-positions", step["positions"]]
        kw["index_positions"] = step["positions"] in ("True", "yes")
    w.ok(*args)
    lib = w.library()
    lib.index(**kw)
    lib.close()
    expect_eq(contents(w.index), contents(w.lib), f"{args[1:2] + args[4:]}: contents, against index({kw})")
    mine, libs = model_names(w.index), model_names(w.lib)
    expect_eq(mine, libs, f"{args[1:2] + args[4:]}: model, against index({kw})")
    w.sync()


def model_names(path):
    db = raw(path)
    try:
        names = {i: (f, v) for i, f, v in db.execute("select feature_id, field, value from inverted_index")}
        cl, fc = model_state_db(db)
        return cl, {names[f]: r for f, r in fc.items()}
    finally:
        db.close()


def model_state_db(db):
    class Holder:
        pass

    h = Holder()
    h.db = db
    return model_state(h)


def do_model(w, step):
    lib = w.library(seed=step["seed"])
    has = bool(lib.cluster_ids)
    args = ["model", w.index, "--min-docs", step["min_docs"], "--random-seed", step["seed"]]
    kw = {}
    if step["clusters"] is not None:
        args += ["--clusters", step["clusters"]]
    for name, opt, arg, default in (
        ("iterations", "--iterations", "iterations", 10),
        ("tolerance", "--tolerance", "tolerance", 0.01),
        ("accept", "--move-acceptance-probability", "move_acceptance_probability", 0.5),
        ("min_features", "--minimum-cluster-features", "minimum_cluster_features", 1),
        ("batches", "--group-test-batches", "group_test_batches", None),
        ("top_k", "--group-test-top-k", "group_test_top_k", 2),
    ):
        kw[arg] = default
        if step[name] is not None:
            args += [opt, step[name]]
            kw[arg] = step[name]
    fields = [r[0] for r in lib.indexed_field_summary()]
    include = None
    if step["field"] == "absent":
        include = ["no such field"]
    elif step["field"] == "all" and fields:
        include = fields
    elif step["field"] == "one" and fields:
        include = [fields[step["x"] % len(fields)]]
    for f in include or []:
        args += ["--include-field", f]
    if step["restart"] is not None:
        args += ["--restart"]
    what = " ".join(map(str, args[:1] + args[2:])) + f" answering {step['restart']!r}"
    before = faults.snapshot(w.index)
    r = w.cli(*args, input=step["restart"])
    if has and step["restart"] in ("n\n", ""):
        expect(r.exit_code != 0, f"{what}: exit code 0 without confirmation")
        expect(faults.snapshot(w.index) == before, f"{what}: the index changed without confirmation")
        lib.close()
        return
    error = None
    try:
        n = step["clusters"] or (None if has and step["restart"] is None else 64)
        if not has or step["restart"] is not None:
            lib.initialise_clusters(n_clusters=n, min_docs=step["min_docs"], include_fields=include)
        lib.refine_clusters(target_clusters=n, **kw)
    except Exception as e:
        error = e
    lib.close()
    if error is not None:
        expect(r.exit_code != 0, f"{what}: exit code 0, but the library raises {error!r}")
    else:
        expect(r.exit_code == 0, f"{what}: exit code {r.exit_code}: {r.exception!r}")
    a, b = faults.snapshot(w.index), faults.snapshot(w.lib)
    expect_eq([t for t in a if a[t] != b[t]], [], f"{what}: tables that differ from the library calls")


def read_csv(path):
    with open(path, newline="", encoding="utf-8") as f:
        return list(csv.reader(f))


def out_file(w, step, ext):
    w.n += 1
    out = w.path(f"out{w.n}.{ext}")
    if step["exists"]:
        with open(out, "w") as f:
            f.write("old contents, longer than anything that is exported here\n" * 200)
    return out


def do_export(w, step):
    cmd = step["cmd"]
    before = faults.snapshot(w.index)
    lib = w.library()
    if cmd == "clusters":
        out = out_file(w, step, "csv")
        args = ["export", "clusters", w.index, out] + (["--top-k-features", step["k"]] if step["k"] is not None else [])
        w.ok(*args)
        rows = read_csv(out)
        k = 10 if step["k"] is None else (step["k"] or 2**62)
        expect_eq(rows[0], ["cluster_id", "feature_id", "field", "value", "docs_count"], "export clusters: heading")
        want = [[str(c), *map(str, row)] for c, _, fs in lib.top_cluster_features(top_k=k) for row in fs]
        expect_eq(rows[1:], want, f"export clusters --top-k-features {step['k']}")
    elif cmd == "graph":
        out = out_file(w, step, "graphml")
        args = ["export", "graph", w.index, out] + (["--top-k-features", step["k"]] if step["k"] is not None else [])
        args += [step["label"]] if step["label"] else []
        w.ok(*args)
        want = lib.create_cluster_cooccurrence_graph(
            top_k=5 if step["k"] is None else step["k"], include_field_in_label=step["label"] != "--exclude-field-in-label"
        )
        got = nx.read_graphml(out, node_type=int)
        expect_eq(
            {n: {a: v for a, v in d.items()} for n, d in got.nodes(data=True)},
            {n: dict(d) for n, d in want.nodes(data=True)},
            f"export graph {step}: nodes",
        )
        edges = lambda g: {frozenset((a, b)): d["weight"] for a, b, d in g.edges(data=True)}
        expect_eq(edges(got), edges(want), f"export graph {step}: edges")
    elif cmd == "serve":
        check_serve(w, step)
        return 0
    else:
        out = out_file(w, step, "csv")
        args = [w.group, "sample", w.corpus_path, w.index, out]
        args += ["--docs-per-cluster", step["per"]] if step["per"] is not None else []
        w.ok(*args)
        check_sample(w, step, lib, read_csv(out))
    lib.close()
    expect(faults.snapshot(w.index) == before, f"{cmd} {step}: the index changed")
    return len(features_in_model(before))


def features_in_model(snapshot):
    return {r[1] for r in snapshot["feature_cluster"]}


def check_sample(w, step, lib, table):
    per = 50 if step["per"] is None else step["per"]
    what = f"sample --docs-per-cluster {per}"
    corpus = w.corpus()
    key_of = {i: k for k, i in doc_id_map(lib).items()}
    cdocs = {c: set(lib.cluster_docs(c)) for c in lib.cluster_ids}
    fields = list(corpus.table_fields)
    header = table[0]
    expect_eq(header[: 2 + len(fields)], ["doc_key", "sampled_cluster"] + fields, f"{what}: heading")
    id_of = {str(k): i for i, k in key_of.items()}
    taken, by_cluster = set(), collections.defaultdict(set)
    rows = dict((str(k), r) for k, r in corpus.render_docs_table(list(key_of.values())))
    for r in table[1:]:
        expect_eq(len(r), len(header), f"{what}: values of a row")
        rec = dict(zip(header, r))
        key, c = rec["doc_key"], int(rec["sampled_cluster"])
        expect(key in id_of, f"{what}: unknown document {key}")
        i = id_of[key]
        expect(i not in taken, f"{what}: document {key} sampled twice")
        expect(i in cdocs.get(c, ()), f"{what}: document {key} does not belong to cluster {c}")
        taken.add(i)
        by_cluster[c].add(i)
        for f in fields:
            want = rows[key][f]
            if f == "tags":
                expect_eq(sorted(rec[f].split(", ")), sorted(want.split(", ")), f"{what}: tags of {key}")
            else:
                expect_eq(rec[f], "" if want is None else str(want), f"{what}: {f} of document {key}")
        marks = {h for h in header[2 + len(fields) :] if rec[h]}
        expect_eq(marks, {f"cluster_{o}" for o in cdocs if i in cdocs[o]}, f"{what}: cluster marks of {key}")
    # sizes, cluster by cluster in the order of the file
    order = list(dict.fromkeys(int(r[1]) for r in table[1:]))
    sizes = [len(cdocs[c]) for c in order]
    expect_eq(sizes, sorted(sizes), f"{what}: order of the clusters")
    seen = set()
    for c in order:
        left = len(cdocs[c] - seen)
        expect_eq(len(by_cluster[c]), left if per == 0 else min(per, left), f"{what}: sample of cluster {c}")
        seen |= by_cluster[c]
    for c in set(cdocs) - set(order):
        expect(cdocs[c] <= taken, f"{what}: nothing sampled from cluster {c}")


class no_engine:
    """The web server is set up, but not started."""

    def __enter__(self):
        e = cherrypy.engine
        self.old = {n: e.__dict__.get(n) for n in ("start", "wait", "block")}
        e.start = e.wait = lambda *a, **k: None
        self.blocked = 0
        e.block = self.block
        self.sub = type(e.signals).subscribe
        type(e.signals).subscribe = lambda self: None
        return self

    def block(self, *a, **k):
        self.blocked += 1

    def __exit__(self, *a):
        e = cherrypy.engine
        for n, v in self.old.items():
            if v is None:
                e.__dict__.pop(n, None)
            else:
                setattr(e, n, v)
        type(e.signals).subscribe = self.sub


def serve_args(w, plain, index):
    return ["serve", index] if plain else [w.group, "serve", w.corpus_path, index]


def check_serve(w, step):
    cherrypy.tree.apps.clear()
    # used within the lifetime of the command's pool only
    with no_engine() as engine:
        w.ok(*serve_args(w, step["plain"], w.index))
    expect(engine.blocked, "serve: ended without waiting for requests")
    app = cherrypy.tree.apps.get("/index")
    expect(app is not None, "serve: nothing mounted")
    server = app.config["/"]["index_server"]
    server.pool = pool.SchedPool(2, [0])
    served = server.index(0)
    w.opened.append(served)
    lib = w.library()
    expect_eq(served.cluster_ids, lib.cluster_ids, "serve: clusters")
    expect_eq(doc_id_map(served), doc_id_map(lib), "serve: documents of the index")
    if step["plain"]:
        expect(served.corpus is None, "serve: a corpus without being given one")
    else:
        expect_eq(
            [d for _, d in served.corpus.docs()], [d for _, d in w.corpus().docs()], "serve: documents of the corpus"
        )
    served.close()
    lib.close()


def foreign(w, kind):
    w.n += 1
    p = w.path(f"foreign{w.n}")
    if kind == "text":
        with open(p, "w") as f:
            f.write("not a database\n" * 100)
    elif kind == "empty":
        open(p, "w").close()
    elif kind == "corpus":
        c = PlainTextSqliteCorpus(p)
        c.replace_docs(["a", "b"])
        c.db.execute("pragma journal_mode=delete")
        c.close()
    else:
        db = sqlite3.connect(p)
        db.execute("create table cluster(cluster_id, note)")
        db.execute("insert into cluster values(1, 'mine')")
        if kind == "app":
            db.execute("pragma application_id=12345")
            db.execute("pragma user_version=4")
        db.commit()
        db.close()
    return p


def stored(p, kind):
    if kind in ("text", "empty"):
        return digest(p)
    db = sqlite3.connect(p)
    try:
        return list(db.iterdump())
    finally:
        db.close()


def no_tweets(w):
    from hv.props.p25 import SCHEMA

    p = w.path(f"tweets{w.n}")
    db = sqlite3.connect(p)
    db.executescript(SCHEMA)
    db.execute("insert into metadata values('twittersphere_schema_version', 15)")
    db.commit()
    db.close()
    return p


def do_refuse(w, step):
    which, kind = step["which"], step["kind"]
    if kind == "empty" and which in ("model", "index", "index-tweets"):
        return  # an empty file is an empty database
    p = foreign(w, kind)
    before, exact = stored(p, kind), digest(p)
    out = out_file(w, step, "out") if which in ("sample", "clusters", "graph") else None
    out_before = digest(out) if out and step["exists"] else None
    with no_engine():
        if which == "sample":
            r = w.cli(w.group, "sample", w.corpus_path, p, out)
        elif which in ("clusters", "graph"):
            r = w.cli("export", which, p, out)
        elif which == "serve":
            r = w.cli("serve", p)
        elif which == "serve-corpus":
            r = w.cli(w.group, "serve", w.corpus_path, p)
        elif which.endswith("-tweets"):
            r = w.cli("twittersphere-corpus", which.split("-")[0], no_tweets(w), p)
        elif which == "model":
            r = w.cli("model", p, "--min-docs", "1", "--restart", input="y\n")
        else:
            r = w.cli(w.group, "index", w.corpus_path, p)
    what = f"{which} on a {kind} file"
    expect(r.exit_code != 0, f"{what}: exit code 0")
    expect(stored(p, kind) == before, f"{what}: the file was changed")
    if which not in ("model", "index", "index-tweets"):
        expect_eq(digest(p), exact, f"{what}: bytes of the file")
    if out:
        expect_eq(digest(out) if os.path.exists(out) else None, out_before, f"{what}: output file")


def run(case, env):
    _choices[:] = case["choices"]
    w = World(case, env)
    make_corpus(w, case)
    do_index(w, case["first"])
    do_model(w, dict(case["model"], restart=None))
    exported, labels = False, []
    for step in case["steps"]:
        cmd = step["cmd"]
        if cmd == "model":
            do_model(w, step)
        elif cmd == "index":
            do_index(w, step)
        elif cmd == "refuse":
            do_refuse(w, step)
        else:
            exported |= do_export(w, step) >= 2 and cmd != "serve"
        labels.append(cmd)
    return {"nontrivial": exported, "labels": sorted(set(labels)) + [w.group]}


def refusals_st():
    return st.fixed_dictionaries(
        {
            "source": gen.mix(
                st.fixed_dictionaries({"lines": gen.sized(LINE, 1, 3)}), st.fixed_dictionaries({"load": p21.load_st()})
            ),
            "choices": gen.CHOICES,
            "steps": gen.sized(REFUSE, 3, 12),
        }
    )


def run_refusals(case, env):
    _choices[:] = case["choices"]
    w = World(case, env)
    make_corpus(w, case)
    for step in case["steps"]:
        do_refuse(w, step)
    return {"nontrivial": True, "labels": sorted({s["which"] for s in case["steps"]})}


def run_real(case, env):
    _use_real[0] = True
    try:
        with pool.real_manager():
            return run(case, env)
    finally:
        _use_real[0] = False


def serving_st():
    return st.fixed_dictionaries(
        {
            "source": st.fixed_dictionaries({"lines": gen.sized(LINE, 3, 9)}),
            "choices": gen.CHOICES,
            "first": INDEX,
            "n": st.integers(2, 4),
            "plain": st.sampled_from([False, False, True]),
            "x": X,
            "edit": st.sampled_from(["merge", "create", "delete"]),
        }
    )


def run_serving(case, env):
    """The serve commands as a real process, with its own pool of processes, until it is asked to end."""
    _choices[:] = case["choices"]
    w = World(case, env)
    make_corpus(w, case)
    do_index(w, case["first"])
    w.ok("model", w.index, "--clusters", case["n"], "--min-docs", 1, "--iterations", 1, "--random-seed", case["x"])
    w.sync()
    lib = w.library()
    if case["plain"]:
        lib.corpus = None
    args = serve_args(w, case["plain"], w.index)
    port_file, log_file = w.path("port"), w.path("log")
    with open(log_file, "w") as log:
        p = subprocess.Popen(
            [sys.executable, "-W", "ignore", os.path.join(os.path.dirname(os.path.dirname(__file__)), "serve_child.py"), port_file, *args],
            stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True,
        )

    def output():
        with open(log_file) as f:
            return short(f.read()[-1500:], 1500)

    def end():
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()

    env.cleanups.append(end)
    what = " ".join(args[:-1])
    limit = time.time() + 100
    while not os.path.exists(port_file):
        expect(p.poll() is None and time.time() < limit, f"{what}: not serving: {output()}")
        time.sleep(0.02)
    with open(port_file) as f:
        host, port = f.read().split()
    get = lambda method, path, form=None: p22.Response((host, int(port)), method, path, form)
    cids = lib.cluster_ids
    c, o = cids[case["x"] % len(cids)], cids[(case["x"] + 1) % len(cids)]

    def pages():
        r = get("GET", "/index/0/")
        expect(r.status == 200, f"{what}: GET /index/0/: {r.status}: {r.error()}")
        p22.compare_clusters(p22.shown_clusters(r.doc(), what), p22.want_clusters(lib.top_cluster_features(top_k=40), True), what)
        # scored by the worker processes of the command
        path = f"/index/0/?cluster_id={lib.cluster_ids[0]}"
        r = get("GET", path)
        expect(r.status == 200, f"{what}: GET {path}: {r.status}: {r.error()}")
        query = lib.cluster_docs(lib.cluster_ids[0])
        p22.compare_clusters(
            p22.shown_clusters(r.doc(), what), p22.want_clusters(lib.pivot_clusters_by_query(query, top_k=40), True), path
        )
        p22.results(None, lib, r.doc(), path, query, None, None, "document", 5)

    pages()
    f = [r[0] for r in lib.cluster_features(c)][:2]
    path, form, call = {
        "merge": ("cluster/merge", {"cluster_id": [c, o]}, lambda: lib.merge_clusters([c, o])),
        "create": ("cluster/create", {"feature_id": f}, lambda: lib.create_cluster_from_features(f)),
        "delete": ("feature/remove_from_model", {"feature_id": f}, lambda: lib.delete_features(f)),
    }[case["edit"]]
    r = get("POST", f"/index/0/{path}", form)
    expect(r.status in (302, 303), f"{what}: POST {path}: {r.status}: {r.error()}")
    call()
    expect_eq(p22.diff_models(faults.snapshot(w.index), faults.snapshot(w.lib)), [], f"{what}: differences after {path} {form}")
    if lib.cluster_ids:
        pages()
    p.terminate()
    try:
        p.wait(60)
    except subprocess.TimeoutExpired:
        expect(False, f"{what}: still running a minute after being asked to end: {output()}")
    expect_eq(p22.diff_models(faults.snapshot(w.index), faults.snapshot(w.lib)), [], f"{what}: differences after ending")
    return {"nontrivial": True, "labels": [case["edit"]] + ["plain"] * case["plain"]}


SUBS = [
    Sub("serving", serving_st, run_serving, quick=6, thorough=100, shards=3, hang=300),
    Sub("commands", lambda: case_st(1, 6), run, quick=1200, thorough=30000),
    Sub("wide", lambda: case_st(2, 5, WIDE), run, quick=16, thorough=300),
    Sub("refusals", refusals_st, run_refusals, quick=150, thorough=3000),
    Sub("processes", lambda: case_st(1, 2), run_real, quick=9, thorough=100, shards=3, hang=300),
]
