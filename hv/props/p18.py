"""P18: upgrading old indexes, refusing and preserving everything else."""
import gc
import hashlib
import os
import pathlib
import sqlite3

from hypothesis import strategies as st

from hv import editing, faults, gen
from hv.core import Sub, Violation, expect, expect_eq
from hv.props import p03
from hv.util import Index, MemCorpus, check_summaries, feature_ids, features, open_index, raw

from hyperreal._index_schema import MigrationError

TECHNIQUE = "property-based testing (Hypothesis): differential against a current index, generated foreign files"
RULE = (
    "upgrade: a generated index and model is rewritten with the layout of a schema version 4-9 and opened; contents, "
    "queries, model and the effect of further generated edits and a reindexing are compared with the untouched current "
    "index. opening: opening an index of version 4-10 or creating one is killed, fails, or another connection opens the "
    "file, at every statement; afterwards it must open with the contents of an undisturbed opening. refuse: generated databases with unrelated tables (any user_version and application_id, also those of an "
    "index) and indexes of unknown version must raise MigrationError and keep their schema and rows. isindex: "
    "generated files, directories, databases and indexes under generated names. Non-trivial: the upgraded index has a "
    "model (upgrade), the database has rows (refuse), the path exists (isindex)."
)
ASSUMPTIONS = [
    "The layout of version 4 is that of the index file in the repository's tests/index; versions 5-9 are reconstructed "
    "by undoing the migrations of _index_schema.py, as no index file written by those releases is available offline.",
    "SQLite's own -wal and -shm side files of a database in WAL mode are not counted as changes.",
]

# as in the version 4 index in tests/index of the repository
OLD_TRIGGERS = [
    """create trigger ensure_cluster before insert on feature_cluster begin
         insert or ignore into cluster(cluster_id) values (new.cluster_id);
         update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id; end""",
    """create trigger delete_feature_cluster after delete on feature_cluster begin
         update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
         delete from cluster where cluster_id = old.cluster_id and feature_count = 0; end""",
    """create trigger ensure_cluster_update before update on feature_cluster
       when old.cluster_id != new.cluster_id begin
         insert or ignore into cluster(cluster_id) values (new.cluster_id); end""",
    """create trigger update_cluster_feature_counts after update on feature_cluster
       when old.cluster_id != new.cluster_id begin
         update cluster set feature_count = feature_count + 1 where cluster_id = new.cluster_id;
         update cluster set feature_count = feature_count - 1 where cluster_id = old.cluster_id;
         delete from cluster where cluster_id = old.cluster_id and feature_count = 0; end""",
]
MARK_TRIGGER = """create trigger mark_cluster_changed after update on feature_cluster begin
         insert or ignore into changed_cluster values(new.cluster_id); end"""


def rebuild(db, table, columns, names):
    db.execute(f"create temp table old_rows as select {names} from {table}")
    db.execute(f"drop table {table}")
    db.execute(f"create table {table}({columns})")
    db.execute(f"insert into {table}({names}) select {names} from old_rows")
    db.execute("drop table old_rows")


def downgrade(path, version, keep_positions):
    db = raw(path)
    db.execute("pragma foreign_keys=0")
    for t in ("insert_feature_checks", "update_feature_checks", "delete_feature_checks"):
        db.execute(f"drop trigger {t}")
    if version <= 9:
        db.execute("alter table field_summary drop column position_count")
    if version <= 8 and not keep_positions:
        db.execute("drop table position_index")
        db.execute("drop table position_doc_map")
    if 4 < version <= 8 and not keep_positions:
        db.execute("create table skipgram_count(a, b, c)")
        db.execute("insert into skipgram_count values(1, 2, 3)")
    if version <= 7:
        summary = "" if version <= 4 else "docs_count integer default 0, weight integer default 0, doc_ids roaring_bitmap"
        cols = ["cluster_id integer primary key", "feature_count integer default 0"] + ([summary] if summary else [])
        names = "cluster_id, feature_count" + (", docs_count, weight, doc_ids" if summary else "")
        rebuild(db, "cluster", ", ".join(cols), names)
        rebuild(
            db,
            "feature_cluster",
            """feature_id integer primary key references inverted_index(feature_id) on delete cascade,
            cluster_id integer references cluster(cluster_id) on delete cascade, docs_count integer""",
            "feature_id, cluster_id, docs_count",
        )
        db.execute("create index cluster_features on feature_cluster(cluster_id, docs_count)")
        for t in OLD_TRIGGERS + [MARK_TRIGGER] * (version > 4):
            db.execute(t)
    if version <= 4:
        db.execute("drop table changed_cluster")
        db.execute("drop index field_docs_counts")
    if version <= 4 or not keep_positions:
        db.execute("drop table settings")
    else:
        db.execute("delete from settings")
    db.execute(f"pragma user_version={version}")
    db.execute("pragma application_id=715973853")  # that of the files which exist
    db.close()


def upgrade_st():
    return st.fixed_dictionaries(
        {
            "corpus": gen.corpus(6, 40),
            "next": gen.small_corpus(5),
            # indexed before the corpus, to leave features that no longer occur
            "prior": st.one_of(st.none(), gen.small_corpus(3)),
            "positions": st.booleans(),
            "version": st.integers(4, 9),
            "keep_positions": st.booleans(),
            "batch": gen.batch_size(),
            "n": st.integers(0, 4),
            "ops": editing.ops_st(0, 3),
            "later": editing.ops_st(0, 4),
            "journal": st.sampled_from(["wal", "delete"]),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
        }
    )


def run_upgrade(case, env):
    d = env.fresh()
    docs = gen.expand(case["corpus"])
    cur, old = os.path.join(d, "current.db"), os.path.join(d, "old.db")
    idx = open_index(env, cur, MemCorpus(docs), case["sched"], case["seed"])
    if case.get("prior") is not None:
        idx.corpus = MemCorpus(gen.expand(case["prior"]))
        idx.index(index_positions=case["positions"])
        idx.corpus = MemCorpus(docs)
    idx.index(index_positions=case["positions"], doc_batch_size=case["batch"])
    fids = sorted(features(idx))
    if case["n"]:
        idx.initialise_clusters(case["n"], min_docs=1)
    for op, xs in case["ops"]:
        r = editing.resolve(op, xs, fids, idx.cluster_ids)
        if r:
            editing.call(idx, r)
    v = case["version"]
    if v <= 7:
        # pins did not exist
        idx.pin_clusters(idx.cluster_ids, pinned=False)
        idx.pin_features(fids, pinned=False)
    idx.db.execute(f"pragma journal_mode={case['journal']}")
    idx.close()
    positions = case["positions"]
    faults.copy_db(cur, old)
    keep = v >= 9 or (v > 4 and case["keep_positions"])
    if not keep:
        db = raw(cur)
        db.execute("delete from position_index")
        db.execute("delete from position_doc_map")
        db.execute("update field_summary set position_count = 0")
        db.close()
        positions = False
    downgrade(old, v, keep)
    what = f"version {v} index"

    def both(seed):
        return [
            open_index(env, p, MemCorpus(docs), case["sched"], seed) for p in (cur, old)
        ]

    a, b = both(1)
    expect_eq(list(b.db.execute("pragma user_version")), list(a.db.execute("pragma user_version")), what)
    expect(Index.is_index_db(old), f"{what}: not recognised after the upgrade")
    got, want = faults.snapshot(old), faults.snapshot(cur)
    if got != want:
        raise Violation(f"{what}: after opening: {faults.diff(got, want)}")
    expect_eq(b.cluster_ids, a.cluster_ids, f"{what}: clusters")
    check_summaries(b, what)
    expect_eq(p03.observe(b, positions), p03.observe(a, positions), f"{what}: queries")
    expect_eq(b.settings, a.settings, f"{what}: settings")
    a.close(), b.close()

    # the upgrade is done once
    before = faults.snapshot(old)
    a, b = both(2)
    expect_eq(faults.snapshot(old), before, f"{what}: opened a second time")
    # and it behaves like a current index from now on
    for op, xs in case["later"]:
        r = editing.resolve(op, xs, fids, a.cluster_ids)
        if r:
            expect_eq(editing.call(b, r), editing.call(a, r), f"{what}: result of {r}")
    if a.cluster_ids:
        a.refine_clusters(iterations=2)
        b.refine_clusters(iterations=2)
    for x in (a, b):
        x.corpus = MemCorpus(gen.expand(case["next"]))
        x.index(doc_batch_size=2, index_positions=case["positions"])
    got, want = faults.snapshot(old), faults.snapshot(cur)
    if got != want:
        raise Violation(f"{what}: after further edits and indexing: {faults.diff(got, want)}")
    check_summaries(b, what)
    return {
        "nontrivial": bool(want["feature_cluster"]),
        "labels": [f"v{v}"] + ["model"] * bool(want["feature_cluster"]) + ["positions"] * bool(want["position_index"]),
    }


def opening_st():
    return st.fixed_dictionaries(
        {
            "corpus": gen.small_corpus(5, mixed=False, min_docs=1),
            "positions": st.booleans(),
            "version": st.sampled_from([0, 4, 4, 5, 6, 7, 8, 9, 10]),
            "n": st.integers(0, 3),
            "ops": editing.ops_st(0, 2),
            "skip": st.integers(0, 1000),
        }
    )


def run_opening(case, env):
    """Opening is killed, fails, or another connection opens the same file, at every statement."""
    d = env.fresh()
    base, path = os.path.join(d, "base.db"), os.path.join(d, "i.db")
    v = case["version"]
    if v:
        idx = open_index(env, base, MemCorpus(gen.expand(case["corpus"])), seed=1)
        idx.index(index_positions=case["positions"])
        fids = sorted(features(idx))
        if case["n"]:
            idx.initialise_clusters(case["n"], min_docs=1)
        for op, xs in case["ops"]:
            r = editing.resolve(op, xs, fids, idx.cluster_ids)
            if r:
                editing.call(idx, r)
        if v <= 7:
            idx.pin_clusters(idx.cluster_ids, pinned=False)
            idx.pin_features(fids, pinned=False)
        idx.close()
        if v < 10:
            downgrade(base, v, v >= 9)
    else:
        sqlite3.connect(base).close()
        open(base, "ab").close()
    what = f"opening a version {v} index" if v else "creating an index"

    def copy():
        gc.collect()  # lets go of failed connections
        for ext in ("", "-wal", "-shm", "-journal"):
            if os.path.exists(path + ext):
                os.remove(path + ext)
        faults.copy_db(base, path)

    def look(w):
        idx = open_index(env, path)
        check_summaries(idx, w)
        got = faults.snapshot(path), list(idx.db.execute("pragma user_version")), sorted(idx.settings.items())
        idx.close()
        return got

    def compare(w):
        got = look(w)
        if got[0] != want[0]:
            raise Violation(f"{w}: {faults.diff(got[0], want[0])}")
        expect_eq(got[1:], want[1:], f"{w}: version and settings")

    copy()
    statements = []
    with faults.hooked_connections(lambda n, sql: statements.append(sql)):
        open_index(env, path).close()
    want = look(what)

    points = [
        (mode, n)
        for n, sql in enumerate(statements)
        for mode in ("kill", "fail", "second")
        if mode != "fail" or not faults.is_control(sql)
    ]
    for mode, n in faults.spread(points, 60 if env.tier == "quick" else 1000, case["skip"]):
        at = f"statement {n} ({' '.join(statements[n].split())[:60]})"
        copy()
        if mode == "kill":
            w = f"{what}, killed at {at}"

            def child():
                with faults.hooked_connections(faults.killing(n)):
                    open_index(env, path)

            expect_eq(faults.in_child(child), 77, f"{w}: exit status")
        elif mode == "fail":
            w = f"{what}, failing at {at}"
            failed = False
            with faults.hooked_connections(faults.failing(n)):
                try:
                    open_index(env, path).close()
                except sqlite3.OperationalError:
                    failed = True
            gc.collect()
            expect(failed, f"{w}: no error was reported")
        else:
            w = f"{what}, opened by another connection at {at}"
            second = []

            def hook(m, sql):
                if m == n and not second:
                    second.append(None)
                    try:
                        second[0] = open_index(env, path)
                    except sqlite3.OperationalError as e:
                        if "locked" not in str(e):
                            raise Violation(f"{w}: it raised {e}")

            with faults.hooked_connections(hook, timeout=0):
                try:
                    first = open_index(env, path)
                except sqlite3.OperationalError as e:
                    raise Violation(f"{w}: the first raised {e}")
                first.close()
            if second[0] is not None:
                expect_eq(sorted(second[0].settings.items()), want[2], f"{w}: settings")
                second[0].close()
        compare(f"{w}: opened again")
    return {"nontrivial": 0 < v < 10 and bool(want[0]["feature_cluster"]), "labels": [f"v{v}"]}


NAMES = ["doc", "settings", "cluster", "field_summary", "t x", "inverted_index", "feature_cluster", "doc_key", "é"]
CELL = st.one_of(st.integers(-5, 5), st.sampled_from(["a", "", "x'y"]), st.none(), st.just(1.5))
VERSIONS = st.one_of(st.integers(-1, 14), st.sampled_from([99, 2**31 - 1]))


def refuse_st():
    table = st.fixed_dictionaries(
        {
            "name": st.sampled_from(NAMES),
            "cols": st.integers(1, 3),
            "rows": st.lists(st.lists(CELL, min_size=3, max_size=3), max_size=3),
        }
    )
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["tables", "tables", "tables", "index"]),
            "tables": st.lists(table, min_size=1, max_size=4, unique_by=lambda t: t["name"]),
            "view": st.booleans(),
            "version": VERSIONS,
            "app": st.sampled_from([0, 0, 1, 252006674]),
            "wal": st.booleans(),
            "corpus": gen.small_corpus(3, mixed=False),
        }
    )


def dump(path):
    db = sqlite3.connect(path)
    try:
        return (
            list(db.execute("pragma user_version")),
            list(db.execute("pragma application_id")),
            list(db.iterdump()),
        )
    finally:
        db.close()


def run_refuse(case, env):
    d = env.fresh()
    path = os.path.join(d, "x.db")
    if case["kind"] == "index":
        idx = open_index(env, path, MemCorpus(gen.expand(case["corpus"])))
        idx.index()
        idx.close()
        version = case["version"]
        if 4 <= version <= 10 or version == 0:
            version = 11
        db = raw(path)
        db.execute(f"pragma user_version={version}")
        db.close()
        what = f"index of version {version}"
    else:
        db = raw(path)
        if case["wal"]:
            db.execute("pragma journal_mode=wal")
        for t in case["tables"]:
            cols = ", ".join(f"c{i}" for i in range(t["cols"]))
            db.execute(f'create table "{t["name"]}"({cols})')
            for r in t["rows"]:
                db.execute(f'insert into "{t["name"]}" values({",".join("?" * t["cols"])})', r[: t["cols"]])
        if case["view"]:
            db.execute("create view v as select 1")
        db.execute(f"pragma user_version={case['version']}")
        db.execute(f"pragma application_id={case['app']}")
        db.close()
        what = f"unrelated database with tables {[t['name'] for t in case['tables']]}, user_version {case['version']}"
    before = dump(path)
    names = sorted(os.listdir(d))
    for attempt in range(2):
        idx = None
        try:
            idx = Index(path)
            raised = None
        except Exception as e:
            raised = e
        if idx is not None:
            idx.close()
            raise Violation(f"{what}: opened without an error")
        expect(isinstance(raised, MigrationError), f"{what}: raised {type(raised).__name__}: {raised}")
        tb = raised = None  # lets go of the failed connection
        expect_eq(dump(path), before, f"{what}: contents after the refusal")
        got = [x for x in sorted(os.listdir(d)) if not x.endswith(("-wal", "-shm"))]
        expect_eq(got, [x for x in names if not x.endswith(("-wal", "-shm"))], f"{what}: files")
    if case["kind"] != "index":
        expect_eq(Index.is_index_db(path), False, f"{what}: is_index_db")
    return {"nontrivial": any(t["rows"] for t in case["tables"]), "labels": [case["kind"]]}


NAME = st.lists(
    st.sampled_from(["a", "b", ".db", " ", "?", "#", "%", "%20", "&", "=", "mode", "é", "日", "'", '"', "+", ";", "\\", ":", "~", "\n", "?mode=rw", "file:"]),
    min_size=1, max_size=6,
).map("".join)


def isindex_st():
    return st.fixed_dictionaries(
        {
            "dir": st.one_of(st.just("d"), NAME),
            "name": NAME,
            "kind": st.sampled_from(
                ["index", "index", "index-delete", "index-open", "missing", "nodir", "dir", "empty", "text", "bytes",
                 "header", "truncated", "db", "db-wal", "symlink", "broken-link"]
            ),
            "data": st.lists(st.integers(0, 255), max_size=300),
            "form": st.sampled_from(["abs", "abs", "path", "rel"]),
        }
    )


def tree(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.join(root, x)] = "dir"
        for x in files:
            p = os.path.join(root, x)
            if x.endswith(("-wal", "-shm")):
                continue
            out[p] = os.readlink(p) if os.path.islink(p) else hashlib.sha1(open(p, "rb").read()).hexdigest()
    return out


def run_isindex(case, env):
    top = env.fresh()
    d = os.path.join(top, case["dir"])
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, case["name"])
    kind = case["kind"]
    data_bytes = bytes(case["data"])
    want = kind.startswith("index") or kind == "symlink"
    keep = []
    if want:
        target = os.path.join(top, "target.db") if kind == "symlink" else p
        # built elsewhere and moved, so that the name only matters to the code under test
        tmp = os.path.join(top, "build.db")
        idx = Index(tmp)
        if kind == "index-delete":
            idx.db.execute("pragma journal_mode=delete")
        idx.close()
        os.rename(tmp, target)
        if kind == "symlink":
            os.symlink(target, p)
        if kind == "index-open":
            keep.append(Index(p))
            env.cleanups.append(keep[0].close)
            keep[0].db.execute("insert or replace into settings values('x', 1)")
    elif kind == "nodir":
        p = os.path.join(d, "no such", case["name"])
    elif kind == "dir":
        os.mkdir(p)
    elif kind == "empty":
        open(p, "wb").close()
    elif kind in ("text", "bytes"):
        with open(p, "wb") as f:
            f.write(data_bytes if kind == "bytes" else b"some text\n" * (len(case["data"]) % 20 + 1))
    elif kind == "header":
        with open(p, "wb") as f:
            f.write(b"SQLite format 3\x00" + data_bytes)
    elif kind == "truncated":
        tmp = os.path.join(top, "build.db")
        idx = Index(tmp)
        idx.db.execute("pragma journal_mode=delete")
        idx.close()
        with open(tmp, "rb") as f:
            data = f.read()
        with open(p, "wb") as f:
            f.write(data[: len(case["data"]) % 60 + 17])
        os.remove(tmp)
    elif kind in ("db", "db-wal"):
        db = sqlite3.connect(os.path.join(top, "build.db"))
        if kind == "db-wal":
            db.execute("pragma journal_mode=wal")
        db.execute("create table t(x)")
        db.execute("pragma application_id=77")
        db.commit()
        db.close()
        os.rename(os.path.join(top, "build.db"), p)
    elif kind == "broken-link":
        os.symlink(os.path.join(d, "nowhere"), p)
    arg, cwd = p, None
    if case["form"] == "path":
        arg = pathlib.Path(p)
    elif case["form"] == "rel" and os.path.isdir(d):
        cwd = os.getcwd()
        arg = os.path.relpath(p, d)
    before = tree(top)
    if cwd:
        os.chdir(d)
    try:
        got = Index.is_index_db(arg)
    except Exception as e:
        raise Violation(f"is_index_db of {kind} {str(arg)!r} raised {type(e).__name__}: {e}")
    finally:
        if cwd:
            os.chdir(cwd)
    expect_eq(got, want, f"is_index_db of {kind} {str(arg)!r}")
    expect_eq(tree(top), before, f"files after is_index_db of {kind} {str(arg)!r}")
    return {"nontrivial": kind not in ("missing", "nodir"), "labels": [kind]}


SUBS = [
    Sub("upgrade", upgrade_st, run_upgrade, quick=1400),
    Sub("opening", opening_st, run_opening, quick=64),
    Sub("refuse", refuse_st, run_refuse, quick=2000),
    Sub("isindex", isindex_st, run_isindex, quick=3000),
]
