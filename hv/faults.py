"""Fault, kill and interleaving points at the statements an Index sends to SQLite."""

import os
import shutil
import sqlite3
import sys
import traceback

CONTROL = ("savepoint", "release", "rollback", "pragma", "detach", "begin")


def is_control(sql):
    return sql.lstrip().lower().startswith(CONTROL)


class DbProxy:
    """Delegates to a connection, calling hook(n, sql) before every statement."""

    def __init__(self, conn, hook):
        self.__dict__["_conn"] = conn
        self.__dict__["_hook"] = hook
        self.__dict__["count"] = 0

    def _point(self, sql):
        n = self.count
        self.__dict__["count"] = n + 1
        if self._hook is not None:
            self._hook(n, sql)

    def execute(self, sql, *args):
        self._point(sql)
        return self._conn.execute(sql, *args)

    def executemany(self, sql, *args):
        self._point(sql)
        return self._conn.executemany(sql, *args)

    def executescript(self, sql, *args):
        self._point(sql)
        return self._conn.executescript(sql, *args)

    def commit(self):
        self._point("commit")
        return self._conn.commit()

    def rollback(self):
        self._point("rollback")
        return self._conn.rollback()

    def __getattr__(self, name):
        return getattr(self._conn, name)

    def __setattr__(self, name, value):
        setattr(self._conn, name, value)


def install(idx, hook):
    """Route the statements of idx through hook. Returns the proxy."""
    idx.db = DbProxy(idx.db, hook)
    return idx.db


def uninstall(idx):
    if isinstance(idx.db, DbProxy):
        idx.db = idx.db._conn


class hooked_connections:
    """Routes every statement of connections opened inside through hook(n, sql), n counting over all of them."""

    def __init__(self, hook, timeout=None):
        self.hook, self.timeout, self.count = hook, timeout, 0

    def __enter__(self):
        self.real = real = sqlite3.connect
        outer = self

        class Hooked(sqlite3.Connection):
            def _point(self, sql):
                n = outer.count
                outer.count += 1
                if outer.hook is not None:
                    outer.hook(n, sql)

            def execute(self, sql, *args):
                self._point(sql)
                return super().execute(sql, *args)

            def executemany(self, sql, *args):
                self._point(sql)
                return super().executemany(sql, *args)

            def executescript(self, sql, *args):
                self._point(sql)
                return super().executescript(sql, *args)

            def commit(self):
                self._point("commit")
                return super().commit()

        def connect(*args, **kwargs):
            kwargs.setdefault("factory", Hooked)
            if self.timeout is not None:
                kwargs["timeout"] = self.timeout
            return real(*args, **kwargs)

        sqlite3.connect = connect
        return self

    def __exit__(self, *exc):
        sqlite3.connect = self.real


class Injected(sqlite3.OperationalError):
    pass


def failing(k, interrupt=False):
    """A hook that fails the k-th statement, once, or interrupts the user's call there."""

    def hook(n, sql):
        if n == k:
            raise KeyboardInterrupt() if interrupt else Injected("disk I/O error")

    return hook


def killing(k):
    def hook(n, sql):
        if n == k:
            os._exit(77)

    return hook


def in_child(fn):
    """Run fn in a forked child; returns its exit status. The child never returns."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fn()
        except BaseException:
            traceback.print_exc()
            code = 3
        finally:
            sys.stderr.flush()
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)


def copy_db(src, dst):
    """Copy a closed database."""
    shutil.copyfile(src, dst)
    for ext in ("-wal", "-shm"):
        if os.path.exists(src + ext):
            shutil.copyfile(src + ext, dst + ext)
        elif os.path.exists(dst + ext):
            os.remove(dst + ext)
    return dst


TABLES = {
    "doc_key": "select doc_id, doc_key from doc_key",
    "inverted_index": "select feature_id, field, value, docs_count, doc_ids from inverted_index",
    "position_doc_map": "select field, first_doc_id, last_doc_id, docs_count, doc_ids, doc_boundaries from position_doc_map",
    "position_index": "select feature_id, first_doc_id, position_count, positions from position_index",
    "field_summary": "select field, distinct_values, min_value, max_value, position_count from field_summary",
    "cluster": "select cluster_id, feature_count, docs_count, weight, doc_ids, pinned from cluster",
    "feature_cluster": "select feature_id, cluster_id, docs_count, pinned from feature_cluster",
}


def snapshot(path_or_db):
    """Everything stored, as comparable data, read in one transaction."""
    from hv.util import AbstractBitMap, raw

    db = raw(path_or_db) if isinstance(path_or_db, (str, os.PathLike)) else path_or_db
    try:
        db.execute("begin")
        out = {}
        for name, sql in TABLES.items():
            out[name] = sorted(
                (
                    tuple(tuple(c) if isinstance(c, AbstractBitMap) else c for c in row)
                    for row in db.execute(sql)
                ),
                key=repr,
            )
        db.execute("rollback")
        return out
    finally:
        if db is not path_or_db:
            db.close()


def diff(a, b):
    """Short description of the first difference of two snapshots."""
    from hv.core import short

    for name in TABLES:
        if a[name] != b[name]:
            only_a = [r for r in a[name] if r not in b[name]][:2]
            only_b = [r for r in b[name] if r not in a[name]][:2]
            return f"{name}: {short(only_a, 200)} against {short(only_b, 200)}"
    return "equal"


def leftovers(*dirs):
    return sorted(os.path.join(d, x) for d in dirs for x in os.listdir(d))


def spread(points, limit, skip):
    """At most limit of the points, evenly spread from a generated offset."""
    if len(points) <= limit:
        return points
    step = len(points) / limit
    return [points[int(i * step + skip) % len(points)] for i in range(limit)]
