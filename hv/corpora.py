"""Corpora used as inputs. Picklable, importable from worker processes."""

import html


def decode_values(enc):
    kind, values = enc
    if kind == "L":
        return list(values)
    if kind == "T":
        return tuple(values)
    return set(values)


class MemCorpus:
    """docs: list of (key, {"field": [kind, values]}), kind L list, T tuple, S set."""

    CORPUS_TYPE = "MemCorpus"
    table_fields = ["title", "body"]

    def __init__(self, docs, fault=None):
        self._docs = [(k, f) for k, f in docs]
        self._map = dict(self._docs)
        # fault: {"at": "keys"|"docs"|"index", "n": position} raises there
        self.fault = fault

    def __getstate__(self):
        return self._docs, self.fault

    def __setstate__(self, state):
        self.__init__(*state)

    def keys(self):
        for i, (k, _) in enumerate(self._docs):
            if self.fault and self.fault["at"] == "keys" and self.fault["n"] == i:
                raise OSError("injected failure reading keys")
            yield k

    def docs(self, doc_keys=None):
        if doc_keys is None:
            doc_keys = [k for k, _ in self._docs]
        for k in doc_keys:
            if self.fault and self.fault["at"] == "docs" and self._docs[self.fault["n"]][0] == k:
                raise OSError("injected failure reading a document")
            yield k, {"key": k, "fields": self._map[k]}

    def index(self, doc):
        if (
            self.fault
            and self.fault["at"] == "index"
            and self._docs[self.fault["n"]][0] == doc["key"]
        ):
            raise OSError("injected failure indexing a document")
        return {f: decode_values(v) for f, v in doc["fields"].items()}

    def render_one(self, key):
        return f"<p>{html.escape(str(key))}: {html.escape(repr(self._map[key]))}</p>"

    def row_one(self, key):
        return {"title": f"t {key}", "body": repr(self._map[key]), "extra": "dropped"}

    def render_docs_html(self, doc_keys):
        return [(k, self.render_one(k)) for k in doc_keys]

    def render_docs_table(self, doc_keys):
        return [(k, self.row_one(k)) for k in doc_keys]

    def close(self):
        pass

    def __getitem__(self, key):
        return self.docs([key])

    def __iter__(self):
        return self.docs()


class RowCorpus(MemCorpus):
    """MemCorpus with explicit table rows: {key: {column: value}}."""

    def __init__(self, docs, rows, table_fields):
        super().__init__(docs)
        self.rows = rows
        self.table_fields = list(table_fields)

    def __getstate__(self):
        return self._docs, self.rows, self.table_fields

    def row_one(self, key):
        return dict(self.rows[key])
