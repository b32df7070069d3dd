"""Reference computations straight from the documents a corpus declares."""

import collections


def sort_key(v):
    """SQLite's order of values: numbers, then text by code point."""
    if isinstance(v, str):
        return (1, 0, v.encode("utf-8"))
    return (0, v, b"")


def postings(docs, ids):
    """{(field, value): set of doc ids}; docs list of (key, fields), ids key -> id."""
    out = collections.defaultdict(set)
    for key, fields in docs:
        for f, (kind, values) in fields.items():
            for v in values:
                if v is not None:
                    out[(f, v)].add(ids[key])
    return dict(out)


def sequences(docs, ids, field):
    """{doc_id: list of values} of the documents with a non-empty sequence for field."""
    return {
        ids[k]: list(fields[field][1])
        for k, fields in docs
        if field in fields and fields[field][0] in "LT" and fields[field][1]
    }


def position_counts(docs):
    out = collections.Counter()
    for _, fields in docs:
        for f, (kind, values) in fields.items():
            if kind in "LT":
                out[f] += len(values)
    return out


def jaccard(a, b):
    u = len(a | b)
    return len(a & b) / u if u else 0.0
