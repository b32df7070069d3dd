"""Generated model edits, their interpretation on an index, and a plain reference model."""

from hypothesis import strategies as st

from hv import gen
from hv.core import expect, expect_eq
from hv.util import Index, features, model_state

XS = st.lists(st.integers(0, 200), min_size=1, max_size=5)

BASIC = ["init", "delf", "delc", "merge", "create", "create", "pinf", "pinc"]


def op_st(kinds=BASIC):
    return st.tuples(st.sampled_from(kinds), XS)


def ops_st(lo, hi, kinds=BASIC):
    return gen.sized(op_st(kinds), lo, hi)


class RefModel:
    """The model as a plain mapping: feature -> cluster, pinned features, pinned clusters."""

    def __init__(self):
        self.fc, self.pf, self.pc = {}, set(), set()

    def clusters(self):
        out = {}
        for f, c in self.fc.items():
            out.setdefault(c, set()).add(f)
        return out

    def tidy(self):
        self.pf &= set(self.fc)
        self.pc &= set(self.fc.values())

    def copy(self):
        m = RefModel()
        m.fc, m.pf, m.pc = dict(self.fc), set(self.pf), set(self.pc)
        return m

    def key(self):
        return (frozenset(self.fc.items()), frozenset(self.pf), frozenset(self.pc))

    @classmethod
    def of(cls, idx):
        m = cls()
        cl, fc = model_state(idx)
        m.fc = {f: c for f, (c, _, _) in fc.items()}
        m.pf = {f for f, r in fc.items() if r[2]}
        m.pc = {c for c, r in cl.items() if r[4]}
        return m


def resolve(op, xs, feats, cids):
    """Turn generated numbers into a concrete call: (method, args, kwargs) or None.

    feats: sorted feature ids of the index, cids: sorted existing cluster ids."""
    if op == "init":
        kw = {"n_clusters": 1 + xs[0] % 6, "min_docs": xs[-1] % 4}
        if len(xs) > 1 and xs[1] % 3 == 0:
            del kw["min_docs"]
        return "initialise_clusters", [], kw
    if op == "initf":  # restricted to fields, resolved by the caller
        return "initialise_clusters", [], {"n_clusters": 1 + xs[0] % 6, "min_docs": 1 + xs[-1] % 2}
    if op == "delf":
        return ("delete_features", [[feats[x % len(feats)] for x in xs]], {}) if feats else None
    if op == "delc":
        if not cids:
            return None
        out = [cids[x % len(cids)] for x in xs[:2]]
        if xs[0] % 5 == 0:
            out.append(max(cids) + 1 + xs[0])
        return "delete_clusters", [out], {}
    if op == "merge":
        if not cids:
            return None
        return "merge_clusters", [[cids[x % len(cids)] for x in xs]], {}
    if op == "create":
        return ("create_cluster_from_features", [[feats[x % len(feats)] for x in xs]], {}) if feats else None
    if op == "pinf":
        if not feats:
            return None
        return "pin_features", [[feats[x % len(feats)] for x in xs]], pinned_arg(xs)
    if op == "pinc":
        if not cids:
            return None
        return "pin_clusters", [[cids[x % len(cids)] for x in xs]], pinned_arg(xs)
    raise ValueError(op)


def pinned_arg(xs):
    if xs[0] % 3 == 0:
        return {"pinned": False}
    return {} if xs[0] % 2 else {"pinned": True}


def call(idx, resolved):
    name, args, kw = resolved
    return getattr(idx, name)(*args, **kw)


def apply_ref(m, resolved, result, new_state):
    """Apply the call to the reference model. Random choices (initialise) and the id of a
    created cluster are taken from the outcome after checking them by the caller."""
    name, args, kw = resolved
    if name == "initialise_clusters":
        m.fc, m.pf, m.pc = dict(new_state.fc), set(), set()
    elif name == "delete_features":
        for f in args[0]:
            m.fc.pop(f, None)
    elif name == "delete_clusters":
        m.fc = {f: c for f, c in m.fc.items() if c not in set(args[0])}
    elif name == "merge_clusters":
        ids = args[0]
        for f, c in m.fc.items():
            if c in ids:
                m.fc[f] = ids[0]
    elif name == "create_cluster_from_features":
        for f in args[0]:
            m.fc[f] = result
    elif name == "pin_features":
        for f in args[0]:
            if f in m.fc:
                (m.pf.add if kw.get("pinned", True) else m.pf.discard)(f)
    elif name == "pin_clusters":
        for c in args[0]:
            if c in set(m.fc.values()):
                (m.pc.add if kw.get("pinned", True) else m.pc.discard)(c)
    m.tidy()


def compare(idx, m, what):
    got = RefModel.of(idx)
    expect_eq(got.fc, m.fc, f"{what}: cluster of each feature")
    expect_eq(got.pf, m.pf, f"{what}: pinned features")
    expect_eq(got.pc, m.pc, f"{what}: pinned clusters")
    cl = m.clusters()
    expect_eq(idx.cluster_ids, sorted(cl), f"{what}: listed clusters")
    expect_eq(set(idx.pinned_cluster_ids), m.pc, f"{what}: listed pinned clusters")
    for c, members in cl.items():
        listed = [r[0] for r in idx.cluster_features(c)]
        expect_eq(sorted(listed), sorted(members), f"{what}: features listed in cluster {c}")
    expect_eq(
        {c: sorted(f[0] for f in fs) for c, _, fs in idx.top_cluster_features(top_k=10**6)},
        {c: sorted(fs) for c, fs in cl.items()},
        f"{what}: top_cluster_features",
    )
