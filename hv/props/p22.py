"""P22: the web interface shows and edits the model exactly as the library does."""
import collections
import csv
import http.client
import io
import itertools
import os
import re
import sys
import threading
import urllib.parse

from hypothesis import strategies as st
from lxml import html as lxml_html

from hv import editing, faults, gen, pool
from hv.core import Sub, Violation, expect, expect_eq
from hv.util import Index, MemCorpus, features, model_state, open_index, short

import cherrypy
import hyperreal.server
from hyperreal.corpus import PlainTextSqliteCorpus
from hyperreal.server import SingleIndexServer, launch_web_server

TECHNIQUE = "stateful property-based testing (Hypothesis): differential of HTTP requests to a real server against library calls"
RULE = (
    "Generated corpus (plain text, arbitrary features with markup, or no corpus at the server), model, schedule and a "
    "history of page views, searches, exports, edits and edits by a wrong method, sent over loopback to the real "
    "CherryPy server. After every request the index served is compared with a copy edited by the library calls, and "
    "each page with what the library reports. Non-trivial: at least one edit changed the model and one page showed "
    "features of at least two clusters or documents. 'together': requests sent at once, compared with the same ones alone, and "
    "edits sent at once, compared with the library calls in some order; non-trivial: at least two different pages."
)
ASSUMPTIONS = [
    "Refinement is random, so the served index is opened with a fixed random seed for cases that refine.",
    "Text is compared with runs of white space squeezed, as HTML shows it.",
]

MARKUP = ["<b>x</b>", "a", "b", "c", "d", "&amp;", "&", "<script>alert(1)</script>", '"', "'", "x>y", "{{ 1 }}", "日本", "&lt;i&gt;", "e f"]
FIELDS = ["text", "tag", "<i>f</i>", "a&b", '"q"']


def doc_st():
    word = st.sampled_from(MARKUP)
    return st.fixed_dictionaries(
        {},
        optional={
            "text": st.tuples(st.just("L"), gen.sized(word, 1, 9)),
            "<i>f</i>": st.tuples(st.just("L"), gen.sized(word, 0, 4)),
            "tag": st.tuples(st.just("S"), st.lists(word, max_size=3, unique=True)),
            "a&b": st.tuples(st.just("S"), st.lists(st.sampled_from(MARKUP[:6] + [1, 2, -3]), max_size=2, unique=True)),
        },
    )


def corpus_st():
    return st.one_of(
        st.fixed_dictionaries({"texts": gen.sized(st.lists(st.sampled_from(MARKUP), min_size=1, max_size=8).map(" ".join), 1, 9)}),
        st.fixed_dictionaries({"mem": gen.sized(doc_st(), 1, 9), "served": st.sampled_from([True, True, True, False])}),
    )


X = st.integers(0, 200)
VIEW = st.fixed_dictionaries(
    {
        "do": st.sampled_from(["model", "feature", "feature", "pivot", "pivot", "cluster", "cluster", "intersect", "intersect"]),
        "x": X,
        "y": X,
        "z": st.one_of(st.none(), X),
        "docs": st.sampled_from([None, 1, 2, 50]),
        "k": st.sampled_from([None, 1, 2, 50]),
        "type": st.sampled_from([None, "document", "concordance", "passage"]),
    }
)
OTHER = st.fixed_dictionaries(
    {"do": st.sampled_from(["details", "listing", "export", "search", "search", "wrong", "wrong", "missing"]), "x": X, "y": X,
     "method": st.sampled_from(["GET", "GET", "HEAD", "PUT", "DELETE", "PATCH"])}
)
EDITS = ["delf", "delc", "merge", "create", "create", "pinf", "pinc", "refc", "refm", "recreate"]
EDIT = st.fixed_dictionaries(
    {"do": st.sampled_from(EDITS), "xs": editing.XS, "y": X, "z": X, "back": st.booleans()}
)


# Pinning clusters and refining a selection of pinned clusters, both by themselves rare.
PINNED = st.tuples(EDIT, EDIT, st.integers(0, 1)).map(
    lambda t: [{**t[0], "do": "pinc", "y": 2}, {**t[1], "do": "refc", "z": t[1]["z"] // 5 * 5 + t[2]}]
)


def steps_st():
    one = gen.mix(VIEW, VIEW, OTHER, EDIT, EDIT).map(lambda s: [s])
    return gen.sized(gen.mix(*[one] * 15, PINNED), 3, 11).map(lambda groups: [s for g in groups for s in g])


def case_st(corpus=None, n=None):
    return st.fixed_dictionaries(
        {
            "corpus": corpus or corpus_st(),
            "positions": st.sampled_from([True, True, False]),
            "n": n or st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5]),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "steps": steps_st(),
        }
    )


class Router:
    """One server per shard; each case puts its own index server here."""

    current = None

    def index(self, index_id):
        return self.current.index(index_id)

    def list_indices(self):
        return self.current.list_indices()


def web(env):
    if "web" not in env.persistent:
        cherrypy.config.update({"log.screen": False, "checker.on": False})
        router = Router()
        engine = launch_web_server(router, port=0)
        env.persistent["web"] = ((router, cherrypy.server.bound_addr), lambda x: engine.exit())
    return env.persistent["web"][0]


class Response:
    def __init__(self, addr, method, path, form=None):
        conn = http.client.HTTPConnection(*addr, timeout=60)
        try:
            body, headers = None, {}
            if form is not None:
                body = urllib.parse.urlencode(form, doseq=True)
                headers["Content-Type"] = "application/x-www-form-urlencoded"
            conn.request(method, path, body, headers)
            r = conn.getresponse()
            self.status = r.status
            self.location = r.getheader("Location")
            self.type = r.getheader("Content-Type") or ""
            self.body = r.read()
        finally:
            conn.close()
        if self.location:
            u = urllib.parse.urlsplit(self.location)
            self.location = u.path + ("?" + u.query if u.query else "")

    def doc(self):
        return lxml_html.document_fromstring(self.body.decode("utf-8"))

    def error(self):
        text = self.body.decode("utf-8", "replace")
        m = re.search(r"<pre id=\"traceback\">(.*?)</pre>", text, re.S)
        return short((m.group(1) if m else text).strip()[-600:], 700)


def squash(s):
    return " ".join(str(s).split())


def url(path, **params):
    q = urllib.parse.urlencode({k: v for k, v in params.items() if v is not None})
    return path + ("?" + q if q else "")


def shown_clusters(doc, what):
    """[(cluster id, score text or None, [(feature id, field, value, score text)])]"""
    out = []
    for div in doc.xpath('//div[@class="feature-cluster"]'):
        head = squash(div.xpath('./div[contains(@class, "cluster-header")]')[0].text_content())
        m = re.fullmatch(r"Cluster (\d+)(?: - (\S+))?", head)
        expect(m, f"{what}: cluster heading {head!r}")
        fs = []
        for a in div.xpath('./ul/li//a[.//div[@class="feature"]]'):
            field = a.xpath('.//span[@class="field"]')
            value = a.xpath('.//div[starts-with(@class, "value")]')
            score = a.xpath('.//span[@class="score"]')
            expect(len(field) == len(value) == len(score) == 1, f"{what}: feature of cluster {m.group(1)} shown as markup")
            expect(
                not len(field[0]) and not len(value[0]),
                f"{what}: markup in a feature interpreted: {lxml_html.tostring(a)!r}",
            )
            q = urllib.parse.parse_qs(urllib.parse.urlsplit(a.get("href")).query)
            fs.append((int(q["feature_id"][0]), squash(field[0].text_content()), squash(value[0].text_content()), squash(score[0].text_content())))
        out.append((int(m.group(1)), m.group(2), fs))
    return out


def want_clusters(rows, scores):
    return [
        (c, "{:.2e}".format(s) if scores else None, [(f, squash(fl), squash(v), "{:.2e}".format(x)) for f, fl, v, x in fs])
        for c, s, fs in rows
    ]


def compare_clusters(got, want, what, ordered=True):
    """Equal scores may come in any order."""
    expect_eq(sorted(c[0] for c in got), sorted(c[0] for c in want), f"{what}: clusters")
    if ordered:
        expect_eq([c[1] for c in got], [c[1] for c in want], f"{what}: cluster scores in order")
    wanted = {c[0]: c for c in want}
    for c, score, fs in got:
        _, ws, wf = wanted[c]
        expect_eq(score, ws, f"{what}: score of cluster {c}")
        expect_eq([f[3] for f in fs], [f[3] for f in wf], f"{what}: scores of the features of cluster {c}")
        if len({f[3] for f in wf}) == len(wf):
            expect_eq(fs, wf, f"{what}: features of cluster {c}")


class World:
    def __init__(self, case, env):
        self.env, self.case = env, case
        d = env.fresh()
        self.path, self.lib_path = os.path.join(d, "served.db"), os.path.join(d, "library.db")
        s = case["sched"]
        self.pool = pool.SchedPool(s["workers"], s["choices"])
        c = case["corpus"]
        if "texts" in c:
            cp = os.path.join(d, "corpus.db")
            self.corpus = PlainTextSqliteCorpus(cp)
            self.corpus.replace_docs(c["texts"])
            self.klass, self.args = PlainTextSqliteCorpus, [cp]
        else:
            docs = list(enumerate(c["mem"])) if "mem" in c else gen.expand(c)
            self.corpus = MemCorpus(docs)
            self.klass, self.args = (MemCorpus, [docs]) if c.get("served", True) else (None, None)
        env.cleanups.append(self.corpus.close)
        idx = Index(self.path, corpus=self.corpus, pool=self.pool, random_seed=case["seed"])
        try:
            idx.index(index_positions=case["positions"], doc_batch_size=4)
            if case["n"]:
                idx.initialise_clusters(case["n"], min_docs=1)
        finally:
            idx.close()
        faults.copy_db(self.path, self.lib_path)
        self.router, self.addr = web(env)
        world = self

        class Seeded(SingleIndexServer):
            """As SingleIndexServer, with a fixed random seed."""

            def index(self, index_id):
                idx = super().index(index_id)
                if world.reseed:
                    idx.random.seed(world.case["seed"])
                return idx

        self.reseed = False
        self.router.current = Seeded(self.path, corpus_class=self.klass, corpus_args=self.args, pool=self.pool)
        self.lib = None
        self.followed = set()

    def library(self):
        """The library on the copy, opened as the server does."""
        if self.lib is not None:
            self.lib.close()
        corpus = self.klass(*self.args) if self.klass else None
        self.lib = open_index(self.env, self.lib_path, corpus, pool_obj=self.pool, seed=self.case["seed"])
        return self.lib

    def request(self, method, path, form=None):
        r = Response(self.addr, method, path, form)
        if r.status == 301 and form is None:
            # to the same path with a slash
            r = Response(self.addr, method, r.location)
        return r

    def state(self):
        return faults.snapshot(self.path)

    def lib_state(self):
        return faults.snapshot(self.lib_path)


def page(w, r, what):
    expect(r.status == 200, f"{what}: status {r.status}: {r.error()}")
    doc = r.doc()
    expect(not doc.xpath("//script") and not doc.xpath("//b"), f"{what}: markup of the data interpreted")
    follow(w, doc, what)
    return doc


def follow(w, doc, what):
    """The links and forms of a page lead to other pages and to edits."""
    links = [("GET", a) for a in doc.xpath("//a/@href")]
    for form in doc.xpath("//form"):
        links += [(form.get("method", "get").upper(), a) for a in form.xpath("./@action | .//@formaction")]
    new = [k for k in dict.fromkeys(links) if (k[0], re.sub(r"\d+", "0", k[1])) not in w.followed]
    for method, href in new[:3]:
        w.followed.add((method, re.sub(r"\d+", "0", href)))
        to = urllib.parse.urljoin(what.partition(" ")[2], href)
        expect(to == "/" or to.startswith("/index/"), f"{what}: link to {href}")
        if to.endswith("/search"):
            continue
        r = w.request("GET", to)
        if method == "GET":
            expect(r.status < 400, f"{what}: link to {href}: status {r.status}")
        else:
            expect_eq(r.status, 405, f"{what}: form sent to {href}, asked for by GET: status")


def view(w, step, cids, fids):
    """-> (what, number of clusters or documents shown) or None"""
    lib = w.library()
    do, x, y = step["do"], step["x"], step["y"]
    if not cids:
        r = w.request("GET", "/index/0/")
        expect(r.status in (302, 303), f"page of an index without a model: status {r.status}: {r.error()}")
        expect_eq(r.location, "/index/0/details", "redirect of an index without a model")
        return "no-model", 0
    docs_n, k, kind = step["docs"], step["k"], step["type"]
    if do in ("model", "feature", "pivot"):
        f = fids[x % len(fids)] if do == "feature" else None
        c = cids[x % len(cids)] if do == "pivot" else None
        path = url("/index/0/", feature_id=f, cluster_id=c, top_k_features=k, exemplar_docs=docs_n, result_type=kind)
        doc = page(w, w.request("GET", path), f"GET {path}")
        got = shown_clusters(doc, path)
        if do == "model" or not (lib[f] if f is not None else lib.cluster_docs(c)):
            query, dnf, cfs = None, [], []
            rows = lib.top_cluster_features(top_k=k or 40)
            want = want_clusters(rows, True)
            expect_eq([c[1] for c in got], [c[1] for c in want], f"{path}: cluster sizes in order")
        else:
            query = lib[f] if f is not None else lib.cluster_docs(c)
            dnf = [[f]] if f is not None else [[r[0] for r in lib.cluster_features(c)]]
            cfs = [x for x in dnf[0]]
            want = want_clusters(lib.pivot_clusters_by_query(query, top_k=k or 40), True)
        compare_clusters(got, want, path)
        search_form(lib, doc, path)
        picked = doc.xpath('//input[@type="checkbox"][@name="cluster_id"]/@value')
        expect_eq(sorted(picked), sorted(str(c[0]) for c in got), f"{path}: clusters that can be selected for editing")
        total = results(w, lib, doc, path, query, dnf, cfs, kind, 5 if docs_n is None else docs_n)
        return do, max(len(got), total)
    # one cluster
    c = cids[x % len(cids)]
    f = o = None
    if do == "intersect":
        f = fids[y % len(fids)]
        o = cids[step["z"] % len(cids)] if step["z"] is not None else None
    path = url(f"/index/0/cluster/{c}", feature_id=f, filter_cluster_id=o, exemplar_docs=docs_n, result_type=kind)
    doc = page(w, w.request("GET", path), f"GET {path}")
    feats = lib.cluster_features(c)
    query = lib.cluster_docs(c)
    dnf = [[r[0] for r in feats]]
    if f is not None:
        query = query & lib[f]
        dnf.append([f])
    if o is not None:
        query = query & lib.cluster_docs(o)
        dnf.append([r[0] for r in lib.cluster_features(o)])
    pivot = list(lib.pivot_clusters_by_query(query, cluster_ids=[c], top_k=len(feats)))
    want = want_clusters([(c, 0, pivot[0][2] if pivot else feats)], False)
    got = shown_clusters(doc, path)
    compare_clusters(got, want, path)
    total = results(w, lib, doc, path, query, dnf, [x for cl in dnf for x in cl], kind, 30 if docs_n is None else docs_n)
    # neighbours and pin state
    links = {squash(a.text_content()): a.get("href") for a in doc.xpath('//ul[@class="nav-links"]//a')}
    i = cids.index(c)
    expect_eq(links.get("Previous Cluster"), f"/index/0/cluster/{cids[i - 1]}", f"{path}: previous cluster")
    expect_eq(links.get("Next Cluster"), f"/index/0/cluster/{cids[(i + 1) % len(cids)]}", f"{path}: next cluster")
    pinned = c in lib.pinned_cluster_ids
    offered = doc.xpath('//form[@action="/index/0/cluster/pin"]//input[@name="pinned"]/@value')
    expect_eq(offered, ["0" if pinned else "1"], f"{path}: offered pin change")
    search_form(lib, doc, path)
    for form in doc.xpath("//form"):
        # Forms for editing features are about the features shown.
        offered = form.xpath('.//input[@name="feature_id"]/@value | .//select[@name="feature_id"]/option/@value')
        if offered:
            expect_eq(sorted(offered), sorted(str(f[0]) for f in got[0][2]), f"{path}: features offered for editing")
    return do, max(len(got[0][2]), total)


def search_form(lib, doc, path):
    offered = doc.xpath('//select[@name="field"]/option/@value')
    expect_eq(sorted(offered), sorted(r[0] for r in lib.indexed_field_summary()), f"{path}: fields offered for searching")


def results(w, lib, doc, path, query, dnf, cfs, kind, n):
    """The documents, concordances or passages of a page against the library."""
    heads = [
        squash(h.text_content())
        for h in doc.xpath('//ul[@class="cluster-list"]/li/div[contains(@class, "cluster-header")]')
    ]
    if query is None or lib.corpus is None or (not query and kind != "passage"):
        expect_eq(heads, [], f"{path}: documents shown")
        return 0
    total = len(query)
    docs = doc.xpath('//ul[@class="doc-list"]')
    tables = doc.xpath('//table[@class="concordance-table"]')
    if kind == "passage":
        want = {}
        for doc_id, key, fields in lib.render_passages_table(lib.score_passages_dnf(dnf, 25)):
            want[doc_id] = sorted((squash(f), squash(v)) for f, vs in fields.items() for v in vs)
        size = min(n, len(want))
        got = []
        for li in docs[0].xpath("./li") if docs else []:
            terms, values = li.xpath("./dl/dt"), li.xpath("./dl/dd")
            expect(not any(len(e) for e in terms + values), f"{path}: markup of a passage interpreted")
            got.append(sorted((squash(a.text_content()), squash(b.text_content())) for a, b in zip(terms, values)))
        expect_eq(len(got), size, f"{path}: number of documents with passages")
        left = collections.Counter(map(tuple, want.values()))
        left.subtract(map(tuple, got))
        expect(min(left.values(), default=0) >= 0, f"{path}: passages {got}, expected {size} of {list(want.values())}")
    elif kind == "concordance":
        want = {}
        for key, doc_id, fields in lib.concordances(query, cfs, 15):
            want[squash(key)] = sorted(
                (squash(f), squash(v), sorted(squash(x) for x in lines)) for f, m in fields.items() for v, lines in m.items()
            )
        want_docs = {k: v for k, v in want.items() if v}
        got, key, field = {}, None, None
        expect_eq(len(tables), 1, f"{path}: tables of concordances")
        for tr in tables[0].xpath(".//tbody/tr"):
            for th in tr.xpath("./th"):
                key = squash(th.text_content())
                left = int(th.get("rowspan"))
                got[key] = []
            tds = tr.xpath("./td")
            expect(not any(e.tag not in ("ul", "li") for td in tds for e in td.iterdescendants()), f"{path}: markup interpreted")
            if len(tds) == 3:
                field = squash(tds[0].text_content())
            got[key].append((field, squash(tds[-2].text_content()), sorted(squash(li.text_content()) for li in tds[-1].xpath(".//li"))))
            expect(len(got[key]) <= left, f"{path}: rows beyond document {key}")
        expect_eq(len(heads), 1, f"{path}: headings")
        size = min(n, total)
        if size == total:
            expect_eq(set(got), set(want_docs), f"{path}: documents with concordances")
        expect(len(got) <= size, f"{path}: {len(got)} documents, asked for {size}")
        for k in got:
            expect_eq(sorted(got[k]), want.get(k), f"{path}: concordances of document {k}")
    else:
        want = collections.Counter(squash(t) for _, _, t in lib.render_docs_html(query))
        size = min(n, total)
        items = docs[0].xpath("./li") if docs else []
        expect(not any(len(li) for li in items), f"{path}: markup of a document interpreted")
        got = collections.Counter(squash(li.text_content()) for li in items)
        expect_eq(sum(got.values()), size, f"{path}: number of documents shown")
        expect(not got - want, f"{path}: documents {got - want} shown, expected {size} of {want}")
        expect_eq(
            heads,
            [f"Sample of {total} documents" if size < total else f"All {total} matching documents."],
            f"{path}: heading",
        )
    return size


def prepare(w, step, cids, fids, lib=None):
    """-> (path, form, the library call, redirect) or None if there is nothing to edit"""
    do, xs, y, z = step["do"], step["xs"], step["y"], step["z"]
    pick = lambda ids: list(dict.fromkeys(ids[x % len(ids)] for x in xs))
    if not cids and do not in ("create", "recreate"):
        return None
    back = cids[y % len(cids)] if cids else 1
    if lib is None:
        w.reseed = do in ("refc", "refm", "recreate")
        lib = w.library()
    if do == "delf":
        ids = pick(fids)
        form = {"feature_id": ids, **({"cluster_id": back} if step["back"] else {})}
        path, call = "/index/0/feature/remove_from_model", lambda: lib.delete_features(ids)
        to = f"/index/0/cluster/{back}" if step["back"] else "/index/0/"
    elif do == "delc":
        ids = pick(cids)
        form = {"cluster_id": ids, **({"return_cluster_id": back} if step["back"] else {})}
        path, call = "/index/0/cluster/delete", lambda: lib.delete_clusters(ids)
        to = f"/index/0/cluster/{back}" if step["back"] else "/index/0"
    elif do == "merge":
        ids = pick(cids)
        form = {"cluster_id": ids, **({"return_to": "model"} if step["back"] else {})}
        path, call = "/index/0/cluster/merge", lambda: lib.merge_clusters(ids)
        to = f"/index/0/cluster/{ids[0]}"
    elif do == "create":
        ids = pick(fids)
        form = {"feature_id": ids, **({"cluster_id": back} if step["back"] else {})}
        path, call = "/index/0/cluster/create", lambda: lib.create_cluster_from_features(ids)
        to = "/index/0/cluster/{}"
    elif do == "pinf":
        ids = pick(fids)
        on = y % 3
        form = {"feature_id": ids, **({"cluster_id": back} if step["back"] else {}), **({"pinned": int(on > 0)} if on < 2 else {})}
        path, call = "/index/0/feature/pin", lambda: lib.pin_features(ids, pinned=on > 0)
        to = f"/index/0/cluster/{back}" if step["back"] else "/index/0/"
    elif do == "pinc":
        ids = pick(cids)
        on = y % 3
        form = {"cluster_id": ids, **({"return_to": "model"} if step["back"] else {}), **({"pinned": int(on > 0)} if on < 2 else {})}
        path, call = "/index/0/cluster/pin", lambda: lib.pin_clusters(ids, pinned=on > 0)
        to = f"/index/0/?cluster_id={ids[0]}" if step["back"] else f"/index/0/cluster/{ids[0]}"
    elif do == "refc":
        pinned = [c for c in cids if c in lib.pinned_cluster_ids]
        ids = pick(pinned if pinned and z % 5 < 2 else cids)
        form = {"cluster_id": ids, "target_clusters": ["", 1, 2, 4][y % 4], **({"return_to": "model"} if step["back"] else {})}
        kw = {"target_clusters": [None, 1, 2, 4][y % 4], "iterations": 10, "minimum_cluster_features": 1}
        if z % 2:
            form["iterations"] = kw["iterations"] = z % 4
        if z % 3 == 1:
            form["minimum_cluster_features"] = kw["minimum_cluster_features"] = 1 + z % 2
        path, call = "/index/0/cluster/refine", lambda: lib.refine_clusters(cluster_ids=ids, **kw)
        to = f"/index/0/?cluster_id={ids[0]}" if step["back"] else f"/index/0/cluster/{ids[0]}"
    elif do == "refm":
        kw = {"target_clusters": [None, 1, 3, 5][y % 4], "iterations": 10, "minimum_cluster_features": 1}
        form = {"target_clusters": ["", 1, 3, 5][y % 4]}
        if z % 2:
            form["iterations"] = kw["iterations"] = z % 4
        if z % 3 == 1:
            form["minimum_cluster_features"] = kw["minimum_cluster_features"] = 1 + z % 2
        path, call = "/index/0/refine_model", lambda: lib.refine_clusters(**kw)
        to = "/index/0"
    else:
        fields = [r[0] for r in lib.indexed_field_summary()]
        include = list(dict.fromkeys(fields[x % len(fields)] for x in xs)) if fields and step["back"] else None
        n = 1 + y % 5
        form = {"clusters": n, "min_docs": 1 + z % 2, "iterations": z % 4, **({"include_fields": include} if include else {})}
        least = 1
        if z % 3:
            least = form["minimum_cluster_features"] = z % 3

        def call():
            lib.initialise_clusters(n, min_docs=1 + z % 2, include_fields=include)
            lib.refine_clusters(iterations=z % 4, minimum_cluster_features=least)

        path, to = "/index/0/recreate_model", "/index/0"
    return path, form, call, to


def edit(w, step, cids, fids):
    """-> (what, changed) or None if there is nothing to edit"""
    prepared = prepare(w, step, cids, fids)
    if prepared is None:
        return None
    path, form, call, to = prepared
    what = f"POST {path} {form}"
    before = w.state()
    try:
        result, raised = call(), None
    except Exception as e:
        raised = e
    r = w.request("POST", path, form)
    if raised is not None:
        expect(r.status >= 400, f"{what}: status {r.status}, but the library raises {raised!r}")
    else:
        expect(r.status in (302, 303), f"{what}: status {r.status}: {r.error()}")
        to = to.format(result) if step["do"] == "create" else to
        expect_eq(r.location, to, f"{what}: redirect")
    after = w.state()
    expect_eq(diff_models(after, w.lib_state()), [], f"{what}: differences to the library call")
    w.reseed = False
    return what, after != before


def diff_models(a, b):
    """Unequal tables."""
    return [t for t in a if a[t] != b[t]]


def other(w, step, cids, fids):
    lib = w.library()
    do, x, y = step["do"], step["x"], step["y"]
    if do == "details":
        doc = page(w, w.request("GET", "/index/0/details"), "GET details")
        rows = []
        for tr in doc.xpath("//table//tbody/tr"):
            expect(not any(len(td) for td in tr), "details: markup of a field or value interpreted")
            rows.append(tuple(squash(td.text_content()) for td in tr.xpath("./td")))
        want = [tuple(squash(c) for c in r) for r in lib.indexed_field_summary()]
        expect_eq(sorted(rows), sorted(want), "details: field summary")
        options = doc.xpath('//select[@name="include_fields"]/option')
        expect_eq(sorted(o.get("value") for o in options), sorted(r[0] for r in lib.indexed_field_summary()), "details: fields offered")
    elif do == "listing":
        r = w.request("GET", "/")
        expect(r.status in (302, 303) and r.location == "/index/", f"GET /: {r.status} {r.location}")
        doc = page(w, w.request("GET", "/index/"), "GET /index/")
        expect_eq(doc.xpath("//li/a/@href"), ["/index/0"], "listed indexes")
    elif do == "export":
        r = w.request("GET", "/index/0/export_clusters")
        expect(r.status == 200, f"export_clusters: status {r.status}: {r.error()}")
        expect("csv" in r.type, f"export_clusters: content type {r.type}")
        rows = list(csv.reader(io.StringIO(r.body.decode("utf-8"), newline="")))
        expect_eq(rows[0], ["cluster_id", "feature_id", "field", "value", "docs_count"], "export: heading")
        want = [
            [str(c), *map(str, row)] for c, _, fs in lib.top_cluster_features(top_k=2**62) for row in fs
        ]
        expect_eq(sorted(rows[1:]), sorted(want), "export: rows")
        expect_eq(dup_order(rows[1:]), dup_order(want), "export: order of clusters and features")
    elif do == "search":
        feats = features(lib)
        text = [f for f in fids if isinstance(feats[f][1], str) and feats[f][2]]
        if not text:
            return None
        f = text[x % len(text)]
        c = cids[y % len(cids)] if cids and y % 2 else None
        path = url("/index/0/search", field=feats[f][0], value=feats[f][1], cluster_id=c)
        r = w.request("GET", path)
        expect(r.status in (302, 303), f"GET {path}: status {r.status}: {r.error()}")
        if c is None:
            expect_eq(r.location, f"/index/0/?feature_id={f}", f"GET {path}: redirect")
        else:
            expect_eq(r.location, f"/index/0/cluster/{c}?feature_id={f}", f"GET {path}: redirect")
            path = url(f"/index/0/cluster/{c}/search", field=feats[f][0], value=feats[f][1])
            r = w.request("GET", path)
            expect_eq(r.location, f"/index/0/cluster/{c}/?feature_id={f}", f"GET {path}: redirect")
    elif do == "wrong":
        paths = [
            ("/index/0/cluster/delete", "cluster_id"), ("/index/0/cluster/merge", "cluster_id"),
            ("/index/0/cluster/create", "feature_id"), ("/index/0/cluster/refine", "cluster_id"),
            ("/index/0/cluster/pin", "cluster_id"), ("/index/0/feature/remove_from_model", "feature_id"),
            ("/index/0/feature/pin", "feature_id"), ("/index/0/recreate_model", None), ("/index/0/refine_model", None),
        ]
        path, key = paths[x % len(paths)]
        form = {key: [(cids or [1])[y % len(cids or [1])]] * 2 if key == "cluster_id" else [fids[y % len(fids)]]} if key else {}
        if path.endswith("recreate_model"):
            form = {"min_docs": 1, "clusters": 2}
        path = path + ("?" + urllib.parse.urlencode(form, doseq=True) if form else "")
        r = w.request(step["method"], path)
        expect_eq(r.status, 405, f"{step['method']} {path}: status")
    elif do == "missing":
        missing = max(cids, default=0) + 1 + x
        for path in (f"/index/0/cluster/{missing}", "/index/1/"):
            r = w.request("GET", path)
            expect(r.status == 404, f"GET {path}: status {r.status}: {r.error()}")
    return do


def dup_order(rows):
    return [(r[0], r[4]) for r in rows]


def run(case, env):
    w = World(case, env)
    try:
        lib = w.library()
        fids = sorted(features(lib))
        if not fids:
            return {"nontrivial": False}
        edited, shown, labels = False, 0, []
        expect_eq(diff_models(w.state(), w.lib_state()), [], "harness: initial states")
        for step in case["steps"]:
            cids = lib.cluster_ids
            if "xs" in step:
                r = edit(w, step, cids, fids)
                if r:
                    edited |= r[1]
                    labels.append(step["do"])
            else:
                before = w.state()
                if step["do"] in ("details", "listing", "export", "search", "wrong", "missing"):
                    what = other(w, step, cids, fids)
                else:
                    what, n = view(w, step, cids, fids)
                    if n >= 2:
                        shown += 1
                if what:
                    labels.append(f"{what}-{step['type']}" if step.get("type") else what)
                expect_eq(diff_models(before, w.state()), [], f"tables changed by {step}")
            lib = w.lib
    finally:
        w.router.current = None
    return {"nontrivial": edited and shown > 0, "labels": sorted(set(labels))}


def together_st():
    view = st.fixed_dictionaries(
        {
            "do": st.sampled_from(["model", "feature", "pivot", "cluster", "intersect", "details", "export", "search"]),
            "x": X,
            "y": X,
            "k": st.sampled_from([None, 1, 2, 50]),
            "type": st.sampled_from([None, "document", "concordance", "passage"]),
        }
    )
    edit = st.fixed_dictionaries(
        {"do": st.sampled_from(["delf", "delc", "merge", "create", "create", "pinf", "pinc"]), "xs": editing.XS, "y": X, "z": X, "back": st.booleans()}
    )
    return st.fixed_dictionaries(
        {
            "corpus": corpus_st(),
            "positions": st.sampled_from([True, True, False]),
            "n": st.sampled_from([1, 2, 2, 3, 3, 4, 5]),
            "sched": gen.sched(),
            "seed": gen.SEEDS,
            "views": gen.sized(view, 2, 6),
            "edits": gen.sized(edit, 0, 3),
        }
    )


class Together:
    """Requests that are answered at the same time: all have opened their index before any continues."""

    def __init__(self, n):
        self.barrier = threading.Barrier(n)

    def __call__(self):
        try:
            self.barrier.wait(1)
        except threading.BrokenBarrierError:
            pass


def at_once(w, requests):
    """The responses, or the exceptions."""
    out = [None] * len(requests)

    def send(i, method, path, form):
        try:
            out[i] = Response(w.addr, method, path, form)
        except Exception as e:
            out[i] = e

    w.router.current.arrived = Together(len(requests))
    threads = [threading.Thread(target=send, args=(i, *r)) for i, r in enumerate(requests)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    w.router.current.arrived = lambda: None
    for r in out:
        if isinstance(r, Exception):
            raise r
    return out


def content(r):
    """Passages are shown in random order."""
    return r.status, r.location, r.type, sorted(re.split(r"\s*\n\s*", r.body.decode("utf-8"))) if r.status == 200 else None


def run_together(case, env):
    w = World({**case, "steps": []}, env)
    base = faults.copy_db(w.path, w.path + ".base")

    class Server(SingleIndexServer):
        """A pool for every request."""

        arrived = staticmethod(lambda: None)

        @property
        def pool(self):
            return pool.SchedPool(case["sched"]["workers"], case["sched"]["choices"])

        @pool.setter
        def pool(self, value):
            pass

        def index(self, index_id):
            idx = super().index(index_id)
            idx.random.seed(case["seed"])
            self.arrived()
            return idx

    w.router.current = Server(w.path, corpus_class=w.klass, corpus_args=w.args, pool=None)
    interval = sys.getswitchinterval()
    try:
        lib = w.library()
        feats = features(lib)
        fids = sorted(feats)
        cids = lib.cluster_ids
        if not fids or not cids:
            return {"nontrivial": False}
        views = []
        for v in case["views"]:
            f, c, do = fids[v["x"] % len(fids)], cids[v["y"] % len(cids)], v["do"]
            more = {"exemplar_docs": 50, "result_type": v["type"]}
            if do in ("model", "feature", "pivot"):
                q = {"feature_id": f} if do == "feature" else {"cluster_id": c} if do == "pivot" else {}
                views.append(url("/index/0/", top_k_features=v["k"], **q, **more))
            elif do in ("cluster", "intersect"):
                views.append(url(f"/index/0/cluster/{c}", feature_id=f if do == "intersect" else None, **more))
            elif do == "search" and isinstance(feats[f][1], str) and feats[f][2]:
                views.append(url("/index/0/search", field=feats[f][0], value=feats[f][1]))
            else:
                views.append("/index/0/details" if do == "details" else "/index/0/export_clusters")
        requests = []
        for p in views:
            r = Response(w.addr, "GET", p)
            if r.status == 301:
                p = r.location
            requests.append(("GET", p, None))
        alone = [content(Response(w.addr, *r)) for r in requests]
        sys.setswitchinterval(1e-5)
        for r, a, b in zip(requests, alone, at_once(w, requests)):
            expect(a[0] in (200, 302, 303), f"GET {r[1]}: status {a[0]}")
            expect(b.status == a[0], f"GET {r[1]}: status {b.status}, alone {a[0]}: {b.error()}")
            expect_eq(content(b), a, f"GET {r[1]}, while {[x[1] for x in requests]} are requested")
        # edits at the same time
        edits = [(e, prepare(w, e, cids, fids, lib)) for e in case["edits"]]
        edits = [(e, p) for e, p in edits if p]
        if len(edits) >= 2:
            answers = at_once(w, [("POST", p[0], p[1]) for _, p in edits])
            what = f"{[(p[0], p[1]) for _, p in edits]} at the same time"
            ok = []
            for (e, p), r in zip(edits, answers):
                if r.status < 400:
                    expect(r.status in (302, 303), f"{what}: status {r.status} of {p[0]}")
                    ok.append(e)
                else:
                    # refused by the library, or as another edit was being made
                    expect(r.status >= 500, f"{what}: status {r.status} of {p[0]}")
            state = w.state()

            def result(order):
                w.lib.close()
                w.lib = None
                faults.copy_db(base, w.lib_path)
                lib = w.library()
                for e in order:
                    call = prepare(w, e, cids, fids, lib)[2]
                    try:
                        call()
                    except Exception:
                        return None
                return w.lib_state()

            if not ok:
                expect(any(result([e]) is None for e, _ in edits), f"{what}: all of them failed")
                expect_eq(diff_models(state, result([])), [], f"{what}: all of them failed, but tables changed")
            else:
                expect(
                    any(r is not None and not diff_models(state, r) for r in map(result, itertools.permutations(ok))),
                    f"{what}: statuses {[r.status for r in answers]}: the index is as after no order of the edits that succeeded",
                )
    finally:
        sys.setswitchinterval(interval)
        w.router.current = None
    return {
        "nontrivial": len(set(requests_of(requests))) > 1,
        "labels": sorted({v["do"] for v in case["views"]}) + ["edits"] * (len(edits) >= 2),
    }


def requests_of(requests):
    return [r[1] for r in requests]


SUBS = [
    Sub("together", together_st, run_together, quick=400, thorough=8000),
    Sub("requests", case_st, run, quick=1800, thorough=30000),
    Sub(
        "large",
        lambda: case_st(gen.rand_corpus(600, min_docs=100, vocab=400, length=30), st.integers(20, 120)),
        run,
        quick=16,
        thorough=400,
    ),
]
