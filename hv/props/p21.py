"""P21: a Stack Exchange corpus reflects the loaded site dumps."""
import collections
import html
import json
import os
import pickle
from xml.sax.saxutils import quoteattr

from hypothesis import strategies as st
from lxml import html as lxml_html

from hv import gen
from hv.core import Sub, Violation, expect, expect_eq
from hv.util import doc_id_map, open_index

from hyperreal import utilities
from hyperreal.corpus import StackExchangeCorpus

TECHNIQUE = "stateful property-based testing (Hypothesis): generated site dumps against a dictionary model"
RULE = (
    "1-4 generated loads of 1-3 sites with overlapping post, comment and user ids, reloaded posts, other post types, "
    "missing users and parents, markup and quotes in every text, and code blocks before, between and after text; some "
    "loads end in a truncated XML file. After each load keys, documents, index fields, table rows, rendered HTML and "
    "an index built from the corpus are compared with dictionaries. Non-trivial: two sites share a post id, or a post "
    "was loaded again with other attributes."
)
ASSUMPTIONS = [
    "When a post is loaded again without a tag it had before, both keeping and dropping the tag are accepted (the "
    "documentation leaves it open). Code blocks nested in code blocks are not generated."
]

SITES = ["https://a.example.com", "https://b.example.com", "https://a.example.com/x?y=1&z"]
WORD = st.sampled_from(["alpha", "Beta", "gamma", "delta7", "naïve", "日本", "x"])
MARKUP = st.sampled_from(["<b>", "</b>", "&", "&amp;", "<script>", '"', "'", "<", ">", "{{ 1 }}"])
TEXT = st.lists(gen.mix(WORD, WORD, WORD, MARKUP), min_size=1, max_size=5).map(" ".join)
TAG = st.sampled_from(["c++", "python", "r&d", "a'b", '"q"', "日本", "c#"])
NAME = st.one_of(TEXT, st.sampled_from(["Ann", "Bob <i>", "O'Hara", "&lt;"]))
WORDS = st.lists(WORD, max_size=4).map(" ".join)

# body segments: kind and text
SEGMENT = st.tuples(
    st.sampled_from(["p", "p", "p", "b", "inline", "block", "block", "prepost", "pre", "raw", "comment"]), WORDS, WORDS
)


def body_of(segments):
    """-> (html, words of the text, words of the code blocks)"""
    out, text, code = [], [], []
    for kind, a, b in segments:
        ea, eb = html.escape(a), html.escape(b)
        if kind == "p":
            out.append(f"<p>{ea}</p>\n")
            text += [a]
        elif kind == "b":
            out.append(f"<p>{ea}<b>{eb}</b> and</p>")
            text += [a, b, "and"]
        elif kind == "inline":
            out.append(f"<p>use <code>{ea}</code> or {eb}</p>")
            text += ["use", a, "or", b]
        elif kind == "block":
            out.append(f"<pre><code>{ea}\n{eb}</code></pre>")
            code += [a, b]
        elif kind == "prepost":
            out.append(f"<pre>before<code>{ea}</code>after {eb}</pre>")
            code += [a]
            text += ["before", "after", b]
        elif kind == "comment":
            out.append(f"<!-- language: {ea.replace('-', ' ')} -->\n")
        elif kind == "pre":
            out.append(f"<pre class=x>{ea} {eb}</pre>")
            text += [a, b]
        else:
            out.append(f" {ea}\n")
            text += [a]
    return "".join(out), [w for t in text for w in t.split()], [w for t in code for w in t.split()]


ID = st.integers(1, 6)


def load_st():
    post = st.fixed_dictionaries(
        {
            "Id": ID,
            "type": st.sampled_from(["1", "1", "2", "2", "4", None]),
            "owner": st.one_of(st.none(), st.integers(1, 5)),
            "title": TEXT,
            "body": st.lists(SEGMENT, max_size=4),
            "tags": st.lists(TAG, max_size=3, unique=True),
            "parent": ID,
            "date": st.tuples(st.integers(2008, 2024), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59)),
            "license": st.sampled_from(["CC BY-SA 2.5", "CC BY-SA 4.0"]),
            "nobody": st.booleans(),
        }
    )
    comment = st.fixed_dictionaries(
        {"Id": ID, "post": ID, "user": st.one_of(st.none(), st.integers(1, 5)), "text": TEXT, "license": st.just("CC BY-SA 3.0")}
    )
    user = st.fixed_dictionaries({"Id": st.integers(1, 4), "name": NAME})
    return st.fixed_dictionaries(
        {
            "site": st.integers(0, 2),
            "posts": gen.sized(post, 0, 6),
            "comments": gen.sized(comment, 0, 5),
            "users": gen.sized(user, 0, 4),
            "repeat": gen.mix(*[st.just(1)] * 60, st.integers(2, 60), st.integers(200, 230)),
            "cut": gen.mix(
                st.none(), st.none(), st.none(),
                st.tuples(
                    st.sampled_from(["posts", "comments", "users"]),
                    st.integers(1, 99),
                    st.sampled_from(["xml", "error", "interrupt"]),
                ),
            ),
            "missing": gen.mix(*[st.none()] * 5, st.sampled_from(["html", "table", "docs"])),
        }
    )


def case_st():
    return st.fixed_dictionaries(
        {
            "loads": gen.sized(load_st(), 1, 4),
            "sched": gen.sched(),
            "via": st.lists(st.sampled_from(["same", "same", "pickle", "reopen"]), min_size=4, max_size=4),
        }
    )


def xml(root, rows, cut=None):
    lines = ['<?xml version="1.0" encoding="utf-8"?>', f"<{root}>"]
    for r in rows:
        lines.append("  <row " + " ".join(f"{k}={quoteattr(str(v))}" for k, v in r.items() if v is not None) + " />")
    lines.append(f"</{root}>")
    if cut is not None:
        # after a generated share of the rows, in the middle of the next one
        n = 2 + int(len(rows) * cut / 100)
        lines = lines[:n] + [lines[n][: len(lines[n]) // 2]]
    return "\n".join(lines).encode()


class Breaking:
    """A file that can't be read to its end."""

    def __init__(self, path, how):
        self.f = open(path, "rb")
        self.how = how

    def read(self, n=-1):
        data = self.f.read(n)
        if data:
            return data
        self.f.close()
        raise KeyboardInterrupt() if self.how == "interrupt" else OSError("unreadable")


def missing_document(corpus, how):
    """Asking for a document that isn't there fails or finds nothing, and has no other effect."""
    ask = {"html": corpus.render_docs_html, "table": corpus.render_docs_table, "docs": lambda k: list(corpus.docs(k))}
    try:
        expect_eq(list(ask[how]([10**6])), [], "a document that does not exist")
    except Exception as e:
        if isinstance(e, Violation):
            raise


class Model:
    def __init__(self):
        self.posts = {}  # (site, Id) -> attrs
        self.tags, self.maybe_tags = {}, {}
        self.comments, self.users = {}, {}
        self.reloaded = False

    def copy(self):
        m = Model()
        m.posts, m.comments, m.users = dict(self.posts), dict(self.comments), dict(self.users)
        m.tags, m.maybe_tags = dict(self.tags), {k: set(v) for k, v in self.maybe_tags.items()}
        m.reloaded = self.reloaded
        return m

    def load(self, site, posts, comments, users):
        for p in posts:
            if p["PostTypeId"] not in ("1", "2"):
                continue
            k = (site, p["Id"])
            self.reloaded |= k in self.posts and self.posts[k] != p
            self.posts[k] = p
            new = set(p["_tags"])
            self.maybe_tags[k] = self.maybe_tags.get(k, set()) | new
            self.tags[k] = new
        for c in comments:
            self.comments[site, c["Id"]] = c
        for u in users:
            self.users[site, u["Id"]] = u["DisplayName"]

    def name(self, site, user):
        return self.users.get((site, user), "<Deleted User>") if user is not None else "<Deleted User>"


def repeated(load):
    """The same posts, comments and users again under other ids."""
    out = {"posts": [], "comments": [], "users": []}
    for i in range(load.get("repeat", 1)):
        out["posts"] += [dict(p, Id=p["Id"] + 6 * i, parent=p["parent"] + 6 * i) for p in load["posts"]]
        out["comments"] += [dict(c, Id=c["Id"] + 6 * i, post=c["post"] + 6 * i) for c in load["comments"]]
        out["users"] += [dict(u, Id=u["Id"] + 4 * i) for u in load["users"]]
    return out


def rows_of(load):
    load = repeated(load)
    posts = []
    for p in load["posts"]:
        question = p["type"] == "1"
        body = None if p["nobody"] and not p["body"] else body_of(p["body"])[0]
        y, mo, d, h, mi = p["date"]
        posts.append(
            {
                "Id": p["Id"],
                "PostTypeId": p["type"],
                "OwnerUserId": p["owner"],
                "Title": p["title"] if question else None,
                "Body": body,
                "Tags": "".join(f"<{t}>" for t in p["tags"]) if question and p["tags"] else None,
                "ParentId": None if question else p["parent"],
                "CreationDate": f"{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:07.123",
                "ContentLicense": p["license"],
                "Score": 3,
                "_tags": p["tags"] if question else [],
                "_seg": p["body"],
                "_date": p["date"],
            }
        )
    comments = [
        {"Id": c["Id"], "PostId": c["post"], "UserId": c["user"], "Text": c["text"], "ContentLicense": c["license"],
         "CreationDate": "2020-01-01T00:00:00.000"}
        for c in load["comments"]
    ]
    users = [{"Id": u["Id"], "DisplayName": u["name"], "Reputation": 1} for u in load["users"]]
    return posts, comments, users


def public(rows):
    return [{k: v for k, v in r.items() if not k.startswith("_")} for r in rows]


def check(corpus, m, known_keys, what):
    comments_on = collections.defaultdict(list)
    for (site, _), c in m.comments.items():
        comments_on[site, c["PostId"]].append(c)
    keys = list(corpus.keys())
    expect_eq(len(keys), len(m.posts), f"{what}: number of documents")
    docs = list(corpus.docs())
    expect_eq(sorted(k for k, _ in docs), sorted(keys), f"{what}: keys of docs()")
    seen = {}
    expected_index = {}
    for key, doc in docs:
        site, pid = doc["site_url"], doc["Id"]
        w = f"{what}: document {key} ({site} {pid})"
        expect((site, pid) in m.posts, f"{w}: not a loaded question or answer")
        expect((site, pid) not in seen, f"{w}: appears twice")
        seen[site, pid] = key
        if (site, pid) in known_keys:
            expect_eq(key, known_keys[site, pid], f"{w}: key after loading again")
        p = m.posts[site, pid]
        kind = {"1": "Question", "2": "Answer"}[p["PostTypeId"]]
        for f in ("Title", "Body", "CreationDate"):
            expect_eq(doc[f] or None, p[f] or None, f"{w}: {f}")
        expect_eq(doc["PostType"], kind, f"{w}: type")
        author = m.name(site, p["OwnerUserId"])
        expect_eq(doc["DisplayName"], author, f"{w}: author")
        root = (site, p["ParentId"] if p["ParentId"] is not None else pid)
        low, high = m.tags.get(root, set()), m.maybe_tags.get(root, set())
        tags = set(doc["Tags"])
        expect(low <= tags <= high, f"{w}: tags {tags}, expected {low}")
        comments = comments_on[site, pid]
        expect_eq(
            collections.Counter((c["DisplayName"], c["Text"]) for c in doc["UserComments"]),
            collections.Counter((m.name(site, c["UserId"]), c["Text"]) for c in comments),
            f"{w}: comments",
        )
        # fields for indexing
        got = corpus.index(doc)
        _, text, code = body_of(p["_seg"]) if p["Body"] else ("", [], [])
        tok = lambda words: [t for x in words for t in utilities.tokens(x)]
        y, mo, d, _, _ = p["_date"]
        want = {
            "UserPosting": {author},
            "Post": utilities.tokens(p["Title"] or "") + tok(text),
            "CodeBlock": tok(code),
            "Tag": tags,
            "UserCommenting": {m.name(site, c["UserId"]) for c in comments},
            "Comment": [t for c in doc["UserComments"] for t in utilities.tokens(c["Text"])],
            "Site": {site},
            "PostType": {kind},
            "created_day": {f"{y:04}-{mo:02}-{d:02}T00:00:00"},
            "created_month": {f"{y:04}-{mo:02}-01T00:00:00"},
            "created_year": {f"{y:04}-01-01T00:00:00"},
        }
        expect_eq(set(got), set(want), f"{w}: indexed fields")
        for f in want:
            g = got[f]
            expect_eq(
                list(g) if isinstance(want[f], list) else set(g), want[f], f"{w}: indexed values of {f}"
            )
        expected_index[key] = want
        # the same document asked for alone
        expect_eq([k for k, _ in corpus.docs(doc_keys=[key])], [key], f"{w}: docs([{key}])")
    expect_eq(set(seen), set(m.posts), f"{what}: documents")

    # table rows and HTML
    rows = corpus.render_docs_table(keys)
    expect_eq([k for k, _ in rows], keys, f"{what}: keys of table rows")
    pages = corpus.render_docs_html(keys)
    expect_eq([k for k, _ in pages], keys, f"{what}: keys of rendered documents")
    by_key = {k: sp for sp, k in seen.items()}
    for (key, row), (_, page) in zip(rows, pages):
        site, pid = by_key[key]
        p = m.posts[site, pid]
        w = f"{what}: rendered document {key} ({site} {pid})"
        parent = m.posts.get((site, p["ParentId"]))
        title = p["Title"] or (parent["Title"] if parent else None)
        author = m.name(site, p["OwnerUserId"])
        comments = comments_on[site, pid]
        want = {
            "site_url": site,
            "Id": pid,
            "OwnerUserId": p["OwnerUserId"],
            "DisplayName": author,
            "ContentLicense": p["ContentLicense"],
            "PostType": {"1": "Question", "2": "Answer"}[p["PostTypeId"]],
            "Body": p["Body"],
            "ParentId": p["ParentId"],
            "QuestionTitle": title,
            "LiveLink": f"{site}/questions/{pid}",
        }
        expect_eq(set(corpus.table_fields) - set(row), set(), f"{w}: missing columns")
        for f, v in want.items():
            expect_eq(row[f] or None, v or None, f"{w}: column {f}")
        expect_eq(
            sorted(row["tags"].split(", ")) if row["tags"] else [], sorted(expected_index[key]["Tag"]), f"{w}: tags column"
        )
        expect_eq(
            collections.Counter((c["DisplayName"], c["Text"], c["ContentLicense"]) for c in json.loads(row["comments"])),
            collections.Counter((m.name(site, c["UserId"]), c["Text"], c["ContentLicense"]) for c in comments),
            f"{w}: comments column",
        )
        # the page: user supplied text is text, not markup
        tree = lxml_html.fragment_fromstring(str(page), create_parent="div")
        ems = tree.xpath("./details/summary/em")
        expect_eq(len(ems), 1, f"{w}: titles in the page")
        if title:
            expect_eq(squash(ems[0].text_content()), squash(title), f"{w}: title in the page")
            expect_eq(len(ems[0]), 0, f"{w}: elements within the title")
        small = tree.xpath("./details/p/small")
        expect_eq(len(small), 1, f"{w}: author lines in the page")
        expect(squash(author) in squash(small[0].text_content()), f"{w}: author {author!r} not shown as text")
        expect(
            {x.tag for x in small[0].iterdescendants()} <= {"a"}, f"{w}: markup of the author line interpreted"
        )
        lists = tree.xpath("./details/details/ul")
        if len(lists) == 2:
            expect_eq(
                sorted(squash(x.text_content()) for x in lists[0].xpath("./li")),
                sorted(map(squash, expected_index[key]["Tag"])),
                f"{w}: tags in the page",
            )
            items = lists[1].xpath("./li")
            expect_eq(len(items), len(comments), f"{w}: comments in the page")
            expect_eq(
                sorted(squash(x.text or "") for x in items), sorted(squash(c["Text"]) for c in comments),
                f"{w}: comment texts in the page",
            )
            shown = sorted(squash(x.text_content()) for x in items)
            for c in comments:
                n = squash(m.name(site, c["UserId"]))
                expect(any(n in s for s in shown), f"{w}: commenter {n!r} not shown as text")
            expect(
                {x.tag for i in items for x in i.iterdescendants()} <= {"small", "a"},
                f"{w}: markup of a comment interpreted",
            )
        else:
            expect(False, f"{w}: {len(lists)} lists in the page")
    return seen, expected_index


def squash(s):
    return " ".join(s.split())


def run(case, env):
    d = env.fresh()
    path = os.path.join(d, "se.db")
    corpus = StackExchangeCorpus(path)
    opened = [corpus]
    env.cleanups.append(lambda: [c.close() for c in opened])
    m = Model()
    keys, expected, loaded, cuts, older = {}, {}, False, 0, []
    for n, load in enumerate(case["loads"]):
        posts, comments, users = rows_of(load)
        files = {}
        cut = load["cut"]
        how = cut[2] if cut and len(cut) > 2 else "xml"
        for name, rows in (("posts", posts), ("comments", comments), ("users", users)):
            files[name] = os.path.join(d, f"{name}{n}.xml")
            with open(files[name], "wb") as f:
                f.write(xml(name, public(rows), cut[1] if cut and cut[0] == name else None))
            if cut and cut[0] == name and how != "xml":
                files[name] = Breaking(files[name], how)
        site = SITES[load["site"]]
        what = f"load {n + 1} of {site}" + (f" with {cut[0]} ending in {how}" if cut else "")
        via = case["via"][n % 4]
        if loaded and load.get("missing"):
            missing_document(corpus, load["missing"])
        if via == "pickle":
            older.append(corpus)
            corpus = pickle.loads(pickle.dumps(corpus))
            opened.append(corpus)
        elif via == "reopen":
            corpus.close()
            corpus = StackExchangeCorpus(path)
            opened.append(corpus)
        try:
            corpus.add_site_data(files["posts"], files["comments"], files["users"], site)
            failed = False
        except (Exception, KeyboardInterrupt) as e:
            failed = True
            if not cut:
                raise Violation(f"{what}: raised {type(e).__name__}: {e}")
        if cut:
            expect(failed, f"{what}: no error was reported")
            cuts += 1
        else:
            m.load(site, posts, comments, users)
        loaded = True
        new = StackExchangeCorpus(path)
        opened.append(new)
        for c in [corpus, new] + older[-1:]:
            keys2, expected = check(c, m, keys, what)
        keys = keys2
    if m.posts:
        idx = open_index(env, os.path.join(d, "i.db"), corpus, case["sched"])
        idx.index(doc_batch_size=2 if len(expected) < 50 else 97)
        ids = doc_id_map(idx)
        expect_eq(set(ids), set(expected), "indexed document keys")
        want = {}
        for k, fields in expected.items():
            for f, values in fields.items():
                for v in values:
                    want.setdefault((f, v), set()).add(ids[k])
        for fv, docs in want.items():
            expect_eq(set(idx[fv]), docs, f"documents of {fv} in the index")
        expect_eq(
            {(f, v) for f, v in idx.db.execute("select field, value from inverted_index")}, set(want), "indexed features"
        )
    by_id = collections.Counter(pid for _, pid in m.posts)
    shared = any(c > 1 for c in by_id.values())
    return {
        "nontrivial": shared or m.reloaded,
        "labels": ["shared-ids"] * shared + ["reloaded"] * m.reloaded + ["failed-load"] * bool(cuts),
    }


SUBS = [Sub("loads", case_st, run, quick=1000)]
