"""P25: a Twittersphere corpus reflects the collected tweets."""
import html
import os
import pickle
import sqlite3

from hv.props import p23  # first, as it replaces the process pools of the commands

from click.testing import CliRunner
from hypothesis import strategies as st

import cherrypy

from hv import gen, pool
from hv.core import Sub, Violation, expect, expect_eq
from hv.util import doc_id_map, open_index

import hyperreal.cli
from hyperreal import utilities
from hyperreal.corpus import TwittersphereCorpus

TECHNIQUE = "property-based testing (Hypothesis): generated tweet databases against a dictionary model"
RULE = (
    "tweets: a generated database of users and tweets collected several times (changing user names and counts, some only "
    "as references, several collections, retweets, quotes and replies to present and absent tweets, hashtags, mentions, "
    "links within and outside of Twitter). Keys, documents, index fields, rendered pages, and the indexes built by the "
    "library and by the command are compared with dictionaries. refuse: databases of other or older schemas. "
    "In half of the cases the database changes while the corpus is open. Non-trivial: at least two collected tweets, one of them referring to another present tweet."
)
ASSUMPTIONS = [
    "The tables and views of a Twittersphere database are reconstructed from the queries in the repository, as the tool "
    "itself is not available offline.",
    "Whether texts and names in a rendered page are escaped is left open (the API delivers texts as HTML).",
]

SCHEMA = """
create table metadata(key primary key, value);
create table collection_context(context_id integer primary key, label);
create table tweet_at_time(
    tweet_id integer, retrieved_at, user_id integer, created_at, text, conversation_id integer,
    like_count, reply_count, quote_count, retweet_count,
    retweeted_tweet_id integer, quoted_tweet_id integer, replied_to_tweet_id integer,
    context_id integer, directly_collected integer
);
create view tweet_latest as
    select * from tweet_at_time t where retrieved_at = (
        select max(retrieved_at) from tweet_at_time where tweet_id = t.tweet_id
    ) group by tweet_id;
create view directly_collected_tweet as
    select distinct tweet_id from tweet_at_time where directly_collected = 1;
create table user_at_time(user_id integer, retrieved_at, username, name, profile_image_url);
create view user_latest as
    select * from user_at_time u where retrieved_at = (
        select max(retrieved_at) from user_at_time where user_id = u.user_id
    );
create table tweet_hashtag(tweet_id integer, hashtag);
create table tweet_mention(tweet_id integer, mentioned_username);
create table tweet_url(tweet_id integer, retrieved_at, url);
create table url(url, retrieved_at, unwound_url, expanded_url);
"""

WORDS = ["alpha", "Beta", "gamma", "delta7", "naïve", "été"]
INNER = ["#Tag", "@someone", "https://t.co/abc", "&amp;", "&lt;3", "don't", "I’m", "?!", "x.y"]
TAGS = ["Tag", "tag", "TAG2", "日本", "Été"]
NAMES = ["ann", "Bob", "BOB", "cat_7", "dora"]
HOSTS = ["example.com", "Example.org", "www.example.com:8080", "twitter.com", "mobile.twitter.com", "notwitter.com"]
PATHS = ["/", "/a?b=c", "/x/https://twitter.com/y", "#f", ""]
TIMES = ["2023-01-01T00:00:00+00:00", "2023-02-01T10:00:00+00:00", "2023-10-01T09:00:00+00:00"]
LABELS = ["search one", "timeline", "Search One"]

URL = st.tuples(st.sampled_from(["https", "http"]), st.sampled_from(HOSTS), st.sampled_from(PATHS))
USER = st.fixed_dictionaries({"name": st.sampled_from(NAMES), "versions": st.lists(st.integers(0, 2), min_size=1, max_size=3)})
TWEET = st.fixed_dictionaries(
    {
        "user": st.integers(0, 3),
        "words": st.lists(st.sampled_from(WORDS + INNER), max_size=7),
        "date": st.tuples(st.integers(2008, 2023), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)),
        "frac": st.booleans(),
        "conversation": st.integers(0, 5),
        "refs": st.lists(st.one_of(st.none(), st.none(), st.integers(0, 8)), min_size=3, max_size=3),
        "retweet": st.integers(0, 2),
        "times": st.lists(st.tuples(st.integers(0, 2), st.booleans(), st.integers(0, 2)), min_size=1, max_size=3),
        "tags": st.lists(st.sampled_from(TAGS), max_size=3),
        "mentions": st.lists(st.sampled_from(NAMES), max_size=3),
        "urls": st.lists(st.tuples(URL, st.integers(0, 4), st.integers(0, 2)), max_size=3),
        "user_seen": st.booleans(),
    }
)


def case_st():
    return st.fixed_dictionaries(
        {
            "users": st.lists(USER, min_size=4, max_size=4),
            "tweets": gen.sized(TWEET, 0, 7),
            "order": st.integers(0, 5),
            "batch": st.integers(1, 4),
            "positions": st.booleans(),
            "sched": gen.sched(),
            "subset": st.integers(0, 255),
            "pickle": st.booleans(),
            # None, or the tweets that replace these while the corpus is open
            "later": st.one_of(st.none(), st.integers(0, 2)),
        }
    )


def full(u):
    scheme, host, path = u
    return f"{scheme}://{host}{path}"


def build(case, path):
    """-> {tweet_id: expected index fields}, {tweet_id: expected document attributes}"""
    users = {}  # (user, time) -> username
    for n, u in enumerate(case["users"]):
        for t in u["versions"]:
            users[n, t] = f"{u['name']}{n}v{t}"
    urls, led_to, tweet_urls = {}, {}, []
    tweets = case["tweets"]
    ids = [100 + (n * 7 + case["order"]) % 11 for n in range(len(tweets))]  # not in insertion order
    versions = {}
    for n, t in enumerate(tweets):
        vs = {}
        for time, direct, context in t["times"]:
            vs.setdefault(time, (direct, context))
        versions[ids[n]] = vs
        for time in vs:
            if t["user_seen"]:
                users.setdefault((t["user"], time), f"{case['users'][t['user']]['name']}{t['user']}v{time}")
        for u, form, time in t["urls"]:
            time = sorted(vs)[time % len(vs)]
            short_url = f"https://t.co/{ids[n]}{len(tweet_urls)}"
            if form == 2:
                short_url = full(u)
            elif form > 2:
                # One short link in several tweets and retrievals, which may have led elsewhere then.
                short_url, form = "https://t.co/shared", form - 3
            if (short_url, TIMES[time]) in led_to:
                tweet_urls.append((ids[n], TIMES[time], short_url, led_to[short_url, TIMES[time]]))
                continue
            led_to[short_url, TIMES[time]] = full(u)
            tweet_urls.append((ids[n], TIMES[time], short_url, full(u)))
            urls[short_url, TIMES[time]] = (full(u) if form == 0 else None, "https://twitter.com/i/x" if form == 0 else full(u) if form == 1 else None)
    db = sqlite3.connect(path, isolation_level=None)
    db.executescript(SCHEMA)
    db.execute("begin")
    db.execute("insert into metadata values('twittersphere_schema_version', 15)")
    for i, l in enumerate(LABELS):
        db.execute("insert into collection_context values(?, ?)", [i, l])
    for (u, time), name in users.items():
        db.execute("insert into user_at_time values(?, ?, ?, ?, ?)", [u, TIMES[time], name, f"Name of {name}", "https://img.example/1"])
    latest_user = lambda u: users[u, max(t for x, t in users if x == u)]
    ref_of = {}
    for n, t in enumerate(tweets):
        refs = [None if r is None else ids[r] if r < len(ids) else 200 + r for r in t["refs"]]
        if t["retweet"]:
            refs[0] = None
        ref_of[ids[n]] = refs
        y, mo, d, h, mi, s = t["date"]
        created = f"{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:{s:02}{'.123' if t['frac'] else ''}Z"
        for time, (direct, context) in versions[ids[n]].items():
            db.execute(
                f"insert into tweet_at_time values({','.join('?' * 15)})",
                [ids[n], TIMES[time], t["user"], created, " ".join(t["words"]), 500 + t["conversation"], time, 1, 2, 3,
                 *refs, context, int(direct)],
            )
        for x in t["tags"]:
            db.execute("insert into tweet_hashtag values(?, ?)", [ids[n], x])
        for x in t["mentions"]:
            db.execute("insert into tweet_mention values(?, ?)", [ids[n], x])
    for i, time, u, _ in tweet_urls:
        db.execute("insert into tweet_url values(?, ?, ?)", [i, time, u])
    for (u, time), (unwound, expanded) in urls.items():
        db.execute("insert into url values(?, ?, ?, ?)", [u, time, unwound, expanded])
    db.execute("commit")
    db.close()

    want, docs = {}, {}
    author = dict(zip(ids, (t["user"] for t in tweets)))
    for n, t in enumerate(tweets):
        i = ids[n]
        vs = versions[i]
        if not any(direct for direct, _ in vs.values()):
            continue
        last = TIMES[max(vs)]
        y, mo, d, h, mi, s = t["date"]
        fields = {
            "by": {latest_user(t["user"])},
            "created_year": {f"{y:04}-01-01T00:00:00+00:00"},
            "created_month": {f"{y:04}-{mo:02}-01T00:00:00+00:00"},
            "created_day": {f"{y:04}-{mo:02}-{d:02}T00:00:00+00:00"},
            "created_hour": {f"{y:04}-{mo:02}-{d:02}T{h:02}:00:00+00:00"},
            "created_minute": {f"{y:04}-{mo:02}-{d:02}T{h:02}:{mi:02}:00+00:00"},
        }
        rt, quoted, replied = ref_of[i]

        def user_of(ref):
            if ref is None or ref not in versions:
                return set()
            name = users.get((author[ref], max(versions[ref])))
            return set() if name is None else {name}

        if rt is not None:
            fields["retweeted_tweet_id"] = {rt}
            fields["retweeted_user"] = user_of(rt)
        else:
            links = {
                u for k, time, s_, u in tweet_urls
                if k == i and time == last and not u.lower().startswith("https://twitter.com/")
            }
            fields.update(
                {
                    "text": utilities.social_media_tokens(html.unescape(" ".join(t["words"]))),
                    "#": {x.lower() for x in t["tags"]},
                    "@": {x.lower() for x in t["mentions"]},
                    "conversation_id": {500 + t["conversation"]},
                    "url": links,
                    "domain": {u.split("://")[1].split("/")[0].split("#")[0].split(":")[0].lower() for u in links},
                    "quoted_tweet_id": {quoted} - {None},
                    "quoted_user": user_of(quoted),
                    "replied_to_tweet_id": {replied} - {None},
                    "replied_to_user": user_of(replied),
                    "collection_label": {LABELS[c] for direct, c in vs.values() if direct},
                }
            )
            words = [w.lower() for w in t["words"] if w in WORDS]
            expect(
                [x for x in fields["text"] if x in words] == words,
                f"tokens {fields['text']} of the text {t['words']}",
            )
        want[i] = fields
        docs[i] = {"text": " ".join(t["words"]), "like_count": max(vs), "retrieved_at": last, "username": latest_user(t["user"])}
    linked = any(r in versions and r != i for i in want for r in ref_of[i] if r is not None)
    return want, docs, linked


def check_index(idx, want, positions, what):
    ids = doc_id_map(idx)
    expect_eq(sorted(ids), sorted(want), f"{what}: indexed tweets")
    post = {}
    for k, fields in want.items():
        for f, values in fields.items():
            for v in values:
                post.setdefault((f, v), set()).add(ids[k])
    got = {(f, v): set(b) for f, v, b in idx.db.execute("select field, value, doc_ids from inverted_index")}
    for fv in sorted(set(post) | set(got), key=repr):
        expect_eq(got.get(fv), post.get(fv), f"{what}: tweets of {fv}")
    if positions and any(f.get("text") for f in want.values()):
        toks = sorted({v for fields in want.values() for v in fields.get("text", [])})
        # every occurrence can be found
        n = sum(len(fields.get("text", [])) for fields in want.values())
        summary = {r[0]: r for r in idx.indexed_field_summary()}
        expect_eq(sum(x[0] for x in idx.db.execute(
            "select position_count from position_index inner join inverted_index using(feature_id) where field = 'text'"
        )), n, f"{what}: token positions of {toks[:3]}...")
        expect("text" in summary, f"{what}: text missing from the field summary")


def check_docs(case, corpus, want, attrs, when):
    keys = list(corpus.keys())
    expect_eq(keys, sorted(want), f"{when}keys")
    subset = [k for n, k in enumerate(keys) if case["subset"] >> n & 1][:: -1 if case["order"] % 2 else 1]
    for what, arg, expected in (("docs()", None, keys), (f"docs({subset})", subset, subset)):
        docs = list(corpus.docs(doc_keys=arg))
        expect_eq([k for k, _ in docs], expected, f"{when}{what}: keys")
        for k, doc in docs:
            for f, v in attrs[k].items():
                expect_eq(doc["user"][f] if f == "username" else doc[f], v, f"{when}{what}: {f} of tweet {k}")
            got = corpus.index(doc)
            for f in sorted(set(got) | set(want[k])):
                expect(f in got and f in want[k], f"{when}{what}: field {f} of tweet {k}: got {got.get(f)}, expected {want[k].get(f)}")
                g = got[f]
                w = want[k][f]
                expect_eq(
                    list(g) if isinstance(w, list) else {x for x in g if x is not None}, w,
                    f"{when}{what}: indexed values of {f} of tweet {k}",
                )
    pages = corpus.render_docs_html(subset)
    expect_eq([k for k, _ in pages], subset, f"{when}keys of the rendered tweets")
    for k, page in pages:
        expect(attrs[k]["text"] in str(page) or html.escape(attrs[k]["text"]) in str(page) or
               html.escape(attrs[k]["text"]).replace("&#x27;", "&#39;") in str(page), f"{when}rendered tweet {k}: text not shown")
        expect("@" + attrs[k]["username"] in str(page), f"{when}rendered tweet {k}: user not shown")
        expect(f"/status/{k}" in str(page), f"{when}rendered tweet {k}: link not shown")
    return keys


def run(case, env):
    d = env.fresh()
    path = os.path.join(d, "tw.db")
    want, attrs, linked = build(case, path)
    if case.get("later") is not None:
        # with readers and a writer at the same time
        db = sqlite3.connect(path)
        db.execute("pragma journal_mode=wal")
        db.close()
    corpus = TwittersphereCorpus(path)
    if case["pickle"]:
        corpus.close()
        corpus = pickle.loads(pickle.dumps(corpus))
    env.cleanups.append(corpus.close)
    keys = check_docs(case, corpus, want, attrs, "")
    if case.get("later") is not None:
        if case["later"] % 2:
            try:
                expect_eq(corpus.render_docs_html([10**9]), [], "a tweet that does not exist")
            except Exception as e:
                if isinstance(e, Violation):
                    raise
        # The tool keeps collecting into the same database.
        case = {**case, "tweets": case["tweets"][case["later"] % 3:] + case["tweets"][:1], "order": case["order"] + 1}
        want, attrs, linked = build(case, os.path.join(d, "later.db"))
        db = sqlite3.connect(path, isolation_level=None)
        db.execute("attach ? as later", [os.path.join(d, "later.db")])
        db.execute("begin")
        for t, in db.execute("select name from later.sqlite_master where type = 'table'").fetchall():
            db.execute(f"delete from main.{t}")
            db.execute(f"insert into main.{t} select * from later.{t}")
        db.execute("commit")
        db.close()
        keys = check_docs(case, corpus, want, attrs, "after collecting more: ")

    idx = open_index(env, os.path.join(d, "i.db"), corpus, case["sched"])
    idx.index(doc_batch_size=case["batch"], index_positions=case["positions"])
    check_index(idx, want, case["positions"], "index")
    # the command indexes positions by default
    p23._choices[:] = case["sched"]["choices"] or [0]
    other = os.path.join(d, "cli.db")
    args = ["twittersphere-corpus", "index", path, other, "--doc-batch-size", str(case["batch"])]
    r = CliRunner().invoke(hyperreal.cli.cli, args)
    expect(r.exit_code == 0, f"{args[:2]}: exit code {r.exit_code}: {r.exception!r}")
    check_index(open_index(env, other), want, True, "index made by the command")
    if case["order"] % 3 == 0:
        cherrypy.tree.apps.clear()
        with p23.no_engine() as engine:
            r = CliRunner().invoke(hyperreal.cli.cli, ["twittersphere-corpus", "serve", path, other])
        expect(r.exit_code == 0, f"serve: exit code {r.exit_code}: {r.exception!r}")
        expect(engine.blocked, "serve: ended without waiting for requests")
        server = cherrypy.tree.apps["/index"].config["/"]["index_server"]
        server.pool = pool.SchedPool(2, [0])
        served = server.index(0)
        env.cleanups.append(served.close)
        expect_eq([k for k, _ in served.corpus.docs()], keys, "serve: tweets of the corpus served")
        expect_eq(doc_id_map(served), {k: i for k, i in doc_id_map(open_index(env, other)).items()}, "serve: documents of the index served")
    return {
        "nontrivial": len(want) > 1 and linked,
        "labels": ["retweet"] * any("retweeted_user" in f for f in want.values())
        + ["links"] * any(f.get("url") for f in want.values()),
    }


def refuse_st():
    return st.fixed_dictionaries(
        {"version": st.one_of(st.none(), st.integers(0, 20)), "other": st.sampled_from([None, "corpus_type", "schema_version"])}
    )


def run_refuse(case, env):
    path = os.path.join(env.fresh(), "tw.db")
    db = sqlite3.connect(path, isolation_level=None)
    db.executescript(SCHEMA)
    if case["version"] is not None:
        db.execute("insert into metadata values('twittersphere_schema_version', ?)", [case["version"]])
    if case["other"]:
        db.execute("insert into metadata values(?, 99)", [case["other"]])
    db.close()
    try:
        TwittersphereCorpus(path).close()
        ok = True
    except ValueError:
        ok = False
    expect_eq(ok, case["version"] is not None and case["version"] >= 15, f"opening a database of version {case['version']} worked")
    return {"nontrivial": True, "labels": ["opened" if ok else "refused"]}


SUBS = [
    Sub("tweets", case_st, run, quick=1600),
    Sub("refuse", refuse_st, run_refuse, quick=60),
]
