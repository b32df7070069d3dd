"""P19: plain text corpora store and return the given documents verbatim."""
import json
import os
import pickle

from hypothesis import strategies as st

from hv import gen
from hv.core import Sub, Violation, expect, expect_eq

from click.testing import CliRunner

from hyperreal import cli, utilities
from hyperreal.corpus import PlainTextSqliteCorpus

TECHNIQUE = "stateful property-based testing (Hypothesis): generated texts, replacements, failing sources and text files against a list"
RULE = (
    "replace: a generated history of replacements of the documents by lists of generated texts (any Unicode but lone "
    "surrogates), through the same, a pickled or a reopened object, some sources failing after a generated number of "
    "texts; contents are read back by docs(), keys(), single and multiple keys, table rendering, and pickled and "
    "reopened copies. create: generated text files with odd quotes, commas, JSON strings, blank lines and line ends, or "
    "invalid UTF-8, given to the command line, compared with a line by line reading. Non-trivial: at least two texts "
    "with quotes, commas, non-ASCII or control characters."
)

CHARS = st.sampled_from(list("ab ,\"'\\\t\x00\x85\u2028é日\U0001f600‘“\x1c\x0b;|<>&") + ["\n", "\r", "\r\n", '""', "\ufeff"])
TEXT = st.one_of(
    st.lists(CHARS, max_size=12).map("".join),
    st.text(st.characters(exclude_categories=["Cs"]), max_size=30),
)


def odd(t):
    return any(c in t for c in "\"',\\") or not t.isascii() or not t.isprintable()


class SourceFailed(Exception):
    pass


def replace_st():
    step = st.fixed_dictionaries(
        {
            "texts": gen.sized(TEXT, 0, 6),
            "repeat": gen.mix(*[st.just(1)] * 30, st.integers(2, 1000)),
            "fail": gen.mix(st.none(), st.none(), st.none(), st.integers(0, 7)),
            "how": st.sampled_from(["error", "error", "interrupt"]),
            "via": st.sampled_from(["same", "same", "pickle", "reopen", "fresh"]),
            "source": st.sampled_from(["list", "gen", "tuple"]),
        }
    )
    return st.fixed_dictionaries(
        {
            "steps": gen.sized(step, 1, 5),
            "pick": gen.mix(*[st.lists(st.integers(0, 20), max_size=5)] * 9, st.lists(st.integers(0, 5000), min_size=100, max_size=1500)),
            "tokeniser": st.sampled_from(["default", "tokens", "social", "own"]),
        }
    )


def own_tokeniser(text):
    return [text[:1], None, text]


TOKENISERS = {
    "default": utilities.tokens,
    "tokens": utilities.tokens,
    "social": utilities.social_media_tokens,
    "own": own_tokeniser,
}


def open_corpus(path, tok):
    return PlainTextSqliteCorpus(path) if tok == "default" else PlainTextSqliteCorpus(path, tokeniser=TOKENISERS[tok])


def read_all(corpus):
    return [(k, d["text"]) for k, d in corpus.docs()]


def check_contents(corpus, want, pick, what, tok="default"):
    got = read_all(corpus)
    expect_eq([t for _, t in got], want, f"{what}: texts")
    keys = list(corpus.keys())
    expect_eq([k for k, _ in got], keys, f"{what}: keys of docs() against keys()")
    expect_eq(len(set(keys)), len(keys), f"{what}: distinct keys")
    by_key = dict(got)
    chosen = [keys[i % len(keys)] for i in pick] if keys else []
    expect_eq([(k, d["text"]) for k, d in corpus.docs(doc_keys=chosen)], [(k, by_key[k]) for k in chosen], f"{what}: docs({chosen})")
    expect_eq(list(corpus.docs(doc_keys=[])), [], f"{what}: docs([])")
    for k in keys[:2]:
        expect_eq([(a, d["text"]) for a, d in corpus[k]], [(k, by_key[k])], f"{what}: corpus[{k}]")
    expect_eq([(k, d["text"]) for k, d in corpus], got, f"{what}: iteration")
    expect_eq(
        [(k, dict(r)) for k, r in corpus.render_docs_table(chosen)],
        [(k, {"text": by_key[k]}) for k in chosen],
        f"{what}: table rows",
    )
    for k, d in corpus.docs():
        expect_eq(corpus.index(d), {"text": TOKENISERS[tok](by_key[k])}, f"{what}: indexed fields of {k}")


def run_replace(case, env):
    path = os.path.join(env.fresh(), "c.db")
    tok = case.get("tokeniser", "default")
    corpus = open_corpus(path, tok)
    opened = [corpus]
    env.cleanups.append(lambda: [c.close() for c in opened])
    want = None
    failed = False
    for n, step in enumerate(case["steps"]):
        if step["via"] == "pickle":
            corpus = pickle.loads(pickle.dumps(corpus))
            opened.append(corpus)
        elif step["via"] in ("reopen", "fresh"):
            if step["via"] == "reopen":
                corpus.close()
            corpus = open_corpus(path, tok)
            opened.append(corpus)
        repeat = step.get("repeat", 1)
        texts, fail = step["texts"] * repeat, step["fail"]
        if fail is not None:
            fail *= repeat

        error = KeyboardInterrupt if step["how"] == "interrupt" else SourceFailed

        def source():
            for i, t in enumerate(texts):
                if fail is not None and i == fail:
                    raise error("no more texts")
                yield t
            if fail is not None and fail >= len(texts):
                raise error("failed at the end")

        given = source() if fail is not None or step["source"] == "gen" else list(texts)
        if step["source"] == "tuple" and fail is None:
            given = tuple(texts)
        what = f"replacement {n + 1} ({step['texts']} x {repeat}, {step['how']} at {fail})"
        raised = None
        try:
            corpus.replace_docs(given)
        except (SourceFailed, KeyboardInterrupt) as e:
            raised = e
        expect(bool(raised) == (fail is not None), f"{what}: error reported: {raised!r}")
        failed |= fail is not None
        if fail is None:
            want = list(texts)
        elif want is None:
            # nothing stored before: no documents now, or still no table
            fresh = open_corpus(path, tok)
            opened.append(fresh)
            tables = [r["name"] for r in fresh.db.execute("select name from sqlite_master")]
            expect(not tables or read_all(fresh) == [], f"{what}: documents after a failed first run")
            continue
        expect(not corpus.db.in_transaction, f"{what}: a transaction was left open")
        fresh = open_corpus(path, tok)
        opened.append(fresh)
        for name, c in (("same object", corpus), ("pickled", pickle.loads(pickle.dumps(corpus))), ("reopened", fresh)):
            opened.append(c)
            check_contents(c, want, case["pick"], f"{what}, {name}", tok)
    return {
        "nontrivial": bool(want) and sum(map(odd, want)) >= 2,
        "labels": ["failed-source"] * failed + [f"steps{len(case['steps'])}"],
    }


LINE = st.one_of(
    st.lists(
        st.sampled_from(list("ab c,;\"'\\\t{}[]é日\U0001f600“”\u2028\x85\x0b\x0c\x1c") + ['""', "\\n", "\\u0041", "null", "1"]),
        max_size=12,
    ).map("".join),
    st.lists(CHARS.filter(lambda c: c not in ("\n", "\r", "\r\n", "\x00")), max_size=8).map("".join),
    TEXT.filter(lambda t: t.strip()).map(lambda t: json.dumps(t)),
    TEXT.filter(lambda t: t.strip()).map(lambda t: json.dumps(t, ensure_ascii=False)),
    st.sampled_from(["", " ", "\t", "  \t "]),
)


def bad(line):
    """Left unspecified: strings decoding to white space only or to lone surrogates, and a BOM."""
    if len(line) >= 2 and line[0] == line[-1] == '"':
        try:
            t = json.loads(line, strict=False)
        except ValueError:
            return False
        return not t.strip() or any(0xD800 <= ord(c) < 0xE000 for c in t)
    return "\n" in line or "\r" in line


def create_st():
    return st.fixed_dictionaries(
        {
            "repeat": gen.mix(*[st.just(1)] * 30, st.integers(2, 4000)),
            "lines": gen.sized(LINE.filter(lambda x: not bad(x)), 0, 7),
            "eol": st.sampled_from(["\n", "\n", "\r\n"]),
            "last": st.booleans(),
            "invalid": gen.mix(st.none(), st.none(), st.none(), st.integers(0, 7)),
            "before": st.one_of(st.none(), gen.sized(TEXT, 0, 3)),
        }
    )


def expected_docs(lines):
    out = []
    for line in lines:
        if not line.strip():
            continue
        if len(line) >= 2 and line[0] == line[-1] == '"':
            try:
                line = json.loads(line)
            except ValueError:
                pass
        out.append(line)
    return out


def run_create(case, env):
    d = env.fresh()
    text, db = os.path.join(d, "t.txt"), os.path.join(d, "c.db")
    lines = case["lines"] * case.get("repeat", 1)
    body = [x.encode() for x in lines]
    invalid = case["invalid"] is not None and bool(body)
    if invalid:
        body[case["invalid"] % len(body)] += b"\xff\xfe"
    eol = case["eol"].encode()
    with open(text, "wb") as f:
        f.write(eol.join(body) + (eol if case["last"] else b""))
    if case["before"] is not None:
        c = PlainTextSqliteCorpus(db)
        c.replace_docs(case["before"])
        c.close()
    result = CliRunner().invoke(cli.cli, ["plaintext-corpus", "create", text, db])
    what = f"create from {case['lines']} x {case.get('repeat', 1)}"
    corpus = PlainTextSqliteCorpus(db)
    env.cleanups.append(corpus.close)
    if invalid:
        expect(result.exit_code != 0, f"{what}: invalid UTF-8 was not reported")
        if case["before"] is not None:
            expect_eq([t for _, t in read_all(corpus)], case["before"], f"{what}: previous documents after the failure")
        return {"nontrivial": False, "labels": ["invalid-utf8"]}
    if result.exit_code != 0:
        raise Violation(f"{what}: exit code {result.exit_code}: {result.exception!r}")
    want = expected_docs(lines)
    expect_eq([t for _, t in read_all(corpus)], want, f"{what}: documents")
    json_lines = sum(1 for x, y in zip([x for x in lines if x.strip()], want) if x != y)
    return {
        "nontrivial": sum(map(odd, want)) >= 2,
        "labels": ["json"] * bool(json_lines) + ["blank-lines"] * (len(want) < len(lines)),
    }


SUBS = [
    Sub("replace", replace_st, run_replace, quick=1500),
    Sub("create", create_st, run_create, quick=2500),
]
