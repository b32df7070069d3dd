"""P20: tokenising normalises text without losing content."""
import unicodedata

from hypothesis import strategies as st

from hv.core import Sub, expect, expect_eq

from hyperreal.utilities import social_media_tokens, tokens

TECHNIQUE = "property-based testing (Hypothesis): metamorphic relations and an explicit word model over generated Unicode texts"
RULE = (
    "Texts are joined from words, numbers, punctuation, quotes, white space, marks, emoji, scripts without spaces, "
    "links, mentions and hashtags, or are arbitrary Unicode. Tokens are compared with the normalised text, with the "
    "tokens of re-cased, re-quoted and concatenated texts, with a list of expected words for texts of plain words and "
    "punctuation, and social tokens with a hand-written removal of links. Non-trivial: at least 3 tokens, and either "
    "an apostrophe or quote, an upper case letter, or a removed link."
)
ASSUMPTIONS = [
    "Letter case is varied for ASCII letters only (case folding of other scripts is not reversible). Independence of "
    "text before and after white space is checked where the later text starts with a letter, a digit or an ASCII symbol "
    "(marks and modifiers extend the character before them)."
]

CURLY = {"‘": "'", "’": "'", "“": '"', "”": '"'}
WORDS = ["a", "I", "the", "Cat", "naïve", "ÉTÉ", "straße", "İ", "ΣΑΣ", "word", "x1", "1st", "日本語", "テキスト", "한국", "שלום", "ไทย", "e\u0301"]
INNER = ["don't", "don’t", "O'Hara's", "3.14", "1,000", "snake_case", "a.b", "can’t"]
PUNCT = list("'\"‘’“”.,;:!?-–—()[]{}<>&%$€*+=/\\|~`^_@#") + ["...", "''", "’s"]
SPACE = [" ", "  ", "\n", "\t", "\r\n", "\u00a0", "\u2028", "\u3000", "\u200a", "\x0b"]
ODD = ["👨‍👩‍👧", "🇦🇺", "🇦", "👍🏽", "\u0301", "\u200d", "\u200b", "\ufeff", "\x01", "\u00ad", "½", "ǅ", "ﬁ", "𝒳"]
LINKS = ["http://t.co/x", "https://A.b/c?d=e#f", "HTTP://", "@me", "#tag", "@", "#", "x@y", "http:/", "https://", "a#b"]


def text():
    return st.one_of(
        st.lists(st.sampled_from(WORDS + INNER + PUNCT + SPACE * 3 + ODD), max_size=12).map("".join),
        st.lists(st.sampled_from(WORDS * 2 + INNER * 2 + PUNCT), max_size=10).map(" ".join),
        st.text(max_size=12),
    )


def straight(s):
    return "".join(CURLY.get(c, c) for c in s)


def core(s):
    return "".join(c for c in s if not c.isspace() and c != "'")


def cores(ts):
    return [c for c in map(core, ts) if c]


def flip(s, bits):
    return "".join(c.swapcase() if c.isascii() and (bits >> (i % 40)) & 1 else c for i, c in enumerate(s))


def unquote(s, bits):
    """Some straight quotes turned to curly ones."""
    alt = {"'": "‘’", '"': "“”"}
    return "".join(alt[c][(bits >> (i % 40)) & 1] if c in alt else c for i, c in enumerate(s))


def run_any(case, env):
    s, t, sep = case["a"], case["b"], case["sep"]
    got = tokens(s)
    w = f"tokens({s!r}) = {got}"
    expect(isinstance(got, list) and all(isinstance(x, str) for x in got), f"{w}: not a list of strings")
    expect(all(x.strip() for x in got), f"{w}: blank token")
    expect_eq(core("".join(got)), core(straight(s).lower()), f"{w}: content")
    expect_eq(tokens(straight(s)), got, f"{w}: tokens with straight quotes")
    u = unquote(straight(s), case["bits"])
    expect_eq(tokens(u), got, f"{w}: tokens of {u!r}")
    u = flip(s, case["bits"])
    # the lower case of a Greek sigma depends on the letters next to it
    if straight(u).lower() == straight(s).lower():
        expect_eq(tokens(u), got, f"{w}: tokens of {u!r}")
    if not t or t[0].isascii() or unicodedata.category(t[0]) in ("Lu", "Ll", "Lo", "Nd"):
        expect_eq(cores(tokens(s + sep + t)), cores(got) + cores(tokens(t)), f"{w}, tokens({t!r}) = {tokens(t)}: joined by {sep!r}")
    expect_eq(tokens(s), got, f"{w}: second time")
    q = any(c in "'\"‘’“”" for c in s)
    upper = s != s.lower()
    return {"nontrivial": len(got) >= 3 and (q or upper), "labels": ["quotes"] * q + ["upper"] * upper}


# plain words joined by spaces and punctuation, with their tokens
PLAIN = ["a", "i", "the", "Cat", "word", "x1", "1st", "naïve", "don't", "O'Hara", "3.14", "1,000", "snake_case", "Zürich"]
JOIN = {" ": [], "  ": [], "\n": [], ", ": [","], ". ": ["."], "! ": ["!"], " (": ["("], ") ": [")"], " - ": ["-"], "-": ["-"],
        "/": ["/"], ' "': ['"'], '" ': ['"'], "; ": [";"], " & ": ["&"], "? ": ["?"], "\n\n": [], "... ": [".", ".", "."]}


def run_plain(case, env):
    s, want = "", []
    for word, join in case["parts"]:
        s += word + join
        want += [word.lower()] + JOIN[join]
    got = tokens(s)
    expect_eq([x.strip() for x in got], want, f"tokens({s!r})")
    expect_eq([x.strip() for x in social_media_tokens(s)], want, f"social_media_tokens({s!r})")
    return {"nontrivial": len(want) >= 3 and any("'" in x or x != x.lower() for x, _ in case["parts"])}


def remove_links(s):
    out, i, n = [], 0, 0
    while i < len(s):
        if s[i] in "#@" or s.startswith(("http://", "https://"), i):
            n += 1
            while i < len(s) and not s[i].isspace():
                i += 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out), n


def run_social(case, env):
    s = case["text"]
    cleaned, n = remove_links(straight(s).lower())
    got = social_media_tokens(s)
    expect_eq(got, tokens(cleaned), f"social_media_tokens({s!r}), without links {cleaned!r}")
    expect_eq(core("".join(got)), core(cleaned), f"social_media_tokens({s!r}): content")
    u = flip(s, case["bits"])
    if straight(u).lower() == straight(s).lower():
        expect_eq(social_media_tokens(u), got, f"social_media_tokens({u!r})")
    return {"nontrivial": len(got) >= 3 and n > 0, "labels": ["link"] * (n > 0)}


def any_st():
    return st.fixed_dictionaries(
        {"a": text(), "b": text(), "sep": st.sampled_from([" ", "\n", "\t", "\r\n", "\u2028", "\u3000"]), "bits": st.integers(0, 2**40 - 1)}
    )


def plain_st():
    return st.fixed_dictionaries(
        {"parts": st.lists(st.tuples(st.sampled_from(PLAIN), st.sampled_from(sorted(JOIN))), max_size=12)}
    )


def social_st():
    part = st.sampled_from(WORDS + INNER + PUNCT + LINKS * 3 + ["👍🏽", "\u200d"])
    return st.fixed_dictionaries(
        {
            "text": st.lists(st.tuples(part, st.sampled_from([" ", " ", "", "\n", "\t", "\u00a0", "  "])), max_size=10).map(
                lambda ps: "".join(a + b for a, b in ps)
            ),
            "bits": st.integers(0, 2**40 - 1),
        }
    )


SUBS = [
    Sub("any", any_st, run_any, quick=12000, thorough=600000),
    Sub("plain", plain_st, run_plain, quick=4000, thorough=100000),
    Sub("social", social_st, run_social, quick=6000, thorough=300000),
]
