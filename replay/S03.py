import numpy as np, polars as pl, math, re, unicodedata, os, glob
import polars_ds as pds
from common import hide
from polars_ds.exprs import string as ST
from strlib import *
import porter2
RULE = "columns of 1..30 strings: words built from English stems and suffixes, random letters, multi-byte and combining characters, whitespace of several kinds, numbers, empty strings and missing values; the results are recomputed with the Python standard library and an independent Porter2; distinct by (clause, input)"
STEMS = "run fly gener commun arsen hop hope relat condition ration valen digit conform radical differ vile analog predicat oper feudal decis hopeful call formal sensit electr good adopt effect adjust depend rev allow infer airlin gyroscop commun angular homolog bowdler happ enjo say cr by yell sky idl ugl earl sens rat fall siz fil tan hiss fizz fail agree plaster bled sing trouble conflat trop".split()
SUFF = "s es ed ing ly edly ingly eed eedly ies ied ization ational fulness ousness iveness tional biliti lessli entli ation alism aliti ousli iviti fulli enci anci abli izer ator alli bli ogi logi li alize icate iciti ative ical ness ful ement ance ence able ible ment ant ent ism ate iti ous ive ize sion tion al er ic e ll y 's 's' '".split()
ODD = "skis skies sky dying lying tying idly gently ugly early only singly news howe atlas cosmos bias andes inning innings outing outings canning cannings herring herrings earring earrings proceed proceeds proceeded proceeding exceed exceeds exceeding succeed succeeds succeeded ties dies lies pies cries ties' die tie lie gas this kiwis gaps boy boys sayings dying's skied by yy y yes youth boyish sky's bluely hyy syzygy generic generously communism arsenal arsenic ab abs ing ed ied ies s ss us ness oo eed feed agreed feeding bleed".split()
STOPS = "i me my myself we our ours ourselves you your yours yourself yourselves he him his himself she her hers herself it its itself they them their theirs themselves what which who whom this that these those am is are was were be been being have has had having do does did doing a an the and but if or because as until while of at by for with about against between into through during before after above below to from up down in out on off over under again further then once here there when where why how all any both each few more most other some such no nor not only own same so than too very can will just don should now".split()


def words(rng):
    k = int(rng.integers(6))
    if k == 0:
        n = int(rng.integers(1, 9))
        return "".join("abcdefghilmnoprstuyzes'"[int(i)] for i in rng.integers(0, 23, n))
    if k == 1:
        return STOPS[int(rng.integers(len(STOPS)))]
    if k == 2:
        w = ODD[int(rng.integers(len(ODD)))]
        return w + SUFF[int(rng.integers(len(SUFF)))] if rng.random() < .3 else w
    w = STEMS[int(rng.integers(len(STEMS)))]
    for _ in range(int(rng.integers(1, 3))):
        w += SUFF[int(rng.integers(len(SUFF)))]
    if rng.random() < .1:
        w = "yei'"[int(rng.integers(4))] + w
    return w


CH = list("abz AZ09_-.,%") + ["\t", "\n", "  ", "\u00a0", "\u2003", "\u0085", "\u001c", "é", "e\u0301", "Ç", "ﬁ", "①", "日", "😀", "ß", "\u1e9b\u0323", "가", "\u0300"]
WS = set("\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(c) for c in range(0x2000, 0x200b)}


def wsplit(s):
    out, cur = [], ""
    for c in s:
        if c in WS:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def text(rng):
    return "".join(CH[int(i)] for i in rng.integers(0, len(CH), int(rng.integers(0, 14))))


def n_(f):
    return lambda x: None if x is None else f(x)


def run(C):
    rng = C.rng
    it = 0
    while C.time_ok() and it < (3000 if not C.thorough else 60000):
        it += 1
        n = int(rng.choice([1, 3, 10, 30]))
        a = [text(rng) for _ in range(n)]
        w = [words(rng) for _ in range(n)]
        if it % 2:
            a = [None if rng.random() < .2 else x for x in a]
            w = [None if rng.random() < .2 else x for x in w]
        df = hide(pl.DataFrame({"a": pl.Series(a, dtype=pl.String), "w": pl.Series(w, dtype=pl.String)}))

        def go(clause, key, e, want, **inp):
            C.begin(clause, **inp)
            r = C.call(key + ":call", lambda: df.select(e.alias("o"))["o"].to_list())
            if r is not None:
                C.ok(r == want, key, r, want)
        nums = [n_(lambda x: bool(re.fullmatch(r"[0-9]+(\.[0-9]+)?", x)))(x) for x in w]
        go("English stemming follows the published algorithm", "stem", pds.str_snowball("w", no_stopwords=False), [n_(porter2.stem)(x) for x in w], words=w)
        go("stop words are recognised", "stop", pds.is_stopword("w"), [n_(lambda x: True if x in STOPS else None)(x) if x is None or x in STOPS else False for x in w], words=w) if all(x is None or x in STOPS or len(x) > 7 for x in w) else None
        go("stemming without stop words empties them", "stem-stop", pds.str_snowball("w"), [n_(lambda x: "" if x in STOPS else porter2.stem(x))(x) for x in w], words=w) if all(x is None or x in STOPS or len(x) > 10 for x in w) else None
        d = [str(x) for x in rng.integers(-100, 100, 3)] + [f"{x:.3f}" for x in rng.normal(size=3)]
        C.begin("numbers stem to the empty string", words=d)
        r = pl.DataFrame({"d": d}).select(pds.str_snowball("d").alias("o"))["o"].to_list()
        C.ok(r == [""] * 6, "stem-number", r, "")
        C.begin("stemming never fails", words=a)
        r = C.call("stem-any:call", lambda: df.select(pds.str_snowball("a").alias("o"))["o"].to_list())
        C.ok(r is None or [x is None for x in r] == [x is None for x in a], "stem-any", r, a)
        go("non-ASCII characters are removed", "ascii", pds.replace_non_ascii("a"), [n_(lambda x: "".join(c for c in x if ord(c) < 128))(x) for x in a], strings=a)
        go("non-ASCII characters are replaced", "ascii-repl", pds.replace_non_ascii("a", "?"), [n_(lambda x: "".join(c if ord(c) < 128 else "?" for c in x))(x) for x in a], strings=a)
        go("diacritics are removed", "diacritics", pds.remove_diacritics("a"), [n_(lambda x: "".join(c for c in unicodedata.normalize("NFD", x) if ord(c) < 128))(x) for x in a], strings=a)
        for f in ("NFC", "NFKC", "NFD", "NFKD"):
            go("Unicode normalisation " + f, "norm", pds.normalize_string("a", f), [n_(lambda x: unicodedata.normalize(f, x))(x) for x in a], strings=a, form=f)
        go("white space is normalised", "ws", pds.normalize_whitespace("a"), [n_(lambda x: " ".join(wsplit(x)))(x) for x in a], strings=a)
        go("runs of spaces are normalised", "spaces", pds.normalize_whitespace("a", only_spaces=True), [n_(lambda x: re.sub(" +", " ", x))(x) for x in a], strings=a)
        vocab = sorted({t for x in a if x for t in wsplit(x)})[:4]
        mp = {k: ["", "X", "é", "two words"][i % 4] for i, k in enumerate(vocab)}
        go("words are mapped whole", "map", pds.map_words("a", mp), [n_(lambda x: " ".join(mp.get(t, t) for t in wsplit(x)))(x) for x in a], strings=a, mapping=mp)
        go("numbers are extracted in order", "nums", pds.extract_numbers("a"), [n_(lambda x: re.findall(r"\d*\.?\d+", x, re.A))(x) for x in a], strings=a)
        go("numbers are extracted after commas are removed", "nums-comma", pds.extract_numbers("a", ignore_comma=True), [n_(lambda x: re.findall(r"\d*\.?\d+", x.replace(",", ""), re.A))(x) for x in a], strings=a)
        go("extracted numbers are joined", "nums-join", pds.extract_numbers("a", join_by="-"), [n_(lambda x: "-".join(re.findall(r"\d*\.?\d+", x, re.A)))(x) for x in a], strings=a)
        go("extracted numbers are cast", "nums-float", pds.extract_numbers("a", dtype=pl.Float64), [n_(lambda x: [float(t) for t in re.findall(r"\d*\.?\d+", x, re.A)])(x) for x in a], strings=a)
        ws = [n_(lambda x: [t for t in re.findall(r"\b\w\w+\b", x)])(x) for x in a] if all(x is None or x.isascii() for x in a) else None
        if ws:
            go("tokens are the words of two or more characters", "token", pds.str_tokenize("a"), ws, strings=a)
        if it % 4 == 0:
            tx = [None if rng.random() < .1 else " ".join(str(q) for q in rng.choice(["the", "running", "horses", "a", "x", "national", "generously", "is", "cats", "under", "42", "skies", "caresses", "don't"], int(rng.integers(0, 7)))) + ["", ".", " !"][int(rng.integers(3))] for _ in range(5)]
            C.begin("tokens are the words of two or more characters, stemmed and without stop words if asked", strings=tx)
            tk = [None if x is None else re.findall(r"\b\w\w+\b", x, re.A) for x in tx]
            dt = pl.DataFrame({"a": pl.Series(tx, dtype=pl.String)})
            r = C.call("token:call", lambda: dt.select(pds.str_tokenize("a").alias("o"))["o"].to_list())
            C.ok(r == tk, "token:text", r, tk)
            flat = sorted({t for w in tk if w for t in w})
            if flat:
                sm = dict(zip(flat, pl.DataFrame({"t": flat}).select(pds.str_snowball("t", True).alias("o"))["o"].to_list()))
                wt = [None if w is None else [sm[t] for t in w if sm[t] is not None] for w in tk]
                r = C.call("token:stem:call", lambda: dt.select(pds.str_tokenize("a", stem=True).alias("o"))["o"].to_list())
                C.ok(r == wt, "token:stem", r, wt)
        parts = [["".join("abcdefgh"[int(i)] for i in rng.integers(0, 8, int(rng.integers(2, 6)))) for _ in range(int(rng.integers(1, 4)))] for _ in range(n)]
        sep = str(rng.choice([" ", "_", "-"]))
        s = [sep.join(p) for p in parts]
        if it % 3 == 0:
            s = ["".join(q.capitalize() for q in p) for p in parts]
        d2 = pl.DataFrame({"s": s})
        C.begin("case conversions", strings=s)
        for name, e, f in (("snake", pds.to_snake_case("s"), lambda p: "_".join(p)), ("constant", pds.to_constant_case("s"), lambda p: "_".join(p).upper()),
                           ("camel", pds.to_camel_case("s"), lambda p: p[0] + "".join(q.capitalize() for q in p[1:])), ("pascal", pds.to_pascal_case("s"), lambda p: "".join(q.capitalize() for q in p))):
            r = C.call("case:call", lambda: d2.select(e.alias("o"))["o"].to_list())
            if r is not None:
                C.ok(r == [f(p) for p in parts], "case:" + name, r, [f(p) for p in parts])
