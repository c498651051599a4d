"""Pure Python definitions of the string measures (independent of rapidfuzz)."""
import math

ALPH = ["ab", "abc", "abcdefgh", "aé日😀 ", "ABab12", "a\u0301e\u0300z", " \t-_."]


def rstr(rng, maxlen=9):
    a = ALPH[int(rng.integers(len(ALPH)))]
    n = int(rng.integers(0, maxlen + 1))
    if rng.random() < .03:
        n = int(rng.integers(60, 140))
    return "".join(a[int(i)] for i in rng.integers(0, len(a), n))


def near(rng, s):
    """a string related to s by a few edits"""
    s = list(s)
    for _ in range(int(rng.integers(0, 4))):
        k = int(rng.integers(4))
        if k == 0:
            s.insert(int(rng.integers(len(s) + 1)), "abxé"[int(rng.integers(4))])
        elif s and k == 1:
            del s[int(rng.integers(len(s)))]
        elif s and k == 2:
            s[int(rng.integers(len(s)))] = "abyz"[int(rng.integers(4))]
        elif len(s) > 1:
            i = int(rng.integers(len(s) - 1))
            s[i], s[i + 1] = s[i + 1], s[i]
    return "".join(s)


def lev(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1):
            q.append(min(p[j] + 1, q[j - 1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]


def osa(a, b):
    d = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
    for i in range(len(a) + 1):
        for j in range(len(b) + 1):
            if not i or not j:
                d[i][j] = i + j
                continue
            d[i][j] = min(d[i - 1][j] + 1, d[i][j - 1] + 1, d[i - 1][j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                d[i][j] = min(d[i][j], d[i - 2][j - 2] + 1)
    return d[-1][-1]


def dlev(a, b):
    """unrestricted Damerau-Levenshtein"""
    inf = len(a) + len(b)
    da = {}
    d = [[inf] * (len(b) + 2) for _ in range(len(a) + 2)]
    for i in range(len(a) + 1):
        d[i + 1][1] = i
    for j in range(len(b) + 1):
        d[1][j + 1] = j
    for i in range(1, len(a) + 1):
        db = 0
        for j in range(1, len(b) + 1):
            k, l = da.get(b[j - 1], 0), db
            c = 1
            if a[i - 1] == b[j - 1]:
                c = 0
                db = j
            d[i + 1][j + 1] = min(d[i][j] + c, d[i + 1][j] + 1, d[i][j + 1] + 1, d[k][l] + (i - k - 1) + 1 + (j - l - 1))
        da[a[i - 1]] = i
    return d[-1][-1]


def lcs(a, b):
    p = [0] * (len(b) + 1)
    for x in a:
        q = [0]
        for j, y in enumerate(b, 1):
            q.append(p[j - 1] + 1 if x == y else max(p[j], q[j - 1]))
        p = q
    return p[-1]


def jaro(a, b):
    if not a and not b:
        return 1.0
    if not a or not b:
        return 0.0
    w = max(max(len(a), len(b)) // 2 - 1, 0)
    ma, mb = [False] * len(a), [False] * len(b)
    m = 0
    for i, x in enumerate(a):
        for j in range(max(0, i - w), min(len(b), i + w + 1)):
            if not mb[j] and b[j] == x:
                ma[i] = mb[j] = True
                m += 1
                break
    if not m:
        return 0.0
    t = sum(x != y for x, y in zip([a[i] for i in range(len(a)) if ma[i]], [b[j] for j in range(len(b)) if mb[j]])) // 2
    return (m / len(a) + m / len(b) + (m - t) / m) / 3


def jw(a, b, weight):
    s = jaro(a, b)
    p = 0
    for x, y in zip(a[:4], b[:4]):
        if x != y:
            break
        p += 1
    return s + p * weight * (1 - s) if s > .7 else s


def hamming(a, b, pad=False):
    if len(a) != len(b) and not pad:
        return None
    return sum(x != y for x, y in zip(a, b)) + abs(len(a) - len(b))


def norm(d, m):
    return 1 - d / m if m else 1.0


def ratio(a, b):
    n = len(a) + len(b)
    return 2 * lcs(a, b) / n if n else 1.0


def grams(s, n):
    b = s.encode()
    return {b} if len(b) < n else {b[i:i + n] for i in range(len(b) - n + 1)}
