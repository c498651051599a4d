"""The English (Porter2) stemmer, written from its published description."""
V = "aeiouy"
DOUBLES = ("bb", "dd", "ff", "gg", "mm", "nn", "pp", "rr", "tt")
EXC = {"skis": "ski", "skies": "sky", "dying": "die", "lying": "lie", "tying": "tie", "idly": "idl", "gently": "gentl", "ugly": "ugli", "early": "earli",
       "only": "onli", "singly": "singl", "sky": "sky", "news": "news", "howe": "howe", "atlas": "atlas", "cosmos": "cosmos", "bias": "bias", "andes": "andes"}
EXC1A = ("inning", "outing", "canning", "herring", "earring", "proceed", "exceed", "succeed")


def isv(c):
    return c in V


def regions(w):
    def after(start):
        for i in range(start + 1, len(w)):
            if not isv(w[i]) and isv(w[i - 1]):
                return i + 1
        return len(w)
    r1 = None
    for p in ("gener", "commun", "arsen"):
        if w.startswith(p):
            r1 = len(p)
    if r1 is None:
        r1 = after(0)
    return r1, after(r1) if r1 < len(w) else len(w)


def shortsyl(w):
    """w ends in a short syllable"""
    n = len(w)
    if n == 2:
        return isv(w[0]) and not isv(w[1])
    return n >= 3 and not isv(w[-1]) and w[-1] not in "wxY" and isv(w[-2]) and not isv(w[-3])


def stem(w):
    if len(w) <= 2:
        return w
    if w in EXC:
        return EXC[w]
    if w[0] == "'":
        w = w[1:]
    L = list(w)
    for i, c in enumerate(L):
        if c == "y" and (i == 0 or isv(L[i - 1])):
            L[i] = "Y"
    w = "".join(L)
    r1, r2 = regions(w)
    for s in ("'s'", "'s", "'"):
        if w.endswith(s):
            w = w[:-len(s)]
            break
    # 1a
    if w.endswith("sses"):
        w = w[:-2]
    elif w.endswith("ied") or w.endswith("ies"):
        w = w[:-2] if len(w) > 4 else w[:-1]
    elif w.endswith("us") or w.endswith("ss"):
        pass
    elif w.endswith("s"):
        if any(isv(c) for c in w[:-2]):
            w = w[:-1]
    if w in EXC1A:
        return w.replace("Y", "y")
    # 1b
    for s in ("eedly", "ingly", "edly", "eed", "ing", "ed"):
        if w.endswith(s):
            if s in ("eed", "eedly"):
                if len(w) - len(s) >= r1:
                    w = w[:-len(s)] + "ee"
            elif any(isv(c) for c in w[:-len(s)]):
                w = w[:-len(s)]
                if w.endswith(("at", "bl", "iz")):
                    w += "e"
                elif w.endswith(DOUBLES):
                    w = w[:-1]
                elif r1 >= len(w) and shortsyl(w):
                    w += "e"
            break
    # 1c
    if len(w) > 2 and w[-1] in "yY" and not isv(w[-2]):
        w = w[:-1] + "i"
    # 2
    T2 = [("ization", "ize"), ("ational", "ate"), ("fulness", "ful"), ("ousness", "ous"), ("iveness", "ive"), ("tional", "tion"), ("biliti", "ble"), ("lessli", "less"),
          ("entli", "ent"), ("ation", "ate"), ("alism", "al"), ("aliti", "al"), ("ousli", "ous"), ("iviti", "ive"), ("fulli", "ful"), ("enci", "ence"), ("anci", "ance"),
          ("abli", "able"), ("izer", "ize"), ("ator", "ate"), ("alli", "al"), ("bli", "ble"), ("ogi", None), ("li", None)]
    for s, t in T2:
        if w.endswith(s):
            if len(w) - len(s) >= r1:
                if s == "ogi":
                    if w.endswith("logi"):
                        w = w[:-1]
                elif s == "li":
                    if len(w) > 2 and w[-3] in "cdeghkmnrt":
                        w = w[:-2]
                else:
                    w = w[:-len(s)] + t
            break
    # 3
    for s, t in [("ational", "ate"), ("tional", "tion"), ("alize", "al"), ("icate", "ic"), ("iciti", "ic"), ("ative", ""), ("ical", "ic"), ("ness", ""), ("ful", "")]:
        if w.endswith(s):
            if len(w) - len(s) >= r1:
                if s != "ative" or len(w) - len(s) >= r2:
                    w = w[:-len(s)] + t
            break
    # 4
    for s in ("ement", "ance", "ence", "able", "ible", "ment", "ant", "ent", "ism", "ate", "iti", "ous", "ive", "ize", "ion", "al", "er", "ic"):
        if w.endswith(s):
            if len(w) - len(s) >= r2:
                if s != "ion" or (len(w) > 3 and w[-4] in "st"):
                    w = w[:-len(s)]
            break
    # 5
    if w.endswith("e"):
        if len(w) - 1 >= r2 or (len(w) - 1 >= r1 and not shortsyl(w[:-1])):
            w = w[:-1]
    elif w.endswith("l"):
        if len(w) - 1 >= r2 and len(w) > 1 and w[-2] == "l":
            w = w[:-1]
    return w.replace("Y", "y")
