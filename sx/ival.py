"""Sets of code points as sorted tuples of disjoint closed intervals."""
import bisect

MAXC = 0x10FFFF


def norm(pairs):
    out = []
    for lo, hi in sorted(pairs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


def of_codes(codes):
    out = []
    for c in sorted(set(codes)):
        if out and c == out[-1][1] + 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return tuple((a, b) for a, b in out)


def of_str(s):
    return of_codes(map(ord, s))


def union(a, b):
    if not a:
        return b
    if not b:
        return a
    return norm(a + b)


def inter(a, b):
    if a is b:
        return a
    if len(a) > len(b):
        a, b = b, a
    i = j = 0
    if len(b) > 16 and len(a) * 8 < len(b):
        out = []
        for lo, hi in a:
            j = bisect.bisect_right(b, (lo, MAXC + 1)) - 1
            if j >= 0 and b[j][1] < lo:
                j += 1
            j = max(j, 0)
            while j < len(b) and b[j][0] <= hi:
                l, h = max(lo, b[j][0]), min(hi, b[j][1])
                if l <= h:
                    out.append((l, h))
                j += 1
        return tuple(out)
    out = []
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a):
    out = []
    p = 0
    for lo, hi in a:
        if p < lo:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return tuple(out)


def minus(a, b):
    return inter(a, compl(b))


def size(a):
    return sum(h - l + 1 for l, h in a)


def has(a, c):
    i = bisect.bisect_right(a, (c, MAXC + 1)) - 1
    return i >= 0 and a[i][0] <= c <= a[i][1]


def codes(a):
    for lo, hi in a:
        yield from range(lo, hi + 1)


ALL = ((0, MAXC),)
SURR = ((0xD800, 0xDFFF),)
# Characters XML 1.0 allows in a document.
XMLCHAR = norm([(9, 10), (13, 13), (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, MAXC)])

_TAB = {}


def tabulate(key, pred):
    """The code points (surrogates excluded) on which a real CPython predicate is true."""
    if key not in _TAB:
        out = []
        start = None
        for c in range(MAXC + 1):
            if 0xD800 <= c <= 0xDFFF:
                t = False
            else:
                t = bool(pred(chr(c)))
            if t:
                if start is None:
                    start = c
            elif start is not None:
                out.append((start, c - 1))
                start = None
        if start is not None:
            out.append((start, MAXC))
        _TAB[key] = tuple(out)
    return _TAB[key]


def strpred(name):
    return tabulate(('str', name), getattr(str, name))


_ALLSTR = None


def allstr():
    global _ALLSTR
    if _ALLSTR is None:
        _ALLSTR = ''.join(map(chr, list(range(0xD800)) + list(range(0xE000, MAXC + 1))))
    return _ALLSTR


def of_pattern(key, pat):
    """Code points matched by a compiled single-character regex (tabulated with the real re)."""
    if key not in _TAB:
        out = []
        for m in pat.finditer(allstr()):
            if m.end() - m.start() == 1:
                c = ord(m.group())
                if out and out[-1][1] == c - 1:
                    out[-1][1] = c
                else:
                    out.append([c, c])
        _TAB[key] = norm([tuple(p) for p in out])
    return _TAB[key]
