"""Symbolic strings.

A symbolic string is a sequence of parts:
  str     concrete text
  Ch      one symbolic character: an SMT integer (code point) with the interval set known so far
  Hole    a run of characters of unbounded length over a stated alphabet that contains no
          white space; its length is an SMT integer. Kept opaque while the operations performed
          do not depend on its characters; otherwise its first/last character is split off, or it
          is expanded to at most HOLE_MAX characters (recorded as a bound).
  Choice  one of finitely many concrete strings, each under a guard; the guards are exclusive and
          exhaustive on the path.
"""
import string as _string
import z3
from . import ival, core
from .core import (CS, Unsupported, PathEnd, SymBool, SymInt, gand, gor, gnot, gz, mkbool, mkint,
                   ctx, guard)

HOLE_MAX = 3
HOLE_LATER = 1     # further characters of the holes after the first two a path expands
PRODUCT_MAX = 6000
WS = ival.strpred('isspace')


class Refine(Exception):
    """A part was expanded in place: restart the operation."""


class Ch:
    __slots__ = ('name', 'expr')

    def __init__(self, name, iv, assume=None):
        self.name = name
        self.expr = z3.Int(name)
        c = ctx()
        c.dom[name] = iv
        c.solver.add(core.iv_z3(self.expr, iv), self.expr >= 0, self.expr <= ival.MAXC)
        c.model = None

    @property
    def dom(self):
        return ctx().dom[self.name]

    def isin(self, iv):
        return CS(self.name, self.expr, iv)

    def const(self):
        d = self.dom
        if len(d) == 1 and d[0][0] == d[0][1]:
            return chr(d[0][0])
        return None

    def __repr__(self):
        return '<%s>' % self.name


class Hole:
    __slots__ = ('name', 'alpha', 'len', 'min', 'mat')

    def __init__(self, name, alpha, mn=1):
        assert not ival.inter(alpha, WS)
        self.name = name
        self.alpha = alpha
        self.len = z3.Int(name + '.len')
        self.min = mn
        self.mat = None
        c = ctx()
        c.solver.add(self.len >= mn)
        c.model = None

    def nonempty(self):
        """Decide emptiness (forks when both are possible)."""
        if self.min >= 1:
            return True
        if ctx().branch(self.len >= 1):
            self.min = 1
            return True
        self.mat = ()
        return False

    def peel(self, end=False):
        """Split one character off; exact. The hole must be non-empty."""
        c = ctx()
        ch = Ch(c.fresh(self.name + '.c'), self.alpha)
        rest = Hole(c.fresh(self.name + '.r'), self.alpha, max(self.min - 1, 0))
        c.solver.add(self.len == rest.len + 1)
        c.model = None
        self.mat = (rest, ch) if end else (ch, rest)

    def fix_len(self, n):
        c = ctx()
        self.mat = tuple(Ch(c.fresh(self.name + '.c'), self.alpha) for _ in range(n))

    def expand(self):
        """Bounded expansion to concrete length."""
        c = ctx()
        c.expanded += 1
        more = HOLE_MAX if c.expanded <= 2 else HOLE_LATER
        for n in range(self.min, self.min + more + 1):
            if c.branch(self.len == n):
                self.fix_len(n)
                return
        c.ex.cut('hole longer than %d characters where its characters matter' % (self.min + more))
        raise PathEnd()

    def __repr__(self):
        return '<%s*>' % self.name


class Choice:
    __slots__ = ('alts', '_alpha', '_snap')

    def __init__(self, alts):
        self.alts = alts            # list of (guard, str), distinct strings
        self._alpha = None
        self._snap = None

    def live(self):
        """Alternatives not excluded by the known character domains."""
        c = core.CTX
        if c is not None:
            if self._snap is None:
                keys = {g.key for g, _ in self.alts if isinstance(g, CS)}
            elif all(c.dom.get(k) is d for k, d in self._snap):
                return self.alts
            else:
                keys = [k for k, _ in self._snap]
            self._snap = [(k, c.dom.get(k)) for k in keys]
            out = [(g, s) for g, s in self.alts if mkbool(g) is not False]
            if len(out) != len(self.alts):
                self.alts = out
                self._alpha = None
        return self.alts

    def const(self):
        a = self.live()
        return a[0][1] if len(a) == 1 else None

    def test(self, pred):
        """Guard: the chosen string satisfies a concrete predicate."""
        t = [g for g, s in self.live() if pred(s)]
        if len(t) == len(self.alts):
            return True
        return gor(t)

    def narrow(self, pred):
        """Fork on a concrete predicate, keep the alternatives of the side taken."""
        t = [(g, s) for g, s in self.live() if pred(s)]
        if len(t) == len(self.alts):
            return True
        if not t:
            return False
        r = ctx().branch(gor([g for g, _ in t]))
        self.alts = t if r else [(g, s) for g, s in self.alts if not pred(s)]
        self._alpha = None
        return r

    def fork(self):
        """Decide which alternative; returns the concrete string."""
        while len(self.live()) > 1:
            s0 = self.alts[0][1]
            if self.narrow(lambda s: s == s0):
                break
        if not self.alts:
            raise PathEnd()
        return self.alts[0][1]

    def map(self, f):
        return mkchoice([(g, f(s)) for g, s in self.live()])

    def alpha(self):
        if self._alpha is None:
            self._alpha = ival.of_str(''.join(s for _, s in self.alts))
        return self._alpha

    def __repr__(self):
        a = self.alts
        return '{%s%s}' % ('|'.join(repr(s) for _, s in a[:4]), '|..%d' % len(a) if len(a) > 4 else '')


def mkchoice(pairs):
    """Group guarded strings by value; returns str or a Choice part."""
    by = {}
    for g, s in pairs:
        if g is False:
            continue
        by.setdefault(s, []).append(g)
    alts = [(gor(gs), s) for s, gs in by.items()]
    if not alts:
        raise PathEnd()
    if len(alts) == 1:
        return alts[0][1]
    return Choice(alts)


def refresh(parts):
    """Resolve decided parts, merge constants."""
    out = []
    st = list(reversed(parts))
    while st:
        p = st.pop()
        if isinstance(p, str):
            pass
        elif isinstance(p, Ch):
            k = p.const()
            if k is not None:
                p = k
        elif isinstance(p, Hole):
            if p.mat is not None:
                st.extend(reversed(p.mat))
                continue
        elif isinstance(p, Choice):
            k = p.const()
            if k is not None:
                p = k
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        else:
            out.append(p)
    return out


def mk(parts):
    ps = refresh(parts)
    if not ps:
        return ''
    if len(ps) == 1 and isinstance(ps[0], str):
        return ps[0]
    return SymStr(ps)


def P(x):
    if isinstance(x, SymStr):
        x._p = refresh(x._p)
        return x._p
    if isinstance(x, str):
        return [x] if x else []
    raise TypeError('expected str instance, %s found' % type(x).__name__)


def issym(x):
    return isinstance(x, (SymStr, SymInt, SymBool, ObjChoice))


def items(x):
    """Parts with constants split into single characters."""
    out = []
    for p in (P(x) if not isinstance(x, list) else refresh(x)):
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def chars(x):
    """Single characters only (const or Ch); expands holes and forks choices as needed."""
    while True:
        out = []
        again = False
        for p in P(x):
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, Ch):
                out.append(p)
            elif isinstance(p, Hole):
                p.expand()
                again = True
                break
            else:
                p.fork()
                again = True
                break
        if not again:
            return out


def length(x):
    n = 0
    e = []
    for p in P(x):
        if isinstance(p, str):
            n += len(p)
        elif isinstance(p, Ch):
            n += 1
        elif isinstance(p, Hole):
            e.append(p.len)
        else:
            by = {}
            for g, s in p.live():
                by.setdefault(len(s), []).append(g)
            if len(by) == 1:
                n += next(iter(by))
            else:
                ks = list(by)
                t = z3.IntVal(ks[-1])
                for k in ks[:-1]:
                    t = z3.If(gz(gor(by[k])), z3.IntVal(k), t)
                e.append(t)
    if not e:
        return n
    return mkint(z3.Sum([z3.IntVal(n)] + e))


def minmax(parts):
    lo = 0
    hi = 0
    for p in parts:
        if isinstance(p, str):
            lo += len(p)
            hi += len(p)
        elif isinstance(p, Ch):
            lo += 1
            hi += 1
        elif isinstance(p, Hole):
            lo += p.min
            hi = 10 ** 9
        else:
            ls = [len(s) for _, s in p.live()]
            lo += min(ls)
            hi += max(ls)
    return lo, hi


def may_match_const(its, s):
    """Could the items spell exactly the concrete string s?"""
    pos = {0}
    n = len(s)
    for it in its:
        nxt = set()
        if isinstance(it, str):
            nxt = {i + 1 for i in pos if i < n and s[i] == it}
        elif isinstance(it, Ch):
            d = it.dom
            nxt = {i + 1 for i in pos if i < n and ival.has(d, ord(s[i]))}
        elif isinstance(it, Hole):
            for i in pos:
                j = i
                k = 0
                while True:
                    if k >= it.min:
                        nxt.add(j)
                    if j < n and ival.has(it.alpha, ord(s[j])):
                        j += 1
                        k += 1
                    else:
                        break
        else:
            for i in pos:
                for _, a in it.live():
                    if s.startswith(a, i):
                        nxt.add(i + len(a))
        pos = nxt
        if not pos:
            return False
    return n in pos


def eqg(a, b):
    """Guard for string equality; forks only where a hole's characters matter."""
    while True:
        try:
            g = aligned(items(a), items(b))
            if g is not None and (g is True or ctx().sat(gz(gnot(g))) == 'unsat'):
                return True
            return _eq(items(a), items(b))
        except Refine:
            pass


def aligned(A, B):
    """A guard that implies equality, for two texts made of several choices in the same places; None if they are not."""
    if len(A) != len(B) or sum(isinstance(x, Choice) for x in A + B) < 2:
        return None
    gs = []
    for x, y in zip(A, B):
        if x is y:
            continue
        if isinstance(x, Choice) and isinstance(y, Choice):
            db = dict((s, g) for g, s in y.live())
            gs.append(gor([gand([g, db[s]]) for g, s in x.live() if s in db]))
        elif isinstance(x, Hole) or isinstance(y, Hole):
            return None
        elif isinstance(x, str) and isinstance(y, str):
            if x != y:
                return None
        elif isinstance(x, Choice) or isinstance(y, Choice):
            if isinstance(y, Choice):
                x, y = y, x
            gs.append(gor([gand([g, y == s if isinstance(y, str) else y.isin(((ord(s), ord(s)),))]) for g, s in x.live()
                           if len(s) == 1 and (isinstance(y, str) or ival.has(y.dom, ord(s)))]))
        elif isinstance(x, str) or isinstance(y, str):
            return None
        else:
            gs.append(True if x.expr.eq(y.expr) else x.expr == y.expr)
    g = gand(gs)
    return None if g is False else g


def _same(x, y):
    return x is y or (isinstance(x, str) and isinstance(y, str) and x == y)


def _eq(A, B):
    i = 0
    conj = []
    A = list(A)
    B = list(B)

    def unit(x):
        return isinstance(x, (str, Ch))

    def pair(x, y):
        if isinstance(x, str) and isinstance(y, str):
            return x == y
        if isinstance(x, str):
            x, y = y, x
        if isinstance(y, str):
            if not ival.has(x.dom, ord(y)):
                return False
            return x.isin(((ord(y), ord(y)),))
        if not ival.inter(x.dom, y.dom):
            return False
        return x.expr == y.expr

    for _ in range(2):
        while A and B:
            x, y = A[0], B[0]
            if x is y:
                pass
            elif unit(x) and unit(y):
                g = pair(x, y)
                if g is False:
                    return False
                conj.append(g)
            else:
                break
            A.pop(0)
            B.pop(0)
        A.reverse()
        B.reverse()
    if not A and not B:
        return gand(conj)
    la, ha = minmax(A)
    lb, hb = minmax(B)
    if ha < lb or hb < la:
        return False
    if all(isinstance(x, str) for x in B):
        X, Y = A, ''.join(B)
    elif all(isinstance(x, str) for x in A):
        X, Y = B, ''.join(A)
    else:
        X = Y = None
    if Y is not None and not may_match_const(X, Y):
        return False
    if (not A or not B):
        # the other side must be empty: every part empty
        X = A or B
        for p in X:
            if isinstance(p, Hole):
                conj.append(p.len == 0)
            elif isinstance(p, Choice):
                conj.append(p.test(lambda s: s == ''))
            else:
                return False
        return gand(conj)
    # same choice distribution on both sides: expand choices
    ch = [p for p in A + B if isinstance(p, Choice)]
    if ch:
        one_a = len(A) == 1 and isinstance(A[0], Choice)
        one_b = len(B) == 1 and isinstance(B[0], Choice)
        if one_a and one_b:
            db = {s: g for g, s in B[0].live()}
            return gand(conj + [gor([gand([g, db[s]]) for g, s in A[0].live() if s in db])])
        # prefer the choice at an end of its side
        for side, other in ((A, B), (B, A)):
            for first in (0, -1):
                c = side[first]
                if isinstance(c, Choice):
                    out = []
                    rest = side[1:] if first == 0 else side[:-1]
                    for g, s in c.live():
                        lst = list(s) + rest if first == 0 else rest + list(s)
                        r = _eq(lst, other) if side is A else _eq(other, lst)
                        if r is not False:
                            out.append(gand([g, r]))
                    return gand(conj + [gor(out)])
    # holes against something else
    for p, q in ((A, B), (B, A)):
        if len(p) == 1 and isinstance(p[0], Hole) and all(unit(x) for x in q):
            h = p[0]
            if ctx().branch(h.len == len(q)):
                h.fix_len(len(q))
                raise Refine()
            return False
    for x, y in ((A[0], B[0]), (B[0], A[0])):
        if isinstance(x, Hole):
            if x.nonempty():
                if unit(y) or True:
                    if isinstance(y, Hole):
                        x.expand()
                    else:
                        x.peel()
            raise Refine()
    raise Unsupported('string equality')


class SymStr:
    __slots__ = ('_p',)

    def __init__(self, parts):
        self._p = parts

    def __repr__(self):
        return 'SymStr(%s)' % ', '.join(map(repr, self._p))

    # -- basics
    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            return mkbool(eqg(self, o))
        return False

    def __ne__(self, o):
        return core.lnot(self == o)

    def __hash__(self):
        k = concrete(self)
        if k is not None:
            return hash(k)
        return hash(fork_all(self))

    def __bool__(self):
        return bool(mkbool(nonempty(self)))

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk(P(self) + P(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mk(P(o) + P(self))

    def __mul__(self, n):
        return mk(P(self) * int(n))
    __rmul__ = __mul__

    def __mod__(self, o):
        from . import hooks
        return hooks.percent(self, o)

    def __contains__(self, o):
        return bool(contains(self, o))

    def __iter__(self):
        i = 0
        out = []
        for p in items(self):
            if isinstance(p, Hole) or (isinstance(p, Choice) and any(len(s) != 1 for _, s in p.live())):
                out = None
                break
            out.append(p)
        if out is None:
            out = chars(self)
        return iter([p if isinstance(p, str) else mk([p]) for p in out])

    def __len__(self):
        return int(length(self))

    def __lt__(self, o): return less(self, o) if isinstance(o, (str, SymStr)) else NotImplemented
    def __le__(self, o): return core.lnot(less(o, self)) if isinstance(o, (str, SymStr)) else NotImplemented
    def __gt__(self, o): return less(o, self) if isinstance(o, (str, SymStr)) else NotImplemented
    def __ge__(self, o): return core.lnot(less(self, o)) if isinstance(o, (str, SymStr)) else NotImplemented

    def __str__(self):
        return self

    def __format__(self, spec):
        raise Unsupported('format() of a symbolic string outside an f-string')

    def __getitem__(self, k):
        if isinstance(k, slice):
            return getslice(self, k)
        return getindex(self, int(k))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)
        def method(*a, **kw):
            return method_call(self, name, a, kw)
        method.__name__ = name
        return method


def concrete(x):
    """The concrete value of x if it is determined, else None."""
    if isinstance(x, str):
        return x
    if isinstance(x, SymStr):
        p = P(x)
        if not p:
            return ''
        if len(p) == 1 and isinstance(p[0], str):
            return p[0]
    return None


def nonempty(x):
    ps = P(x)
    gs = []
    for p in ps:
        if isinstance(p, (str, Ch)):
            return True
        if isinstance(p, Hole):
            if p.min >= 1:
                return True
            gs.append(p.len >= 1)
        else:
            g = p.test(lambda s: s != '')
            if g is True:
                return True
            gs.append(g)
    return gor(gs)


def pick_char(c):
    """Last resort: follow one solver-chosen value of a character (recorded as a cut)."""
    cx = ctx()
    v = cx.ex.int_choice(cx, c.expr)
    if cx.branch(c.isin(((v, v),))):
        return chr(v)
    cx.ex.cut('character concretised: an operation on it is not encoded')
    raise PathEnd()


def fork_all(x):
    """Force a concrete string, forking over every possibility (small domains) or cutting."""
    if isinstance(x, str):
        return x
    out = []
    for p in chars(x):
        if isinstance(p, Ch):
            if p.const() is not None:
                out.append(p.const())
            elif ival.size(p.dom) <= 300:
                cx = ctx()
                for v in list(ival.codes(p.dom)):
                    if cx.branch(p.isin(((v, v),))):
                        out.append(chr(v))
                        break
                else:
                    raise PathEnd()
            else:
                out.append(pick_char(p))
        else:
            out.append(p)
    return ''.join(out)


def flat_choice(x, limit=PRODUCT_MAX):
    """x as one Choice / str if it is a small product of finite alternatives, else None."""
    acc = [(True, '')]
    for p in P(x):
        if isinstance(p, str):
            acc = [(g, s + p) for g, s in acc]
            continue
        if isinstance(p, Ch):
            if ival.size(p.dom) > 400:
                return None
            alts = [(p.isin(((v, v),)), chr(v)) for v in ival.codes(p.dom)]
        elif isinstance(p, Choice):
            alts = p.live()
        else:
            return None
        if len(acc) * len(alts) > limit:
            return None
        new = []
        for g, s in acc:
            for h, t in alts:
                k = gand([g, h])
                if k is not False:
                    new.append((k, s + t))
        acc = new
    return mkchoice(acc)


# -- character-wise operations ------------------------------------------------------------------
def map_char(p, f, key):
    """Part for f(character) where f maps one character to a string."""
    dom = p.dom
    ch = ival.inter(changed(f, key), dom)
    if not ch:
        return p
    if ch != dom:
        if not ctx().branch(p.isin(ch)):
            return p
        ch = p.dom
    if ival.size(ch) > 20000:
        raise Unsupported('large character map')
    by = {}
    for v in ival.codes(ch):
        by.setdefault(f(chr(v)), []).append(v)
    return mkchoice([(p.isin(ival.of_codes(vs)), s) for s, vs in by.items()])


def changed(f, key):
    return ival.tabulate(('chg', key), lambda c: f(c) != c)


PREDS = ('isalpha', 'isdigit', 'isalnum', 'isspace', 'isdecimal', 'isnumeric', 'isascii', 'isprintable')
MAPS = ('lower', 'upper', 'casefold', 'swapcase')


def all_pred(x, name):
    iv = ival.strpred(name)
    gs = []
    if name not in ('isascii', 'isprintable'):
        gs.append(nonempty(x))
    while True:
        try:
            for p in P(x):
                if isinstance(p, str):
                    if not getattr(p, name)():
                        return False
                elif isinstance(p, Ch):
                    gs.append(p.isin(iv))
                elif isinstance(p, Choice):
                    gs.append(p.test(lambda s: s == '' or getattr(s, name)()))
                else:
                    i = ival.inter(p.alpha, iv)
                    if i == p.alpha:
                        continue
                    if not i:
                        gs.append(p.len == 0)
                        continue
                    p.expand()
                    raise Refine()
            return gand(gs)
        except Refine:
            gs = gs[:1] if name not in ('isascii', 'isprintable') else []


def is_ws_part(p):
    """True/False/None(unknown) for a single item being white space."""
    if isinstance(p, str):
        return p.isspace()
    if isinstance(p, Ch):
        return ctx().branch(p.isin(WS))
    return None


def settle_ws(x, iv=WS, whole=True):
    """Items of x such that every Choice is either free of white space and non-empty, or decided,
    every Ch is decided to be white space or not, and every Hole is non-empty."""
    while True:
        again = False
        out = []
        for p in P(x):
            if isinstance(p, str):
                out.extend(p)
            elif isinstance(p, Ch):
                out.append((p, True) if ctx().branch(p.isin(iv)) else p)
            elif isinstance(p, Hole):
                if ival.inter(p.alpha, iv):
                    p.expand()
                    again = True
                    break
                if not p.nonempty():
                    again = True
                    break
                out.append(p)
            else:
                def solid(s):
                    return s != '' and not any(ival.has(iv, ord(c)) for c in s)
                if all(solid(s) for _, s in p.live()):
                    out.append(p)
                elif p.narrow(solid):
                    again = True
                    break
                else:
                    p.fork()
                    again = True
                    break
        if not again:
            return out


def do_split(x):
    words = []
    cur = None
    for p in settle_ws(x):
        w = isinstance(p, tuple) or (isinstance(p, str) and p.isspace())
        if w:
            if cur is not None:
                words.append(cur)
                cur = None
        else:
            if cur is None:
                cur = []
            cur.append(p)
    if cur is not None:
        words.append(cur)
    return [mk(w) for w in words]


def settle_end(x, iv, left):
    """Strip characters in iv from one end, looking no further than needed."""
    while True:
        its = items(x)
        again = False
        idx = range(len(its)) if left else range(len(its) - 1, -1, -1)
        cut = len(its)
        n = 0
        for i in idx:
            p = its[i]
            if isinstance(p, str):
                if ival.has(iv, ord(p)):
                    n += 1
                    continue
                break
            if isinstance(p, Ch):
                if ctx().branch(p.isin(iv)):
                    n += 1
                    continue
                break
            if isinstance(p, Hole):
                if not p.nonempty():
                    again = True
                    break
                if not ival.inter(p.alpha, iv):
                    break
                if n == 0 and ival.inter(p.alpha, iv) == p.alpha:
                    p.expand()
                else:
                    p.peel(end=not left)
                again = True
                break
            e = 0 if left else -1

            def solid(s):
                return s != '' and not ival.has(iv, ord(s[e]))
            if all(solid(s) for _, s in p.live()):
                break
            if p.narrow(solid):
                again = True
                break
            p.fork()
            again = True
            break
        if again:
            continue
        return mk(its[n:] if left else its[:len(its) - n])


def do_strip(x, name, cs):
    iv = WS if cs is None else ival.of_str(fork_all(cs))
    if name in ('strip', 'lstrip'):
        x = settle_end(x, iv, True)
    if name in ('strip', 'rstrip'):
        x = settle_end(x, iv, False)
    return x


def getindex(x, k):
    while True:
        its = items(x)
        seq = its if k >= 0 else its[::-1]
        n = k if k >= 0 else -k - 1
        pos = 0
        again = False
        for p in seq:
            if isinstance(p, Hole):
                if p.nonempty():
                    p.peel(end=k < 0)
                again = True
                break
            if isinstance(p, Choice):
                ls = {len(s) for _, s in p.live()}
                if len(ls) > 1:
                    l0 = min(ls)
                    p.narrow(lambda s: len(s) == l0)
                    again = True
                    break
                L = ls.pop()
                if pos + L > n:
                    o = n - pos
                    if k < 0:
                        o = L - 1 - o
                    return mk([p.map(lambda s: s[o])])
                pos += L
                continue
            if pos == n:
                return mk([p])
            pos += 1
        if again:
            continue
        raise IndexError('string index out of range')


def getslice(x, sl):
    if sl.step not in (None, 1):
        cs = chars(x)
        return mk(cs[sl])
    a = None if sl.start is None else int(sl.start)
    b = None if sl.stop is None else int(sl.stop)
    if a is None:
        a = 0
    while True:
        its = items(x)
        # expand choices to fixed length characters when positions inside them matter
        if all(isinstance(p, (str, Ch)) for p in its):
            return mk(its[a:b])
        ok = True

        def need(n, rev):
            """First n items (from an end) must be single characters."""
            seq = its[::-1] if rev else its
            for p in seq[:n]:
                if isinstance(p, Hole):
                    if p.nonempty():
                        p.peel(end=rev)
                    return False
                if isinstance(p, Choice):
                    if all(len(s) == 1 for _, s in p.live()):
                        continue
                    ls = {len(s) for _, s in p.live()}
                    if len(ls) == 1:
                        split_choice(p, x)
                        return False
                    l0 = min(ls)
                    p.narrow(lambda s: len(s) == l0)
                    return False
            return True
        if not need(a if a >= 0 else -a, a < 0):
            continue
        if b is not None:
            if not need(b if b >= 0 else -b, b < 0):
                continue
        return mk(its[a:b])


def split_choice(p, x):
    """Replace a fixed-length Choice by one Choice per position (in place in x)."""
    L = len(p.live()[0][1])
    if L == 1:
        return
    sub = [p.map(lambda s, i=i: s[i]) for i in range(L)]
    new = []
    for q in x._p:
        if q is p:
            new.extend(sub)
        else:
            new.append(q)
    x._p = new


# -- search -------------------------------------------------------------------------------------
def contains(x, o):
    """`o in x` as bool/SymBool."""
    if isinstance(x, str) and isinstance(o, str):
        return o in x
    if isinstance(x, str) and isinstance(o, SymStr):
        if len(x) <= 400:
            lo, hi = minmax(P(o))
            gs = []
            seen = set()
            for n in range(lo, min(hi, len(x)) + 1):
                for i in range(len(x) - n + 1):
                    t = x[i:i + n]
                    if t not in seen:
                        seen.add(t)
                        gs.append(eqg(o, t))
            return mkbool(gor(gs))
        return fork_all(o) in x
    if o == '' if isinstance(o, str) else False:
        return True
    if isinstance(o, str):
        ps = P(x)
        if len(o) == 1:
            v = ord(o)
            gs = []
            for p in ps:
                if isinstance(p, str):
                    if o in p:
                        return True
                elif isinstance(p, Ch):
                    gs.append(p.isin(((v, v),)))
                elif isinstance(p, Choice):
                    gs.append(p.test(lambda s: o in s))
                elif ival.has(p.alpha, v):
                    break
            else:
                return mkbool(gor(gs))
        if len(ps) == 1 and isinstance(ps[0], Choice):
            return mkbool(ps[0].test(lambda s: o in s))
    from . import rex
    import re
    return rex.search_pos(x, rex.literal(o)) is not None


def method_call(s, name, a, kw):
    """str method `name` on s (str or SymStr), any argument possibly symbolic."""
    from . import rex
    if name == 'join':
        seq = list(a[0])
        out = []
        for i, w in enumerate(seq):
            if isinstance(w, ObjChoice):
                w = w.fork()
            if not isinstance(w, (str, SymStr)):
                raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(w).__name__))
            if i:
                out += P(s)
            out += P(w)
        return mk(out)
    if isinstance(s, SymStr):
        k = concrete(s)
        if k is not None:
            s = k
            if not any(issym(v) for v in a):
                return getattr(s, name)(*a, **kw)
    if name in ('strip', 'lstrip', 'rstrip'):
        return do_strip(s, name, a[0] if a else None)
    if name == 'split' and (not a or a[0] is None) and not kw:
        return do_split(s)
    if name in PREDS:
        return mkbool(all_pred(s, name))
    if name == 'encode':
        return SymBytes(s)
    if name == 'format':
        from . import hooks
        return hooks.str_format(s, a, kw)
    if name == '__len__':
        return length(s)
    if name == '__contains__':
        return contains(s, a[0])
    if name == '__eq__':
        return s == a[0]
    if name == '__getitem__':
        return s[a[0]]
    # one Choice and concrete arguments: map the real method
    if isinstance(s, SymStr) and not any(issym(v) for v in list(a) + list(kw.values())):
        ps = P(s)
        if len(ps) == 1 and isinstance(ps[0], Choice):
            return map_any(ps[0].live(), lambda t: getattr(t, name)(*a, **kw))
    if name in MAPS or (name == 'translate' and isinstance(a[0], dict)):
        if name == 'translate':
            tb = a[0]
            f = lambda c: c.translate(tb)
            hasf = lambda al: any(isinstance(k, int) and ival.has(al, k) for k in tb)
        else:
            f = lambda c: getattr(c, name)()
            ivc = changed(f, name)
            hasf = lambda al: bool(ival.inter(al, ivc))
        while True:
            out = []
            try:
                for p in P(s):
                    if isinstance(p, str):
                        out.append(f(p))
                    elif isinstance(p, Ch):
                        if name == 'translate':
                            ks = [k for k in tb if isinstance(k, int) and ival.has(p.dom, k)]
                            if not ks or not ctx().branch(p.isin(ival.of_codes(ks))):
                                out.append(p)
                            else:
                                by = {}
                                for k in ks:
                                    by.setdefault(f(chr(k)), []).append(k)
                                out.append(mkchoice([(p.isin(ival.of_codes(v)), t) for t, v in by.items()]))
                        else:
                            out.append(map_char(p, f, name))
                    elif isinstance(p, Choice):
                        out.append(p.map(f))
                    else:
                        if hasf(p.alpha):
                            p.expand()
                            raise Refine()
                        out.append(p)
                return mk(out)
            except Refine:
                continue
    if name in ('startswith', 'endswith'):
        pre = a[0]
        if len(a) > 1:
            s = s[slice(*(list(a[1:]) + [None])[:2])]
        if isinstance(pre, tuple):
            r = False
            for q in pre:
                r = core.lor(r, method_call(s, name, (q,), {}))
            return r
        lo, hi = minmax(P(pre))
        if lo != hi:
            pre = mk(chars(pre))
            lo = len(chars(pre))
        n = lo
        if n == 0:
            return True
        L = length(s)
        if not (bool(L >= n) if not isinstance(L, int) else L >= n):
            return False
        t = getslice(s, slice(None, n)) if name == 'startswith' else getslice(s, slice(-n, None))
        if isinstance(s, str):
            t = s[:n] if name == 'startswith' else s[-n:]
        return mkbool(eqg(t, pre))
    if name in ('removeprefix', 'removesuffix'):
        if method_call(s, 'startswith' if name == 'removeprefix' else 'endswith', a, {}):
            n = len(chars(a[0]))
            return s[n:] if name == 'removeprefix' else (s[:-n] if n else s)
        return s
    if name in ('find', 'index', 'rfind', 'rindex', 'count', 'replace', 'split', 'rsplit', 'partition',
                'rpartition', 'splitlines') and isinstance(s, SymStr):
        return search_method(s, name, a, kw)
    if name == 'replace' and isinstance(s, str) and isinstance(a[0], str) and len(a) > 1:
        if not a[0]:
            return generic(s, name, a, kw)
        return method_call(a[1], 'join', (s.split(a[0], int(a[2]) if len(a) > 2 else -1),), {})
    if name in ('capitalize', 'title', 'zfill', 'ljust', 'rjust', 'center', 'isupper', 'islower', 'istitle',
                'isidentifier', 'expandtabs', 'find', 'index', 'rfind', 'count', 'replace', 'split', 'rsplit',
                'partition', 'rpartition', 'splitlines', 'translate', 'format_map'):
        return generic(s, name, a, kw)
    return generic(s, name, a, kw)


def less(a, b):
    """a < b in the order of code points."""
    def code(p):
        return z3.IntVal(ord(p)) if isinstance(p, str) else p.expr

    def rec(A, B):
        if not B:
            return False
        if not A:
            return True
        x, y = A[0], B[0]
        rest = rec(A[1:], B[1:])
        if isinstance(x, str) and isinstance(y, str):
            return x < y if x != y else rest
        if x is y:
            return rest
        if isinstance(y, str):
            lt, eq = x.isin(((0, ord(y) - 1),) if y > '\0' else ()), x.isin(((ord(y), ord(y)),))
        elif isinstance(x, str):
            lt, eq = y.isin(((ord(x) + 1, ival.MAXC),)), y.isin(((ord(x), ord(x)),))
        else:
            lt, eq = code(x) < code(y), code(x) == code(y)
        return gor([lt, gand([eq, rest])])

    for s, t, flip in ((a, b, False), (b, a, True)):
        ps = P(s)
        if isinstance(t, str) and len(ps) == 1 and isinstance(ps[0], Choice):
            return mkbool(ps[0].test(lambda v: t < v if flip else v < t))
    return mkbool(rec(chars(a), chars(b)))


def to_int(s, base=10):
    """int(text): what is no number is told apart first, then the digits are decided."""
    import re
    from . import rex
    if base != 10:
        return int(fork_all(s), base)
    if not rex.method(re.compile(r'\s*[+-]?\d+(?:_\d+)*\s*'), 'fullmatch', (s,), {}):
        raise ValueError('invalid literal for int() with base 10: %r' % (s,))
    return int(fork_all(s))


def generic(s, name, a, kw):
    """Any str method: finite alternatives are mapped through the real method; otherwise fork."""
    args = [fork_all(v) if isinstance(v, SymStr) else (int(v) if isinstance(v, (SymInt, SymBool)) else v) for v in a]
    kws = {k: fork_all(v) if isinstance(v, SymStr) else v for k, v in kw.items()}
    if isinstance(s, str):
        return getattr(s, name)(*args, **kws)
    fc = flat_choice(s)
    if isinstance(fc, Choice):
        return map_any(fc.live(), lambda t: getattr(t, name)(*args, **kws))
    return getattr(fork_all(s), name)(*args, **kws)


def search_method(s, name, a, kw):
    from . import rex
    if name == 'splitlines':
        return generic(s, name, a, kw)
    sep = a[0] if a else kw.get('sep')
    if isinstance(sep, SymStr):
        sep = fork_all(sep)
    if sep is None:      # split(None, maxsplit)
        return generic(s, name, a, kw)
    prog = rex.literal(sep)
    base = 0
    if name in ('find', 'index', 'rfind', 'rindex', 'count') and len(a) > 1:
        lo, hi = (None if v is None else int(v) for v in (list(a[1:3]) + [None])[:2])
        base = max(0, lo + int(length(s)) if lo < 0 else lo) if lo is not None else 0
        s = s[base:hi] if hi is None or hi >= 0 else s[base:max(0, hi + int(length(s)))]
        a = a[:1]
        if isinstance(s, str) and isinstance(sep, str):
            r = getattr(s, name)(sep)
            return r + base if r >= 0 and name != 'count' else r
    if name in ('find', 'index'):
        m = rex.search_pos(s, prog)
        if m is None:
            if name == 'index':
                raise ValueError('substring not found')
            return -1
        return length(mk(m[2][:m[0]])) + base
    if name in ('rfind', 'rindex', 'rsplit', 'rpartition'):
        # all matches, taken from the right (single-character or non-overlapping separators)
        if len(sep) != 1:
            return generic(s, name, a, kw)
    ms, its = rex.find_all(s, prog)
    if name == 'count':
        return len(ms)
    if name in ('rfind', 'rindex'):
        if not ms:
            if name == 'rindex':
                raise ValueError('substring not found')
            return -1
        return length(mk(its[:ms[-1][0]])) + base
    if name == 'partition':
        if not ms:
            return (s, '', '')
        b, e = ms[0]
        return (mk(its[:b]), sep, mk(its[e:]))
    if name == 'rpartition':
        if not ms:
            return ('', '', s)
        b, e = ms[-1]
        return (mk(its[:b]), sep, mk(its[e:]))
    lim = -1
    if name == 'replace':
        new = a[1]
        lim = int(a[2]) if len(a) > 2 else -1
    elif len(a) > 1:
        lim = int(a[1])
    elif 'maxsplit' in kw:
        lim = int(kw['maxsplit'])
    if lim >= 0:
        ms = (ms[len(ms) - lim:] if lim else []) if name == 'rsplit' else ms[:lim]
    pieces = []
    pos = 0
    for b, e in ms:
        pieces.append(mk(its[pos:b]))
        pos = e
    pieces.append(mk(its[pos:]))
    if name == 'replace':
        return method_call(new, 'join', (pieces,), {})
    return pieces


# -- choices over other values --------------------------------------------------------------------
class ObjChoice:
    """One of finitely many concrete objects."""
    __slots__ = ('_alts',)

    def __init__(self, alts):
        object.__setattr__(self, '_alts', alts)

    def fork(self):
        alts = [(g, o) for g, o in self._alts if mkbool(g) is not False]
        for g, o in alts[:-1]:
            if ctx().branch(g):
                object.__setattr__(self, '_alts', [(True, o)])
                return o
        if not alts:
            raise PathEnd()
        object.__setattr__(self, '_alts', [alts[-1]])
        return alts[-1][1]

    def __getattr__(self, name):
        vals = [(g, getattr(o, name)) for g, o in self._alts]
        if any(callable(v) for _, v in vals):
            return getattr(self.fork(), name)
        return map_any(vals, lambda v: v)

    def __getitem__(self, k):
        return map_any(self._alts, lambda o: o[k])

    def __iter__(self):
        ls = {len(o) for _, o in self._alts}
        if len(ls) == 1:
            return iter([self[i] for i in range(ls.pop())])
        return iter(self.fork())

    def __len__(self):
        return len(self.fork())

    def __bool__(self):
        return bool(mkbool(gor([g for g, o in self._alts if o])))

    def __eq__(self, o):
        return mkbool(gor([g for g, x in self._alts if x == o]))

    def __ne__(self, o):
        return core.lnot(self == o)

    def __hash__(self):
        return hash(self.fork())

    def __call__(self, *a, **kw):
        return self.fork()(*a, **kw)


def map_any(alts, f):
    """Apply f to each alternative; merge the results by type."""
    res = [(g, f(s)) for g, s in alts]
    vs = [v for _, v in res]
    if all(isinstance(v, str) for v in vs):
        return mk([mkchoice(res)])
    if all(isinstance(v, bool) for v in vs):
        return mkbool(gor([g for g, v in res if v]))
    if all(isinstance(v, int) and not isinstance(v, bool) for v in vs):
        by = {}
        for g, v in res:
            by.setdefault(v, []).append(g)
        ks = list(by)
        t = z3.IntVal(ks[-1])
        for k in ks[:-1]:
            t = z3.If(gz(gor(by[k])), z3.IntVal(k), t)
        return mkint(t)
    return merge_objs(res)


def merge_objs(res):
    by = {}
    for g, v in res:
        if isinstance(v, (str, int, bool, type(None))):
            k = (type(v).__name__, v)
        elif isinstance(v, (tuple, list)):
            k = (type(v).__name__, repr(v))
        else:
            k = id(v)
        if k in by:
            by[k][0].append(g)
        else:
            by[k] = ([g], v)
    alts = [(gor(gs), v) for gs, v in by.values()]
    if len(alts) == 1:
        return alts[0][1]
    # split by type: homogeneous strings / same-class objects stay merged, the rest forks
    groups = {}
    for g, v in alts:
        groups.setdefault(str if isinstance(v, str) else type(v), []).append((g, v))
    ks = list(groups)
    for k in ks[:-1]:
        if ctx().branch(gor([g for g, _ in groups[k]])):
            break
    else:
        k = ks[-1]
    al = [(g, v) for g, v in groups[k] if mkbool(g) is not False]
    if not al:
        raise PathEnd()
    if k is str:
        return mk([mkchoice(al)])
    if len(al) == 1:
        return al[0][1]
    if k in (bool, int):
        return map_any(al, lambda v: v)
    if k in (list, tuple):
        return list(ObjChoice(al).fork()) if k is list else ObjChoice(al).fork()
    if k in (type, type(lambda: 0)) or callable(al[0][1]):
        return ObjChoice(al).fork()
    return ObjChoice(al)


class SymBytes:
    def __init__(self, s):
        self.s = s

    def decode(self, *a, **k):
        return self.s


# -- functions of one character -------------------------------------------------------------------
class ProbeFail(BaseException):
    pass


def summary(f, name, dom):
    """f(character) for every character of a domain: [(interval set, result)], one entry for each
    course f takes. ProbeFail when a course depends on anything else."""
    c = ctx()
    had = c.dom.get(name)
    out = []
    work = [[]]
    ch = Ch.__new__(Ch)
    ch.name = name
    ch.expr = z3.Int(name)
    while work:
        pre = work.pop()
        tr = []

        def branch(g):
            if g is True or g is False:
                return g
            if not isinstance(g, CS) or g.key != name or len(tr) > 40:
                raise ProbeFail()
            d = c.dom[name]
            i = ival.inter(d, g.iv)
            if not i or i == d:
                return bool(i)
            if len(tr) < len(pre):
                v = pre[len(tr)]
            else:
                v = True
                work.append(tr + [False])
            tr.append(v)
            c.dom[name] = i if v else ival.minus(d, i)
            return v

        c.dom[name] = dom
        c.branch = branch
        try:
            r = f(mk([ch]))
            out.append((c.dom[name], r))
        except (Exception, PathEnd, Unsupported):
            raise ProbeFail()
        finally:
            del c.branch
            if had is None:
                del c.dom[name]
            else:
                c.dom[name] = had
        if len(out) > 60:
            raise ProbeFail()
    return out


def truth_set(f, name, dom):
    """The characters of a domain f is true of."""
    ok = []
    for iv, r in summary(f, name, dom):
        if isinstance(r, SymBool):
            if not isinstance(r.g, CS) or r.g.key != name:
                raise ProbeFail()
            ok += ival.inter(iv, r.g.iv)
        elif isinstance(r, SymStr):
            raise ProbeFail()
        elif r:
            ok += iv
    return ival.norm(ok)


def quantify(s, f, every):
    """any / all of f(character) over the characters of s."""
    while True:
        gs = []
        try:
            for p in P(s):
                if isinstance(p, Ch):
                    iv = truth_set(f, p.name, p.dom)
                    gs.append(p.isin(iv))
                elif isinstance(p, Hole):
                    iv = truth_set(f, '%probe', p.alpha)
                    if iv == p.alpha:
                        if not every:
                            gs.append(p.min >= 1 or p.len >= 1)
                    elif not iv:
                        if every:
                            gs.append(False if p.min >= 1 else p.len == 0)
                    else:
                        p.expand()
                        raise Refine()
                else:
                    def g(t):
                        rs = [f(x) for x in t]
                        if any(issym(r) for r in rs):
                            raise ProbeFail()
                        return (all if every else any)(rs)
                    gs.append(g(p) if isinstance(p, str) else p.test(g))
            return mkbool(gand(gs) if every else gor(gs))
        except Refine:
            pass


def join_map(s, f):
    """''.join(f(c) for c in s); f returns None for a character it leaves out."""
    def one(x):
        r = f(x)
        if r is None:
            return []
        if isinstance(r, ObjChoice):
            r = r.fork()
        if not isinstance(r, (str, SymStr)):
            raise TypeError('sequence item: expected str instance, %s found' % type(r).__name__)
        return P(r)

    while True:
        out = []
        try:
            for p in P(s):
                if isinstance(p, str):
                    for x in p:
                        out += one(x)
                elif isinstance(p, Ch):
                    out += one(mk([p]))
                elif isinstance(p, Choice):
                    def g(t):
                        rs = [f(x) for x in t]
                        if not all(isinstance(r, str) or r is None for r in rs):
                            raise ProbeFail()
                        return ''.join(r for r in rs if r)
                    try:
                        q = p.map(g)
                    except (ProbeFail, Exception):
                        p.fork()
                        raise Refine()
                    out.append(q)
                else:
                    try:
                        for iv, r in summary(f, '%probe', p.alpha):
                            q = r._p[0] if isinstance(r, SymStr) and len(r._p) == 1 else None
                            if not (isinstance(q, Ch) and q.name == '%probe'):
                                raise ProbeFail()
                    except ProbeFail:
                        p.expand()
                        raise Refine()
                    out.append(p)
            return mk(out)
        except Refine:
            pass


# -- dictionary lookup ----------------------------------------------------------------------------
_DIDX = {}


def lookup_alts(keys, k):
    """[(guard, key)] for the keys that may equal the symbolic string k."""
    ps = P(k)
    if len(ps) == 1:
        p = ps[0]
        if isinstance(p, Ch):
            d = p.dom
            return [(p.isin(((ord(s), ord(s)),)), s) for s in keys
                    if isinstance(s, str) and len(s) == 1 and ival.has(d, ord(s))]
        if isinstance(p, Choice):
            ks = keys if isinstance(keys, (dict, set, frozenset)) else set(s for s in keys if isinstance(s, str))
            return [(g, s) for g, s in p.live() if s in ks]
    lo, hi = minmax(ps)
    out = []
    its = items(k)
    for s in keys:
        if isinstance(s, str) and lo <= len(s) <= hi and may_match_const(its, s):
            g = eqg(k, s)
            if g is not False:
                out.append((g, s))
            its = items(k)
    return out
