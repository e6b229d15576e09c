"""Backtracking matcher for Python regular expressions over symbolic strings.

The pattern is the parse tree of CPython's own `re._parser`; character classes are tabulated by
running the real `re` over all code points. Matching a symbolic character against a class gives a
guard; alternatives are produced in Python's priority order and the first whose guard holds is
chosen by the solver. A Hole or Choice is first treated as an abstract run over its alphabet: if no
match can touch it, it is skipped exactly; otherwise it is expanded."""
import re
import re._parser as sp
import re._constants as sc
from . import ival, core
from .core import CS, Unsupported, gand, gor, gnot, ctx
from .strs import Ch, Hole, Choice, SymStr, Refine, items, mk, P, concrete, mkchoice, map_any, length, fork_all

MAYBE = None
_SETS = {}


class Prog:
    def __init__(self, pat, flags=0):
        self.src = pat
        self.pat = re.compile(pat, flags)
        self.flags = self.pat.flags
        tree = sp.parse(pat, flags)
        self.tree = list(tree)
        self.width = tree.getwidth()[1]
        self.groups = self.pat.groups
        self.names = dict(self.pat.groupindex)
        self.used = None

    def charset(self):
        """Every character a consuming item of the pattern can match."""
        if self.used is None:
            acc = []

            def walk(ops):
                for op, av in ops:
                    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
                        acc.append(self.cset(op, av, self.flags))
                    elif op is sc.BRANCH:
                        for b in av[1]:
                            walk(b)
                    elif op is sc.SUBPATTERN:
                        walk(av[3])
                    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.POSSESSIVE_REPEAT):
                        walk(av[2])
                    elif op in (sc.ASSERT, sc.ASSERT_NOT):
                        walk(av[1])
                    elif op is sc.ATOMIC_GROUP:
                        walk(av)
                    elif op is sc.GROUPREF:
                        pass
                    elif op is sc.AT:
                        if av not in (sc.AT_BEGINNING, sc.AT_END, sc.AT_BEGINNING_STRING, sc.AT_END_STRING):
                            acc.append(ival.ALL)
            walk(self.tree)
            self.used = ival.norm([p for iv in acc for p in iv])
        return self.used

    def cset(self, op, av, flags):
        fl = flags & (re.IGNORECASE | re.DOTALL | re.ASCII)
        if op is sc.LITERAL and not fl & re.IGNORECASE:
            return ((av, av),)
        if op is sc.NOT_LITERAL and not fl & re.IGNORECASE:
            return ival.compl(((av, av),))
        if op is sc.ANY:
            return ival.ALL if fl & re.DOTALL else ival.compl(((10, 10),))
        key = (str(op), repr(av), int(fl))
        if key not in _SETS:
            src = class_src(op, av)
            _SETS[key] = ival.of_pattern(('re',) + key, re.compile(src, (re.IGNORECASE if fl & re.IGNORECASE else 0) | (re.ASCII if fl & re.ASCII else 0)))
        return _SETS[key]


def class_src(op, av):
    def lit(c):
        return '\\U%08x' % c
    if op is sc.LITERAL:
        return '[' + lit(av) + ']'
    if op is sc.NOT_LITERAL:
        return '[^' + lit(av) + ']'
    out = ''
    neg = ''
    cats = {sc.CATEGORY_DIGIT: '\\d', sc.CATEGORY_NOT_DIGIT: '\\D', sc.CATEGORY_SPACE: '\\s',
            sc.CATEGORY_NOT_SPACE: '\\S', sc.CATEGORY_WORD: '\\w', sc.CATEGORY_NOT_WORD: '\\W'}
    for o, a in av:
        if o is sc.NEGATE:
            neg = '^'
        elif o is sc.LITERAL:
            out += lit(a)
        elif o is sc.RANGE:
            out += lit(a[0]) + '-' + lit(a[1])
        elif o is sc.CATEGORY:
            out += cats[a]
        else:
            raise Unsupported('regex class')
    return '[' + neg + out + ']'


_PROGS = {}


def prog(pat):
    """Prog for a compiled pattern."""
    k = (pat.pattern, pat.flags)
    if k not in _PROGS:
        fl = pat.flags & ~re.UNICODE if isinstance(pat.pattern, str) else pat.flags
        _PROGS[k] = Prog(pat.pattern, fl)
    return _PROGS[k]


def literal(s):
    return prog(re.compile(re.escape(s), re.DOTALL))


class In:
    """Position inside an abstract part (may-mode)."""
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i


def m_seq(pr, ops, k, its, pos, gs, groups, may, flags, cont):
    """Yield (guards, pos, groups) in priority order for ops[k:] at pos, then cont."""
    if k == len(ops):
        yield from cont(pos, gs, groups)
        return
    op, av = ops[k]

    def nxt(p, g, gr):
        return m_seq(pr, ops, k + 1, its, p, g, gr, may, flags, cont)

    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        yield from m_char(pr, pr.cset(op, av, flags), its, pos, gs, groups, may, nxt)
    elif op is sc.SUBPATTERN:
        gid, add, dele, sub = av
        fl = (flags | add) & ~dele

        def close(p, g, gr):
            if gid is not None:
                gr = dict(gr)
                gr[gid] = (pos, p)
            return nxt(p, g, gr)
        yield from m_seq(pr, list(sub), 0, its, pos, gs, groups, may, fl, close)
    elif op is sc.BRANCH:
        for b in av[1]:
            yield from m_seq(pr, list(b), 0, its, pos, gs, groups, may, flags, nxt)
    elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        yield from m_rep(pr, list(sub), lo, hi, op is sc.MAX_REPEAT, its, pos, gs, groups, may, flags, nxt, 0)
    elif op in (sc.ASSERT, sc.ASSERT_NOT):
        d, sub = av
        if isinstance(pos, In):
            yield from nxt(pos, gs, groups)
            return
        if d < 0:
            w = sub.getwidth()
            if w[0] != w[1]:
                raise Unsupported('look-behind')
            if may and isinstance(pos, In):
                yield from nxt(pos, gs, groups)
                return
            start = pos - w[0]
            if start < 0 or any(isinstance(its[j], (Hole, Choice)) for j in range(start, pos)):
                if start < 0 and not any(isinstance(its[j], (Hole, Choice)) for j in range(0, pos)):
                    ok = False
                    res = []
                elif may:
                    yield from nxt(pos, gs, groups)
                    return
                else:
                    raise Refine(max(j for j in range(pos) if isinstance(its[j], (Hole, Choice))))
            else:
                res = list(m_seq(pr, list(sub), 0, its, start, (), groups, may, flags,
                                 lambda p, g, gr: iter([(g, p, gr)])))
        else:
            res = list(m_seq(pr, list(sub), 0, its, pos, (), groups, may, flags,
                             lambda p, g, gr: iter([(g, p, gr)])))
        if may:
            if op is sc.ASSERT_NOT or res:
                yield from nxt(pos, gs, groups)
            return
        g = gor([gand(list(r[0])) for r in res])
        if op is sc.ASSERT_NOT:
            g = gnot(g)
        elif res:
            groups = res[0][2]
        if g is not False:
            yield from nxt(pos, gs + ((g,) if g is not True else ()), groups)
    elif op is sc.AT:
        if may or isinstance(pos, In):
            yield from nxt(pos, gs, groups)
            return
        g = m_at(av, its, pos, flags)
        if g is not False:
            yield from nxt(pos, gs + ((g,) if g is not True else ()), groups)
    elif op is sc.GROUPREF:
        if may or isinstance(pos, In):
            yield from nxt(pos, gs, groups)
            return
        if av not in groups:
            return
        b, e = groups[av]
        from .strs import eqg
        want = its[b:e]
        if any(isinstance(x, (Hole, Choice)) for x in want + its[pos:pos + len(want)]) or pos + len(want) > len(its):
            if pos + len(want) > len(its):
                return
            raise Unsupported('back-reference')
        g = eqg(mk(want), mk(its[pos:pos + len(want)]))
        if g is not False:
            yield from nxt(pos + len(want), gs + (g,), groups)
    elif op is sc.ATOMIC_GROUP or op is sc.POSSESSIVE_REPEAT:
        raise Unsupported('atomic regex group')
    elif op is sc.GROUPREF_EXISTS:
        raise Unsupported('conditional regex')
    else:
        raise Unsupported('regex op %s' % op)


def m_char(pr, S, its, pos, gs, groups, may, nxt):
    if isinstance(pos, In):
        it = its[pos.i]
        al = it.alpha if isinstance(it, Hole) else it.alpha()
        if ival.inter(al, S):
            yield from nxt(pos, gs, groups)          # stay inside
            yield from nxt(pos.i + 1, gs, groups)    # or leave
        return
    if pos >= len(its):
        return
    it = its[pos]
    if isinstance(it, str):
        if ival.has(S, ord(it)):
            yield from nxt(pos + 1, gs, groups)
        return
    if isinstance(it, Ch):
        d = it.dom
        i = ival.inter(d, S)
        if not i:
            return
        yield from nxt(pos + 1, gs if i == d else gs + (it.isin(S),), groups)
        return
    # abstract part
    al = it.alpha if isinstance(it, Hole) else it.alpha()
    if not may:
        solid = it.min > 0 if isinstance(it, Hole) else all(s for _, s in it.live())
        if solid and not ival.inter(al, S):
            return
        raise Refine(pos)
    if ival.inter(al, S):
        yield from nxt(In(pos), gs, groups)
        yield from nxt(pos + 1, gs, groups)
    if (isinstance(it, Hole) and it.min == 0) or (isinstance(it, Choice) and any(s == '' for _, s in it.live())):
        yield from m_char(pr, S, its, pos + 1, gs, groups, may, nxt)


CLASSES = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)


def run_over(pr, sub, lo, hi, greedy, its, pos, gs, groups, may, flags, nxt, n):
    """A repeated class, part by part: every place where the repetition may end, in order of preference."""
    S = pr.cset(sub[0][0], sub[0][1], flags)
    ends = []                          # (position, guards, kind)
    while True:
        if n >= lo:
            ends.append((pos, gs, 'end'))
        if n >= hi or pos >= len(its):
            break
        it = its[pos]
        if isinstance(it, str):
            if not ival.has(S, ord(it)):
                break
            n += 1
        elif isinstance(it, Ch):
            d = it.dom
            i = ival.inter(d, S)
            if not i:
                break
            if i != d:
                gs = gs + (it.isin(S),)
            n += 1
        else:
            al, mn = (it.alpha, it.min) if isinstance(it, Hole) else (it.alpha(), min(len(s) for _, s in it.live()))
            if hi is sc.MAXREPEAT and n + mn >= lo and ival.inter(al, S) == al:
                # as a whole; it may also end inside the part
                ends.append((pos, gs, 'inside'))
                n = max(lo, n + 1)
            else:
                if n >= lo:
                    ends.pop()
                ends.append((pos, gs, n))
                break
        pos += 1
    for p, g, k in reversed(ends) if greedy else ends:
        if k == 'end':
            yield from nxt(p, g, groups)
        elif k == 'inside':
            if may:
                yield from nxt(In(p), g, groups)
            else:
                # if the rest could match from there, look closer
                for _ in nxt(In(p), g, groups):
                    raise Refine(p)
        else:
            yield from m_rep(pr, sub, lo, hi, greedy, its, p, g, groups, may, flags, nxt, k, False)


def m_rep(pr, sub, lo, hi, greedy, its, pos, gs, groups, may, flags, nxt, n, run=True):
    if run and not isinstance(pos, In) and len(sub) == 1 and sub[0][0] in CLASSES:
        yield from run_over(pr, sub, lo, hi, greedy, its, pos, gs, groups, may, flags, nxt, n)
        return
    may = may or isinstance(pos, In)

    def more():
        if n < hi:
            if may and n > lo + len(its) + 2:
                return

            def again(p, g, gr):
                if not may and p == pos and n >= lo:
                    return iter(())
                if may and n >= lo and same_pos(p, pos):
                    return iter(())
                return m_rep(pr, sub, lo, hi, greedy, its, p, g, gr, may, flags, nxt, n + 1)
            yield from m_seq(pr, sub, 0, its, pos, gs, groups, may, flags, again)
    if n < lo:
        yield from more()
    elif greedy:
        yield from more()
        yield from nxt(pos, gs, groups)
    else:
        yield from nxt(pos, gs, groups)
        yield from more()


def same_pos(p, q):
    if isinstance(p, In) and isinstance(q, In):
        return p.i == q.i
    return not isinstance(p, In) and not isinstance(q, In) and p == q


def m_at(av, its, pos, flags):
    if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        if av is sc.AT_BEGINNING and flags & re.MULTILINE and pos > 0:
            return is_char(its[pos - 1], ((10, 10),))
        return pos == 0
    if av is sc.AT_END_STRING:
        return pos == len(its)
    if av is sc.AT_END:
        if pos == len(its):
            return True
        if flags & re.MULTILINE:
            return is_char(its[pos], ((10, 10),))
        if pos == len(its) - 1:
            return is_char(its[pos], ((10, 10),))
        for j in range(pos, len(its)):
            if isinstance(its[j], (Hole, Choice)):
                raise Refine(j)
        return False
    if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
        W = _word()
        a = is_char(its[pos - 1], W) if pos > 0 else False
        b = is_char(its[pos], W) if pos < len(its) else False
        g = gor([gand([a, gnot(b)]), gand([gnot(a), b])])
        return g if av is sc.AT_BOUNDARY else gnot(g)
    raise Unsupported('regex anchor')


def _word():
    if 'w' not in _SETS:
        _SETS['w'] = ival.of_pattern(('re', 'w'), re.compile(r'\w'))
    return _SETS['w']


def is_char(it, S):
    if isinstance(it, str):
        return ival.has(S, ord(it))
    if isinstance(it, Ch):
        d = it.dom
        i = ival.inter(d, S)
        return False if not i else True if i == d else it.isin(S)
    al = it.alpha if isinstance(it, Hole) else it.alpha()
    if not ival.inter(al, S) and (isinstance(it, Hole) and it.min > 0 or isinstance(it, Choice) and all(s for _, s in it.live())):
        return False
    raise Refine(None)


def _end(p, g, gr):
    yield (g, p, gr)


def expand(it, pr):
    """Make an abstract part concrete enough."""
    if isinstance(it, Hole):
        if not it.nonempty():
            return
        S = pr.charset()
        it.expand()
        return
    S = pr.charset()

    def touched(s):
        return s == '' or any(ival.has(S, ord(c)) for c in s)
    if all(touched(s) for _, s in it.live()):
        it.fork()
    else:
        it.narrow(touched)


def at(pr, its, pos, full=False):
    """First match at pos as (end, groups) or None; forks on guards."""
    def fin(p, g, gr):
        if full:
            if isinstance(p, In):
                return _end(p, g, gr) if True else iter(())
            if p != len(its):
                if any(isinstance(x, (Hole, Choice)) for x in its[p:]):
                    return _end(p, g, gr)
                return iter(())
        return _end(p, g, gr)
    abstract = any(isinstance(x, (Hole, Choice)) for x in its[max(0, pos - 16):])
    if abstract:
        r = next(m_seq(pr, pr.tree, 0, its, pos, (), {}, True, pr.flags, fin), None)
        if r is None:
            return None
    try:
        for g, p, gr in m_seq(pr, pr.tree, 0, its, pos, (), {}, False, pr.flags, fin):
            if full and p != len(its):
                # remaining abstract parts must be empty
                for x in its[p:]:
                    if isinstance(x, (Hole, Choice)):
                        expand(x, pr)
                        raise Refine('done')
            if ctx().branch(gand(list(g))):
                return p, gr
    except Refine as e:
        k = e.args[0] if e.args else None
        if k == 'done':
            raise
        if k is not None:
            it = its[k]
            if k < pos:
                # a look-behind: the last character decides
                if isinstance(it, Choice):
                    it.fork()
                elif it.nonempty():
                    it.peel(end=True)
            elif isinstance(it, Hole) and pr.width <= 4 and k - pos < 4:
                if it.nonempty():
                    it.peel()
            else:
                expand(it, pr)
        else:
            for x in its:
                if isinstance(x, (Hole, Choice)):
                    expand(x, pr)
                    break
        raise Refine('done')
    return None


def inside_may(pr, its, i):
    """Could a match start strictly inside abstract part i?"""
    return next(m_seq(pr, pr.tree, 0, its, In(i), (), {}, True, pr.flags, _end), None) is not None


def _search(pr, its, start):
    pos = start
    n = len(its)
    while pos <= n:
        r = at(pr, its, pos)
        if r is not None:
            return pos, r[0], r[1]
        if pos < n and isinstance(its[pos], (Hole, Choice)):
            if inside_may(pr, its, pos):
                if isinstance(its[pos], Choice) and not ival.inter(its[pos].alpha(), pr.charset()):
                    pass
                else:
                    expand(its[pos], pr)
                    raise Refine('done')
        pos += 1
    return None


def search_pos(x, pr, start=0):
    while True:
        its = items(x)
        try:
            r = _search(pr, its, start)
        except Refine:
            continue
        if r is None:
            return None
        return r[0], r[1], its, r[2]


def find_all(x, pr):
    """All non-overlapping matches as [(begin, end)] with the item list."""
    ms, its = find_all_g(x, pr)
    return [(b, e) for b, e, _ in ms], its


def definite(it):
    """This part has at least one character."""
    if isinstance(it, Hole):
        return it.min > 0
    if isinstance(it, Choice):
        return all(s for _, s in it.live())
    return True


def find_all_g(x, pr, limit=0):
    while True:
        its = items(x)
        out = []
        pos = 0
        last_end = -1
        try:
            while pos <= len(its):
                r = _search(pr, its, pos)
                if r is None:
                    break
                b, e, gr = r
                if e > b and not any(definite(x) for x in its[b:e]):
                    # an empty match counts differently
                    if isinstance(its[b], Hole):
                        its[b].nonempty()
                    else:
                        its[b].narrow(lambda s: s == '')
                    raise Refine('done')
                if b == e and b == last_end:
                    # empty match adjacent to the previous match: Python >= 3.7 allows it only if
                    # it is not at the same position as the previous match end of an empty match
                    if out and out[-1][0] == out[-1][1]:
                        pos = b + 1
                        continue
                out.append((b, e, gr))
                if limit and len(out) >= limit:
                    break
                last_end = e
                if e == b:
                    # next search may start here only for a non-empty match; approximate by moving on
                    pos = e + 1
                else:
                    pos = e
            return out, its
        except Refine:
            continue


class SymMatch:
    def __init__(self, pr, its, b, e, gr, string):
        self.pr = pr
        self._its = its
        self._b = b
        self._e = e
        self._gr = gr
        self.string = string
        self.re = pr.pat

    def __bool__(self):
        return True

    def _span(self, g):
        if isinstance(g, str):
            g = self.pr.names[g]
        if g == 0:
            return self._b, self._e
        if g > self.pr.groups:
            raise IndexError('no such group')
        return self._gr.get(g)

    def group(self, *gs):
        gs = gs or (0,)
        out = []
        for g in gs:
            s = self._span(g)
            out.append(None if s is None else mk(self._its[s[0]:s[1]]))
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        return tuple(default if self._span(i) is None else self.group(i) for i in range(1, self.pr.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._span(n) is None else self.group(n)) for n in self.pr.names}

    def start(self, g=0):
        s = self._span(g)
        return -1 if s is None else length(mk(self._its[:s[0]]))

    def end(self, g=0):
        s = self._span(g)
        return -1 if s is None else length(mk(self._its[:s[1]]))

    def span(self, g=0):
        return self.start(g), self.end(g)

    @property
    def lastindex(self):
        return max(self._gr) if self._gr else None

    def expand(self, tpl):
        return template(self, tpl)


def template(m, tpl):
    parts = []
    ps = sp.parse_template(tpl, m.pr.pat)
    if isinstance(ps, list):
        # 3.12: list alternating literal / group index
        for x in ps:
            if isinstance(x, int):
                v = m.group(x)
                parts += P(v) if v is not None else []
            elif x:
                parts += P(x)
        return mk(parts)
    raise Unsupported('regex template')


def method(pat, name, a, kw):
    """Method `name` of a compiled pattern with a symbolic subject."""
    pr = prog(pat)
    if name in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split'):
        x = a[0] if a else kw['string']
        if len(a) > 1 and name in ('match', 'search', 'fullmatch') and (int(a[1]) != 0 or len(a) > 2):
            raise Unsupported('regex pos argument')
    if name in ('match', 'fullmatch', 'search'):
        ps = P(x)
        if len(ps) == 1 and isinstance(ps[0], Choice):
            f = getattr(pat, name)
            if ps[0].narrow(lambda s: f(s) is not None):
                c = ps[0]
                sp_ = {s: (m.regs) for _, s in c.live() for m in [f(s)]}
                if len(c.live()) > 1:
                    return LazyMatch(pat, f, c)
                return f(c.live()[0][1])
            return None
        if name == 'search':
            r = search_pos(x, pr)
            if r is None:
                return None
            return SymMatch(pr, r[2], r[0], r[1], r[3], x)
        while True:
            its = items(x)
            try:
                r = at(pr, its, 0, full=name == 'fullmatch')
            except Refine:
                continue
            if r is None:
                return None
            return SymMatch(pr, its, 0, r[0], r[1], x)
    if name in ('findall', 'finditer'):
        ms, its = find_all_g(x, pr)
        mo = [SymMatch(pr, its, b, e, g, x) for b, e, g in ms]
        if name == 'finditer':
            return iter(mo)
        if pr.groups == 0:
            return [m.group() for m in mo]
        if pr.groups == 1:
            return ['' if m.group(1) is None else m.group(1) for m in mo]
        return [tuple(m.groups('')) for m in mo]
    if name == 'split':
        lim = int(a[1]) if len(a) > 1 else int(kw.get('maxsplit', 0))
        ms, its = find_all_g(x, pr, lim)
        out = []
        pos = 0
        for b, e, g in ms:
            out.append(mk(its[pos:b]))
            m = SymMatch(pr, its, b, e, g, x)
            out.extend(m.groups())
            pos = e
        out.append(mk(its[pos:]))
        return out
    if name in ('sub', 'subn'):
        repl = a[0] if a else kw['repl']
        x = a[1] if len(a) > 1 else kw['string']
        count = int(a[2]) if len(a) > 2 else int(kw.get('count', 0))
        ps = P(x)
        if len(ps) == 1 and isinstance(ps[0], Choice) and isinstance(repl, str):
            r = map_any(ps[0].live(), lambda s: pat.sub(repl, s, count))
            return r if name == 'sub' else (r, 1)
        ms, its = find_all_g(x, pr, count)
        out = []
        pos = 0
        for b, e, g in ms:
            out += its[pos:b]
            m = SymMatch(pr, its, b, e, g, x)
            if callable(repl):
                v = repl(m)
            elif isinstance(repl, str) and '\\' not in repl:
                v = repl
            elif isinstance(repl, SymStr):
                from .strs import contains
                v = repl if not contains(repl, '\\') else template(m, fork_all(repl))
            else:
                v = template(m, repl)
            out += P(v)
            pos = e
        out += its[pos:]
        r = mk(out)
        return r if name == 'sub' else (r, len(ms))
    raise Unsupported('regex method ' + name)


class LazyMatch:
    """A successful match on one of several concrete strings."""
    def __init__(self, pat, f, c):
        self._f = f
        self._c = c
        self.re = pat

    def __bool__(self):
        return True

    def _alts(self):
        return [(g, self._f(s)) for g, s in self._c.live()]

    def __getattr__(self, name):
        def call(*a, **k):
            return map_any(self._alts(), lambda m: getattr(m, name)(*a, **k))
        return call

    def __getitem__(self, g):
        return map_any(self._alts(), lambda m: m[g])
