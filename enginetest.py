#!/usr/bin/env python3-vt
"""Validates the engine itself: small functions in the style of the code are run symbolically over every text of up
to three characters, and each path's result is compared with Python's for every text the path stands for."""
import ast
import itertools
import multiprocessing
import os
import sys
import z3
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(6000)
from sx import check, core, loader, hooks, ival   # noqa: E402

PRE = '''
import re, string, functools, operator, unicodedata, itertools
from itertools import groupby, zip_longest, chain, accumulate, takewhile, dropwhile
from collections import ChainMap, OrderedDict, defaultdict, namedtuple, Counter, UserDict, deque
from types import MappingProxyType
from dataclasses import dataclass, field
from enum import Enum
from typing import NamedTuple
T = {'a': 'A', 'b': '', '<': 'lt', 'ab': 'AB', '1': 'one'}
U = {'b': 'B', ' ': 'sp', 'a': 'no'}
'''
# each: expression or body over s (a text)
FUNCS = r"""
re.sub(r'<[^>]*>', '!', '<' + s + '>')
re.findall(r'<[^ ]*', s), re.findall(r'[ab1]+', s), re.findall(r'[^<]+?1', s), re.findall(r'(\w+)b', s)
re.match(r'\w*$', s) is None, (re.match(r'(a*)(\w*)(.?)', s) or ['-'])[0], re.fullmatch(r'\S+', s) is None
re.split(r'(\w+)', s), re.sub(r'(\w+)', r'[\1]', s), re.sub(r'\w*', 'x', s), re.sub(r'\w+?', 'x', s)
re.search(r'\w{2,}', s) is None, re.search(r'\S*1', s) is None, re.search(r'(?:\w|<)+', s) is None
re.findall(r'\b\w+\b', s), re.findall(r'\w+(?= )', s), re.findall(r'(\S)\S*\1', s)
s.strip()
s.strip('a ')
s.lstrip()
s.rstrip('b1')
s.split()
s.split(' ')
s.split('a', 1)
s.split(maxsplit=1)
s.split('a', maxsplit=1)
s.rsplit('b', 1)
s.rsplit(None, 1)
s.partition('a')
s.rpartition('a')
s.partition('ab')
s.replace('a', 'xy')
s.replace('a', '')
s.replace('ab', 'q', 1)
'x@y@'.replace('@', s)
'x@y@'.replace('@', s, 1)
s.replace('a', s)
s.find('a')
s.find('a', 1)
s.find('a', 1, 2)
s.find('a', -2)
s.rfind('a')
s.rfind('a', 0, 2)
s.rfind('b', 1)
s.rfind('ab')
s.count('a')
s.count('a', 1)
s.index('a') if 'a' in s else -1
s.rindex('a') if 'a' in s else -1
s.startswith('a')
s.startswith(('a', 'b'))
s.startswith('a', 1)
s.endswith('b')
s.endswith(('b', ' '))
s.removeprefix('a')
s.removesuffix('b')
s.upper()
s.lower()
s.title()
s.capitalize()
s.swapcase()
s.casefold()
s.isalpha()
s.isdigit()
s.isalnum()
s.isspace()
s.isupper()
s.islower()
s.isascii()
s.isidentifier()
s.isnumeric()
s.isdecimal()
s.isprintable()
s.zfill(4)
s.center(5)
s.ljust(4, '.')
s.rjust(4, '.')
s.splitlines()
s.expandtabs()
s.encode()
s.translate({97: 'x', 98: None})
s.translate(str.maketrans('ab', 'xy'))
s.translate(str.maketrans({'a': 'AA', '<': None, '1': 49}))
s.translate(str.maketrans('a', 'b', '<'))
s.join(['x', 'y', 'z'])
'-'.join(s)
'-'.join(reversed(s))
''.join(c for c in s if c != 'a')
''.join([c if c.isalpha() else '.' for c in s])
''.join(map(str.upper, s))
''.join(map(lambda c: T.get(c, c), s))
''.join(filter(str.isalpha, s))
''.join(sorted(s))
''.join(dict.fromkeys(s))
len(s)
len(s) > 1
len(set(s))
bool(s)
not s
s or 'none'
s and 'some'
s == 'ab'
s != 'a'
s < 'b'
s >= 'a1'
'a' < s < 'c'
s in ('a', 'ab', '1')
s in ['a', 'b b']
s in {'a', 'b'}
s in T
s in 'xabx'
'a' in s
'ab' in s
s not in T
s in T.keys()
s in T.values()
s[0] if s else ''
s[-1:]
s[1:]
s[:-1]
s[::-1]
s[::2]
s[1:3]
s[-2:-1]
s[:1] + '|' + s[1:]
s * 2
s + s
'<' + s + '>'
s % () if '%' not in s else ''
'%s-%s' % (s, len(s))
'%(x)s' % {'x': s}
'{}|{!s}'.format(s, s)
'{0}{1}{0}'.format(s, 'x')
'{x}'.format(x=s)
'{:>4}'.format(s)
f'{s:4}|'
f'{s!r}'
f'{len(s)}{s}'
'{a}{b}'.format_map({'a': s, 'b': 1})
string.Template('$x y').substitute(x=s)
string.capwords(s)
T.get(s)
T.get(s, s)
T.get(s) or U.get(s) or s
T[s] if s in T else U.get(s, '?')
(T | U).get(s, '')
{**T, **U}.get(s, '')
ChainMap(T, U).get(s, 'none')
ChainMap(T, U)[s] if s in ChainMap(T, U) else ''
MappingProxyType(T).get(s, 'm')
OrderedDict(T).get(s, 'o')
UserDict(T).get(s, 'u')
defaultdict(lambda: 'dd', T)[s]
next((v for k, v in T.items() if k == s), 'nx')
next(filter(None, (d.get(s) for d in (T, U))), s)
[k for k in T if k in s]
{s: 1}.get('a', 0)
{c: i for i, c in enumerate(s)}.get('a', -1)
dict([(s, 1)]).get('ab', 0)
dict(zip(s, range(3))).get('b', -1)
re.match('a', s) is not None
bool(re.match(r'^[a-z0-9]$', s))
bool(re.fullmatch(r'[ab]+', s))
bool(re.search(r'\s', s))
bool(re.search(r'\s+$', s))
re.sub('a', 'xy', s)
re.sub(r'[ab]+', '-', s)
re.sub(r'(a)(b)', r'\2\1', s)
re.sub(r'(?P<q>[ab])1', r'<\g<q>>', s)
re.sub(r'[ab<]', lambda m: T[m.group()] or '_', s)
re.sub(r'a|b', lambda m: str(m.start()), s)
re.sub(r'\s+', ' ', s).strip()
re.sub(r'a', 'x', s, count=1)
re.sub('a*', '-', s)
re.subn('a', 'b', s)
re.split('a', s)
re.split(r'[a ]', s, maxsplit=1)
re.split(r'(a)', s)
re.split(r'\s+', s)
re.findall('[ab]', s)
re.findall('[ab]+|.', s)
re.findall('(a)(b)?', s)
[m.group() for m in re.finditer('[a-z]+', s)]
[m.span() for m in re.finditer('b', s)]
re.findall(r'\w+|[^\w]', s)
re.sub(r'(?<=a)b', 'X', s)
re.sub(r'a(?=b)', 'X', s)
re.sub(r'a(?!b)', 'X', s)
re.sub(r'\ba', 'X', s)
re.sub('A', 'x', s, flags=re.I)
re.escape(s)
re.compile('a').sub(operator.methodcaller('group'), s)
re.sub('|'.join(map(re.escape, T)), lambda m: T[m[0]], s)
re.match(r'(a)?(b)?', s).groups()
re.match(r'(?P<x>a*)(?P<y>.*)', s).groupdict()
re.match(r'a*', s).end()
[(k, ''.join(g)) for k, g in groupby(s, str.isalpha)]
[''.join(g) for k, g in groupby(s, key=lambda c: c.isalpha() or c == ' ')]
[len(list(g)) for _, g in groupby(s)]
list(zip(s, s[1:]))
list(zip_longest(s[0::2], s[1::2], fillvalue=''))
list(enumerate(s))
list(chain(s, 'x'))
''.join(takewhile(str.isalpha, s))
''.join(dropwhile(str.isspace, s))
list(accumulate(s))
list(map(ord, s))
sum(map(len, s.split()))
sum(c == 'a' for c in s)
any(c == 'a' for c in s)
all(c.isalpha() for c in s)
max(map(len, s.split(' ')))
max(len(s), 2)
min(s) if s else ''
functools.reduce(lambda x, y: y + x, s, '')
functools.reduce(lambda t, k: t.replace(k, T[k]), T, s)
functools.partial(str.replace, s)('a', 'b')
operator.itemgetter(0)(s + 'x')
operator.add(s, 'q')
operator.eq(s, 'a')
str(s) == s
isinstance(s, str)
type(s) is str
type(s) == str
hash(s) == hash('' + s)
s is None
list(s)
tuple(s)
[*s]
[c for c in s][::-1]
(lambda first='', *rest: (first, rest))(*s)
repr(s)
ord(s[0]) if s else 0
chr(ord(s[0]) + 1) if s else ''
ord(s[:1] or 'q') > 96
s.__len__()
s.__contains__('a')
s.__add__('x')
s.__eq__('a')
str.join('-', s)
str.strip(s)
str.__contains__(s, 'a')
unicodedata.normalize('NFKC', s)
[unicodedata.category(c) for c in s]
int(s) if s.isdigit() and s.isascii() else 0
bytes(s, 'utf-8')
s.encode('utf-8').decode()
Counter(s)['a']
deque(s, maxlen=2)[0] if s else ''
sorted(set(s))
''.join(c for i, c in enumerate(s) if s.index(c) == i)
' '.join(filter(None, s.split(' ')))
' '.join(p for p in s.split('a') if p.strip())
"".join([T.get(c) or c for c in s])
"".join("\\" + c if c in "<1" else c for c in s)
getattr(s, 'upper')()
{'strip': s.strip, 'lower': s.lower}['strip']()
callable(s.strip)
(s[0] == 'a', s[-1] == 'b') if s else None
s[0].isalpha() and s[-1].isalpha() if s else False
s == s.strip()
s == s[::-1]
len(s.strip()) == len(s)
len(s) - len(s.lstrip())
s[len(s) // 2:]
s[:len(s) - 1]
s[len(s) - 1:]
1 if s > '' else 2
'a' if s == '' else 'b' if s == 'a' else s
[s, s][len(s) > 1]
('x', 'y')[s == 'a']
s.split('a')[0]
s.split('a')[-1]
len(s.split('a')) - 1
"a b".split(s or ' ')
"xaxb".split(s or ' ', 1)
"aab".count(s or 'z')
"aab".find(s or 'z')
"aab".startswith(s)
"aab".endswith(s)
"aab".partition(s or 'z')
"aab".strip(s)
"aab".replace(s or 'z', '-')
"{}".format(s) + "%s" % s
""" + '\n'


BODIES = r"""
d = {'a': 1}
for c in s:
    d[c] = d.get(c, 0) + 1
d['z'] = 9
return [(k, d[k]) for k in d], list(d), sorted(d), [k for k in d], dict(d) == d.copy(), len(d)
---
d = {}
for c in s:
    d.setdefault(c, []).append(1)
d.update({'b': 3})
e = {**d, 'q': 1}
out = []
for k in e:
    out.append(k)
return out, list(d.items()), list(d.values()), list(d.keys()), any(k == 'a' for k in d)
---
return [c for c in s if 'a' <= c <= 'z'], s < 'ab', s >= 'b', 'a' > s, 'b' <= s
---
return {('a', 'b'): 1, ('1', ' '): 2, ('<', '<'): 3}.get((s[:1], s[1:2]), 0), (s[:1], s[1:]) in {('a', 'b'), ('1', '')}
---
d = {}
for i in range(len(s)):
    d[s[i], i % 2] = i
return d.get(('a', 0)), len(d)
---
class E(Enum):
    A = 'a'
    AB = 'ab'
try:
    return E(s).name
except ValueError:
    return 'none'
---
try:
    return int(s) + 1
except ValueError:
    return -1
---
d = defaultdict(lambda: 'zz', a='A')
return [d[c] for c in s], d[s]
---
return [unicodedata.category(c) for c in s], [unicodedata.combining(c) for c in s]
---
return any(c.isspace() for c in s), all(c.isalpha() or c == '1' for c in s), any(c in 'b<' for c in s if c != 'a')
---
return all(T.get(c, c) == c for c in s), any(not c.isalnum() and c != ' ' for c in s)
---
return ''.join(T.get(c, c) for c in s), ''.join(c for c in s if not c.isspace()), ''.join([c if c not in '<' else '&lt;' for c in s])
---
return ''.join('\\' + c if c in '<1' else c for c in s if c != 'b')
---
return ','.join(c for c in s), any([c == 'a' for c in s])
---
def esc(c):
    if c in T:
        return T[c]
    return c
return ''.join(esc(c) for c in s), ''.join(map(esc, s))
---
n = 0
def tick(c):
    nonlocal n
    n += 1
    return c == 'b'
r = any(tick(c) for c in 'aab')
return r, n
---
out = ''
i = 0
while i < len(s):
    if s[i] == 'a':
        i += 1
        continue
    out += s[i]
    i += 1
return out
---
match s:
    case '':
        return 'empty'
    case 'a' | 'b':
        return 'one'
    case x if len(x) > 2:
        return x
    case _:
        return 'other'
---
match (s[:1], len(s)):
    case ('a', n):
        return n
    case (c, 2):
        return c
    case _:
        return None
---
acc = []
for c in s:
    if acc and acc[-1] == c:
        acc[-1] = acc[-1] + '!'
    else:
        acc.append(c)
return ''.join(acc)
---
try:
    return T[s]
except KeyError:
    return 'missing'
---
try:
    return s.index('a')
except ValueError as e:
    return -1
---
try:
    return int(s)
except ValueError:
    return 'no'
---
d = {}
for c in s:
    d[c] = d.get(c, 0) + 1
return d.get('a', 0), len(d)
---
d = {}
for c in s:
    d.setdefault(c, []).append(1)
return [len(v) for v in d.values()]
---
seen = set()
out = []
for c in s:
    if c in seen:
        continue
    seen.add(c)
    out.append(c)
return out
---
if (m := re.match(r'([a-z])\s*(.*)', s)):
    a, b = m.groups()
    return b + a
return 'no'
---
first, *rest = s or 'q'
return first, rest
---
head, sep, tail = s.partition(' ')
return tail if sep else head
---
def gen():
    for c in s:
        if c == ' ':
            return
        yield c.upper()
return list(gen())
---
class K(dict):
    def __missing__(self, k):
        return '<' + k + '>'
return K(T)[s]
---
class K(dict):
    def __getitem__(self, k):
        return dict.get(self, k.strip(), 'none')
return K(T)[s]
---
class K(str):
    pass
return K(s).upper()
---
@dataclass
class P:
    x: str
    y: str = ''
return P(s, 'a') == P('a', 'a'), P(s).x
---
class P(NamedTuple):
    x: str
    y: int = 0
p = P(s)
return p.x, p._replace(y=1).y
---
class E(Enum):
    A = 'a'
    B = 'b'
try:
    return E(s).name
except ValueError:
    return ''
---
stack = []
for c in s:
    if c == '<':
        stack.append(c)
    elif stack:
        stack.pop()
return len(stack)
---
it = iter(s)
out = []
for c in it:
    n = next(it, None)
    out.append((c, n))
return out
---
start = 0
out = []
for i, c in enumerate(s + ' '):
    if c == ' ':
        if i > start:
            out.append(s[start:i])
        start = i + 1
return out
---
@functools.lru_cache(maxsize=None)
def f(x):
    return x + '!'
return f(s) + f('a')
---
@functools.singledispatch
def f(x):
    return 'obj'
@f.register
def _(x: str):
    return 'str'
return f(s)
---
assert isinstance(s, str), 'x'
n = len(s)
return 'even' if n % 2 == 0 else 'odd'
---
out = []
for i in range(len(s)):
    out.append(s[i] if s[i] != ' ' else '_')
return ''.join(out)
---
for k, v in T.items():
    if s == k:
        return v
else:
    return 'none'
---
x = y = s
x += 'a'
return x, y
---
return [(i, c) for i, c in enumerate(s, 1) if c not in ('a', 'b')]
---
return {c.upper() for c in s} == {'A'}
---
return s.strip().__class__.__name__
---
t = [s, 'b', 'a']
t.sort()
return t
---
return sorted([s, 'ab'], key=len)
---
return max(s, 'a1', key=len)
---
t = ['a', s]
return t.index('a'), t.count('a'), s in t, t == ['a', 'a']
---
return (s, 1) == ('a', 1), [s] == ['a'], {'k': s} == {'k': 'a'}
---
return (s, 1) in {('a', 1): 2}
---
return {('a', 'b'): 'ab', ('1', 'b'): '1b'}.get((s, 'b'), 'none')
---
return frozenset(s) <= frozenset('ab')
---
return set(s) & {'a', '1'} != set()
---
return set(s).issubset('ab'), set('a').isdisjoint(s)
"""


def functions():
    out = []
    for l in FUNCS.strip().split('\n'):
        if l.strip():
            out.append((l, 'return ' + l))
    for b in BODIES.strip('\n').split('\n---\n'):
        out.append((b, b))
    return out


ALPHA = 'ab <1'


def compiled(body, sym):
    src = PRE + 'def f(s):\n' + '\n'.join('    ' + l for l in body.split('\n')) + '\n'
    tree = ast.parse(src)
    g = {'__name__': 'x'}
    if sym:
        tree = ast.fix_missing_locations(loader.Tr('x').visit(tree))
        hooks.mkslice = loader.mkslice
        g['__sx__'] = hooks
    exec(compile(tree, '<t>', 'exec'), g)
    return g['f']


def flatten(v):
    """The symbolic leaves of a result."""
    return v


def evaluate(m, v):
    if isinstance(v, (str, int, bool, type(None), float, bytes)):
        return v
    if isinstance(v, strs.ObjChoice):
        for g, o in v._alts:
            if g is True or z3.is_true(m.eval(core.gz(g), model_completion=True)):
                return evaluate(m, o)
    if isinstance(v, (list, tuple)):
        return type(v)([evaluate(m, x) for x in v])
    if isinstance(v, dict):
        e = {evaluate(m, k): evaluate(m, x) for k, x in v.items()}
        for k, x in hooks.side(v) or ():
            e[evaluate(m, k)] = evaluate(m, x)
        return e
    if isinstance(v, strs.SymBytes):
        return check.ev(m, v.s).encode()
    return check.ev(m, v)


from sx import strs   # noqa: E402


def mkhole(h, c):
    x = strs.Hole('h', ival.of_str(ALPHA.replace(' ', '')), 0)
    c.assume_z(x.len <= 2)
    ends = [strs.mkchoice([(k == i, t) for i, t in enumerate(ts)]) for k, ts in
            ((z3.Int('k0'), ('', 'a', ' ')), (z3.Int('k1'), ('', 'b', ' ')))]
    for n in ('k0', 'k1'):
        c.assume_z(z3.And(z3.Int(n) >= 0, z3.Int(n) <= 2))
    return strs.mk([ends[0], x, ends[1]])


def one(job):
    name, body, mode = job
    f, real = compiled(body, True), compiled(body, False)
    if mode == 'hole':
        name += '   (with a hole)'
    todo = {''.join(t) for n in range(4) for t in itertools.product(ALPHA, repeat=n)}
    if mode == 'hole':
        todo = {a + ''.join(t) + b for n in range(3) for t in itertools.product(ALPHA.replace(' ', ''), repeat=n)
                for a in ('', 'a', ' ') for b in ('', 'b', ' ')}
    seen = {}
    bad = []

    def body_(c):
        h = check.SymH(c, 'quick')
        if mode == 'hole':
            s = mkhole(h, c)
        else:
            s = h.text('s', ival.of_str(ALPHA), 0, 3)
        try:
            r = ('ok', f(s))
        except core.PathEnd:
            raise
        except (core.Unsupported, core.Budget):
            raise
        except Exception as e:
            r = (type(e).__name__, None)
        if mode == 'hole':
            s = strs.mk(strs.chars(s))
        # every text of this path
        while True:
            if c.sat() != 'sat':
                break
            m = c.last_model
            t = check.ev(m, s)
            try:
                got = (r[0], evaluate(m, r[1]))
            except Exception as e:
                got = ('evaluation', repr(e))
            try:
                want = ('ok', real(t))
            except Exception as e:
                want = (type(e).__name__, None)
            seen[t] = seen.get(t, 0) + 1
            if got != want:
                bad.append((t, got, want))
                break
            if isinstance(s, str):
                break
            c.assume(core.gnot(strs.eqg(s, t)))
            c.model = None
    ex = core.Explorer(body_, 1e18)
    ex.known, ex.known_hit, ex.on_failure = set(), set(), None
    kinds = {}

    def done(c, r):
        k = r if isinstance(r, str) else r[0]
        kinds[k] = kinds.get(k, 0) + 1
    try:
        ex.run(done)
    except Exception as e:
        import traceback
        return name, 'engine error: %s' % traceback.format_exc()[-300:], 0
    miss = todo - set(seen)
    if bad:
        return name, 'DIFFERS %r' % (bad[0],), len(seen)
    if miss or mode != 'hole' and any(v != 1 for v in seen.values()):
        return name, 'paths %r, %d texts missing, e.g. %r' % (kinds, len(miss), sorted(miss)[:2]), len(seen)
    return name, 'ok', ex.stats['paths']


def main():
    fs = functions()
    only = sys.argv[1] if len(sys.argv) > 1 else ''
    fs = [f + (mode,) for f in fs if only in f[0] for mode in ('chars', 'hole')]
    bad = 0
    with multiprocessing.Pool(8, maxtasksperchild=20) as p:
        for name, res, n in p.imap(one, fs):
            if res == 'ok' and n > (100 if '(with a hole)' not in name else 300):
                print('%s\n   %d paths' % (name, n))
            if res != 'ok':
                bad += 1
                print('%s\n   %s' % (name, res))
    print('%d functions, %d wrong' % (len(fs), bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
