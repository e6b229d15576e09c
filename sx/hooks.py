"""Run-time hooks the instrumented code calls. With concrete arguments they do exactly what the
original expression did."""
import builtins
import collections
import enum
import functools
import itertools
import operator
import re
import string as _string
import sys
import types
from . import core, strs, rex
from .core import SymBool, SymInt, Unsupported, gor, gand, mkbool, ctx, PathEnd
from .strs import SymStr, ObjChoice, Choice, Ch, issym, mk, P, SymBytes, fork_all, lookup_alts, map_any, merge_objs

_BUILTIN_METHOD = type('x'.upper)
_METHOD_DESCR = type(str.upper)
_LRU = type(functools.lru_cache(lambda: 0))

ENTERED = {}
ENTER_CB = None


def enter(name, switch=True):
    ENTERED[name] = ENTERED.get(name, 0) + 1
    if ENTER_CB is not None and switch:
        ENTER_CB(name)


STMT_CB = None


def stmt():
    if STMT_CB is not None:
        STMT_CB()


def anysym(a, k):
    for v in a:
        if isinstance(v, (SymStr, SymInt, SymBool, ObjChoice, SymBytes)):
            return True
    for v in k.values():
        if isinstance(v, (SymStr, SymInt, SymBool, ObjChoice, SymBytes)):
            return True
    return False


SIDE = {}          # id(dict) -> (dict, [(symbolic key, value)])


def reset():
    SIDE.clear()
    LRU.clear()


LRU = {}


def side(d):
    e = SIDE.get(id(d))
    return e[1] if e is not None and e[0] is d else None


def over(f, elt, it, cond, eager):
    """f(elt(x) for x in it if cond(x)), f being any, all or a join"""
    if isinstance(it, SymStr) and STMT_CB is None and ENTER_CB is None:
        try:
            if f is any or f is all:
                g = elt
                if cond is not None:
                    g = lambda x: elt(x) if cond(x) else f is all
                return strs.quantify(it, g, f is all)
            if getattr(f, '__self__', None) == '' and getattr(f, '__name__', '') == 'join':
                return strs.join_map(it, elt if cond is None else lambda x: elt(x) if cond(x) else None)
        except strs.ProbeFail:
            pass
    g = (elt(x) for x in keys(it) if cond is None or cond(x))
    return call(f, list(g) if eager else g)


def fork_key(k):
    if isinstance(k, tuple):
        return tuple(fork_key(x) for x in k)
    return fork_all(k) if isinstance(k, SymStr) else k.fork() if isinstance(k, ObjChoice) else k


def keys(d):
    """What iterating gives: the keys of a dictionary, symbolic ones included."""
    sd = side(d) if isinstance(d, dict) and SIDE else None
    return list(d) + [k for k, _ in sd] if sd else d


def symtuple(k):
    return isinstance(k, tuple) and any(issym(x) or symtuple(x) for x in k)


def symkey(k):
    return isinstance(k, (SymStr, ObjChoice)) or symtuple(k)


def same(a, b):
    """Guard: two keys are equal."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return gand([same(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return strs.eqg(a, b)
    return core.guard(a == b)


def key_alts(keys, k):
    if isinstance(k, tuple):
        gs = [(same(k, s), s) for s in list(keys) if isinstance(s, tuple)]
        return [(g, s) for g, s in gs if core.mkbool(g) is not False]
    return lookup_alts(keys, k)


# -- calls ----------------------------------------------------------------------------------------
def call(f, /, *a, **k):
    # objects standing for a finite choice of callables
    if isinstance(f, ObjChoice):
        f = f.fork()
    tf = type(f)
    if SIDE and tf in (type, _BUILTIN_METHOD) and f in FLAT:
        a = tuple(keys(x) for x in a)
    if tf is _BUILTIN_METHOD or isinstance(f, _BUILTIN_METHOD):
        o = getattr(f, '__self__', None)
        if o is not None and not isinstance(o, types.ModuleType):
            return method(o, f, a, k)
        return builtin(f, a, k)
    if tf is _METHOD_DESCR:
        own = getattr(f, '__objclass__', None)
        if own is str and a and (isinstance(a[0], SymStr) or anysym(a, k)):
            return strs.method_call(a[0], f.__name__, a[1:], k)
        if own is dict and a:
            return method(a[0], getattr(a[0], f.__name__), a[1:], k)
        return f(*a, **k)
    if tf is type or tf is enum.EnumMeta:
        return typecall(f, a, k)
    if f in HOOKED if tf is types.FunctionType else False:
        return HOOKED[f](*a, **k)
    if tf is types.FunctionType and a and hasattr(f, 'registry') and hasattr(f, 'dispatch') and issym(a[0]):
        if isinstance(a[0], ObjChoice):
            a = (a[0].fork(),) + a[1:]
        return call(f.dispatch(typecall(type, a[:1], {})), *a, **k)
    if tf is _LRU:
        return lru(f, a, k)
    if tf is types.MethodType and isinstance(f.__self__, (collections.ChainMap, collections.UserDict)) and a:
        r = mapping_method(f, a, k)
        if r is not NotImplemented:
            return r
    if tf is types.MethodWrapperType and isinstance(f.__self__, dict) and (anysym(a, k) or side(f.__self__)):
        return plain_method(f.__self__, f, a, k)
    if tf is types.WrapperDescriptorType and a and isinstance(a[0], SymStr) and f.__objclass__ is str:
        return contains(a[1], a[0]) if f.__name__ == '__contains__' else getattr(a[0], f.__name__)(*a[1:], **k)
    if tf is types.MethodWrapperType and isinstance(f.__self__, str) and f.__name__ == '__contains__':
        return contains(a[0], f.__self__)
    if tf is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if tf is operator.itemgetter and anysym(a, k):
        key = f.__reduce__()[1]
        return getitem(a[0], key[0]) if len(key) == 1 else tuple(getitem(a[0], q) for q in key)
    return f(*a, **k)


FLAT = {list, tuple, set, frozenset, sorted, any, all, sum, min, max, iter, enumerate, zip, map, filter, reversed,
        itertools.chain, functools.reduce}


def mapping_method(f, a, k):
    """Methods of the mappings the standard library writes in Python."""
    o, name = f.__self__, f.__name__
    cls = collections.ChainMap if isinstance(o, collections.ChainMap) else collections.UserDict
    if getattr(type(o), name, None) is not getattr(cls, name, None) or not isinstance(a[0], (SymStr, ObjChoice)):
        return NotImplemented
    if name == 'get' and type(o).__getitem__ is cls.__getitem__ and type(o).__contains__ is cls.__contains__:
        for m in o.maps if cls is collections.ChainMap else [o.data]:
            if contains(a[0], m):
                return getitem(m, a[0])
        return a[1] if len(a) > 1 else k.get('default')
    if name == '__getitem__':
        return getitem(o, a[0])
    if name == '__contains__':
        return contains(a[0], o)
    return NotImplemented


def own(o, name):
    """Whether a dict has its own Python version of a method."""
    return type(o) is not dict and isinstance(getattr(type(o), name, None), types.FunctionType)


def plain_method(o, f, a, k):
    name = f.__name__
    if name == '__getitem__':
        return dict_get(o, a[0], None, True)
    if name == '__contains__':
        return dict_has(o, a[0])
    if name == '__setitem__':
        return setitem(o, a[0], a[1], True)
    return f(*a, **k)


def lru(f, a, k):
    if not hasattr(f, '__wrapped__'):
        return f(*a, **k)
    ent = LRU.setdefault(id(f), (f, []))[1]
    key = tuple(a) + tuple(sorted(k.items()))
    for kk, v in ent:
        if len(kk) != len(key):
            continue
        same = True
        for x, y in zip(kk, key):
            if x is y:
                continue
            if isinstance(x, (str, SymStr)) != isinstance(y, (str, SymStr)):
                same = False
                break
            if not (x == y):
                same = False
                break
        if same:
            return v
    v = f.__wrapped__(*a, **k)
    mx = f.cache_parameters()['maxsize']
    ent.append((key, v))
    if mx is not None and len(ent) > mx:
        ent.pop(0)
    return v


def method(o, f, a, k):
    """Bound method of a builtin object."""
    name = f.__name__
    if isinstance(o, str):
        if name == 'join':
            seq = list(a[0])
            if any(not isinstance(v, str) for v in seq):
                return strs.method_call(o, 'join', (seq,), {})
            return o.join(seq)
        if name == 'format' and anysym(a, k):
            return str_format(o, a, k)
        if name == 'format_map' and isinstance(a[0], dict) and anysym((), a[0]):
            return str_format(o, (), a[0])
        if anysym(a, k) or any(isinstance(v, tuple) and any(map(issym, v)) for v in a):
            return strs.method_call(o, name, a, k)
        return f(*a, **k)
    if isinstance(o, (dict, types.MappingProxyType)):
        sd = side(o)
        if a and symkey(a[0]) or sd:
            if name == 'get':
                return dict_get(o, a[0], a[1] if len(a) > 1 else k.get('default'), False)
            if name == '__getitem__':
                return dict_get(o, a[0], None, True)
            if name == '__contains__':
                return dict_has(o, a[0])
            if name == 'pop':
                v = dict_has(o, a[0])
                if v:
                    return f(fork_key(a[0]), *a[1:])
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            if name == 'setdefault':
                if dict_has(o, a[0]):
                    return dict_get(o, a[0], None, True)
                setitem(o, a[0], a[1] if len(a) > 1 else None)
                return a[1] if len(a) > 1 else None
            if name == '__setitem__':
                return setitem(o, a[0], a[1])
            if name == 'clear' and sd:
                sd.clear()
                return f()
            if sd and name in ('keys', 'values', 'items', '__len__', '__iter__', 'popitem', 'copy'):
                extra = [(x, v) for x, v in sd]
                if name == 'keys':
                    return list(o.keys()) + [x for x, _ in extra]
                if name == 'values':
                    return list(o.values()) + [v for _, v in extra]
                if name == 'items':
                    return list(o.items()) + extra
                if name == '__len__':
                    return len(o) + len(extra)
                if name == 'copy':
                    return typecall(dict, (o,), {})
                if name == '__iter__':
                    return iter(keys(o))
                raise Unsupported('dict method with symbolic keys: ' + name)
            if name == 'update':
                for x in a:
                    for kk in keys(x) if isinstance(x, dict) else [p[0] for p in x]:
                        setitem(o, kk, getitem(x, kk) if isinstance(x, dict) else dict(x)[kk])
                for kk in k:
                    setitem(o, kk, k[kk])
                return None
        return f(*a, **k)
    if isinstance(o, (set, frozenset)):
        if a and (isinstance(a[0], SymStr) or symtuple(a[0])):
            if name == '__contains__':
                return contains(a[0], o)
            return f(fork_key(a[0]), *a[1:], **k)
        return f(*a, **k)
    if isinstance(o, re.Pattern):
        sub = a[1] if name in ('sub', 'subn') and len(a) > 1 else k.get('string', a[0] if a else None)
        if anysym(a, k):
            return rex.method(o, name, a, k)
        return f(*a, **k)
    if isinstance(o, (list, tuple)) and name in ('index', 'count', 'remove', '__contains__') and a:
        if isinstance(a[0], SymStr) or any(map(issym, o)):
            if name == '__contains__':
                return contains(a[0], o)
            for i, v in enumerate(list(o)):
                if v == a[0]:
                    if name == 'index':
                        return i
                    if name == 'remove':
                        del o[i]
                        return None
            if name == 'count':
                return sum(1 for v in o if v == a[0])
            raise ValueError('not in list')
    return f(*a, **k)


def b_len(x):
    if isinstance(x, SymStr):
        return strs.length(x)
    if isinstance(x, ObjChoice):
        return map_any(x._alts, len)
    if isinstance(x, dict) and side(x):
        return len(x) + len(side(x))
    return len(x)


def b_isinstance(x, t):
    if isinstance(x, (SymStr, SymInt, SymBool)):
        ts = t if isinstance(t, tuple) else getattr(t, '__args__', (t,)) if isinstance(t, types.UnionType) else (t,)
        real = str if isinstance(x, SymStr) else int if isinstance(x, SymInt) else bool
        return any(isinstance(y, type) and issubclass(real, y) for y in ts)
    if isinstance(x, ObjChoice):
        return mkbool(gor([g for g, o in x._alts if isinstance(o, t)]))
    return isinstance(x, t)


def b_any(it):
    # keep Python's short circuit order: items already computed may be symbolic
    for v in it:
        if v:
            return True
    return False


def b_all(it):
    for v in it:
        if not v:
            return False
    return True


def b_getattr(o, n, *d):
    if isinstance(n, SymStr):
        n = fork_all(n)
    return getattr(o, n, *d)


def b_ord(x):
    if isinstance(x, SymStr):
        ps = P(x)
        if len(ps) == 1 and isinstance(ps[0], Ch):
            return core.mkint(ps[0].expr)
        if len(ps) == 1 and isinstance(ps[0], Choice):
            return map_any(ps[0].live(), ord)
        return ord(fork_all(x))
    return ord(x)


def b_chr(x):
    if isinstance(x, SymInt):
        c = ctx()
        if core.z3.is_const(x.e) and x.e.decl().name() in c.dom:
            n = x.e.decl().name()
            h = Ch.__new__(Ch)
            h.name = n
            h.expr = x.e
            return mk([h])
        iv = tuple(core.ival.XMLCHAR)
        h = Ch(c.fresh('chr'), core.ival.ALL)
        c.assume_z(h.expr == x.e)
        return mk([h])
    return chr(x)


def b_minmax(f, a, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if k.get('key') is not None:
        g = k['key']
        k = {**k, 'key': lambda x: call(g, x)}
    if any(isinstance(v, SymInt) for v in xs) and not k:
        r = xs[0]
        for v in xs[1:]:
            c = core.iz(v) < core.iz(r) if f is min else core.iz(v) > core.iz(r)
            r = core.mkint(core.z3.If(c, core.iz(v), core.iz(r)))
        return r
    return f(xs, **k)


def b_sum(it, start=0):
    for v in it:
        start = start + v
    return start


def b_print(*a, **k):
    return None


def b_iter_call(f, a, k):
    """map/filter/sorted/min/max with builtin callables over symbolic items."""
    if f is map:
        g = a[0]
        return map(lambda *x: call(g, *x), *a[1:])
    if f is filter:
        g = a[0]
        return filter((lambda x: call(g, x)) if g is not None else None, *a[1:])


def builtin(f, a, k):
    if f is len:
        return b_len(*a)
    if f is isinstance:
        return b_isinstance(*a)
    if f is any:
        return b_any(*a)
    if f is all:
        return b_all(*a)
    if f is getattr:
        return b_getattr(*a)
    if f is print:
        return b_print()
    if f is ord:
        return b_ord(*a)
    if f is chr:
        return b_chr(*a)
    if f is sum:
        return b_sum(*a, **k)
    if f is min or f is max:
        return b_minmax(f, a, k)
    if f is hash and isinstance(a[0], SymStr):
        return hash(fork_all(a[0]))
    if f is repr and a and isinstance(a[0], SymStr):
        return generic_repr(a[0])
    if f is format and a and isinstance(a[0], (SymStr, SymInt)):
        return fmt_value(a[0], a[1] if len(a) > 1 else '')
    if f is callable:
        return callable(*a)
    if f is sorted and a:
        if k.get('key') is not None:
            g = k['key']
            k = dict(k)
            k['key'] = lambda x: call(g, x)
        return sorted(*a, **k)
    if f is functools.reduce:
        g = a[0]
        return functools.reduce(lambda x, y: call(g, x, y), *a[1:])
    if f is operator.contains:
        return contains(a[1], a[0])
    if f is operator.getitem:
        return getitem(*a)
    if f is sys.intern:
        return a[0]
    if f in UNI and anysym(a, k):
        return unidata(f, a, k)
    return f(*a, **k)


import unicodedata
UNI = {unicodedata.normalize, unicodedata.category, unicodedata.name, unicodedata.combining,
       unicodedata.decomposition, unicodedata.digit, unicodedata.decimal, unicodedata.numeric}


def unidata(f, a, k):
    if f is unicodedata.normalize:
        form = a[0]
        s = a[1]
        out = []
        for p in P(s):
            if isinstance(p, str):
                out.append(unicodedata.normalize(form, p))
            elif isinstance(p, Ch):
                out.append(strs.map_char(p, lambda c: unicodedata.normalize(form, c), 'norm' + form))
            elif isinstance(p, Choice):
                out.append(p.map(lambda c: unicodedata.normalize(form, c)))
            elif core.ival.inter(p.alpha, strs.changed(lambda c: unicodedata.normalize(form, c), 'norm' + form)):
                p.expand()
                return unidata(f, a, k)
            else:
                out.append(p)
        return mk(out)
    ps = P(a[0])
    if f in (unicodedata.category, unicodedata.combining) and len(ps) == 1 and isinstance(ps[0], Ch):
        return by_value(ps[0], f)
    return f(fork_all(a[0]), *a[1:])


_TABLE = {}


def by_value(ch, f):
    """f(character) for a function with few values."""
    if f not in _TABLE:
        t = {}
        for v in range(sys.maxunicode + 1):
            t.setdefault(f(chr(v)), []).append(v)
        _TABLE[f] = [(core.ival.of_codes(vs), r) for r, vs in t.items()]
    return map_any([(ch.isin(iv), r) for iv, r in _TABLE[f] if core.ival.inter(iv, ch.dom)], lambda v: v)


def generic_repr(s):
    return "'" + s + "'"


PREDICATED = {itertools.takewhile, itertools.dropwhile, itertools.filterfalse, itertools.starmap}


def typecall(f, a, k):
    if f is str:
        if not a:
            return ''
        if isinstance(a[0], SymStr):
            return a[0]
        if isinstance(a[0], ObjChoice):
            return map_any(a[0]._alts, str)
        if isinstance(a[0], SymInt):
            return str(int(a[0]))
        return str(*a, **k)
    if f is bool:
        if a and isinstance(a[0], SymStr):
            return mkbool(strs.nonempty(a[0]))
        if a and isinstance(a[0], SymBool):
            return a[0]
        return bool(*a)
    if f is int and a and isinstance(a[0], (SymStr, SymInt, SymBool)):
        if isinstance(a[0], SymStr):
            return strs.to_int(a[0], *a[1:], **k)
        return a[0] if isinstance(a[0], SymInt) else a[0].as_int()
    if isinstance(f, enum.EnumMeta) and len(a) == 1 and issym(a[0]):
        for m in f:
            if m.value == a[0]:
                return m
        raise ValueError('not a valid ' + f.__name__)
    if f is map or f is filter:
        return b_iter_call(f, a, k)
    if f in PREDICATED and callable(a[0]):
        g = a[0]
        return f(lambda *x: call(g, *x), *a[1:])
    if f is itertools.groupby:
        g = a[1] if len(a) > 1 else k.get('key')
        return f(a[0], (lambda x: call(g, x)) if g is not None else None)
    if f is itertools.accumulate and len(a) > 1 and a[1] is not None:
        g = a[1]
        return f(a[0], lambda x, y: call(g, x, y), **k)
    if f is bytes and a and isinstance(a[0], SymStr):
        return a[0].encode(*a[1:])
    if f is type and len(a) == 1:
        if isinstance(a[0], SymStr):
            return str
        if isinstance(a[0], SymInt):
            return int
        if isinstance(a[0], SymBool):
            return bool
        return type(a[0])
    if f in (set, frozenset) and a:
        xs = list(a[0])
        return f(fork_all(x) if isinstance(x, SymStr) else x for x in xs)
    if f is dict and a and isinstance(a[0], dict) and side(a[0]):
        d = dict(dict.items(a[0]), **k)
        SIDE[id(d)] = (d, list(side(a[0])))
        return d
    if f is dict and a and not isinstance(a[0], dict):
        xs = [tuple(x) for x in a[0]]
        if any(isinstance(x[0], SymStr) for x in xs):
            d = {}
            for kk, v in xs:
                setitem(d, kk, v)
            return d
        return dict(xs, **k)
    if f in (range, enumerate):
        return f(*[int(v) if isinstance(v, (SymInt, SymBool)) else v for v in a], **k)
    return f(*a, **k)


# -- regex module functions -----------------------------------------------------------------------
def _re(name):
    real = getattr(re, name)

    def w(*a, **k):
        if not anysym(a, k):
            return real(*a, **k)
        a = list(a)
        pat = a.pop(0) if a else k.pop('pattern')
        npos = {'sub': 3, 'subn': 3, 'split': 2}.get(name, 1)
        flags = k.pop('flags', 0)
        if len(a) > npos:
            flags = a.pop(npos)
        if isinstance(pat, SymStr):
            pat = fork_all(pat)
        p = pat if isinstance(pat, re.Pattern) else re.compile(pat, flags)
        return method(p, getattr(p, name), tuple(a), k)
    return w


def re_compile(pat, flags=0):
    if isinstance(pat, SymStr):
        pat = fork_all(pat)
    return re.compile(pat, flags)


def re_escape(s):
    if not isinstance(s, SymStr):
        return re.escape(s)
    from .strs import Hole
    while True:
        out = []
        for p in P(s):
            if isinstance(p, str):
                out.append(re.escape(p))
            elif isinstance(p, Ch):
                out.append(strs.map_char(p, re.escape, 'escape'))
            elif isinstance(p, Choice):
                out.append(p.map(re.escape))
            elif core.ival.inter(p.alpha, strs.changed(re.escape, 'escape')):
                p.expand()
                break
            else:
                out.append(p)
        else:
            return mk(out)


HOOKED = {getattr(re, n): _re(n) for n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer')}
HOOKED[re.compile] = re_compile
HOOKED[re.escape] = re_escape


def cap_words(s, sep=None):
    return method(sep or ' ', ' '.join, ([call(x.capitalize) for x in call(s.split, sep)],), {})


HOOKED[_string.capwords] = cap_words

from . import dom as _dom
HOOKED[_dom.REAL_PARSE] = _dom.parse


# -- containment, indexing ------------------------------------------------------------------------
def contains(x, o):
    """x in o"""
    if isinstance(o, collections.ChainMap) and type(o).__contains__ is collections.ChainMap.__contains__ and issym(x):
        return any(contains(x, m) for m in o.maps)
    if isinstance(o, collections.UserDict) and type(o).__contains__ is collections.UserDict.__contains__ and issym(x):
        return contains(x, o.data)
    if isinstance(o, dict) and own(o, '__contains__'):
        return type(o).__contains__(o, x)
    if isinstance(o, (dict, types.MappingProxyType)):
        if symkey(x) or side(o):
            return dict_has(o, x)
        return x in o
    if isinstance(o, SymStr) or (isinstance(o, str) and isinstance(x, SymStr)):
        if not isinstance(x, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return strs.contains(o, x)
    if isinstance(o, (set, frozenset)) and (isinstance(x, SymStr) or symtuple(x)):
        return mkbool(gor([g for g, _ in key_alts(o, x)]))
    if isinstance(o, (list, tuple)) and (isinstance(x, (SymStr, SymInt, ObjChoice)) or symtuple(x)
                                         or any(issym(v) or symtuple(v) for v in o)):
        gs = []
        for v in o:
            if v is x:
                return True
            r = mkbool(same(x, v))
            if r is True:
                return True
            if isinstance(r, SymBool):
                gs.append(r.g)
        return mkbool(gor(gs))
    if type(o).__name__ in ('dict_keys',) and (isinstance(x, SymStr) or symtuple(x)):
        return mkbool(gor([g for g, _ in key_alts(list(o), x)]))
    return x in o


def notin(x, o):
    return core.lnot(contains(x, o))


def side_hit(sd, k):
    """The pair of a dictionary's symbolic keys that equals k (the last one stored)."""
    for pair in reversed(sd or []):
        if isinstance(k, (str, SymStr)) and isinstance(pair[0], (str, SymStr)) or isinstance(k, tuple):
            if mkbool(same(pair[0], k)):
                return pair
    return None


def dict_has(d, k):
    if side_hit(side(d), k):
        return True
    if isinstance(k, ObjChoice):
        k = k.fork()
        return dict_has(d, k)
    if not symkey(k):
        return k in d
    return mkbool(gor([g for g, _ in key_alts(d, k)]))


def dict_get(d, k, default, strict):
    hit = side_hit(side(d), k)
    if hit:
        return hit[1]
    if isinstance(k, ObjChoice):
        k = k.fork()
    if isinstance(k, SymStr):
        kc = strs.concrete(k)
        if kc is not None:
            k = kc
    if not symkey(k):
        return d[k] if strict else d.get(k, default)
    alts = key_alts(d, k)
    if alts:
        hit = gor([g for g, _ in alts])
        if ctx().branch(hit):
            return values([(g, d[s]) for g, s in alts])
    if strict:
        if isinstance(d, collections.defaultdict) and not own(d, '__missing__') and d.default_factory is not None:
            v = call(d.default_factory)
            setitem(d, k, v)
            return v
        if hasattr(type(d), '__missing__'):
            return type(d).__missing__(d, k) if own(d, '__missing__') else type(d).__missing__(d, fork_key(k))
        raise KeyError(k)
    return default


def values(alts):
    alts = [(g, v) for g, v in alts if mkbool(g) is not False]
    if len(alts) == 1:
        return alts[0][1]
    if any(isinstance(v, SymStr) for _, v in alts):
        return ObjChoice(alts).fork()
    return map_any(alts, lambda v: v)


def getitem(o, k):
    if isinstance(o, collections.ChainMap) and type(o).__getitem__ is collections.ChainMap.__getitem__ and issym(k):
        for m in o.maps:
            if contains(k, m):
                return getitem(m, k)
        return o.__missing__(k)
    if isinstance(o, collections.UserDict) and type(o).__getitem__ is collections.UserDict.__getitem__ and issym(k) \
            and not hasattr(type(o), '__missing__'):
        return getitem(o.data, k)
    if isinstance(o, dict) and own(o, '__getitem__'):
        return type(o).__getitem__(o, k)
    if isinstance(o, (dict, types.MappingProxyType)):
        if symkey(k) or side(o):
            return dict_get(o, k, None, True)
        return o[k]
    if isinstance(o, str) and isinstance(k, (SymInt, SymBool)):
        return o[int(k)]
    if isinstance(o, str) and isinstance(k, slice):
        return o[slice(*[int(v) if isinstance(v, (SymInt, SymBool)) else v for v in (k.start, k.stop, k.step)])]
    if isinstance(o, SymStr) and isinstance(k, slice):
        return o[slice(*[int(v) if isinstance(v, (SymInt, SymBool)) else v for v in (k.start, k.stop, k.step)])]
    if isinstance(k, ObjChoice):
        k = k.fork()
    if isinstance(o, (list, tuple)) and isinstance(k, (SymInt, SymBool)):
        return o[int(k)]
    return o[k]


def setitem(o, k, v, plain=False):
    if not plain and isinstance(o, dict) and own(o, '__setitem__'):
        return type(o).__setitem__(o, k, v)
    if isinstance(k, ObjChoice):
        k = k.fork()
    if isinstance(k, SymStr):
        kc = strs.concrete(k)
        if kc is not None:
            k = kc
    if isinstance(o, dict) and (symkey(k) or side(o) and isinstance(k, (str, tuple))):
        sd = side(o)
        for i, (kk, _) in enumerate(sd or []):
            if mkbool(same(kk, k)):
                sd[i] = (kk, v)
                return
        if sd and k not in o if not symkey(k) else False:
            sd.append((k, v))      # after the symbolic keys, in the order of insertion
            return
        if symkey(k):
            alts = key_alts(o, k)
            if alts and ctx().branch(gor([g for g, _ in alts])):
                o[fork_key(k)] = v
                return
            if sd is None:
                SIDE[id(o)] = (o, [])
                sd = SIDE[id(o)][1]
            sd.append((k, v))
            return
    o[k] = v


def mkdict(pairs):
    """Dict display."""
    d = {}
    for k, v in pairs:
        if k is _EXPAND:
            d.update(v)
            if side(v):
                for kk, vv in side(v):
                    setitem(d, kk, vv)
        else:
            setitem(d, k, v)
    return d


_EXPAND = object()


# -- formatting -----------------------------------------------------------------------------------
def fmt_value(v, spec='', conv=None):
    if isinstance(v, ObjChoice):
        v = v.fork()
    if conv == 'r':
        v = generic_repr(v) if isinstance(v, SymStr) else repr(v)
    elif conv == 's':
        v = v if isinstance(v, SymStr) else str(v)
    if isinstance(v, (SymInt, SymBool)):
        v = int(v) if isinstance(v, SymInt) else bool(v)
    if isinstance(v, SymStr):
        if spec in ('', 's'):
            return v
        return format(fork_all(v), spec)
    if isinstance(spec, SymStr):
        spec = fork_all(spec)
    return format(v, spec)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            out += P(fmt_value(*p))
        else:
            out.append(p)
    return mk(out)


def str_format(s, a, k):
    if isinstance(s, SymStr):
        s = fork_all(s)
    out = []
    auto = 0
    fm = _string.Formatter()
    for lit, field, spec, conv in fm.parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = fm.get_field(field, a, k)
        if spec and '{' in spec:
            spec = str_format(spec, a, k)
        out += P(fmt_value(obj, spec, conv))
    return mk(out)


def percent(s, o):
    if isinstance(s, (int, float, SymInt)):
        return s % o
    if not isinstance(s, (str, SymStr)):
        return s % o
    if isinstance(s, str) and not (issym(o) or isinstance(o, tuple) and any(map(issym, o))
                                   or isinstance(o, dict) and any(map(issym, o.values()))):
        return s % o
    if isinstance(s, SymStr):
        s = fork_all(s)
    out = []
    args = list(o) if isinstance(o, tuple) else [o]
    pos = 0
    i = 0
    for m in re.finditer(r'%(?:\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            out.append('%')
            continue
        if m.group(1):
            v = o[m.group(1)]
        else:
            v = args[i]
            i += 1
        if m.group(3) == 's' and not m.group(2):
            out += P(fmt_value(v, '', 's'))
        else:
            if isinstance(v, SymStr):
                v = fork_all(v)
            elif isinstance(v, SymInt):
                v = int(v)
            out.append(('%' + m.group(2) + m.group(3)) % v)
    out.append(s[pos:])
    return mk(out)


def add(a, b):
    """a + b where either may be a finite choice of objects."""
    return a + b


def truth_and(*thunks):
    r = True
    for t in thunks:
        r = t()
        if not r:
            return r
    return r
