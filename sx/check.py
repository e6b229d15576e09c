"""Harness API, path validation and reporting."""
import hashlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import threading
import time
import traceback
import z3
from . import core, strs, hooks, loader, ival
from .core import SymBool, SymInt, PathEnd, Unsupported, Budget, guard, gz, gor, gand, CS, mkbool
from .strs import SymStr, Ch, Hole, Choice, mk, P, mkchoice

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CheckFailed(Exception):
    pass


class Skip(Exception):
    """Concrete values outside the harness's assumptions."""


class Aborted(BaseException):
    pass


class Threads:
    """Runs bodies in threads of which exactly one runs at a time. tick(), called in a body at the entry of
    a function, passes control to the next body when at(thread, count) says so; each body is left once."""

    def __init__(self, bodies, at):
        self.bodies = bodies
        self.at = at
        self.n = len(bodies)
        self.locks = [threading.Semaphore(0) for _ in bodies]
        self.main = threading.Semaphore(0)
        self.state = ['new'] * self.n
        self.count = [0] * self.n
        self.results = [None] * self.n
        self.error = None
        self.abort = False
        self.cur = 0

    def tick(self):
        i = self.cur
        if self.abort:
            raise Aborted()
        if self.state[i] != 'first':
            return
        self.count[i] += 1
        if not self.at(i, self.count[i]):
            return
        nxt = [j for j in range(self.n) if self.state[j] == 'new']
        nxt = nxt[:1] or [j for j in range(self.n) if j != i and self.state[j] not in ('done', 'new')][:1]
        if not nxt:
            return
        self.state[i] = 'left'
        self.switch(nxt[0])
        self.locks[i].acquire()
        if self.abort:
            raise Aborted()

    def switch(self, j):
        self.cur = j
        if self.state[j] == 'new':
            self.state[j] = 'first'
            threading.Thread(target=self.body, args=(j,), daemon=True).start()
        else:
            self.locks[j].release()

    def body(self, i):
        try:
            self.results[i] = self.bodies[i]()
        except Aborted:
            pass
        except BaseException as e:
            if self.error is None:
                self.error = e
            self.abort = True
        self.state[i] = 'done'
        rest = [j for j in range(self.n) if self.state[j] in ('left', 'first')]
        if not rest and not self.abort:
            rest = [j for j in range(self.n) if self.state[j] == 'new']
        if rest:
            self.switch(rest[0])
        else:
            self.main.release()

    def run(self):
        old = threading.stack_size(256 << 20)
        try:
            self.switch(0)
            self.main.acquire()
        finally:
            threading.stack_size(old)
        if self.error is not None:
            raise self.error
        return self.results


class Hang(BaseException):
    pass


class DoesNotEnd(Exception):
    pass


def timed(seconds, f, x):
    """f(x), interrupted after some seconds of a conversion that does not end."""
    if threading.current_thread() is not threading.main_thread():
        return f(x)

    def ring(sig, frame):
        raise Hang()
    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds, 1)
    try:
        return f(x)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Res:
    """Outcome of one conversion."""
    def __init__(self, ok, value=None, exc=None):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.kind = type(exc).__name__ if exc is not None else 'ok'
        self.msg = (exc.args[0] if exc is not None and exc.args else '')


# -- evaluation of symbolic values under a model --------------------------------------------------
def ev_part(m, p):
    if isinstance(p, str):
        return p
    if isinstance(p, Ch):
        return chr(m.eval(p.expr, model_completion=True).as_long())
    if isinstance(p, Hole):
        if p.mat is not None:
            return ''.join(ev_part(m, q) for q in p.mat)
        n = m.eval(p.len, model_completion=True).as_long()
        cs = hole_letters(p.alpha)
        return ''.join(cs[(i + sum(map(ord, p.name))) % len(cs)] for i in range(n))
    for g, s in p.alts:
        if g is True or z3.is_true(m.eval(gz(g), model_completion=True)):
            return s
    raise AssertionError('no alternative holds')


_HL = {}


def hole_letters(iv):
    if iv not in _HL:
        pref = [c for c in 'qzvwxkjygpbfhnmtrs' if ival.has(iv, ord(c))]
        if not pref:
            import itertools
            pref = [chr(c) for c in itertools.islice(ival.codes(iv), 20)]
        _HL[iv] = pref
    return _HL[iv]


def ev(m, v):
    if isinstance(v, str):
        return v
    if isinstance(v, SymStr):
        return ''.join(ev_part(m, p) for p in v._p)
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(gz(v.g), model_completion=True))
    return v


class Base:
    """Helpers that work on concrete and symbolic values."""
    def cat(self, *xs):
        out = []
        for x in xs:
            out += P(x)
        return mk(out)

    def join(self, sep, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += P(sep)
            out += P(x)
        return mk(out)

    def check_eq(self, a, b, msg, **k):
        self.check(self.eq(a, b), lambda f: '%s: got %r, expected %r' % (msg, f(a), f(b)), **k)

    def ok(self, xml, msg='conversion failed'):
        """Convert; any exception is a violation."""
        r = self.run(xml)
        if not r.ok:
            self.check(False, lambda f: '%s: %s: %s for %r' % (msg, r.kind, f(r.msg), f(xml)))
            raise PathEnd()
        return r.value


class SymH(Base):
    symbolic = True

    def __init__(self, c, tier):
        self.c = c
        self.tier = tier
        self.inputs = {}
        self.log = []
        self.conv = None
        self.failures = []
        self.nchecks = 0
        self.seen_known = set()
        hooks.reset()
        self.new_process()

    def new_process(self):
        hooks.reset()
        self.conv = loader.fresh(loader.SYM).MathMLToLaTeX

    # inputs
    def char(self, name, iv):
        v = mk([Ch(name, iv)])
        self.inputs[name] = v
        return v

    def text(self, name, iv, lo, hi):
        n = self.pick(name + '.n', list(range(lo, hi + 1)))
        v = mk([Ch('%s.%d' % (name, i), iv) for i in range(n)])
        self.inputs[name] = v
        return v

    def hole(self, name, iv, mn=1):
        v = mk([Hole(name, iv, mn)])
        self.inputs[name] = v
        return v

    def _idx(self, name, n):
        h = Ch(name + '.idx', ((0, n - 1),))
        return h

    def choice(self, name, opts):
        h = self._idx(name, len(opts))
        v = mk([mkchoice([(h.isin(((i, i),)), s) for i, s in enumerate(opts)])])
        self.inputs[name] = v
        return v

    def pick(self, name, opts):
        if len(opts) == 1:
            self.inputs[name] = 0
            return opts[0]
        h = self._idx(name, len(opts))
        for i in range(len(opts) - 1):
            if self.c.branch(h.isin(((i, i),))):
                break
        else:
            i = len(opts) - 1
        self.inputs[name] = i
        return opts[i]

    def int(self, name, lo, hi):
        e = z3.Int(name)
        self.c.solver.add(e >= lo, e <= hi)
        self.c.model = None
        v = SymInt(e)
        self.inputs[name] = v
        return v

    def assume(self, cond):
        g = guard(cond)
        self.c.assume(g)
        if g is not True:
            r = self.c.sat()
            if r == 'unsat':
                raise PathEnd()
            self.c.model = self.c.last_model if r == 'sat' else None

    # operations
    def attempt(self, xml):
        try:
            return Res(True, timed(60, self.conv.convert, xml))
        except Hang:
            raise Unsupported('a conversion takes over 60 seconds')
        except Exception as e:
            return Res(False, exc=e)

    def run(self, xml):
        r = self.attempt(xml)
        self.log.append(r)
        return r

    def interleave(self, docs, at, fine=False):
        """Convert the documents in one thread each; thread i is left at its at[i]-th function entry (or statement)."""
        t = Threads([lambda x=x: self.attempt(x) for x in docs], lambda i, n: bool(at[i] == n))
        hooks.ENTER_CB = lambda name: t.tick()
        hooks.STMT_CB = t.tick if fine else None
        try:
            rs = t.run()
        finally:
            hooks.ENTER_CB = hooks.STMT_CB = None
        self.log += rs
        return rs

    def eq(self, a, b):
        return mkbool(strs.eqg(a, b))

    def contains(self, hay, needle):
        return strs.contains(hay, needle)

    def length(self, s):
        return strs.length(s)

    def smap(self, s, f):
        """f (concrete str -> str) over a symbolic string with finitely many values."""
        if isinstance(s, str):
            return f(s)
        fc = strs.flat_choice(s, 200000)
        if fc is None:
            p = P(s)
            if len(p) == 1 and isinstance(p[0], Ch):
                d = p[0].dom
                by = {}
                for v in ival.codes(d):
                    by.setdefault(f(chr(v)), []).append(v)
                return mk([mkchoice([(p[0].isin(ival.of_codes(vs)), t) for t, vs in by.items()])])
            raise Unsupported('smap')
        if isinstance(fc, str):
            return f(fc)
        return mk([fc.map(f)])

    def test(self, s, f):
        """Concrete predicate of a symbolic string with finitely many values."""
        r = self.smap(s, lambda t: 'T' if f(t) else 'F')
        return self.eq(r, 'T')

    def rel(self, c, r, pred):
        """pred(character, text) for a symbolic character and a text that depends on it alone."""
        if isinstance(c, str):
            return bool(pred(c, r)) if isinstance(r, str) else self.test(r, lambda t: pred(c, t))
        ch = P(c)[0]
        if isinstance(ch, str):
            return self.rel(ch, r, pred)
        parts = P(r)
        codes = list(ival.codes(ch.dom))
        maps = []
        for p in parts:
            if isinstance(p, str) or p is ch or isinstance(p, Ch) and p.name == ch.name:
                maps.append(p)
                continue
            if not isinstance(p, Choice) or any(g is not True and not (isinstance(g, core.CS) and g.key == ch.name) for g, _ in p.live()):
                break
            by = {}
            for g, t in p.live():
                for v in (codes if g is True else ival.codes(ival.inter(g.iv, ch.dom))):
                    by[v] = t
            maps.append(by)
        else:
            good = []
            for v in codes:
                t = ''.join(m if isinstance(m, str) else m[v] if isinstance(m, dict) else chr(v) for m in maps)
                if pred(chr(v), t):
                    good.append(v)
            return mkbool(ch.isin(ival.of_codes(good)))
        fc = strs.flat_choice(r, 200000)
        if fc is None:
            raise Unsupported('relation')
        alts = [(True, fc)] if isinstance(fc, str) else fc.live()
        return core.land(*[core.lor(core.lnot(mkbool(g)), mkbool(ch.isin(ival.of_codes([v for v in codes if pred(chr(v), t)]))))
                           for g, t in alts])

    def scan(self, s, init, step, classes, good):
        """good(final state) of a finite automaton run over a symbolic text. classes: (representative,
        interval set) pairs that cover all characters; step must treat a class as its representative."""
        cur = {init: True}
        for p in P(s):
            nxt = {}
            for st, g in cur.items():
                if isinstance(p, str):
                    for q in p:
                        st = step(st, q)
                    nxt.setdefault(st, []).append(g)
                elif isinstance(p, Ch):
                    d = p.dom
                    for q, iv in classes:
                        i = ival.inter(d, iv)
                        if i:
                            nxt.setdefault(step(st, q), []).append(gand([g, p.isin(i)]))
                elif isinstance(p, Choice):
                    for a, t in p.live():
                        u = st
                        for q in t:
                            u = step(u, q)
                        nxt.setdefault(u, []).append(gand([g, a]))
                else:
                    if p.min < 1:
                        nxt.setdefault(st, []).append(g)
                    seen, todo = set(), [st]
                    while todo:
                        x = todo.pop()
                        for q, iv in classes:
                            if ival.inter(p.alpha, iv):
                                y = step(x, q)
                                if y not in seen:
                                    seen.add(y)
                                    todo.append(y)
                    for y in seen:
                        nxt.setdefault(y, []).append(g)
            cur = {}
            for st, gs in nxt.items():
                g = gor(gs)
                if g is not False:
                    cur[st] = g
        return core.lnot(mkbool(gor([g for st, g in cur.items() if not good(st)])))

    def within(self, s, iv):
        """Every character of a text lies in the interval set."""
        gs = []
        for p in P(s):
            if isinstance(p, str):
                gs.append(all(ival.has(iv, ord(q)) for q in p))
            elif isinstance(p, Ch):
                gs.append(p.isin(iv))
            elif isinstance(p, Choice):
                gs.append(p.test(lambda t: all(ival.has(iv, ord(q)) for q in t)))
            else:
                raise Unsupported('within')
        return mkbool(gand(gs))

    def lor(self, *a): return core.lor(*a)
    def land(self, *a): return core.land(*a)
    def lnot(self, a): return core.lnot(a)

    def decide(self, cond):
        return bool(cond)

    def escape(self, s):
        """XML character data spelling of a symbolic text (references for markup characters)."""
        out = []
        from . import dom
        while True:
            its = strs.items(s)
            again = False
            for x in its:
                if isinstance(x, Ch) and dom.fork_set(x, ival.of_str('<&>"\r\n\t')):
                    again = True
                elif isinstance(x, Choice) and any(set(t) & set('<&>"\r\n\t') for _, t in x.live()):
                    if not x.narrow(lambda t: not set(t) & set('<&>"\r\n\t')):
                        x.fork()
                    again = True
                elif isinstance(x, Hole) and ival.inter(x.alpha, ival.of_str('<&>"\r\n\t')):
                    raise Unsupported('escape hole')
            if not again:
                break
        return mk([esc1(x) if isinstance(x, str) else x for x in its])

    def check(self, cond, msg, known=()):
        c = self.c
        st = c.ex.stats
        st['checks'] += 1
        self.nchecks += 1
        g = guard(cond)
        if g is True:
            st['proved'] += 1
            return
        for kid, kcond in known:
            if kid not in c.ex.known:
                continue
            kg = guard(kcond)
            both = gand([core.gnot(g), kg])
            if both is not False and (both is True or c.sat(gz(both)) == 'sat'):
                c.ex.known_hit.add(kid)
            g = gor([g, kg])
            if g is True:
                st['proved'] += 1
                return
        if g is False:
            r = c.sat()
        else:
            r = c.sat(z3.Not(gz(g)))
        if r == 'unsat':
            st['proved'] += 1
            return
        if r == 'unknown':
            st['inconclusive'] = st.get('inconclusive', 0) + 1
            return
        st['refuted'] += 1
        m = c.last_model
        f = lambda v: ev(m, v)
        text = msg(f) if callable(msg) else msg
        c.ex.on_failure({k: f(v) for k, v in self.inputs.items()}, text)
        if g is False:
            raise PathEnd()
        c.assume(g)
        c.model = None
        if c.sat() == 'unsat':
            raise PathEnd()
        c.model = None


def esc1(c):
    return {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', '\r': '&#13;', '\n': '&#10;', '\t': '&#9;'}.get(c, c)


class ConcH(Base):
    symbolic = False

    def __init__(self, values, tier, mod=None, known=()):
        self.values = values
        self.tier = tier
        self.log = []
        self.mod = mod
        self.failures = []
        self.known = set(known)
        self.new_process()

    def new_process(self):
        if self.mod is None:
            self.conv = loader.fresh(loader.REAL).MathMLToLaTeX
        else:
            self.conv = self.mod()

    def _v(self, name):
        if name not in self.values:
            raise Skip(name)
        return self.values[name]

    def char(self, name, iv): return self._v(name)

    def text(self, name, iv, lo, hi): return self._v(name)
    def hole(self, name, iv, mn=1): return self._v(name)
    def choice(self, name, opts): return self._v(name)

    def pick(self, name, opts):
        return opts[self._v(name)]

    def int(self, name, lo, hi): return self._v(name)

    def assume(self, cond):
        if not cond:
            raise Skip('assumption')

    def attempt(self, xml):
        try:
            return Res(True, timed(15, self.conv.convert, xml))
        except Hang:
            return Res(False, exc=DoesNotEnd('not converted in 15 seconds'))
        except Exception as e:
            return Res(False, exc=e)

    def run(self, xml):
        r = self.attempt(xml)
        self.log.append(r)
        return r

    def interleave(self, docs, at, fine=False):
        spans = {}
        where = os.path.join(os.path.realpath(loader.SRC), loader.PKG) + os.sep

        def prof(frame, event, arg):
            if event != 'call':
                return
            c = frame.f_code
            if os.path.realpath(c.co_filename).startswith(where) and c.co_name[0] != '<' and c.co_flags & 0x2 and not c.co_flags & 0x20:
                t.tick()

        def trace(frame, event, arg):
            c = frame.f_code
            f = os.path.realpath(c.co_filename)
            if not f.startswith(where) or c.co_name[0] == '<' or not c.co_flags & 0x2 or c.co_flags & 0x20:
                return None
            t.tick()
            if f not in spans:
                spans[f] = loader.spans(open(f, encoding='utf-8').read())
            own, prev = spans[f], [None]

            def line(frame, event, arg):
                if event == 'line':
                    q = own.get(frame.f_lineno)
                    if q is not None and q != prev[0]:
                        prev[0] = q
                        t.tick()
                    prev[0] = q
                return line
            return line

        def body(x):
            hook = sys.settrace if fine else sys.setprofile
            hook(trace if fine else prof)
            try:
                return self.attempt(x)
            finally:
                hook(None)
        t = Threads([lambda x=x: body(x) for x in docs], lambda i, n: at[i] == n)
        rs = t.run()
        self.log += rs
        return rs

    def eq(self, a, b): return a == b
    def contains(self, hay, needle): return needle in hay
    def length(self, s): return len(s)
    def smap(self, s, f): return f(s)
    def test(self, s, f): return bool(f(s))
    def rel(self, c, r, pred): return bool(pred(c, r))

    def scan(self, s, init, step, classes, good):
        st = init
        for q in s:
            st = step(st, q)
        return bool(good(st))

    def within(self, s, iv): return all(ival.has(iv, ord(q)) for q in s)
    def lor(self, *a): return any(a)
    def land(self, *a): return all(a)
    def lnot(self, a): return not a
    def decide(self, cond): return bool(cond)
    def escape(self, s): return ''.join(map(esc1, s))

    def check(self, cond, msg, known=()):
        if cond:
            return
        for kid, kcond in known:
            if kid in self.known and kcond:
                return
        self.failures.append(msg(lambda v: v) if callable(msg) else msg)


def run_conc(fn, params, values, tier, mod=None, known=()):
    """Run a harness concretely: (failures, log)."""
    h = ConcH(values, tier, mod, known)
    try:
        fn(h, **params)
    except (Skip, PathEnd):
        pass
    return h.failures, h.log


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {k['id']: k for k in json.load(open(p))['findings'] if k['property'] == pid}


def same_log(slog, clog, m):
    if len(slog) > len(clog):
        return 'conversion count %d vs %d' % (len(slog), len(clog))
    for a, b in zip(slog, clog):
        if a.kind != b.kind:
            return 'outcome %s (%s) vs %s (%s)' % (a.kind, ev(m, a.value if a.ok else a.msg), b.kind, b.value if b.ok else b.msg)
        x, y = (a.value, b.value) if a.ok else (a.msg, b.msg)
        x = ev(m, x)
        if x != y:
            return '%r vs %r' % (x, y)
    return None


# when exploration stops; a confirmed counterexample brings it forward
STOP = multiprocessing.Value('d', 0, lock=False)


def run_scenario(job):
    """Explore one scenario; returns a plain dict."""
    modname, name, params, tier, limit, known, valcap = job
    import importlib
    mod = importlib.import_module('props.' + modname)
    fn = getattr(mod, mod.SCENARIOS[name]['fn']) if isinstance(mod.SCENARIOS[name]['fn'], str) else mod.SCENARIOS[name]['fn']
    t0 = time.time()
    out = dict(name=name, failures=[], unconfirmed=[], mismatch=[], errors=[], validated=0, samples=[], complete=True)
    state = {}
    hooks.ENTERED.clear()

    def body(c):
        h = SymH(c, tier)
        state['h'] = h
        fn(h, **params)

    ex = core.Explorer(body, STOP)
    ex.known = set(known)
    ex.known_hit = set()
    confirmed = []

    def on_failure(values, text):
        fails, _ = run_conc(fn, params, values, tier, known=known)
        if fails:
            confirmed.append((values, fails[0]))
            STOP.value = min(STOP.value, time.time() + 20)
        else:
            out['unconfirmed'].append(dict(values=values, text=text))
    ex.on_failure = on_failure

    def on_path(c, res):
        h = state['h']
        kind, val = res
        if kind in ('error', 'unsupported'):
            why = val if kind == 'unsupported' else ''.join(traceback.format_exception(val))[-1500:]
            out['errors'].append(why)
            ex.cut('not encoded: ' + (val if kind == 'unsupported' else type(val).__name__))
        try:
            m = c.get_model()
        except PathEnd:
            ex.stats['infeasible'] = ex.stats.get('infeasible', 0) + 1
            return
        if m is None:
            ex.stats['inconclusive'] = ex.stats.get('inconclusive', 0) + 1
            return
        if h.nchecks and kind in ('done', 'end'):
            ex.stats['reached'] = ex.stats.get('reached', 0) + 1
        if out['validated'] + len(out['mismatch']) < valcap or kind in ('error', 'unsupported'):
            try:
                values = {k: ev(m, v) for k, v in h.inputs.items()}
            except AssertionError:
                out['errors'].append('model evaluation')
                return
            fails, clog = run_conc(fn, params, values, tier, known=known)
            if kind in ('error', 'unsupported'):
                # the path could not be finished symbolically; one concrete instance was run
                if fails:
                    confirmed.append((values, fails[0]))
                return
            bad = same_log(h.log, clog, m)
            if bad:
                out['mismatch'].append(dict(values=values, diff=bad))
                if fails:
                    confirmed.append((values, fails[0]))
            else:
                out['validated'] += 1
                if fails:
                    # solver said the checks hold on this path
                    out['mismatch'].append(dict(values=values, diff='check: ' + fails[0])) if not confirmed else None
                    confirmed.append((values, fails[0]))
                if len(out['samples']) < 2 and clog:
                    out['samples'].append(dict(inputs=values, result=(clog[-1].value if clog[-1].ok else clog[-1].kind)))
        if confirmed:
            STOP.value = min(STOP.value, time.time() + 20)
        if len(confirmed) >= 3:
            raise Budget()
    try:
        ex.run(on_path)
    except Budget:
        if not confirmed:
            out['complete'] = False
    out['failures'] = confirmed
    out['stats'] = ex.stats
    out['cuts'] = ex.cut_reasons
    out['known_hit'] = sorted(ex.known_hit)
    out['functions'] = dict(hooks.ENTERED)
    out['wall'] = time.time() - t0
    return out


def safe_scenario(job):
    try:
        return run_scenario(job)
    except BaseException as e:
        return dict(name=job[1], crash=''.join(traceback.format_exception(e))[-3000:])


def run_property(pid, tier, seed, only=None, verbose=False):
    import importlib
    t0 = time.time()
    import props
    modname = props.MODULE_OF[pid]
    mod = importlib.import_module('props.' + modname)
    known = load_known(pid)
    limit = float(os.environ.get('SX_LIMIT', 780))
    STOP.value = t0 + limit
    jobs = []
    for name, sc in mod.SCENARIOS.items():
        if sc['property'] != pid:
            continue
        if sc.get('tier') == 'thorough' and tier != 'thorough':
            continue
        if only and only not in name:
            continue
        params = dict(sc.get('params', {}))
        if tier == 'thorough':
            params.update(sc.get('thorough', {}))
        jobs.append((modname, name, params, tier, limit, list(known), 150 if tier == 'quick' else 2000))
    loader.install()
    # load once before forking, so that the instrumented code objects are shared
    load_error = None
    try:
        loader.fresh(loader.SYM)
        loader.fresh(loader.REAL)
    except BaseException as e:
        load_error = ''.join(traceback.format_exception(e))
    if load_error:
        print(load_error)
        print('ERROR: the package cannot be loaded')
        return 3
    n = min(8, len(jobs), os.cpu_count() or 8)
    if n <= 1 or os.environ.get('SX_SERIAL'):
        res = [safe_scenario(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=None) as pool:
            res = pool.map(safe_scenario, jobs, chunksize=1)
    return report(pid, tier, seed, mod, jobs, res, known, t0, verbose)


def report(pid, tier, seed, mod, jobs, res, known, t0, verbose):
    os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
    crashed = [r for r in res if 'crash' in r]
    res = [r for r in res if 'crash' not in r]
    tot = {}
    cuts = {}
    funcs = {}
    known_hit = set()
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
        for k, v in r['functions'].items():
            funcs[k] = funcs.get(k, 0) + v
        known_hit |= set(r['known_hit'])
    violations = []
    jobmap = {j[1]: j for j in jobs}
    for r in res:
        for values, text in r['failures'][:1]:
            body = dict(property=pid, module=jobs[0][0], scenario=r['name'], params=jobmap[r['name']][2], tier=tier,
                        values=values, message=text)
            hsh = hashlib.sha1(json.dumps(body, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(ROOT, 'evidence', 'replays', '%s-%s-%s.json' % (pid, r['name'].replace('/', '_'), hsh))
            json.dump(body, open(path, 'w'), indent=1, ensure_ascii=True)
            p = subprocess.run([sys.executable, os.path.join(ROOT, 'run.py'), '--replay', path],
                               capture_output=True, text=True)
            if p.returncode == 1:
                violations.append((path, text))
            else:
                r['unconfirmed'].append(dict(values=values, text=text, replay=p.stdout[-500:] + p.stderr[-500:]))
    unconf = [u for r in res for u in r['unconfirmed']]
    mism = [u for r in res for u in r['mismatch']]
    errs = [u for r in res for u in r['errors']]
    incomplete = [r['name'] for r in res if not r['complete']]
    vac = [r['name'] for r in res if not r['stats'].get('reached') and not r['failures']]
    src = sum(loader.FUNCS.get(f, 0) for f in funcs)
    validated = sum(r['validated'] for r in res)
    cov = dict(
        states=tot.get('paths', 0), transitions=tot.get('decisions', 0), traces_validated_against_impl=validated,
        samples=[s for r in res for s in r['samples'][:1]][:6],
        exhaustive=not incomplete and not cuts and not errs and not mism,
        scenarios=[dict(name=r['name'], params=jobmap[r['name']][2], bound=mod.SCENARIOS[r['name']].get('bound', ''),
                        paths=r['stats']['paths'], checks=r['stats']['checks'], proved=r['stats']['proved'],
                        reachability_witnesses=r['stats'].get('reached', 0), queries=r['stats']['queries'],
                        solver_s=round(r['stats']['solver_s'], 3), wall_s=round(r['wall'], 2), complete=r['complete'])
                   for r in res],
        functions_encoded=sorted(funcs), function_lines=src,
        bounds=mod.BOUNDS.get(pid, ''),
        assertions=tot.get('checks', 0), assertions_proved=tot.get('proved', 0), refuted=tot.get('refuted', 0),
        queries=tot.get('queries', 0), queries_unsat=tot.get('unsat', 0), queries_unknown=tot.get('unknown', 0),
        inconclusive=tot.get('inconclusive', 0), solver_s=round(tot.get('solver_s', 0.0), 2), cuts=cuts,
        encoding_mismatches=len(mism), unfinished_paths=len(errs), unconfirmed=len(unconf), incomplete=incomplete,
        known_findings=sorted(known_hit), solver='z3 ' + z3.get_version_string())
    evd = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
               assumptions=mod.ASSUMPTIONS.get(pid, []) if hasattr(mod, 'ASSUMPTIONS') else [],
               wall_s=round(time.time() - t0, 2), violations=len(violations))
    json.dump(evd, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1, ensure_ascii=True, default=str)
    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[k]['what']))
    print('%s %s: %d scenarios, %d paths, %d assertions (%d proved), %d queries, solver %.1fs, %d traces validated, wall %.1fs'
          % (pid, tier, len(res), tot.get('paths', 0), tot.get('checks', 0), tot.get('proved', 0), tot.get('queries', 0),
             tot.get('solver_s', 0.0), validated, time.time() - t0))
    if cuts:
        print('  cuts:', cuts)
    if verbose or errs or mism or unconf:
        for e in errs[:3]:
            print('  unfinished path:', e)
        for e in mism[:3]:
            print('  mismatch:', json.dumps(e, default=str)[:600])
        for e in unconf[:3]:
            print('  unconfirmed:', json.dumps(e, default=str)[:900])
    if violations:
        for path, text in violations[:5]:
            print('  ' + text[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    bad = []
    if crashed:
        for r in crashed[:3]:
            print(r['name'], r['crash'])
        bad.append('scenario crashed')
    if incomplete:
        print('  exploration stopped at the time limit: %s' % incomplete)
        bad.append('incomplete')
    if unconf:
        bad.append('counterexample did not reproduce')
    if vac:
        print('  no assertion reached: %s' % vac)
        bad.append('vacuous')
    if tot.get('inconclusive'):
        bad.append('solver answered unknown')
    if (len(mism) + len(errs)) * 5 > max(1, tot.get('paths', 0)):
        bad.append('too many paths not encoded')
    if bad:
        print('ERROR: ' + ', '.join(bad))
        return 3
    return 0


def replay(path):
    """Run one recorded counterexample on the real package in this process."""
    body = json.load(open(path))
    import importlib
    mod = importlib.import_module('props.' + body['module'])
    sc = mod.SCENARIOS[body['scenario']]
    fn = getattr(mod, sc['fn']) if isinstance(sc['fn'], str) else sc['fn']
    sys.path.insert(0, os.path.dirname(loader.SRC))

    def fresh_real():
        for n in [n for n in sys.modules if n == 'src' or n.startswith('src.')]:
            del sys.modules[n]
        return importlib.import_module('src.mathml_to_latex.converter').MathMLToLaTeX
    known = load_known(body['property'])
    fails, log = run_conc(fn, body['params'], body['values'], body['tier'], fresh_real, known=list(known))
    for k, v in body['values'].items():
        print('input %s = %r' % (k, v))
    for r in log:
        print('convert ->', repr(r.value) if r.ok else '%s: %s' % (r.kind, r.msg))
    if fails:
        print('VIOLATED: ' + fails[0])
        return 1
    print('holds on this input')
    return 0
