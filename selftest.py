#!/usr/bin/env python3-vt
"""Validates the encoding: every document in the repository's tests goes through the instrumented and the real code."""
import ast
import glob
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(6000)
from sx import check, core, loader   # noqa: E402


def documents():
    out = []
    for f in sorted(glob.glob(os.path.join(os.path.dirname(loader.SRC), 'tests', '**', '*.py'), recursive=True)):
        for n in ast.walk(ast.parse(open(f, encoding='utf-8').read())):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and '<' in n.value and n.value not in out:
                out.append(n.value)
    return out


def main():
    docs = documents()
    res = {}

    def body(c):
        h = check.SymH(c, 'quick')
        for d in docs:
            r = h.run(d)
            res[d] = (r.kind, r.value if r.ok else str(r.exc))
    ex = core.Explorer(body, 1e18)
    ex.known, ex.known_hit, ex.on_failure = set(), set(), None
    kinds = []
    ex.run(lambda c, r: kinds.append(r))
    real = loader.fresh(loader.REAL).MathMLToLaTeX
    bad = 0
    for d in docs:
        try:
            want = ('ok', real.convert(d))
        except Exception as e:
            want = (type(e).__name__, str(e))
        if res.get(d) != want:
            bad += 1
            print('differs:', repr(d)[:200], res.get(d), want)
    print('%d documents of the tests, %d differ; %s' % (len(docs), bad, [k for k, _ in kinds]))
    return 1 if bad or not docs else 0


if __name__ == '__main__':
    sys.exit(main())
