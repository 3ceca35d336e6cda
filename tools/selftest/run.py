"""A test of the analyser itself: the snippets interpreted by pyan against the same snippets run by Python.
(Only toy code of this folder is run; no check depends on it.)  usage: run.py [name ...]; needs numpy: /opt/venv/bin/python"""
import ast
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
from pyan import ai, src, dom


def show(v):
    if isinstance(v, dom.Arr):
        return show(v.nested())
    if type(v).__name__ == 'ndarray':
        return show(v.tolist())
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return sorted((str(k), show(x)) for k, x in v.items())
    if type(v).__name__.startswith(('int', 'uint')):
        return int(v)
    if type(v).__name__.startswith('float'):
        v = float(v)
        return int(v) if v == v and abs(v) < 1e15 and v == int(v) else 'nan' if v != v else v
    if type(v).__name__.startswith('bool'):
        return bool(v)
    if isinstance(v, dom.AStr):
        return 'AStr%r' % (v.segs,)
    return v


def main(names):
    path = os.path.join(HERE, 'snippets.py')
    text = open(path).read()
    m = src.Module('snippets', 'snippets.py', ast.parse(text), text)
    m.rel = m.path = 'snippets.py'

    class P:
        pkg, modules = 'snippets', {'snippets': m}
    ip = ai.Interp(P)
    mv = ip.module('snippets')
    spec = importlib.util.spec_from_file_location('snippets', path)
    host = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(host)
    bad = 0
    for n in [n for n in vars(host) if n.startswith('t_') and (not names or n in names)]:
        want = getattr(host, n)()
        try:
            got = ip.call(mv.env[n], [], {})
        except Exception as e:
            print('%s: %s: %s' % (n, type(e).__name__, e))
            bad += 1
            continue
        w, g = show(want), show(got)
        if w != g:
            bad += 1
            if isinstance(w, list) and isinstance(g, list) and len(w) == len(g):
                for i, (a, b) in enumerate(zip(w, g)):
                    if a != b:
                        print('%s[%d]: want %r got %r' % (n, i, a, b))
            else:
                print('%s: want %r got %r' % (n, w, g))
    print('%d differ' % bad)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
