"""Models and files: saving, loading and comparing, on the simulated disk."""

import os
import pathlib

from . import models, ops, simfs
from .target import T

FORMATS = ['csv', 'json', 'txt', 'xml']
DOCUMENTED = (OSError, ValueError)      # FileNotFoundError is an OSError


def documented(ex):
    return isinstance(ex, DOCUMENTED) or isinstance(ex, T.ValidationError)


def gen_model(rng, labels=('words', 'uni', 'odd', 'odd', 'letters', 'num', 'revnum', None), big=0.2, exact=0.3):
    lab = rng.choice(list(labels))
    if rng.random() < 0.6:
        n = rng.choice([rng.randint(10, 26), rng.randint(10, 26), rng.randint(27, 80)]) if rng.random() < big else rng.randint(2, 6)
        return models.gen_mc(rng, n=n, labels=lab if lab is not None else 'plain', exact=rng.random() < exact)
    n = rng.randint(8, 14) if rng.random() < big else rng.randint(2, 4)
    k = rng.randint(8, 14) if rng.random() < big else rng.randint(2, 4)
    d = models.gen_hmm(rng, n=n, k=k, labels=lab if lab is not None else 'plain', exact=rng.random() < exact)
    if rng.random() < 0.5:
        for r in d['e']:
            w = [x * rng.uniform(0.5, 1.5) for x in r]
            t = sum(w)
            r[:] = [x / t for x in w]
    return d


def cls(d):
    return T.MC if d['k'] == 'mc' else T.HMM


def describe(m):
    if isinstance(m, T.MC):
        return {'k': 'mc', 'p': m.p.tolist(), 'states': list(m.states)}
    return {'k': 'hmm', 'p': m.p.tolist(), 'e': m.e.tolist(), 'states': list(m.states), 'symbols': list(m.symbols)}


def expected(d):
    out = {'k': d['k'], 'p': d['p'], 'states': models.states_of(d)}
    if d['k'] == 'hmm':
        out['e'] = d['e']
        out['symbols'] = models.symbols_of(d)
    return out


def difference(a, b, tol=1e-9):
    """Text saying how two descriptions differ, or None."""
    if a['k'] != b['k']:
        return 'kinds differ'
    for key in ('states', 'symbols'):
        if a.get(key) != b.get(key):
            return f'{key}: {a.get(key)} / {b.get(key)}'
    for key in ('p', 'e'):
        if key in a:
            x, y = a[key], b[key]
            if len(x) != len(y) or any(len(r) != len(s) for r, s in zip(x, y)):
                return f'shape of {key}'
            for i, (r, s) in enumerate(zip(x, y)):
                for j, (u, v) in enumerate(zip(r, s)):
                    if not abs(u - v) <= tol:
                        return f'{key}[{i}][{j}]: {u!r} / {v!r}'
    return None


def malformed(m, tol=1.5e-5):
    import math
    d = describe(m)
    for key in ('states', 'symbols'):
        if key in d:
            v = d[key]
            if not all(isinstance(x, str) and len(x) > 0 for x in v):
                return f'{key} {v} contain something that is no non-empty string'
            if len(set(v)) != len(v):
                return f'{key} {v} are not distinct'
    for key in ('p', 'e'):
        if key in d:
            cols = len(d['states'] if key == 'p' else d['symbols'])
            if len(d[key]) != len(d['states']) or any(len(r) != cols for r in d[key]):
                return f'{key} has the wrong shape'
            for r in d[key]:
                if not all(math.isfinite(x) and 0.0 <= x <= 1.0 for x in r):
                    return f'{key} has a row {r}'
                if not abs(sum(r) - 1.0) <= tol:
                    return f'{key} has the row {r}, which sums to {sum(r)}'
    return None


def path_of(directory, name, as_path):
    p = os.path.join(directory, name)
    return pathlib.Path(p) if as_path else p


def saved_bytes(d, fmt, directory):
    p = os.path.join(directory, 'reference.' + fmt)
    models.build(d).to_file(p)
    with open(p, 'rb') as f:
        out = f.read()
    os.unlink(p)
    return out


def open_fds(directory):
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink(f'/proc/self/fd/{f}')
        except OSError:
            continue
        if t.startswith(directory):
            out.append(t)
    return out
