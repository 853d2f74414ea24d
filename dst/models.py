"""Descriptors of models (plain JSON) and how to build them."""

import json

from .target import T

D = 16     # denominators of "exact" models


def _row_units(rng, n, support, units=D, minimum=1):
    """Random composition of `units` over the given support (every supported column gets at least one unit)."""
    row = [0] * n
    support = list(support)
    if len(support) > units:
        support = rng.sample(support, units)
    left = units - len(support) * minimum
    for j in support:
        row[j] = minimum
    if rng.random() < 0.4:
        for _ in range(left):
            row[rng.choice(support)] += 1
    else:
        cuts = sorted(rng.randint(0, left) for _ in range(len(support) - 1))
        parts = [b - a for a, b in zip([0] + cuts, cuts + [left])]
        for j, x in zip(support, parts):
            row[j] += x
    return row


def _supports(rng, n, style):
    allc = list(range(n))
    if style == 'dense':
        return [allc for _ in allc]
    if style == 'sparse':
        out = []
        for _ in allc:
            out.append(sorted(rng.sample(allc, rng.randint(1, max(1, min(n, 3))))))
        return out
    if style == 'ring':
        k = rng.randint(2, min(n, 4)) if n > 2 else 2
        classes = [[] for _ in range(k)]
        perm = allc[:]
        rng.shuffle(perm)
        for idx, s in enumerate(perm):
            classes[idx % k if idx < k else rng.randrange(k)].append(s)
        out = [None] * n
        for c in range(k):
            for s in classes[c]:
                tgt = classes[(c + 1) % k]
                out[s] = sorted(rng.sample(tgt, rng.randint(1, len(tgt))))
        return out
    if style == 'cycle':
        perm = allc[:]
        rng.shuffle(perm)
        out = [None] * n
        for i, s in enumerate(perm):
            out[s] = [perm[(i + 1) % n]]
        if rng.random() < 0.5 and n > 2:
            s = rng.randrange(n)
            out[s] = sorted(set(out[s]) | {rng.randrange(n)})
        return out
    if style == 'absorbing':
        k = rng.randint(1, max(1, min(2, n - 1)))
        ab = set(rng.sample(allc, k))
        out = []
        for s in allc:
            if s in ab:
                out.append([s])
            else:
                sup = set(rng.sample(allc, rng.randint(1, min(n, 3))))
                if rng.random() < 0.6:
                    sup.add(rng.choice(sorted(ab)))
                out.append(sorted(sup))
        return out
    if style == 'reducible':
        perm = allc[:]
        rng.shuffle(perm)
        blocks, i = [], 0
        while i < n:
            size = rng.randint(1, max(1, min(3, n - i)))
            blocks.append(perm[i:i + size])
            i += size
        out = [None] * n
        for bi, b in enumerate(blocks):
            periodic = len(b) > 1 and rng.random() < 0.4
            for i, s in enumerate(b):
                if periodic:
                    sup = {b[(i + 1) % len(b)]}
                else:
                    sup = set(rng.sample(b, rng.randint(1, len(b)))) | {b[(i + 1) % len(b)]}
                if bi > 0 and rng.random() < 0.4:
                    sup.add(rng.choice([x for bb in blocks[:bi] for x in bb]))
                out[s] = sorted(sup)
        return out
    if style == 'birthdeath':
        out = []
        for s in allc:
            sup = {s2 for s2 in (s - 1, s, s + 1) if 0 <= s2 < n}
            if rng.random() < 0.4 and len(sup) > 1:
                sup.discard(s)
            out.append(sorted(sup))
        return out
    if style == 'identity':
        return [[s] for s in allc]
    raise ValueError(style)


STYLES = ['dense', 'dense', 'sparse', 'sparse', 'ring', 'cycle', 'absorbing', 'reducible', 'reducible', 'birthdeath', 'identity', 'reversible', 'doubly', 'upset', 'lumpable']


def gen_matrix(rng, n, style=None, units=D, exact=True):
    style = style or rng.choice(STYLES)
    if style == 'identity' and rng.random() < 0.7:
        style = 'dense'
    if style == 'reversible':
        w = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                if i == j or rng.random() < 0.7 or j == i + 1:
                    w[i][j] = w[j][i] = rng.randint(1, 6)
        return [[x / sum(r) for x in r] for r in w], style
    if style == 'lumpable':    # blocks of successive states, alike towards the blocks
        cuts = sorted(rng.sample(range(1, n), rng.randint(1, max(1, n - 2))))
        blocks = [list(range(a, b)) for a, b in zip([0] + cuts, cuts + [n])]
        m = [[0] * n for _ in range(n)]
        for b in blocks:
            tgt = sorted(rng.sample(range(len(blocks)), rng.randint(1, len(blocks))))
            share = _row_units(rng, len(blocks), tgt, 16)
            for i in b:
                for j, x in enumerate(share):
                    if x:
                        for c, y in zip(blocks[j], _row_units(rng, len(blocks[j]), sorted(rng.sample(range(len(blocks[j])), rng.randint(1, min(x, len(blocks[j]))))), x)):
                            m[i][c] += y
        return [[x / 16 for x in r] for r in m], style
    if style == 'doubly':
        m = [[0] * n for _ in range(n)]
        parts = rng.choice([(8, 8), (4, 4, 8), (4, 4, 4, 4), (1, 15), (2, 6, 8)])
        for x in parts:
            perm = list(range(n))
            rng.shuffle(perm)
            for i in range(n):
                m[i][perm[i]] += x
        return [[x / 16 for x in r] for r in m], style
    if style == 'upset':       # nearly deterministic rows, tiny probabilities
        sup = _supports(rng, n, 'dense')
        m = []
        for i in range(n):
            eps = rng.choice([1e-3, 1e-6, 1e-9])
            r = [eps] * n
            r[rng.randrange(n)] += 1 - n * eps
            m.append(r)
        return m, style
    sup = _supports(rng, n, style)
    while units < n:
        units *= 4
    m = [[x / units for x in _row_units(rng, n, sup[i], units)] for i in range(n)]
    if not exact and rng.random() < 0.7:
        out = []
        for i in range(n):
            w = [rng.random() ** 2 + 1e-3 if j in sup[i] else 0.0 for j in range(n)]
            t = sum(w)
            out.append([x / t for x in w])
        m = out
    return m, style


_WORDS = ['Sunny', 'Rainy', 'Cloudy', 'Fog', 'Snow', 'Hail', 'Wind', 'Storm', 'Dew', 'Ice', 'Sleet', 'Calm']
_UNI = ['α', 'β', 'γ', 'δ', 'é', 'ñ', '漢', '字', 'Ж', '😀', 'ß', 'Ω', 'ÿ', '€']
_ODD = ['a,b', '"q"', "it's", '<x>', '&amp', 'a;b', '#1', '\\n', 'x=y', '-1', '0', '1e5', 'nan', 'null', 'True', '[1]', '{k}', 'a\'b"c', '%', 'E_x', 'P_y', '..', "''", '|', '~', '+1', '.5', '00', '_', 'e', 'NaN', 'inf', '(A,B)']


def gen_labels(rng, n, style=None, prefix=''):
    style = style or rng.choice(['plain', 'num', 'revnum', 'words', 'uni', 'letters', 'mixedcase', 'bignum', 'nested'])
    if style == 'plain':
        return None if not prefix else [f'{prefix}{i}' for i in range(1, n + 1)]
    if style == 'num':
        out = [str(i) for i in range(1, n + 1)]
        rng.shuffle(out)
    elif style == 'revnum':
        out = [str(i) for i in range(n, 0, -1)]
    elif style == 'bignum':
        out = [str(x) for x in rng.sample(range(5, 5 + 4 * n), n)]
    elif style == 'words':
        out = rng.sample(_WORDS + [w + '2' for w in _WORDS] + [w + '3' for w in _WORDS], n) if n <= 36 else [f'W{i}' for i in range(n)]
    elif style == 'uni':
        pool = _UNI + [u + v for u in _UNI for v in _UNI[:4]]
        out = rng.sample(pool, n) if n <= len(pool) else [f'ü{i}' for i in range(n)]
    elif style == 'odd':
        pool = _ODD + [o + str(i) for o in _ODD for i in (1, 2)]
        out = rng.sample(pool, n) if n <= len(pool) else [f'o{i}' for i in range(n)]
    elif style in ('nested', 'spaced'):        # labels within labels, and within lists of labels
        pool = ['A', 'B', 'AB', 'BA', 'ABA', 'BAB', 'ABAB', 'A,B', 'AB1', 'B1', '1', '11', '12', '1A', '1AB', 'A-B', 'B-A'] + (['A B', 'B A', 'A, B'] if style == 'spaced' else [])
        out = rng.sample(pool, n) if n <= len(pool) else [f'n{i}' for i in range(n)]
    elif style == 'mixedcase':
        pool = [a + b for a in 'aAbBcCdD' for b in 'xXyY']
        out = rng.sample(pool, n) if n <= len(pool) else [f'm{i}' for i in range(n)]
    else:
        pool = [a + b for a in 'abcdefghij' for b in ['', '1', 'z', 'Q']]
        out = rng.sample(pool, n) if n <= len(pool) else [f'l{i}' for i in range(n)]
    return [prefix + o for o in out]


def size(rng, most, huge, rate=0.06):
    """A number of states: mostly small, now and then beyond what small examples would reach."""
    return rng.randint(most + 1, huge) if rng.random() < rate else rng.randint(2, most)


def gen_mc(rng, n=None, style=None, labels=None, exact=True, nmax=6, units=D):
    n = n or size(rng, nmax, 2 * nmax + 2, 0.025)
    p, style = gen_matrix(rng, n, style, units=units, exact=exact)
    return {'k': 'mc', 'p': p, 'states': gen_labels(rng, n, labels), 'style': style}


def gen_hmm(rng, n=None, k=None, labels=None, exact=True, nmax=4, style=None):
    n = n or size(rng, nmax, 2 * nmax, 0.025)
    k = k or size(rng, nmax, 2 * nmax, 0.025)
    p, style = gen_matrix(rng, n, style or rng.choice(['dense', 'dense', 'sparse', 'ring', 'reducible', 'absorbing']), exact=exact)
    e = []
    for _ in range(n):
        sup = sorted(rng.sample(range(k), rng.randint(1, k)))
        e.append([x / D for x in _row_units(rng, k, sup)])
    used = gen_labels(rng, n + k, labels or rng.choice(['words', 'uni', 'letters', 'mixedcase', 'num', 'bignum', 'plain']))
    if used is None:
        return {'k': 'hmm', 'p': p, 'e': e, 'states': None, 'symbols': None, 'style': style}
    return {'k': 'hmm', 'p': p, 'e': e, 'states': used[:n], 'symbols': used[n:], 'style': style}


def build(d):
    np = T.np
    if d['k'] == 'pickled':
        import pickle
        return pickle.loads(bytes.fromhex(d['data']))
    if d['k'] == 'mc':
        return T.MC(np.array(d['p'], dtype=float), None if d['states'] is None else list(d['states']))
    return T.HMM(np.array(d['p'], dtype=float), np.array(d['e'], dtype=float),
                 None if d['states'] is None else list(d['states']), None if d['symbols'] is None else list(d['symbols']))


def states_of(d):
    n = len(d['p'])
    if d['states'] is not None:
        return list(d['states'])
    return [str(i) for i in range(1, n + 1)] if d['k'] == 'mc' else [f'P{i}' for i in range(1, n + 1)]


def symbols_of(d):
    k = len(d['e'][0])
    return list(d['symbols']) if d['symbols'] is not None else [f'E{i}' for i in range(1, k + 1)]


def clone(d):
    return json.loads(json.dumps(d))
