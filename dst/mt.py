"""The global NumPy generator as a seam: its state is set so that the next draws are the chosen ones."""

from .target import T

MAX = 1.0 - 2.0 ** -53
MIN = 2.0 ** -53


def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    y = x & 0xffffffff
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xffffffff


def words_of(u):
    k = int(u * 2.0 ** 53)
    k = min(max(k, 0), 2 ** 53 - 1)
    return (k >> 26) << 5, (k & (2 ** 26 - 1)) << 6


_BASE = {}


def set_words(words):
    """The next (at most 624) 32-bit outputs of the global generator."""
    np = T.np
    n = len(words)
    if n not in _BASE:
        import random
        rng = random.Random(n)
        _BASE[n] = np.array([rng.getrandbits(32) for _ in range(624)], dtype=np.uint32)
    key = _BASE[n].copy()
    if n:
        last, memo = None, None
        for i, w in enumerate(words):
            if w != last:
                last, memo = w, _untemper(w)
            key[i] = memo
    np.random.set_state(('MT19937', key, 0, 0, 0.0))


def set_doubles(us, skip_words=()):
    """The next (at most 312, better 200 so that the generator recovers afterwards) uniform numbers; skip_words come first."""
    w = list(skip_words)
    for u in us:
        w += words_of(u)
    set_words(w[:624])


def pattern(rng, special=(), n=200):
    """A stream of uniform numbers that favours the extremes of the range and the given points."""
    kind = rng.choice(['zeros', 'max', 'min', 'alternate', 'mixture', 'mixture', 'special', 'half', 'random', 'zeros_then_random', 'bursts'])
    sp = list(special) or [0.5]
    pts = [0.0, MIN, 2 * MIN, 0.5, 0.5 - MIN, 1.0 - 2 * MIN, MAX]

    def near():
        x = rng.choice(sp)
        return min(max(x + rng.choice([0, 0, MIN, -MIN, 2 * MIN, -2 * MIN]), 0.0), MAX)
    if kind == 'zeros':
        return kind, [0.0] * n
    if kind == 'max':
        return kind, [MAX] * n
    if kind == 'min':
        return kind, [MIN] * n
    if kind == 'half':
        return kind, [0.5] * n
    if kind == 'alternate':
        a, b = rng.choice(pts), rng.choice(pts)
        return kind, [a if i % 2 else b for i in range(n)]
    if kind == 'special':
        return kind, [near() for _ in range(n)]
    if kind == 'random':
        return kind, [rng.random() for _ in range(n)]
    if kind == 'zeros_then_random':
        k = rng.randint(1, 40)
        return kind, [0.0] * k + [rng.random() for _ in range(n - k)]
    if kind == 'bursts':
        out = []
        while len(out) < n:
            out += [rng.choice(pts + [rng.random()])] * rng.randint(1, 12)
        return kind, out[:n]
    return kind, [rng.choice([rng.choice(pts), near(), rng.random()]) for _ in range(n)]
