import decimal
import fractions
import math

from .. import core, hist, models, ops
from .base import Base, T

TYPES = ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']
ERRORS = [ValueError, TypeError, ZeroDivisionError, KeyError, RuntimeError, OSError, MemoryError, RecursionError, StopIteration, AssertionError, ArithmeticError, AttributeError, 'validation']
FATAL = [KeyboardInterrupt, SystemExit, GeneratorExit]
VALUES = ['none', 'text', 'number text', 'empty text', 'nan', 'inf', '-inf', 'negative', 'tiny negative', 'complex', 'list', 'object', 'array', 'array 2', 'huge', 'denormal', 'int', 'big int', 'bool', 'f32', 'i64', 'fraction', 'decimal', 'float object', 'bad float object', 'zero', '-zero', 'bytes', 'tuple', 'lambda']
ACTS = ['nested fit', 'nested fit same', 'simulate', 'build bad', 'seterr', 'mutate states', 'clear states', 'stationary', 'seed', 'rebind attributes']
SHAPES = ['plain', 'plain', 'lambda', 'method', 'callable object', 'partial', 'reordered', 'reordered', 'static', 'closure', 'defaults', 'wrapped', 'positional only', 'builtin like']
BASES = ['one', 'sum', 'index', 'gauss', 'sparse', 'identity', 'mixed', 'small', 'large', 'random']


class Boom:
    def __init__(self, v):
        self.v = v

    def __float__(self):
        if self.v is None:
            raise OSError('no number')
        return self.v


class Recorder:
    """The behaviour of a callback: a base value, and what it does at chosen calls."""

    def __init__(self, ep, states, probed):
        self.ep, self.states, self.calls, self.raised, self.probed = ep, states, [], None, probed
        self.rng = core.rng_for(ep['seed'], 'callback', 0)
        self.table = {}

    def base(self, i, x, j, y):
        b = self.ep['base']
        if b == 'one':
            return 1.0
        if b == 'sum':
            return 1.0 + x + 2.0 * y
        if b == 'index':
            return float(1 + i + 3 * j)
        if b == 'gauss':
            return math.exp(-0.5 * (x - y) ** 2)
        if b == 'sparse':
            return float((3 * i + j) % 3 == 0)
        if b == 'identity':
            return float(i == j)
        if b == 'mixed':
            return 0.0 if i % 2 else y + i
        if b == 'small':
            return 1e-200 * (1 + j)
        if b == 'large':
            return 1e150 * (1 + i)
        if (i, j) not in self.table:
            self.table[i, j] = core.rng_for(self.ep['seed'], 'value', i * 1000 + j).random()
        return self.table[i, j]

    def __call__(self, i, x, j, y):
        k = len(self.calls)
        v = self.base(i, x, j, y)
        for at, what in self.ep['acts']:
            if at == k:
                v = self.act(what, v, i, j)
        self.calls.append((i, x, j, y, v))
        return v

    def act(self, what, v, i, j):
        kind, what = what
        np = T.np
        if kind == 'raise':
            e = (FATAL + ERRORS)[what] if isinstance(what, int) else what
            self.raised = T.ValidationError('mine') if e == 'validation' else e('mine')
            self.calls.append(None)
            raise self.raised
        if kind == 'do':
            if what == 'nested fit':
                T.MC.fit_function('trapezoid-rule', ['x', 'y'], lambda x_index, x_value, y_index, y_value: 1.0 + y_index)
            elif what == 'nested fit same':
                T.MC.fit_function(self.ep['type'], list(self.ep['states']), lambda x_index, x_value, y_index, y_value: 1.0 + x_index)
            elif what == 'simulate':
                T.MC([[0.5, 0.5], [0.25, 0.75]]).simulate(3, seed=1)
            elif what == 'build bad':
                try:
                    T.MC([[2.0]])
                except T.ValidationError:
                    pass
            elif what == 'seterr':
                np.seterr(all='ignore')
            elif what == 'mutate states':
                self.states.append('extra')
                self.states[0] = 'changed'
            elif what == 'clear states':
                self.states.clear()
            elif what == 'stationary':
                T.MC([[0.5, 0.5], [0.25, 0.75]]).steady_states  # noqa
            elif what == 'seed':
                np.random.seed(3)
            return v
        return {'none': None, 'text': 'abc', 'number text': '0.5', 'empty text': '', 'nan': math.nan, 'inf': math.inf, '-inf': -math.inf, 'negative': -0.5, 'tiny negative': -1e-300, 'complex': 1j, 'list': [1.0], 'object': object(),
                'array': np.array(1.5), 'array 2': np.array([1.0, 2.0]), 'huge': 1.7e308, 'denormal': 5e-324, 'int': 3, 'big int': 10 ** 400, 'bool': True, 'f32': np.float32(0.25), 'i64': np.int64(2), 'fraction': fractions.Fraction(1, 3),
                'decimal': decimal.Decimal('0.75'), 'float object': Boom(0.5), 'bad float object': Boom(None), 'zero': 0.0, '-zero': -0.0, 'bytes': b'1', 'tuple': (1.0,), 'lambda': len}[what]


def shape(kind, r):
    """The same behaviour as different kinds of callables."""
    import functools
    if kind == 'lambda':
        return lambda x_index, x_value, y_index, y_value: r(x_index, x_value, y_index, y_value)
    if kind == 'reordered':
        return lambda y_value, x_index, y_index, x_value: r(x_index, x_value, y_index, y_value)
    if kind == 'method':
        class A:
            def m(self, x_index, x_value, y_index, y_value):
                return r(x_index, x_value, y_index, y_value)
        return A().m
    if kind == 'static':
        class A:
            @staticmethod
            def m(x_index, x_value, y_index, y_value):
                return r(x_index, x_value, y_index, y_value)
        return A.m
    if kind == 'callable object':
        class A:
            def __call__(self, x_index, x_value, y_index, y_value):
                return r(x_index, x_value, y_index, y_value)
        return A()
    if kind == 'partial':
        def g(k, x_index, x_value, y_index, y_value):
            return r(x_index, x_value, y_index, y_value)
        return functools.partial(g, 1)
    if kind == 'wrapped':
        def h(x_index, x_value, y_index, y_value):
            """the original"""
        @functools.wraps(h)
        def w(*a, **k):
            return r(*a, *[k[n] for n in ('x_index', 'x_value', 'y_index', 'y_value')[len(a):]])
        return w
    if kind == 'defaults':
        def g(x_index, x_value, y_index, y_value=7.0):
            return r(x_index, x_value, y_index, y_value)
        return g
    if kind == 'positional only':
        def g(x_index, x_value, y_index, y_value, /):
            return r(x_index, x_value, y_index, y_value)
        return g

    def f(x_index, x_value, y_index, y_value):
        return r(x_index, x_value, y_index, y_value)
    return f


class C22(Base):
    id = 'C22'
    level = 'fault_enumeration'
    episodes = {'quick': 3000, 'thorough': 200000}
    rule = ('A run draws a quadrature, an interval, states, a callable and its misbehaviour (raising, returning anything, using the library, modifying what it can reach) at 0-3 of its calls, records every call, and compares the chain or error with the '
            'recorded values evaluated outside of the library. Non-trivial: the callback misbehaved. Distinct = distinct (quadrature, callable, behaviour, outcome).')
    measure = 'distinct (quadrature, kind of callable, behaviours, outcome) tuples'
    stub = ['the callback (every call goes through the simulator)']
    assumptions = ['one additional probing call with arguments (1, 1.0, 1, 1.0) may precede the evaluation', 'quadrature weights are taken from the chain of the constant function on the same nodes']

    def generate(self, rng, i, tier):
        q = rng.choice(TYPES)
        n = rng.choice([2, 3, 3, 4, 5, 7])
        if q == 'simpson-rule' and rng.random() < 0.9:
            n = rng.choice([3, 5, 7])
        if rng.random() < 0.03:
            n = rng.randint(8, 30)
        states = models.gen_labels(rng, n) or [f's{k}' for k in range(n)]
        acts = []
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            kind = rng.choice(['raise', 'return', 'return', 'return', 'do'])
            what = rng.randrange(len(FATAL + ERRORS)) if kind == 'raise' else rng.choice(VALUES) if kind == 'return' else rng.choice(ACTS)
            at = rng.choice([0, 1, 1, n, n * n, rng.randrange(1, n * n + 1)])
            acts.append([max(at, 1) if what in ('mutate states', 'clear states') else at, [kind, what]])         # (the states may be read after the probe)
        lo = rng.choice([0.0, 0.0, 1.0, 2.5, rng.random() * 10])
        return {'type': q, 'states': states, 'interval': rng.choice([None, [lo, lo + rng.choice([1.0, 0.5, 4.0, 1e-3, 100.0])]]), 'base': rng.choice(BASES), 'shape': rng.choice(SHAPES), 'acts': acts, 'seed': rng.randrange(10 ** 6)}

    def shrinkable(self, ep):
        return [['acts']]

    def simpler(self, ep):
        for k, v in (('interval', None), ('shape', 'plain'), ('base', 'one')):
            if ep[k] != v:
                yield dict(ep, **{k: v})

    def execute(self, ep, ctx):
        np = T.np
        n = len(ep['states'])
        q = ep['type']
        lo, hi = ep['interval'] or (0.0, 1.0)
        interval = None if ep['interval'] is None else tuple(ep['interval'])
        err0 = np.geterr()

        def fit(r, states):
            return T.MC.fit_function(q, states, shape(ep['shape'], r), interval)
        if q == 'simpson-rule' and n % 2 == 0:
            try:
                fit(Recorder(dict(ep, acts=[], base='one'), ep['states'], False), list(ep['states']))
            except T.ValidationError:
                return
            ctx.fail('accepted', f'{q} with {n} states')
        # the constant function: nodes and weights
        ref = Recorder(dict(ep, acts=[], base='one'), None, False)
        flat = T.MC.fit_function(q, list(ep['states']), shape('plain', ref), interval).p[0]
        states = list(ep['states'])
        r = Recorder(ep, states, True)
        text = f'{q} on {interval} with {n} states, a {ep["shape"]} callback ({ep["base"]}) that does {ep["acts"]}'
        try:
            try:
                out = ['ok', fit(r, states)]
            except Exception as ex:  # noqa
                out = ['exc', type(ex).__name__, str(ex), ex]
            except BaseException as ex:  # noqa
                out = ['fatal', type(ex).__name__, str(ex), ex]
        finally:
            err = np.geterr()
            np.seterr(**err0)
        calls = r.calls
        outcome = out[0] if out[0] == 'ok' else out[1]
        for _, w in ep['acts']:
            ctx.stat(f'fault:{w[0]} {w[1] if w[0] != "raise" else getattr((FATAL + ERRORS)[w[1]], "__name__", "ValidationError")}')
            ctx.nontrivial = True
        ctx.key(q, ep['shape'], ep['base'], sorted(str(w) for _, w in ep['acts']), outcome)
        ctx.log(q, ep['shape'], ep['base'], len(calls), outcome)
        if err != err0 and not any(w[1] == 'seterr' for _, w in ep['acts']):
            ctx.fail('setting-left', f'{text}: floating-point error handling is now {err}')
        # which calls belong to the evaluation: the probe, if any, comes first and is the only one besides n * n
        nodes = [c[3] for c in ref.calls[-n:]]
        full = len(calls) - 1 if len(calls) > 0 else 0
        if out[0] == 'ok' and len(calls) not in (n * n, n * n + 1):
            ctx.fail('wrong-calls', f'{text}: {len(calls)} calls instead of {n * n}')
        if len(ref.calls) not in (n * n, n * n + 1):
            ctx.fail('wrong-calls', f'{text}, constant: {len(ref.calls)} calls instead of {n * n}')
        probe = len(ref.calls) - n * n
        body = calls[probe:]
        if probe and calls and calls[0] is not None and tuple(calls[0][:4]) != (1, 1.0, 1, 1.0):
            ctx.fail('wrong-calls', f'{text}: the first call is {calls[0]}')
        seen = [(c[0], c[2]) for c in body if c is not None]
        if len(set(seen)) != len(seen):
            ctx.fail('wrong-calls', f'{text}: called more than once for {[x for x in seen if seen.count(x) > 1][:3]}')
        if out[0] == 'ok' and set(seen) != {(i, j) for i in range(n) for j in range(n)}:
            ctx.fail('wrong-calls', f'{text}: called for {sorted(set(seen))}')
        for c in body:
            if c is None:
                continue
            i, x, j, y, _ = c
            if not (isinstance(i, (int, np.integer)) and isinstance(j, (int, np.integer)) and isinstance(x, (float, np.floating)) and isinstance(y, (float, np.floating))):
                ctx.fail('wrong-arguments', f'{text}: called with {c[:4]} of types {[type(z).__name__ for z in c[:4]]}')
            if not (0 <= i < n and 0 <= j < n) or x != nodes[i] or y != nodes[j]:
                ctx.fail('wrong-arguments', f'{text}: called with {c[:4]}, the nodes are {nodes}')
        eps = 1e-9 * max(1.0, abs(hi))
        if any(not lo - eps <= v <= hi + eps for v in nodes) or len(set(nodes)) != n:
            ctx.fail('wrong-nodes', f'{text}: the nodes {nodes} are not distinct nodes of the interval')
        # the verdict
        fatal = isinstance(r.raised, BaseException) and not isinstance(r.raised, Exception)
        if out[0] == 'fatal':
            if not fatal or out[3] is not r.raised:
                ctx.fail('fatal', f'{text}: {out[1]}: {out[2]}')
            return
        if fatal:
            ctx.fail('interruption-swallowed', f'{text}: {type(r.raised).__name__} raised by the callback disappeared: {outcome}')
        values = {}
        ok = r.raised is None
        strange = False
        for c in body:
            if c is None:
                continue
            v = c[4]
            try:
                x = float(v)
            except Exception:  # noqa
                ok = False
                break
            if isinstance(v, (str, bytes, list, tuple, np.ndarray)) or not isinstance(v, (int, float, np.integer, np.floating)):
                strange = True               # not a number, although it can be made one: either verdict is fine
            if not math.isfinite(x) or x < 0.0:
                ok = False
            values[c[0], c[2]] = x
        probe_bad = False
        if probe and calls and (calls[0] is None or self.unfit(calls[0][4])):
            probe_bad = True
        if out[0] == 'exc':
            if out[1] not in ('ValidationError', 'ValueError'):
                ctx.fail('wrong-error', f'{text}: {out[1]}: {out[2]}')
            if out[3] is r.raised and not isinstance(r.raised, ValueError):
                ctx.fail('wrong-error', f'{text}: the error of the callback came through: {out[1]}: {out[2]}')
            if ok and not strange and not probe_bad and len(values) == n * n and not self.extreme(values, flat, n):
                ctx.fail('refused', f'{text}: {out[1]}: {out[2]}, all values are non-negative numbers')
            return
        mc = out[1]
        if not ok:
            ctx.fail('accepted', f'{text}: the callback returned or raised something that is not a non-negative number and the result is {mc.p.tolist()}')
        if list(mc.states) != ep['states']:
            ctx.fail('wrong-states', f'{text}: the states are {mc.states} instead of {ep["states"]}')
        p = mc.p
        if p.shape != (n, n) or not np.all(np.isfinite(p)) or np.any(p < 0.0) or not np.allclose(p.sum(axis=1), 1.0, rtol=0, atol=1e-9):
            ctx.fail('malformed', f'{text}: {p.tolist()}')
        if not self.extreme(values, flat, n):
            for i in range(n):
                row = np.array([values[i, j] * flat[j] for j in range(n)])
                want = row / row.sum() if row.sum() > 0.0 else np.full(n, 1.0 / n)
                if not np.allclose(p[i], want, rtol=1e-9, atol=1e-12):
                    ctx.fail('wrong-value', f'{text}: row {i} is {p[i].tolist()} instead of {want.tolist()}')

    @staticmethod
    def unfit(v):
        """Whether a result of the probing call may be refused."""
        return isinstance(v, bool) or not isinstance(v, (int, float, T.np.integer, T.np.floating)) or v != v or abs(v) > 1e300

    @staticmethod
    def extreme(values, flat, n):
        return any(0.0 < abs(v) < 1e-290 or abs(v) > 1e290 for v in values.values())


PROP = C22()
