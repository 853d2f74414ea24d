import os
import shutil
import tempfile

from .. import core, faults, hist, models, ops, sched
from .base import Base, T

EXCS = ['MemoryError', 'KeyboardInterrupt', 'LinAlgError', 'OSError', 'RuntimeError']
FORMATS = ['txt', 'csv', 'json', 'xml']


def fds():
    out = []
    for f in os.listdir('/proc/self/fd'):
        try:
            out.append((int(f), os.readlink(f'/proc/self/fd/{f}')))
        except OSError:
            pass
    return sorted(x for x in out if '/proc/' not in x[1])


class C07(Base):
    id = 'C07'
    level = 'fault_enumeration'
    episodes = {'quick': 420, 'thorough': 8000}
    rule = ('A run draws models and one operation (also saving and loading), counts the calls the operation makes to anything beneath the library, and repeats it on new models once per '
            'injection point (all of them up to 40, else 40 drawn ones) with an exception raised there. Non-trivial: at least one fault fired. Distinct = distinct (operation, place, exception) triples.')
    measure = 'distinct (operation, place of the fault, exception) triples'
    stub = ['the callees beneath the library at the chosen injection points (they raise at once instead of running)']
    assumptions = ['a fault surfaces at a call that the library makes to something outside of itself; clean-up primitives (releasing locks, closing, restoring a setting) do not fail']

    def generate(self, rng, i, tier):
        ms = hist.gen_models(rng, most=2)
        x = rng.random()
        if x < 0.1:
            op = [rng.randrange(len(ms)), 'to_file', [rng.choice(FORMATS)], {}]
        elif x < 0.2:
            op = [rng.randrange(len(ms)), 'from_file', [rng.choice(FORMATS)], {}]
        else:
            op = hist.gen_op(rng, ms, statics=0.25, bad=0.06)
        d = ms[op[0]] if op[0] is not None else ms[0]
        if op[1] in ('to_file', 'from_file') and d['states'] is not None and rng.random() < 0.0:
            d['states'] = None
        warm = [hist.gen_op(rng, ms, statics=0, bad=0.1) for _ in range(rng.choice([0, 0, 1, 3]))]
        probes = [hist.gen_op(rng, ms, statics=0.1, bad=0) for _ in range(2)]
        return {'models': ms, 'op': op, 'exc': rng.choice(EXCS), 'warm': warm, 'probes': probes, 'ks': [rng.random() for _ in range(40)]}

    def shrinkable(self, ep):
        return [['ks'], ['warm'], ['probes']]

    def simpler(self, ep):
        return []

    def concretise(self, ep):
        status, v = core.in_child(lambda: self._failing_point(ep))
        if status == 'ok' and v is not None:
            c = models.clone(ep)
            c['ks'] = [v]
            return c
        return None

    def _failing_point(self, ep):
        try:
            self._run(ep, core.Ctx())
        except core.Violation:
            return self.last
        return None

    def execute(self, ep, ctx):
        self._run(ep, ctx)

    def _call(self, op, env, tmp, prepared=None):
        """(raises whatever the operation raises)"""
        if op[1] == 'to_file':
            path = os.path.join(tmp, 'out.' + op[2][0])
            r = env[op[0]].to_file(path)
            with open(path, 'rb') as f:
                return ops.canon([r, f.read().decode('utf-8')])
        if op[1] == 'from_file':
            return ops.canon(type(env[op[0]]).from_file(os.path.join(tmp, 'in.' + op[2][0])))
        return ops.canon(ops.call(op, env, *prepared) if prepared else ops.call(op, env))

    def _run(self, ep, ctx):
        import matplotlib
        np = T.np
        op = ep['op']
        tmp = tempfile.mkdtemp(prefix='dst-c07-')
        self.last = None
        try:
            if op[1] == 'from_file':
                models.build(ep['models'][op[0]]).to_file(os.path.join(tmp, 'in.' + op[2][0]))

            def world():
                env = {j: models.build(d) for j, d in enumerate(ep['models'])}
                for w in ep['warm']:
                    hist.run(w, env)
                return env

            def attempt(env, prepared=None):
                try:
                    return ['ok', self._call(op, env, tmp, prepared)]
                except Exception as ex:  # noqa
                    return ['exc', type(ex).__name__, str(ex)]
            env = world()
            inj = faults.Injector(T.prefix, record=True)
            inj.start()
            base = attempt(env)
            inj.stop()
            names, n = inj.names, inj.count
            probe_ref = [hist.run(p, world()) for p in ep['probes']]
            if len(ep['ks']) == 1 and ep['ks'][0] >= 1:
                ks = [int(ep['ks'][0])]
            elif n <= 40:
                ks = range(1, n + 1)
            else:
                ks = sorted({1 + int(f * n) for f in ep['ks']})
            ctx.stat('injection_points', n)
            ctx.stat('operations')
            ctx.log(op[1], base[0], n)
            state0 = (np.geterr(), matplotlib.is_interactive())
            for k in ks:
                self.last = k
                env = world()
                prepared = None
                before = None
                if op[1] not in ('to_file', 'from_file'):
                    prepared = (ops.dec(op[2], env), ops.dec(op[3], env))
                    before = ops.canon(list(prepared))
                f0 = fds()
                np0 = hist.np_state()
                inj = faults.Injector(T.prefix, at=k, exc=ep['exc'])
                inj.start()
                try:
                    got = ['ok', self._call(op, env, tmp, prepared)]
                except BaseException as ex:  # noqa
                    got = ['exc', type(ex).__name__, str(ex)]
                    del ex
                inj.stop()
                if not inj.fired:
                    continue
                where = inj.fired[0]
                ctx.stat('fault:' + ep['exc'])
                ctx.key(op[1], where, ep['exc'])
                ctx.log(k, where, got[0])
                ctx.nontrivial = True
                text = f'{hist.show(op)} ended by {ep["exc"]} at call {k} ({where})'
                if got[0] == 'ok' and ep['exc'] != 'LinAlgError' and not op[1].startswith('fn.assess') and not ops.same(got, base):
                    ctx.fail('wrong-result', f'{text}: returned {ops.brief(got)} instead of {ops.brief(base)}')
                for j, d in enumerate(ep['models']):
                    if hist.definition_changed(env[j], d):
                        ctx.fail('definition-changed', f'{text}: model {j} is now p={env[j].p.tolist()}')
                if before is not None and not ops.same(ops.canon(list(prepared)), before, rtol=0, atol=0):
                    ctx.fail('argument-changed', f'{text}: the arguments are now {ops.brief(ops.canon(list(prepared)))}')
                for lock in sched.ALL_LOCKS:
                    if lock.locked():
                        ctx.fail('lock-held', f'{text}: a lock is still held')
                if fds() != f0:
                    ctx.fail('descriptor-left', f'{text}: file descriptors {[x for x in fds() if x not in f0]} remain open')
                if (np.geterr(), matplotlib.is_interactive()) != state0:
                    ctx.fail('setting-left', f'{text}: floating-point error handling or interactive mode changed to {np.geterr()}, {matplotlib.is_interactive()}')
                if hist.np_state() != np0 and op[1] not in ('to_file', 'from_file') and got[0] == 'exc':
                    ctx.fail('generator-touched', f'{text}: the global generator changed')
                again = attempt(env, prepared)
                if not ops.same(again, base):
                    ctx.fail('retry-differs', f'{text}: repeating it gives {ops.brief(again)} instead of {ops.brief(base)}')
                for p, ref in zip(ep['probes'], probe_ref):
                    x = hist.run(p, env)
                    if not ops.same(x, ref):
                        ctx.fail('other-operation-differs', f'{text}: afterwards {hist.show(p)} gives {ops.brief(x)} instead of {ops.brief(ref)}')
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


PROP = C07()
