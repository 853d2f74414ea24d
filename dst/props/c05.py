import json
import os
import subprocess
import sys

from .. import core, hist, models, ops
from .base import Base, T

LOCALES = [{'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'POSIX', 'LANG': 'POSIX', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}, {'LC_ALL': 'C', 'LANG': 'C', 'PYTHONUTF8': '1'}]


def interpreter(payload, env, timeout=240):
    e = dict(os.environ)
    e.pop('DST_TRACE', None)
    for k, v in env.items():
        e[k] = v
    r = subprocess.run([sys.executable, '-B', '-m', 'dst.remote'], input=json.dumps(payload).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout)
    if r.returncode != 0:
        raise RuntimeError(f'interpreter ended with {r.returncode}: {r.stderr.decode(errors="replace")[-1500:]}')
    return json.loads(r.stdout.decode('utf-8'))


def has_str_sets(d):
    return d['states'] is not None


class C05(Base):
    id = 'C05'
    episodes = {'quick': 24, 'thorough': 500}
    wall = 400.0
    rule = ('A run draws 14 small worlds of models and calls (labels of all scripts, classes in every placement) and evaluates them in this process, each call on new models, and in three '
            'other interpreters with their own string-hash seed and locale, as one history in another order. Non-trivial: every interpreter answered and more than half of the calls succeeded. '
            'Distinct = distinct (worlds, hash seeds, locales, orders).')
    measure = 'distinct (worlds, hash seeds, locales, orders) tuples'
    assumptions = ['hash seeds and locales are sampled; the locales are those the sandbox has (C.UTF-8, POSIX)']

    def generate(self, rng, i, tier):
        jobs = []
        for _ in range(14):
            ms = [models.gen_mc(rng, nmax=9, labels=rng.choice(['words', 'words', 'uni', 'letters', 'mixedcase', None])) if rng.random() < 0.8 else models.gen_hmm(rng) for _ in range(rng.choice([1, 1, 2]))]
            h = []
            for _ in range(rng.randint(8, 14)):
                op = hist.gen_op(rng, ms, statics=0.12, bad=0.1)
                if op[1] != 'hash':      # hash() may differ between processes by the definition of the language
                    h.append(op)
            jobs.append({'models': ms, 'ops': h})
        others = []
        for v in range(3):
            orders = []
            for job in jobs:
                o = list(range(len(job['ops'])))
                if v > 0:
                    rng.shuffle(o)
                orders.append(o)
            others.append({'hash': str(rng.randint(1, 2**32 - 1)), 'locale': LOCALES[v % 3], 'orders': orders})
        return {'jobs': jobs, 'others': others}

    def shrinkable(self, ep):
        return [['others']]

    def simpler(self, ep):
        # fewer worlds
        n = len(ep['jobs'])
        for lo, hi in ([(0, n // 2), (n // 2, n)] if n > 1 else []) + [(j, j + 1) for j in range(n) if n > 1]:
            c = models.clone(ep)
            c['jobs'] = c['jobs'][lo:hi]
            for o in c['others']:
                o['orders'] = o['orders'][lo:hi]
            yield c
        if n == 1:
            for k in range(len(ep['jobs'][0]['ops'])):
                c = models.clone(ep)
                c['jobs'][0]['ops'].pop(k)
                for o in c['others']:
                    o['orders'][0] = [x - (x > k) for x in o['orders'][0] if x != k]
                yield c

    def execute(self, ep, ctx):
        ref = []
        for job in ep['jobs']:
            row = []
            for op in job['ops']:
                row.append(hist.run(op, {j: models.build(job['models'][j]) for j in hist.models_used(op)}))
            ref.append(row)
        ok = sum(r[0] == 'ok' for row in ref for r in row)
        total = sum(len(row) for row in ref)
        for o in ep['others']:
            payload = {'jobs': [{'models': j['models'], 'ops': j['ops'], 'order': od} for j, od in zip(ep['jobs'], o['orders'])]}
            got = interpreter(payload, dict(o['locale'], PYTHONHASHSEED=o['hash']))
            ctx.stat('interpreters')
            ctx.stat('fault:hash seed')
            ctx.stat('fault:locale ' + o['locale']['LC_ALL'])
            for job, a, b in zip(ep['jobs'], ref, got['out']):
                for op, x, y in zip(job['ops'], a, b):
                    ctx.stat('calls')
                    if not ops.same(x, y):
                        ctx.fail('depends-on-process', f'{hist.show(op)} gives {ops.brief(x, 500)} here and {ops.brief(y, 500)} in an interpreter with PYTHONHASHSEED={o["hash"]}, {o["locale"]}; model {job["models"][op[0]] if op[0] is not None else None}')
            ctx.log(o['hash'], got['hash'])
        ctx.log(ok, total)
        ctx.nontrivial = ok * 2 > total
        ctx.key(ep)


PROP = C05()
