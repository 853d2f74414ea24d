import json
import os
import shutil
import subprocess
import sys
import tempfile

from .. import core, disk, models, simfs
from .base import Base, T

LOCALES = {'utf8': {'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8'}, 'posix': {'LC_ALL': 'POSIX', 'LANG': 'POSIX', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'},
           'utf8mode': {'LC_ALL': 'POSIX', 'LANG': 'POSIX', 'PYTHONUTF8': '1'}}
TRICKY = ['a b', ' a', 'a ', 'a\tb', 'a\nb', 'a\rb', 'a\u00a0b', 'a\u2028b', '\u3000x', 'a\x1cb', 'a\x85b', 'x\r\ny', 'a\x0bb', '\x01', 'a\x00b', '\ufeffa', '\u200b', 'a\x7f', '\ufffe', '\ud800', ']]>', '<!--', '-->', '&#10;', '" />', '<Item', '?>', 'x" /><y', "a'b", 'P_', 'E_', 'P', 'E']


class C09(Base):
    id = 'C09'
    preload = True
    episodes = {'quick': 600, 'thorough': 12000}
    wall = 400.0
    rule = ('A run draws 1-3 models (sizes up to 26, labels of all scripts and with every metacharacter of the formats), saves and loads them in every format while the simulated disk '
            'shortens and interrupts reads and writes; one run in twenty-five saves in one interpreter and loads in another under drawn locales; one in five uses labels with white space or control '
            'characters. Non-trivial: a model was compared after a transfer that was shortened or interrupted, or crossed interpreters. Distinct = distinct (models, disk seeds) pairs.')
    measure = 'distinct (models, transfer sequence) pairs'
    stub = ['the disk: open, read, write and close of the C library for the files of the run (native/simfs.c); the data itself lies in a scratch directory']
    assumptions = ['the disk delivers all bytes in order, in pieces of any size']

    def generate(self, rng, i, tier):
        if i % 25 == 24:
            ms = [disk.gen_model(rng, labels=('uni', 'uni', 'odd', 'words'), big=0.1) for _ in range(8)]
            return {'mode': 'locale', 'models': ms, 'fmts': [rng.choice(disk.FORMATS) for _ in ms], 'save': rng.choice(['posix', 'utf8', 'utf8mode', 'posix']), 'load': rng.choice(['posix', 'utf8', 'utf8mode'])}
        if i % 5 == 4:
            d = disk.gen_model(rng, labels=('letters',), big=0)
            extra = rng.sample(TRICKY, rng.randint(1, 2))
            for x in extra:
                key = 'states' if d['k'] == 'mc' or rng.random() < 0.5 else 'symbols'
                d[key][rng.randrange(len(d[key]))] = x
            for key in ('states', 'symbols'):
                if key in d and len(set(d[key])) < len(d[key]):
                    d[key] = [f'{x}{j}' for j, x in enumerate(d[key])]
            return {'mode': 'tricky', 'models': [d], 'fmts': disk.FORMATS[:], 'seed': rng.getrandbits(32), 'short': rng.choice([0, 128]), 'eintr': 0}
        ms = [disk.gen_model(rng) for _ in range(rng.choice([1, 2, 3]))]
        return {'mode': 'transfer', 'models': ms, 'fmts': rng.sample(disk.FORMATS, rng.randint(2, 4)), 'seed': rng.getrandbits(32), 'short': rng.choice([0, 40, 128, 220, 250]),
                'eintr': rng.choice([0, 30, 100, 180]), 'paths': rng.random() < 0.5, 'same': rng.random() < 0.4, 'resave': rng.random() < 0.3}

    def shrinkable(self, ep):
        return [['models'], ['fmts']] if ep['mode'] != 'locale' else []

    def execute(self, ep, ctx):
        tmp = tempfile.mkdtemp(prefix='dst-c09-')
        try:
            getattr(self, '_' + ep['mode'])(ep, ctx, tmp)
        finally:
            simfs.disarm()
            shutil.rmtree(tmp, ignore_errors=True)

    def _transfer(self, ep, ctx, tmp):
        moved = 0
        for fi, fmt in enumerate(ep['fmts']):
            for j, d in enumerate(ep['models']):
                m = models.build(d)
                p = disk.path_of(tmp, f'm.{fmt}' if ep['same'] else f'm{j}.{fmt}', ep['paths'])
                text = f'{fmt}, model {d}'
                simfs.arm(tmp, ep['seed'] + 17 * j + fi, short=ep['short'], eintr=ep['eintr'])
                try:
                    m.to_file(p)
                    if ep['resave']:
                        m.to_file(p)
                    back = disk.cls(d).from_file(p)
                except Exception as ex:  # noqa
                    simfs.disarm()
                    ctx.fail('save-or-load-failed', f'{type(ex).__name__}: {ex}; transfers {simfs.stats()}; {text}')
                s = simfs.stats()
                simfs.disarm()
                moved += s['short'] + s['eintr']
                ctx.stat('fault:short transfer', s['short'])
                ctx.stat('fault:interrupted call', s['eintr'])
                ctx.stat('files')
                ctx.stat('format:' + fmt)
                diff = disk.difference(disk.expected(d), disk.describe(back), 0)
                if diff:
                    ctx.fail('loaded-differs', f'{diff}; {text}')
                # and a second generation
                q = disk.path_of(tmp, f'again.{fmt}', False)
                back.to_file(q)
                diff = disk.difference(disk.describe(back), disk.describe(disk.cls(d).from_file(q)), 0)
                if diff:
                    ctx.fail('loaded-differs', f'second generation: {diff}; {text}')
                ctx.log(fmt, s['read'], s['write'], s['bytes'])
        if not ep['same']:
            for fmt in ep['fmts']:
                for j, d in enumerate(ep['models']):
                    diff = disk.difference(disk.expected(d), disk.describe(disk.cls(d).from_file(os.path.join(tmp, f'm{j}.{fmt}'))), 0)
                    if diff:
                        ctx.fail('loaded-differs', f'after all saves: {diff}; {fmt}, model {d}')
        ctx.nontrivial = moved > 0
        if ctx.nontrivial:
            ctx.key(ep)

    def _tricky(self, ep, ctx, tmp):
        d = ep['models'][0]
        try:
            m = models.build(d)
        except Exception as ex:  # noqa
            if not isinstance(ex, T.ValidationError):
                ctx.fail('unexpected-exception', f'{type(ex).__name__}: {ex} building {d}')
            ctx.stat('labels_refused_by_the_constructor')
            return
        for fmt in ep['fmts']:
            p = os.path.join(tmp, f'm.{fmt}')
            simfs.arm(tmp, ep['seed'], short=ep['short'])
            try:
                m.to_file(p)
                refused = False
            except Exception as ex:  # noqa
                simfs.disarm()
                refused = True
                if not disk.documented(ex):
                    ctx.fail('save-failed', f'{type(ex).__name__}: {ex}; {fmt} {d}')
            simfs.disarm()
            labels = models.states_of(d) + (models.symbols_of(d) if d['k'] == 'hmm' else [])
            if refused:
                ctx.stat('saves_refused')
                if all(x.isprintable() and not any(c.isspace() for c in x) for x in labels):
                    ctx.fail('save-refused', f'{fmt}: printable labels {labels} were refused')
                continue
            try:
                back = disk.cls(d).from_file(p)
            except Exception as ex:  # noqa
                ctx.fail('saved-but-not-loadable', f'{fmt}: labels {labels} were accepted by the save; loading gives {type(ex).__name__}: {ex}')
            diff = disk.difference(disk.expected(d), disk.describe(back), 0)
            if diff:
                ctx.fail('labels-altered', f'{fmt}: {diff}')
            ctx.stat('tricky_files')
            ctx.log(fmt, refused)
        ctx.nontrivial = True
        ctx.key(ep)

    def _locale(self, ep, ctx, tmp):
        def other(job, locale):
            env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'DST_TRACE')}
            env.update(LOCALES[locale])
            r = subprocess.run([sys.executable, '-B', '-m', 'dst.remotefiles'], input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200)
            if r.returncode != 0:
                raise RuntimeError(r.stderr.decode(errors='replace')[-1500:])
            ctx.stat('fault:locale ' + locale)
            return json.loads(r.stdout.decode())
        paths = [os.path.join(tmp, f'm{j}.{f}') for j, f in enumerate(ep['fmts'])]
        res = other({'save': [[d, p] for d, p in zip(ep['models'], paths)]}, ep['save'])
        for d, p, r in zip(ep['models'], paths, res):
            if r is not None:
                ctx.fail('save-or-load-failed', f'saving under {ep["save"]}: {r}; {p[-4:]} {d}')
        res = other({'load': [[d['k'], p] for d, p in zip(ep['models'], paths)]}, ep['load'])
        for d, p, r in zip(ep['models'], paths, res):
            if r[0] != 'ok':
                ctx.fail('save-or-load-failed', f'saved under {ep["save"]}, loading under {ep["load"]}: {r}; {p[-4:]} {d}')
            diff = disk.difference(disk.expected(d), r[1], 0)
            if diff:
                ctx.fail('loaded-differs', f'saved under {ep["save"]}, loaded under {ep["load"]}: {diff}; {p[-4:]} {d}')
            ctx.stat('files')
        ctx.nontrivial = True
        ctx.key(ep)


PROP = C09()
