import errno
import os
import shutil
import tempfile

from .. import disk, hist, models, simfs
from .base import Base, T

KINDS = [('open', simfs.OPEN, ['EACCES', 'EMFILE', 'ENOSPC', 'EROFS', 'EIO', 'ENFILE', 'EISDIR']), ('write', simfs.WRITE, ['EIO', 'ENOSPC', 'EDQUOT', 'EFBIG', 'EPIPE']),
         ('close', simfs.CLOSE, ['EIO', 'ENOSPC', 'EDQUOT']), ('sync', simfs.SYNC, ['EIO', 'ENOSPC']), ('rename', simfs.RENAME, ['EIO', 'EACCES', 'ENOSPC'])]


class C10(Base):
    id = 'C10'
    preload = True
    level = 'fault_enumeration'
    episodes = {'quick': 700, 'thorough': 14000}
    rule = ('A run draws a model, a format and a sibling model saved before, counts the disk calls of an undisturbed save, and repeats the save once per disk call of a drawn kind with that call '
            'failing (all calls up to 12, else drawn ones), and with a disk that fills up after a drawn number of bytes. Non-trivial: at least one call failed. Distinct = distinct (model, format, failing call, error).')
    measure = 'distinct (model, format, failing call, error) tuples'
    stub = ['the disk: open, read, write, close, fsync and rename of the C library for the files of the run (native/simfs.c)']
    assumptions = ['the failing call transfers nothing (a full disk: everything up to the limit); close releases the descriptor even when it fails']

    def generate(self, rng, i, tier):
        d = disk.gen_model(rng, big=0.35)
        faults = []
        for _ in range(rng.randint(2, 4)):
            x = rng.random()
            if x < 0.3:
                faults.append({'kind': 'full', 'fraction': rng.choice([0, 0.001, 0.5, 0.999, rng.random()])})
            else:
                name, _, errs = KINDS[rng.choice([0, 0, 1, 1, 2, 2, 3, 4])]
                faults.append({'kind': name, 'err': rng.choice(errs), 'sticky': rng.random() < 0.4})
        return {'model': d, 'other': disk.gen_model(rng, labels=('words',), big=0), 'fmt': rng.choice(disk.FORMATS), 'faults': faults, 'seed': rng.getrandbits(32),
                'short': rng.choice([0, 0, 128, 230]), 'eintr': rng.choice([0, 0, 80]), 'old': rng.random() < 0.5, 'paths': rng.random() < 0.3}

    def shrinkable(self, ep):
        return [['faults']]

    def simpler(self, ep):
        for key in ('short', 'eintr'):
            if ep[key]:
                c = models.clone(ep)
                c[key] = 0
                yield c

    def execute(self, ep, ctx):
        tmp = tempfile.mkdtemp(prefix='dst-c10-')
        try:
            self._run(ep, ctx, tmp)
        finally:
            simfs.disarm()
            shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, ep, ctx, tmp):
        d, fmt = ep['model'], ep['fmt']
        work = os.path.join(tmp, 'work')
        os.mkdir(work)
        m, o = models.build(d), models.build(ep['other'])
        other_path = os.path.join(work, 'other.' + fmt)
        o.to_file(other_path)
        with open(other_path, 'rb') as f:
            other_bytes = f.read()
        path = disk.path_of(work, 'model.' + fmt, ep['paths'])

        def prepare():
            for name in os.listdir(work):
                if name != 'other.' + fmt:
                    os.unlink(os.path.join(work, name))
            if ep['old']:
                with open(path, 'wb') as f:
                    f.write(other_bytes)
        prepare()
        simfs.arm(work, ep['seed'], short=ep['short'], eintr=ep['eintr'])
        m.to_file(path)
        base = simfs.stats()
        simfs.disarm()
        size = os.path.getsize(path)
        ctx.log(fmt, base)
        plans = []
        for fault in ep['faults']:
            if fault['kind'] == 'full':
                plans.append(({'budget': int(size * fault['fraction'])}, f'disk full after {int(size * fault["fraction"])} of {size} bytes', 'full disk'))
                continue
            name, mask, _ = next(k for k in KINDS if k[0] == fault['kind'])
            count = base.get(name, 0) if name in ('open', 'write', 'close') else 2
            ks = range(1, count + 1) if count <= 12 else [1, 2, 3, count // 2, count - 2, count - 1, count]
            for k in ks:
                plans.append(({'mask': mask, 'err': getattr(errno, fault['err']), 'sticky': fault['sticky'], 'at': k}, f'{name} call {k} of {count} fails with {fault["err"]}', f'{name} {fault["err"]}'))
        for plan, text, label in plans:
            prepare()
            text = f'saving {fmt}: {text}; model {d}'
            simfs.arm(work, ep['seed'], short=ep['short'], eintr=ep['eintr'], **plan)
            error = None
            try:
                m.to_file(path)
            except Exception as ex:  # noqa
                error = ex
            s = simfs.stats()
            simfs.disarm()
            ctx.log(label, s['failed'], type(error).__name__)
            if s['failed']:
                ctx.stat('fault:' + label, 1)
                ctx.nontrivial = True
                ctx.key(d, fmt, text)
            if error is None:
                if s['failed']:
                    ctx.fail('failure-swallowed', f'the save returned normally; {text}')
                try:
                    back = disk.cls(d).from_file(path)
                except Exception as ex:  # noqa
                    ctx.fail('saved-but-not-loadable', f'{type(ex).__name__}: {ex}; {text}')
                diff = disk.difference(disk.expected(d), disk.describe(back), 0)
                if diff:
                    ctx.fail('saved-but-different', f'{diff}; {text}')
            else:
                if not disk.documented(error):
                    ctx.fail('undocumented-error', f'{type(error).__name__}: {error}; {text}')
                if not s['failed']:
                    ctx.fail('save-failed', f'{type(error).__name__}: {error} although no call failed; {text}')
                ctx.stat('saves_that_raised')
            error = None
            left = disk.open_fds(work)
            if left:
                ctx.fail('descriptor-left', f'{left} still open; {text}')
            with open(other_path, 'rb') as f:
                if f.read() != other_bytes:
                    ctx.fail('other-file-changed', text)
            if hist.definition_changed(m, d):
                ctx.fail('definition-changed', text)
            # once the disk works again
            m.to_file(path)
            diff = disk.difference(disk.expected(d), disk.describe(disk.cls(d).from_file(path)), 0)
            if diff:
                ctx.fail('later-save-differs', f'{diff}; {text}')
            ctx.stat('saves')


PROP = C10()
