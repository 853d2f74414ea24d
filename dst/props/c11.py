import os
import shutil
import tempfile

from .. import disk, models, simfs
from .base import Base, T

TOL = 3e-5      # rows may miss one by 1e-5, hence the last figure on the disk may


class C11(Base):
    id = 'C11'
    preload = True
    level = 'fault_enumeration'
    episodes = {'quick': 420, 'thorough': 9000}
    rule = ('A run draws a model, a format and possibly an older file at the same path. The process is killed at every disk call of the save (all up to 10, else drawn ones), for writes after a drawn '
            'number of bytes; a stop of the machine leaves one of: the old file, nothing, a prefix cut at a byte, at a line or at a block, a file of full length with zeros from a cut, or with zeroed blocks. '
            'Whatever is left is loaded. Distinct = distinct (model, format, remains) triples; non-trivial: the remains are neither the old nor the new file.')
    measure = 'distinct contents left on the disk'
    stub = ['the disk (native/simfs.c); the process that saves is a fork that is ended at the chosen call']
    assumptions = ['a crash of the machine leaves a prefix of the written data, with holes read as zeros, or the old content; it does not mix old and new data in one file']

    def generate(self, rng, i, tier):
        d = disk.gen_model(rng, big=0.3)
        if rng.random() < 0.35:
            # probabilities with few figures, and zeros at the end of the file
            q = models.gen_hmm(rng, n=len(d['p']), k=len(d['e'][0]), labels='words') if d['k'] == 'hmm' and len(d['p']) < 6 else (models.gen_mc(rng, n=len(d['p']), labels='num') if d['k'] == 'mc' else d)
            d = q
        old = None
        if rng.random() < 0.6:
            old = disk.gen_model(rng, labels=('words',), big=0.2)
            for _ in range(10):
                if old['k'] == d['k']:
                    break
                old = disk.gen_model(rng, labels=('words',), big=0.2)
            if old['k'] != d['k']:
                old = None
        cuts = [rng.random() for _ in range(10)] + [1 - rng.random() * 0.02 for _ in range(10)]
        return {'model': d, 'old': old, 'fmt': rng.choice(disk.FORMATS), 'cuts': cuts, 'crash': [rng.random() for _ in range(8)], 'part': [rng.random() for _ in range(8)], 'tail': rng.randint(1, 40), 'seed': rng.getrandbits(32), 'short': rng.choice([0, 0, 200])}

    def shrinkable(self, ep):
        return [['cuts'], ['crash']]

    def execute(self, ep, ctx):
        tmp = tempfile.mkdtemp(prefix='dst-c11-')
        try:
            self._run(ep, ctx, tmp)
        finally:
            simfs.disarm()
            shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, ep, ctx, tmp):
        d, fmt = ep['model'], ep['fmt']
        work = os.path.join(tmp, 'w')
        os.mkdir(work)
        path = os.path.join(work, 'model.' + fmt)
        old_bytes = disk.saved_bytes(ep['old'], fmt, tmp) if ep['old'] is not None else None
        new_bytes = disk.saved_bytes(d, fmt, tmp)
        ok = [disk.expected(d)] + ([disk.expected(ep['old'])] if ep['old'] is not None else [])
        seen = set()

        def reset():
            for name in os.listdir(work):
                os.unlink(os.path.join(work, name))
            if old_bytes is not None:
                with open(path, 'wb') as f:
                    f.write(old_bytes)

        def judge(text):
            try:
                with open(path, 'rb') as f:
                    content = f.read()
            except FileNotFoundError:
                content = None
            if content in seen:
                return
            seen.add(content)
            try:
                m = disk.cls(d).from_file(path)
            except Exception as ex:  # noqa
                if not disk.documented(ex):
                    ctx.fail('undocumented-error', f'{type(ex).__name__}: {ex}; {text}')
                ctx.stat('remains_refused')
                m = None
            if m is not None:
                ctx.stat('remains_loaded')
                got = disk.describe(m)
                diffs = [disk.difference(x, got, TOL) for x in ok]
                if all(diffs):
                    ctx.fail('another-model', f'{text}: loads as {got}; saved was {ok[0]} ({diffs[0]}); the file is {content[-300:]!r}')
                bad = disk.malformed(m)
                if bad:
                    ctx.fail('malformed-model', f'{text}: {bad}')
            if content not in (None, new_bytes, old_bytes):
                ctx.nontrivial = True
                ctx.key(content)

        # the process ends at a disk call
        reset()
        simfs.arm(work, ep['seed'], short=ep['short'])
        models.build(d).to_file(path)
        n = simfs.stats()['calls']
        simfs.disarm()
        judge('after a complete save')
        points = list(range(1, n + 1)) if n <= 10 and len(ep['crash']) == 8 else sorted({1 + int(c * n) for c in ep['crash']})
        m = models.build(d)
        for idx, c in enumerate(points):
            reset()
            part = ep['part'][idx % len(ep['part'])]
            pid = os.fork()
            if pid == 0:
                try:
                    simfs.arm(work, ep['seed'], short=ep['short'], crash=c, crash_bytes=int(part * min(len(new_bytes), 8192)))
                    m.to_file(path)
                except BaseException:  # noqa
                    pass
                finally:
                    os._exit(0)
            _, status = os.waitpid(pid, 0)
            if os.WEXITSTATUS(status) == 77:
                ctx.stat('fault:process killed')
            ctx.log('kill', c, os.WEXITSTATUS(status))
            judge(f'{fmt}: process killed at disk call {c} of {n}')
        # the machine stops
        total = len(new_bytes)
        remains = [(b'', 'empty')]
        if old_bytes is not None:
            remains.append((old_bytes, 'old'))
        for f in ep['cuts']:
            cut = int(f * total)
            remains.append((new_bytes[:cut], f'cut at byte {cut}'))
            line = new_bytes.rfind(b'\n', 0, cut) + 1
            remains.append((new_bytes[:line], f'cut at line end {line}'))
            for block in (512, 4096):
                remains.append((new_bytes[:cut // block * block], f'cut at block {cut // block * block}'))
                b0 = cut // block * block
                remains.append((new_bytes[:b0] + b'\0' * (min(b0 + block, total) - b0) + new_bytes[b0 + block:], f'block of {block} at {b0} zeroed'))
            remains.append((new_bytes[:cut] + b'\0' * (total - cut), f'zeros from byte {cut}'))
        for back in range(1, 1 + ep['tail']):
            remains.append((new_bytes[:total - back], f'cut {back} bytes before the end'))
        for content, text in remains:
            with open(path, 'wb') as f:
                f.write(content)
            ctx.stat('fault:machine stopped')
            judge(f'{fmt}: {text} of {total}')
        ctx.stat('states_checked', len(seen))


PROP = C11()
