import errno
import json
import os
import re
import shutil
import tempfile

from .. import disk, models, simfs
from .base import Base, T

NUMBERS = ['nan', 'NaN', 'inf', '-inf', 'Infinity', '-0.0', '-0.25', '-1e-300', '1e-320', '1e400', '-1e400', '2', '1.5', '1', '0', '', ' ', '1e5', '0x1', '1_000', '٠٫٥', '１', 'true', 'null', '"0.5"', '[0.5]', '{}', '1,5', '0.5.5',
           '1' + '0' * 400, '1' * 5000, '0.' + '3' * 400, '.5', '5.', '+0.5', '1/2', '0.5 ', '\u00a00.5', '1.000001', '1.0000000001', '-1e-12', '0.30000000000000004', 'E', 'P', '1d0', 'Nan%']
TEXTS = ['', ' ', '\t', 'a', 'A', '\ufeff', '\x00', '\u202e', 'é', '"', "'", ',', ';', '<', '&lt;', '&bogus;', '\\u0041', '\n', '\r', '\r\n', '\x1a', 'P', 'E', 'P_', 'E_', '#', '\ud83d'.encode('utf-16', 'surrogatepass').decode('latin-1')]
SPECIAL = {
    'csv': ['a,b\n0.5,0.5\n0.5,0.5\n', 'a,a\n0.5,0.5\n0.5,0.5\n', ' a,a\n0.5,0.5\n0.5,0.5\n', 'a,b\n0.5,0.5\n0.5,0.5,\n', ',\n0.5,0.5\n0.5,0.5\n', 'a,b\nnan,nan\n0.5,0.5\n', 'a,b\n1,1\n0,1\n', '"a\n0.5,0.5\n', 'a,b\n\n0.5,0.5\n0.5,0.5\n',
            ' , \n0.5,0.5\n0.5,0.5\n', 'a,b\n1e999,0\n0,1\n', 'a,b\n-0.5,1.5\n0.5,0.5\n', 'P_a,P_b,E_x,E_y\n.5,.5,.5,.5\n.5,.5,.5,.5\n', 'P_a,P_a,E_x,E_y\n.5,.5,.5,.5\n.5,.5,.5,.5\n', 'P_a,P_b,E_x,E_a\n.5,.5,.5,.5\n.5,.5,.5,.5\n',
            'E_x,E_y\n.5,.5\n', 'P_a,P_b\n.5,.5\n.5,.5\n', 'P_a,P_b,E_ ,E_y\n.5,.5,.5,.5\n.5,.5,.5,.5\n', 'P_a,P_b,E_x\n.5,.5,1\n.5,.5,1\n', '\n', '\n\n\n', ',', 'a\n1\n', 'a,b\r0.5,0.5\r0.5,0.5\r', 'x' * 140000 + ',b\n1,0\n0,1\n',
            '"a"",b",c\n0.5,0.5\n0.5,0.5\n', 'a, a \n0.5,0.5\n0.5,0.5\n', 'A,a\n0.5,0.5\n0.5,0.5\n', 'e\u0301,\u00e9\n0.5,0.5\n0.5,0.5\n'],
    'json': ['[]', '{}', 'null', '1', '"x"', '[[]]', '[null]', '[' * 100000, '[' * 5000 + ']' * 5000, '{"a":' * 3000, '[{}]', '[{"state_from":"a"}]', 'NaN', '[NaN]', '\ufeff[]', '[{"state_from":"a","state_to":"a","probability":true},{"state_from":"b","state_to":"b","probability":true}]',
             '[{"state_from":"a","state_to":"a","probability":NaN},{"state_from":"b","state_to":"b","probability":1}]', '[{"state_from":"a","state_to":"a","probability":1e999},{"state_from":"b","state_to":"b","probability":1}]',
             '[{"state_from":" ","state_to":" ","probability":1},{"state_from":"b","state_to":"b","probability":1}]', '[{"state_from":"a","state_to":"a","probability":1' + '0' * 400 + '},{"state_from":"b","state_to":"b","probability":1}]',
             '[{"state_from":"a","state_to":"a","probability":1' + '0' * 5000 + '},{"state_from":"b","state_to":"b","probability":1}]',
             '[{"state_from":"a","state_to":"c","probability":1},{"state_from":"b","state_to":"b","probability":1},{"state_from":"a","state_to":"a","probability":0}]',
             '[{"state_from":"a","state_to":"a","probability":1},{"state_from":"a","state_to":"a","probability":1},{"state_from":"b","state_to":"b","probability":1}]',
             '[{"state_from":["a"],"state_to":["a"],"probability":1},{"state_from":"b","state_to":"b","probability":1}]', '[{"state_from":"\\ud800","state_to":"\\ud800","probability":1},{"state_from":"b","state_to":"b","probability":1}]',
             '[{"reference":"P","element_from":"a","element_to":"a","probability":1},{"reference":"P","element_from":"b","element_to":"b","probability":1},{"reference":"E","element_from":"a","element_to":"x","probability":1},{"reference":"E","element_from":"a","element_to":"y","probability":0}]',
             '[{"reference":"E","element_from":"a","element_to":"x","probability":1}]', '[{"reference":"Q","element_from":"a","element_to":"x","probability":1}]',
             '[{"reference":"P","element_from":"a","element_to":"a","probability":1},{"reference":"P","element_from":"b","element_to":"b","probability":1},{"reference":"E","element_from":"a","element_to":"x","probability":1},{"reference":"E","element_from":"a","element_to":"y","probability":0},{"reference":"E","element_from":"z","element_to":"y","probability":0}]'],
    'txt': ['a a 1\nb b 1\n', 'a a 0.5\n', 'a b 1\nb a 1\n', 'a a 1\na a 1\nb b 1\n', 'a a nan\nb b 1\n', 'a a inf\nb b 1\n', 'a a 1e400\nb b 1\n', '\n', ' \n', 'a a 1\n\nb b 1\n', 'a\ta\t1\nb\tb\t1\n', 'a a 1\r\nb b 1\r\n', 'a a 1\nb b 1\nc a 1\n', 'a a -1\na b 2\nb b 1\n',
            'P a a 1\nP b b 1\nE a x 1\nE b x 1\n', 'P a a 1\nP b b 1\nE a x 1\nE a y 0\nE b y 1\n', 'P a a 1\nP b b 1\nE a x 1\nE a y 0\nE b z 1\n', 'P a a 1\nP b b 1\n', 'E a x 1\nE a y 0\n', 'P a a 1\nP b b 1\nE a a 1\nE a b 0\nE b a 1\n', 'Q a a 1\n', 'a a 1\x85b b 1\n', 'a\u3000a\u30001\nb b 1\n',
            'a a 1\nb b 1_0e-1\n', 'a a １\nb b 1\n'],
    'xml': ['<MarkovChain/>', '<MarkovChain></MarkovChain>', '<HiddenMarkovModel/>', '<x/>', '<MarkovChain><Item/></MarkovChain>', '<!DOCTYPE x [<!ENTITY a "aa"><!ENTITY b "&a;&a;">]><MarkovChain>&b;</MarkovChain>',
            '<!DOCTYPE x SYSTEM "file:///nonexistent"><MarkovChain/>', '<MarkovChain><MarkovChain><Item state_from="a" state_to="a" probability="1"/></MarkovChain><Item state_from="b" state_to="b" probability="1"/></MarkovChain>',
            '<MarkovChain><Item state_from="a" state_to="a" probability="nan"/><Item state_from="b" state_to="b" probability="1"/></MarkovChain>', '<MarkovChain><Item state_from="a" state_to="a" probability="1"/><Item state_from=" a" state_to=" a" probability="1"/></MarkovChain>',
            '<MarkovChain><Item state_from="a" state_to="a" probability=" 1 "/><Item state_from="b" state_to="b" probability="1"/></MarkovChain>', '<MarkovChain><Item state_from="a" state_to="a" probability="1"><Item state_from="b" state_to="b" probability="1"/></Item></MarkovChain>',
            '<MarkovChain>' + '<Item>' * 3000 + '</Item>' * 3000 + '</MarkovChain>', '<?xml version="1.0" encoding="utf-16"?><MarkovChain/>', '<?xml version="1.0" encoding="bogus"?><MarkovChain/>', '<MarkovChain><!-- c --><Item state_from="a" state_to="a" probability="1"/><Item state_from="b" state_to="b" probability="1"/></MarkovChain>',
            '<MarkovChain><?pi x?><Item state_from="a" state_to="a" probability="1"/><Item state_from="b" state_to="b" probability="1"/></MarkovChain>', '<MarkovChain xmlns="u"><Item state_from="a" state_to="a" probability="1"/></MarkovChain>',
            '<HiddenMarkovModel><Item reference="P" element_from="a" element_to="a" probability="1"/><Item reference="P" element_from="b" element_to="b" probability="1"/><Item reference="E" element_from="a" element_to="x" probability="1"/><Item reference="E" element_from="a" element_to="y" probability="0"/></HiddenMarkovModel>'],
}


def damage(rng, data, fmt):
    """-> (description, bytes)"""
    x = rng.random()
    if x < 0.12:
        return 'special', rng.choice(SPECIAL[fmt]).encode('utf-8', 'surrogatepass')
    if x < 0.45:
        text = data.decode('utf-8')
        spots = [m.span() for m in re.finditer(r'[0-9]+\.[0-9]+(e-?[0-9]+)?', text)]
        n = rng.choice([1, 1, 2])
        for _ in range(n):
            spots = [m.span() for m in re.finditer(r'[0-9]+\.[0-9]+(e-?[0-9]+)?', text)]
            if spots:
                a, b = rng.choice(spots)
                text = text[:a] + rng.choice(NUMBERS) + text[b:]
        return 'numbers', text.encode('utf-8', 'surrogatepass')
    if x < 0.6:
        text = data.decode('utf-8')
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(len(text) + 1)
            b = min(len(text), a + rng.choice([0, 0, 1, 1, 3]))
            text = text[:a] + rng.choice(TEXTS) + text[b:]
        return 'texts', text.encode('utf-8', 'surrogatepass')
    if x < 0.72:
        parts = re.split(rb'(?<=[\n}>])', data)
        for _ in range(rng.randint(1, 3)):
            if len(parts) > 1:
                i, j = rng.randrange(len(parts)), rng.randrange(len(parts))
                y = rng.random()
                if y < 0.35:
                    del parts[i]
                elif y < 0.65:
                    parts.insert(j, parts[i])
                else:
                    parts[i], parts[j] = parts[j], parts[i]
        return 'lines', b''.join(parts)
    if x < 0.8:
        # a label takes the place of another one
        text = data.decode('utf-8')
        words = sorted(set(re.findall(r'[^\s,"<>{}:=/]+', text)))
        a, b = rng.choice(words), rng.choice(words)
        return 'words', (text.replace(a, b, 1) if rng.random() < 0.5 else text.replace(a, b)).encode('utf-8')
    if x < 0.9:
        b = bytearray(data)
        for _ in range(rng.choice([1, 1, 2, 5, 20])):
            if b:
                y = rng.random()
                k = rng.randrange(len(b))
                if y < 0.5:
                    b[k] ^= 1 << rng.randrange(8)
                elif y < 0.75:
                    b[k] = rng.randrange(256)
                else:
                    del b[k]
        return 'bytes', bytes(b)
    y = rng.random()
    text = data.decode('utf-8')
    if y < 0.2:
        return 'encoding', text.encode(rng.choice(['utf-16', 'utf-32', 'utf-16-le', 'utf-8-sig']))
    if y < 0.3:
        return 'encoding', text.encode('latin-1', 'replace')
    if y < 0.5:
        return 'noise', bytes(rng.randrange(256) for _ in range(rng.choice([1, 10, 200])))
    if y < 0.7:
        a = rng.randrange(len(data) + 1)
        return 'repeated', data[:a] + data[rng.randrange(len(data) + 1):]
    if y < 0.85:
        return 'twice', data + data
    return 'newlines', data.replace(b'\r\n', b'\n').replace(b'\n', rng.choice([b'\r', b'\n\n', b'\r\r\n', b' ', b'']))


class C12(Base):
    id = 'C12'
    preload = True
    episodes = {'quick': 1200, 'thorough': 24000}
    rule = ('A run saves a drawn model, damages the file in 14 drawn ways (numbers, texts, labels, lines, bytes, encodings, hand-made hostile files, another format under this extension), and loads each of '
            'them as both kinds of model, a third of the times while the simulated disk fails a read or an open, shortens transfers, or ends the file early. Non-trivial: damage that loads, or an I/O error that fired. '
            'Distinct = distinct (file content, disk plan) pairs.')
    measure = 'distinct (file content, disk plan) pairs'
    stub = ['the disk (native/simfs.c)']
    assumptions = ['documented errors are ValidationError, ValueError and OSError']

    def generate(self, rng, i, tier):
        return {'model': disk.gen_model(rng, big=0.06), 'fmt': rng.choice(disk.FORMATS), 'seed': rng.getrandbits(48), 'cases': list(range(14))}

    def shrinkable(self, ep):
        return [['cases']]

    def execute(self, ep, ctx):
        tmp = tempfile.mkdtemp(prefix='dst-c12-')
        try:
            self._run(ep, ctx, tmp)
        finally:
            simfs.disarm()
            shutil.rmtree(tmp, ignore_errors=True)

    def _run(self, ep, ctx, tmp):
        import random
        d, fmt = ep['model'], ep['fmt']
        data = disk.saved_bytes(d, fmt, tmp)
        work = os.path.join(tmp, 'w')
        os.mkdir(work)
        for c in ep['cases']:
            rng = random.Random(ep['seed'] * 100 + c)
            kind, content = damage(rng, data, fmt)
            ext = fmt if rng.random() < 0.93 else rng.choice(disk.FORMATS)
            path = os.path.join(work, f'f{c}.{ext}')
            with open(path, 'wb') as f:
                f.write(content)
            if rng.random() < 0.02:
                os.unlink(path)
            elif rng.random() < 0.02:
                os.unlink(path)
                os.mkdir(path)
            plan, io = {}, None
            if rng.random() < 0.33:
                x = rng.random()
                if x < 0.35:
                    plan = {'mask': simfs.READ, 'err': errno.EIO, 'at': rng.choice([1, 2, 2, 3, 4]), 'sticky': rng.random() < 0.5}
                    io = 'read EIO'
                elif x < 0.6:
                    e = rng.choice(['EMFILE', 'EACCES', 'ENOENT', 'EIO'])
                    plan = {'mask': simfs.OPEN, 'err': getattr(errno, e), 'at': rng.choice([1, 2]), 'sticky': rng.random() < 0.5}
                    io = 'open ' + e
                elif x < 0.7:
                    plan = {'mask': simfs.CLOSE, 'err': errno.EIO, 'at': rng.choice([1, 2])}
                    io = 'close EIO'
                else:
                    plan = {'short': rng.choice([60, 200, 255]), 'eintr': rng.choice([0, 100])}
                    io = 'short transfers'
            for kls in (T.MC, T.HMM):
                text = f'{kls.__name__}.from_file of a damaged {ext} ({kind}): {content[:700]!r}, disk {io} {plan}'
                simfs.arm(work, ep['seed'] & 0xffffffff, **plan)
                m = error = None
                try:
                    m = kls.from_file(path)
                except Exception as ex:  # noqa
                    error = ex
                s = simfs.stats()
                simfs.disarm()
                ctx.stat('loads')
                ctx.stat('damage:' + kind)
                if io and (s['failed'] or s['short'] or s['eintr']):
                    ctx.stat('fault:' + io)
                ctx.log(c, kind, io, type(error).__name__)
                if error is not None:
                    if not disk.documented(error):
                        ctx.fail('undocumented-error', f'{type(error).__name__}: {error}; {text}')
                    ctx.stat('refused')
                    name = type(error).__name__
                    error = None
                    if s['failed']:
                        ctx.nontrivial = True
                        ctx.key(content, plan, name)
                else:
                    bad = disk.malformed(m)
                    if bad:
                        ctx.fail('malformed-model', f'{bad}; {text}')
                    ctx.stat('loaded')
                    # a loaded model works
                    try:
                        m.simulate(5, 0, seed=1)
                    except Exception as ex:  # noqa
                        ctx.fail('unusable-model', f'simulate: {type(ex).__name__}: {ex}; {text}')
                    ctx.nontrivial = True
                    ctx.key(content, plan)
                left = disk.open_fds(work)
                if left:
                    ctx.fail('descriptor-left', f'{left}; {text}')


PROP = C12()
