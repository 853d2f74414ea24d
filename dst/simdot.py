"""Simulated processes in place of Graphviz: whether it is there, starts, answers and renders is decided by the simulator."""

import contextlib
import io
import os
import re
import subprocess
import sys

FAIL = {'missing': lambda: FileNotFoundError(2, 'No such file or directory', 'dot'), 'forbidden': lambda: PermissionError(13, 'Permission denied', 'dot'), 'not executable': lambda: OSError(8, 'Exec format error', 'dot'),
        'no memory': lambda: OSError(12, 'Cannot allocate memory'), 'no processes': lambda: BlockingIOError(11, 'Resource temporarily unavailable'), 'no descriptors': lambda: OSError(24, 'Too many open files'),
        'value': lambda: ValueError('embedded null byte'), 'not a folder': lambda: NotADirectoryError(20, 'Not a directory', 'dot'), 'subprocess': lambda: subprocess.SubprocessError('Exception occurred in preexec_fn.')}
EXIT = {'exit 1': 1, 'exit 127': 127, 'killed': -9, 'crashed': -11}
PROBES = ['ok'] * 4 + sorted(FAIL) + sorted(EXIT)
RENDERS = ['ok'] * 6 + ['missing', 'no memory', 'no descriptors'] + sorted(EXIT) + ['empty', 'torn', 'garbage']
_png = {}


def png(w, h):
    import matplotlib.image as mi
    from .target import T
    if (w, h) not in _png:
        b = io.BytesIO()
        a = T.np.ones((h, w, 4))
        a[::3, :, 0] = 0.5
        mi.imsave(b, a, format='png')
        _png[w, h] = b.getvalue()
    return _png[w, h]


class Pipe(io.BytesIO):
    pass


class World:
    """Installed for the duration of a run; `probe` and `render` say how the next processes behave."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.probe = self.render = 'ok'
        self.log = []              # (kind, mode, source)
        self.live = []
        self.pipes = []
        self.bin = os.path.join(scratch, 'bin')
        os.makedirs(self.bin, exist_ok=True)
        os.makedirs(os.path.join(scratch, 'tmp'), exist_ok=True)

    def install(self):
        world = self

        class Popen:
            def __init__(self, args, *a, **kw):
                argv = [args] if isinstance(args, (str, bytes)) else list(args)
                shell = kw.get('shell')
                if shell and len(argv) == 1:
                    argv = argv[0].split()
                self.args = args
                self.pid = 4000000 + len(world.log)
                src = None
                prog = os.path.basename(str(argv[0])) if argv else ''
                render = any(str(x).startswith('-T') for x in argv[1:])
                self.kind = 'render' if render else 'probe'
                if prog not in ('dot', 'dot.exe') and not shell:
                    mode = 'missing'
                else:
                    mode = world.render if render else world.probe
                if render:
                    for x in argv[1:]:
                        x = str(x)
                        if not x.startswith('-'):
                            try:
                                with open(os.path.join(str(kw.get('cwd') or '.'), x), encoding='utf-8') as f:
                                    src = f.read()
                            except OSError:
                                pass
                world.log.append((self.kind, mode, src))
                if mode in FAIL:
                    if shell:
                        mode = 'exit 127'
                    else:
                        raise FAIL[mode]()
                self.rec = {'args': str(args), 'done': False}
                world.live.append(self.rec)
                self.mode = mode
                self._rc = EXIT.get(mode, 0)
                self.returncode = None
                out = b''
                if self.kind == 'render' and self._rc == 0:
                    nodes = len(re.findall('label', src or ''))
                    out = png(120 + 7 * (nodes % 13), 80 + 5 * (nodes % 11))
                    out = {'empty': b'', 'torn': out[:len(out) // 2], 'garbage': b'not an image'}.get(mode, out)
                err = b'dot - graphviz version 2.43.0 (0)\n' if self.kind == 'probe' else b''
                self.stdin = None
                self._text = bool(kw.get('text') or kw.get('universal_newlines') or kw.get('encoding'))
                self.stdout, self.stderr = self._pipe(kw.get('stdout'), out), self._pipe(kw.get('stderr'), err)

            def _pipe(self, where, data):
                if where == subprocess.PIPE:
                    p = io.StringIO(data.decode('latin-1')) if self._text else Pipe(data)
                    world.pipes.append(p)
                    return p
                if hasattr(where, 'write'):
                    where.write(data)
                return None

            def poll(self):
                self.returncode = self._rc
                self.rec['done'] = True
                return self._rc

            wait = lambda self, timeout=None: self.poll()  # noqa

            def communicate(self, input=None, timeout=None):
                r = tuple(None if p is None else p.read() for p in (self.stdout, self.stderr))
                self._close()
                self.poll()
                return r

            def _close(self):
                for p in (self.stdout, self.stderr):
                    if p is not None:
                        p.close()

            def kill(self):
                self._rc = -9
            terminate = kill

            def send_signal(self, s):
                self._rc = -s

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self._close()
                self.poll()

            def __del__(self):
                # a discarded process object releases its pipes, as the real one does
                if hasattr(self, 'stdout'):
                    self._close()
        self.saved = (subprocess.Popen, os.environ.get('PATH'), os.environ.get('TMPDIR'))
        self.temps = [(m, m.tempdir) for n, m in list(sys.modules.items()) if n.split('.')[-1] == 'tempfile' and hasattr(m, 'tempdir')]      # pydot carries a copy of the module
        subprocess.Popen = Popen
        os.environ['PATH'] = self.bin
        os.environ['TMPDIR'] = os.path.join(self.scratch, 'tmp')
        for m, _ in self.temps:
            m.tempdir = os.path.join(self.scratch, 'tmp')
        self.out = contextlib.redirect_stdout(io.StringIO())
        self.out.__enter__()

    def mode(self, probe, render):
        """An executable stands in the (scratch) path exactly when the simulated Graphviz can be found, for code that looks for it."""
        self.probe, self.render = probe, render
        f = os.path.join(self.bin, 'dot')
        if os.path.lexists(f):
            os.unlink(f)
        if probe != 'missing':
            with open(f, 'w', encoding='utf-8') as h:
                h.write('#!/bin/sh\nexit %d\n' % (0 if probe == 'ok' else 1))
            os.chmod(f, 0o644 if probe == 'forbidden' else 0o755)

    def uninstall(self):
        subprocess.Popen = self.saved[0]
        self.out.__exit__(None, None, None)
        for k, v in (('PATH', self.saved[1]), ('TMPDIR', self.saved[2])):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        for m, v in self.temps:
            m.tempdir = v

    def take(self):
        out, self.log = self.log, []
        return out

    def leftovers(self):
        """Processes never waited for, pipes never closed, temporary files."""
        import gc
        bad = [f'process {p["args"]}' for p in self.live if not p['done']]
        self.live = []
        gc.collect()
        bad += ['pipe' for p in self.pipes if not p.closed]
        self.pipes = []
        for root, ds, fs in os.walk(os.path.join(self.scratch, 'tmp')):
            bad += [f'file {os.path.join(root, f)}' for f in fs + ds]
        return bad


TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<q>"(?:\\.|[^"\\])*")|(?P<e>->|--|[{}\[\];,=:])|(?P<n>-?(?:\.\d+|\d+(?:\.\d*)?))(?![\w\u0080-\U0010ffff])|(?P<i>[A-Za-z_\u0080-\U0010ffff][\w\u0080-\U0010ffff]*)', re.S)


class NotDot(Exception):
    pass


def tokens(src):
    out, i = [], 0
    while i < len(src):
        if src[i] == '<':                             # a label in Graphviz's HTML-like notation
            depth, j = 0, i
            while j < len(src):
                depth += {'<': 1, '>': -1}.get(src[j], 0)
                j += 1
                if depth == 0:
                    break
            if depth:
                raise NotDot(f'unbalanced < at {src[i:i + 30]!r}')
            out.append(('html', src[i:j]))
            i = j
            continue
        m = TOKEN.match(src, i)
        if m is None or m.end() == i:
            raise NotDot(f'syntax error near {src[i:i + 30]!r}')
        k = m.lastgroup
        if k == 'q':
            out.append(('id', m.group()[1:-1].replace('\\"', '"')))
        elif k in ('i', 'n'):
            t = m.group()
            out.append(('key' if t.lower() in ('graph', 'digraph', 'node', 'edge', 'subgraph', 'strict') else 'id', t))
        elif k == 'e':
            out.append(('p', m.group()))
        i = m.end()
    return out


def shown(text):
    """The text that Graphviz draws for a (not HTML-like) label."""
    def f(m):
        c = m.group(1)
        return '\n' if c in 'nlr' else '\0' if c in 'NGETHL' else c
    return re.sub(r'\\(.)', f, text, flags=re.S)


def parse(src):
    """-> nodes {name: attributes}, edges [(from, to, attributes)], groups [(attributes, names of nodes)]; the subset of the language that matters here."""
    ts = tokens(src)
    pos = [0]

    def peek():
        return ts[pos[0]] if pos[0] < len(ts) else ('end', '')

    def take(want=None):
        t = peek()
        if want is not None and t[1] != want:
            raise NotDot(f'{want} expected, not {t}')
        pos[0] += 1
        return t

    def attributes():
        out = {}
        while peek() == ('p', '['):
            take()
            while peek() != ('p', ']'):
                k = take()
                if k[0] == 'end':
                    raise NotDot('the end of the graph inside of attributes')
                take('=')
                v = take()
                out[k[1]] = v[1] if v[0] == 'html' else shown(v[1]) if v[0] in ('id', 'key') else None
                if peek()[1] in (',', ';'):
                    take()
            take(']')
        return out
    nodes, edges, groups = {}, [], []

    def name():
        t = take()
        if t[0] not in ('id', 'html'):
            raise NotDot(f'a name expected, not {t}')
        if peek() == ('p', ':'):                      # a port: the rest is not part of the name
            take()
            take()
        return t[1]

    def body(members, attrs):
        take('{')
        while peek() != ('p', '}'):
            t = peek()
            if t[0] == 'end':
                raise NotDot('unbalanced {')
            if t == ('p', ';'):
                take()
            elif t[0] == 'key' and t[1].lower() in ('graph', 'node', 'edge'):
                take()
                a = attributes()
                if t[1].lower() == 'graph':
                    attrs.update(a)
            elif t == ('p', '{') or (t[0] == 'key' and t[1].lower() == 'subgraph'):
                if t[0] == 'key':
                    take()
                    if peek()[0] in ('id', 'html'):
                        take()
                inner, a = [], {}
                groups.append((a, inner))
                body(inner, a)
            else:
                n = name()
                if peek() == ('p', '='):
                    take()
                    attrs[n] = shown(take()[1])
                    continue
                chain = [n]
                while peek() in (('p', '->'), ('p', '--')):
                    take()
                    chain.append(name())
                a = attributes()
                for x in chain:
                    nodes.setdefault(x, {})
                    if x not in members:
                        members.append(x)
                if len(chain) == 1:
                    nodes[n].update(a)
                else:
                    edges.extend((x, y, a) for x, y in zip(chain, chain[1:]))
        take('}')
    while peek()[0] == 'key' and peek()[1].lower() == 'strict':
        take()
    if peek()[0] != 'key' or peek()[1].lower() not in ('digraph', 'graph'):
        raise NotDot('not a graph')
    take()
    if peek()[0] in ('id', 'html'):
        take()
    body([], {})
    if peek()[0] != 'end':
        raise NotDot('something follows the graph')
    return nodes, edges, groups


def drawn(name, attrs):
    return attrs['label'] if 'label' in attrs else shown(name)
