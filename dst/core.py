"""Engine of the simulator: seeds, episodes, isolation of runs, minimisation, replay files, evidence."""

import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback

HOME = os.environ.get('DST_HOME') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')

EPISODE_WALL = 150.0      # a run that has not answered after this many seconds is a hang
EPISODE_CPU = 90          # ... or after this much processor time


class Violation(Exception):

    def __init__(self, kind, detail, sig=None):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail
        self.sig = sig


def derive(*parts):
    """One integer decides everything: every generator is derived from the seed and a path of names."""
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


def rng_for(*parts):
    return random.Random(derive(*parts))


class Ctx:
    """What an executing episode reports to the engine."""

    def __init__(self):
        self.log_lines = []
        self.stats = {}
        self.keys = set()
        self.nontrivial = False
        self.extra = {}

    def log(self, *parts):
        self.log_lines.append(' '.join(str(p) for p in parts))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def key(self, *parts):
        self.keys.add(hashlib.sha256('/'.join(str(p) for p in parts).encode()).hexdigest()[:12])

    @staticmethod
    def fail(kind, detail, sig=None):
        raise Violation(kind, detail, sig)


def target_frames(tb):
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        out.append((fn, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def run_here(prop, ep):
    ctx = Ctx()
    res = {'violation': None, 'harness_error': None}
    try:
        prop.execute(ep, ctx)
    except Violation as v:
        res['violation'] = {'kind': v.kind, 'detail': v.detail[:4000], 'sig': v.sig}
    except BaseException as ex:  # noqa
        frames = target_frames(ex.__traceback__)
        text = ''.join(traceback.format_exception(ex))[-3500:]
        if frames and any(f[0].startswith(os.path.join(REPO, 'pydtmc') + os.sep) for f in frames):
            res['violation'] = {'kind': 'unexpected-exception', 'detail': f'{type(ex).__name__}: {ex}\n{text}', 'sig': None}
        else:
            res['harness_error'] = text
    res['log'] = hashlib.sha256('\n'.join(ctx.log_lines).encode()).hexdigest()[:16]
    res['log_len'] = len(ctx.log_lines)
    res['stats'] = ctx.stats
    res['keys'] = sorted(ctx.keys)
    res['nontrivial'] = bool(ctx.nontrivial)
    res['extra'] = ctx.extra
    if os.environ.get('DST_TRACE'):
        res['trace'] = ctx.log_lines
    return res


def _read_all(fd, pid, wall):
    chunks = []
    deadline = time.monotonic() + wall
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            return None
        r, _, _ = select.select([fd], [], [], min(left, 5.0))
        if r:
            b = os.read(fd, 1 << 16)
            if not b:
                return b''.join(chunks)
            chunks.append(b)


def in_child(fn, wall=EPISODE_WALL, cpu=EPISODE_CPU):
    """Runs fn() in a forked copy of this process and returns its (JSON) result: ('ok', value), ('crash', text) or ('hang', text)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            soft, hard = resource.getrlimit(resource.RLIMIT_CPU)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, hard))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = json.dumps(fn()).encode()
            view = memoryview(out)
            while view:
                n = os.write(w, view)
                view = view[n:]
        except BaseException:  # noqa
            code = 3
            try:
                os.write(w, json.dumps({'__child_error__': traceback.format_exc()[-3000:]}).encode())
            except BaseException:  # noqa
                pass
        finally:
            os._exit(code)
    os.close(w)
    try:
        data = _read_all(r, pid, wall)
    finally:
        os.close(r)
    if data is None:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)
        return 'hang', f'no answer after {wall} s'
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU:
            return 'hang', f'still computing after {cpu} s of processor time'
        return 'crash', f'killed by signal {sig}'
    try:
        value = json.loads(data.decode())
    except ValueError:
        return 'crash', f'exit status {os.WEXITSTATUS(status)}, no answer'
    if isinstance(value, dict) and '__child_error__' in value:
        return 'error', value['__child_error__']
    return 'ok', value


def run_episode(prop, ep):
    wall = getattr(prop, 'wall', EPISODE_WALL)
    status, value = in_child(lambda: run_here(prop, ep), wall=wall)
    if status == 'ok':
        return value
    base = {'violation': None, 'harness_error': None, 'log': '', 'log_len': 0, 'stats': {}, 'keys': [], 'nontrivial': False, 'extra': {}}
    if status == 'hang':
        base['violation'] = {'kind': 'hang', 'detail': value, 'sig': None}
    elif status == 'crash' and 'signal' in value and 'signal 9' not in value:
        base['violation'] = {'kind': 'crash', 'detail': value, 'sig': None}
    else:
        base['harness_error'] = f'{status}: {value}'
    return base


# --- minimisation -----------------------------------------------------------------------------------------------

def _get(ep, path):
    for k in path:
        ep = ep[k]
    return ep


def _with(ep, path, value):
    ep = json.loads(json.dumps(ep))
    target = ep
    for k in path[:-1]:
        target = target[k]
    target[path[-1]] = value
    return ep


def minimise(prop, ep, violation, budget=60.0, log=None):
    """Delta-debugging over the lists the property declares, and over its own simplifications."""
    t0 = time.monotonic()
    tried = [0]

    def fails(candidate):
        if time.monotonic() - t0 > budget:
            return False
        tried[0] += 1
        try:
            res = run_episode(prop, candidate)
        except Exception:  # noqa
            return False
        v = res['violation']
        return v is not None and v['kind'] == violation['kind'] and v.get('sig') == violation.get('sig')

    if hasattr(prop, 'concretise'):
        cand = prop.concretise(ep)
        if cand is not None and fails(cand):
            ep = cand

    changed = True
    while changed and time.monotonic() - t0 < budget:
        changed = False
        for path in prop.shrinkable(ep) if hasattr(prop, 'shrinkable') else []:
            try:
                items = _get(ep, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(items, list):
                continue
            n = 2
            while len(items) > 0 and time.monotonic() - t0 < budget:
                size = max(1, len(items) // n)
                hit = False
                for start in range(0, len(items), size):
                    cand_items = items[:start] + items[start + size:]
                    cand = _with(ep, path, cand_items)
                    if fails(cand):
                        ep, items, hit, changed = cand, cand_items, True, True
                        n = max(n - 1, 2)
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(n * 2, len(items))
        if hasattr(prop, 'simpler'):
            for cand in prop.simpler(ep):
                if time.monotonic() - t0 > budget:
                    break
                if json.dumps(cand, sort_keys=True) != json.dumps(ep, sort_keys=True) and fails(cand):
                    ep, changed = cand, True
                    break
    return ep, tried[0]
