"""Command line of the simulator: runs a property, or replays a file."""

import importlib
import json
import os
import select
import subprocess
import sys
import time

from . import core

TIERS = ('quick', 'thorough')


def load_prop(pid):
    return importlib.import_module(f'dst.props.{pid.lower()}').PROP


def load_known(pid):
    path = os.path.join(core.HOME, 'known_findings.txt')
    known = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                # finding: property=<id> sig=<signature> <what fails>
                if line.startswith('finding:'):
                    parts = line[len('finding:'):].strip().split(' ', 2)
                    if parts[0] == f'property={pid}':
                        known[parts[1][len('sig='):]] = parts[2]
    return known


def worker(prop, seed, tier, w, nworkers, count, deadline, wfd):
    out = os.fdopen(wfd, 'w')
    i = w
    while i < count and time.monotonic() < deadline:
        ep = prop.generate(core.rng_for(seed, prop.id, i), i, tier)
        res = core.run_episode(prop, ep)
        out.write(json.dumps([i, res]) + '\n')
        out.flush()
        i += nworkers
    out.close()


def explore(prop, seed, tier, count, soft, known):
    nworkers = int(os.environ.get('DST_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    deadline = time.monotonic() + soft
    fds, pids = {}, []
    for w in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, seed, tier, w, nworkers, count, deadline, wr)
            except BaseException:  # noqa
                import traceback
                traceback.print_exc()
                code = 4
            finally:
                os._exit(code)
        os.close(wr)
        fds[r] = b''
        pids.append(pid)
    agg = {'runs': 0, 'nontrivial': 0, 'stats': {}, 'keys': set(), 'harness': [], 'violations': [], 'known': {}, 'logs': {}, 'extra': []}
    stop = False
    while fds and not stop:
        r, _, _ = select.select(list(fds), [], [], 5.0)
        for fd in r:
            b = os.read(fd, 1 << 20)
            if not b:
                os.close(fd)
                del fds[fd]
                continue
            buf = fds[fd] + b
            *lines, rest = buf.split(b'\n')
            fds[fd] = rest
            for line in lines:
                i, res = json.loads(line)
                agg['runs'] += 1
                agg['logs'][i] = res['log']
                agg['nontrivial'] += 1 if res['nontrivial'] else 0
                for k, v in res['stats'].items():
                    agg['stats'][k] = agg['stats'].get(k, 0) + v
                agg['keys'].update(res['keys'])
                if res['extra']:
                    agg['extra'].append(res['extra'])
                if res['harness_error']:
                    agg['harness'].append([i, res['harness_error']])
                v = res['violation']
                if v is not None:
                    if v.get('sig') in known:
                        agg['known'].setdefault(v['sig'], []).append(i)
                    else:
                        agg['violations'].append([i, v])
                        if len(agg['violations']) >= 3:
                            stop = True
    import signal
    for pid in pids:
        if stop:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, status = os.waitpid(pid, 0)
        if not stop and status != 0:
            agg['harness'].append([-1, f'worker ended with status {status}'])
    for fd in fds:
        os.close(fd)
    agg['violations'].sort()
    return agg


def write_evidence(prop, tier, seed, agg, wall, extra_cov, violations):
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['keys']),
        'rule': prop.rule,
        'samples': extra_cov.pop('samples'),
        'runs_nontrivial': agg['nontrivial'],
        'runs_per_hour': round(agg['runs'] / max(wall, 0.001) * 3600),
        'seeds_per_hour': round(agg['runs'] / max(wall, 0.001) * 3600),
        'simulated_time': prop.sim_time if hasattr(prop, 'sim_time') else 'the library reads no clock; time is counted in scheduler steps and injected events',
        'faults_injected': {k[6:]: v for k, v in sorted(agg['stats'].items()) if k.startswith('fault:')},
        'probes': {k: v for k, v in sorted(agg['stats'].items()) if not k.startswith('fault:')},
        'distinct_measure': prop.measure,
        'real_components': prop.real,
        'stubbed_components': prop.stub,
    }
    cov.update(extra_cov)
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level if hasattr(prop, 'level') else 'exploration', 'coverage': cov,
          'wall_s': round(wall, 2), 'assumptions': prop.assumptions, 'violations': violations}
    path = os.path.join(core.HOME, 'evidence', f'{prop.id}.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(path + '.tmp', path)


def maybe_preload(prop):
    if not getattr(prop, 'preload', False) or os.environ.get('DST_PRELOADED') == '1':
        return
    from . import simfs
    so = simfs.ensure_built()
    env = dict(os.environ)
    env['LD_PRELOAD'] = so
    env['DST_PRELOADED'] = '1'
    os.execve(sys.executable, [sys.executable, '-B', '-m', 'dst.run'] + sys.argv[1:], env)


def replay(path):
    with open(path, encoding='utf-8') as f:
        data = json.load(f)
    prop = load_prop(data['property'])
    maybe_preload(prop)
    from . import target
    target.load()
    res = core.run_episode(prop, data['episode'])
    if os.environ.get('DST_TRACE'):
        print('\n'.join(res.get('trace', [])))
    if res['harness_error']:
        print(f'HARNESS-ERROR {res["harness_error"]}', file=sys.stderr)
        return 2
    v = res['violation']
    print(f'log {res["log"]}')
    if v is None:
        print(f'property={prop.id}: the replayed run shows no violation')
        return 0
    print(f'{v["kind"]}: {v["detail"]}')
    print(f'VIOLATION property={prop.id} replay={path}')
    return 1


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in TIERS:
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    prop = load_prop(pid)
    maybe_preload(prop)
    t0 = time.monotonic()
    from . import target
    target.load()
    known = load_known(pid)
    count = int(os.environ.get('DST_COUNT', '0')) or prop.episodes[tier]
    soft = float(os.environ.get('DST_SOFT', '0')) or (getattr(prop, 'soft', 300.0) if tier == 'quick' else getattr(prop, 'soft_thorough', 800.0))
    print(f'property={pid} tier={tier} seed={seed} runs={count}', flush=True)
    agg = explore(prop, seed, tier, count, soft, known)

    samples = []
    for i in (0, 1):
        if i < count:
            s = json.dumps(prop.generate(core.rng_for(seed, prop.id, i), i, tier))
            samples.append({'run': i, 'episode': s if len(s) < 3000 else s[:3000] + '...'})
    extra = {'samples': samples}

    for sig in sorted(known):
        if sig in agg['known']:
            print(f'KNOWN-FINDING: property={pid} {known[sig]}')
    if agg['known']:
        extra['known_findings_seen'] = {k: len(v) for k, v in agg['known'].items()}

    # determinism self-check: a sample of runs again, in fresh processes
    code = 0
    if not agg['violations'] and not os.environ.get('DST_NOSELF'):
        sample = sorted(agg['logs'])[:: max(1, len(agg['logs']) // 6)][:6]
        env = dict(os.environ)
        env['DST_SELF'] = json.dumps(sample)
        r = subprocess.run([sys.executable, '-B', '-m', 'dst.run', '--self', pid, tier, str(seed)], env=env, capture_output=True, text=True)
        mism = []
        try:
            again = json.loads(r.stdout.strip().splitlines()[-1])
            mism = [i for i in sample if again.get(str(i)) != agg['logs'][i]]
        except (ValueError, IndexError):
            mism = ['no answer: ' + r.stderr[-300:]]
        extra['determinism_selfcheck'] = {'runs_repeated_in_a_fresh_process': len(sample), 'event_log_mismatches': len(mism)}
        if mism:
            print(f'note: determinism self-check: {mism}')

    found = []
    if agg['violations']:
        i, v = agg['violations'][0]
        ep = prop.generate(core.rng_for(seed, prop.id, i), i, tier)
        again = core.run_episode(prop, ep)
        if again['violation'] is None:
            for i2, v2 in agg['violations'][1:]:
                ep2 = prop.generate(core.rng_for(seed, prop.id, i2), i2, tier)
                a2 = core.run_episode(prop, ep2)
                if a2['violation'] is not None:
                    i, v, ep, again = i2, v2, ep2, a2
                    break
        if again['violation'] is not None:
            v = again['violation']
            small, tries = core.minimise(prop, ep, v, budget=float(os.environ.get('DST_MIN', '45')))
            res = core.run_episode(prop, small)
            if res['violation'] is None or res['violation']['kind'] != v['kind']:
                small, res = ep, again
            v = res['violation']
            rdir = os.path.join(core.HOME, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{pid}-{seed}-{i}.json')
            with open(path, 'w', encoding='utf-8') as f:
                json.dump({'property': pid, 'seed': seed, 'run': i, 'tier': tier, 'violation': v, 'episode': small, 'minimiser_runs': tries}, f, indent=1, ensure_ascii=False)
            r = subprocess.run([sys.executable, '-B', '-m', 'dst.run', '--replay', path], capture_output=True, text=True)
            confirmed = r.returncode == 1
            print(f'run {i}: {v["kind"]}: {v["detail"]}')
            print(f'minimised in {tries} runs; replay in a fresh process: {"reproduced" if confirmed else "NOT reproduced"}')
            print(f'VIOLATION property={pid} replay={path}')
            found.append({'run': i, 'kind': v['kind'], 'detail': v['detail'][:800], 'replay': path, 'reproduced_in_fresh_process': confirmed})
            code = 1
        else:
            print(f'HARNESS-ERROR: run {i} reported {v} once and not again', file=sys.stderr)
            code = 2
    elif agg['harness']:
        for i, h in agg['harness'][:3]:
            print(f'HARNESS-ERROR run {i}: {h}', file=sys.stderr)
        code = 2

    if hasattr(prop, 'coverage'):
        extra.update(prop.coverage(agg))
    if agg['runs'] < count and not found:
        extra['stopped_early_after_s'] = soft
    write_evidence(prop, tier, seed, agg, time.monotonic() - t0, extra, found)
    print(f'runs={agg["runs"]} nontrivial={agg["nontrivial"]} distinct={len(agg["keys"])} wall={time.monotonic() - t0:.1f}s stats={json.dumps(dict(sorted(agg["stats"].items())))[:1500]}')
    return code


def selfcheck(pid, tier, seed):
    prop = load_prop(pid)
    maybe_preload(prop)
    from . import target
    target.load()
    out = {}
    for i in json.loads(os.environ['DST_SELF']):
        out[str(i)] = core.run_episode(prop, prop.generate(core.rng_for(seed, prop.id, i), i, tier))['log']
    print(json.dumps(out))
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--self':
        sys.exit(selfcheck(sys.argv[2], sys.argv[3], int(sys.argv[4])))
    sys.exit(main(sys.argv[1:]))
