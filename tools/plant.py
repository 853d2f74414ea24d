#!/usr/bin/env python3
"""Plant one bug: build the patch from replacements, confirm it, and run the property's check on it.

usage: plant.py SPEC.py [NAME...]     (SPEC defines BUGS: list of dicts; scratch copies under /tmp/pl)
       plant.py --check NAME [PROPERTY]    (a stored change against a check)
"""
import importlib.util, json, os, re, shutil, subprocess, sys, time

PY = '/opt/venv/bin/python'
SEEDED = '/verif/seeded'


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str))


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    subprocess.run(['cp', '-a', '/repo', dst], check=True)


def demo(d, cwd):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def check(name, prop, repo, seed='1', tier='quick'):
    t = time.time()
    r = sh(['/verif/bin/check', prop, tier], env={'DST_REPO': repo, 'VERIF_SEED': seed, 'DST_MIN': '5'}, timeout=2000)
    lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'detail' in l.lower()]
    return r.returncode, round(time.time() - t), ' '.join(lines)[:300] + (r.stderr[-300:] if r.returncode not in (0, 1) else '')


def plant(b, tests=True):
    name, prop = b['id'], b['property']
    base = f'/tmp/pl/{name}'
    repo = f'{base}/repo'
    copy(repo)
    for f, old, new in b['edits']:
        p = os.path.join(repo, f)
        s = open(p, encoding='utf-8').read()
        old, new = old.strip('\n'), new.strip('\n')
        if s.count(old) != 1:
            print(name, 'EDIT does not match once:', f, s.count(old), repr(old[:80])); return
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    diff = sh(['git', 'diff'], cwd=repo).stdout
    d = f'{SEEDED}/{name}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/usr/bin/env bash\n# run with cwd = the repository: exit 0 when the property holds\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    json.dump({'property': prop, 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    c0 = demo(d, '/repo'); c1 = demo(d, repo)
    msg = []
    if c0[0] != 0: msg.append(f'DEMO FAILS CLEAN {c0}')
    if c1[0] == 0: msg.append(f'DEMO PASSES PATCHED {c1}')
    if tests:
        r = sh([PY, '-m', 'pytest', '-n', '4', '-q', '-p', 'no:cacheprovider', '--benchmark-skip', 'tests/'], cwd=repo, env={'PYTHONPATH': repo}, timeout=1500)
        tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
        if '1914 passed' not in tail:
            msg.append('TESTS ' + tail + ' ' + ' '.join(l for l in r.stdout.splitlines() if l.startswith('FAILED'))[:300])
    rc, dt, out = check(name, prop, repo)
    print(f'{name}: {"OK" if not msg else "; ".join(msg)} | demo {c1[1].strip().splitlines()[-1][:150] if c1[1].strip() else ""} | check rc={rc} {"CAUGHT" if rc == 1 else "MISSED" if rc == 0 else "ERROR"} {dt}s {out}', flush=True)
    shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        name = sys.argv[2]
        meta = json.load(open(f'{SEEDED}/{name}/meta.json'))
        prop = sys.argv[3] if len(sys.argv) > 3 else meta['property']
        base = f'/tmp/pl/{name}-c'
        copy(base + '/repo')
        r = sh(['git', 'apply', f'{SEEDED}/{name}/patch.diff'], cwd=base + '/repo')
        if r.returncode: print(name, 'does not apply', r.stderr)
        else: print(name, prop, check(name, prop, base + '/repo', os.environ.get('VERIF_SEED', '1')), flush=True)
        shutil.rmtree(base, ignore_errors=True)
        sys.exit()
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        try:
            plant(b, tests=not os.environ.get('NOTESTS'))
        except Exception as ex:
            print(b['id'], 'EXC', repr(ex)[:300], flush=True)
