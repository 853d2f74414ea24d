#!/usr/bin/env python3
"""Mutation survey: small changes to the package that its tests do not notice, run against the checks.

usage: mutate.py SEED COUNT OUT.jsonl [FILE...]      (scratch copies under /tmp/mut; COUNT mutants are tried)
"""
import ast, json, os, random, re, shutil, subprocess, sys, time

PY = '/opt/venv/bin/python'
FILES = {
    'validation.py': ['C19', 'C13', 'C22'], 'generators.py': ['C13', 'C25', 'C26', 'C18', 'C19'], 'computations.py': ['C17', 'C16', 'C25'], 'measures.py': ['C16', 'C24'],
    'simulations.py': ['C14', 'C15', 'C18', 'C24'], 'fitting.py': ['C18', 'C28', 'C22'], 'files_io.py': ['C09', 'C12', 'C11', 'C10'], 'plotting.py': ['C27', 'C20', 'C21'],
    'decorators.py': ['C02', 'C01', 'C19'], 'utilities.py': ['C19', 'C03', 'C14', 'C13'], 'markov_chain.py': ['C16', 'C17', 'C25', 'C19', 'C06', 'C14'],
    'hidden_markov_model.py': ['C24', 'C28', 'C25', 'C19', 'C14'], 'base_classes.py': ['C02', 'C19', 'C23'], 'exceptions.py': ['C19'],
}
BY_NAME = [
    (r'random|dirichlet', ['C13', 'C03', 'C19']), (r'fit_sequence|estimate', ['C18', 'C19']), (r'fit_function', ['C22', 'C19']), (r'\bfit$|hmm_fit|baum|_fit_pred|convergence', ['C28', 'C24', 'C19']),
    (r'gamblers|birth_death|urn|population', ['C26', 'C19']), (r'(to|from)_file|read_|write_', ['C09', 'C12', 'C10', 'C11']), (r'simulate|next|stop', ['C14', 'C15', 'C03', 'C19']),
    (r'predict|decode', ['C24', 'C19', 'C06']), (r'to_lazy|to_nth|bounded|merge|sub|canonical|lump|restrict', ['C25', 'C19', 'C06']), (r'sequence_prob', ['C18', 'C19']),
    (r'(to|from)_(dictionary|graph|matri)', ['C25', 'C19', 'C08', 'C06', 'C23']), (r'__init__|__eq__|__hash__', ['C19', 'C23', 'C08']), (r'class|period|recurrent|transient|accessib|communica|cyclic|is_|absorbing_states', ['C17', 'C06', 'C16']),
    (r'committor|hitting|passage|absorption|redistribute|expected|reward|visits|recurrence|mixing|correlation|relaxation|sensitivity|pi$|gth|kemeny|fundamental', ['C16', 'C19', 'C06', 'C17']),
]


def checks_for(f, name):
    if f in ('markov_chain.py', 'hidden_markov_model.py', 'generators.py', 'measures.py', 'simulations.py', 'fitting.py', 'computations.py'):
        for rx, cs in BY_NAME:
            if re.search(rx, name):
                return cs
    return FILES[f]


SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}


def sites(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    owner = {}
    for n in ast.walk(tree):     # outer first
        if isinstance(n, ast.FunctionDef):
            for k in range(n.lineno, n.end_lineno + 1):
                owner[k] = (owner.get(k, '') + '.' if k in owner else '') + n.name
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(n, new, why):
        a, b = span(n)
        out.append((a, b, new, why, n.lineno, owner.get(n.lineno, '')))
    doc = set()
    ann = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        for f in ('annotation', 'returns'):
            v = getattr(n, f, None)
            if v is not None:
                for x in ast.walk(v):
                    ann.add(id(x))
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            for x in ast.walk(n):
                ann.add(id(x))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.startswith('__'):
            for x in ast.walk(n):
                ann.add(id(x))
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in ann:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = SWAP.get(type(n.ops[0]))
            if o:
                add(n, f'{text(n.left)} {o} {text(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + j.join('(' + text(v) + ')' for v in n.values) + ')', 'bool')
            for v in n.values:
                rest = [x for x in n.values if x is not v]
                j2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(n, '(' + j2.join(text(x) for x in rest) + ')', 'bool-drop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f'bool({text(n.operand)})', 'not')
        elif isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            add(n, f'({text(n.left)} {ARITH[type(n.op)]} {text(n.right)})', 'arith')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'const')
            if n.value > 0:
                add(n, str(n.value - 1), 'const')
        elif isinstance(n, ast.Constant) and type(n.value) is float:
            add(n, repr(n.value + 0.5 if n.value in (0.0, 1.0) else n.value * 2), 'const')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'const')
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f.endswith('.copy') and not n.args:
                add(n, f[:-5], 'copy')
            if f in ('_np.copy', 'list', 'sorted', '_cp.copy', '_cp.deepcopy') and len(n.args) == 1:
                add(n, text(n.args[0]), 'unwrap')
            for x, y in (('any', 'all'), ('all', 'any'), ('min', 'max'), ('max', 'min'), ('union1d', 'intersect1d'), ('append', 'remove')):
                if f == x or f.endswith('.' + x):
                    add(n.func, f[:len(f) - len(x)] + y, 'call')
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, 'False', 'never')
            if isinstance(n, ast.If):
                add(n.test, 'True', 'always')
        elif isinstance(n, ast.IfExp):
            add(n, text(n.body), 'ifexp')
            add(n, text(n.orelse), 'ifexp')
        elif isinstance(n, (ast.AugAssign,)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or (isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name)) or isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'delete')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
    return out


def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as ex:
        return 'timeout', (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else '', ''


def main():
    seed, count, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or list(FILES)
    rng = random.Random(seed)
    base = f'/tmp/mut/{seed}'
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    repo = base + '/repo'
    subprocess.run(['cp', '-a', '/repo', repo], check=True)
    mine = set()
    r = sh(['git', 'diff', '-U0', '2a102b6', 'HEAD', '--', 'pydtmc'], cwd=repo)[1]
    cur = None
    for l in r.splitlines():
        if l.startswith('+++ b/'):
            cur = l[6:].split('/')[-1]
        m = re.match(r'@@ -\S+ \+(\d+)(?:,(\d+))? @@', l)
        if m:
            for k in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                mine.add((cur, k))
    all_sites = []
    for f in files:
        p = f'{repo}/pydtmc/{f}'
        if not os.path.exists(p):
            continue
        src = open(p, encoding='utf-8').read()
        for s in sites(src):
            all_sites.append((f, s))
    rng.shuffle(all_sites)
    all_sites = [x for x in all_sites if x[0] not in ('plotting.py', 'assessments.py') or len(files) == 1]
    done = 0
    for f, (a, b, new, why, line, own) in all_sites:
        if done >= count:
            break
        p = f'{repo}/pydtmc/{f}'
        orig = open(f'/repo/pydtmc/{f}', 'rb').read()
        mut = orig[:a] + new.encode() + orig[b:]
        try:
            ast.parse(mut)
        except SyntaxError:
            continue
        done += 1
        open(p, 'wb').write(mut)
        rec = {'file': f, 'fn': own, 'line': line, 'why': why, 'old': orig[a:b].decode()[:160], 'new': new[:160], 'mine': (f, line) in mine}
        rc, o, e = sh([PY, '-B', '-m', 'pytest', '-x', '-n', os.environ.get('MUT_N', '4'), '-q', '-p', 'no:cacheprovider', '--benchmark-skip', 'tests/'], cwd=repo, env={'PYTHONPATH': repo, 'MPLBACKEND': 'Agg'}, timeout=240)
        ok = rc == 0 and '1914 passed' in o
        rec['tests'] = 'survives' if ok else 'killed'
        if ok:
            rec['checks'] = {}
            for c in checks_for(f, own):
                t = time.time()
                rc, o, e = sh(['/verif/bin/check', c, 'quick'], env={'DST_REPO': repo, 'VERIF_SEED': '1', 'DST_MIN': '3', 'DST_NOSELF': '1', 'DST_WORKERS': os.environ.get('MUT_W', '4')}, timeout=600)
                rec['checks'][c] = [rc, round(time.time() - t), next((l for l in o.splitlines() if l.startswith('run ')), '')[:200] + (e[-200:] if rc not in (0, 1) else '')]
                if rc == 1:
                    break
            rec['caught'] = any(v[0] == 1 for v in rec['checks'].values())
        with open(outp, 'a') as g:
            g.write(json.dumps(rec) + '\n')
        open(p, 'wb').write(orig)
    shutil.rmtree(base, ignore_errors=True)


main()
