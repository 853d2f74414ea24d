"""Another interpreter: reads {"models", "ops"} from standard input and writes the outcome of every call."""

import json
import os
import sys


def main():
    from . import target
    target.load()
    from . import hist, models, ops
    data = json.loads(sys.stdin.buffer.read().decode('utf-8'))
    out, back = [], []
    for job in data['jobs']:
        env = {j: models.build(d) for j, d in enumerate(job['models'])}
        res = [None] * len(job['ops'])
        for k in job['order']:
            res[k] = hist.run(job['ops'][k], env)
        out.append(res)
        if job.get('back'):
            import pickle
            back.append([pickle.dumps(m).hex() for m in env.values()])
    sys.stdout.buffer.write(json.dumps({'out': out, 'back': back, 'hash': hash('probe')}).encode('utf-8'))
    sys.stdout.buffer.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
