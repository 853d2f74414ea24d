"""Another interpreter that saves or loads model files."""

import json
import os
import sys


def main():
    from . import target
    target.load()
    from . import disk, models
    job = json.loads(sys.stdin.buffer.read().decode('utf-8'))
    out = []
    for d, p in job.get('save', []):
        try:
            models.build(d).to_file(p)
            out.append(None)
        except Exception as ex:  # noqa
            out.append(f'{type(ex).__name__}: {ascii(str(ex))}')
    for k, p in job.get('load', []):
        try:
            out.append(['ok', disk.describe((target.T.MC if k == 'mc' else target.T.HMM).from_file(p))])
        except Exception as ex:  # noqa
            out.append(['exc', f'{type(ex).__name__}: {ascii(str(ex))}'])
    sys.stdout.buffer.write(json.dumps(out).encode())
    sys.stdout.buffer.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
