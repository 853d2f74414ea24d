#!/usr/bin/env python3
"""Runs many episodes of a property and lists the distinct violations (a working tool: not a check)."""
import importlib, os, sys, re, collections
from concurrent.futures import ProcessPoolExecutor
from dst import core, target, run
pid, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1
prop = run.load_prop(pid)
run.maybe_preload(prop) if False else None
target.load()
def one(i):
    ep = prop.generate(core.rng_for(seed, prop.id, i), i, 'quick')
    r = core.run_episode(prop, ep)
    return i, r['violation'], r['harness_error']
seen = collections.OrderedDict()
with ProcessPoolExecutor(8) as ex:
    for i, v, h in ex.map(one, range(n), chunksize=4):
        if v or h:
            d = (v['kind'] + ': ' + v['detail']) if v else 'HARNESS ' + h[-600:]
            k = re.sub(r'[\d.\[\], ]+', '', d)[:int(os.environ.get('K', '60'))]
            seen.setdefault(k, [0, i, d])[0] += 1
for k, (c, i, d) in seen.items():
    print(f'--- x{c} run {i}: {d[:int(os.environ.get("W", "500"))]}')
print(len(seen), 'kinds')
