#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property module that exists, not_applicable for the rest."""
import json
import os
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAMPLED = 'Seeded search: a clean batch is evidence for the explored runs, not a proof. '
NOTES = {
    'C01': ('seeded simulation of thread schedules (one thread at a time, pre-empted at traced lines and at the library\'s locks)', 'exploration', 'Trusted: the scheduler and its simulated locks; calls beneath the library (NumPy, NetworkX) run as one step.'),
    'C02': ('seeded simulation of thread schedules and of failures inside first computations', 'exploration', 'Trusted: the scheduler and its simulated locks.'),
    'C03': ('seeded simulation of call histories and generator states, replayed in pristine processes', 'exploration', 'Entropy taken from elsewhere differs between repetitions with overwhelming probability.'),
    'C04': ('seeded simulation of call histories from chosen generator states', 'exploration', 'Entropy taken from elsewhere differs between repetitions with overwhelming probability.'),
    'C05': ('simulated processes with other hash seeds, locales and histories, compared call by call', 'exploration', 'Hash seeds are sampled; the locales are those of the sandbox.'),
    'C06': ('seeded simulation of operation histories against a fresh model', 'exploration', 'The operation pool covers the public surface except plots.'),
    'C07': ('fault injection: an exception at the k-th call beneath the library, for seeded k and kind', 'fault_enumeration', 'A fault surfaces at a call the library makes to something outside of itself.'),
    'C08': ('seeded simulation of histories in which the caller modifies everything it holds', 'exploration', 'Only definitions and simulated transitions are compared.'),
    'C09': ('simulated disk (short and interrupted reads and writes) and locales under save and load histories', 'exploration', 'The disk shim interposes the C library calls of CPython.'),
    'C10': ('simulated disk: failing open, read, write, close and a full disk at seeded points of saves', 'fault_enumeration', 'The disk shim interposes the C library calls of CPython.'),
    'C11': ('simulated crashes at the calls of a save, with lost, torn and zero-filled data', 'fault_enumeration', 'Crash states are prefixes of the written data with holes, or the old content.'),
    'C12': ('simulated disk serving corrupted content and failing reads', 'exploration', 'Documented errors are ValidationError, ValueError and OSError.'),
    'C13': ('random generators driven by draws that the simulator chooses, including the extremes of their range', 'exploration', 'At most the first 200 uniform numbers of a call are chosen.'),
    'C14': ('walks driven by draws that the simulator chooses, including cumulative boundaries; recorded histories checked', 'exploration', 'At most the first 200 uniform numbers of a call are chosen.'),
    'C15': ('step law measured by walks over a stratified grid of chosen draws; long seeded walks', 'exploration', 'Exact for models with dyadic probabilities if one draw decides one step; otherwise a statistical test with a vanishing false-alarm rate.'),
    'C16': ('walks driven by chosen draws measure the step law; reference walk model computes the quantities', 'exploration', 'The reference model is exact up to floating point on the explored chains.'),
    'C17': ('walks driven by an adversarial choice of draws, against the reported classification', 'exploration', 'Reference: the steps that recorded walks took.'),
    'C18': ('simulated histories recounted', 'exploration', 'Reference: a direct count of the recorded history.'),
    'C19': ('fault injection into source access and caller inspection under invalid arguments', 'fault_enumeration', 'The invalid arguments are those outside of the documented domains.'),
    'C20': ('fault injection at the calls of plotting functions, both interactive modes', 'fault_enumeration', 'A fault surfaces at a call the library makes to something outside of itself.'),
    'C21': ('simulated process creation (Graphviz probe and renderer) with failures', 'fault_enumeration', 'Graphviz itself is a stub.'),
    'C22': ('simulated misbehaving callbacks', 'fault_enumeration', 'The callback log is complete: every call goes through the simulator.'),
    'C23': ('seeded simulation of histories around copies, also across processes', 'exploration', 'Compared through the operation pool.'),
    'C24': ('simulated histories of hidden models decoded against an enumeration of all state paths', 'exploration', 'The reference works in exact rational arithmetic; all paths are enumerated for short histories.'),
    'C25': ('step law of derived chains measured by walks over chosen draws against a mechanism simulated on the original', 'exploration', 'Step laws are resolved to 2^-40; the mechanism is applied to the measured law of the original.'),
    'C26': ('step law of generated chains measured by walks over chosen draws against the simulated mechanism', 'exploration', 'Exact enumeration of the outcomes of the mechanism.'),
    'C27': ('plots of seeded walks under a simulated display and a simulated renderer that parses the graph it is given', 'exploration', 'The quantities themselves are taken from the model; what a figure shows is read from its elements.'),
    'C28': ('training on simulated histories, interrupted by injected failures, judged by a reference expectation step', 'exploration', 'Rounds of training are compared up to the tolerance at which it stops.'),
    'C29': ('simulated histories assessed against a reference that counts their steps', 'exploration', 'The statistics are those of the documented tests as the library defines them on counts.'),
    'C30': ('step law measured by walks over chosen draws; rates derived from the measured law', 'exploration', 'Compared where the quantity is well conditioned.'),
    'C31': ('relay of simulated parties over a channel that reorders, rescales, duplicates, loses and garbles what is exported', 'exploration', 'The walks of the last party are measured over chosen draws.'),
}
props = [json.loads(x) for x in open(os.path.join(HOME, 'properties.jsonl'), encoding='utf-8')]
NA = {
    'N02': 'Optimality (of a heuristic, in general not met) of a pure numerical function of its arguments: nothing nondeterministic to simulate.',
    'N04': 'Accuracy of a pure numerical function of its parameters: nothing nondeterministic to simulate.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES and os.path.exists(os.path.join(HOME, 'dst', 'props', i.lower() + '.py')):
        t, lv, note = NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'bash bin/check {i} quick', 'thorough_cmd': f'bash bin/check {i} thorough', 'evidence_file': f'evidence/{i}.json',
                       'technique': 'deterministic simulation: ' + t, 'level': lv, 'level_note': SAMPLED + note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Its simulation is not built yet.')})
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is the interpreter (tracing, monitoring), the C library (LD_PRELOAD), the NumPy generator state or a module attribute replaced in the simulated process. See DESIGN.md.'}
with open(os.path.join(HOME, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
