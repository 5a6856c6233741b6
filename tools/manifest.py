#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl and check.SOURCES."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import check
NA = {}
TECH = ('TLA+ specification checked with TLC; sessions enumerated and simulated from it are replayed in the library, '
        'and the recorded traces are validated against it with TLC')
NOTE = ('Every recorded step of every explored session is a transition the specification allows (outcome, returned values, '
        'observation of every live object). Bounded: the families named in the evidence are complete up to the stated stride, the random '
        'behaviours are samples. Trusts TLC, the real arithmetic in java/GReal.java with its error bounds, and the driver.')
EXTRA = {
 'C16': ' The same sessions run through the Python bindings.',
 'C17': ' Sessions run through the Python bindings and python/gsplines/serialization.py.',
}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 tools/build.py --python', checks=[], not_applicable=[],
         notes='No hooks: the checks use the public interface only. See DESIGN.md.')
for p in props:
    i = p['id']
    if i in check.SOURCES:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
                                evidence_file='evidence/%s.json' % i, technique=TECH, level='model_checking', level_note=NOTE + EXTRA.get(i, '')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
