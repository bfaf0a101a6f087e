"""Regenerates MANIFEST.json from the checks that exist (python3 mkmanifest.py)."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    'C01': 'bounded exhaustive exploration of data-type/location-sample/batch configurations of the real forward model against a reference posterior',
    'C02': 'bounded exhaustive enumeration of the observation state space on the real likelihood code (compiled and Python) against a reference model',
    'C03': 'bounded exhaustive enumeration of amplitude/uncertainty/ratio lattices on the real code against the defining integral',
    'C04': 'bounded exhaustive enumeration of log-value matrices through the real reductions against exact log-sum-exp',
    'C05': 'explicit-state exploration of all state pairs of a chain lattice; measured acceptance checked for detailed balance',
    'C06': 'exhaustive enumeration of scripted random-choice trees and adaptation histories of the real proposal code',
    'C07': 'stateless model checking of chain histories (every accept/reject/zero sequence to a bounded depth against a reference chain) and exploration of all chain steps over a net of states and draws for invariance of the posterior',
    'C08': 'exhaustive enumeration of scripted random-draw lattices; exact push-forward distribution of the real generators',
    'C09': 'explicit-state exploration of all batch sequences of the real sample store against a list model',
    'C10': 'bounded exhaustive enumeration of likelihood tuples/permutations/shifts against the defining identities',
    'C11': 'bounded exhaustive enumeration of geometry lattice and data-dictionary/location-sample orderings against a reference model',
    'C12': 'exploration of the conversion graph (all bounded conversion paths from every lattice source) with tensor-preservation invariant',
    'C13': 'exploration of the conversion graph (all bounded conversion paths from every lattice source) with tensor-preservation invariant',
    'C14': 'exploration of the conversion graph (all bounded conversion paths from every lattice source) with faithful/scale-free invariants',
    'C15': 'bounded exhaustive exploration of multi-event station-overlap/order/zero patterns against a reference posterior',
    'C16': 'stateless model checking of the real pool under a controlled scheduler (all interleavings up to commutation for small pools, bounded deviations for large ones, all task faults) plus real-process replay',
    'C17': 'bounded exhaustive enumeration of file shapes (headers, events, types, records) through write/parse round trips against a record model',
    'C18': 'explicit-state exploration of all record sequences through the real binning/reader against a reference relation',
    'C19': 'explicit-state exploration of container operation sequences and projection lattice against a list/geometry model',
    'C20': 'differential exhaustive exploration: same bounded input space through compiled and pure-Python code',
}
NOTES = json.load(open(os.path.join(HERE, 'level_notes.json')))
checks, na = [], []
for i in range(1, 21):
    cid = 'C%02d' % i
    if os.path.exists(os.path.join(HERE, 'checks', cid.lower() + '.py')):
        checks.append({'property': cid, 'quick_cmd': './check.sh %s --tier quick' % cid,
                       'thorough_cmd': './check.sh %s --tier thorough' % cid, 'technique': 'model checking: ' + TECH[cid],
                       'level': 'model_checking', 'evidence_file': 'evidence/%s.json' % cid,
                       'level_note': NOTES.get(cid, NOTES['default'])})
    else:
        na.append({'property': cid, 'reason': 'check not built yet'})
out = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks in /repo are needed: all nondeterminism is controlled from outside (see DESIGN.md).'}
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
