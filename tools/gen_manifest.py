"""Writes /verif/MANIFEST.json from the contract modules present (run with python3-vt)."""
import importlib
import json
import os
import sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
NA = {
    'C31': 'quantifies over thread interleavings: the sequential contracts of this verifier describe one thread, there is '
           'no concurrent separation logic for CPython threads, queues and events within reach; a bounded interleaving '
           'search would be another technique',
    'C32': 'the result depends on operating-system processes, pipes and their failures (expjobs is not even installed '
           'here); contracts on the Python text cannot express or decide what the workers do',
}
TODO = 'no contract has been discharged for it yet; nothing else is claimed in its place'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        path = os.path.join(HERE, 'contracts', i.lower() + '.py')
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
            continue
        if not os.path.exists(path):
            na.append({'property': i, 'reason': TODO})
            continue
        m = importlib.import_module('contracts.' + i.lower())
        lv = getattr(m, 'LEVEL', 'proof')
        note = getattr(m, 'NOTE', '')
        bounded = sorted(set((c.title or c.qual) + ': ' + c.bound_text for c in m.CONTRACTS if c.bounded))
        if any(not c.bounded for c in m.CONTRACTS):
            note = ('Every obligation generated from the current source of the functions under contract is discharged by '
                    'z3 or cvc5 for all inputs' + ('' if not bounded else ' (bounded stand-ins are listed)') + '. ') + note
        if bounded:
            note += ' Bounded: ' + '; '.join(bounded) + '.'
        note += (' Trusted: the pyvc interpreter of the Python subset and its library contracts, z3, cvc5'
                 + (', Lean' if getattr(m, 'LEMMAS', None) else '') + '; floats as reals, machine integers as integers.')
        for x in getattr(m, 'TRUSTED', []) + getattr(m, 'ASSUMPTIONS', []):
            note += ' Assumes: ' + x.rstrip('.') + '.'
        note += ' The same contracts are checked at run time on the real code, which is where failing inputs come from.'
        checks.append({
            'property': i, 'quick_cmd': 'python3-vt run.py %s' % i,
            'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification (weakest-precondition style obligations from the real '
                         'Python source, z3/cvc5)' + (' and Lean lemmas' if getattr(m, 'LEMMAS', None) else ''),
            'level': lv, 'level_note': note.strip()})
    out = {'version': 1,
           'setup_cmd': 'python3-vt -c "import z3, cvc5; print(z3.get_version_string())"',
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks: the contracts live in /verif and are applied to the source text of /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks;', len(na), 'not applicable')


main()
