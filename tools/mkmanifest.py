#!/usr/bin/env python3
"""writes contracts/registry.json and MANIFEST.json from the table below and the properties with a check"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ['pyvc, the verification-condition generator in /verif/pyvc (symbolic execution of the real functions\' ASTs, taken from the source on every run; its models of builtins in models.py)',
         'z3 (python3-vt z3-solver)', 'CPython 3.12 semantics as modelled: operations on unknown values may return anything or raise any Exception']
ASSUME = ['user callables (serializers, deserializers, validators, constructors) terminate and raise only subclasses of Exception',
          'integers are mathematical (as in Python); floats are uninterpreted values in the proofs',
          'recursion depth and memory are unbounded',
          'types and exceptions used as arguments have total, pure __hash__, __eq__, __bool__ and __str__',
          'callees under a summary satisfy the contract that is proved for them under the property named in DESIGN.md (load, dump, the lookups, get_class_name, get_cls_from_str); cyclic reliance between load and the default deserializers is the usual partial-correctness recursion rule']
from registry import REG
reg = {'*': {'assumptions': ASSUME, 'trusted_base': TRUST}}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in REG:
        na.append({'property': i, 'reason': 'no check has been built yet'}); continue
    r = REG[i]; reg[i] = {k: v for k, v in r.items() if k != 'note'}
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': r.get('technique', 'contracts on the real code, VC generation from the AST, z3'),
                   'level': r.get('level', 'proof'), 'level_note': ' '.join(x for x in (('Proved: ' + r['proved']) if r.get('proved') else '', ('Bounded only: ' + r['bounded']) if r.get('bounded') else '', 'Assumes: ' + '; '.join(r.get('assumptions', []) or ['see DESIGN.md, assumptions common to all checks'])) if x)})
json.dump(reg, open(os.path.join(HERE, 'contracts', 'registry.json'), 'w'), indent=1)
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
