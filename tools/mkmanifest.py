"""Regenerates /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': 'bounded exhaustive enumeration of source strings against a reference lexer',
    'default': 'bounded exhaustive enumeration on the real code against an independent reference model',
    'seq': 'explicit-state exploration of statement sequences, real assembler stepped against a reference model',
    'cpu': 'exhaustive enumeration of instruction forms x operand domains against an independent reference encoder',
}
SEQ = {'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C14', 'C15', 'C40', 'C42', 'C50'}
NOTE = {
    'default': 'Exhaustive within the bounds printed in the evidence file; trusts the reference model in /verif/checks and the assumption that behaviour beyond the bounds follows the same code paths.',
    'cpu': 'Every form in the reference table with every register and boundary operand value is executed on the real encoder; trusts the hand-written reference encoder (cross-validated offline with llvm-mc/objdump where available).',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for d in props:
    i = d['id']
    f = 'checks/%s.py' % i.lower()
    if not os.path.exists(os.path.join(H, f)):
        na.append({'property': i, 'reason': 'check not built yet (no claim is made for it)'})
        continue
    cpu = 'C20' <= i <= 'C31'
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python %s' % f,
        'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python %s' % f,
        'technique': T.get(i) or (T['cpu'] if cpu else T['seq'] if i in SEQ else T['default']),
        'level': 'model_checking',
        'level_note': NOTE['cpu'] if cpu else NOTE['default'],
    })
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import mc.core, mc.impl"',
           'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
