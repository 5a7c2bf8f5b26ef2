"""Regenerates /verif/DESIGN.md (run the checks and tools/seeds.py first)."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rd(p):
    with open(os.path.join(H, p)) as f:
        return f.read()
props = [json.loads(l) for l in rd('properties.jsonl').splitlines()]
known = json.loads(rd('known_findings.json'))
man = json.loads(rd('MANIFEST.json'))
na = {d['property']: d['reason'] for d in man['not_applicable']}
seeds = {}
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    d = json.load(open(f))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(f)), d))
out = [rd('tools/design_head.md')]
for d in props:
    i = d['id']
    out.append('### %s  %s\n' % (i, d['title']))
    if i in na:
        out.append('Not claimed: %s\n' % na[i])
        continue
    src = rd('checks/%s.py' % i.lower())
    doc = re.match(r'\s*"""(.*?)"""', src, re.S)
    if doc:
        out.append('*Check* (`checks/%s.py`): %s\n' % (i.lower(), ' '.join(doc[1].split())))
    p = H + '/evidence/%s.json' % i
    if os.path.exists(p):
        e = json.load(open(p))
        c = e['coverage']
        out.append('*Enumerated*: %s.\n' % c.get('rule', ''))
        out.append('*Cost (%s tier)*: %s states, %s transitions, %s executions compared, about %d s on 8 cores.\n' % (
            e.get('tier', 'quick'), c['states'], c['transitions'], c['traces_validated_against_impl'], round(e['wall_s']) or 1))
        if e.get('assumptions'):
            out.append('*Assumed*: %s.\n' % '; '.join(e['assumptions']))
    if i in seeds:
        out.append('*Planted bugs caught*: %s.\n' % ', '.join('`%s`' % s for s, _ in seeds[i]))
out.append(rd('tools/design_tail.md'))
out.append('## Findings not repaired\n')
for k in known['findings']:
    out.append('* **%s** (%s): %s' % (k['id'], k['property'], k['what']))
out.append('\n## Repaired defects\n')
for k in known['fixed']:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', k)
    out.append('* %s `%s` %s' % m.groups())
out.append('\n## Planted bugs\n\n| id | property | needs | breaks |\n|---|---|---|---|')
for i in sorted(seeds):
    for s, d in seeds[i]:
        out.append('| %s | %s | %s | %s |' % (s, i, d['needs'].replace('|', '\\|'), d['what_it_breaks'].replace('|', '\\|')))
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
