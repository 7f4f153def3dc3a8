#!/usr/bin/env python3
"""writes DESIGN.md from design_head.md, design_notes.py, the declared rules (evidence) and the planted bugs"""
import json, os, sys, glob, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from design_notes import NOTES, FALSE
W = lambda t, i='': '\n'.join(textwrap.wrap(t, 118, initial_indent=i, subsequent_indent=' ' * len(i)))
M = json.load(open(V + '/MANIFEST.json'))
P = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    P[d['id']] = d
out = [open(V + '/tools/design_head.md').read()]
for c in M['checks']:
    i = c['property']
    ev = json.load(open(V + '/evidence/%s.json' % i))
    out.append('### %s %s\n' % (i, P[i]['title']))
    out.append(W(c['technique'][0].upper() + c['technique'][1:] + '.') + '\n')
    if i in NOTES:
        out.append(W(NOTES[i]) + '\n')
    for r in ev['coverage']['rules']:
        out.append(W('`%s`: %s.' % (r['rule'], r['text']), '* '))
    asm = sorted({a for a in ev['assumptions']})
    if asm:
        out.append('\nAssumes:')
        for a in asm[:12]:
            out.append(W(a + '.', '* '))
        if len(asm) > 12:
            out.append('* and %d more of the same kind, listed in the evidence.' % (len(asm) - 12))
    sd = []
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d))
        if m['property'] == i:
            sd.append(os.path.basename(os.path.dirname(d)))
    out.append('\nPlanted bugs for it: %s.\n' % (', '.join('`%s`' % s for s in sd) if sd else 'none kept yet'))
out.append('## Not claimed\n')
for n in M['not_applicable']:
    out.append(W('**%s** %s: %s.' % (n['property'], P[n['property']]['title'], n['reason'].rstrip('.')), '* '))
out.append('\n## Planted bugs and what catches them\n')
caught = {}
cf = V + '/tools/caught.json'
if os.path.exists(cf):
    caught = json.load(open(cf))
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    s = os.path.basename(os.path.dirname(d))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '/'), ', '.join(caught.get(s, [])) or 'nothing'))
out.append('\nBesides these, a few hundred one-line mutants were run against the checks while they were written (`tools/mut.py`, `tools/muts.py`).\n')
out.append('## False alarms corrected on the way\n')
for i, t in FALSE:
    out.append(W('%s: %s.' % (i, t), '* '))
out.append('\n## Defects found in sphde\n')
out.append('All repaired by one `fix:` commit each; `tools/onold.sh` runs a check on the original tree, where the checks report them.\n')
for l in open(V + '/known-findings.txt'):
    if l.startswith('fixed: '):
        _, p, c, t = l.strip().split(' ', 3)
        out.append(W('%s, %s: %s.' % (p.split('=')[1], c, t), '* '))
    elif l.startswith('finding: '):
        p = l.split(' ')[1].split('=')[1]
        out.append(W('%s, open: %s.' % (p, l.strip().partition(' :: ')[2].rstrip('.')), '* '))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
