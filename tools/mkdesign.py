#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, the rules in the checks and seeded/."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, 'tools', 'technique.json')))
out = [open(os.path.join(here, 'tools', 'design_head.md')).read()]
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line); pid = p['id']
    src = os.path.join(here, 'harness', 'cmd', pid.lower(), 'main.go')
    if not os.path.exists(src): continue
    text = open(src).read()
    rule = json.loads(re.search(r'Rule:\s*("(?:[^"\\]|\\.)*")', text).group(1))
    assumptions = re.search(r'Assumptions:\s*\[\]string\{(.*?)\},\n', text, re.S)
    technique, note = TECH[pid]
    out.append('### %s %s\n\n%s\n\n- Method: %s.\n- Workload and oracle: %s\n- Strength: %s.\n' % (pid, p['title'], p['statement'], technique, rule, note))
    if assumptions:
        for a in re.findall(r'"((?:[^"\\]|\\.)*)"', assumptions.group(1)): out.append('- Assumes: %s.\n' % a)
    out.append('- Out of reach of the tests because %s.\n\n' % p['why_tests_cant'])
out.append('## Planted bugs\n\nEach is in seeded/<id>/ with patch, demonstration and what it needs. The checks that report it (quick tier, seed 1):\n\n')
caught = os.path.join(here, 'tools', 'caught.json')
caught = json.load(open(caught)) if os.path.exists(caught) else {}
for meta in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    sid = os.path.basename(os.path.dirname(meta)); m = json.load(open(meta))
    out.append('- %s (%s): %s Needs: %s Caught by: %s\n' % (sid, m['property'], m['what_it_breaks'], m['needs'], caught.get(sid, '?')))
open(os.path.join(here, 'DESIGN.md'), 'w').write(''.join(out))
