#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a check directory is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, 'tools', 'technique.json')))
NA = {
 'C42': 'dump does not compile at the pinned commit (it uses functions and runtime layouts that are gone) and making it work is a redesign, so there is no execution to monitor',
}
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if pid in NA:
        na.append({'property': pid, 'reason': NA[pid]}); continue
    if not os.path.isdir(os.path.join(here, 'harness', 'cmd', pid.lower())):
        na.append({'property': pid, 'reason': 'check not built yet'}); continue
    technique, note = TECH[pid]
    checks.append({'property': pid,
      'quick_cmd': 'bash check.sh %s quick' % pid,
      'thorough_cmd': 'bash check.sh %s thorough' % pid,
      'technique': technique, 'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
 'hooks': {'guard': 'verif', 'enable': 'no hooks were needed: the monitors observe through the public API (writers, sinks, readers, callbacks, panic logger) and the race detector', 'source_commits': []},
 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
