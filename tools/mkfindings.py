#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo. 'fixed:' lines suppress nothing."""
import subprocess, os
P = {}
def add(pid, commits):
    for c in commits.split(): P[c] = pid
add('C20', '1ef058a dc4f2cb fd9e56e 8eaf910'); add('C21', '2a0741b e9fcdf4 5da5968'); add('C22', '4856650 1ead6b8 b71852d ddf9fa7 610d62a 95b69e0 c10029e')
add('C29', 'ff97f23'); add('C30', 'af216d1 d67ac04'); add('C31', '607637e 458e52e'); add('C24', 'cfb0897 bc1b8cd'); add('C25', 'a0838b8 f5333c3'); add('C26', 'df1295d 1d6cc22')
add('C19', '1bd18a8 94c0f9e ec81b27'); add('C17', '1fb03b1 3a2db68'); add('C18', '615e9e8'); add('C08', 'bc4d5e1 d8bc672 15c76d5 22ef82b'); add('C10', 'b163fae ae35fd6 9c5a099 4d84939 8cfe3d3 ed0dc3d')
add('C12', 'aa7d58a 4c3107d'); add('C11', '72b3720'); add('C04', 'f899d9f'); add('C09', '4a4b2a9'); add('C13', '8fe6075 a9be048 73b071b'); add('C15', '441f126 4533101'); add('C05', '8ef0db5'); add('C14', '356c3e9'); add('C28', '4244735')
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixes.txt')
if os.path.exists(extra):
    for line in open(extra):
        if line.strip(): add(line.split()[0], ' '.join(line.split()[1:]))
out = ["# Defects of v2pro/plz found by the checks. 'fixed:' lines are repaired in /repo and suppress nothing.",
       "# 'known: property=<id> sig=<signature> <what fails>' lines are reported as KNOWN-FINDING. Those of C34 and C35 are in files",
       "# under test/, which the rules of this work count as test files, so that no commit may touch them. The one of C40 has no",
       "# repair that goes together with the existing tests, which leave their archive behind and archive under its name again."]
out += [l.rstrip() for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.txt')) if l.strip()]
known = len(out)
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '49f9ac8..HEAD'], text=True)
for line in log.splitlines():
    h, s = line.split(' ', 1)
    assert s.startswith('fix: '), line
    out.append('fixed: property=%s %s %s' % (P[h], h, s[5:]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(here, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
print(len(out) - known, 'fixes')
