"""Rewrites the list of repairs in KNOWN_FINDINGS.md from /repo's "fix:" commits and tools/fixprops.json (abbreviated hash -> property)."""
import json, subprocess, os
H = os.path.dirname(os.path.abspath(__file__))
P = json.load(open(H + '/fixprops.json'))
p = H + '/../KNOWN_FINDINGS.md'
s = open(p).read()
head = s[:s.index('- fixed:')]
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, m = l.split(' ', 1)
    if m.startswith('fix: '):
        if h not in P: print('no property for', l)
        out.append('- fixed: property=%s %s %s' % (P.get(h, '?'), h, m[5:]))
open(p, 'w').write(head + '\n'.join(out) + '\n')
