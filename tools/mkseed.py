#!/usr/bin/env python3
"""mkseed.py SPECFILE: a python file defining ID, PROP, PKG, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], TEST (go source).
Creates seeded/ID from them (patch made in a scratch copy of the committed tree)."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
d = '/verif/seeded/' + ns['ID']; os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='mkseed')
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/w', 'HEAD'])
try:
    for e in ns['EDITS']:
        f = w + '/w/' + e[0]; s = open(f).read()
        n = s.count(e[1])
        assert n == (e[3] if len(e) > 3 else 1), (e[0], n, e[1])
        open(f, 'w').write(s.replace(e[1], e[2]))
        if f.endswith('.go'): subprocess.check_call(['gofmt', '-l', f], env=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH']))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', w + '/w', 'diff'], text=True))
finally:
    subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/w']); shutil.rmtree(w)
open(d + '/demo.sh', 'w').write(open('/verif/tools/demo.sh.tmpl').read().replace('PKG', ns['PKG'])); os.chmod(d + '/demo.sh', 0o755)
open(d + '/demo_test.go', 'w').write(ns['TEST'].lstrip())
json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
# report lines that touch lines added by our own commits
out = subprocess.check_output(['git', '-C', '/repo', 'apply', '--stat', d + '/patch.diff'], text=True); print(out)
