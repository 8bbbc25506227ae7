#!/usr/bin/env python3
"""mkseed.py SPEC.py - development: write /verif/seeded/<id>/ from a spec (id, prop, needs, what, edits=[(file,old,new)], demo) and the clean /repo build"""
import sys, os, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
d="$(cd "$(dirname "$0")" && pwd)"
out=$(timeout 60 ./dictu "$d/t.du" 2>&1 | grep -v "^Total bytes lost\\|File '")
[ "$out" == "$(cat "$d/expected")" ] || { echo "got: $out"; exit 1; }
'''
for s in ns['SEEDS']:
    if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
        continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    subprocess.check_call(['git', '-C', '/repo', 'diff', '--quiet'])
    for f, old, new, *nth in s['edits']:
        p = '/repo/src/' + f
        t = open(p, newline='').read()
        if nth:
            parts = t.split(old)
            t = old.join(parts[:nth[0] + 1]) + new + old.join(parts[nth[0] + 1:])
        else:
            if t.count(old) != 1:
                subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            t = t.replace(old, new)
        open(p, 'w', newline='').write(t)
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'])
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'))
    for n, c in s.get('files', {}).items():
        open(d + '/' + n, 'w').write(c)
    if 'demo' in s:
        open(d + '/t.du', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write(s.get('sh', DEMO))
        out = subprocess.run(r"""timeout 60 ./dictu %s/t.du 2>&1 | grep -v "^Total bytes lost\|File '" """ % d, shell=True, cwd='/repo', capture_output=True, text=True).stdout
        open(d + '/expected', 'w').write(out)
        print(s['id'], 'expected:', out[:300])
    else:
        open(d + '/demo.sh', 'w').write(s['sh'])
    os.chmod(d + '/demo.sh', 0o755)
