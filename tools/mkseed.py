#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS WHAT < spec   -- spec: OLD text, line '=====', NEW text, line '=====', demo.c
Makes seeded/ID from a textual change to /repo's HEAD (nothing in /repo is changed)."""
import sys, os, subprocess, json, tempfile, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, f, needs, what = sys.argv[1:6]
old, new, demo = sys.stdin.read().split('\n=====\n')
d = os.path.join(here, 'seeded', sid); os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='seed-')
subprocess.check_call('git -C /repo archive HEAD %s | tar xf - -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % (f, t, t), shell=True)
p = os.path.join(t, f); s = open(p).read()
assert s.count(old) == 1, 'matches: %d' % s.count(old)
open(p, 'w').write(s.replace(old, new))
open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', t, 'diff']).decode())
shutil.rmtree(t)
open(os.path.join(d, 'demo.c'), 'w').write(demo)
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -g -Iinclude "$d/demo.c" stage/linux64/build/src/libfsdyn.a -o "$t/demo" -lm || exit 3
timeout 60 "$t/demo"
''')
os.chmod(os.path.join(d, 'demo.sh'), 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
