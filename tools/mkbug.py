#!/usr/bin/env python3
"""mkbug.py ID PROP FILE 'needs' 'what' < stdin: old text, line '=====', new text [, '#####' next pair]; writes seeded/ID/{patch.diff,meta.json,demo.sh}; put demo.cpp there by hand"""
import sys, os, json, subprocess, shutil
id, prop, f, needs, what = sys.argv[1:6]
d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
path = '/repo/' + f; s = open(path).read()
for pair in sys.stdin.read().split('#####\n'):
    old, new = pair.split('=====\n'); 
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(path, 'w').write(s)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff']).decode())
subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
shutil.copy('/verif/tools/demo_tmpl.sh', d + '/demo.sh')
