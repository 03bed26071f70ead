#!/usr/bin/env python3
# writes /verif/seeded/<id>/ from a list of textual edits: seed.py <file.py with S(...) calls>
import os, sys, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -r "$t"' EXIT
I=$(for x in /repo/*/*/include; do echo -I$x; done)
cd /repo && g++ -std=c++14 -O1 -w $I -I/usr/include/eigen3 -I/usr/include/opencv4 %s -o "$t/demo" "$d/demo.cpp" %s && "$t/demo"
'''
def S(id, prop, edits, needs, breaks, srcs, code, flags=''):
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).strip(), 'dirty'
    try:
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read(); assert s.count(old) == 1, (id, f, s.count(old), old); open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
        open(d + '/demo.cpp', 'w').write(code); open(d + '/demo.sh', 'w').write(DEMO % (flags, ' '.join(srcs)))
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        b = subprocess.run(['bash', d + '/demo.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    a = subprocess.run(['bash', d + '/demo.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(id, 'ok' if a.returncode == 0 and b.returncode != 0 else 'BAD', 'clean', a.returncode, 'patched', b.returncode, '' if a.returncode == 0 else a.stdout.decode()[-600:], b.stdout.decode()[-200:])
if __name__ == '__main__':
    exec(open(sys.argv[1]).read(), dict(S=S))
