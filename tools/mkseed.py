#!/usr/bin/env python3
"""mkseed.py FILE.py : development helper that writes /verif/seeded/<id>/ from S(...) calls"""
import json, os, shutil, subprocess, sys
R = '/repo'
def S(id, prop, edits, demo, needs, breaks, sh=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    diff = ''
    for f in dict.fromkeys(e[0] for e in edits):
        src = subprocess.run(['git', '-C', R, 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
        new = src
        for e in edits:
            if e[0] == f:
                assert new.count(e[1]) == 1, (id, f, new.count(e[1]), e[1])
                new = new.replace(e[1], e[2])
        open('/tmp/ms.a', 'w').write(src); open('/tmp/ms.b', 'w').write(new)
        o = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, '/tmp/ms.a', '/tmp/ms.b'], capture_output=True, text=True).stdout
        diff += 'diff --git a/%s b/%s\n' % (f, f) + o
    open(d + '/patch.diff', 'w').write(diff)
    if sh:
        open(d + '/demo.sh', 'w').write(sh)
    else:
        shutil.copy('/verif/tools/seedlib/demo.sh', d + '/demo.sh')
    if demo:
        open(d + '/demo.cc', 'w').write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    print('wrote', id)
exec(open(sys.argv[1]).read())
