#!/usr/bin/env python3
"""mkseed.py SPEC.py ...: each spec file defines SEEDS = [dict(id, property, edits=[(file, old, new[, nth])], needs, breaks, demo, files={})].
Writes /verif/seeded/<id>/ and tries patch and demo in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = '/verif'
S = '/tmp/seedrepo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    only = [a for a in sys.argv[1:] if not a.endswith('.py')]
    for f in sys.argv[1:]:
        if not f.endswith('.py'):
            continue
        g = {}
        exec(open(f).read(), g)
        for s in g['SEEDS']:
            if only and s['id'] not in only:
                continue
            one(s)


def one(s):
    if not os.path.isdir(S):
        sh('git clone -q /repo %s' % S)
    if not os.path.exists(S + '/_build/.mine'):
        shutil.rmtree(S + '/_build', ignore_errors=True)
        r = sh("sed 's#^cd /repo#cd %s#' /opt/vp/build.sh | bash" % S)
        assert r.returncode == 0, r.stdout[-2000:]
        open(S + '/_build/.mine', 'w').close()
    sh('cd %s && git fetch -q origin && git reset -q --hard origin/HEAD' % S)
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copy(V + '/tools/seedlib/lib.sh', d)
    if 'build q.c' in s['demo']:
        shutil.copy(V + '/tools/seedlib/q.c', d)
    for n, t in s.get('files', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n' + s['demo'].strip() + '\nexit 0\n')
    os.chmod(d + '/demo.sh', 0o755)
    nin = 'ninja -C %s/_build DFABuilder JSONPathParser JSONQueryEngine' % S
    sh(nin)
    r0 = sh('bash %s/demo.sh' % d, cwd=S)
    for e in s['edits']:
        p = os.path.join(S, e[0])
        b = open(p, 'rb').read().decode('latin1')
        o, n = e[1], e[2]
        if '\r\n' in b:
            o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
        k = e[3] if len(e) > 3 else None
        c = b.count(o)
        if c == 0 or (c > 1 and k is None):
            print(s['id'], 'edit matches', c, 'times:', e[1][:60]); return
        pos = -1
        for _ in range((k or 0) + 1):
            pos = b.index(o, pos + 1)
        b = b[:pos] + n + b[pos + len(o):]
        open(p, 'wb').write(b.encode('latin1'))
    diff = subprocess.run(['git', 'diff'], cwd=S, stdout=subprocess.PIPE).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    b = sh(nin)
    if b.returncode:
        print(b.stdout[-800:])
    b = sh('cd %s && for t in JSONQuery/*.c; do gcc -fsyntax-only -w -std=gnu99 -IDFABuilder/include -IDFABuilder/interface -IJSONPathParser -IJSONQuery $t || exit 1; done' % S)
    r1 = sh('bash %s/demo.sh' % d, cwd=S)
    caught = sh('JPS_REPO=%s timeout 900 python3 check.py %s' % (S, s['property']), cwd=V)
    print('%-8s %s clean=%d patched=%d compile=%d check=%d  %s' % (s['id'], s['property'], r0.returncode, r1.returncode, b.returncode, caught.returncode,
          '' if r0.returncode == 0 else r0.stdout[-300:]))
    if '-v' in os.environ.get('SEEDV', ''):
        print(r1.stdout[-600:], caught.stdout[-600:])
    sh('git checkout -q -- .', cwd=S)


main()
