#!/usr/bin/env python3
"""Writes seeded/<id>/ from a description and tries it (development aid; no check uses it).

plant.py write SPEC.py   SPEC.py holds SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, cpp= or sh=)]
plant.py try ID...       applies each patch to /repo, builds, runs the stable tests and the demo, and takes it back
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# exit 0: behaves as it should
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export QED_TABLES_PATH=$R/Tables
'''
CPP = HEAD + '''S=$R/Source; B=$R/_build/repo/Source
g++ -std=c++17 -O1 -w -I$S/Tools -I$S/Particles -I$S/Physics/Fields/EMField -I$S/Physics/ParticlePushers -I$S/Physics/Processes \\
    -I$S/IO/Input -I$S/IO/Output -I/usr/include/hdf5/serial "$D/demo.cpp" -o $T/demo -L$B/IO -L$B/Physics -L$B/Particles -L$B/Tools \\
    -lIO -lPhysicsQED -lParticles -lTools -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5_cpp -lhdf5 -pthread \\
    -Wl,-rpath,$B/IO:$B/Physics:$B/Particles:$B/Tools || exit 3
cd $T && timeout 200 ./demo
'''


def sh(*c, **k): return subprocess.run(c, capture_output=True, text=True, **k)


def write(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout
        try:
            for f, old, new, *n in s['edits']:
                p = os.path.join('/repo', f)
                t = open(p, newline='').read()
                assert t.count(old) == (n[0] if n else 1), (s['id'], f, t.count(old), old)
                open(p, 'w', newline='').write(t.replace(old, new, 1))
            diff = sh('git', '-C', '/repo', 'diff').stdout
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if 'cpp' in s:
            open(d + '/demo.cpp', 'w').write(s['cpp'])
            open(d + '/demo.sh', 'w').write(CPP)
        else:
            open(d + '/demo.sh', 'w').write(HEAD + s['sh'])
            for name, text in s.get('files', {}).items():
                open(os.path.join(d, name), 'w').write(text)
        os.chmod(d + '/demo.sh', 0o755)
        print('wrote', s['id'])


def attempt(ids):
    stable = None
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        r = sh('git', '-C', '/repo', 'apply', d + '/patch.diff')
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr)
            continue
        try:
            b = sh('bash', '/opt/vp/build.sh')
            if b.returncode:
                print(i, 'DOES NOT BUILD', b.stdout[-1500:] + b.stderr[-500:])
                continue
            t = sh('bash', '/opt/vp/test.sh', '/tmp/plant.json')
            res = json.load(open('/tmp/plant.json'))
            r = sh('bash', d + '/demo.sh', cwd='/repo')
            print(i, 'failed tests:', res['failed'], 'demo with the change:', r.returncode, (r.stdout + r.stderr)[-300:].replace('\n', ' | '), flush=True)
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')
    sh('bash', '/opt/vp/build.sh')
    for i in ids:
        r = sh('bash', os.path.join(V, 'seeded', i, 'demo.sh'), cwd='/repo')
        print(i, 'demo without:', r.returncode, (r.stdout + r.stderr)[-300:].replace('\n', ' | '), flush=True)


if __name__ == '__main__':
    if 'PLANT_INSIDE' not in os.environ:    # in a mount of a copy, so that /repo itself stays as it is
        copy = '/tmp/plant_repo_%d' % os.getpid()
        subprocess.run(['cp', '-a', '/repo', copy], check=True)
        try:
            script = 'mount --bind "$0" /repo && exec python3 "$@"'
            r = subprocess.run(['unshare', '-Urm', 'bash', '-c', script, copy, os.path.abspath(__file__)] + [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[1:]],
                               env=dict(os.environ, PLANT_INSIDE='1'))
        finally:
            subprocess.run(['rm', '-rf', copy])
        sys.exit(r.returncode)
    write(sys.argv[2]) if sys.argv[1] == 'write' else attempt(sys.argv[2:])
