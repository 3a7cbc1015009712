#!/usr/bin/env python3
"""Runs one check:  check.py <ID> [--thorough] [--seed N] [--replay FILE] [--only PROP] [--scale X]

Builds what the check needs from /repo's working tree under /verif/.build, runs
its generators, writes evidence/<ID>.json and prints VIOLATION / KNOWN-FINDING
lines.  Exit status 0: held on everything explored; 1: violated; 2: the check
itself could not run.
"""
import argparse, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'py'))
sys.dont_write_bytecode = True
import build
from registry import CHECKS


def known_findings(pid):
    """[(finding id, description)] listed for a property."""
    out = []
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: id=(\S+) property=(\S+) (.*)', line.strip())
        if m and m.group(2) == pid:
            out.append((m.group(1), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--seed', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--only', default='')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--repo', default='/repo', help='for development: another tree')
    a = ap.parse_args()
    pid = a.id
    c = CHECKS[pid]
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    tag = '' if a.repo == '/repo' else '-' + re.sub(r'\W', '_', a.repo)
    build.REPO, build.TAG = a.repo, tag
    os.environ['QED_TABLES_PATH'] = a.repo + '/Tables'
    os.environ['VERIF_REPO'] = a.repo
    repdir = os.path.join(VERIF, 'replays', pid + tag)
    if not a.replay:
        shutil.rmtree(repdir, ignore_errors=True)
    os.makedirs(repdir, exist_ok=True)
    known = known_findings(pid)
    results = []
    for part in c['parts']:
        out = os.path.join(repdir, 'out.json')
        if os.path.exists(out):
            os.unlink(out)
        if part['type'] == 'cpp':
            exe = build.cpp(part['kind'], part['target'])
            cmd = [exe]
            env = dict(os.environ)
            env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1'
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
            env['LD_LIBRARY_PATH'] = ''
        else:
            cmd = [sys.executable, os.path.join(VERIF, 'py', part['module'] + '.py')]
            env = dict(os.environ)
        if a.replay:
            name = open(a.replay).read().split()[0]
            props = subprocess.run(cmd + ['--list'], env=env, capture_output=True, text=True).stdout.split()
            if name in props:
                sys.exit(subprocess.run(cmd + ['--replay', os.path.abspath(a.replay), '--known', ','.join(k for k, _ in known)], env=env).returncode)
            continue
        cmd += ['--out', out, '--seed', str(seed), '--replay-dir', repdir, '--workers', str(part.get('workers', 8)),
                '--scale', str(a.scale), '--known', ','.join(k for k, _ in known)]
        cmd += ['--max-seconds', str(part.get('max_seconds', 120 if tier == 'quick' else 900))]
        if tier == 'thorough':
            cmd += ['--thorough']
        if a.only:
            cmd += ['--only', a.only]
        r = subprocess.run(cmd, env=env)
        if not os.path.exists(out):
            print(f'check {pid}: the harness gave no answer (status {r.returncode})', file=sys.stderr)
            sys.exit(2)
        results += json.load(open(out))
        os.unlink(out)
    if a.replay:
        print('no such property in this check', file=sys.stderr)
        sys.exit(2)
    bad = [r for r in results if r['failed']]
    samples = []
    for r in results:
        samples += [r['name'] + ': ' + s for s in r['samples'][:4]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': c['level'],
        'coverage': {
            'evaluations': sum(r['evaluations'] for r in results),
            'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in results),
            'rule': 'Cases are lists of choices drawn at random and turned into inputs by each generator; counted as '
                    'non-trivial, per generator: ' + '; '.join(f"{r['name']}: {r['rule']}" for r in results),
            'samples': samples,
            'generators': [{k: r[k] for k in ('name', 'rule', 'evaluations', 'distinct_nontrivial', 'discarded',
                                              'labels', 'known', 'wall_s', 'note')} for r in results],
        },
        'assumptions': c.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(bad),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for r in results:
        seen |= set(r['known'])
    for kid, desc in known:
        if kid in seen:
            print(f'KNOWN-FINDING: property={pid} {desc} [{kid}]')
    for r in bad:
        print(f"{r['name']}: {r['message']}\n   case: {r['case']}")
        print(f"VIOLATION property={pid} replay={r['replay']}")
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    try:
        main()
    except build.BuildError as e:
        print('build failed:', e, file=sys.stderr)
        sys.exit(2)
