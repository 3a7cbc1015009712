"""C02: coverage-guided fuzzing (libFuzzer) of the deck reader; the oracle is in fuzz/fuzz_deck.cc."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
sys.dont_write_bytecode = True
import build
VERIF = build.VERIF
RULE = 'an input that reached code or a branch count no earlier input had reached (kept in the corpus)'


def compile_target():
    d = os.path.join(VERIF, '.build', 'fuzz' + build.TAG)
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, 'fuzz_deck')
    src = os.path.join(build.REPO, 'Source')
    build.run(['clang++', '-std=c++14', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all',
               '-I' + src + '/IO/Input', '-I' + src + '/Tools', '-I' + src + '/Particles', os.path.join(VERIF, 'fuzz/fuzz_deck.cc')]
              + sorted(glob.glob(src + '/IO/Input/*.cpp') + glob.glob(src + '/Tools/*.cpp')) + ['-pthread', '-o', exe])
    return exe


def env(d):
    e = dict(os.environ, FUZZ_DIR=d, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
    return e


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--out')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay-dir', default='.')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--max-seconds', type=float, default=1e9)
    ap.add_argument('--known', default='')
    a = ap.parse_args()
    name = 'coverage_guided'
    if a.list:
        print(name)
        return 0
    try:
        exe = compile_target()
    except build.BuildError as e:       # the other harnesses of the check build the same sources and decide on their own
        print('the fuzz target cannot be built: ' + str(e), file=sys.stderr)
        if a.out:
            json.dump([dict(name=name, rule=RULE, evaluations=0, distinct_nontrivial=0, discarded=0, failed=False, replay='', case='', message='',
                            note='the fuzz target could not be built', samples=[], labels={}, known={}, wall_s=0)], open(a.out, 'w'))
        return 0
    d = tempfile.mkdtemp(prefix='verif-fuzz-')
    try:
        if a.replay:
            f = os.path.join(d, 'case')
            with open(f, 'wb') as o:
                o.write(bytes.fromhex(open(a.replay).read().split('\n')[1]))
            r = subprocess.run([exe, f], env=env(d), capture_output=True, text=True, errors='replace', cwd=d)
            print('FAIL' if r.returncode else 'PASS', name, '\n', r.stderr[-3000:])
            return 1 if r.returncode else 0
        if a.only and a.only != name:
            json.dump([], open(a.out, 'w'))
            return 0
        t0 = time.time()
        runs = int((2000000 if a.thorough else 25000) * a.scale)
        limit = int(min(a.max_seconds * 0.8, 600 if a.thorough else 60))
        jobs = []
        for w in range(a.workers):
            c = os.path.join(d, f'corpus{w}')
            os.makedirs(c)
            jobs.append((w, subprocess.Popen([exe, f'-seed={a.seed * 100 + w + 1}', f'-runs={runs}', f'-max_total_time={limit}', '-max_len=3000',
                                              '-timeout=20', '-rss_limit_mb=3000', '-print_final_stats=1', '-close_fd_mask=1', f'-artifact_prefix={d}/w{w}-',
                                              '-dict=' + os.path.join(VERIF, 'fuzz/deck.dict'), c, os.path.join(VERIF, 'fuzz/seeds_deck')],
                                             env=env(d), stdout=subprocess.DEVNULL, stderr=open(f'{d}/log{w}', 'w'), cwd=d)))
        for _, p in jobs:
            p.wait()
        evals, kept, features, bad = 0, 0, 0, None
        for w, p in jobs:
            log = open(f'{d}/log{w}', errors='replace').read()
            m = re.findall(r'stat::number_of_executed_units:\s*(\d+)', log) or re.findall(r'^#(\d+)', log, re.M) or ['0']
            evals += int(m[-1])
            features = max([features] + [int(x) for x in re.findall(r'ft: (\d+)', log)])
            kept += len(os.listdir(os.path.join(d, f'corpus{w}')))
            crash = sorted(glob.glob(f'{d}/w{w}-*'))
            if p.returncode and bad is None and crash and 'ORACLE' in log or p.returncode and bad is None and crash:
                bad = (crash[0], log)
        samples = []
        for f in sorted(glob.glob(f'{d}/corpus0/*'), key=os.path.getsize)[-400::100]:
            samples.append(repr(open(f, 'rb').read()[:400]))
        res = dict(name=name, rule=RULE, evaluations=evals, distinct_nontrivial=kept, discarded=0, failed=False, replay='', case='', message='',
                   note=f'coverage features reached: {features}', samples=samples, labels={}, known={})
        if bad:
            best = d + '/minimized'
            subprocess.run([exe, '-minimize_crash=1', '-max_total_time=20', '-exact_artifact_path=' + best, bad[0]], env=env(d),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d)
            data = open(best if os.path.exists(best) else bad[0], 'rb').read()
            path = os.path.join(a.replay_dir, name + '.replay')
            with open(path, 'w') as o:
                o.write(name + '\n' + data.hex() + '\n')
            m = re.search(r'(ORACLE: .*|SUMMARY: .*|runtime error: .*)', bad[1])
            res.update(failed=True, replay=path, case=repr(data[:1500]), message=m.group(1) if m else bad[1][-1500:])
        res['wall_s'] = round(time.time() - t0, 2)
        print(('FAIL ' if bad else 'ok   ') + f'{name}: {evals} cases, {kept} kept, {res["note"]}, {res["wall_s"]} s', file=sys.stderr)
        if bad:
            print('     ' + res['case'] + '\n     ' + res['message'], file=sys.stderr)
        json.dump([res], open(a.out, 'w'))
        return 1 if bad else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
