#!/usr/bin/env python3
"""Mutation testing of the checks (development aid): small changes to /repo's sources, made in private copies, and
which checks notice them.   mutate.py OUT.jsonl [--per-line 0.5] [--lanes 3] [--seed 1] [--only FILE-regex]"""
import argparse, json, os, random, re, subprocess, sys, threading, queue, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'IO/Input/FileParser': 'C01 C02 C04 C29', 'IO/Input/INIReader': 'C03 C01', 'IO/Input/ini': 'C03 C02',
    'Tools/ThreeVector': 'C05', 'Tools/ThreeMatrix': 'C05', 'Tools/Numerics': 'C06', 'Tools/MCTools': 'C07 C08 C06', 'Tools/UnitsSystem': 'C01 C27',
    'EMField/PlaneEMField': 'C09 C12', 'EMField/Gaussian': 'C10 C12', 'EMField/Focusing': 'C11 C12', 'EMField/Static': 'C12',
    'LorentzPusher': 'C13 C15', 'ParticlePusher.': 'C13 C14 C15', 'LandauPusher': 'C14 C15', 'ModifiedLandau': 'C14 C15',
    'Particles/Particle.': 'C16 C15 C13', 'Lepton': 'C16 C15 C13', 'Photon.': 'C16 C15 C13', 'ParticleList': 'C17',
    'PhotonEmission': 'C19 C20 C24 C21 C18', 'StochasticEmission': 'C18 C19 C20 C24', 'ContinuousEmission': 'C21 C24', 'NonLinearBreit': 'C22 C23 C24', 'Process.': 'C18',
    'SourceGenerator': 'C25', 'Histogram': 'C26', 'HDF5Output': 'C27 C28', 'OutputManager': 'C27 C28 C29 C34',
    'Exec/QEDCASC': 'C29 C32 C31 C30 C33 C35 C34', 'Python/RunManager': 'C36 C37 C35', 'Bindings': 'C36',
}
SWAP = [(r'(?<![<>=!\-])<(?![<=])(?=\s)', ['<=', '>']), (r'(?<![<>=!\-])>(?![>=])(?=\s)', ['>=', '<']), ('<=', ['<', '>=']), ('>=', ['>', '<=']), ('==', ['!=']), ('!=', ['==']),
        (r'(?<=[\w\])]) \+ (?=[\w(])', [' - ']), (r'(?<=[\w\])]) - (?=[\w(])', [' + ']), (r'(?<=[\w\])]) ?\* ?(?=[\w(])', [' / ']), (r'(?<=[\w\])]) ?/ ?(?=[\w(])', [' * ']),
        ('&&', ['||']), (r'\|\|', ['&&']), (r'\+=', ['-=', '=']), ('-=', ['+=', '=']), (r'\*=', ['=', '/=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
        (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[2]', '[0]']), (r'\[2\]', ['[1]']),
        (r'(?<![\w.\]])(\d+)(?![\w.])', ['N+1', 'N-1']), (r'(?<![\w])(\d+\.\d*)(?!\w)', ['F*1.1', 'F+1']), (r'\bi\b(?=\])', ['i + 1']), (r'-(?=m_|\w+\()', ['']),
        (r'\bfloor\b', ['ceil']), (r'\bcontinue;', ['break;']), (r'\bbreak;', [';']), (r'!(?=\w)', [''])]


def mutants(path, text):
    out = []
    block = False
    for n, line in enumerate(text.split('\n')):
        code = line.strip()
        if block:
            if '*/' in code:
                block = False
            continue
        if code.startswith('/*'):
            block = '*/' not in code
            continue
        if not code or code.startswith(('//', '#', 'using', 'class', 'public', 'private', 'protected', 'virtual', 'namespace', 'template', '*')):
            continue
        if path.endswith('.hh') and '{' not in code and 'return' not in code and '=' not in code:
            continue
        cut = line.find('//')
        live = line if cut < 0 or '"' in line else line[:cut]
        tail = line[len(live):]
        inStr = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', live)]
        for pat, reps in SWAP:
            for m in re.finditer(pat, live):
                if any(a <= m.start() < b for a, b in inStr) or 'cerr' in live or 'cout' in live:
                    continue
                for r in reps:
                    if r in ('N+1', 'N-1'):
                        v = int(m.group(1)); t = str(v + (1 if r == 'N+1' else -1))
                        if v == 0 and r == 'N-1':
                            continue
                    elif r == 'F*1.1': t = repr(float(m.group(1)) * 1.1)
                    elif r == 'F+1': t = repr(float(m.group(1)) + 1)
                    else: t = r
                    out.append((n, line, live[:m.start()] + t + live[m.end():] + tail))
        if re.match(r'\s*[\w\->.\[\]():]+\s*(=|\+=|-=|\*=|\(|\.|->).*;\s*$', live) and not re.match(r'\s*(return|delete|double|int|unsigned|bool|std::\w+ ?<?.*> ?\w+[;=]|ThreeVector|auto|const)\b', live):
            out.append((n, line, re.match(r'\s*', live).group() + ';'))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('--per-line', type=float, default=0.3); ap.add_argument('--lanes', type=int, default=3)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--only', default=''); ap.add_argument('--scale', default='0.4'); ap.add_argument('--max', type=int, default=10000)
    a = ap.parse_args()
    rng = random.Random(a.seed)
    src = '/repo/Source'
    jobs = []
    for d, _, fs in sorted(os.walk(src)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            if 'Geant' in rel or not f.endswith(('.cpp', '.hh')) or not re.search(a.only, rel):
                continue
            ids = next((v for k, v in sorted(MAP.items(), key=lambda kv: -len(kv[0])) if k in rel), None)
            if not ids:
                continue
            text = open(p).read()
            ms = mutants(rel, text)
            lines = len({m[0] for m in ms})
            k = min(len(ms), max(1, round(lines * a.per_line)))
            for m in rng.sample(ms, k):
                jobs.append((rel, ids.split(), text) + m)
    rng.shuffle(jobs)
    jobs = jobs[:a.max]
    print(len(jobs), 'mutants', flush=True)
    q = queue.Queue()
    for j in enumerate(jobs):
        q.put(j)
    lock = threading.Lock()

    def lane(n):
        D = f'/tmp/mut/{n}'
        subprocess.run(['rm', '-rf', D]); os.makedirs(D)
        subprocess.run(f'cd /repo && git archive HEAD | tar x -C {D}', shell=True, check=True)
        while True:
            try:
                k, (rel, ids, text, line, old, new) = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(D, 'Source', rel)
            t = text.split('\n'); t[line] = new
            open(p, 'w').write('\n'.join(t))
            res, t0, why = 'survived', time.time(), ''
            for i in ids:
                r = subprocess.run(['nice', '-n', '10', sys.executable, os.path.join(VERIF, 'check.py'), i, '--repo', D, '--scale', a.scale], capture_output=True, text=True)
                if r.returncode == 1:
                    res = i
                    m = re.search(r'^FAIL (\w+)', r.stdout, re.M); why = m.group(1) if m else ''
                    break
                if r.returncode == 2:
                    res = 'nobuild' if 'error:' in r.stderr else 'broken ' + i + r.stderr[-300:]
                    break
            open(p, 'w').write(text)
            with lock, open(a.out, 'a') as f:
                f.write(json.dumps(dict(file=rel, line=line + 1, old=old.strip(), new=new.strip(), result=res, by=why, s=round(time.time() - t0))) + '\n')

    ts = [threading.Thread(target=lane, args=(n,)) for n in range(a.lanes)]
    for t in ts: t.start()
    for t in ts: t.join()


main()
