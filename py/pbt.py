"""The Python side of the property-based testing engine (see harness/pbt.hh).

A case is the list of integer choices its property drew; a failing case is
shrunk by deleting, zeroing and bisecting choices and running it again.
"""
import argparse, hashlib, json, math, multiprocessing, os, random, shutil, signal, struct, sys, tempfile, time, traceback


class Fail(Exception):
    pass


class Discard(Exception):
    pass


KNOWN = set()


class Gen:
    def __init__(self, seed=None, choices=None, log=None):
        self.rng = random.Random(seed)
        self.log = log
        self.choices = choices
        self.out, self.desc, self.labels, self.knowns = [], [], [], []
        self.nontriv = False

    def draw(self, top):
        """integer in [0, top]"""
        if self.choices is None:
            v = self.rng.randint(0, top)
        else:
            i = len(self.out)
            v = min(self.choices[i], top) if i < len(self.choices) else 0
        self.out.append(v)
        if self.log:
            self.log.write(b'%d ' % v)
        return v

    def integer(self, lo, hi): return lo + self.draw(hi - lo)
    def coin(self): return self.draw(1) == 1
    def chance(self, p): return self.draw(99) >= 100 - p
    def unit(self): return self.draw(1 << 30) / float(1 << 30)
    def real(self, lo, hi): return lo + (hi - lo) * self.unit()
    def logu(self, lo, hi): return lo * (hi / lo) ** self.unit()

    def sreal(self, mag):
        u = self.unit()
        return -u * mag if self.coin() else u * mag

    def pick(self, seq): return seq[self.draw(len(seq) - 1)]

    def shuffle(self, seq):
        for i in range(len(seq) - 1, 0, -1):
            j = self.draw(i)
            seq[i], seq[j] = seq[j], seq[i]

    def seed(self): return self.draw(0x7ffffffe) + 1
    def note(self, k, v): self.desc.append(f'{k}={v}')
    def nontrivial(self): self.nontriv = True
    def label(self, l): self.labels.append(str(l))

    def known(self, kid, msg):
        """a listed finding: recorded, not a failure"""
        if kid not in KNOWN:
            raise Fail(msg)
        self.knowns.append(kid)

    def direction(self):
        """a unit vector: an axis, or anything"""
        k = self.draw(9)
        if k < 3:
            v = [0.0, 0.0, 0.0]
            v[2 - k] = 1.0
        elif k < 6:
            v = [0.0, 0.0, 0.0]
            v[k - 3] = -1.0
        else:
            z, f = self.real(-1, 1), self.real(0, 2 * math.pi)
            s = math.sqrt(max(0, 1 - z * z))
            v = [s * math.cos(f), s * math.sin(f), z]
        return v


def require(ok, *msg):
    if not ok:
        raise Fail(' '.join(str(m) for m in msg))


def near(a, b, rel, abs_=0.0):
    if a != a or b != b:
        return False
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b)) + abs_


PROPS = []


def prop(quick, thorough, rule):
    def deco(f):
        PROPS.append((f.__name__, f, quick, thorough, rule))
        return f
    return deco


SCRATCH = None
CASE_LIMIT = 240


def scratch():
    """a fresh directory of this case; removed with the run"""
    return tempfile.mkdtemp(dir=SCRATCH)


def alarm(*_):
    raise Fail('no answer within the time limit')


def evaluate(f, g):
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_LIMIT)
    r = dict(status=0, msg='')
    global SCRATCH
    top, SCRATCH = SCRATCH, tempfile.mkdtemp(dir=SCRATCH)
    try:
        f(g)
    except Fail as e:
        r.update(status=1, msg=str(e))
    except Discard:
        r.update(status=2)
    except (MemoryError, BlockingIOError):
        r.update(status=3, msg='the harness ran out of resources: ' + traceback.format_exc()[-1500:])
    except Exception:
        r.update(status=1, msg='unexpected outcome: ' + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = top
    r.update(nontriv=g.nontriv, desc=', '.join(g.desc), choices=g.out, labels=g.labels, knowns=g.knowns)
    return r


def case_seed(seed, name, i):
    return int.from_bytes(hashlib.sha256(f'{seed}/{name}/{i}'.encode()).digest()[:8], 'big')


def worker(f, name, seed, w, workers, cases, q, t_end, current):
    for i in range(w, cases, workers):
        if time.time() > t_end:
            break
        current[w] = i
        r = evaluate(f, Gen(case_seed(seed, name, i)))
        if r['status'] not in (1, 3):
            r['choices'] = []
        q.put((i, r))
        if r['status'] in (1, 3):
            break
    q.put((None, w))


def again(f, choices=None, seed=None):
    """evaluate in a process of its own"""
    q = multiprocessing.Queue()
    fd, log = tempfile.mkstemp(dir=SCRATCH)
    os.close(fd)
    p = multiprocessing.Process(target=lambda: q.put(evaluate(f, Gen(seed=seed, choices=choices, log=open(log, 'wb', buffering=0)))))
    p.start()
    t_end, r = time.time() + CASE_LIMIT + 30, None
    while r is None and time.time() < t_end:
        try:
            r = q.get(timeout=0.2)
        except Exception:
            if not p.is_alive():
                try:
                    r = q.get(timeout=0.2)
                except Exception:
                    break
    if r is None:
        p.kill()
        r = dict(status=1, msg='the case ended the process or did not end', desc='', choices=[int(x) for x in open(log).read().split()])
    p.join(10)
    os.unlink(log)
    return r


def shrink(f, best, seconds):
    t_end = time.time() + seconds

    def attempt(c):
        nonlocal best
        if time.time() > t_end:
            return False
        r = again(f, c)
        if r['status'] != 1 or len(r['choices']) > len(best['choices']):
            return False
        best = r
        return True
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for n in (16, 8, 4, 2, 1):
            i = 0
            while i + n <= len(best['choices']) and time.time() < t_end:
                c = best['choices'][:i] + best['choices'][i + n:]
                before = len(best['choices'])
                if attempt(c) and len(best['choices']) < before:
                    progress = True
                else:
                    i += 1
        i = 0
        while i < len(best['choices']) and time.time() < t_end:
            v = best['choices'][i]
            if v:
                if attempt(best['choices'][:i] + [0] + best['choices'][i + 1:]):
                    progress = True
                else:
                    lo, hi = 0, v
                    for _ in range(12):
                        if lo + 1 >= hi or i >= len(best['choices']) or time.time() > t_end:
                            break
                        mid = lo + (hi - lo) // 2
                        if attempt(best['choices'][:i] + [mid] + best['choices'][i + 1:]):
                            hi = mid
                            progress = True
                        else:
                            lo = mid
            i += 1
    return best


def explore(p, seed, cases, workers, max_seconds, replay_dir, thorough):
    name, f, _, _, rule = p
    t0 = time.time()
    workers = min(workers, cases)
    q = multiprocessing.Queue()
    current = multiprocessing.Array('q', [-1] * workers)
    ps = [multiprocessing.Process(target=worker, args=(f, name, seed, w, workers, cases, q, t0 + max_seconds, current))
          for w in range(workers)]
    for x in ps:
        x.start()
    s = dict(name=name, rule=rule, evaluations=0, discarded=0, failed=False, replay='', case='', message='', note='',
             samples=[], labels={}, known={})
    distinct, left, fail, harness = set(), set(range(workers)), None, None
    dead = {}
    while left:
        try:
            i, r = q.get(timeout=2)
        except Exception:
            for w in list(left):
                if not ps[w].is_alive():
                    dead[w] = dead.get(w, 0) + 1
                    if dead[w] > 2:
                        left.discard(w)
                        r = again(f, seed=case_seed(seed, name, current[w]))
                        if r['status'] == 1 and fail is None:
                            fail = (current[w], r)
                        elif fail is None:
                            harness = harness or dict(msg='a worker of the harness died')
            if fail:
                break
            continue
        if i is None:
            left.discard(r)
            continue
        s['evaluations'] += 1
        for l in r['labels']:
            s['labels'][l] = s['labels'].get(l, 0) + 1
        for l in r['knowns']:
            s['known'][l] = s['known'].get(l, 0) + 1
        if r['status'] == 2:
            s['discarded'] += 1
        elif r['nontriv']:
            distinct.add(r['desc'])
            if len(s['samples']) < 6:
                s['samples'].append(r['desc'][:1200])
        if r['status'] == 1 and (fail is None or i < fail[0]):
            fail = (i, r)
            break
        if r['status'] == 3:
            harness = r
            break
    for x in ps:
        if x.is_alive():
            x.terminate()
        x.join(10)
    s['distinct_nontrivial'] = len(distinct)
    if fail:
        r = fail[1]
        n = sum(again(f, r['choices'])['status'] == 1 for _ in range(3))
        if n == 3:
            r = shrink(f, r, 240 if thorough else 60)
        else:
            s['note'] = f'the case fails now and then ({n} of 3 repetitions)'
        path = os.path.join(replay_dir, name + '.replay')
        with open(path, 'w') as o:
            o.write(name + '\n' + ' '.join(map(str, r['choices'])) + '\n')
            o.write('# ' + r['desc'].replace('\n', '\\n') + '\n# ' + r['msg'].replace('\n', '\\n') + '\n')
        s.update(failed=True, replay=path, case=r['desc'], message=r['msg'])
    s['wall_s'] = round(time.time() - t0, 2)
    print(('FAIL ' if fail else 'ok   ') + f"{name}: {s['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{s['discarded']} discarded, {s['wall_s']} s " + '; '.join(f'{k}:{v}' for k, v in sorted(s['labels'].items()))
          + (f"\n     {s['case']}\n     {s['message']}" if fail else ''), file=sys.stderr)
    if harness and not fail:
        print(harness.get('desc', ''), harness['msg'], file=sys.stderr)
        sys.exit(2)
    return s


def main(setup=None, known=()):
    """setup() builds what the properties need, before the workers start"""
    global SCRATCH
    ap = argparse.ArgumentParser()
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--out')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay-dir', default='.')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--max-seconds', type=float, default=1e9)
    ap.add_argument('--known', default='')
    a = ap.parse_args()
    if a.list:
        print('\n'.join(p[0] for p in PROPS))
        return
    KNOWN.update(k for k in a.known.split(',') if k)
    multiprocessing.set_start_method('fork')
    if setup:
        setup()
    SCRATCH = tempfile.mkdtemp(prefix='verif-pbt-')
    rc = 0
    try:
        if a.replay:
            words = [l for l in open(a.replay).read().split('\n') if not l.startswith('#')]
            p = next(p for p in PROPS if p[0] == words[0].strip())
            r = again(p[1], [int(x) for x in words[1].split()])
            print('FAIL' if r['status'] == 1 else 'PASS', p[0], '\n ', r['desc'], '\n ', r['msg'])
            sys.exit(1 if r['status'] == 1 else 0)
        res = [explore(p, a.seed, max(1, int((p[3] if a.thorough else p[2]) * a.scale)), a.workers, a.max_seconds,
                       a.replay_dir, a.thorough) for p in PROPS if not a.only or a.only == p[0]]
        if a.out:
            with open(a.out, 'w') as f:
                json.dump(res, f)
        rc = 1 if any(r['failed'] for r in res) else 0
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.exit(rc)
