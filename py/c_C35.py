"""C35: runs with several threads against the same runs with one thread, reference integrations, balances and a race detector."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e, build, rm, subprocess

TABLE = PRIMARY
OMPSHIM = RMRACE = None


def threaded(g, text, kind='omp', threads=None, limit=120, team=None, **kw):
    n = threads or g.pick((2, 2, 3, 4, 4, 5, 7, 8, 12, 16))
    team = g.coin() if team is None else team
    env = {'LD_PRELOAD': e2e.SHIM + ':' + OMPSHIM, 'VERIF_OMP_SEED': str(g.seed()), 'VERIF_OMP_JITTER': str(g.pick((0, 1, 5, 20))), 'VERIF_OMP_TEAM': '1' if team else '0',
           'TSAN_OPTIONS': 'exitcode=0 halt_on_error=0'}
    g.note('threads', f"{n}, delays {env['VERIF_OMP_JITTER']}, {'pthread' if team else 'libgomp'} teams")
    r = e2e.run(text, kind=kind, threads=n, timeout=limit, env=env, **kw)
    r.threads = n
    return r


def ok(r):
    require(r.code == 0, f'the program ended with status {r.code}: {r.err[-600:]}')
    require(r.h5 is not None, 'there is no output file')
    return r


def bag(rows_):
    out = {}
    for r in rows_:
        out[r] = out.get(r, 0) + 1
    return out


def same(a, b, *what):
    a, b = bag(a), bag(b)
    if a != b:
        lost = [k for k in a if b.get(k, 0) < a[k]]
        new = [k for k in b if a.get(k, 0) < b[k]]
        raise Fail(' '.join(str(x) for x in what) + f': one thread gives {lost[:3]} ({len(lost)} in all), several give {new[:3]} ({len(new)}) in their place')


def primaries(h5, k):
    return [tuple(x[1:]) for x in h5[source_group(k) + '/Primary'].rows()]


def check_sample(r, one, d):
    for k in range(len([s for s in d.sources if s.output])):
        same(primaries(one.h5, k), primaries(r.h5, k), 'primaries of source', k)


def add_spread(g, d, size):
    for s in d.sources:
        if g.chance(70):
            s.radius, s.dur = size * 0.02, size * 0.01


@prop(700, 6000, 'several events on at least two threads')
def deterministic(g):
    """nothing random happens after the primaries are drawn: the results are those of one thread in another order"""
    field, reach, place, limit = weak_field(g, emax=1e-7)
    T = reach * g.real(0.1, 0.5)
    steps = max(g.integer(1, 20), min(600, math.ceil(T / limit)))
    d = Deck(field, dt=T / steps, steps=steps, model=g.pick(MODELS[:4]), fraction=0.0, pairs=g.coin(), tracking=g.chance(50))
    d.sources = [draw_source(g, place, T * 0.1, number=g.pick((1, 3, 12, 60, 300 if steps < 60 else 60))) for _ in range(g.integer(1, 3))]
    add_spread(g, d, T)
    for s in d.sources:
        if g.chance(8):
            s.number = 0
    d.hists = draw_hists(g, g.draw(4), T, max(s.e1 for s in d.sources) * 1.3, T)
    text = d.text()
    g.note('deck', text)
    one = ok(e2e.run(text, kind='omp', rng=5))
    r = ok(threaded(g, text, rng=5))
    check_tables(r, d)
    check_sample(r, one, d)
    for k, s in enumerate([s for s in d.sources if s.output]):
        def pairs(h5):
            start = [tuple(x[1:]) for x in h5[source_group(k) + '/Primary'].rows()]
            return [(start[int(row.id)], t, tuple(row.raw[1:])) for t in NAMES for row in rows(h5, k, t)]
        same(pairs(one.h5), pairs(r.h5), 'final rows of source', k, 'with their primaries')
    for h in d.hists:
        require(one.h5[f'Histograms/{h.name}/BinValues'].data == r.h5[f'Histograms/{h.name}/BinValues'].data, 'histogram', h.name, 'holds', r.h5[f'Histograms/{h.name}/BinValues'].data, 'instead of', one.h5[f'Histograms/{h.name}/BinValues'].data)
    if d.tracking:
        def all_(h5): return [(tuple(t.t), tuple(map(tuple, t.x)), tuple(map(tuple, t.p)), tuple(t.gamma)) for t in tracks(h5)]
        a, b = all_(one.h5), all_(r.h5)
        require(len(a) == len(b), len(b), 'tracks instead of', len(a))
        a, b = sorted(a), sorted(b)
        for i, (x, y) in enumerate(zip(a, b)):
            require(x == y, 'track', i, 'is', str(y)[:200], 'instead of', str(x)[:200])
        g.label('tracks')
    # and they are right
    hd = d.field.handle()
    for k, s in enumerate([s for s in d.sources if s.output]):
        start = [Row(x) for x in r.h5[source_group(k) + '/Primary'].rows()]
        final = {row.id: row for row in rows(r.h5, k, TABLE[species(s.kind)])}
        q = charge(s.kind)
        for i in range(min(s.number, 5)):
            p, f = start[i], final[i]
            if q == 0:
                x2, p2 = add(p.x, p.p, T / mag(p.p)), p.p
            else:
                x2, p2, _ = push(hd, 0, p.x, p.p, q, T, steps, 0)
            require(max(abs(a - b) for a, b in zip(f.x, x2)) < 2e-4 * T + 1e-9 * mag(p.x), 'event', i, 'ends at', f.x, 'instead of', x2)
            require(max(abs(a - b) for a, b in zip(f.p, p2)) < 2e-3 * mag(p.p), 'event', i, 'ends with', f.p, 'instead of', p2)
    e2e.REF.ref_free(hd)
    if max(s.number for s in d.sources) > 2:
        g.nontrivial()


@prop(800, 8000, 'photons were emitted in events of several threads')
def cascades(g):
    """every event balances, no two events are alike, histograms and tracks are those of the rows"""
    d = draw_cascade(g, number=g.pick((1, 6, 40)), steps=60)
    if d.field.kind != 'static' or mag(d.field.p['e']):
        d.field = Field('static', e=[0.0] * 3, b=draw_vec(g, 2 / d.sources[0].e1))
    for s in d.sources:
        s.output = g.chance(85)
    if g.coin():
        for s in d.sources:
            s.radius, s.dur = 1.0, 1.0
    d.pairs, d.tracking = g.chance(80), g.chance(40)
    d.hists = draw_hists(g, g.draw(3), 1, d.sources[0].e1 * 1.3, d.dt * d.steps)
    for h in d.hists:
        h.time = g.pick((0.0, 2.0 * d.dt * d.steps))
    text = d.text()
    g.note('deck', text)
    rng = g.seed()
    r = ok(threaded(g, text, rng=rng))
    check_tables(r, d)
    check_sample(r, ok(e2e.run(text, kind='omp', rng=rng)), d)
    outs = [s for s in d.sources if s.output]
    b, many, seen = mag(d.field.p['b']), 0, {}
    for k, s in enumerate(outs):
        q = charge(s.kind)
        have = [[0.0, 0.5e-6 * s.e1, 0, 0, True, []] for i in range(s.number)]
        of, start = [[] for _ in have], [[] for _ in have]
        for x in r.h5[source_group(k) + '/Primary'].rows():
            have[int(x[0])][0] -= x[1]
            start[int(x[0])].append(Row(x))
        for t in NAMES:
            for row in rows(r.h5, k, t):
                check_row(t, row)
                of[int(row.id)].append((t, row))
                h = have[int(row.id)]
                h[0] += row.e
                if t == 'Photons':
                    many += 1
                    h[5].append(row.e)
                else:
                    h[2 if t == 'Electrons' else 3] += 1
                    h[1] += 0.5 / max(mag(row.p), 0.2) + 1e-6 * s.e1
                    if d.steps * (b * d.dt / max(mag(row.p), 0.01))**6 / 50 * mag(row.p) > 1e-4 * s.e1:
                        h[4] = False
        for i in range(s.number):
            if not check_axis(of[i], start[i], d.field.p['b'], d.dt, d.dt * d.steps, 'event', i, 'of source', k, ':'):
                g.label('slow')
        for i, (off, tol, ne, np_, sure, ph) in enumerate(have):
            require(np_ - ne == q, 'event', i, 'of source', k, 'ends with', ne, 'electrons and', np_, 'positrons')
            if sure:
                require(abs(off) <= tol + 1e-5 * s.e1, 'event', i, 'of source', k, 'is off by the energy', off, 'allowed', tol)
            if len(ph) > 1 or (q and ph):
                key = tuple(ph)
                require(key not in seen, 'events', seen.get(key), 'and', (k, i), 'have the same photons', ph[:3])
                seen[key] = (k, i)
    if len(outs) == len(d.sources):
        for h in d.hists:
            if h.time == 0:
                st = [Row(x) for k, s in enumerate(d.sources) if species(s.kind) == h.particle for x in r.h5[source_group(k) + '/Primary'].rows()]
            else:
                st = [x for k in range(len(d.sources)) for x in rows(r.h5, k, TABLE[h.particle])]
            check_hist(r.h5, h, [quantity(h.kind, x) for x in st], f'({len(st)} particles)')
            if sum(r.h5[f'Histograms/{h.name}/BinValues'].data):
                g.label('histogram')
    if d.tracking:
        T = tracks(r.h5)
        tr = {x for x in r.h5 if x.startswith('Particles/ParticleTrack')}
        require(len(tr) == 1 + 5 * len(T), 'the tracks are not numbered without a gap')
        ends, empty = {}, 0
        for i, t in enumerate(T):
            require(len(t.x) == len(t.p) == len(t.t) == len(t.gamma), 'track', i, 'has', len(t.x), len(t.p), len(t.t), len(t.gamma), 'records')
            require(all(a <= c for a, c in zip(t.t, t.t[1:])), 'track', i, 'goes back in time')
            if t.t:
                ends[tuple(t.x[-1])] = ends.get(tuple(t.x[-1]), 0) + 1
            else:
                empty += 1
        if len(outs) == len(d.sources):
            loose = 0
            for k in range(len(outs)):
                for t in NAMES:
                    for row in rows(r.h5, k, t):
                        if ends.get(tuple(row.x), 0):
                            ends[tuple(row.x)] -= 1
                        else:
                            loose += 1
            require(loose <= empty, loose, 'final rows are at the end of no track;', empty, 'tracks are empty')
        g.label('tracks')
    if many:
        g.nontrivial()


def check_race(r):
    if 'FATAL: ThreadSanitizer' in r.err:
        raise Discard()
    at = r.err.find('WARNING: ThreadSanitizer')
    require(at < 0, 'the threads race:', r.err[at:at + 1800])


@prop(400, 4000, 'several events on at least two threads')
def races(g):
    """the threads share no data without synchronisation, as ThreadSanitizer sees it"""
    d = draw_any(g, events=g.pick((2, 6, 20))) if g.coin() else draw_cascade(g, number=g.pick((2, 8, 20)), steps=30)
    d.steps = min(d.steps, 30)
    d.tracking = g.coin()
    if not d.sources:
        raise Discard()
    d.hists = draw_hists(g, g.draw(3), d.dt * d.steps, 100, 100, [species(d.sources[0].kind)])
    text = d.text()
    g.note('deck', text)
    r = threaded(g, text, kind='tsan', team=True, out=d.out)
    check_race(r)
    ok(r)
    if max(s.number for s in d.sources) > 1:
        g.nontrivial()


@prop(120, 1000, 'several events on at least two threads')
def python_races(g):
    """the same for the run manager of the Python module, several runs in a row"""
    cwd = scratch()
    lam = g.logu(0.5e-6, 2e-6)
    runs = g.integer(1, 3)
    lines, top = [], 0
    for _ in range(runs):
        gamma = g.logu(20, 3000)
        events, threads = g.pick((1, 2, 5, 16, 40)), g.pick((1, 2, 3, 4, 8, 16))
        top = max(top, min(events, threads))
        a0 = min(g.logu(1, 60), 20000 / gamma)
        lines.append(' '.join(str(x) for x in (lam / C0 / 30, 30 * lam / C0, g.pick(('gaussian', 'focusing')), a0 * 4e12 * 0.8e-6 / lam, lam, 3 * lam / C0, 4 * lam,
                     g.pick(('Classical', 'Semiclassical', 'Quantum')), g.pick((0, 0.3, 1)), g.draw(1), g.pick(('Electron', 'Positron', 'Photon')), gamma * U_EN, events, threads)))
    with open(os.path.join(cwd, 'runs'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    g.note('runs', lines)
    env = {'LD_PRELOAD': e2e.SHIM + ':' + OMPSHIM, 'VERIF_OMP_SEED': str(g.seed()), 'VERIF_OMP_JITTER': str(g.pick((0, 1, 5, 20))), 'VERIF_OMP_TEAM': '1', 'TSAN_OPTIONS': 'exitcode=0'}
    r = e2e.execute(['runs'], cwd, exe=RMRACE, env=env, timeout=150)
    require(not r.timeout, 'the runs do not end')
    check_race(r)
    require(r.code == 0 and 'done' in r.out, 'the runs end with status', r.code, r.err[-400:])
    if top > 1:
        g.nontrivial()


@prop(250, 2500, 'more than 50 events on at least two threads')
def python_threads(g):
    """the Python module simulates every input exactly once, also in several runs in a row"""
    f = Field(g.pick(('gaussian', 'focusing')), emax=g.pick((0.0, 1e-25)), wavelength=2e6, duration=1e7, waist=1e7, pol=0.0, start=[0, 0, 1e7], focus=[0.0] * 3)
    ops, todo = [['new', 0]], []
    steps, dt = g.integer(1, 30), g.logu(1, 1e4)
    T = steps * dt
    for _ in range(g.integer(1, 3)):
        s = Source(kind=g.pick(('Electron', 'Positron', 'Photon')), pos=draw_vec(g, g.logu(1, 1e5)), dir=draw_vec(g, 1), distro='gaussian', e1=g.logu(2, 4000), radius=1e3, dur=1e3, div=0.1)
        s.e2 = s.e1 * 0.1
        n, threads = int(g.logu(1, 1500)), g.pick((1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 32))
        ops += [rm.op_time(0, dt, (steps - 0.5) * dt), rm.op_field(0, f), ['phys', 0, g.pick(MODELS)], ['frac', 0, g.unit()], ['pairs', 0, g.coin()], rm.op_gen(0, s), ['beam', 0, n, threads, True], ['get', 0]]
        todo.append((len(ops) - 1, s, n, threads))
        if n > 50 and threads > 1:
            g.nontrivial()
    g.note('operations', ops)
    a = rm.session(ops, rng=g.seed(), jitter=g.pick((0, 1, 5, 20)), seed=g.seed())
    for i, x in enumerate(a):
        require(not x.exc and not x.err, ops[i], 'answers', x.exc, x.err)
    for at, s, n, threads in todo:
        r = rm.Arrays(a[at].data)
        what = f'of {n} events of {s.kind} on {threads} threads'
        require(len(r.input) == n, len(r.input), 'inputs', what)
        for name in ('electrons', 'positrons', 'photons'):
            if name == 'photons' and s.kind != 'Photon':
                continue        # the continuous models always emit
            require(len(getattr(r, name)) == (n if name == rm.column(s.kind) else 0), len(getattr(r, name)), name, what)
        ins, outs = sorted(rm.ps(r.input), key=lambda p: p.p), sorted(rm.ps(getattr(r, rm.column(s.kind))), key=lambda p: p.p)
        require(len({tuple(p.p) for p in ins}) == n, 'inputs are repeated', what)
        for p, q in zip(ins, outs):
            m = mag(p.p)
            v = m if s.kind == 'Photon' else math.sqrt(1 + m * m)
            end = add(p.x, p.p, T / v)
            require(max(abs(x - y) for x, y in zip(p.p, q.p)) <= 1e-9 * m and max(abs(x - y) for x, y in zip(end, q.x)) <= 1e-9 * (T + mag(p.x)) and q.w == 1,
                    'no particle', what, 'ends where', p.raw, 'should, the next is', q.raw)


@prop(60, 400, 'always')
def refused(g):
    """invalid decks end the program whatever the number of threads"""
    d = Deck(Field('static', e=[0.0] * 3, b=[0, 1e-6, 0]), [Source(number=g.integer(1, 20), e1=20)], dt=100, steps=3)
    what = g.draw(3)
    if what == 0:
        d.model = 'None'
    elif what == 1:
        d.sources[0].kind = 'Muon'
    elif what == 2:
        d.field.text = lambda: '[Field]\nfield_type = nothing\n'
    else:           # outside the tables
        d.field.p['b'], d.dt, d.steps = [0, 30.0, 0], 0.1, 5000
    g.note('what', what)
    r = threaded(g, d.text(), limit=60, read=False)
    require(r.code > 0, 'the program ended with status', r.code)
    g.nontrivial()


def setup():
    global OMPSHIM, RMRACE
    e2e.setup('omp', 'tsan')
    rm.setup()
    OMPSHIM = build.ompshim()
    RMRACE = build.cpp('tsan', 'rmrace')


if __name__ == '__main__':
    main(setup)
