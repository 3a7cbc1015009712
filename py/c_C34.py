"""C34: runs with several processes against reference integrations, balances, and binnings of their own rows."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e, build

TABLE = {'Electron': 'Electrons', 'Positron': 'Positrons', 'Photon': 'Photons'}
MPISHIM = None


def mpi(g, text, np, limit=90, **kw):
    env = {'LD_PRELOAD': e2e.SHIM + ':' + MPISHIM, 'VERIF_MPI_SEED': str(g.seed()), 'VERIF_MPI_DELAY': str(g.pick((0, 2000, 20000, 60000))),
           'VERIF_MPI_SLOW': str(g.draw(np)), 'VERIF_MPI_SYNC': str(g.draw(1))}
    g.note('processes', np)
    g.note('messages', f"delay {env['VERIF_MPI_DELAY']}, slow {env['VERIF_MPI_SLOW']}, synchronous {env['VERIF_MPI_SYNC']}")
    kind = g.pick(('mpi', 'mpi', 'mpiomp'))
    threads = 1 if kind == 'mpi' else g.integer(1, 3)
    g.note('threads', threads)
    r = e2e.run(text, kind=kind, threads=threads, np=np, timeout=limit, env=env, **kw)
    r.threads = threads
    return r


def good(r):
    require(r.code == 0, f'the program ended with status {r.code}: {r.err[-600:]}')
    require(r.h5 is not None, 'there is no output file')
    return r


def check_layout(r, d, n):
    check_tables(r, d, n)
    outs = [s for s in d.sources if s.output]
    for k, s in enumerate(outs):
        ids = [row.id for row in (Row(x) for x in r.h5[source_group(k) + '/Primary'].rows())]
        for i in range(s.number):
            require(ids.count(i) == n, 'event number', i, 'appears', ids.count(i), 'times among the primaries of', n, 'processes')
        for t in NAMES:
            for row in rows(r.h5, k, t):
                check_row(t, row)
        lost = [x for x in r.files if x not in ('deck.ini', 'input-check.txt', d.out) and not x.startswith('ompi')]
        require(not lost, 'other files:', lost)


def check_independent(r, d, n):
    """no two processes draw the same particles"""
    for k, s in enumerate([s for s in d.sources if s.output]):
        if s.number and (s.radius > 0 or s.dur > 0):
            p = [tuple(x[5:8]) for x in r.h5[source_group(k) + '/Primary'].rows()]
            require(len(set(p)) == len(p), 'source', k, ':', len(p) - len(set(p)), 'of', len(p), 'primaries are copies of others')


def check_end_hists(r, d):
    """histograms at the beginning and the end are binnings of the rows of all processes"""
    if not all(s.output for s in d.sources):
        return 0
    hit = 0
    for h in d.hists:
        if h.time == 0:
            st = [Row(x) for k, s in enumerate(d.sources) if species(s.kind) == h.particle for x in r.h5[source_group(k) + '/Primary'].rows()]
        else:
            st = [x for k in range(len(d.sources)) for x in rows(r.h5, k, TABLE[h.particle])]
        check_hist(r.h5, h, [quantity(h.kind, x) for x in st], f'({len(st)} particles)')
        hit += sum(r.h5[f'Histograms/{h.name}/BinValues'].data) > 0
    return hit


def end_hists(g, d, size, energy):
    d.hists = draw_hists(g, g.draw(3), 1, energy, size)
    for h in d.hists:
        h.time = g.pick((0.0, 2.0 * d.dt * d.steps))


@prop(90, 700, 'at least two processes')
def deterministic(g):
    """nothing is emitted: every final row is the reference end of the primary of its event"""
    n = g.integer(1, 6)
    field, reach, place, limit = weak_field(g, emax=1e-7)
    T = reach * g.real(0.1, 0.5)
    steps = max(g.integer(1, 20), min(2000, math.ceil(T / limit)))
    d = Deck(field, dt=T / steps, steps=steps, model=g.pick(MODELS), fraction=0.0 if g.coin() else 1, pairs=g.coin(), tracking=g.chance(10))
    if d.model.lower() == 'quantum':
        d.fraction = 1
    d.sources = [draw_source(g, place, T * 0.1, number=g.pick((1, 3, 12, 60))) for _ in range(g.integer(1, 3))]
    for s in d.sources:
        if g.chance(70):
            s.radius, s.dur = T * 0.02, T * 0.01
        if g.chance(8):
            s.number = 0
    end_hists(g, d, T, max(s.e1 for s in d.sources) * 1.3)
    text = d.text()
    g.note('deck', text)
    r = good(mpi(g, text, n))
    check_layout(r, d, n)
    check_independent(r, d, n)
    check_end_hists(r, d)
    h = d.field.handle()
    for k, s in enumerate([s for s in d.sources if s.output]):
        q = charge(s.kind)
        final, start, photons = {}, {}, set()
        for row in rows(r.h5, k, TABLE[species(s.kind)]):
            final.setdefault(row.id, []).append(row)
        if q:
            photons = {row.id for row in rows(r.h5, k, 'Photons')} if d.model.lower() == 'quantum' else set()
        for x in r.h5[source_group(k) + '/Primary'].rows():
            start.setdefault(x[0], []).append(Row(x))
        for i in range(s.number):
            if i in photons:
                continue
            require(len(final.get(i, [])) == n, 'event', i, 'of source', k, 'ends with', len(final.get(i, [])), 'particles,', n, 'were started')
            left = list(final[i])
            for p in start[i]:
                if q == 0:
                    x2, p2 = add(p.x, p.p, T / mag(p.p)), p.p
                else:
                    x2, p2, _ = push(h, 0, p.x, p.p, q, T, steps, 0)
                tx, tp = 2e-4 * T + 1e-9 * mag(p.x), 2e-3 * mag(p.p)
                m = [f for f in left if max(abs(a - b) for a, b in zip(f.x, x2)) < tx and max(abs(a - b) for a, b in zip(f.p, p2)) < tp]
                require(m, 'event', i, 'of source', k, ': nothing is where', p.raw, 'should end, at', x2, p2, 'but', [f.raw for f in left])
                left.remove(m[0])
    e2e.REF.ref_free(h)
    g.label(f'np={n}')
    if n > 1:
        g.nontrivial()


@prop(90, 700, 'at least two processes and some photons')
def cascades(g):
    """balance of energy and number, summed over the processes, for every event number"""
    n = g.integer(1, 6)
    d = draw_cascade(g, number=g.pick((1, 4, 25)), steps=50)
    if d.field.kind != 'static' or mag(d.field.p['e']):
        d.field = Field('static', e=[0.0] * 3, b=draw_vec(g, 2 / d.sources[0].e1))
    for s in d.sources:
        s.radius, s.dur = 1.0, 1.0
        s.output = g.chance(85)
    d.pairs = g.chance(80)
    end_hists(g, d, d.dt * d.steps, d.sources[0].e1 * 1.3)
    text = d.text()
    g.note('deck', text)
    r = good(mpi(g, text, n))
    check_layout(r, d, n)
    check_independent(r, d, n)
    hit = check_end_hists(r, d)
    b, many = mag(d.field.p['b']), 0
    for k, s in enumerate([s for s in d.sources if s.output]):
        q = charge(s.kind)
        have = {i: [0.0, 0.0, 0, 0, True] for i in range(s.number)}
        for x in r.h5[source_group(k) + '/Primary'].rows():
            have[x[0]][0] -= x[1]
        of = {i: [] for i in have}
        for t in NAMES:
            for row in rows(r.h5, k, t):
                of[row.id].append((t, row))
                h = have[row.id]
                h[0] += row.e
                h[2 if t == 'Electrons' else 3] += t != 'Photons'
                many += t == 'Photons'
                if t != 'Photons':
                    h[1] += 0.5 / max(mag(row.p), 0.2) + 1e-6 * s.e1
                    if d.steps * (b * d.dt / max(mag(row.p), 0.01))**6 / 50 * mag(row.p) > 1e-4 * s.e1:
                        h[4] = False
        start = {i: [] for i in have}
        for x in r.h5[source_group(k) + '/Primary'].rows():
            start[x[0]].append(Row(x))
        for i in have:
            if not check_axis(of[i], start[i], d.field.p['b'], d.dt, d.dt * d.steps, 'event', i, 'of source', k, ':'):
                g.label('slow')
        for i, (off, tol, ne, np_, sure) in have.items():
            require(np_ - ne == q * n, 'event', i, 'of source', k, 'ends with', ne, 'electrons and', np_, 'positrons in', n, 'processes')
            if sure:
                require(abs(off) <= tol + 1e-5 * s.e1 * n, 'event', i, 'of source', k, 'is off by the energy', off, 'summed over', n, 'processes, allowed', tol)
    g.label(f'np={n}')
    if hit:
        g.label('histogram')
    if n > 1 and many:
        g.nontrivial()


@prop(12, 80, 'more than 10000 rows')
def many_rows(g):
    """messages too large to be buffered"""
    n = g.integer(2, 5)
    number = g.integer(1000, 8000)
    d = Deck(Field('static', e=[0.0] * 3, b=[0, 1e-3, 0]), [Source(number=number, e1=2000, radius=1, dur=1, kind=g.pick(('Electron', 'Positron')))], dt=300, steps=50)
    end_hists(g, d, 15000, 2000)
    text = d.text()
    g.note('deck', text)
    r = good(mpi(g, text, n))
    check_layout(r, d, n)
    check_independent(r, d, n)
    check_end_hists(r, d)
    total = sum(len(rows(r.h5, 0, t)) for t in NAMES)
    energy = sum(row.e for t in NAMES for row in rows(r.h5, 0, t))
    start = sum(x[1] for x in r.h5[source_group(0) + '/Primary'].rows())
    require(near(energy, start, 1e-4), total, 'rows hold the energy', energy, 'of', start)
    g.label(f'rows {len(str(total))} digits')
    if total > 10000:
        g.nontrivial()


@prop(16, 120, 'always')
def refused(g):
    """invalid decks end all processes"""
    n = g.integer(2, 5)
    d = Deck(Field('static', e=[0.0] * 3, b=[0, 1e-6, 0]), [Source(number=2, e1=20)], dt=100, steps=3)
    what = g.draw(2)
    if what == 0:
        d.model = 'None'
    elif what == 1:
        d.sources[0].kind = 'Muon'
    else:
        d.field.text = lambda: '[Field]\nfield_type = nothing\n'
    g.note('what', what)
    r = mpi(g, d.text(), n, limit=60, read=False)
    require(r.code != 0, 'an invalid deck ended with status zero')
    g.nontrivial()


def setup():
    global MPISHIM
    e2e.setup('mpi', 'mpiomp')
    MPISHIM = build.mpishim()


if __name__ == '__main__':
    main(setup)
