"""C37: the Python module against reference integrations, the beam asked for, the radiation laws and the command line program."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
from rm import *
import e2e, rm


def spell(g, name): return name[0].upper() + name[1:].lower() if g.coin() else name.lower()


def configure(g, f, s, dt, steps, model, fraction=1.0, pairs=False):
    ops = [op_time(0, dt, (steps - 0.5) * dt), op_field(0, f, spell(g, f.kind)), ['phys', 0, model], ['frac', 0, fraction], ['pairs', 0, pairs], op_gen(0, s)]
    g.shuffle(ops)
    return [['new', 0]] + ops


def results(ops, n, threads=1, **kw):
    a = session(ops + [['beam', 0, n, threads, True], ['get', 0]], **kw)
    for o, x in zip(ops, a):
        require(not x.exc and not x.err, o, 'answers', x.exc, x.err)
    require(not a[-2].exc and not a[-2].err and not a[-1].exc, 'the run answers', a[-2].exc, a[-2].err, a[-1].exc)
    return Arrays(a[-1].data)


@prop(500, 5000, 'the field moved a lepton by thirty times the tolerance')
def motion(g):
    """weak pulses: particles end where the reference has them"""
    f, energy, dt, steps, place = draw_laser(g, False)
    s = draw_source(g, place, dt * steps * 0.05, energy=(energy, energy * 1.5))
    model = g.pick(MODELS)
    n = g.pick((1, 2, 5, 20))
    fraction = 0.0 if model.lower() != 'quantum' else 1.0
    threads = g.pick((1, 1, 2, 4))
    ops = configure(g, f, s, dt, steps, model, fraction, g.coin())
    g.note('operations', ops)
    g.note('events', f'{n} on {threads} threads')
    r = results(ops, n, threads, rng=g.seed())
    check_beam(s, r.input, n)
    q = charge(s.kind)
    finals = getattr(r, column(s.kind))
    if model.lower() == 'quantum' and q and r.photons:
        g.label('emission')
        return
    require(len(finals) == n, n, 'events end with', len(finals), column(s.kind))
    require(all(x[6] == 1 for x in finals), 'a particle has the weight', [x[6] for x in finals])
    for name in ('electrons', 'positrons', 'photons'):
        require(name == column(s.kind) or not getattr(r, name), 'there are', name)
    h = f.handle()
    if check_ends(h, r.input, finals, q, steps * dt, steps, model):
        g.nontrivial()
    e2e.REF.ref_free(h)
    g.label(f.kind)


@prop(500, 5000, 'a lepton lost at least a hundredth of its energy')
def losses(g):
    """strong pulses in the continuous models"""
    f, gamma, dt, steps, place = draw_laser(g, True)
    s = draw_source(g, place, dt * 20, energy=(gamma * 0.5, gamma), kinds=('Electron', 'Positron', 'electron', 'positron'))
    model, n = g.pick(MODELS[:4]), g.pick((1, 3))
    fraction = g.pick((0.0, 1.0, 0.1))
    ops = configure(g, f, s, dt, steps, model, fraction)
    g.note('operations', ops)
    r = results(ops, n, g.pick((1, 2)), rng=g.seed())
    check_beam(s, r.input, n)
    q = charge(s.kind)
    finals = getattr(r, column(s.kind))
    require(len(finals) == n and not getattr(r, column('Positron' if q < 0 else 'Electron')), n, 'events end with', len(finals), column(s.kind), 'and others')
    h = f.handle()
    check_ends(h, r.input, finals, q, steps * dt, steps, model)
    e2e.REF.ref_free(h)
    if fraction == 0:
        require(not r.photons, len(r.photons), 'photons with the sampling fraction zero')
    for x in r.photons:
        require(x[6] > 0, 'a photon has the weight', x[6])
    lost = max((mag(a.p) - mag(b.p)) / mag(a.p) for a, b in zip(ps(r.input), ps(finals)))
    if lost > 0.01:
        g.nontrivial()
    g.label(f.kind)
    g.label(model.lower())


def normal(z): return 0.5 * math.erfc(-z / math.sqrt(2))


def ks1(values, cdf):
    v, n = sorted(values), len(values)
    return max(max(abs(cdf(x) - i / n), abs(cdf(x) - (i + 1) / n)) for i, x in enumerate(v)) * math.sqrt(n)


@prop(120, 1200, 'always')
def beams(g):
    """the inputs are distributed as the beam asked for"""
    f = Field('gaussian', emax=1e-9, wavelength=2e6, duration=1e7, waist=1e7, pol=0.0, start=[0, 0, 1e7], focus=[0.0] * 3)
    s = draw_source(g, draw_vec(g, g.logu(1, 1e8)), 0, energy=(2, 4000), spread=False)
    low = s.distro.lower()
    s.e2 = s.e1 * g.real(0.01, 0.1) if low == 'gaussian' else s.e1 * g.real(1.2, 3) if low == 'linear' else 0
    s.radius, s.dur, s.div = g.logu(1e3, 1e7), g.logu(1e3, 1e7), g.logu(1e-3, 0.3)
    n = 3000
    ops = configure(g, f, s, 1.0, 1, 'Classical', 0.0)
    g.note('operations', ops)
    r = results(ops, n, g.pick((1, 2, 5)), rng=g.seed())
    check_beam(s, r.input, n)
    inp = ps(r.input)
    axis = scale(s.dir, 1 / mag(s.dir))
    side = cross(axis, [1, 0, 0] if abs(axis[0]) < 0.7 else [0, 1, 0])
    side = scale(side, 1 / mag(side))
    up = cross(axis, side)
    off = [add(p.x, s.pos, -1) for p in inp]
    for name, w, size in (('side', side, s.radius), ('height', up, s.radius), ('length', axis, s.dur)):
        d = ks1([dot(o, w) / size for o in off], normal)
        require(d < KS_LIMIT, 'the', name, 'of the beam is not normal with', size, ':', d)
    energies = [mag(p.p) for p in inp]
    if low == 'gaussian':
        d = ks1([(e - s.e1) / s.e2 for e in energies], normal)
        require(d < KS_LIMIT, 'the energies are not normal:', d)
    elif low == 'linear':
        d = ks1([(e - s.e1) / (s.e2 - s.e1) for e in energies], lambda u: min(max(u, 0), 1))
        require(d < KS_LIMIT, 'the energies are not uniform:', d)
    angle = [math.acos(max(-1, min(1, dot(p.p, axis) / mag(p.p)))) / s.div for p in inp]
    d = ks1(angle, lambda u: 2 * normal(u) - 1)
    require(d < KS_LIMIT, 'the angles to the axis are not those of a divergence of', s.div, ':', d)
    phi = [(math.atan2(dot(p.p, up), dot(p.p, side)) + math.pi) / (2 * math.pi) for p in inp]
    d = ks1(phi, lambda u: min(max(u, 0), 1))
    require(d < KS_LIMIT, 'the angles around the axis are not uniform:', d)
    g.nontrivial()


@prop(150, 1200, 'there was something to compare')
def spellings(g):
    """capital letters make no difference"""
    strong = g.coin()
    f, gamma, dt, steps, place = draw_laser(g, strong)
    steps = min(steps, 60)
    s = draw_source(g, place, dt * 10, energy=(gamma * 0.5, gamma))
    model, n, rng = g.pick(('classical', 'semiclassical', 'quantum')), g.integer(1, 4), g.seed()
    both = []
    fraction, pairs = g.pick((0.3, 1.0)), g.coin()
    for up in (False, True):
        c = (lambda x: x[0].upper() + x[1:].lower()) if up else str.lower
        s.kind, s.distro = c(s.kind), c(s.distro)
        ops = [['new', 0], op_time(0, dt, (steps - 0.5) * dt), op_field(0, f, c(f.kind)), ['phys', 0, c(model)], ['frac', 0, fraction], ['pairs', 0, pairs], op_gen(0, s)]
        both.append((ops, results(ops, n, 1, rng=rng)))
    g.note('operations', both[0][0])
    a, b = both[0][1], both[1][1]
    for name in a.names:
        require(getattr(a, name) == getattr(b, name), name, 'differ with capital letters:', getattr(a, name)[:2], getattr(b, name)[:2])
    g.label(model)
    g.nontrivial()


def cumulated(eta, shares):
    n = len(shares)
    a, b, m = (ctypes.c_double * n)(*shares), (ctypes.c_double * n)(), ctypes.c_double()
    e2e.REF.ref_emission_cdf(ctypes.c_double(eta), n, a, b, ctypes.byref(m))
    return list(b), m.value


def eta_at(f, t, x, p):
    h = f.handle()
    _, _, top = push(h, t, x, p, 1, 1e-6, 1)
    e2e.REF.ref_free(h)
    return top


@prop(60, 900, 'at least 1000 photons')
def spectra(g):
    """number, weights and energies of the photons in a field that hardly changes"""
    model = g.pick(MODELS)
    law = model.lower()
    gamma, eta = g.logu(300, 20000), g.logu(1e-2, 4)
    low = 1e-4
    stretch, at = (eta / low, low) if law == 'classical' else (1, eta)     # the classical spectrum is that of a weak field, scaled
    _, mean = cumulated(at, [0])
    rate = e2e.REF.ref_emission_rate(at, gamma) * stretch
    loss = rate * mean * stretch
    T = (0.02 if law == 'quantum' else 0.01) / loss * g.real(0.3, 1)
    lam, d, dirn = 3000 * T, g.direction(), g.direction()
    if dot(d, dirn) > 0.5:
        raise Discard
    f = Field(g.pick(('gaussian', 'focusing')), emax=1e-6, wavelength=lam, duration=20 * lam, waist=30 * lam, pol=g.real(-3, 3), start=scale(d, -0.1 * lam), focus=[0.0] * 3)
    place = max((scale(d, lam * (i / 40 - 0.6)) for i in range(40)), key=lambda x: eta_at(f, 0, x, scale(dirn, gamma)))
    f.p['emax'] *= eta / eta_at(f, 0, place, scale(dirn, gamma))
    h = f.handle()
    x, m, _ = push(h, 0, place, scale(dirn, gamma), -1, T, 200, 0)
    e2e.REF.ref_free(h)
    if not near(eta_at(f, T, x, m), eta, 0.01):
        raise Discard
    fraction = g.pick((1, g.real(0.02, 1)))
    steps = max(5, math.ceil(f.p['emax'] * 2 * T / gamma / 0.2), math.ceil(rate * T / 0.03))
    want = 2500 / fraction
    n = max(1, min(4000, math.ceil(want / (rate * T if law == 'quantum' else steps))))
    if steps * n > 200000:
        raise Discard
    ops = configure(g, f, Source(kind=g.pick(('Electron', 'Positron')), pos=place, dir=dirn, e1=gamma), T / steps, steps, model, fraction)
    g.note('operations', ops)
    g.label(law)
    r = results(ops, n, g.pick((1, 2, 4)), rng=g.seed())
    e, k = sorted(mag(p.p) / gamma for p in ps(r.photons)), len(r.photons)
    trials = rate * T * n if law == 'quantum' else steps * n
    mu = trials * fraction
    sd = math.sqrt(mu * (1 if law == 'quantum' else 1 - fraction))
    require(abs(k - mu) <= 8 * sd + 1 + (0.03 * mu if law == 'quantum' else 1e-9 * mu), k, 'photons were recorded instead of', mu, '+-', sd)
    for row in r.photons:
        require(near(row[6], 1 / fraction if law == 'quantum' else rate * T / steps / fraction, 1e-12 if law == 'quantum' else 0.05), 'a photon has the weight', row[6], 'at the fraction', fraction, 'and the rate', rate, 'per time, steps of', T / steps)
    if k < 300:
        return
    cdf, _ = cumulated(at, [v / stretch for v in e])
    dist = max(max(abs(c - i / k), abs(c - (i + 1) / k)) for i, c in enumerate(cdf))
    require(dist <= 3.7 / math.sqrt(k) + 0.02, f'the photon energies differ from the {law} spectrum by {dist} with {k} photons')
    if k >= 1000:
        g.nontrivial()


def sums(r, n):
    """numbers and energies of a run per event"""
    ph = ps(r.photons)
    return dict(number=sum(p.w for p in ph) / n, energy=sum(p.w * mag(p.p) for p in ph) / n, rows=len(ph), pairs=len(r.positrons) / n)


@prop(100, 1000, 'at least 300 photons in each run')
def fractions(g):
    """photon numbers and energies do not depend on the sampling fraction"""
    f, gamma, dt, steps, place = draw_laser(g, True)
    s = Source(kind=g.pick(('Electron', 'Positron')), pos=place, dir=draw_vec(g, 1), e1=gamma)
    model, n = g.pick(MODELS), 400
    steps = min(steps, 150)
    fr = g.pick((0.05, 0.2, 0.5))
    ops = configure(g, f, s, dt, steps, model, 1.0)
    g.note('operations', ops)
    g.note('fraction', fr)
    full = results(ops, n, 4, rng=g.seed())
    low = results([['frac', 0, fr] if o[0] == 'frac' else o for o in ops], n, 4, rng=g.seed())
    if model.lower() == 'quantum':
        for x in full.photons:
            require(x[6] == 1, 'a photon has the weight', x[6], 'at the sampling fraction 1')
        for x in low.photons:
            require(near(x[6], 1 / fr, 1e-12), 'a photon has the weight', x[6], 'at the sampling fraction', fr)
    a, b = len(full.photons), len(low.photons)
    # b of a binomial thinning; a itself fluctuates (quantum: more than Poisson between events)
    spread = math.sqrt(fr * fr * a * 3 + a * fr + 9)
    require(abs(b - fr * a) <= 7 * spread + 5, b, 'photons at the sampling fraction', fr, ',', a, 'at 1')
    if a > 300 and b > 30:
        d = ks2([mag(p.p) for p in ps(full.photons)], [mag(p.p) for p in ps(low.photons)])
        # photons of one event depend on each other
        require(d < KS_LIMIT * 1.5 * math.sqrt(max(1, b / n)), 'the photon energies depend on the sampling fraction', fr, ':', d)
        for name, size in (('number', lambda p: p.w), ('energy', lambda p: p.w * mag(p.p))):
            va, vb = [size(p) for p in ps(full.photons)], [size(p) for p in ps(low.photons)]
            sig = math.sqrt(sum(v * v for v in va) * (1 / fr + 3 * max(1, a / n)))
            require(abs(sum(va) - sum(vb)) <= 8 * sig + 8 * max(va) / fr, 'the photons have the', name, sum(vb), 'at the sampling fraction', fr, 'and', sum(va), 'at 1; sigma', sig)
        g.nontrivial()
    g.label(model.lower())


@prop(120, 1200, 'at least 100 photons or pairs in each run')
def program(g):
    """the command line program gives the same numbers, energies and directions of photons and pairs"""
    f, gamma, dt, steps, place = draw_laser(g, True)
    model = g.pick(MODELS + ('Quantum', 'Quantum'))
    pairs = g.chance(70)
    if pairs and g.coin():        # photons that turn into pairs
        gamma = 20000 * g.real(0.5, 1.5)
        f.p['emax'] = min(g.real(1, 4) / gamma / 2, 60 * 2 * math.pi / f.p['wavelength'])
        kind = 'Photon'
    else:
        kind = g.pick(('Electron', 'Positron'))
    s = Source(kind=kind, pos=place, dir=draw_vec(g, 1), e1=gamma, radius=dt * 5, dur=dt * 5, number=400)
    fraction = 1.0 if model.lower() == 'quantum' and g.coin() else g.pick((1.0, 0.3))
    steps = min(steps, 120)
    n = s.number
    ops = configure(g, f, s, dt, steps, model, fraction, pairs)
    g.note('operations', ops)
    a = results(ops, n, 4, rng=g.seed())
    d = Deck(f, [s], dt=dt, steps=steps, model=model, pairs=pairs, fraction=fraction)
    x = e2e.good(d.text(), rng=g.seed())
    his = {c: rows(x.h5, 0, t) for t, c in (('Electrons', 'electrons'), ('Positrons', 'positrons'), ('Photons', 'photons'))}
    mine = {c: ps(getattr(a, c)) for c in his}
    for c in same_population(mine, his, 'in the program'):
        if c == 'photons' or c == 'positrons' and kind != 'Positron':
            g.nontrivial()
            g.label(c)
    g.label(model.lower())


if __name__ == '__main__':
    def setup():
        rm.setup()
        e2e.REF.ref_emission_rate(0.1, 1.0)     # its tables are made before the workers start
    main(setup)
