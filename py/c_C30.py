"""C30: the final states of a run against an independent integration and the radiation laws."""
import ctypes, sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e

TABLE = {'Electron': 'Electrons', 'Positron': 'Positrons', 'Photon': 'Photons'}


def primaries(r, k): return [Row(x) for x in r.h5[source_group(k) + '/Primary'].rows()]


def close(a, b, tol): return all(abs(x - y) <= tol for x, y in zip(a, b))


def check_states(g, r, d, what, loose=0.0):
    """final rows of every event against the reference; loose: error of the loss allowed, in units of 5 %"""
    h, T, hit = d.field.handle(), d.steps * d.dt, 0
    law = {'classical': 1, 'semiclassical': 2, 'quantum': 0}[d.model.lower()]
    for k, s in enumerate([s for s in d.sources if s.output]):
        q = charge(s.kind)
        emitted = {row.id for row in rows(r.h5, k, 'Photons')} if q and d.model.lower() == 'quantum' else set()
        final = {}
        for row in rows(r.h5, k, TABLE[species(s.kind)]):
            final.setdefault(row.id, []).append(row)
        for i, p in enumerate(primaries(r, k)):
            if i in emitted:
                continue
            require(len(final.get(i, [])) == 1, 'event', i, 'of source', k, 'ends with', len(final.get(i, [])), 'particles of the primary species')
            f = final[i][0]
            m = mag(p.p)
            if q == 0:
                require(close(f.p, p.p, 1e-13 * m) and near(f.e, p.e, 1e-13), 'a photon changed its momentum from', p.p, 'to', f.p)
                x = add(p.x, p.p, T / m)
                tol = 1e-9 * (T + mag(p.x))
                require(close(f.x, x, tol), 'a photon is at', f.x, 'instead of', x)
                hit += 1
                continue
            x1, p1, _ = push(h, 0, p.x, p.p, q, T, d.steps, law)
            x2, p2, top = push(h, 0, p.x, p.p, q, T, d.steps * 4, law)
            free = add(p.x, p.p, T / math.sqrt(1 + m * m))
            tx = 10 * max(abs(a - b) for a, b in zip(x1, x2)) + 1e-8 * (T + mag(p.x))
            tp = 10 * max(abs(a - b) for a, b in zip(p1, p2)) + 1e-8 * m
            if loose:
                x3, p3, _ = push(h, 0, p.x, p.p, q, T, d.steps * 4, law + 2)
                tp += loose * max(abs(a - b) for a, b in zip(p2, p3))
                tx += loose * max(abs(a - b) for a, b in zip(x2, x3))
            require(close(f.p, p2, tp), what, 'event', i, 'of source', k, 'from', p.raw, 'has momentum', f.p, 'instead of', p2, 'within', tp)
            require(close(f.x, x2, tx), what, 'event', i, 'of source', k, 'from', p.raw, 'is at', f.x, 'instead of', x2, 'within', tx)
            require(near(f.e, math.sqrt(1 + dot(f.p, f.p)), 1e-12), 'energy and momentum of', f.raw)
            if max(abs(a - b) for a, b in zip(x2, free)) > 30 * tx and max(abs(a - b) for a, b in zip(p2, p.p)) > 30 * tp:
                hit += 1
    e2e.REF.ref_free(h)
    return hit


@prop(1200, 12000, 'the field moved a particle by thirty times the tolerance, or a photon flew')
def motion(g):
    field, reach, place, limit = weak_field(g)
    T = reach * g.real(0.2, 1)
    steps = max(g.integer(1, 30), min(4000, math.ceil(T / limit)))
    if g.chance(10):
        steps = g.integer(1, 2)
        T = min(T, steps * limit)
    d = Deck(field, dt=T / steps, steps=steps, model=g.pick(MODELS), pairs=g.coin(), emin=g.pick((0, 1.0)), fraction=g.pick((1, 0.0)))
    if g.chance(40):
        # one and two steps to the end are exact; otherwise rounding must not matter
        d.short = 0 if steps < 3 else g.pick((g.logu(1e-6, 0.5), 1 - g.logu(1e-6, 0.5)))
    d.sources = [draw_source(g, place, T * 0.1, output=True if k == 0 else None) for k in range(1 + g.draw(1))]
    if d.model.lower() == 'quantum':
        d.emin, d.fraction = 0, 1       # so that events with emission can be told
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    if check_states(g, r, d, d.model, loose=0 if d.model.lower() != 'semiclassical' else 1):
        g.nontrivial()
    g.label(field.kind)
    g.label(d.model.lower())


@prop(1500, 15000, 'a lepton lost at least a hundredth of its energy')
def losses(g):
    """strong radiation reaction"""
    field, gamma, dt, place, size = draw_radiating(g)
    dt *= g.logu(0.3, 3)
    if field.kind == 'static':
        field.p['e'] = scale(field.p['e'], 0.1)
    rate = 2 / 3 * ALPHA * (gamma * max(field.p.get('emax', 0) * 2, mag(field.p.get('b', [0]))))**2 / gamma      # share per time
    steps = max(5, min(3000, int(min(0.5, g.logu(0.02, 0.5)) / (rate * dt)) + 1))
    dt = min(dt, 0.5 / rate / steps)
    d = Deck(field, dt=dt, steps=steps, model=g.pick(MODELS[:4]), fraction=0.0)
    s = draw_source(g, place, min(size, dt * steps) * 0.1, energy=(gamma * 0.3, gamma), output=True, kinds=('Electron', 'Positron'))
    d.sources = [s]
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    check_states(g, r, d, d.model, loose=0.1 if d.model.lower() == 'classical' else 1)
    lost = [(p.e - f.e) / p.e for p, f in zip(primaries(r, 0), rows(r.h5, 0, TABLE[species(s.kind)]))]
    if max(lost) > 0.01:
        g.nontrivial()
    g.label(field.kind)
    g.label(d.model.lower())


@prop(300, 3000, 'at least 200 photons were emitted')
def quantum_mean(g):
    """the mean loss with quantum emission is that of the semiclassical law; momentum is conserved event by event in a magnetic field"""
    gamma, chi = g.logu(300, 5000), g.logu(3e-3, 2)
    b = draw_vec(g, chi / gamma)
    dirn = g.direction()
    perp = mag(cross(scale(b, 1 / mag(b)), dirn))
    if perp < 0.2:
        raise Discard
    n = g.pick((100, 400, 1000))
    share = 0.05
    # time to lose this share
    h = Field('static', e=[0.0] * 3, b=b).handle()
    p0 = scale(dirn, gamma)
    trial = gamma / (ALPHA * chi * chi * perp * perp) * 0.01
    _, p1, _ = push(h, 0, [0.0] * 3, p0, -1, trial, 60, 2)
    T = trial * share / max(1 - mag(p1) / gamma, 1e-12)
    turn = T * mag(b) / gamma
    rate = 1.44 * ALPHA * chi * perp / gamma
    steps = max(20, math.ceil(turn / 0.05), math.ceil(rate * T / 0.03))
    if steps * n > 1500000:
        raise Discard
    _, p2, _ = push(h, 0, [0.0] * 3, p0, -1, T, steps, 2)
    e2e.REF.ref_free(h)
    want = gamma - mag(p2)
    d = Deck(Field('static', e=[0.0] * 3, b=b), [Source(number=n, kind=g.pick(('Electron', 'Positron')), dir=dirn, e1=gamma)], dt=T / steps, steps=steps)
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    photons = rows(r.h5, 0, 'Photons')
    per = [0.0] * n
    for row in photons:
        per[int(row.id)] += row.e
        require(near(row.e, mag(row.p), 1e-9), 'photon', row.raw)
    loss = []
    for p, f in zip(primaries(r, 0), rows(r.h5, 0, TABLE[d.sources[0].kind])):
        loss.append(mag(p.p) - mag(f.p))
        # one that lost most of it may turn too far in a step
        require(mag(f.p) < 0.5 * gamma or near(mag(p.p), mag(f.p) + per[int(p.id)], 1e-5), 'event', p.id, 'starts with the momentum', mag(p.p), 'and ends with', mag(f.p), '+', per[int(p.id)])
    mean = sum(loss) / n
    sig = math.sqrt(sum((x - mean)**2 for x in loss) / (n - 1) / n)
    g.note('loss', f'{mean} +- {sig}, semiclassical {want}')
    require(abs(mean - want) <= 7.5 * sig + 0.05 * want, f'mean loss {mean} +- {sig}, the semiclassical law gives {want}')
    if len(photons) >= 200:
        g.nontrivial()
    g.label('chi>0.1' if chi * perp > 0.1 else 'chi<0.1')


def spectrum(eta, shares):
    n = len(shares)
    a, b, m = (ctypes.c_double * n)(*shares), (ctypes.c_double * n)(), ctypes.c_double()
    e2e.REF.ref_emission_cdf(ctypes.c_double(eta), n, a, b, ctypes.byref(m))
    return list(b), m.value


@prop(200, 3000, "at least 1000 photons were recorded")
def photons(g):
    """number and energies of the photons recorded, for each model, cut and sampling fraction"""
    model = g.pick(MODELS)
    law = model.lower()
    gamma, eta = g.logu(200, 20000), g.logu(1e-3, 5)
    bdir = g.direction()
    dirn = g.direction()
    perp = mag(cross(bdir, dirn))
    if perp < 0.2:
        raise Discard
    b = scale(bdir, eta / gamma / perp)
    # the spectrum in shares of the energy: the classical one is that of a weak field, scaled
    low = 1e-4
    stretch = eta / low if law == 'classical' else 1
    at = low if law == 'classical' else eta
    cut = 0 if g.coin() else spectrum(at, [0])[1] * stretch * g.logu(0.01, 2)       # share below which nothing is recorded
    (below,), mean = spectrum(at, [cut / stretch])
    rate = e2e.REF.ref_emission_rate(eta, gamma)
    loss = (2 / 3 * ALPHA * eta * eta / gamma) if law == 'classical' else rate * mean
    T = (0.03 if law == "quantum" else 0.01) / loss * g.real(0.3, 1)          # a percent or so of the energy is lost
    fraction = g.pick((1, g.real(0.02, 1)))
    turn = T * mag(b) / gamma
    steps = max(5, math.ceil(turn / 0.2), math.ceil(rate * T / 0.03))
    want = 2500 / fraction / (1 - below)
    n = max(1, min(8000, math.ceil(want / (rate * T if law == 'quantum' else steps))))
    if steps * n > 300000:
        raise Discard
    d = Deck(Field('static', e=[0.0] * 3, b=b), [Source(number=n, kind=g.pick(('Electron', 'Positron')), dir=dirn, e1=gamma)], dt=T / steps, steps=steps,
             model=model, fraction=fraction, emin=cut * gamma)
    text = d.text()
    g.note('deck', text)
    g.label(law)
    r = e2e.good(text)
    e = [row.e / gamma for row in rows(r.h5, 0, 'Photons')]
    k = len(e)
    g.note('photons', k)
    p = (1 - below) * fraction
    if law == 'quantum':
        mu, slack = rate * T * n * p, 0.03
        sd = math.sqrt(mu)
    else:
        trials = d.steps * n
        mu, slack = trials * p, 0.02
        sd = math.sqrt(trials * p * (1 - p))
    require(abs(k - mu) <= 8 * sd + 1 + slack * mu * (1 if below or law == 'quantum' else 0.01), k, 'photons were recorded instead of', mu, '+-', sd)
    require(all(x >= cut * (1 - 1e-6) for x in e), 'a photon of', min(e + [9]), 'is below the cut', cut)
    if k < 300:
        return
    e.sort()
    cdf, _ = spectrum(at, [x / stretch for x in e])
    cdf = [(c - below) / (1 - below) for c in cdf]
    dist = max(max(abs(c - i / k), abs(c - (i + 1) / k)) for i, c in enumerate(cdf))
    require(dist <= 3.7 / math.sqrt(k) + 0.012, f'the photon energies differ from the {law} spectrum by {dist} with {k} photons')
    if k >= 1000:
        g.nontrivial()


def setup():
    e2e.setup('opt')
    e2e.REF.ref_emission_rate(0.1, 1.0)     # its tables are made before the workers start


if __name__ == '__main__':
    main(setup)
