"""C33: balance of energy, momentum, charge and number in every event of generated cascades."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e


def check_balance(g, h5, d, k, s):
    """every event of a source; returns (photons, pairs) made"""
    made = pairs = 0
    magnetic = d.field.kind == 'static' and mag(d.field.p['e']) == 0
    b = mag(d.field.p['b']) if magnetic else 0
    T = d.dt * d.steps
    for i, (p, ev) in enumerate(zip((Row(x) for x in h5[source_group(k) + '/Primary'].rows()), events(h5, k, s.number))):
        for t in ev:
            for row in ev[t]:
                check_row(t, row)
                require(mag(add(row.x, p.x, -1)) <= T * (1 + 1e-9) + 1e-9 * mag(p.x), 'event', i, ':', t, 'row', row.raw, 'is further from', p.x, 'than light gets in', T)
        ne, np_, nph = len(ev['Electrons']), len(ev['Positrons']), len(ev['Photons'])
        q = charge(s.kind)
        require(np_ - ne == q, 'event', i, 'of a', s.kind, 'ends with', ne, 'electrons and', np_, 'positrons')
        mine = min(ne, np_)
        made += nph
        pairs += mine
        require(d.pairs or mine == 0, 'pairs without pair production')
        if q == 0:
            require(nph + mine >= 1, 'event', i, 'has lost its photon')
        if magnetic and (d.model == 'Quantum' or d.model == 'quantum') and not check_axis([(t, row) for t in ev for row in ev[t]], [p], d.field.p['b'], d.dt, T, 'event', i, 'of a', s.kind, ':'):
            g.label('slow')
        if not magnetic or d.fraction != 1 or d.emin > 0:
            continue
        # in a magnetic field the photons and leptons keep the energy of the primary
        start = p.e if q == 0 else math.sqrt(1 + dot(p.p, p.p))
        total = sum(row.e for t in ev for row in ev[t])
        # a lepton of momentum p is short of up to 1/(2p) against a photon
        tol = sum(0.5 / max(mag(row.p), 0.2) + 1e-9 * start for t in ('Electrons', 'Positrons') for row in ev[t]) + 1e-6 * start
        # turns too large for the steps
        drift = sum(d.steps * (b * d.dt / max(mag(row.p), 0.01))**6 / 50 * mag(row.p) for t in ('Electrons', 'Positrons') for row in ev[t])
        if drift > 0.01 * start:
            g.label('slow particle')
            continue
        require(abs(total - start) <= tol + drift, 'event', i, 'of a', s.kind, 'starts with energy', start, 'and ends with', total, f'({ne} electrons, {np_} positrons, {nph} photons), off by {total - start}, allowed {tol + drift}')
        # momentum along the magnetic field is kept
        axis = scale(d.field.p['b'], 1 / b)
        along = sum(dot(row.p, axis) for t in ev for row in ev[t])
        # a pair takes less momentum than its photon had
        short = start - sum(mag(row.p) for t in ev for row in ev[t])
        require(abs(along - dot(p.p, axis)) <= abs(short) + tol + drift + 2.0 * mine, 'event', i, 'has momentum', dot(p.p, axis), 'along the field and ends with', along)
    return made, pairs


@prop(2500, 25000, 'photons were emitted and a pair was created')
def cascades(g):
    d = draw_cascade(g)
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    photons = pairs = 0
    for k, s in enumerate(d.sources):
        a, b = check_balance(g, r.h5, d, k, s)
        photons, pairs = photons + a, pairs + b
    g.label('pairs ' + ('0' if not pairs else '1-3' if pairs < 4 else '4+'))
    if pairs and photons:
        g.nontrivial()


@prop(400, 4000, 'photons were emitted')
def without_pairs(g):
    d = draw_cascade(g)
    d.pairs, d.model = False, g.pick(('Quantum', 'quantum', 'Classical', 'Semiclassical'))
    if d.model in ('Classical', 'Semiclassical'):
        d.field.p.update(e=[0.0] * 3) if d.field.kind == 'static' else None
        d.dt /= 30
        d.fraction = 0.5       # the continuous models balance energy only on average
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    photons = sum(check_balance(g, r.h5, d, k, s)[0] for k, s in enumerate(d.sources))
    g.label(d.model)
    if photons:
        g.nontrivial()


@prop(400, 4000, 'a low energy cut or a sampling fraction took effect')
def sampled(g):
    """cut and sampling fraction leave charge and the recoil alone"""
    d = draw_cascade(g)
    d.emin, d.fraction = g.pick((0, d.sources[0].e1 * g.logu(1e-4, 0.5))), g.pick((1, 0.5, 0.1, 0.0))
    d.pairs = g.coin()
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    made = 0
    for k, s in enumerate(d.sources):
        a, _ = check_balance(g, r.h5, d, k, s)
        made += a
        kept = [row.id for row in rows(r.h5, k, 'Photons')]
        for row in rows(r.h5, k, 'Photons'):
            if charge(s.kind):
                require(row.e >= d.emin * (1 - 1e-9), 'a photon of energy', row.e, 'below the cut', d.emin)
        if d.fraction == 0:
            require(len(kept) <= (s.number if charge(s.kind) == 0 else 0), 'photons with sampling fraction zero')
    if made or d.fraction == 0:
        g.nontrivial()


if __name__ == '__main__':
    main(lambda: e2e.setup('opt'))
