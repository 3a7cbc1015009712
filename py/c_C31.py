"""C31: histograms against the tracks of the same run and against shorter runs."""
import copy
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e


def draw_time(g, d):
    """(time, number of pushes before it is reached, or None for the end)"""
    k = g.draw(9)
    if k == 0:
        return 0.0, 0
    if k == 1:
        return d.dt * d.steps * g.real(1.1, 10), None
    n = g.draw(d.steps)
    # between two steps, or a little before or after one
    f = g.real(0.05, 0.95) if g.chance(60) else g.logu(1e-7, 1e-2) if g.coin() else 1 - g.logu(1e-7, 1e-2)
    t = (n + f) * d.dt
    return t, (n + 1 if n + 1 < d.steps else None)


def draw_deck(g, events, sources, pairs):
    if g.chance(20):
        field, reach, place, limit = weak_field(g)
        steps = g.integer(1, 25)
        dt = min(limit, reach / steps) * g.logu(0.1, 1)
        size, energy = reach, (1, 60)
    else:
        field, gamma, dt, place, size = draw_radiating(g)
        steps = g.integer(1, 25)
        size, energy = max(size, dt * steps), (gamma * 0.5, gamma)
    src = [draw_source(g, place, size * 0.1, number=events, energy=energy, output=True) for _ in range(g.integer(1, sources))]
    return Deck(field, src, [], dt, steps, g.pick(MODELS), pairs, 0, g.pick((1, 1, 0.5)), False)


def draw_hist(g, name, time, particle, values):
    """values(kind) are what it should count; the range covers some of them"""
    kind = g.pick(HTYPES)
    v = sorted(x for x in values(kind))
    lo, hi = (v[0], v[-1]) if v else (-1.0, 1.0)
    w = max(hi - lo, abs(hi) * 1e-3, abs(lo) * 1e-3, 1e-3)
    a, b = lo - w * g.real(-0.3, 0.6), hi + w * g.real(-0.3, 0.6)
    if not b - a > 0.01 * w:
        a, b = lo - 0.1 * w, hi + 0.1 * w
    return Hist(name, particle, kind, time, g.integer(2, 30), a, b)


class State:
    def __init__(self, x, p, mass):
        self.x, self.p, self.e = x, p, math.sqrt(mass * mass + dot(p, p))


def states(r, d, pushes):
    """species -> states of the living particles after so many pushes, from tracks and final rows"""
    out = {'Electron': [], 'Positron': [], 'Photon': []}
    if pushes is None:
        for k in range(len(d.sources)):
            for t in NAMES:
                out[NAMES[t]] += rows(r.h5, k, t)
        return out
    T, n = tracks(r.h5), 0
    for k, s in enumerate(d.sources):
        lepton = charge(s.kind) != 0
        counts = {}
        for row in rows(r.h5, k, 'Photons'):
            counts[row.id] = counts.get(row.id, 0) + 1
        for i, p in enumerate(Row(x) for x in r.h5[source_group(k) + '/Primary'].rows()):
            for j in range(counts.get(i, 0) + (1 if lepton else 0)):
                t = T[n]
                n += 1
                primary = j == 0
                name = species(s.kind) if primary else 'Photon'
                if primary and pushes == 0:
                    out[name].append(p)
                    continue
                at = [m for m in range(len(t.t)) if t.t[m] < (pushes + 0.5) * d.dt]
                if at:
                    out[name].append(State(t.x[at[-1]], t.p[at[-1]], 1 if name != 'Photon' else 0))
                elif t.t and t.t[0] < (pushes + 1.5) * d.dt:
                    # created in the last step so far
                    out[name].append(State(add(t.x[0], t.p[0], -d.dt / mag(t.p[0])), t.p[0], 0))
    require(n == len(T), n, 'particles and', len(T), 'tracks')
    return out


def same(a, b):
    for k in set(a) | set(b):
        if k.startswith('Histograms'):
            continue
        require(k in a and k in b, k, 'is only in one of two runs that differ in their histograms')
        require(a[k] is None and b[k] is None or a[k].data == b[k].data, k, 'differs between runs that differ in their histograms')


@prop(2000, 20000, 'a histogram counted a particle at a time within the run')
def timing(g):
    d = draw_deck(g, 4, 2, False)
    rng = g.seed()
    d.tracking = True
    first = e2e.good(d.text(), rng=rng)
    plan, hit = [], 0
    names = unique_names(g, g.integer(1, 5) if g.chance(95) else g.integer(9, 24), 'h')
    for i, name in enumerate(names):
        t, k = draw_time(g, d) if not plan or g.chance(70) else plan[g.draw(len(plan) - 1)][1:3]
        st = states(first, d, k)
        full = [s for s in st if st[s]]
        particle = g.pick(full) if full and g.chance(90) else g.pick(list(st))
        plan.append((draw_hist(g, name, t, particle, lambda kind: [quantity(kind, x) for x in st[particle]]), t, k, st[particle]))
    if not g.chance(30):
        plan.sort(key=lambda q: q[1])
    else:
        g.label('any order')
    d.hists = [q[0] for q in plan]
    d.tracking = g.coin()
    g.note('deck', d.text())
    second = e2e.good(d.text(), rng=rng)
    base = dict(first.h5)
    if not d.tracking:
        base = {k: v for k, v in base.items() if 'ParticleTrack' not in k}
    same(base, second.h5)
    for h, t, k, st in plan:
        check_hist(second.h5, h, [quantity(h.kind, x) for x in st], f'(after {k} pushes, {len(st)} particles)')
        if k is not None and sum(second.h5[f'Histograms/{h.name}/BinValues'].data) > 0:
            hit += 1
    if len({q[1] for q in plan}) < len(plan):
        g.label('shared time')
    if any(r.id for r in rows(second.h5, 0, 'Photons')):
        g.label('photons')
    if hit:
        g.nontrivial()


def of_steps(d, n):
    d = copy.copy(d)
    d.steps = n
    return d


@prop(1500, 15000, 'particles were created before a histogram was filled')
def shorter_runs(g):
    """one event: a histogram counts what a run that ends there reports"""
    if g.coin():
        # a cascade: converting photons and radiating leptons
        gamma, chi = g.logu(100, 3000), g.logu(0.4, 2.2)     # a linear distribution reaches four times gamma
        dt = g.logu(4, 200) * gamma / chi
        field = Field('static', e=[0.0] * 3, b=draw_vec(g, chi / gamma))
        steps = g.integer(2, 25)
        d = Deck(field, [draw_source(g, [0.0] * 3, 1, number=1, energy=(gamma, gamma * 2), output=True, kinds=('Electron', 'Photon', 'Photon', 'Positron'))],
                 [], min(dt, 0.1 * gamma * gamma / chi), steps, g.pick(('Quantum', 'Quantum', 'Classical')), True)
        d.sources[0].distro, d.sources[0].dur, d.sources[0].radius = 'mono', 0, 0
    else:
        d = draw_deck(g, 1, 1, g.coin())
    d.sources[0].number = 1
    rng = g.seed()
    plan, born = [], False
    for name in unique_names(g, g.integer(1, 4), 'h'):
        t, k = draw_time(g, d)
        n = d.steps if k is None else k
        if n == 0:
            r = e2e.good(of_steps(d, 1).text(), rng=rng)
            p = Row(r.h5[source_group(0) + '/Primary'].rows()[0])
            st = {s: [p] if s == species(d.sources[0].kind) else [] for s in NAMES.values()}
        else:
            r = e2e.good(of_steps(d, n).text(), rng=rng)
            st = {NAMES[x]: rows(r.h5, 0, x) for x in NAMES}
        full = [s for s in st if st[s]]
        particle = g.pick(full) if g.chance(85) else g.pick(list(st))
        plan.append((draw_hist(g, name, t, particle, lambda kind: [quantity(kind, x) for x in st[particle]]), t, k, st[particle]))
        born = born or sum(len(v) for v in st.values()) > 1
        if st['Electron'] and st['Positron']:
            g.label('pairs')
    d.hists = sorted((q[0] for q in plan), key=lambda h: h.time)
    g.note('deck', d.text())
    g.note('rng', rng)
    r = e2e.good(d.text(), rng=rng)
    for h, t, k, st in plan:
        check_hist(r.h5, h, [quantity(h.kind, x) for x in st], f'(after {k} pushes, {len(st)} particles)')
    if born:
        g.nontrivial()


@prop(1000, 10000, 'a histogram that is common to both decks counted something')
def independence(g):
    """a histogram does not depend on the others"""
    d = draw_deck(g, 4, 2, g.coin())
    rng = g.seed()
    size = max([d.dt * d.steps] + [mag(s.pos) for s in d.sources])
    hists = draw_hists(g, g.integer(2, 6), d.dt * d.steps, d.sources[0].e1 * 1.2, size)
    for h in hists:
        h.time = draw_time(g, d)[0]
    d.hists = sorted(hists, key=lambda h: h.time)
    a = e2e.good(d.text(), rng=rng)
    g.note('deck', d.text())
    keep = [h for h in hists if g.coin()]
    g.shuffle(keep)
    d.hists = keep
    g.note('kept', [h.name for h in keep])
    b = e2e.good(d.text(), rng=rng)
    same(a.h5, b.h5)
    for h in keep:
        k = f'Histograms/{h.name}/BinValues'
        require(a.h5[k].data == b.h5[k].data, f'histogram {h.name} at {h.time}', a.h5[k].data, 'with', len(hists), 'histograms,', b.h5[k].data, 'with', len(keep))
        if sum(b.h5[k].data):
            g.nontrivial()


if __name__ == '__main__':
    main(lambda: e2e.setup('opt'))
