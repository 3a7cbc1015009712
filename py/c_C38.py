"""C38: every particle of a cascade, whenever it was born, radiates and converts at the rate of its own state."""
import sys
sys.dont_write_bytecode = True
import bisect, ctypes
from pbt import *
from e2e import *
import e2e


def emitter_eta(p, e, b):
    """electron: the field in its rest frame"""
    gamma = math.sqrt(1 + dot(p, p))
    f = add(scale(e, gamma), cross(p, b))
    return math.sqrt(max(0, dot(f, f) - dot(p, e)**2))


def photon_kappa(p, e, b):
    """photon: its energy times the transverse field"""
    k = mag(p)
    n = scale(p, 1 / k)
    return k * mag(add(add(e, n, -dot(e, n)), cross(n, b)))


def emission_cdf(eta, share):
    a, c, m = (ctypes.c_double * 1)(share), (ctypes.c_double * 1)(), ctypes.c_double()
    e2e.REF.ref_emission_cdf(ctypes.c_double(eta), 1, a, c, ctypes.byref(m))
    return c[0]


class Count:
    """events that happened against their chances, step by step"""
    def __init__(self):
        self.n, self.mu, self.var, self.trials = 0, 0.0, 0.0, 0

    def add(self, happened, hazard):
        p = -math.expm1(-hazard)
        self.n, self.mu, self.var, self.trials = self.n + happened, self.mu + p, self.var + p * (1 - p), self.trials + 1

    def check(self, what, slack):
        # Bernstein's bound at 1e-10, and the accuracy of the tables
        q = 23
        allowed = q / 3 + math.sqrt((q / 3)**2 + 2 * q * self.var) + slack * self.mu
        require(abs(self.n - self.mu) <= allowed, what, ':', self.n, 'times in', self.trials, 'steps, expected', self.mu, '+-', math.sqrt(self.var), ', allowed', allowed)


def check_uniform(values, what, slack):
    n = len(values)
    if n < 20:
        return
    v = sorted(values)
    d = max(max(abs(x - i / n), abs(x - (i + 1) / n)) for i, x in enumerate(v))
    require(d <= 3.7 / math.sqrt(n) + slack, what, ': the shares of the energy differ by', d, 'from the spectrum, in', n, 'cases')


def follow(h5, d):
    """the tracks of every event: list of (source, list of (track, primary, steps))"""
    T, n, out = tracks(h5), 0, []
    half = 0.5 * d.dt
    for t in T:
        primary = bool(t.t) and t.t[0] < 1.5 * d.dt
        if primary:
            out.append([])
        require(out, 'the first track is not that of a primary')
        # records at one time: the push, and the recoil if it radiated
        steps = []
        for i, x in enumerate(t.t):
            if steps and x - steps[-1][0] < half:
                steps[-1][1].append(i)
            else:
                steps.append((x, [i]))
        out[-1].append((t, primary, steps))
    require(len(out) == sum(s.number for s in d.sources), len(out), 'primary tracks for', sum(s.number for s in d.sources), 'events')
    return out


def draw_deck(g):
    pure = g.chance(65)
    gamma, chi = g.logu(100, 30000), g.logu(0.5, 4.4)
    b = chi / gamma
    if pure:
        field = Field('static', e=[0.0] * 3, b=draw_vec(g, b))
    else:
        field = Field('static', e=draw_vec(g, b * g.logu(0.01, 0.2)), b=draw_vec(g, b * 0.6))
    steps = g.integer(1, 50) if g.chance(40) else g.integer(20, 60)
    dt = min(g.logu(10, 400) * gamma / chi, 0.05 * gamma * gamma / chi)
    if not pure:
        dt = min(dt, 0.5 * gamma / steps / mag(field.p['e']))       # the field does not add much energy
    number = max(1, g.integer(500, 4000) // steps)
    src = [Source(number=number, kind=g.pick(('Electron', 'Positron', 'Photon')), dir=draw_vec(g, g.logu(0.5, 2)), e1=gamma * g.real(0.5, 2), output=True)
           for _ in range(g.integer(1, 2))]
    return Deck(field, src, [], dt, steps, g.pick(('Quantum', 'quantum')), True, 0, 1, True)


@prop(1200, 15000, 'particles born in the run had a chance to radiate or convert, and more than ten such events were expected')
def rates(g):
    d = draw_deck(g)
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text)
    e, b = d.field.p['e'], d.field.p['b']
    end = d.dt * d.steps
    groups, emitted, split = {}, {True: [], False: []}, []
    left = []       # the photons each event ends with
    for k, s in enumerate(d.sources):
        left += [{tuple(row.p) for row in ev['Photons']} for ev in events(r.h5, k, s.number)]
    for ev, live in zip(follow(r.h5, d), left):
        died, born = {}, {}
        for t, primary, steps in ev:
            if not steps:
                continue
            light = t.gamma[0]**2 - dot(t.p[0], t.p[0]) < 0.5       # a lepton has a rest energy of one
            if light:
                energy = mag(t.p[0])
                kappa = photon_kappa(t.p[0], e, b)
                hazard = 0 if energy <= 2 else e2e.REF.ref_pair_rate(kappa, energy) * d.dt
                last = len(steps) - 1
                gone = steps[-1][0] < end - 0.5 * d.dt or tuple(t.p[0]) not in live
                for i in range(len(steps)):
                    for key in (('photon', primary), ('photon', i == 0, 'first step'), ('photon', steps[i][0] < 1.5 * d.dt, 'first of the run')):
                        groups.setdefault(key, Count()).add(gone and i == last, hazard)
                if gone:
                    died.setdefault(round(steps[-1][0] / d.dt), []).append((energy, kappa))
            else:
                if not primary:
                    born.setdefault(round(steps[0][0] / d.dt) - 1, []).append(mag(t.p[0]))
                for i, (_, rec) in enumerate(steps):
                    p = t.p[rec[0]]
                    eta = emitter_eta(p, e, b)
                    if eta < 1e-3:
                        continue
                    gamma = math.sqrt(1 + dot(p, p))
                    hazard = e2e.REF.ref_emission_rate(eta, gamma) * d.dt
                    for key in (('lepton', primary), ('lepton', i == 0, 'first step'), ('lepton', steps[i][0] < 1.5 * d.dt, 'first of the run')):
                        groups.setdefault(key, Count()).add(len(rec) > 1, hazard)
                    if len(rec) > 1 and eta > 3e-3 and gamma > 30 and len(emitted[primary]) < 250:
                        # the photon left along the lepton
                        share = (mag(p) - dot(t.p[rec[1]], p) / mag(p)) / gamma
                        if share > 1e-7:
                            emitted[primary].append(emission_cdf(eta, share))
        for n, mothers in died.items():
            if len(mothers) == 1 and len(born.get(n, [])) == 2 and mothers[0][0] > 50 and len(split) < 250:
                energy, kappa = mothers[0]
                split += [e2e.REF.ref_pair_cdf(kappa, min(1, max(0, (math.sqrt(1 + q * q) - 1) / (energy - 2)))) for q in born[n]][:1]
    for key, c in groups.items():
        c.check(' '.join(str(x) for x in key), 0.02)
    for primary in emitted:
        check_uniform(emitted[primary], 'photons of ' + ('primaries' if primary else 'particles born in the run'), 0.015)
    late = [c for key, c in groups.items() if key[1:] == (False,)]
    for key, c in groups.items():
        if key[1:] == (False,) and c.mu > 3:
            g.label('secondary ' + key[0])
    if split:
        g.label('pairs')
        check_uniform(split, 'pairs', 0.02)
    if sum(c.mu for c in late) > 10:
        g.nontrivial()


def setup():
    e2e.setup('opt')
    e2e.REF.ref_emission_rate(0.1, 1.0)     # its tables are made before the workers start


if __name__ == '__main__':
    main(setup)
