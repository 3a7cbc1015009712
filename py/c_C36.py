"""C36: generated sequences of calls to run managers against a model of their configuration."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
from rm import *
import e2e, rm

WRONG = ('', 'static', 'plane', 'GAUSSIAN', 'gausian', 'Gauss', 'quantum ', ' classical', 'QUANTUM', 'none', 'Muon', 'Proton', 'Electron', 'electrons', 'Landau', 'true', '1', 'x' * 300, 'Ünïcode')


class Model:
    """what one run manager is configured to do, and what its last run was"""
    def __init__(self):
        self.time = self.field = self.phys = self.gen = None
        self.frac, self.pairs, self.run = 1.0, False, None


def small_source(g, place, dt, gamma):
    s = draw_source(g, place, dt * 10, energy=(gamma * 0.5, gamma))
    return s


def draw_op(g, m, i, ctx):
    """(operation, whether it must be refused); updates the model"""
    k = g.draw(19)
    if k < 3:
        f, gamma, dt, steps, place = draw_laser(g, ctx['strong'])
        bad = g.chance(25)
        if bad:
            name = g.pick(WRONG)
            op = op_field(i, f, name)
            m.field = None
        else:
            name = f.kind if g.coin() else f.kind.capitalize()
            op = op_field(i, f, name)
            m.field = f
        return op, bad
    if k < 6:
        bad = g.chance(25)
        if bad:
            m.phys = None
            return ['phys', i, g.pick(WRONG)], True
        m.phys = g.pick(MODELS)
        return ['phys', i, m.phys], False
    if k < 9:
        f, gamma, dt, steps, place = draw_laser(g, ctx['strong'])
        s = small_source(g, place, dt, gamma)
        if g.chance(20):
            s.kind = g.pick(('', 'Muon', 'Proton', 'ELECTRON', 'electrons', 'gamma', 'photon '))
            m.gen = None
            return op_gen(i, s), True
        m.gen = s
        return op_gen(i, s), False
    if k < 11:
        f, gamma, dt, steps, place = draw_laser(g, ctx['strong'])
        m.time = (dt, min(steps, g.pick((1, 20, 150))))
        return op_time(i, dt, (m.time[1] - 0.5) * dt), False
    if k < 13:
        v = g.pick((0, 1, 0.5, 0.1, 1.0, -0.1, 1.1, 2, -1, 1e300, -1e-300, float('inf'), float('nan')))
        bad = not 0 <= v <= 1
        if not bad:
            m.frac = float(v)
        return ['frac', i, v], bad
    if k < 14:
        m.pairs = g.coin()
        return ['pairs', i, m.pairs], False
    if k < 15:
        what = g.draw(5)
        bad = (('setTime', ['a', 1]), ('setPhysics', [3]), ('beamOn', ['many']), ('setSampleFraction', [None]), ('setField', ['gaussian', 1.0]), ('setGenerator', []))[what]
        return ['bad', i, bad[0], bad[1]], None
    n, t = g.pick((0, 1, 1, 2, 3, 7, 20)), g.pick((None, 1, 1, 2, 3, 4, 8))
    if g.chance(12):
        n, t = g.pick(((-1, 1), (-2147483648, 2), (3, 0), (3, -1), (0, 0), (2, -2147483648)))
    bad = n < 0 or (t is not None and t < 1) or not (m.time and m.field and m.phys and m.gen)
    if not bad:
        m.run = (n, m.time, m.field, m.phys, m.gen, m.frac, m.pairs)
    return ['beam', i, n, t, g.coin()], bad


def complete(g, m, i, ctx):
    """the calls that make a manager ready, in any order, consistent with each other"""
    f, gamma, dt, steps, place = draw_laser(g, ctx['strong'])
    s = small_source(g, place, dt, gamma)
    m.field, m.gen, m.time, m.phys = f, s, (dt, min(steps, 150)), g.pick(MODELS)
    ops = [op_field(i, f), op_gen(i, s), op_time(i, dt, (m.time[1] - 0.5) * dt), ['phys', i, m.phys]]
    g.shuffle(ops)
    return ops


def check_run(g, arrays, run):
    n, (dt, steps), f, phys, s, frac, pairs = run
    check_beam(s, arrays.input, n)
    law, q = phys.lower(), charge(s.kind)
    e, p, ph = len(arrays.electrons), len(arrays.positrons), len(arrays.photons)
    for name in ('electrons', 'positrons', 'photons'):
        for x in getattr(arrays, name):
            require(all(v == v and abs(v) < 1e300 for v in x), name, 'hold', x)
            require(x[6] > 0, name, 'have a weight', x[6])
    require(p - e == q * n, n, 'events of', s.kind, 'end with', e, 'electrons and', p, 'positrons')
    made = min(e, p)
    require(made == 0 or pairs, made, 'pairs without pair production')
    if q == 0:
        require(ph + made >= n, n, 'photons end as', ph, 'photons and', made, 'pairs')
        if made == 0:
            require(ph == n, n, 'photons end as', ph)
    elif made == 0 and frac == 0:
        require(ph == 0, ph, 'photons with the sampling fraction zero')
    if law == 'quantum' and made == 0 and q and frac:
        for x in arrays.photons:
            require(near(x[6], 1 / frac, 1e-12), 'a photon has the weight', x[6], 'at the sampling fraction', frac)
    if made == 0 and (law != 'quantum' or q == 0 or (frac == 1 and ph == 0)):
        if steps * dt < 1e12:
            h = f.handle()
            finals = getattr(arrays, column(s.kind))
            try:
                if fair(f, s, dt):
                    g.label('compared')
                    check_ends(h, arrays.input, finals, q, steps * dt, steps, phys, most=2)
            finally:
                e2e.REF.ref_free(h)
    return ph > 0 or made > 0


def fair(f, s, dt):
    """the time step resolves field and turns, and the particle stays relativistic and within the laws compared"""
    return dt <= f.p['wavelength'] / 40 and f.p['emax'] * 2 * s.e1 < 8 and f.p['emax'] * dt < 0.5 * min(s.e1, 10)


@prop(2500, 20000, 'at least two runs and a refused call')
def sequences(g):
    ctx = dict(strong=g.chance(60))
    models = {0: Model()}
    ops, want = [['new', 0]], [('ok',)]
    for _ in range(g.integer(3, 40)):
        k = g.draw(15)
        i = g.pick(sorted(models))
        m = models[i]
        if k == 0 and len(models) < 3:
            i = next(j for j in range(3) if j not in models)
            models[i] = Model()
            ops.append(['new', i]), want.append(('ok',))
        elif k == 1 and len(models) > 1:
            del models[i]
            ops.append(['del', i]), want.append(('ok',))
        elif k < 4:
            for o in complete(g, m, i, ctx):
                ops.append(o), want.append(('ok',))
            if g.chance(60):
                n = g.pick((0, 1, 2, 6))
                m.run = (n, m.time, m.field, m.phys, m.gen, m.frac, m.pairs)
                ops.append(['beam', i, n, g.pick((None, 1, 2, 5)), g.coin()]), want.append(('ok',))
                ops.append(['get', i]), want.append(('get', m.run))
        elif k == 4:
            ops.append(['held', 0]), want.append(('held',))
        elif k == 5:
            ops.append(['write', 0]), want.append(('ok',))
        elif k < 8:
            ops.append(['get', i]), want.append(('get', m.run))
        else:
            o, bad = draw_op(g, m, i, ctx)
            ops.append(o)
            want.append(('wrong',) if bad is None else ('refused',) if bad else ('ok',))
            if o[0] == 'beam':
                ops.append(['get', i]), want.append(('get', m.run))
    for i in sorted(models):
        ops.append(['get', i]), want.append(('get', models[i].run))
    # runs outside the tables end the program; such decks are not part of this property
    g.note('operations', json.dumps(ops))
    answers = session(ops, rng=g.seed(), jitter=g.pick((0, 0, 2)), seed=g.seed())
    last, runs, refused, photons = {}, 0, 0, 0
    current, counter = {}, 0
    for o, w, a in zip(ops, want, answers):
        if w[0] == 'wrong':
            require(a.exc and a.exc.startswith('TypeError'), o, 'answers', a.exc)
            continue
        require(not a.exc, o, 'raises', a.exc)
        if w[0] == 'refused':
            require(a.err.strip(), o, 'is refused without a word')
            refused += 1
        elif w[0] == 'ok':
            require(not a.err.strip(), o, 'prints', a.err[:300])
        if o[0] == 'new':
            last.pop(o[1], None)
            current[o[1]] = -1
        if o[0] == 'beam' and w[0] == 'ok':
            counter += 1
            current[o[1]] = counter
            runs += 1
        if w[0] == 'held':
            require(all(a.data), 'an array returned earlier has changed')
        if w[0] == 'get':
            i = o[1]
            key = (current[i], a.data)
            if w[1] is None:
                require(all(x[0][0] == 0 for x in a.data), 'there are results before any run:', a.data)
                require([x[0] for x in a.data] == [[0, 6], [0, 7], [0, 7], [0, 7]], 'the empty arrays have the shapes', [x[0] for x in a.data])
            if i in last and last[i][0] == current[i]:
                require(last[i][1] == a.data, 'the results changed without a run')
            elif w[1] is not None:
                photons += check_run(g, Arrays(a.data), w[1])
            last[i] = key
    if photons:
        g.label('photons')
    if runs > 1 and refused:
        g.nontrivial()


def draw_setup(g, number):
    """settings of one manager in a field where each of them shows"""
    f, gamma, dt, steps, place = draw_laser(g, True)
    gamma = 20000 * g.real(0.5, 1.5) if g.coin() else gamma
    f.p['emax'] = min(g.real(1, 4) / gamma / 2, 60 * 2 * math.pi / f.p['wavelength'])
    kind = g.pick(('Electron', 'Positron', 'Photon', 'Photon'))
    s = Source(kind=kind, pos=place, dir=draw_vec(g, 1), e1=gamma, radius=dt * 5, dur=dt * 5, number=number)
    return dict(field=f, gen=s, time=(dt, min(steps, 100)), phys=g.pick(MODELS + ('Quantum', 'Quantum')), frac=g.pick((0.0, 0.3, 1.0, 1.0)), pairs=g.coin())


def op_of(i, key, v):
    if key == 'time':
        return op_time(i, v[0], (v[1] - 0.5) * v[0])
    return op_field(i, v) if key == 'field' else op_gen(i, v) if key == 'gen' else [key, i, v]


@prop(120, 1500, 'at least 100 particles of one kind to compare, after settings of every kind were changed')
def reconfigured(g):
    """a manager with a past does what a new one does with the same settings"""
    n = 200
    final = draw_setup(g, n)
    old, seen = draw_setup(g, n), set()
    ops = [['new', 0]] + [op_of(0, k, v) for k, v in old.items()]
    for _ in range(g.integer(1, 8)):
        if g.chance(30):
            ops.append(['beam', 0, g.pick((0, 1, 3)), g.pick((1, 2)), True])
        else:
            k = g.pick(sorted(old))
            # from one set-up, so that field and beam belong together
            ops.append(op_of(0, k, (old if g.coin() else final)[k]))
    # the fewest calls that lead to the final settings: what is right already is not set again
    now = {}
    for o in ops:
        if o[0] not in ('new', 'beam'):
            now[o[0]] = o
    last = [op_of(0, k, v) for k, v in final.items()]
    g.shuffle(last)
    last = [o for o in last if now[o[0]] != o or g.chance(30)]
    ops += last
    fresh = [['new', 1]] + [op_of(1, k, v) for k, v in final.items()]
    ops += fresh
    beam = lambda i: ['beam', i, n, g.pick((1, 4)), True]
    ops += [beam(0), ['get', 0], beam(1), ['get', 1]]
    g.note('operations', json.dumps(ops))
    answers = session(ops, rng=g.seed(), seed=g.seed())
    for o, a in zip(ops, answers):
        require(not a.exc and not a.err.strip(), o, 'answers', a.exc, a.err[:300])
    a, b = Arrays(answers[-3].data), Arrays(answers[-1].data)
    C = ('electrons', 'positrons', 'photons')
    many = same_population(*({c: ps(getattr(v, c)) for c in C} for v in (a, b)), 'of a new manager')
    for c in C:
        wa, wb = ([r[6] for r in getattr(v, c)] for v in (a, b))
        if min(len(wa), len(wb)) > 50:
            k = ks2(*([round(w, 9) for w in v] for v in (wa, wb)))
            size = max(1.0, max(len(wa), len(wb)) / n)
            require(k < KS_LIMIT * 1.5 * math.sqrt(size), 'the weights of', c, 'differ from those of a new manager:', k)
        require(not (wa or wb) or final['frac'] or c != 'photons' or final['pairs'] or charge(final['gen'].kind) == 0, 'photons with the sampling fraction zero')
    if not final['pairs']:
        q = charge(final['gen'].kind)
        require(len(a.positrons) == (n if q > 0 else 0) and len(a.electrons) == (n if q < 0 else 0), 'pairs without pair production')
    elif len(b.positrons) > 50:
        g.label('pairs')
    if many and {o[0] for o in last} >= {'field', 'gen'}:
        g.nontrivial()


if __name__ == '__main__':
    main(rm.setup)
