"""C29: generated decks against the outputs they ask for."""
import sys
sys.dont_write_bytecode = True
from pbt import *
from e2e import *
import e2e


def check_outputs(g, d):
    text = d.text()
    g.note('deck', text)
    r = e2e.good(text, out=d.out)
    require(r.files == sorted(['deck.ini', 'input-check.txt', d.out]), 'files after the run:', r.files)
    check_tables(r, d)
    outs = [s for s in d.sources if s.output]
    tr = {k for k in r.h5 if k.startswith('Particles/ParticleTrack')}
    if not d.tracking or not d.sources:
        require(not d.tracking or not d.sources or 'Particles/ParticleTrack' in tr, 'no tracks')
        require(d.tracking or not tr, 'tracks nobody asked for', sorted(tr)[:4])
    else:
        T = tracks(r.h5)
        require(len(tr) == 1 + 5 * len(T), 'the tracks are not numbered without a gap:', len(tr), len(T))
        for i, t in enumerate(T):
            n = len(t.t)
            require(len(t.x) == n and len(t.p) == n and len(t.gamma) == n and n <= d.steps * (2 if d.model.lower() == 'quantum' else 1), 'track', i, 'has', len(t.x), len(t.p), n, len(t.gamma), 'records')
            require(all(len(v) == 3 for v in t.x + t.p), 'track', i, 'has no vectors')
        require(len(T) >= sum(s.number for s in d.sources), 'there are', len(T), 'tracks')
        if len(outs) == len(d.sources):
            dead = 0
            final = sum((rows(r.h5, k, t) for k in range(len(outs)) for t in NAMES), [])
            require(len(final) <= len(T), len(T), 'tracks of', len(final), 'particles')
            if not d.pairs:
                require(len(final) == len(T), len(T), 'tracks of', len(final), 'particles')
            # the last record of a track is the reported state
            ends = sorted(tuple(t.x[-1]) for t in T if t.t)
            have = set(ends)
            for row in final:
                if tuple(row.x) not in have:
                    dead += 1
            empty = sum(1 for t in T if not t.t)
            require(dead <= empty, dead, 'reported particles are at the end of no track,', empty, 'tracks are empty')
            g.label('tracks')
    if len(outs) > 1:
        g.label('several sources' if len(outs) < 10 else 'ten sources or more')
    if any(f'{source_group(k)}/Positrons' in r.h5 and s.kind.lower() != 'positron' for k, s in enumerate(outs)):
        g.label('pairs')
    return r, outs


@prop(2500, 30000, 'a source with output, a histogram or tracking was asked for')
def outputs(g):
    d = draw_any(g)
    r, outs = check_outputs(g, d)
    if outs or d.hists or d.tracking:
        g.nontrivial()


@prop(40, 800, 'an event of more than 64 particles')
def crowded(g):
    """events of many photons"""
    gamma = g.logu(500, 5000)
    b = g.real(0.3, 2) / gamma
    d = Deck(Field('static', e=[0.0] * 3, b=draw_vec(g, b)), [Source(number=g.integer(1, 3), kind=g.pick(('Electron', 'Positron')), dir=draw_vec(g, 1), e1=gamma, output=g.chance(85)) for _ in range(g.integer(1, 2))], [],
             gamma * 5, g.integer(60, 700), g.pick(MODELS), g.chance(20), tracking=g.chance(70))
    if d.model.lower() != 'quantum':
        d.dt = 0.3
    d.hists = draw_hists(g, g.draw(2), d.dt * d.steps, gamma, d.dt * d.steps)
    r, outs = check_outputs(g, d)
    most = max([sum(sum(row.id == i for row in rows(r.h5, k, t)) for t in NAMES) for k, s in enumerate(outs) for i in range(s.number)] or [0])
    if most > 64:
        g.nontrivial()
    g.label(f'{len(str(most))} digits of particles')


@prop(400, 3000, 'always')
def refused(g):
    d = draw_any(g, events=2)
    if not d.sources:
        d.sources = [Source()]
    what = g.draw(3)
    bad = g.pick(('Quantumm', 'none', 'QUANTUM', 'classic', '1', 'Lorentz', 'quantum_', 'Semi-classical'))
    if what == 0:
        d.model = bad
    elif what == 1:
        g.pick(d.sources).kind = g.pick(('Muon', 'Proton', 'electrons', 'e-', 'Gamma', '0'))
    elif what == 2:
        d.field.text = lambda t=d.field.text(): t.replace('field_type = ' + d.field.kind, 'field_type = ' + g.pick(('laser', 'statics', 'Gauss', '3', 'none')))
    else:
        d.field.text = lambda: ''
    for s in d.sources:
        s.number = max(1, s.number)
    text = d.text()
    g.note('deck', text)
    r = e2e.run(text, out=d.out)
    require(r.code != 0, 'an invalid deck ended with status zero')
    require(r.code > 0, 'an invalid deck ended with signal', -r.code)
    require((r.err + r.out).strip(), 'an invalid deck was refused without a word')
    g.label(('model', 'particle', 'field type', 'no field')[what])
    g.nontrivial()


@prop(250, 3000, 'always')
def spellings(g):
    """upper and lower case names of models, particles and distributions mean the same"""
    d = draw_any(g)
    d.model, d.out = g.pick(('classical', 'semiclassical', 'quantum')), 'out.h5'
    a = d.text()
    rng = g.seed()
    r = e2e.good(a, rng=rng)
    d.model = d.model.capitalize()
    for s in d.sources:
        s.kind, s.distro = s.kind.swapcase()[0] + s.kind[1:], s.distro.swapcase()[0] + s.distro[1:]
    for h in d.hists:
        k = h.kind
        h.kind = k.capitalize() if k == 'energy' else k.lower() if k == 'Energy' else k.swapcase()
    r2 = e2e.good(d.text(), rng=rng)
    g.note('deck', a)
    require(set(r.h5) == set(r2.h5), 'other tables with other spellings')
    for k in r.h5:
        require(r.h5[k] is None or r.h5[k].data == r2.h5[k].data, k, 'differs with another spelling')
    g.nontrivial()


if __name__ == '__main__':
    main(lambda: e2e.setup('opt'))
