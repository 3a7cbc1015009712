"""Runs of the command line program on generated decks."""
import ctypes, json, math, os, signal, subprocess, tempfile, zlib
import build, pbt
from pbt import require, near

# natural units, from the constants of the documentation
C0, ME, QE, ES = 2.99792458e8, 9.10938356e-31, 1.60217662e-19, 1.3232855e18
FREQ = ES * QE / (ME * C0)
U_TIME, U_LEN, U_E, U_B, U_EN, U_P = 1 / FREQ, C0 / FREQ, ES, ES / C0, ME * C0 * C0, ME * C0
ALPHA = 1 / 137.035999

EXE, H5JSON, REF, SHIM = {}, None, None, None


def setup(*kinds):
    global H5JSON, REF, SHIM
    SHIM = build.rngshim()
    for k in kinds:
        EXE[k], h5 = build.exe(k)
        H5JSON = H5JSON or h5
    REF = ctypes.CDLL(build.ref())
    REF.ref_field.restype = ctypes.c_void_p
    REF.ref_field.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
    REF.ref_free.argtypes = [ctypes.c_void_p]
    REF.ref_push.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_double, ctypes.c_double, ctypes.c_int, ctypes.c_int, ctypes.c_void_p]
    REF.ref_emission_rate.restype = ctypes.c_double
    REF.ref_pair_rate.restype = REF.ref_pair_cdf.restype = ctypes.c_double
    REF.ref_pair_rate.argtypes = REF.ref_pair_cdf.argtypes = [ctypes.c_double, ctypes.c_double]
    REF.ref_emission_rate.argtypes = [ctypes.c_double, ctypes.c_double]


def dot(a, b): return sum(x * y for x, y in zip(a, b))
def mag(a): return math.sqrt(dot(a, a))
def add(a, b, s=1.0): return [x + s * y for x, y in zip(a, b)]
def scale(a, s): return [s * x for x in a]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


class Table:
    def __init__(self, dims, data):
        self.dims, self.data = dims, data

    def rows(self):
        n = self.dims[1] if len(self.dims) > 1 else 1
        return [self.data[i:i + n] for i in range(0, len(self.data), n)]


class Result:
    pass


def read_h5(path):
    r = subprocess.run([H5JSON, path], capture_output=True, text=True)
    pbt.require(r.returncode == 0, 'the output file cannot be read:', r.stderr[-300:])
    return {k: None if v is None else Table(v['dims'], v['data']) for k, v in json.loads(r.stdout).items()}


def end_session(sid):
    """mpirun starts its processes in groups of their own, but in its session"""
    for _ in range(3):
        for d in os.listdir('/proc'):
            if d.isdigit():
                try:
                    if os.getsid(int(d)) == sid:
                        os.kill(int(d), signal.SIGKILL)
                except OSError:
                    pass


def execute(args, cwd, kind='opt', threads=1, np=None, timeout=60, env=None, exe=None, rng=1):
    """the program with these arguments; rng stands in for the system's source of randomness"""
    e = dict(os.environ, QED_TABLES_PATH=build.REPO + '/Tables', OMP_NUM_THREADS=str(threads))
    e.pop('LD_LIBRARY_PATH', None)
    e.update(LD_PRELOAD=SHIM, VERIF_RNG_SEED=str(rng))
    e.update(env or {})
    cmd = [exe or EXE[kind]] + list(args)
    if np is not None:
        e.update(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_btl_vader_single_copy_mechanism='none',
                 OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_btl='self,vader', HWLOC_COMPONENTS='-gl', TMPDIR=cwd)
        cmd = ['mpirun', '-n', str(np), '--bind-to', 'none'] + cmd
    r = Result()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    r.timeout = False
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        end_session(p.pid)
        out, err = p.communicate()
        r.timeout = True
    r.code, r.out, r.err = p.returncode, out.decode(errors='replace'), err.decode(errors='replace')
    return r


def run(text, name='deck.ini', out='out.h5', read=True, **kw):
    """runs a deck in a directory of its own"""
    cwd = pbt.scratch()
    with open(os.path.join(cwd, name), 'w', newline='') as f:
        f.write(text)
    kw.setdefault('rng', zlib.crc32(text.encode()))
    r = execute([name], cwd, **kw)
    pbt.require(not r.timeout, 'the program does not end')
    r.cwd = cwd
    r.files = sorted(os.listdir(cwd))
    r.h5 = read_h5(os.path.join(cwd, out)) if read and r.code == 0 and out in r.files else None
    return r


def good(text, **kw):
    """a run that must succeed"""
    r = run(text, **kw)
    if r.code > 0 and "Tables can't handle" in r.err:
        raise pbt.Discard       # a field strength beyond the tables: C20 decides that
    pbt.require(r.code == 0, f'the program ended with status {r.code}: {r.err[-600:]}')
    pbt.require(r.h5 is not None, 'there is no output file')
    return r


# ---- decks, in natural units -------------------------------------------------
def num(x): return repr(float(x))
def vec(v): return '[' + ' '.join(num(x) for x in v) + ']'


class Field:
    def __init__(self, kind, **p):
        self.kind, self.p = kind, p

    def text(self):
        p, t = self.p, '[Field]\nfield_type = ' + self.kind + '\n'
        if self.kind == 'static':
            return t + f"e_field = {vec(scale(p['e'], U_E))}\nb_field = {vec(scale(p['b'], U_B))}\n"
        t += f"e_max = {num(p['emax'] * U_E)}\nwavelength = {num(p['wavelength'] * U_LEN)}\npolerisation = {num(p['pol'])}\n"
        if self.kind == 'plane':
            return t + f"direction = {vec(p['direction'])}\n"
        return t + (f"duration = {num(p['duration'] * U_TIME)}\nwaist = {num(p['waist'] * U_LEN)}\n"
                    f"start = {vec(scale(p['start'], U_LEN))}\nfocus = {vec(scale(p['focus'], U_LEN))}\n")

    def handle(self):
        p = self.p
        if self.kind == 'static':
            a = p['e'] + p['b']
        elif self.kind == 'plane':
            a = [p['emax'], p['wavelength'], p['pol']] + p['direction']
        else:
            a = [p['emax'], p['wavelength'], p['duration'], p['waist'], p['pol']] + p['start'] + p['focus']
        return REF.ref_field(self.kind.encode(), (ctypes.c_double * len(a))(*a))


def push(handle, t, x, p, charge, T, steps, model=0):
    """(x, p, largest eta) after the time T"""
    s, top = (ctypes.c_double * 7)(t, *x, *p), ctypes.c_double()
    REF.ref_push(handle, s, charge, T, steps, model, ctypes.byref(top))
    return list(s[1:4]), list(s[4:7]), top.value


class Source:
    """a particle source; lengths, times and energies in natural units"""
    def __init__(self, **p):
        self.number, self.kind, self.distro, self.pos, self.dir = 1, 'Electron', 'mono', [0, 0, 0], [0, 0, 1]
        self.e1, self.e2, self.radius, self.div, self.dur, self.output, self.name = 10, 0, 0, 0, 0, True, None
        self.__dict__.update(p)

    def text(self, i):
        t = f"[Particle{i}]\nnumber_particles = {self.number}\nparticle_type = {self.kind}\nenergy_distribution = {self.distro}\n"
        t += f"position = {vec(scale(self.pos, U_LEN))}\ndirection = {vec(self.dir)}\nenergy_mean = {num(self.e1 * U_EN)}\nenergy_sig = {num(self.e2 * U_EN)}\n"
        t += f"radius = {num(self.radius * U_LEN)}\ndivergence = {num(self.div)}\nduration = {num(self.dur * U_TIME)}\noutput = {'true' if self.output else 'false'}\n"
        return t + (f"name = {self.name}\n" if self.name else '')


class Hist:
    def __init__(self, name, particle, kind, time, bins, lo, hi):
        self.name, self.particle, self.kind, self.time, self.bins, self.lo, self.hi = name, particle, kind, time, bins, lo, hi

    def text(self, i):
        return (f"[Histogram{i}]\nname = {self.name}\nparticle = {self.particle}\ntype = {self.kind}\ntime = {num(self.time * U_TIME)}\n"
                f"bins = {self.bins}\nmin_bin = {num(self.lo)}\nmax_bin = {num(self.hi)}\n")


class Deck:
    def __init__(self, field, sources=(), hists=(), dt=1.0, steps=10, model='Quantum', pairs=False, emin=0, fraction=1, tracking=False, out='out.h5'):
        self.field, self.sources, self.hists, self.dt, self.steps = field, list(sources), list(hists), dt, steps
        self.model, self.pairs, self.emin, self.fraction, self.tracking, self.out = model, pairs, emin, fraction, tracking, out
        self.short = 0.5

    def text(self):
        # the end lies between two steps, so that rounding does not change their number, unless told otherwise
        end = (self.steps - self.short) * self.dt
        t = f"[General]\nunits = SI\ntime_step = {num(self.dt * U_TIME)}\ntime_end = {num(end * U_TIME)}\n"
        t += f"file_name = {self.out}\ntracking = {'true' if self.tracking else 'false'}\n"
        t += self.field.text()
        t += f"[Physics]\nradiation_model = {self.model}\nmin_energy = {num(self.emin * U_EN)}\nsample_fraction = {num(self.fraction)}\npair_production = {'true' if self.pairs else 'false'}\n"
        t += ''.join(s.text(i + 1) for i, s in enumerate(self.sources))
        return t + ''.join(h.text(i + 1) for i, h in enumerate(self.hists))


# rows of the particle tables
class Row:
    def __init__(self, r):
        self.id, self.e, self.p, self.x, self.raw = r[0], r[1], list(r[2:5]), list(r[5:8]), r


NAMES = {'Electrons': 'Electron', 'Positrons': 'Positron', 'Photons': 'Photon'}


def source_group(k): return 'Particles/ParticleSource' + (str(k + 1) if k else '')


def rows(h5, k, table):
    t = h5.get(f'{source_group(k)}/{table}')
    return [Row(r) for r in t.rows()] if t else []


def tracks(h5):
    out = []
    while f'Particles/ParticleTrack/Event{len(out)}' in h5:
        g = f'Particles/ParticleTrack/Event{len(out)}/'
        t = Result()
        t.x, t.p, t.t, t.gamma = h5[g + 'Position'].rows(), h5[g + 'Momentum'].rows(), h5[g + 'Time'].data, h5[g + 'Gamma'].data
        out.append(t)
    return out


def species(kind): return kind[0].upper() + kind[1:].lower()
def charge(kind): return {'Electron': -1, 'Positron': 1, 'Photon': 0}[species(kind)]


# ---- generators ----------------------------------------------------------------
def draw_vec(g, size): return scale(g.direction(), size)


def weak_field(g, kinds=('static', 'plane', 'gaussian', 'focusing'), emax=3e-7):
    """a field too weak for radiation to matter: (field, reach of the field in time, place of interest, time step limit)"""
    kind = g.pick(kinds)
    if kind == 'static':
        which = g.draw(2)
        b = draw_vec(g, emax * g.logu(0.1, 1)) if which != 1 else [0.0] * 3
        e = draw_vec(g, emax * g.logu(0.1, 1)) if which != 0 else [0.0] * 3
        if which == 2:
            e = scale(e, 0.3)
        return Field('static', e=e, b=b), g.logu(0.1, 4) / emax * 10, [0.0] * 3, 0.05 / emax
    lam, a0, pol = g.logu(1e5, 3e6), g.logu(0.05, 2), g.real(-3.2, 3.2)
    e = min(a0 * 2 * math.pi / lam, emax * 20)
    if kind == 'plane':
        return Field('plane', emax=e, wavelength=lam, pol=pol, direction=draw_vec(g, g.logu(0.3, 3))), g.real(0.5, 4) * lam, [0.0] * 3, lam / 60
    dur, waist = g.real(2, 6) * lam, g.real(3, 8) * lam
    focus = draw_vec(g, g.real(0, 20) * lam)
    d = g.real(1, 2) * dur
    start = add(focus, g.direction(), -d)
    return Field(kind, emax=e, wavelength=lam, duration=dur, waist=waist, pol=pol, start=add(focus, scale(add(focus, start, -1), d / mag(add(focus, start, -1))), -1), focus=focus), \
        d + 1.5 * dur, focus, lam / 60


def draw_source(g, near, size, number=3, energy=(1, 60), output=None, spread=True, kinds=('Electron', 'Positron', 'Photon', 'electron', 'positron', 'photon')):
    s = Source(number=g.integer(1, number), kind=g.pick(kinds), distro=g.pick(('mono', 'gaussian', 'linear', 'Mono', 'Gaussian', 'Linear')),
               pos=add(near, draw_vec(g, g.unit() * size)), dir=draw_vec(g, g.logu(0.2, 5)), e1=g.logu(*energy))
    low = s.distro.lower()
    if low == 'gaussian':
        s.e2 = s.e1 * g.real(0, 0.1)
    elif low == 'linear':
        s.e2 = s.e1 * g.real(1, 2)
    if spread and g.coin():
        s.radius, s.dur, s.div = g.unit() * size / 3, g.unit() * size / 3, g.real(0, 0.3)
    s.output = g.chance(75) if output is None else output
    return s


MODELS = ('Classical', 'classical', 'Semiclassical', 'semiclassical', 'Quantum', 'quantum')
HTYPES = ('Energy', 'energy', 'X', 'x', 'Y', 'y', 'Z', 'z', 'PX', 'px', 'PY', 'py', 'PZ', 'pz')


def quantity(kind, row):
    k = kind.lower()
    return row.e if k == 'energy' else (row.p if k[0] == 'p' else row.x)['xyz'.index(k[-1])]


def binned(h, values):
    """per bin (fewest, most) entries of the values: the middle between bins and the ends may go either way"""
    step = (h.hi - h.lo) / (h.bins - 1)
    low, high = [0] * h.bins, [0] * h.bins
    size = max(abs(h.lo), abs(h.hi))
    for v in values:
        if v != v:
            continue
        u = (v - h.lo) / step
        slack = 1e-9 * max(1, size / step)
        if u < -slack or u > h.bins - 1 + slack:
            continue
        sure = slack < u < h.bins - 1 - slack
        a, b = int(math.floor(u + 0.5 - slack)), int(math.floor(u + 0.5 + slack))
        for i in {min(max(a, 0), h.bins - 1), min(max(b, 0), h.bins - 1)}:
            high[i] += 1
            if sure and a == b:
                low[i] += 1
    return low, high


def check_hist(h5, h, values, what):
    c, v = h5.get(f'Histograms/{h.name}/BinCentres'), h5.get(f'Histograms/{h.name}/BinValues')
    pbt.require(c and v, 'histogram', h.name, 'is missing')
    low, high = binned(h, values)
    for i in range(h.bins):
        pbt.require(low[i] <= v.data[i] <= high[i], f'histogram {h.name} ({h.particle} {h.kind} at {h.time}): bin {i} holds {v.data[i]}, expected {low[i]} to {high[i]}', what)
    pbt.require(sum(low) <= sum(v.data) <= max(sum(high), sum(low)), f'histogram {h.name}: total {sum(v.data)}', what)


def draw_radiating(g):
    """a field in which particles radiate within a few steps: (field, energy range, dt, place, size)"""
    gamma = g.logu(20, 2000)
    chi = g.logu(1e-3, 6)
    b = chi / gamma
    kind = g.pick(('static', 'static', 'plane', 'gaussian', 'focusing'))
    dt = g.logu(0.02, 0.3) * gamma / max(chi, 0.01) * 3     # emission probability per step of a few percent
    if kind == 'static':
        which = g.draw(2)
        return Field('static', e=draw_vec(g, b * (0.5 if which else 0)), b=draw_vec(g, b if which != 2 else b * 0.2)), gamma, min(dt, 0.05 * gamma / b), [0.0] * 3, 1.0
    lam = g.logu(0.5, 20) * dt * 30
    if kind == 'plane':
        return Field('plane', emax=b, wavelength=lam, pol=g.real(-3, 3), direction=draw_vec(g, 1)), gamma, min(dt, lam / 40), [0.0] * 3, lam
    dur, waist = g.real(2, 5) * lam, g.real(3, 6) * lam
    d = g.direction()
    return Field(kind, emax=b, wavelength=lam, duration=dur, waist=waist, pol=g.real(-3, 3), start=scale(d, -0.01 * dur), focus=[0.0] * 3), gamma, min(dt, lam / 40), [0.0] * 3, lam


def unique_names(g, n, prefix):
    return [prefix + g.pick(('', '_', 'x', 'Long_name', '.', '-')) + str(i) + g.pick(('', 'a', 'B')) for i in range(n)]


def draw_hists(g, n, reach, energies, size, species_=('Electron', 'Positron', 'Photon')):
    out = []
    for name in unique_names(g, n, g.pick(('h', 'H', 'Spectrum'))):
        kind = g.pick(HTYPES)
        k = kind.lower()
        top = energies if k == 'energy' or k[0] == 'p' else size
        lo = 0.0 if k == 'energy' else -top * g.real(0.2, 1.5)
        hi = top * g.real(0.3, 1.5)
        out.append(Hist(name, g.pick(species_), kind, g.pick((0.0, 1.0, 3.0)) * g.unit() * reach, g.integer(2, 40), lo, hi))
    return out


def draw_cascade(g, number=3, kinds=('Electron', 'Positron', 'Photon'), steps=80):
    """a deck of a cascade in a field that stays within the tables"""
    gamma, chi = g.logu(100, 30000), g.logu(0.5, 4.4)
    b = chi / gamma
    dt = g.logu(10, 400) * gamma / chi
    k = g.draw(9)
    if k < 6:
        field = Field('static', e=[0.0] * 3, b=draw_vec(g, b))
    elif k < 8:
        d, e = g.direction(), g.direction()
        field = Field('static', e=scale(e, b * 0.2), b=scale(d, b * 0.5))
    else:
        field = Field('plane', emax=b / 2, wavelength=g.logu(20, 200) * dt, pol=g.real(-3, 3), direction=g.direction())
    src = [Source(number=g.integer(1, number), kind=g.pick(kinds), dir=draw_vec(g, g.logu(0.5, 2)), e1=gamma * g.real(0.5, 2)) for _ in range(g.integer(1, 2))]
    return Deck(field, src, [], min(dt, 0.05 * gamma * gamma / chi), g.integer(2, steps), 'Quantum', True)


PRIMARY = {'Electron': 'Electrons', 'Positron': 'Positrons', 'Photon': 'Photons'}


def check_tables(r, d, n=1, tracking=None):
    """the tables of the file are those of the deck; n processes"""
    h5, outs = r.h5, [s for s in d.sources if s.output]
    want, optional = {'Particles', 'Fields', 'Histograms'}, set()
    for k in range(len(outs)):
        want |= {source_group(k), source_group(k) + '/Primary'}
        optional |= {source_group(k) + '/' + t for t in NAMES}
    for h in d.hists:
        want |= {f'Histograms/{h.name}', f'Histograms/{h.name}/BinCentres', f'Histograms/{h.name}/BinValues'}
    track = {k for k in h5 if k.startswith('Particles/ParticleTrack')}
    have = set(h5) - track
    require(want <= have, 'missing in the file:', sorted(want - have))
    require(have <= want | optional, 'not asked for:', sorted(have - want - optional))
    for k, s in enumerate(outs):
        p = h5[source_group(k) + '/Primary']
        require(p.dims == [s.number * n, 8], 'source', k, 'has primaries', p.dims, 'for', s.number, 'events')
        for i, row in enumerate(p.rows()):
            require(n > 1 or row[0] == i, 'primary row', i, 'has the event number', row[0])
            require(all(x == x and abs(x) < 1e300 for x in row), 'primary row', i, 'is', row)
        for t in NAMES:
            if f'{source_group(k)}/{t}' not in h5:
                continue
            tb = h5[f'{source_group(k)}/{t}']
            require(tb.dims[1] == 8 and tb.dims[0] > 0, t, 'has', tb.dims)
            last = 0
            for row in tb.rows():
                require(row[0] == int(row[0]) and 0 <= row[0] < s.number, t, 'holds a row of event', row[0])
                require(n > 1 or row[0] >= last, t, 'is not in the order of events')
                last = row[0]
                require(all(x == x and abs(x) < 1e300 for x in row), t, 'holds', row)
        name = PRIMARY[species(s.kind)]
        if s.kind.lower() != 'photon' or not d.pairs:
            ids = [row.id for row in rows(h5, k, name)]
            for i in range(s.number):
                require(ids.count(i) >= n, 'event', i, 'of source', k, 'has', ids.count(i), 'of the primary species', name)
        else:
            # a primary photon is reported or has become a pair
            ph, el, po = [[row.id for row in rows(h5, k, t)] for t in ('Photons', 'Electrons', 'Positrons')]
            for i in range(s.number):
                require(ph.count(i) >= 1 or (el.count(i) >= 1 and po.count(i) >= 1), 'event', i, 'of source', k, 'is lost')
    for h in d.hists:
        c, v = h5[f'Histograms/{h.name}/BinCentres'], h5[f'Histograms/{h.name}/BinValues']
        require(c.dims[0] == h.bins and v.dims[0] == h.bins, 'histogram', h.name, 'has', c.dims, v.dims, 'bins, asked for', h.bins)
        for i in range(h.bins):
            x = h.lo + (h.hi - h.lo) * i / (h.bins - 1)
            require(near(c.data[i], x, 1e-12, 1e-12 * (h.hi - h.lo)), 'histogram', h.name, 'bin', i, 'is at', c.data[i], 'instead of', x)
            require(v.data[i] >= 0 and v.data[i] == int(v.data[i]), 'histogram', h.name, 'counts', v.data[i])


def check_row(t, row):
    require(all(x == x and abs(x) < 1e300 for x in row.raw), t, 'holds', row.raw)
    m = mag(row.p)
    require(row.e > 0, t, 'holds a particle without energy', row.raw)
    if t == 'Photons':
        require(near(row.e, m, 1e-9), 'a photon has energy', row.e, 'and momentum', row.p)
    else:
        require(row.e >= 1 and near(row.e, math.sqrt(1 + m * m), 1e-9), t, 'holds energy', row.e, 'and momentum', row.p)


def check_axis(rows_, start, b, dt, T, *what):
    """the particles of one event in a static magnetic field, of (E, p, x), against one of its primaries (or several alike): nothing pushes along the
    field, photons and pairs leave along their parent, and all of them keep up with light; returns whether the event could be judged"""
    size = mag(b)
    axis = scale(b, 1 / size)
    slow = min([mag(r.p) for t, r in rows_ if t != 'Photons'] or [1e9])
    if slow < 5 or size * dt > 0.2 * slow:      # too slow for light, turning too far in a step
        return False
    wants = [(dot(s.p, axis) / mag(s.p), dot(s.x, axis), mag(s.x)) for s in start]
    for t, r in rows_:
        c, x = dot(r.p, axis) / mag(r.p), dot(r.x, axis)
        for want, x0, far in wants:
            lag = T / slow**2 + 1e-6 * T + 1e-9 * far
            if abs(c - want) <= 2e-3 and abs(x - x0 - T * want) <= lag + 2e-3 * T:
                break
        else:
            require(False, *what, t, r.raw, f': its direction has {c} along the magnetic field and its way {x}; primaries have', [w[:2] for w in wants], 'after', T)
    return True


def events(h5, k, number):
    out = [dict(Electrons=[], Positrons=[], Photons=[]) for _ in range(number)]
    for t in NAMES:
        for row in rows(h5, k, t):
            require(row.id == int(row.id) and 0 <= row.id < number, t, 'holds event', row.id)
            out[int(row.id)][t].append(row)
    return out


def draw_any(g, events=4, sources=3):
    if g.coin():
        field, reach, place, limit = weak_field(g)
        steps = g.integer(1, 40)
        dt = min(limit, reach / steps) * g.logu(0.1, 1)
        size, energy = reach, (1, 60)
    else:
        field, gamma, dt, place, size = draw_radiating(g)
        steps = g.integer(1, 40)
        dt *= g.logu(0.3, 1)
        size, energy = max(size, dt * steps), (gamma * 0.3, gamma)
    many = g.chance(4)        # section names of two digits
    src = [draw_source(g, place, size * 0.1, number=events, energy=energy) for _ in range(g.integer(9, 14) if many else g.draw(sources))]
    for s in src:
        if g.chance(5):
            s.number = 0
        s.name = g.pick((None, 'beam', 'Second', 'p_1'))
    hists = draw_hists(g, g.integer(9, 25) if many and g.coin() else g.draw(3), dt * steps, energy[1], size)
    model = g.pick(MODELS)
    return Deck(field, src, hists, dt, steps, model, g.coin(), g.pick((0, 0, 2.0, energy[1] / 10)), g.pick((1, 1, 0.5, 0.0)), g.coin(),
                g.pick(('out.h5', 'out.h5', 'Run_1.h5', 'a.hdf5', 'result')))
