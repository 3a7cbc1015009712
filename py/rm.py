"""Sessions of the Python module: lists of operations run by rm_driver.py, and set-ups in natural units."""
import json, os, subprocess
import build, e2e, pbt
from pbt import require, near
from e2e import *

PKG = OMPSHIM = None
PYTHON = '/opt/veriftools/pyvenv/bin/python'


def setup():
    global PKG, OMPSHIM
    e2e.setup('opt')
    PKG = build.python_package()
    OMPSHIM = build.ompshim()


class Answer:
    pass


class Arrays:
    """what the four getters return"""
    def __init__(self, data):
        self.names = ('input', 'electrons', 'positrons', 'photons')
        for n, (shape, dtype, rows_) in zip(self.names, data):
            setattr(self, n, rows_)
            require(dtype == 'float64' and len(shape) == 2 and shape[1] == (6 if n == 'input' else 7) and shape[0] == len(rows_), n, 'has the shape', shape, 'and type', dtype)


def session(ops, rng=1, timeout=150, jitter=0, seed=1):
    cwd = pbt.scratch()
    env = dict(os.environ, QED_TABLES_PATH=build.REPO + '/Tables', PYTHONPATH=PKG, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               LD_PRELOAD=e2e.SHIM + ':' + OMPSHIM, VERIF_RNG_SEED=str(rng), VERIF_OMP_SEED=str(seed), VERIF_OMP_JITTER=str(jitter), VERIF_OMP_TEAM='0')
    env.pop('LD_LIBRARY_PATH', None)
    p = subprocess.Popen([PYTHON, os.path.join(build.VERIF, 'py/rm_driver.py')], cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(json.dumps(ops).encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        raise pbt.Fail('the session does not end')
    lines = out.decode().splitlines()
    if p.returncode != 0 or lines[-1:] != ['"end"']:
        n = len(lines)
        raise pbt.Fail(f'the interpreter ended with status {p.returncode} in operation {n}: {ops[n] if n < len(ops) else "the end"} {err.decode(errors="replace")[-300:]}')
    if os.listdir(cwd):
        raise pbt.Fail(f'the session left files {os.listdir(cwd)}')
    answers = []
    for line in lines[:-1]:
        a = Answer()
        a.__dict__.update({'data': None, 'exc': None, 'err': ''})
        a.__dict__.update(json.loads(line))
        answers.append(a)
    return answers


def si_vec(v, unit): return [x * unit for x in v]


def op_time(i, dt, end): return ['time', i, dt * U_TIME, end * U_TIME]


def op_field(i, f, name=None):
    p = f.p
    return ['field', i, f.kind if name is None else name, p['emax'] * U_E, p['wavelength'] * U_LEN, p['duration'] * U_TIME, p['waist'] * U_LEN, p['pol'], si_vec(p['start'], U_LEN), si_vec(p['focus'], U_LEN)]


def op_gen(i, s): return ['gen', i, s.kind, s.distro, s.e1 * U_EN, s.e2 * U_EN, s.radius * U_LEN, s.dur * U_TIME, s.div, si_vec(s.pos, U_LEN), list(s.dir)]


class P:
    """a row of the Python arrays, in natural units"""
    def __init__(self, r):
        self.p, self.x, self.w, self.raw = [v / U_P for v in r[:3]], [v / U_LEN for v in r[3:6]], r[6] if len(r) > 6 else None, r


def ps(rows_): return [P(r) for r in rows_]


def column(kind): return {'Electron': 'electrons', 'Positron': 'positrons', 'Photon': 'photons'}[species(kind)]


def draw_laser(g, strong):
    """(field, gamma, time step, end): a beam at the focus meets the pulse that starts a little away"""
    if not strong:
        f, reach, place, limit = weak_field(g, kinds=('gaussian', 'focusing'))
        T = reach * g.real(0.2, 1)
        steps = max(g.integer(1, 30), min(1500, math.ceil(T / limit)))
        return f, g.logu(1, 60), T / steps, steps, place
    lam = 0.8e-6 / U_LEN * g.logu(0.5, 3)
    gamma = g.logu(100, 4000)
    a0 = min(g.logu(3, 100), gamma / 10)
    e = a0 * 2 * math.pi / lam
    e = min(e, 3.0 / gamma)
    dur, waist = g.real(2, 4) * lam, g.real(3, 6) * lam
    d = g.direction()
    f = Field(g.pick(('gaussian', 'focusing')), emax=e, wavelength=lam, duration=dur, waist=waist, pol=g.real(-3, 3), start=scale(d, -g.real(0, 1) * dur), focus=[0.0] * 3)
    if mag(f.p['start']) < 0.01 * dur:
        f.p['start'] = scale(d, -0.01 * dur)
    steps = g.integer(40, 400)
    return f, gamma, lam / 60, steps, [0.0] * 3


def check_beam(s, inputs, n):
    """rows of the input array against a source without spread"""
    require(len(inputs) == n, 'there are', len(inputs), 'inputs of', n, 'events')
    axis = scale(s.dir, 1 / mag(s.dir))
    low = s.distro.lower()
    for r in ps(inputs):
        m = mag(r.p)
        if low == 'mono':
            require(near(m, s.e1, 1e-9), 'an input has the momentum', m, 'instead of', s.e1)
        elif low == 'linear':
            require(min(s.e1, s.e2) * (1 - 1e-9) <= m <= max(s.e1, s.e2) * (1 + 1e-9), 'an input has the momentum', m, 'outside', s.e1, s.e2)
        else:
            require(abs(m - s.e1) <= 8 * s.e2 + 1e-9 * s.e1, 'an input has the momentum', m, 'far from', s.e1, '+-', s.e2)
        off = add(r.x, s.pos, -1)
        if s.radius == 0 and s.dur == 0:
            require(mag(off) <= 1e-9 * (mag(s.pos) + 1), 'an input is at', r.x, 'instead of', s.pos)
        else:
            z = dot(off, axis)
            require(abs(z) <= 8 * s.dur + 1e-9 * (mag(s.pos) + s.radius), 'an input is', z, 'off along the beam of length', s.dur)
            t = mag(add(off, axis, -z))
            require(t <= 8.5 * s.radius + 1e-9 * (mag(s.pos) + s.dur), 'an input is', t, 'from the axis of a beam of radius', s.radius)
        if s.div == 0:
            require(mag(add(scale(r.p, 1 / m), axis, -1)) <= 1e-9, 'an input flies along', r.p, 'instead of', axis)
        else:
            require(math.acos(max(-1, min(1, dot(r.p, axis) / m))) <= 8 * s.div + 1e-7, 'an input flies along', r.p, 'far from', axis)


def close(a, b, tol): return all(abs(x - y) <= tol for x, y in zip(a, b))


def expected(h, p, q, T, steps, law, loose):
    """(x, p, tolerances) at the end of a run"""
    m = mag(p.p)
    if q == 0:
        return add(p.x, p.p, T / m), p.p, 1e-9 * (T + mag(p.x)), 1e-12 * m
    x1, p1, _ = push(h, 0, p.x, p.p, q, T, steps, law)
    x2, p2, _ = push(h, 0, p.x, p.p, q, T, steps * 3, law)
    tx = 10 * max(abs(a - b) for a, b in zip(x1, x2)) + 1e-8 * (T + mag(p.x))
    tp = 10 * max(abs(a - b) for a, b in zip(p1, p2)) + 1e-8 * m
    if loose:
        x3, p3, _ = push(h, 0, p.x, p.p, q, T, steps * 3, law + 2)
        tp += loose * max(abs(a - b) for a, b in zip(p2, p3))
        tx += loose * max(abs(a - b) for a, b in zip(x2, x3))
    return x2, p2, tx, tp


def check_ends(h, inputs, finals, q, T, steps, model, most=4):
    """the final rows of the primary species against the reference; returns whether the field mattered"""
    law = {'classical': 1, 'semiclassical': 2, 'quantum': 0}[model.lower()]
    loose = {'classical': 0.1, 'semiclassical': 1, 'quantum': 0}[model.lower()]
    left, hit = ps(finals), 0
    for p in ps(inputs)[:most]:
        x, m, tx, tp = expected(h, p, q, T, steps, law, loose if q else 0)
        found = [f for f in left if close(f.x, x, tx) and close(f.p, m, tp)]
        require(found, 'no particle ends at', x, 'with', m, 'within', tx, tp, 'where', p.x, p.p, 'should; there are', [(f.x, f.p) for f in left[:3]])
        left.remove(found[0])
        free = add(p.x, p.p, T / math.sqrt(1 + mag(p.p)**2 if q else mag(p.p)**2))
        if q and max(abs(a - b) for a, b in zip(m, p.p)) > 30 * tp:
            hit += 1
    return hit


def ks2(a, b):
    """two-sample Kolmogorov-Smirnov statistic in units of its scale"""
    a, b, i, j, d = sorted(a), sorted(b), 0, 0, 0.0
    if not a or not b:
        return 0.0
    while i < len(a) and j < len(b):
        v = min(a[i], b[j])
        while i < len(a) and a[i] <= v:
            i += 1
        while j < len(b) and b[j] <= v:
            j += 1
        d = max(d, abs(i / len(a) - j / len(b)))
    return d * math.sqrt(len(a) * len(b) / (len(a) + len(b)))


KS_LIMIT = 3.9      # exceeded with probability 2 exp(-2 k^2) < 1e-12


def same_population(mine, his, where):
    """two runs of the same set-up by chance: numbers, energies, momenta and positions of what they end with; returns the columns with more than 100 rows"""
    # photons of one lepton belong together: as many independent groups as leptons
    groups = max(1, min(len(v['electrons']) + len(v['positrons']) for v in (mine, his)))
    many = []
    for c in ('electrons', 'positrons', 'photons'):
        a, b = mine[c], his[c]
        na, nb = len(a), len(b)
        size = max(1.0, max(na, nb) / groups) if c == 'photons' else 1.0
        require(abs(na - nb) <= 7.5 * math.sqrt(3 * size * (na + nb)) + 6 * size, na, c, 'and', nb, where)
        if min(na, nb) > 50 * size:
            for name, va, vb in (('energies', [mag(p.p) for p in a], [mag(p.p) for p in b]),
                                 *((f'momenta along {"xyz"[i]}', [p.p[i] for p in a], [p.p[i] for p in b]) for i in range(3)),
                                 *((f'positions along {"xyz"[i]}', [p.x[i] for p in a], [p.x[i] for p in b]) for i in range(3))):
                top = max(map(abs, va + vb)) or 1
                va, vb = [round(v / top, 9) for v in va], [round(v / top, 9) for v in vb]
                k = ks2(va, vb)
                require(k < KS_LIMIT * 1.5 * math.sqrt(size), 'the', name, 'of', c, 'differ from those', where, ':', k, f'({na} and {nb})')
        if na > 100:
            many.append(c)
    return many
