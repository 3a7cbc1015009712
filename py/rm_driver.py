"""Runs under the interpreter that has numpy: a list of operations on run managers from standard input, one answer per operation."""
import json, os, sys, tempfile
from QEDCascPy import RunManager, ThreeVector

ops = json.load(sys.stdin)
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
log = tempfile.TemporaryFile()
os.dup2(log.fileno(), 2)
os.dup2(log.fileno(), 1)
rm, held = {}, []


def results(m): return [m.getInput(), m.getElectrons(), m.getPositrons(), m.getPhotons()]


def do(op):
    k, i, a = op[0], op[1], op[2:]
    if k == 'new':
        rm[i] = RunManager()
    elif k == 'del':
        del rm[i]
    elif k == 'time':
        rm[i].setTime(*a)
    elif k == 'field':
        rm[i].setField(*a[:6], ThreeVector(*a[6]), ThreeVector(*a[7]))
    elif k == 'phys':
        rm[i].setPhysics(*a)
    elif k == 'gen':
        rm[i].setGenerator(*a[:7], ThreeVector(*a[7]), ThreeVector(*a[8]))
    elif k == 'frac':
        rm[i].setSampleFraction(*a)
    elif k == 'pairs':
        rm[i].usePairProduction(*a)
    elif k == 'beam':
        if a[1] is None:
            rm[i].beamOn(a[0])
        elif a[2]:
            rm[i].beamOn(events=a[0], threads=a[1])
        else:
            rm[i].beamOn(a[0], a[1])
    elif k == 'bad':
        getattr(rm[i], a[0])(*a[1])
    elif k == 'get':
        r = results(rm[i])
        held.append((r, [x.copy() for x in r]))
        return [[list(x.shape), str(x.dtype), x.tolist()] for x in r]
    elif k == 'held':
        return [all((x.shape == y.shape) and (x.tobytes() == y.tobytes()) for x, y in zip(*h)) for h in held]
    elif k == 'write':
        for r, c in held:
            for x in r:
                x[...] = 7.0
        held.clear()


for op in ops:
    at = os.lseek(log.fileno(), 0, os.SEEK_END)
    r = {}
    try:
        r['data'] = do(op)
    except Exception as e:
        r['exc'] = type(e).__name__ + ': ' + str(e)[:200]
    sys.stderr.flush()
    end = os.lseek(log.fileno(), 0, os.SEEK_END)
    os.lseek(log.fileno(), at, os.SEEK_SET)
    r['err'] = os.read(log.fileno(), 4000).decode(errors='replace') if end > at else ''
    os.lseek(log.fileno(), end, os.SEEK_SET)
    out.write(json.dumps(r) + '\n')
    out.flush()
rm.clear()
out.write('"end"\n')
out.flush()
