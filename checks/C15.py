import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *

def fl(x): return ' '.join(str(v) for row in x for v in row)

def setup(r, lev, tgt, poly, bump, init):
    return 'setup %d %d %d %d %d %d %d %s %s %s %s' % (r.choice([4, 8]), len(lev), len(lev[0]), len(tgt[0]), r.choice([0, 0, 1, 3]), r.choice([0, 0, 1, 2]),
        init, fl(lev), fl(tgt), fl(poly), fl(bump))

def to_script(r, b):
    out = []
    for a in b:
        if a['op'] == 'setup': out.append(setup(r, a['lev'], a['tgt'], a['poly'], a['bump'], a['init']))
        elif a['op'] == 'find': out.append('find')
        else: out.append('%s %d %d %d %d' % (a['op'], a['dn'], a['up'], a['gd'], a['gu']))
    return out

def rnd_script(r, n):
    s = []
    for _ in range(n):
        nl = r.choice([2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 13, 17, 20]); nc = r.choice([1, 2, 3, 8]); nt = r.randrange(1, 9); up = r.random() < .5
        lev = [sorted(r.sample(range(-12, 13), nl), reverse=not up) for _ in range(nc)]
        def target(x):
            o = r.random()
            if o < .25: return r.choice(x)
            if o < .35: return r.choice([x[0], x[-1]]) + r.choice([-1, 0, 1])
            return r.randrange(-16, 17)
        tgt = [[target(lev[c]) for _ in range(nt)] for c in range(nc)]
        poly = [[r.randrange(-20, 21), r.randrange(-5, 6), r.randrange(-3, 4), r.randrange(-1, 2)] for _ in range(nc)]
        bump = [[r.randrange(1, nl + 1), r.randrange(-50, 51)] for _ in range(nc)]
        s += [setup(r, lev, tgt, poly, bump, r.randrange(90, 99)), 'find']
        for _ in range(r.randrange(2, 9)):
            s.append('%s %d %d %d %d' % (r.choice(['nearest', 'linear', 'lagrange', 'hermite', 'fixed', 'lapse', 'fixed', 'lapse']),
                     r.random() < .5, r.random() < .5, r.randrange(-9, 10), r.randrange(-9, 10)))
    return s

def tall_script(r):   # tall columns: the finder's bisection at every depth, and targets at, between and beyond all the levels
    s = []
    for _ in range(4):
        nl = r.choice([31, 32, 33, 60, 64, 65, 79, 90, 127, 128, 129, 200]); up = r.random() < .5
        x = sorted(r.sample(range(-300, 301), nl), reverse=not up)
        t = [r.choice(x) + r.choice([-1, 0, 0, 1]) for _ in range(40)] + [x[0], x[-1], x[0] - 1, x[0] + 1, x[-1] - 1, x[-1] + 1]
        s += [setup(r, [x], [t], [[5, -2, 0, 0]], [[r.randrange(1, nl + 1), 9]], 1), 'find', 'nearest 0 0 0 0', 'linear 1 0 0 0', 'fixed 1 1 -3 4', 'linear 0 1 0 0', 'lapse 1 1 2 -3']
    return s

def run():
    c = Check('C15', 'vert', 'VertTrace', assumptions=['integer levels, states on cubic polynomials plus one bump; results compared to 1/8 of a unit',
        'columns strictly monotonic, all in the order of the first, at least two levels'])
    c.model_check('VertMC', 'VertMC.cfg' if TIER == 'quick' else 'VertMCb.cfg')
    c.model_check('VertMC', 'VertLaw.cfg')
    c.build_lib()
    exe = c.compile('d_vert', ['d_vert.c'])
    q = TIER == 'quick'
    c.conform(exe, [to_script(c.rng, b) for b in c.generate('VertMC', 'VertGen.cfg', 60 if q else 600, 42)], label='behaviours generated from the specification')
    n, m = (60, 40) if q else (600, 60)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    c.conform(exe, [tall_script(c.rng) for _ in range(10 if q else 100)], label='tall columns')
    return c.finish()
main(run)
