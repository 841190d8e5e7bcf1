import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
J = lambda b: ' '.join(map(str, b))
L1 = lambda b: '%d %s' % (len(b), J(b))
# how each kind of grid of the specification is defined in the library: type, reference, ig1..4, units of the axes
KIND = {'L': ('L', '-', (100, 100, 9000, 2000)), 'Z': ('Z', 'L', (100, 100, 9000, 0)), 'A': ('A', '-', (0, 0, 0, 0)), 'B': ('B', '-', (0, 0, 0, 0)), 'G': ('G', '-', (0, 0, 0, 0)),
        'AN': ('A', '-', (1, 0, 0, 0)), 'AS': ('A', '-', (2, 0, 0, 0)), 'BN': ('B', '-', (1, 0, 0, 0)), 'BS': ('B', '-', (2, 0, 0, 0)), 'GN': ('G', '-', (1, 0, 0, 0)), 'GS': ('G', '-', (2, 0, 0, 0)),
        'LG1': ('L', '-', (3000, 4500, 1500, 0)), 'LG2': ('L', '-', (3000, 4500, 1500, 0)), 'ZG1': ('Z', 'L', (100, 100, 9000, 0)), 'ZG2': ('Z', 'L', (100, 100, 9000, 0))}
def axis(a, p, per=0):
    """value of the axis at position p (1 = first)"""
    n = len(a); k = int(p // 1)
    if per and k >= n:
        k2, lo, hi = k, a[n - 1], a[0] + per
        return lo + (p - n) * (hi - lo)
    k = min(max(k, 1), n - 1)
    return a[k - 1] + (p - k) * (a[k] - a[k - 1])
def lonlat(kind, g):
    if kind == 'L': return (lambda x: 20 + (x - 1)), (lambda y: y - 1)
    if kind == 'Z': return (lambda x: 10 + axis(g['ax'], x)), (lambda y: -5 + axis(g['ay'], y))
    if kind in ('ZG1', 'ZG2'): return (lambda x: 45 * axis(g['ax'], x, 8 if kind == 'ZG2' else 0)), (lambda y: 15 * axis(g['ay'], y))
    lon = lambda x: 45 * (x - 1)
    if kind in ('A', 'LG1', 'LG2'): return lon, lambda y: -75 + 30 * (y - 1)
    if kind == 'B': return lon, lambda y: -90 + 30 * (y - 1)
    nj = g['nj']; h = 90 / nj
    if kind == 'AN': return lon, lambda y: h * (y - .5)
    if kind == 'AS': return lon, lambda y: -90 + h * (y - .5)
    h = 90 / (nj - 1)
    if kind == 'BN': return lon, lambda y: h * (y - 1)
    if kind == 'BS': return lon, lambda y: -90 + h * (y - 1)
    return None
def gline(slot, kind, g):
    t, r, ig = KIND[kind]; ax = ay = []
    ll = lonlat(kind, g)
    if t == 'Z': ax = [ll[0](i + 1) for i in range(g['ni'])]; ay = [ll[1](j + 1) for j in range(g['nj'])]
    return 'g %d %s %d %d %s %s %s %s %d %d %d %d %d %d %s %s' % (slot, t, g['ni'], g['nj'], r, J(ig), L1(ax), L1(ay), g['ext'], g['glob'], g['mir'], g['per'], g['pole'][0], g['pole'][1], L1(g['ax']), L1(g['ay']))
def to_script(b):
    out = ['o verbose no']; out = []
    kind = g = None; slots = {}
    def outgrid(xs, ys):
        k = (tuple(xs), tuple(ys))
        if k in slots: return slots[k]
        s = slots[k] = 2 + len(slots) % 12
        for kk in [kk for kk in slots if slots[kk] == s and kk != k]: del slots[kk]
        lon, lat = ll; X = [lon(x / 4) for x in xs]; Y = [lat(y / 4) for y in ys]
        out.append('g %d Z %d %d L 100 100 9000 0 %s %s 0 0 0 0 -999 -999 0 0' % (s, len(xs), len(ys), L1(X), L1(Y)))
        return s
    for a in b:
        o = a['op']
        if o == 'g':
            kind, g = a['kind'], a['g']; ll = lonlat(kind, g); out.append(gline(1, kind, g))
        elif o == 'f': out.append('f %d %s' % (a['s'], L1(a['z'])))
        elif o == 'o': out.append('o %s %s' % (a['name'], a['value']))
        elif o == 'v': out.append('v extrap_value %d' % a['value'])
        elif o == 'xy':
            l = '1 %d %s %s' % (a['f'], L1(a['x4']), L1(a['y4']))
            if a['exact'] or ll is None: out.append('xy ' + l)
            else: out.append('ll %s %s %s' % (l, L1([ll[1](y / 4) for y in a['y4']]), L1([ll[0](x / 4) for x in a['x4']])))
        elif o == 'sint':
            if len(out) % 7 == 0: out.append('sint 1 1 %d %s %s' % (a['f'], L1([4 * i for i in range(1, g['ni'] + 1)]), L1([4 * i for i in range(1, g['nj'] + 1)])))
            s = outgrid(a['xs'], a['ys']); out.append('sint 1 %d %d %s %s' % (s, a['f'], L1(a['xs']), L1(a['ys'])))
        elif o == 'uv': s = outgrid(a['xs'], a['ys']); out.append('uv 1 %d 1 2 %s %s' % (s, L1(a['xs']), L1(a['ys'])))
    return out

# grids of every kind for the inversion of coordinates: type, ref, ig, ni, nj, ax, ay, ext, periodic?
def inv_kinds(r):
    n = r.randrange(5, 24); m = r.randrange(5, 20)
    def ax(lo, hi, k):
        while True:
            s = sorted(r.sample(range(lo, hi), k))
            return s
    zE = ((100, 181), (-40, 40))
    return r.choice([
      ('L', '-', r.choice([(100, 100, 9000, 2000), (300, 200, 8000, 1000), (50, 50, 12000, 30000)]), n, m, [], [], 0),
      ('L', '-', (1000, 1000, 1000, 0), 36, 17, [], [], 2), ('A', '-', (0, 0, 0, 0), 2 * r.randrange(4, 20), 2 * r.randrange(2, 12), [], [], 2), ('A', '-', (r.choice([1, 2]), 0, 0, 0), 12, r.randrange(4, 9), [], [], 2),
      ('B', '-', (0, 0, 0, 0), 13, 2 * r.randrange(2, 8) + 1, [], [], 1), ('B', '-', (r.choice([1, 2]), 0, 0, 0), 13, r.randrange(4, 8), [], [], 1), ('G', '-', (0, 0, 0, 0), 16, 2 * r.randrange(3, 12), [], [], 2), ('G', '-', (r.choice([1, 2]), 0, 0, 0), 16, r.randrange(4, 9), [], [], 2),
      ('N', '-', r.choice(NIG), n, m, [], [], 0), ('S', '-', r.choice(SIG), n, m, [], [], 0), ('N', '-', r.choice(NIG), n, m, [], [], 0), ('S', '-', r.choice(SIG), n, m, [], [], 0),
      ('E', '-', (900, 0, 43200, 43200), 13, 8, [], [], 1), ('E', '-', EROT, 13, r.randrange(5, 12), [], [], 1),
      ('Z', 'L', (100, 100, 9000, 0), 6, 5, ax(0, 60, 6), ax(-40, 40, 5), 0), ('Z', 'E', (900, 0, 43200, 43200), 7, 5, ax(*zE[0], 7), ax(*zE[1], 5), 0), ('Z', 'E', EROT, 7, 6, ax(*zE[0], 7), ax(*zE[1], 6), 0),
      ('Z', 'N', NIG[1], 7, 5, ax(1, 20, 7), ax(1, 20, 5), 0), ('Z', 'S', SIG[1], 7, 5, ax(1, 20, 7), ax(1, 20, 5), 0)])
def rnd_inv(r):
    out = []
    for k in range(3):
        t, ref, ig, ni, nj, ax, ay, ext = inv_kinds(r)
        out.append('g %d %s %d %d %s %s %s %s %d 0 0 0 -999 -999 %s %s' % (k, t, ni, nj, ref, J(ig), L1(ax), L1(ay), ext, '0', '0'))
        bb = t == 'B'
        z = [r.randrange(-20, 21) for _ in range(ni * nj)]
        if ext == 1: z = [z[i - ni + 1] if i % ni == ni - 1 else z[i] for i in range(ni * nj)]
        if bb: z = [z[0] if i < ni and ig[0] in (0, 2) else z[ni * nj - 1] if i >= ni * (nj - 1) and ig[0] in (0, 1) else z[i] for i in range(ni * nj)]
        if bb and ig[0] in (0, 1): z[-ni:] = [z[-1]] * ni
        out.append('f %d %s' % (k, L1(z)))
        glob = t in 'ABG' or ext == 2
        for _ in range(2):
            n = r.randrange(2, 30)
            xs = [r.randrange(4, 4 * ni) for _ in range(n)]
            ys = [r.randrange(5, 4 * nj) if bb else r.randrange(4, 4 * nj + 1) for _ in range(n)]
            out.append('inv %d %s %s' % (k, L1(xs), L1(ys)))
            out.append('o interp_degree %s' % r.choice(['linear', 'nearest', 'cubic', 'linear']))
            out.append('o extrap_degree %s' % r.choice(['linear', 'nearest', 'maximum', 'value']))
            if not glob or True: out.append('rep %d %d' % (k, k))
            out.append('o interp_degree %s' % r.choice(['linear', 'nearest']))
            xs = [r.randrange(1040, 1024 * ni - 16) for _ in range(n)]; ys = [r.randrange(1040, 1024 * nj - 16) for _ in range(n)]
            out.append('rng %d %d %s %s' % (k, k, L1(xs), L1(ys)))
    return out
NIG = [(120, 110, 2000, 2000), (40, 30, 2000, 2000)]
SIG = [(120, 110, 2000, 2000), (40, 30, 2000, 2000)]
EROT = (1250, 200, 46400, 46400)
def run():
    c = Check('C14', 'ezint', 'EzIntTrace', assumptions=['axes in increasing order', 'winds between grids of the same orientation'])
    q = TIER == 'quick'
    c.model_check('EzIntMC', 'EzIntMC.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_ezint', ['d_ezint.c'])
    gen = c.generate('EzIntGen', 'EzIntGen.cfg', 250 if q else 3000, 24)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [rnd_inv(c.rng) for _ in range(100 if q else 1500)], label='seeded random grids: inversion, reproduction, range')
    return c.finish()
main(run)
