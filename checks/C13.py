import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
J = lambda b: ' '.join(map(str, b))
L1 = lambda b: '%d %s' % (len(b), J(b))
NIG = [(120, 110, 2000, 2000), (40, 30, 2000, 2000)]
EROT = (1250, 200, 46400, 46400)
E0 = (900, 0, 43200, 43200)
def asc(r, lo, hi, k): return sorted(r.sample(range(lo, hi), k))
def kind(r):
    n = r.randrange(5, 16); m = r.randrange(5, 13)
    return list(r.choice([
      ('L', n, m, '-', (100, 100, 9000, 2000), [], []), ('L', n, m, '-', (300, 200, 8000, 1000), [], []), ('L', 12, 6, '-', (3000, 3000, 1500, 0), [], []),
      ('A', 2 * r.randrange(4, 9), 2 * r.randrange(3, 7), '-', (r.choice([0, 0, 1, 2]), r.choice([0, 0, 0, 1]), 0, 0), [], []), ('B', 13, 2 * r.randrange(3, 6) + 1, '-', (r.choice([0, 0, 1, 2]), 0, 0, 0), [], []),
      ('G', 16, 2 * r.randrange(3, 7), '-', (r.choice([0, 0, 1, 2]), 0, 0, 0), [], []), ('N', n, m, '-', r.choice(NIG), [], []), ('S', n, m, '-', r.choice(NIG), [], []),
      ('E', 13, 8, '-', r.choice([E0, EROT]), [], []), ('Z', 6, 5, 'L', (100, 100, 9000, 0), asc(r, 0, 60, 6), asc(r, -40, 40, 5)), ('Z', 7, 6, 'L', (100, 100, 9000, 0), asc(r, 180, 330, 7), asc(r, -80, 80, 6)),
      ('Z', 7, 5, 'E', r.choice([E0, EROT]), asc(r, 100, 181, 7), asc(r, -40, 40, 5)), ('Z', 7, 6, 'N', NIG[1], asc(r, 1, 20, 7), asc(r, 1, 20, 6))]))
def variant(r, c):
    c = [x if not isinstance(x, (list, tuple)) else list(x) for x in c]
    t = c[0]; m = r.randrange(6)
    if m == 0 and t in 'LNS' : c[1], c[2] = c[2], c[1]
    elif m == 1 and t in 'LNS': c[1] += r.choice([1, 2])
    elif m == 2 and t == 'L': c[4][2], c[4][3] = (c[4][2] + 100, c[4][3]) if r.random() < .5 else (c[4][2], c[4][3] + 100)
    elif m == 2 and t in 'NS': c[4][0], c[4][1] = c[4][1], c[4][0]
    elif m == 3 and t == 'Z' and c[3] == 'L': c[5] = asc(r, 0, 60, c[1])
    elif m == 4 and t == 'Z' and c[3] in 'LE': c[6] = asc(r, -40, 40, c[2])
    elif m == 5 and t == 'Z' and c[3] == 'L': c[5] = [a + 1 for a in c[5]]
    elif t in 'AG' and m in (0, 1, 2): c[2] += 2
    elif t == 'Z' and m == 0 and c[3] == 'E': c[4] = list(EROT if tuple(c[4]) == E0 else E0)
    elif t == 'N' : c[0] = 'S'
    elif t == 'S' : c[0] = 'N'
    else: return kind(r)
    return c
def ygrid(r):
    n = r.randrange(3, 12)
    return ['Y', n, 1, 'L', (100, 100, 9000, 0), [r.randrange(0, 1440) / 4 for _ in range(n)], [r.randrange(-320, 320) / 4 for _ in range(n)]]
def data(r, n, y=True, u=False):
    """catalogue, fields, masks, points"""
    out = []; cats = []
    while len(cats) < n:
        c = ygrid(r) if y and r.random() < .1 else variant(r, r.choice(cats)) if cats and r.random() < .5 else kind(r)
        c[4] = list(c[4])
        if c in cats or any(c[:5] == d[:5] and c[5] == d[5] and c[6] == d[6] for d in cats): continue
        if c[0] == 'Y' and False: continue
        cats.append(c)
    subs = {}
    if u:
        for k in range(n):
            if cats[k][0] == 'Z' and cats[k][3] == 'E':
                j = len(cats); d = list(cats[k]); d[4] = list(EROT if tuple(d[4]) == E0 else E0)
                if d in cats: continue
                cats.append(d); cats.append(['U', k, j]); subs[len(cats) - 1] = (k, j)
    for k, c in enumerate(cats):
        out.append('cat %d U %d %d' % (k, c[1], c[2]) if c[0] == 'U' else 'cat %d %s %d %d %s %s %s %s' % (k, c[0], c[1], c[2], c[3], J(c[4]), L1(c[5]), L1(c[6])))
    for k in range(3): out.append('fld %d %s' % (k, L1([r.randrange(-200, 200) for _ in range(600)])))
    for k in range(2): out.append('msk %d %s' % (k, L1([r.randrange(0, 2) if r.random() < .6 else 1 for _ in range(600)])))
    for k in range(3):
        n = r.choice([1, 3, 8, 17])
        out.append('pts %d %s %s' % (k, L1([r.randrange(4, 23) for _ in range(n)]), L1([r.randrange(4, 20) for _ in range(n)])))
    return out, cats, subs
PAIRQ = ['sint', 'sint', 'sint', 'uv', 'wd', 'imask', 'mdm', 'uvmdm']
ONEQ = ['ll', 'xyfll', 'llfxy', 'xys', 'lls', 'xyv', 'llv', 'wdfuv', 'uvfwd', 'xywd', 'llwd']
AVG = ('average', 'sph_average')
class Script:
    def __init__(self, r, n, u=False, y=True):
        self.r = r; self.out, self.cats, self.subs = data(r, n, y, u); self.cur = None; self.own = {}; self.deg = 'cubic'; self.deg2 = 'cubic'
    def f(self): return '%d %d %d %d' % (self.r.randrange(3), self.r.randrange(3), self.r.randrange(2), self.r.randrange(3))
    def typ(self, s): return self.cats[self.own[s]][0]
    def define(self, s, k):
        if s in self.own: return self.one('prm', s)
        if self.cats[k][0] == 'U':
            for j, q in enumerate(self.subs[k]):
                if 300 + 2 * k + j not in self.own: self.own[300 + 2 * k + j] = q; self.out.append('def %d %d' % (300 + 2 * k + j, q))
            self.out.append('def %d %d %d %d' % (s, k, 300 + 2 * k, 301 + 2 * k))
        else: self.out.append('def %d %d' % (s, k))
        self.own[s] = k
    def release(self, s):
        if s not in self.own or s >= 300: return
        k = self.own.pop(s); self.out.append('rls %d' % s)
        if k not in self.own.values() and self.cur and k in self.cur: self.cur = None
    def set(self, a, c):
        if self.typ(c) == 'Y': return
        self.out.append('set %d %d' % (a, c)); self.cur = (self.own[a], self.own[c])
    def opt(self, n, v):
        if v in ('neutral', 'neutre') and self.deg in AVG: return
        self.out.append('opt %s %s' % (n, v))
        if n in ('interp_degree', 'degre_interp') and v in ('nearest', 'linear', 'cubic', 'voisin', 'lineaire', 'cubique', 'average', 'sph_average'): self.deg = v
    def pair(self, w):
        if not self.cur: return
        u = 'U' in (self.cats[self.cur[0]][0], self.cats[self.cur[1]][0])
        if u and w in ('imask', 'mdm', 'uvmdm'): w = 'sint'
        if self.deg in AVG: return
        self.out.append('q %s -1 %s' % (w, self.f()))
    def one(self, w, s):
        t = self.typ(s)
        if w == 'prm': self.out.append(('sub %d' if t == 'U' else 'prm %d') % s)
        elif w == 'smask':
            if t != 'U': self.out.append('smask %d %d' % (s, self.r.randrange(2)))
        elif w == 'gmask':
            if t != 'U': self.out.append('gmask %d' % s)
        else:
            if t == 'Y': w = 'll'
            if self.deg in AVG and w not in ('ll', 'xyfll', 'llfxy', 'wdfuv', 'uvfwd'): w = 'll'
            if t == 'U' and w in ('wdfuv', 'uvfwd'): w = 'sub'; self.out.append('sub %d' % s); return
            self.out.append('q %s %d %s' % (w, s, self.f()))
def to_script(b, r):
    S = Script(r, 6)
    for a in b:
        o = a['op']
        if o == 'def': S.define(a['s'], a['k'])
        elif o == 'rls': S.release(a['s'])
        elif o == 'set': S.set(a['so'], a['si'])
        elif o == 'opt': S.opt(a['name'], a['value'])
        elif o == 'gopt': S.out.append('gopt ' + a['name'])
        elif o == 'val': S.out.append('val %s %d' % (a['name'], a['value']))
        elif o == 'gval': S.out.append('gval ' + a['name'])
        elif 's' in a: S.one(o, a['s']) if a['s'] in S.own else None
        else: S.pair(o)
        if o == 'set' and S.cur: S.out.append('cur')
    return S.out
def rnd(r, n, ncat, u=False):
    S = Script(r, ncat, u); ns = 12 if ncat < 20 else 250
    for _ in range(n):
        m = r.random()
        if m < (.2 if ncat < 20 else .45) or not S.own: S.define(r.randrange(ns), r.randrange(len(S.cats)))
        elif m < .27: S.release(r.choice(sorted(S.own)))
        elif m < .5:
            S.set(r.choice(sorted(S.own)), r.choice(sorted(S.own)))
            S.pair(r.choice(PAIRQ))
        elif m < .56: S.opt(r.choice(['interp_degree', 'degre_interp']), r.choice(['nearest', 'linear', 'cubic', 'voisin', 'lineaire', 'cubique', 'linear', 'cubic', 'average', 'sph_average']))
        elif m < .61: S.opt(r.choice(['extrap_degree', 'degre_extrap']), r.choice(['nearest', 'linear', 'cubic', 'neutral', 'neutre', 'maximum', 'minimum', 'value', 'valeur', 'abort', 'x']))
        elif m < .64: S.opt(r.choice(['polar_correction', 'correction_polaire', 'use_1subgrid' if not u else 'polar_correction', 'cloud_interp_alg']), r.choice(['yes', 'no', 'oui', 'non', 'distance', 'linear']))
        elif m < .66: S.out.append('gopt %s' % r.choice(['interp_degree', 'extrap_degree', 'degre_interp', 'degre_extrap', 'polar_correction', 'use_1subgrid', 'cloud_interp_alg', 'verbose']))
        elif m < .68:
            n_ = r.choice(['extrap_value', 'missing_distance_threshold', 'weight_number', 'missing_points_tolerance'])
            S.out.append('val %s %d' % (n_, r.randrange(0, 400) * 125 if n_[0] in 'e' else r.randrange(8, 80) * 125 if n_[-1] == 'd' else r.randrange(1, 30)))
        elif m < .7: S.out.append('gval %s' % r.choice(['extrap_value', 'missing_distance_threshold', 'weight_number', 'missing_points_tolerance', 'subgridid']))
        elif m < .85: S.one(r.choice(ONEQ + ['prm', 'smask', 'gmask']), r.choice(sorted(S.own)))
        else: S.pair(r.choice(PAIRQ))
    for s in sorted(S.own): S.one('prm', s)
    return S.out
def many(r, n):
    """one output grid with many source grids, asked again and again"""
    S = Script(r, n, y=False)
    for k in range(n): S.define(k, k)
    for rep in range(2):
        for k in r.sample(range(1, n), n - 1): S.set(0, k); S.pair('sint')
        S.opt('interp_degree', 'linear')
    for k in r.sample(range(1, n), n // 2): S.release(k)
    for k in range(1, n):
        if k in S.own: S.set(0, k); S.pair('sint')
    for k in range(n): S.define(k, k)
    for k in r.sample(range(1, n), n // 2): S.set(0, k); S.pair('sint')
    return S.out
def run():
    c = Check('C13', 'ezreg', 'EzRegTrace', assumptions=['Y grids as target only', 'the average methods are set and read back, not interpolated with (they read beyond the axes)'])
    q = TIER == 'quick'
    c.model_check('EzRegMC', 'EzRegMC.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_ezreg', ['d_ezreg.c'])
    gen = c.generate('EzRegGen', 'EzRegGen.cfg', 200 if q else 2500, 61)
    c.conform(exe, [to_script(b, c.rng) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [rnd(c.rng, 80, 8) for _ in range(60 if q else 1200)], label='seeded random histories')
    c.conform(exe, [rnd(c.rng, 60, 6, True) for _ in range(30 if q else 600)], label='seeded random histories with Yin-Yang grids')
    c.conform(exe, [rnd(c.rng, 500, 180) for _ in range(4 if q else 40)] + [many(c.rng, k) for k in ((40, 75, 140) if q else (40, 70, 75, 100, 140, 180, 200))], label='many grids', timeout=200)
    return c.finish()
main(run)
