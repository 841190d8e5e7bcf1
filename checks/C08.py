import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def to_script(b):
    out = []
    for a in b:
        o, u = a['op'], a.get('u', 0)
        if o == 'fnom': out.append('fnom %d plain %s - %d %d' % (u, a['f'], a['t'], a['at']))
        elif o in ('wawrit', 'waread'): out.append('%s %d %d %d' % (o, u, a['adr'], a['n']))
        elif o == 'cat': out.append('cat 0 %s' % a['f'])
        else: out.append('%s %d' % (o, u))
    return out
US = [11, 12, 13, 25, 99, 300, 512, 999]
def rnd_script(r, n, paged=False):
    s = []
    if paged: s.append('paged 0 1,%s' % r.choice(['1', '2', '2', '3', '3,4', '10,2', '2,2', '4,3']))
    us = r.sample(US, r.choice([2, 3, 4])); fs = ['f1', 'f2', 'f3', 'F4']; ss = ['s1', 's2']
    P = 1024
    def adr():
        m = r.random()
        if paged and m < .6: return max(1, P * r.randrange(0, 5) + r.choice([-2, -1, 0, 0, 1, 1, 2, 3, r.randrange(1, P)]))
        if m < .8: return r.randrange(1, 80)
        return r.randrange(1, 4000)
    def cnt():
        m = r.random()
        if paged and m < .5: return r.choice([1, 2, P - 2, P - 1, P, P + 1, 2 * P, 2 * P + 3, r.randrange(1, 3 * P)])
        return r.choice([0, 1, 1, 2, 3, 10, 64, r.randrange(1, 400)])
    arcs = []
    if r.random() < .4:
        for f in ('a1', 'a2'):
            mem = r.sample(['m', 'sub1', 'x.y', 'longer_name_of_member', 'm2'], r.randrange(1, 5))
            s.append('mkarc 0 %s %d %s' % (f, r.choice([0, 4, 5]), ' '.join('%s %d %d' % (m, 60001 + r.randrange(50), r.choice([1, 2, 7, 60, 700])) for m in mem)))
            arcs.append((f, mem))
    for f in fs[:2]:
        s.append('fnom %d plain %s - 0 0' % (us[fs.index(f) % len(us)], f))
        if r.random() < .7: s.append('wawrit %d 1 %d' % (us[fs.index(f) % len(us)], cnt()))
    for _ in range(n):
        u = r.choice(us); o = r.random()
        if o < .10:
            cls = r.choice(['plain'] * 8 + ['plus', 'at', 'scr', 'badscr', 'sub', 'sub']); t = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8])
            if cls == 'sub': f, mem = r.choice(arcs) if arcs else ('a1', ['m']); sub = r.choice(mem + ['none', 'm'])
            else: f = r.choice(ss if t == 4 else fs); sub = '-'
            if cls == 'scr': f = ('s' if t == 4 else 'g') + str(r.randrange(3))
            s.append('fnom %d %s %s %s %d %d' % (r.choice([u, u, 0]), cls, f, sub, t, r.choice([0, 0, 0, 1, 2, 3]) + 4 * r.randrange(4)))
        elif o < .13: s.append('fclos %d' % u)
        elif o < .17: s.append('waopen %d' % u)
        elif o < .21: s.append('waclos %d' % u)
        elif o < .42: s.append('wawrit %d %d %d' % (u, r.choice([0, 0, -r.randrange(0, 60), -r.choice([1000, 2046, 2047])]) if r.random() < .45 else adr(), cnt()))
        elif o < .66: s.append('waread %d %d %d' % (u, r.choice([0, -1, -2, 1, -r.randrange(60)]) if r.random() < .25 else adr(), cnt()))
        elif o < .69: s.append('wasize %d' % u)
        elif o < .72: s.append('writda %d %d %d' % (u, r.randrange(1, 5), r.choice([1, 1, 2])))
        elif o < .75: s.append('readda %d %d %d' % (u, r.randrange(1, 6), r.choice([1, 1, 2])))
        elif o < .79: s.append('checda %d' % u)
        elif o < .82: s.append('name %d' % u)
        elif o < .84: s.append('%s 0 %s' % (r.choice(['rm', 'existe', 'existe']), r.choice(fs + ss + ['nof', 'a1', 'Wafile%d' % u])))
        elif o < .88: s.append('cat 0 %s' % r.choice(fs + ss))
        elif o < .90: s.append('%s %d' % (r.choice(['sqopen', 'sqclos', 'getfdsc']), u))
        elif o < .92: s.append('%s %d' % (r.choice(['sqrew', 'sqrew', 'sqeoi']), u))
        elif o < .96: s.append('sqget %d %d %d' % (u, r.randrange(1, 9), r.choice([1, 4])))
        else: s.append('sqput %d %d %s' % (u, r.choice([1, 4]), ' '.join(str(r.randrange(256)) for _ in range(4 * r.randrange(1, 8)))))
    for u in us: s += ['waread %d 1 5000' % u, 'fclos %d' % u]
    return s + ['cat 0 %s' % f for f in fs + ss]
def cycles(r, k):
    """connect and disconnect many times: units and files can be used again and again"""
    s = ['fnom 11 plain f1 - 0 0', 'wawrit 11 1 30']
    for i in range(k):
        o = r.randrange(5)
        if o == 0: s += ['fnom 12 badscr g - 0 0']
        elif o == 1: s += ['fnom 12 at nof - 0 0']
        elif o == 2: s += ['fnom 12 sub nof m 0 0', 'fnom 12 sub f1 m 0 0']
        elif o == 3: s += ['fnom 0 plain f%d - 0 0' % (2 + i % 2), 'fclos 999']
        else: s += ['fnom 12 plain f2 - 0 0', 'wawrit 12 0 1'] + (['waclos 12'] if i % 3 else []) + ['fclos 12']
    return s + ['fnom 12 plain f2 - 0 0', 'wawrit 12 0 5', 'waread 12 1 100', 'waread 11 1 100']
def many(r):
    """units taken automatically until there is none left below the limits"""
    s = []
    for i in range(95): s.append('fnom 0 plain h%d - %d 0' % (i, r.choice([5, 6, 7])))
    s += ['fclos 50', 'fnom 0 plain k1 - 5 0', 'fnom 0 plain k2 - 5 0', 'fnom 0 plain k3 - 0 0', 'fclos 11', 'fclos 99', 'fnom 0 plain k4 - 5 0', 'fnom 0 plain k5 - 6 0']
    return s
def run():
    c = Check('C08', 'wafile', 'WaFileTrace', assumptions=['one open unit per file', 'local files', 'no I/O errors'])
    c.model_check('WaFileMC', 'WaFileMC.cfg' if TIER == 'quick' else 'WaFileMC6.cfg', workers=4, timeout=800)
    c.model_check('WaPage', 'WaPage.cfg' if TIER == 'quick' else 'WaPage5.cfg', workers=2)
    c.build_lib()
    exe = c.compile('d_wafile', ['d_wafile.c'])
    q = TIER == 'quick'
    gen = c.generate('WaFileMC', 'WaFileGen.cfg', 100 if q else 1500, 42)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (90, 80) if q else (1000, 120)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    c.conform(exe, [rnd_script(c.rng, m, True) for _ in range(n)], label='seeded random histories with the page cache')
    c.conform(exe, [cycles(c.rng, 1100) for _ in range(2 if q else 8)] + [many(c.rng)], label='long lives of the unit table')
    return c.finish()
main(run)
