import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
J = lambda b: ' '.join(map(str, b))
SIZE = [0, 1, 6, 8, 12, 16, 40]
FLD = dict(copy='s ls d ld pad', len='s ls', ftnlen='s ls', toc='ls ld n', tof='ls ld n', case='up s ls d ld', f2c='s ls d n', c2f='s n d ld', fcstr='s ls asis', view='s n', hnew='h n', hdup='h s ls', hclone='h d', hdel='h', hget='h')
def to_script(b):
    return ['set %d %s' % (a['d'], J(a['v'])) if a['op'] == 'set' else a['op'] + ' ' + J(int(a[f]) for f in FLD[a['op']].split()) for a in b]
def text(r, n):
    m = r.random()
    if m < .12: return [32] * n
    if m < .2: return [0] * n
    a = [r.choice([65, 90, 97, 122, 64, 91, 96, 123, 32, 200, 48, r.randrange(1, 256)]) for _ in range(n)]
    if m < .5:
        k = r.randrange(n + 1); a[k:] = [32] * (n - k)
    elif m < .75 and n:
        k = r.randrange(n); a[k] = 0
        if k and r.random() < .5: a[k - 1] = 32
    return a
def rnd_script(r, n):
    s = ['set %d %s' % (k, J(text(r, SIZE[k]))) for k in range(1, 7)]
    cap = {}; al = {}
    for _ in range(n):
        o = r.choice(['set', 'set', 'copy', 'copy', 'copy', 'len', 'ftnlen', 'toc', 'tof', 'case', 'f2c', 'f2c', 'c2f', 'c2f', 'fcstr', 'view', 'l2i'])
        i, j = r.randrange(1, 7), r.randrange(1, 7)
        while j == i: j = r.randrange(1, 7)
        li = r.choice([SIZE[i], r.randrange(SIZE[i] + 1)]); lj = r.choice([SIZE[j], SIZE[j], r.randrange(SIZE[j] + 1), min(li, SIZE[j])])
        if o == 'set': s.append('set %d %s' % (i, J(text(r, SIZE[i]))))
        elif o == 'copy': s.append('copy %d %d %d %d %d' % (i, li, j, lj, r.choice([0, 0, 32, 32, 42])))
        elif o in ('len', 'ftnlen'): s.append('%s %d %d' % (o, i, li))
        elif o == 'toc': s += ['set 6 ' + J(text(r, 40)), 'toc %d %d %d' % (r.randrange(9), r.randrange(7), r.choice([0, 1, 2, 3, 3]))]
        elif o == 'tof': s.append('tof %d %d %d' % (r.randrange(7), r.randrange(11), r.choice([-1, 1, 2, 3, 3])))
        elif o == 'case': s.append('case %d %d %d %d %d' % (r.randrange(2), i, li, j, lj))
        elif o == 'f2c': s.append('f2c %d %d %d %d' % (i, li, j, lj))
        elif o == 'c2f': s.append('c2f %d %d %d %d' % (i, li, j, lj))
        elif o == 'fcstr': s.append('fcstr %d %d %d' % (i, li, r.choice([-1, 0, 1])))
        elif o == 'view': s.append('view %d %d' % (i, r.choice([-1, li])))
        else: k = r.randrange(20); s.append('l2i %d %s' % (k, J(r.choice([0, 1, -1, 2, 256]) for _ in range(k))))
    return s
def run():
    c = Check('C26', 'fstr', 'FstrTrace', assumptions=['gfortran/gcc; a handle that owns storage is not deleted or regrown while clones of it exist'])
    c.model_check('FstrMC', 'FstrMC.cfg')
    c.model_check('FstrMC', 'FstrMCh.cfg')
    c.build_lib()
    exe = c.compile('d_fstr', ['d_fstr_f.F90', 'd_fstr.c'])
    q = TIER == 'quick'
    gen = c.generate('FstrMC', 'FstrGen.cfg', 100 if q else 1500, 70)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (100, 80) if q else (1500, 200)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    return c.finish()
main(run)
