import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *

def to_script(b):
    out = []
    for a in b:
        o = a['op']
        if o == 'new': out.append('new %d %d' % (a['j'], a['n']))
        elif o == 'shape': out.append('shape %d %d %s' % (a['j'], a['n'], ' '.join(map(str, a['b']))))
        elif o == 'rst': out.append('reset %d' % a['j'])
        elif o == 'insert': out.append('%s %d %d %d %d %s' % ('insert' if len(a['b']) % 3 else 'insstr', a['j'], a['haspos'], a['pos'], len(a['b']), ' '.join(map(str, a['b']))))
        elif o == 'extract': out.append('%s %d %d %d %d' % ('extract' if a['n'] % 3 else 'extstr', a['j'], a['haspos'], a['pos'], a['n']))
        else: out.append('%s %d' % (o, a['j']))
    return out

def rnd_script(r, n):
    s = []; caps = {}
    for _ in range(n):
        j = r.choice([1, 1, 2, 3]); o = r.random()
        cap = caps.get(j, 0)
        if j not in caps and o < 0.75:
            c = r.choice([1, 2, 4, 7, 16, 30])
            if r.random() < .4: s.append('shape %d %d %s' % (j, c, ' '.join(str(r.randrange(0, 1 << 20)) for _ in range(c))))
            else: s.append('new %d %d' % (j, c))
            caps[j] = c
            if r.random() < .6: s.append('reset %d' % j)
        elif o < .40:
            b = r.choice([r.randrange(0, 20), r.randrange(0, 8 * max(1, cap) + 16), 8 * r.randrange(0, 4)])
            hp = r.random() < .35
            p = r.choice([1, 2, cap, cap + 1, cap + 2, cap + 5, r.randrange(-1, cap + 3)]) if hp else 0
            s.append('%s %d %d %d %d %s' % (r.choice(['insert', 'insstr']), j, hp, p, b, ' '.join(str(r.randrange(256)) for _ in range(b))))
        elif o < .70:
            b = r.choice([r.randrange(0, 20), r.randrange(0, 8 * max(1, cap) + 16), 8 * r.randrange(0, 4)])
            hp = r.random() < .35
            p = r.choice([1, 2, cap, cap + 1, r.randrange(-1, cap + 3)]) if hp else 0
            s.append('%s %d %d %d %d' % (r.choice(['extract', 'extstr']), j, hp, p, b))
        elif o < .78: s.append('full %d' % j)
        elif o < .86: s.append('content %d' % j)
        elif o < .92: s.append('reset %d' % j)
        elif o < .95: s.append('free %d' % j); caps.pop(j, None)
        else:
            c = r.choice([1, 3, 9])
            s.append('new %d %d' % (j, c))
            if j not in caps: caps[j] = c
    for j in (1, 2, 3): s += ['content %d' % j, 'full %d' % j]
    return s

def run():
    c = Check('C11', 'jar', 'JarTrace', assumptions=['64-bit elements; object sizes in whole bytes; single thread'])
    c.model_check('JarMC', 'JarMC.cfg')
    c.model_check('JarMC', 'JarMC2.cfg')
    if TIER == 'thorough': c.model_check('JarMC', 'JarMC3.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_jar', ['vpj.F90', 'd_jar.F90'], lang='f')
    q = TIER == 'quick'
    gen = c.generate('JarMC', 'JarGen.cfg', 150 if q else 1500, 27)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (120, 90) if q else (1500, 200)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    return c.finish()
main(run)
