import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def S(b): return ' '.join(map(str, [len(b)] + list(b)))
def line(a):
    if a['op'] == 'set': return 'set %s %s %s' % (a['kind'], S(a['name']), S(a['value']))
    if a['op'] == 'get': return 'get %s %s %d' % (a['kind'], S(a['name']), a['len'])
    return 'free'
def B(s): return [ord(c) for c in s]
def rnd(r, n, many):
    names = [''.join(r.choice('abcXY_1') for _ in range(r.randrange(1, 7))) for _ in range(many)]
    seen, u = set(), []
    for x in names:
        if x.upper() not in seen: seen.add(x.upper()); u.append(x)
    out = []
    for i in range(n):
        k = r.choice('cf'); x = r.choice(u) if many < 500 else u[i % len(u)]
        m = r.random()
        if m < (.5 if many < 500 else .9):
            v = ''.join(r.choice('abc 019') for _ in range(r.choice([0, 1, 5, 20, 300])))
            out.append(dict(op='set', kind=k, name=B(x + ' ' * r.choice([0, 0, 3])), value=B(v)))
        elif m < .99 or many > 500:
            y = r.choice(u); y = r.choice([y, y.upper(), y.lower(), y[:-1] or 'q', y + 'z', y + '  '])
            out.append(dict(op='get', kind=k, name=B(y), len=r.choice([0, 1, 3, 5, 19, 20, 40, 400])))
        else: out.append(dict(op='free'))
    return [line(a) for a in out]
def run():
    c = Check('C27', 'applvar', 'ApplVarTrace', assumptions=['names are not blank', 'no two names that differ by case only are set'])
    c.model_check('ApplVarMC', 'ApplVarMC.cfg', workers=3)
    c.build_lib()
    exe = c.compile('d_applvar', ['d_applvar.c'])
    q = TIER == 'quick'
    gen = c.generate('ApplVarMC', 'ApplVarGen.cfg', 100 if q else 1500, 50)
    c.conform(exe, [[line(a) for a in b] for b in gen], label='behaviours generated from the specification')
    n, m = (60, 60) if q else (1000, 100)
    c.conform(exe, [rnd(c.rng, m, 12) for _ in range(n)] + [rnd(c.rng, 1500, 1400)], label='seeded random histories, and one that fills the table')
    return c.finish()
main(run)
