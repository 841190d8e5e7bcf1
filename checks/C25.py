import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
J = lambda b: ' '.join(map(str, b))
def load(a, ix): return 'load %d %s %d %s' % (len(a), J(a), len(ix), J(ix))
def loads(w, a, ix): return 'loads %d %d %s %d %s' % (w, len(a), ' '.join(J(x) for x in a), len(ix), J(ix))
def small(bs):
    out = []
    for b in bs:
        a, ix = b['a'], b['ix']
        if b['alg'] == 'comb':
            out.append(load(a, ix))
            for k in 'rde': out += ['csort ' + k, load(a, ix)]
            out += ['ipsort r', 'ipsort d', 'ipsort e']
            out += [loads(1, [[64 + x] for x in a], ix), 'csort c', 'ipsort c']
        else:
            out += [load(a, []), 'sort r', load(a, []), 'sort e', 'sort e']
    return out
def vals(r, n):
    m = r.choice(['wide', 'few', 'asc', 'desc', 'const', 'near'])
    if m == 'wide': return [r.randrange(-32767, 32767) for _ in range(n)]
    if m == 'few': return [r.choice([-32767, -1, 0, 1, 2, 32766]) for _ in range(n)]
    if m == 'const': return [r.randrange(-5, 5)] * n
    a = sorted(r.randrange(-2000, 2000) for _ in range(n))
    if m == 'desc': a.reverse()
    if m == 'near':
        for _ in range(3):
            if n: i, j = r.randrange(n), r.randrange(n); a[i], a[j] = a[j], a[i]
    return a
def rnd_script(r, m):
    s = []
    for _ in range(m):
        n = r.choice([1, 2, 3, r.randrange(1, 30), r.randrange(8, 16), r.randrange(1, 90)])
        a = vals(r, n); o = r.random()
        if o < .3:
            ix = list(range(1, n + 1)); r.shuffle(ix); ix = ix[:r.randrange(1, n + 1)]
            if r.random() < .3: ix = [r.choice([0, -1])] + [7] * (n - 1)
            s += [load(a, ix), 'csort ' + r.choice('rde')]
            if r.random() < .5: s.append('csort ' + r.choice('rde'))
        elif o < .5: s += [load(a, []), 'ipsort ' + r.choice('rde')]
        elif o < .65:
            w = r.randrange(1, 13)
            al = r.choice([[65, 66], [32, 65, 97, 126], [1, 255, 128, 127]])
            t = [[r.choice(al) for _ in range(w)] for _ in range(n)]
            ix = list(range(1, n + 1)); r.shuffle(ix)
            s += [loads(w, t, ix), r.choice(['csort c', 'ipsort c'])]
        elif o < .8: s += [load(a, []), 'sort ' + r.choice('re')] + (['sort ' + r.choice('re')] if r.random() < .2 else [])
        elif o < .9:
            ni, nj = r.randrange(1, 8), r.randrange(0, 8); a = vals(r, ni * nj + r.randrange(3))
            s += [load(a, []), 'permut %d %d' % (ni, nj)] + (['permut %d %d' % (ni, nj)] if r.random() < .5 else [])
        elif o < .97:
            n = r.randrange(0, 12); w = n + (n % 2) + 2 * r.randrange(3)
            what = r.choice(['movlev', 'move3216', 'move832', 'movlev8', 'move6432'])
            if what == 'move6432': n = w // 2
            s.append('move %s %d %s' % (what, n, J(r.choice([r.getrandbits(32), 0x80000000, 0xffffffff, 0xff]) for _ in range(w))))
        else: s.append('cast %s %d %s' % (r.choice(['48', '84']), n, J(vals(r, n))))
    return s
def run():
    c = Check('C25', 'order', 'OrderTrace', assumptions=['no NaN among the values; index sorts are given at least one element; distinct indices'])
    c.model_check('OrderMC', 'OrderMC.cfg' if TIER == 'quick' else 'OrderMC3.cfg')
    c.build_lib()
    exe = c.compile('d_order', ['d_order.c'])
    q = TIER == 'quick'
    gen = c.generate('OrderMC', 'OrderGen.cfg', exhaustive=True)
    ch = (len(gen) + 15) // 16
    c.conform(exe, [small(gen[k:k + ch]) for k in range(0, len(gen), ch)], label='every start of the small scope of the specification')
    n, m = (24, 60) if q else (400, 120)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)] + [[load(vals(c.rng, 700), []), 'ipsort r', load(vals(c.rng, 1000), []), 'sort r', 'ipsort d']], label='seeded random histories')
    return c.finish()
main(run)
