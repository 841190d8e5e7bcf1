import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
RANK = {'141': 1, '142': 2, '183': 3, '241': 1, '243': 3, '284': 4, '382': 2}

def lay_str(lay): return ' '.join(str(v) for row in lay for v in row)

def create(a, argflags=0):
    return 'create %s %s %d %d %d %d %d %d %d %s %s' % (a['name'], a['t'], a['user'], a['v'], argflags, a['flags'], a['initmode'], a['uuid'][0], a['uuid'][1],
        lay_str(a['lay']), ' '.join(str(v) for b in a['ub'] for v in b))

def to_script(r, b):
    s = []
    for a in b:
        o = a['op']
        if o == 'create': s.append(create(a, r.randrange(2)))
        elif o == 'write': s.append('write %s %s %d' % (a['name'], a['t'], a['v']))
        elif o == 'update': s.append('update %s %d %d %d %s' % (a['name'], a['flags'], a['uuid'][0], a['uuid'][1], lay_str(a['lay'])))
        elif o == 'shuffle': s.append('shuffle %d %s' % (len(a['list']), ' '.join(a['list'])))
        elif o == 'rename': s.append('rename %s %s' % (a['name'], a['new']))
        else: s.append('%s %s' % (o, a['name']))
        if r.random() < .3: s.append(r.choice(['all', 'nkeys', 'get %s %s' % (r.choice('ABCD'), r.choice(['141', '142', '241'])), 'getmeta %s %d' % (r.choice('ABCD'), r.randrange(2)), 'keys 60 -']))
    return s + ['all']

def rnd_script(r, n, big=False):
    s = []; types = {}
    base = ['T', 'TT:M', 'TT:P', 'TT:MINUS', 'UU', 'uu', 'WIND-SPEED', 'A_VERY_LONG_NAME_OF_32_CHARACTERS'[:32], 'A_VERY_LONG_NAME_OF_32_CHARACTER'[:31], 'Q']
    if big: base = ['F%d' % i for i in range(200)]
    names = r.sample(base, len(base) if big else r.randrange(4, len(base) + 1))
    def name(p=.8): return r.choice(sorted(types)) if types and r.random() < p else r.choice(names)
    for _ in range(n):
        o = r.random()
        if big and len(types) < 150: o = 0
        if o < .24:
            nm = name(.15) if not big else r.choice(names); t = r.choice(sorted(RANK)); lay = []; ub = []
            if nm in types and r.random() < .5: t = types[nm][0]
            same = nm in types and t == types[nm][0] and r.random() < .6
            for k in range(4):
                if k < RANK[t]:
                    lo = r.randrange(-3, 4); size = r.randrange(1, 4)
                    if same: lo = types[nm][1][k][0]; size = types[nm][1][k][1] - lo + 1
                    lay.append([lo, lo + size - 1, r.randrange(3), r.randrange(3), r.randrange(0, size + 1)])
                    sh = r.choice([0, 0, 5]); ub.append([lo + sh, lo + sh + size - 1 + (r.random() < .04)])
                else: lay.append([0, 0, 0, 0, 0]); ub.append([1, 1])
            user = r.random() < .15
            s.append(create(dict(name=nm, t=t, user=user, v=r.randrange(1000), flags=r.choice([0, 0, 2, 1, 3, 8, 32, 64 + 2, 40]), initmode=r.randrange(4), uuid=[r.randrange(99), r.randrange(99)], lay=lay, ub=ub), r.randrange(2)))
            if nm not in types and not (user and any(u[1] - u[0] != l[1] - l[0] for u, l in zip(ub[:RANK[t]], lay))): types[nm] = (t, lay)
        elif o < .44:
            nm = name(); t = types[nm][0] if nm in types and r.random() < .85 else r.choice(sorted(RANK))
            s.append('write %s %s %d' % (nm, t, r.randrange(1, 100000)))
        elif o < .56:
            nm = name(); t = types[nm][0] if nm in types and r.random() < .8 else r.choice(sorted(RANK))
            s.append('get %s %s' % (nm, t))
        elif o < .62: s.append('getmeta %s %d' % (name(), r.randrange(2)))
        elif o < .69:
            nm = name(); lay = [[9, 9, r.randrange(4), r.randrange(4), r.randrange(0, 5)] for _ in range(4)]
            s.append('update %s %d %d %d %s' % (nm, r.choice([0, 2, 32, 33, 64, 96]), r.randrange(99), r.randrange(99), lay_str(lay)))
        elif o < .73:
            nm = name(); s.append('delete ' + nm); types.pop(nm, None)
        elif o < .79:
            a, b = name(), name(.4); s.append('rename %s %s' % (a, b))
            if a in types and b not in types: types[b] = types.pop(a)
        elif o < .89:
            pool = sorted(set(names) | set(types)); q = r.sample(pool, min(len(pool), r.choice([1, 2, 2, 3, 3, 4, 5])))
            if types and r.random() < .6: q = r.sample(sorted(types), min(len(types), r.choice([2, 3, 4])))
            for k, nm in enumerate(q): pass
            full = list(q)
            if r.random() < .15: q = q[:1] + ['-'] + q[1:]
            s.append('shuffle %d %s' % (len(q), ' '.join(q)))
            eff = q[:q.index('-')] if '-' in q else q
            old = {nm: types.get(nm) for nm in eff}
            for k, nm in enumerate(eff):
                v = old[eff[k - 1]]
                if v is None: types.pop(nm, None)
                else: types[nm] = v
        elif o < .93: s.append('keys %d %s' % (r.choice([400, 400, 3]), r.choice(['-', 'T', 'TT:', 'TT:M', 'Z', 'UU', 'F1', 'A_VERY'])))
        elif o < .95: s.append('nkeys')
        else: s.append('all')
    return s + ['all', 'nkeys', 'keys 500 -']

def run():
    c = Check('C10', 'gmm', 'GmmTrace', assumptions=['no restart files; names of at most 32 characters without blanks; types int4, int8, real4, real8, complex8, ranks 1 to 4',
        'the name given to deleted entries is not used for a field; lists to shuffle name each field once'])
    c.model_check('GmmMC', 'GmmMC.cfg' if TIER == 'thorough' else 'GmmMCq.cfg', workers=4)
    c.build_lib()
    exe = c.compile('d_gmm', ['vpj.F90', 'd_gmm.F90'], lang='f', flags=['-I' + VERIF + '/drivers'])
    q = TIER == 'quick'
    c.conform(exe, [to_script(c.rng, b) for b in c.generate('GmmMC', 'GmmGen.cfg', 60 if q else 600, 42)], label='behaviours generated from the specification')
    n, m = (100, 90) if q else (1000, 150)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    c.conform(exe, [rnd_script(c.rng, 260, True) for _ in range(4 if q else 30)], label='directories of more than one page')
    return c.finish()
main(run)
