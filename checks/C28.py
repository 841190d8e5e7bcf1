import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
NV = ['TT', 'TD', 'T', 'UU', 'GZ', 'HY', '>>', '!!', '^^', 'TTX']; TV = ['P', 'A', 'P@', 'C']; ET = ['RUN1', 'RUN12', 'ABCDEFGHIJKL', 'ABCDEFGHIJKM', '']
VALS = [0, 1, 2, 5, 10, 12, 50, 100]
DAYS = [0, 1440 * 366, 1440 * 3000]
def U(s): return s.replace(' ', '_') or '='
def lev(r):
    st = r.choice([2, 2, 3]); k = r.choice([2, 2, 2, 3, 0, 10]) if st == 2 else r.choice([2, 2, 2, 3, 0])
    v = r.choice(VALS)
    if k == 0 and st == 3 and v % 5: v = 5
    return '%d:%d:%d' % (st, k, v)
def lev2(r, k=2): return '%d:%d:%d' % (r.choice([2, 3]) if k in (2, 3) else 2, k, r.choice(VALS))
def minute(r): return r.choice(DAYS) + r.choice([0, 6, 12, 18, 20, 24, 30, 60, 90, 180, 360, 720, 1440, r.randrange(4000)])
def rec(r, i):
    v = r.random()
    return 'rec %d %s %s %s %s %d %s %s %s %s' % (i, U(r.choice(NV)), U(r.choice(TV)), U(r.choice(ET)), r.choice('XZ'), minute(r), lev(r), lev(r), lev(r),
        ' '.join(map(str, [r.choice([1, 3, 4]), r.choice([1, 2]), r.choice([1, 2])] + [r.choice([0, 1, 7]) for _ in range(4)])))
def base(r, n):
    s, seen = [], set()
    while len(s) < n:
        x = rec(r, len(s)); t = x.split(); k = tuple(t[2:5] + t[6:10])          # keys of a rewrite
        k = tuple([t[2], t[3], t[4], t[6]] + [y.split(':', 1)[1] for y in t[7:10]])
        if k not in seen: seen.add(k); s.append(x)
    return s
def sets(r): return r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 49, 50, -1]), 0
def sel(r, des):
    """one selection; des: request -> usual sense"""
    b = r.random() < .15
    s = r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 49]) if r.random() < .93 else r.choice([50, -1, 60])
    d = des[s % 7] if r.random() < .9 else r.choice([0, 1])
    w = 'b' if b else 'c'
    o = r.choice(['str', 'str', 'ip', 'ip', 'ip', 'date', 'date', 'sup'])
    if o == 'sup':
        v = [r.choice([-1, -1, -1, -1, x]) for x in (r.choice([1, 3]), r.choice([1, 2]), r.choice([1, 2]), r.choice([0, 1]), r.choice([0, 1, 7]), r.choice([0, 7]), r.choice([0, 1, 7]))]
        return 'sup %s %d %d %s %s' % (w, s, d, ' '.join(map(str, v)), r.choice('___XZ'))
    if o == 'str':
        f = r.choice(['nv', 'nv', 'tv', 'et']); m = 4 if f == 'nv' else 2 if f == 'tv' else 12
        src = dict(nv=NV, tv=TV, et=ET)[f]
        n = r.choice([1, 1, 2, 3, 3, 8, 50]) if r.random() < .93 else r.choice([0, -1, 51])
        q = [r.choice(src) for _ in range(max(n, 0))]
        lg = r.choice([m, m, m + 3])
        if not b and r.random() < .6:
            q = [x[:r.randrange(1, len(x) + 1)] if x and r.random() < .3 else x.ljust(m) if r.random() < .5 else x for x in q]
            q = [x or ' ' * m for x in q]
        else:
            w = 'b' if b else 'f'; n = max(n, 0)
        return 'str %s %s %d %d %d %d %s' % (f, w, s, d, n, lg, ' '.join(U(x) for x in q))
    m = r.random(); h = 'ip %d' % r.randrange(1, 4) if o == 'ip' else 'date 0'
    k = r.choice([2, 2, 2, 3, 0, 10]); el = (lambda: lev2(r, k)) if o == 'ip' else (lambda: str(minute(r)))
    if m < .4:
        q = [lev(r) if o == 'ip' else str(minute(r)) for _ in range(r.choice([1, 1, 2, 3, 6, 49, 50]))]
        if r.random() < .15: q = ['r:-1' if o == 'ip' else '-1'] + q
        elif o == 'ip' and r.random() < .15 and len(q) > 1: q[-1] = 'r:-1'
        n = -99 if r.random() < .93 else r.choice([0, -1, 51])
        return '%s %s %d %d list %d %s' % (h, w, s, d, 1 if q[0] in ('r:-1', '-1') and n == -99 else n, ' '.join(q))
    if m < .75:
        lo, hi = el(), el()
        if o == 'date' and int(lo) > int(hi): lo, hi = hi, lo
        if r.random() < .3: lo = '-'
        elif r.random() < .3: hi = '-'
        return '%s %s %d %d range -99 %s %s' % (h, w, s, d, lo, hi)
    if m < .95 or o == 'ip':
        fl = r.random() < .5
        if o == 'ip': return '%s %s %d %d delta -99 %s %s %d%s' % (h, w, s, d, el(), el(), r.choice([1, 2, 3, 5, 7, 10]), ' f' if fl else '')
        lo = minute(r)
        return '%s %s %d %d delta -99 %d %d %d%s' % (h, w, s, d, lo, lo + r.choice([0, 60, 720, 1440 * 5000]), r.choice([6, 6, 12, 20, 30, 60, 90] if fl else [60, 120, 360]), ' f' if fl else '')
    t = 400000000
    return '%s %s %d %d bad -99 %s' % (h, w, s, d, r.choice(['%d -3 5' % t, '%d -2 %d -3' % (t, t + 5), '-2 -2 %d' % t, '%d %d -2' % (t, t + 9), '%d -2 %d %d -3 7' % (t, t, t)]))
def rnd(r, n):
    nr = r.choice([10, 25]) if r.random() < .9 else 300
    s = base(r, nr); k = 0
    des = [r.choice([0, 1]) if r.random() < .6 else 1 for _ in range(7)]
    for _ in range(n):
        m = r.random()
        if m < .42: s.append(sel(r, des))
        elif m < .72: s.append('find %d %s' % (r.choice([0, 1]), r.choice(['=', '=', U(r.choice(NV))])))
        elif m < .84: s.append('match %d %d' % (r.randrange(nr), r.choice([0, 1])))
        elif m < .87: s.append('clear %d %s' % (r.choice([0, 1, 2, 3, 49, 50, -1]), ' '.join(str(r.choice([0, 0, 1])) for _ in range(7))))
        elif m < .89: s.append('group %d %d' % r.choice([(0, 49), (0, 1), (1, 2), (1, 1), (2, 1), (0, 50), (-1, 3), (50, 50)]))
        elif m < .91: s += ['off', 'find 0 =', 'on'] if r.random() < .7 else [r.choice(['off', 'on'])]
        elif m < .94: s.append('%s %d' % (r.choice(['desire', 'exclure']), r.choice([0, 1])))
        elif m < .98: s += ['rewr %d' % r.randrange(nr), 'off', 'find 0 =', 'on']
        elif m < .985: s.append('init')
        else: s.append('init')
    if r.random() < .05: s += ['init'] + ['desire 1'] * 49 + ['exclure 0', 'find 1 =', 'desire 1', 'exclure 1'] + ['sup b 0 0 -1 -1 -1 -1 -1 -1 7 _', 'ip 1 b 0 0 list -99 2:2:5', 'date 0 b 0 0 list -99 60', 'str nv b 0 0 1 4 TT', 'find 0 =']
    return s
NAMES = {65: 'TT', 66: 'UU', 62: '>'}
def line(a):
    if a['op'] in ('on', 'off'): return [a['op'], 'find 1 =']
    if a['op'] in ('desire', 'exclure'): return [a['op'] + ' 0']
    if a['op'] == 'group': return ['group %d %d' % (a['a'], a['z']), 'find 0 =']
    if a['op'] == 'clear': return ['clear %d %s' % (a['s'], ' '.join(str(int(x)) for x in a['keep']))]
    if a['op'] == 'find': return ['find 0 =', 'find 1 TT', 'match 0 0', 'match 3 1']
    w = 'b' if a['b'] else 'c'; h = '%s %d %d' % (w, a['s'], a['des'])
    if a['op'] == 'str': return ['str nv %s %d 4 %s' % (h, a['n'], ' '.join('_' if x == [32] else NAMES[x[0]] for x in a['l']))]
    if a['op'] == 'sup': return ['sup %s %s _' % (h, ' '.join(map(str, a['v'])))]
    if a['op'] == 'date': return ['date 0 %s bad -99 400000000 -3 5' % h if a['m'] == 'bad' else 'date 0 %s range -99 0 %s' % (h, a['hi'][0] if a['hi'] else '-')]
    e = lambda x: '3:%d:%d' % (x['k'], x['v'])
    if a['m'] == 'list': return ['ip 1 %s list -99 %s' % (h, ' '.join(e(x) for x in a['l']))]
    lo, hi = e(a['lo'][0]) if a['lo'] else '-', e(a['hi'][0]) if a['hi'] else '-'
    return ['ip 1 %s %s -99 %s %s%s' % (h, a['m'], lo, hi, ' %d' % a['d'] if a['m'] == 'delta' else '')]
FIX = ['rec %d %s P E X %d %d:2:%d 2:2:0 2:2:0 1 1 1 0 0 0 %d' % (4 * i + j, nv, 60 * (j % 2), 2 + j % 2, v, 7 + (j // 2)) for i, nv in enumerate(['TT', 'UU', '>>']) for j, v in enumerate([1, 2, 3, 2])]
def run():
    c = Check('C28', 'filters', 'FiltersTrace', assumptions=['lists hold the special codes -1, -2, -3 only where the interface documents them', 'limits of a range are of one kind of level',
        'names are not empty strings', 'a range with an interval has a lower limit'])
    c.model_check('FiltersMC', 'FiltersMC.cfg', workers=3)
    c.build_lib()
    exe = c.compile('d_filters', ['d_filters.c'])
    q = TIER == 'quick'
    gen = c.generate('FiltersMC', 'FiltersGen.cfg', 80 if q else 1500, 50)
    c.conform(exe, [FIX + [x for a in b for x in line(a)] for b in gen], label='behaviours generated from the specification')
    n, m = (120, 70) if q else (2000, 150)
    c.conform(exe, [rnd(c.rng, m) for _ in range(n)], label='seeded random histories')
    return c.finish()
main(run)
