"""script generators shared by C01, C02, C03 (random standard files)"""
NV = ['TT', 'UU', 'GZ', 'P0', 'ABCD', 'tt', 'X']
TV = ['P', 'A', 'P@', 'AX']
ET = ['RUN1', 'RUN2', 'R1V23456_ABC', 'ANALYSIS', 'RUN1_MORE_AB', 'lower', '12345678901X']
IPS = [0, 1, 2, 500, 1000, 12000, 93423264, 268435455]
def rec(r, small=True):
    t = r.random()
    if t < .35: npak, dt = r.choice([(-32, 5), (-32, 1), (-31, 1), (1, 5), (0, 1), (-32, 0), (-32, 2), (-32, 4), (2, 0), (-64, 5), (-16, 0)])
    elif t < .8: npak, dt = r.choice([-8, -12, -16, -5, -24, -30, 2, 4, -1]), r.choice([2, 2, 4])
    else: npak, dt = -32, 5
    if dt == 4 and npak == -1: npak = -2
    d = r.choice([(1, 1, 1), (2, 3, 1), (5, 1, 1), (3, 2, 2), (4, 4, 1), (5, 1, 1), (6, 1, 1), (10, 3, 1), (2, 2, 0)]) if small else r.choice([(50, 20, 1), (100, 100, 1), (30, 10, 5)])
    return npak, dt, d
def key(r, wild=.5):
    w = lambda v, x: x if r.random() < wild else v
    return '%s %s %s %s %s %s %s' % (w(r.randrange(0, 20) * 6, -1), w(r.choice(ET), '-'), w(r.choice(IPS), -1), w(r.choice(IPS[:4]), -1), w(r.choice(IPS[:4]), -1), w(r.choice(TV), r.choice(['-', '_'])), w(r.choice(NV), r.choice(['-', '____'])))
def ecr(r, u, rew, few=False, big=False):
    npak, dt, d = rec(r, not big)
    dt0 = dt
    deet, npas = r.choice([(0, 0), (0, 0), (3600, 6), (1800, 12), (900, 4), (7200, 0), (0, 5)])
    ip = lambda: r.choice(IPS[:2] if few else IPS)
    ip2, ip3 = (r.choice(IPS[:2]), 0) if few else (r.choice(IPS[:4]), r.choice(IPS[:4]))
    if r.random() < .02: ip2 = r.choice([-1, 268435456])
    if r.random() < .02: d = r.choice([(0, 1, 1), (-3, 2, 1)])
    return 'ecr %d %d %d %d %d %d %d %d %d %d %d %s %s %s %s %d %d %d %d %d %d' % (u, npak, r.randrange(0, 20) * 6, deet, npas, *d, ip(), ip2, ip3,
        r.choice(TV[:2] if few else TV), r.choice(NV[:2] if few else NV), r.choice(ET[:2] if few else ET), r.choice(['X', 'G', 'Z', 'L']),
        *(r.choice([0, 1, 255, 256, 65535, 65536, 1234567, 16777215]) for _ in range(4)), dt0, rew)
def hd(r): return str(r.randrange(1, 6)) if r.random() < .6 else '0' if r.random() < .7 else str(r.randrange(0, 60)) if r.random() < .9 else 'f%d:%d:%d' % (r.randrange(5), r.choice([0, 0, 1, 2, 5, 4000]), r.choice([0, 1, 7, 30, 100, 256, 300, 511]))
def edit(r):
    w = lambda v, x, p=.6: x if r.random() < p else v
    return 'edit 0 %s %s %s %s %s %s %s %s %s %s %s %s %s %s' % (hd(r), w(r.randrange(0, 20) * 6, -1, .8), w(r.choice([0, 3600]), -1, .8), w(r.randrange(10), -1, .8), w(r.choice(IPS), -1), w(r.choice(IPS[:4]), -1), w(r.choice(IPS[:4]), -1), w(r.choice(TV), '-'), w(r.choice(NV), '-'), w(r.choice(ET), '-'), *(w(r.choice([0, 1, 65536, 16777215]), -1) for _ in range(4)))
def search(r, u):
    o = r.random()
    if o < .25: return ['inf %d %s' % (u, key(r))] + ['sui %d' % u] * r.choice([0, 1, 2, 5])
    if o < .40: return ['sui %d' % u]
    if o < .50: return ['inl %d %s %d' % (u, key(r, .7), r.choice([1, 2, 3, 10, 200]))]
    if o < .60: return ['infx %d %s %s' % (u, key(r, .7), r.choice(['cur', 'bof', hd(r), hd(r), hd(r), 'neg']))]
    if o < .68: return ['lir %d %s' % (u, key(r, .6))]
    if o < .74: return ['lirx %d %s %s' % (u, key(r, .7), hd(r))]
    if o < .80: return ['inf %d %s' % (u, key(r, .7))] + ['lis %d' % u] * r.choice([1, 3])
    if o < .90: return ['luk 0 %s' % hd(r)]
    return ['prm 0 %s' % hd(r)]
def listing(u): return ['inf %d -1 - -1 -1 -1 - -' % u] + ['prm 0 0', 'luk 0 0', 'sui %d' % u] * 60
def scan(u): return ['inl %d -1 - -1 -1 -1 - - 4000' % u]
def msq(r, u):
    if r.random() < .3: return 'msq %d 1 0 0 0 -' % u
    w = lambda v: 0 if r.random() < .6 else v
    return 'msq %d 0 %d %d %d %s' % (u, w(r.choice([1, 255, 268435455, 268435455 - 255])), w(r.choice([1, 511, 268435455])), w(r.choice([2, 1023])), r.choice(['____________', '____________', '****________', '____********', '___*____*__*']))
def work(r, u, few):
    o = r.random()
    if o < .42: return [ecr(r, u, int(r.random() < .5), few)]
    if o < .80: return search(r, u)
    if o < .87: return ['eff %d %s' % (u, hd(r))]
    if o < .94: return [edit(r)]
    if o < .97: return ['nbr %d' % u]
    return [msq(r, u), 'inf %d %s' % (u, key(r, .4)), 'sui %d' % u] + (['msq %d 0 0 0 0 ____________' % u] if r.random() < .7 else [])
def c01(r, n):
    us = [11, 12, 25][:r.choice([1, 1, 2, 3])]; s = []; few = r.random() < .6
    for u in us: s.append('open %d f%d 0' % (u, u))
    for i in range(n):
        u = r.choice(us); o = r.random()
        if o < .015: s += ['close %d' % u] + (['nbr %d' % u, 'ecr %d -32 0 0 0 2 2 1 0 0 0 P TT E X 0 0 0 0 5 0' % u, 'inf %d %s' % (u, key(r)), 'sui %d' % u, 'luk 0 0', 'eff %d 0' % u] if r.random() < .3 else []) + ['open %d f%d %d' % (u, u, r.choice([0, 0, 1, 2])), 'nbr %d' % u, 'inf %d -1 - -1 -1 -1 - -' % u] + ['sui %d' % u] * 3
        elif o < .03: s += listing(u)[:3 * r.randrange(2, 30)]
        elif o < .04: s += scan(u)
        else: s += work(r, u, few)
    for u in us: s += scan(u) + ['nbr %d' % u, 'close %d' % u]
    return s
def pages(r, n, us=(11,)):
    """more records than a directory page holds"""
    s = ['open %d f%d 0' % (u, u) for u in us]
    for i in range(n):
        u = r.choice(us); s.append('ecr %d -32 %d 0 0 %d 1 1 %d %d %d P %s E X 0 0 0 0 5 0' % (u, r.randrange(5) * 6, r.choice([1, 2, 5]), r.randrange(8), i % 7, i, r.choice(['TT', 'UU'])))
        if i in (254, 255, 256, 257, 511, 512): s += ['nbr %d' % u] + scan(u) + ['inf %d -1 - -1 -1 %d - -' % (u, i), 'prm 0 0', 'luk 0 0', 'sui %d' % u]
        if i > 250 and r.random() < .06: s += [r.choice(['inf %d -1 - %d -1 -1 - -' % (u, r.randrange(8)), 'eff %d %s' % (u, hd(r)), 'sui %d' % u, 'luk 0 %d' % r.randrange(5), edit(r), ecr(r, u, 1, True), 'infx %d -1 - -1 %d -1 - TT %s' % (u, r.randrange(7), hd(r))])]
    for u in us: s += scan(u) + ['nbr %d' % u, 'luk 0 1', 'luk 0 200', 'close %d' % u, 'open %d f%d 0' % (u, u), 'nbr %d' % u] + scan(u) + ['eff %d %d' % (u, k) for k in (1, 5, 39)] + scan(u) + ['ecr %d -32 0 0 0 5 1 1 3 3 3 P TT E X 0 0 0 0 5 1' % u, 'ecr %d -32 0 0 0 5 1 1 3 3 %d P TT E X 0 0 0 0 5 1' % (u, r.randrange(n))] + scan(u) + ['close %d' % u]
    return s
def c02(r, n):
    fs = ['fa', 'fb']; us = [11, 12]; s = []; few = r.random() < .7
    def start(): return ['open %d %s %d' % (u, f, r.choice([0, 0, 0, 0, 1, 2])) for u, f in zip(us, fs) if r.random() < .85]
    s += start()
    for i in range(n):
        u = r.choice(us); f = fs[us.index(u)]; o = r.random()
        if o < .05: s += ['crash 0'] + ['sum 0 %s' % g for g in fs] + start()
        elif o < .08: s += ['killat 0 %d' % r.choice([1, 1, 2, 2, 3, 4, 5, 7, 9])]
        elif o < .14: s += ['ckp %d' % u] + (['peek 0 %s %d' % (f, r.choice([0, 1, 2]))] if r.random() < .5 else [])
        elif o < .20: s += ['peek 0 %s %d' % (f, r.choice([0, 1, 1, 2]))]
        elif o < .25: s += ['close %d' % u, 'sum 0 %s' % f] + (['peek 0 %s 1' % f] if r.random() < .5 else []) + ['open %d %s %d' % (u, f, r.choice([0, 0, 1, 2]))]
        elif o < .27: s += ['rm 0 %s' % f, 'open %d %s 0' % (u, f)]
        elif o < .30: s += ['sum 0 %s' % f]
        elif o < .31: s += ['open %d %s 0' % (u, f)]
        else: s += work(r, u, few)
    for u, f in zip(us, fs): s += ['close %d' % u, 'sum 0 %s' % f, 'peek 0 %s 1' % f, 'sum 0 %s' % f, 'peek 0 %s 0' % f]
    return s
def c02pages(r, n=None):
    s = ['open 11 fa 0']
    for i in range(n or r.choice([250, 255, 256, 257, 300, 511, 512, 513, 520])):
        s.append('ecr 11 -32 0 0 0 1 1 1 %d 0 %d P TT E X 0 0 0 0 5 0' % (r.randrange(4), i))
        if r.random() < .01: s += ['ckp 11', 'peek 0 fa 1']
    s += (['ckp 11'] if r.random() < .5 else ['close 11', 'peek 0 fa 0', 'open 11 fa 1']) + ['peek 0 fa 1'] + ['ecr 11 -32 0 0 0 1 1 1 %d 0 %d P UU E X 0 0 0 0 5 0' % (r.randrange(4), i) for i in range(r.choice([1, 3, 10, 260]))] + ['peek 0 fa 1', 'close 11' if n else r.choice(['crash 0', 'close 11']), 'peek 0 fa 1', 'peek 0 fa 0', 'open 11 fa 1'] + scan(11) + ['close 11']
    return s
def c03(r, n, big=False):
    us = [11, 12, 25, 30][:r.choice([2, 3, 4])]; s = []; few = r.random() < .7
    for u in us:
        s.append('open %d f%d 0' % (u, u))
        if big and r.random() < .8:
            for i in range(r.choice([256, 257, 300, 513])): s.append('ecr %d -32 0 0 0 1 1 1 %d 0 %d P TT E X 0 0 0 0 5 0' % (u, r.randrange(4), i))
        else: s += [ecr(r, u, 0, few) for _ in range(r.choice([0, 1, 3, 8]))]
    for _ in range(r.choice([1, 2])):
        order = us[:]; r.shuffle(order); order = order[:r.randrange(1, len(us) + 1)]
        s.append('link %s' % ' '.join(map(str, order)))
        for i in range(n):
            u = r.choice(order + us); o = r.random()
            if o < .05: s += scan(u)
            elif o < .10: s += listing(u)[:3 * r.randrange(2, 40)]
            elif o < .14: s += ['unlink', 'link %s' % ' '.join(map(str, order))]
            elif o < .16: s += ['ckp %d' % u]
            else: s += work(r, u, few)
        s += ['unlink'] + sum((scan(u) for u in us), [])
    for u in us: s += ['close %d' % u, 'peek 0 f%d 1' % u]
    return s
def to_script(b):
    """a behaviour of FstMC as a script"""
    out = []
    for a in b:
        o, u = a['op'], a.get('u', 0)
        if o == 'open': out.append('open %d %s %d' % (u, a['f'], a['ro']))
        elif o == 'ecr': out.append('ecr %d -32 0 0 0 %d 1 1 %d 0 0 P %s E X 0 0 0 0 5 %d' % (u, a['ni'], a['ip1'], a['nv'], a['rew']))
        elif o == 'inf': out.append('inf %d -1 - %d -1 -1 - %s' % (u, a['ip1'], a['nv']))
        elif o == 'eff': out.append('eff %d F%d:%d:%d' % (u, u, a['p'], a['r']) if 'p' in a else 'eff 0 0')
        elif o == 'inl': out.append('inl %d -1 - -1 -1 -1 - %s 5' % (u, a['nv']))
        elif o == 'link': out.append('link %s' % ' '.join(map(str, a['l'])))
        elif o == 'luk': out.append('luk 0 0')
        elif o == 'scan': out += scan(u) + ['nbr %d' % u]
        elif o == 'peek': out.append('peek 0 %s 1' % a['f'])
        elif o == 'crash': out.append('crash 0')
        elif o == 'sopen': out.append('sopen %d %s %d' % (u, a['f'], a['ro']))
        elif o == 'speek': out.append('speek 0 %s' % a['f'])
        elif o in ('weo', 'skp'): out.append('%s %d %d' % (o, u, a['n']))
        else: out.append('%s %d' % (o, u))
    if b and any(a['op'] == 'sopen' for a in b): return out + ['close 11', 'close 12', 'speek 0 fa', 'speek 0 fb']
    return out + ['unlink', 'close 11', 'close 12', 'peek 0 fa 1', 'peek 0 fb 1']

def c04(r, n):
    us = [11, 12][:r.choice([1, 1, 2])]; s = []; few = r.random() < .7
    for u in us: s.append('sopen %d f%d 0' % (u, u))
    hk = lambda: str(r.randrange(0, 4)) if r.random() < .9 else str(r.randrange(30))
    def pos(u): return r.choice([['rwd %d' % u], ['skp %d %d' % (u, r.choice([1, 1, 2, 3, 50, -1, -1, -2, -3, -50, 0]))], ['app %d' % u], ['rwd %d' % u, 'app %d' % u], ['rwd %d' % u, 'skp %d %d' % (u, r.randrange(8))], ['skp %d %d' % (u, r.choice([60, -60])), 'skp %d -1' % u]])
    for i in range(n):
        u = r.choice(us); o = r.random()
        if o < .02: s += ['close %d' % u] + (['speek 0 f%d' % u] if r.random() < .5 else []) + (['rwd %d' % u, 'eofq %d' % u, 'skp %d 1' % u, 'inf %d %s' % (u, key(r)), 'sui %d' % u, 'app %d' % u, 'weo %d 2' % u] if r.random() < .2 else []) + ['sopen %d f%d %d' % (u, u, r.choice([0, 0, 1, 2]))]
        elif o < .05: s.append('speek 0 f%d' % u)
        elif o < .06: s += ['ckp %d' % u]
        elif o < .07: s += ['crash 0'] + ['sopen %d f%d %d' % (v, v, r.choice([0, 1, 2])) for v in us]
        elif o < .30: s += [ecr(r, u, int(r.random() < .3), few) for _ in range(r.choice([1, 1, 1, 2, 4]))]
        elif o < .34: s += ['weo %d %d' % (u, r.choice([1, 1, 2, 5, 14, 15, 0, 16]))]
        elif o < .52: s += pos(u)
        elif o < .57: s += ['rwd %d' % u] + ['inf %d -1 - -1 -1 -1 - -' % u, 'eofq %d' % u] * r.randrange(2, 12)
        elif o < .60: s += ['eofq %d' % u]
        elif o < .64: s += ['eff 0 %s' % hk()]
        elif o < .65: s += [msq(r, u)]
        elif o < .66: s += ['edit 0 0 -1 -1 -1 5 -1 -1 - - - -1 -1 -1 -1']
        else:
            for x in search(r, u):
                if 'f' in x.split()[-1] and ':' in x: continue
                s.append(x)
            if r.random() < .5: s += [r.choice(['luk 0 0', 'prm 0 0', 'luk 0 1', 'eofq %d' % u])]
    for u in us: s += ['close %d' % u, 'speek 0 f%d' % u]
    return s
