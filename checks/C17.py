import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
KINDS = [0, 1, 2, 3, 4, 5, 6, 7, 10, 15, 17, 21]
LOHI = {0: (-20000, 100000), 1: (0, 1), 2: (0, 1100), 3: (-480000000, 10**10), 4: (-20000, 100000), 5: (0, 1), 6: (1, 200000), 7: (0, 20000), 10: (0, 10**10), 15: (0, 2000000), 17: (1, 10**10), 21: (0, 1000000)}
def kind(r, bad=.05): return r.choice([-1, -2, 32, 33, 63, 47, 31, 100]) if r.random() < bad else r.choice(KINDS)
def norm(m, e):
    while m and m % 10 == 0: m, e = m // 10, e + 1
    return m, (e if m else 0)
def value(r, k, odd=.06):
    """m e, mostly within the kind's range"""
    lo, hi = LOHI.get(k, (0, 1000))
    if r.random() < odd: return r.choice([(0, 0), (lo * 1000 - 1, -3) if lo > -10000 else (lo * 10 - 1, -1) if lo > -500000 else (lo // 10**6 - 1, 6), (hi * 1000 + 1, -3) if hi < 9000 else (hi + 1, 0) if hi < 9 * 10**6 else (1000001, 4), (lo, 0), norm(hi, 0), (-1, -12), (1, -12), (-1, 0), (-5, -1), (1234567, 4), (-9999999, 3)])
    m = r.random()
    if m < .15: return r.choice([norm(lo, 0), norm(hi, 0), norm(hi * 999 // 1000, 0)])
    if m < .3 and k != 15: # around the limits of the mantissa and of the old style's segments
        v = r.choice([(999999, -6), (9999995, -7), (1000005, -6), (100000, -6), (9975, -3), (99749, -4), (99751, -4), (99999, -4), (9975, -4), (9975, -5), (9975, -6), (999999, -9), (999998, -9), (1001, -3), (1002, -7), (48, 2), (4799996, -3), (47999, 0), (48001, 0)])
        s = r.choice([0, 0, 0, 1, 2, -1, -3]); n = r.choice([1, 1, -1]) if lo < 0 else 1
        return norm(v[0] * n, v[1] + s)
    for _ in range(60):
        d = r.choice([1, 2, 3, 4, 5, 6, 6, 7]); n = r.randrange(1, 10 ** d); e = r.randrange(-12, 10) if r.random() < .5 else r.randrange(-6, 2)
        if lo < 0 and r.random() < .4: n = -n
        if k == 15: e = r.choice([0, 0, 0, 1, -1])
        if lo <= n * 10.0 ** e <= hi: return norm(n, e)
    return norm(hi, 0)
def V(r, k, odd=.06): return '%d %d' % value(r, k, odd)
def code(r):
    m = r.random()
    if m < .2: return r.randrange(0, 32768)
    if m < .3: return r.choice([0, 1, 9, 10, 1099, 1100, 1101, 1200, 1201, 1399, 1400, 1401, 1600, 1799, 1800, 1801, 1999, 2000, 12000, 12001, 32000, 32001, 32767, 32768, -1, 268435455, 251658240, 251658240 + 2000000, 251658240 + 2000001, 2147483647, 268435456])
    k = r.choice(KINDS) % 16 if r.random() < .95 else r.randrange(0, 128)
    mant = r.choice([r.randrange(100000, 1000000), r.randrange(100000, 1000000), r.randrange(0, 1048576), r.randrange(1004800, 1048001), r.choice([0, 1, 100000, 999999, 1000000, 1000001, 1004800, 1048000, 1048001, 1048575, 10, 1000])])
    return k * 16777216 + r.randrange(16) * 1048576 + mant
def tcode(r): return r.choice([10 * 16777216 + r.randrange(16) * 1048576 + r.randrange(1000000), r.randrange(100)]) if r.random() < .8 else code(r)
def lcode(r, k=None): k = r.choice([0, 1, 2, 3, 4, 5, 6, 7]) if k is None else k; return k * 16777216 + r.randrange(3, 11) * 1048576 + r.randrange(100000, 1000000) if r.random() < .85 else code(r)
def lev(r): return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 21])
def group(r, k, rng=.4):
    a = V(r, k, .02); return '%s %s %d' % (a, V(r, k, .02) if r.random() < rng else a, k)
def codes(r, n):
    out = []
    for _ in range(n):
        m = r.random()
        if m < .45: k = kind(r); out.append('enc %d %d %s' % (r.choice([2, 2, 2, 3]), k, V(r, k)))
        elif m < .55: k = r.choice([0, 1, 2, 3]); out.append('enc 3 %d %s' % (k, V(r, k) if k != 3 or r.random() < .2 else '%d 0' % r.randrange(-1, 103)))
        elif m < .57: k = kind(r); out.append('enc 1 %d %s' % (k, V(r, k)))
        elif m < .60 and r.random() < .02: out.append('init')
        elif m < .63: out.append('unit %d' % r.choice(KINDS + [-1, 8, 9, 31, 32, 18, 47, 159, 175, 100]))
        else: out.append('dec %d' % code(r))
    return out
def triples(r, n):
    out = []
    for _ in range(n):
        m, v = r.random(), r.choice([0, 1])
        if m < .4:
            k1, k2, k3 = (lev(r) if r.random() < .95 else kind(r)), (10 if r.random() < .95 else kind(r)), kind(r)
            a = r.random(); out.append('e3 %d %s %s %s' % (v, group(r, k1, .9 if a < .4 else .02), group(r, k2, .9 if a > .6 else .02), group(r, k3)))
        elif m < .6: k = r.choice([None, 0, 1, 2, 3, 5, 6, 7]); out.append('d3 %d %d %d %d' % (v, lcode(r, k), tcode(r), r.choice([lcode(r, k), tcode(r), code(r)])))
        elif m < .8:
            k1 = lev(r) if r.random() < .95 else kind(r); k2 = r.choice([10, 10, k1, lev(r), kind(r)]); k3 = r.choice([10, k1, kind(r)])
            out.append('pk %d %s %d %s %d %s %d' % (v, V(r, k1, .02), k1, V(r, k2, .02), k2, V(r, k3, .02), k3))
        else: k = r.choice([None, 0, 1, 2, 3, 5, 6, 7]); a, b, c = lcode(r, k), r.choice([tcode(r), lcode(r, k)]), r.choice([tcode(r), lcode(r, k), code(r)]); a, b = (b, a) if r.random() < .1 else (a, b); out.append('ipk %d %d %d %d' % (v, a, b, c))
    return out
def same(r, k, m, e):
    """a code of m * 10^e on file: new style in any exponent, off by a unit, or old style"""
    bits = k % 16 * 16777216; s = -1 if k == 17 else 1; e2 = e + 4 if k == 21 else e
    x = 4 - e2; mm = m * s
    for _ in range(r.randrange(7)):
        if abs(mm) < (100000 if mm >= 0 else 4800) and x < 15: mm, x = mm * 10, x + 1
    mm += r.choice([0, 0, 0, 1, -1])
    if not 0 <= x <= 15: return None
    return bits + x * 1048576 + (mm if mm >= 0 else 1000000 - mm)
def searches(r, n):
    """a file of records at a few levels and times, in every encoding; then searches"""
    out = []; pool = []
    for _ in range(r.randrange(2, 5)):
        k = r.choice([0, 1, 2, 2, 3, 4, 5, 6, 7, 10, 10, 17, 21])
        v = r.choice([(1, 0), (5, 0), (500, 0), (85, 1), (12, 0), (1, 3), (25, -2), (999, -3), (1, -2), (3, 0), (24, 0), (105, -1)])
        lo, hi = LOHI[k]
        if lo <= v[0] * 10.0 ** v[1] <= hi: pool.append((k, norm(*v)))
    pool = pool or [(2, (5, 2))]
    old = [0, 1, 5, 9, 12, 500, 850, 1820, 1900, 2999, 4500, 12002, 12000, 1195, 3, 24]
    def one(k=None):
        m = r.random()
        if m < .75:
            k, v = r.choice(pool); c = same(r, k, *v)
            if c is not None and 0 <= c < 2**28: return c
        return r.choice(old)
    for _ in range(n // 3): out.append('rec %d %d %d' % (one(), one(), one()))
    while len(out) < n:
        fl = [r.random() < .5 for _ in range(3)]; more = 0; q = []
        for i in range(3):
            if fl[i]:
                for _ in range(r.choice([1, 1, 1, 2, 3])): k, v = r.choice(pool); q.append('%s %d %d %d %d' % (r.choice(['all', 'all', 'val']), i + 1, k, *v))
        w = ' '.join('-1' if r.random() < .15 else '@' if fl[i] else str(r.choice([-1, -1, one()])) for i in range(3))
        for j in range(r.randrange(1, 5)): out += q + ['find %d %s' % (1 if j else 0, w)]
        if r.random() < .2: out.append('rec %d %d %d' % (one(), one(), one()))
    return out
def run():
    c = Check('C17', 'ip', 'IpTrace', assumptions=['kinds are the documented ones, or refused ones (negative, above 31, the sub-kinds of 15); the undocumented kinds 8, 9, 11-14, 16, 18-20, 22-30 are not exercised',
              'values have at most 7 significant decimal digits (a 32-bit real holds no more); at a half unit either neighbour'])
    q = TIER == 'quick'
    c.model_check('IpMC', 'IpMC.cfg', workers=6)
    if not q: c.model_check('IpMC', 'IpMCb.cfg', workers=6)
    c.build_lib()
    exe = c.compile('d_ip', ['d_ip.c'])
    r = c.rng
    gen = c.generate('IpMC', 'IpGen.cfg', 20 if q else 200, 62)
    c.conform(exe, [fromspec(r, b) for b in gen], label='calls generated from the specification')
    N = 24 if q else 300
    c.conform(exe, [codes(r, 500) for _ in range(N)], label='seeded single codes')
    c.conform(exe, [['dec %d' % i for i in range(a, a + 1024)] for a in range(0, 32768, 1024)], label='every old-style code')
    c.conform(exe, [triples(r, 300) for _ in range(N)], label='seeded triplets')
    c.conform(exe, [searches(r, 200) for _ in range(N)], label='records designated by a value in all its encodings')
    return c.finish()
def fromspec(r, b):
    out = []
    for x in b:
        k, m, e, o = x['k'], x['m'], x['e'], x['o']
        if o == 'code': out += ['enc 2 %d %d %d' % (k, m, e), 'enc 3 %d %d %d' % (k, m, e)]
        elif o == 'level': out.append('e3 0 %d %d %d %d %d %d 0 %d 0 10 1 0 1 0 3' % (m, e, m, e, k, r.randrange(48), r.randrange(48)))
        elif o == 'range': out.append('e3 1 %d %d %d %d %d 6 0 6 0 10 1 0 1 0 3' % (m, e, x['n'], e, k))
        else: out.append('pk 0 %d %d %d %d %d %d %d 0 10' % (m, e, k, x['n'], e, k, r.randrange(48)))
    return out
main(run)
