import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
YS = [0, 1, 3, 4, 99, 100, 101, 399, 400, 1600, 1700, 1899, 1900, 1901, 1903, 1904, 1979, 1980, 1981, 1996, 1999, 2000, 2001, 2004, 2096, 2099, 2100, 2104, 2199, 2200, 2234, 2235, 2236, 2237, 2400, 9996, 9999]
MD = [101, 102, 130, 131, 227, 228, 229, 301, 302, 331, 401, 430, 501, 531, 630, 731, 831, 901, 1031, 1130, 1201, 1230, 1231]
def date(r, lo=None, hi=None):
    while True:
        y = r.choice(YS) if r.random() < .5 else r.choice([r.randrange(1895, 2240), r.randrange(10000), r.randrange(1980, 2030)])
        if (lo is None or y >= lo) and (hi is None or y <= hi): break
    return y * 10000 + (r.choice(MD) if r.random() < .7 else r.randrange(0, 14) * 100 + r.randrange(0, 33))
def time(r):
    m = r.random()
    if m < .3: return r.choice([0, 1000000, 12000000, 23000000, 23595500, 23300000, 22595999, 500, 300, 29595500, 24000000])
    if m < .5: return r.randrange(0, 24) * 1000000
    return r.randrange(0, 25) * 1000000 + r.randrange(60) * 10000 + r.randrange(60) * 100 + r.choice([0, 0, 99])
def hours(r):
    m = r.random()
    if m < .35: h = r.choice([0, 1, -1, 2, 23, 24, -24, 25, 48, 720, -720, 744, 8640, 8760, 8784, -8760, -8784, 35040, 35064, 360 * 24 * 4])
    elif m < .6: h = r.randrange(-20000, 20000)
    elif m < .8: h = r.randrange(-600000, 600000)
    elif m < .9: h = r.randrange(-3000000, 3000000)
    else: h = r.randrange(-40000000, 40000000)
    return h, (0 if r.random() < .5 else r.choice([1, 719, 359, 360, 361, r.randrange(720)]))
def stamp(r):
    """puts a stamp in @"""
    m = r.random()
    if m < .7: return 'nd %d 0 %d %d' % (r.choice([3, 3, 3, 5]), date(r), time(r))
    if m < .8: return 'nd -1 %d 0 %d' % (r.choice([r.randrange(-504904320, 1615714560), r.randrange(-701256, 10) * 720, 0, 126230400, 126230399, 126229680, -504904320, 1615714559]), r.randrange(10))
    if m < .9: return 'nd -6 %d 0 0' % r.choice([r.randrange(87658200), 16663825, 0, 87658199, 16655064, 16655063, 19600367, 19600368])
    return 'mg2 %d 1 %d %d %d %d %d' % (r.choice([0, 1]), r.randrange(1, 13), r.randrange(1, 32), r.choice([r.randrange(100), r.randrange(1900, 2236), r.randrange(100, 10000)]), r.randrange(24), r.choice([0, r.randrange(360000)]))
def raw(r):
    """any number for a stamp"""
    return r.choice([lambda: r.randrange(-2**31 + 1, 2**31), lambda: r.randrange(0, 123200000), lambda: r.randrange(1, 13) * 10000000 + r.randrange(0, 34) * 100000 + r.randrange(100) * 1000 + r.randrange(26) * 10 + r.randrange(10),
        lambda: 123200000 + r.randrange(0, 202400000) * 10 + r.randrange(8), lambda: -1294967296 + r.randrange(0, 10957300) * 10 + r.randrange(8), lambda: r.choice([0, -1, -2, 1, 101010101, 123200000, 123199999, -1294967296, -1294967297, -1185394546, -1185394549, 2142843196, 2142843197, 2142843200, 2147483647, -2147483647])])()
def step(r):
    m = r.random(); k = lambda: r.choice('ri')
    if m < .30: return ['nd %d %d %d %d' % (f, d, d, t) for f, d, t in [(r.choice([2, 3, 5, 7]), date(r), time(r))]] + ['nd %d @ @ 0' % r.choice([1, -3, -3, 6])]
    if m < .36: s = raw(r); return ['nd %d %d %d %d' % (q, s, s, 0) for q in r.sample([1, -3, -5, 6], 2)]
    if m < .42: s = r.choice([r.randrange(-520000000, 1700000000), r.randrange(-720000, 2300000) * 720, 1615714559, 1615714560, -504904320, -504904321, -504905040, -1, 0, 2147483647, -2147483647]); return ['nd %d %d %d %d' % (r.choice([-1, -2]), s, s, r.choice([0, 0, 3, 9, 10, -1]))]
    if m < .48: s = r.choice([r.randrange(-100, 88000000), 87658199, 87658200, -1, 0, r.randrange(-2**31 + 1, 2**31)]); return ['nd %d %d %d 0' % (r.choice([-6, -7]), s, s)]
    if m < .50: return ['nd %d %d %d 0' % (r.choice([0, 8, -8, 99]), 0, 19900101)] if r.random() < .5 else ['nd %d 0 %d %d' % (r.choice([2, 3, 5, 7]), r.choice([-19900101, -101, 119900101, 100000101, 999912310, -2147483647, 2147483647]), 0)]
    if m < .75: h = hours(r); return [stamp(r), 'inc %s @ %d %d b' % (k(), *h)]
    if m < .78: h = hours(r); return ['inc %s %d %d %d' % (k(), raw(r), *h)]
    if m < .90: a, b = raw(r), stamp(r); return [b, 'inc r @ 0 0', 'dif %s @ %d' % (k(), a), b, 'dif %s %d @' % (k(), a)]
    if m < .94: return [stamp(r), 'mgp @' + r.choice(['', ' n'])] if r.random() < .8 else ['mgp %d' % raw(r)]
    if m < .97: return ['mg2 %d 1 %d %d %d %d %d' % (r.choice([0, 1]), r.randrange(0, 14), r.randrange(0, 33), r.choice([r.randrange(100), r.randrange(1900, 2236), r.randrange(100, 10000)]), r.randrange(25), r.randrange(360000))]
    if m < .99: y, mo = r.randrange(-4700, 10000), r.randrange(1, 13); return ['jd %d %d %d' % (y, mo, r.randrange(1, 29))]
    return ['dj %d' % r.choice([r.randrange(4000, 5373485), 2299160, 2299161, 2415021, 1721060, 1721059])]
def ok(r, x):
    """an instruction that no addition leads out of the integers"""
    return True
def script(r, n):
    out = []
    while len(out) < n:
        if r.random() < .04: out += [r.choice(['set', 'set', 'set', 'unset']) + ' ' + r.choice(['gregorian', '365_day', '360_day', 'julian']) + r.choice(['', ' u']), 'get']
        out += step(r)
    return out
def walk(r, cal, y):
    """around one year, every calendar: from the month ends, forward and back over the leap day"""
    out = ['set ' + cal, 'get']
    for md in r.sample(MD, 8):
        p = 'nd 3 0 %d %d' % (y * 10000 + md, r.choice([0, 12000000, 23000000, 23595500, 23300000, 30500]))
        for d in [1, 2, 28, 29, 30, 31, 59, 60, 61, 300, 360, 365, 366, 1460, 1461, 36524, 36525]:
            h = d * 24 * r.choice([1, -1]) + r.choice([0, 0, 1, 23, -1]); out += [p, 'inc %s @ %d %d b' % (r.choice('rri'), h, r.choice([0, 0, 0, 360, 1]))]
    return out
def fromspec(b):
    out = []
    for x in b:
        k, p, t = x['k'], x['p'], x['t']
        if k == 'p': out += ['nd %d 0 %d %d' % (m, p, t) for m in (2, 3, 5, 7)] + ['nd -3 @ @ 0', 'nd 1 @ @ 0', 'nd 6 @ @ 0']
        elif k == 'inc': out += ['nd 3 0 %d %d' % (p, t), 'inc %s @ %d %d b' % ('ri'[p % 2], (p * 7919 + t // 100) % 3000000 - 1500000 if p % 3 else p % 2000 - 1000, t // 100 % 720)]
        elif k == 'dif': out += ['nd 3 0 %d %d' % (p, t), 'dif r @ 395251200', 'dif i 10180000 @', 'dif r -1294967296 @']
        elif k == 'set': out += ['set ' + ['gregorian', '365_day', '360_day'][p % 3], 'get']
        else: out += ['nd 3 0 %d %d' % (p, t), 'mgp @']
    return out
def run():
    c = Check('C16', 'dates', 'DatesTrace', assumptions=['minutes and seconds of a printable time are below 60; a stamp ends with a digit below 8 (new and extended styles)',
              'with an alternative calendar the stamps given are dates of that calendar; sums stay within 32-bit hour counts'])
    q = TIER == 'quick'
    c.model_check('DatesMC', 'DatesMC.cfg', workers=3)
    c.model_check('DatesMC', 'DatesMCb.cfg', workers=3)
    if not q: c.model_check('DatesMC', 'DatesMCf.cfg', workers=4); c.model_check('DatesMC', 'DatesMCd.cfg', workers=4)
    c.build_lib()
    exe = c.compile('d_dates', ['d_dates.c'])
    r = c.rng
    gen = c.generate('DatesMC', 'DatesGen.cfg', 24 if q else 200, 62)
    c.conform(exe, [fromspec(b) for b in gen], label='calls generated from the specification')
    N = 24 if q else 300
    c.conform(exe, [script(r, 400) for _ in range(N)], label='seeded calls, all calendars')
    c.conform(exe, [walk(r, cal, y) for cal in ('gregorian', '365_day', '360_day') for y in ([1899, 1904, 1979, 2000, 2003, 2100, 2235] if q else YS)], label='month ends and leap days, every calendar')
    for e in ('year=365_day', 'debug,year=360_day', 'year=gregorian', 'year=julian', 'x'):
        c.conform(exe, [script(r, 120) for _ in range(2 if q else 10)], env={'NEWDATE_OPTIONS': e}, label='calendar from the environment: ' + e)
    return c.finish()
main(run)
