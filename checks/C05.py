import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def to_script(b): return [' '.join(str(x) for x in c) for c in b]
SH = [(1, 1, 1), (2, 1, 1), (7, 1, 1), (5, 4, 1), (3, 3, 3), (16, 16, 1), (17, 20, 1), (20, 17, 2), (40, 23, 1), (33, 31, 1), (64, 8, 1), (1, 50, 1), (30, 20, 1), (19, 16, 2), (21, 1, 13), (45, 45, 1)]
def real(dt): return dt == 801 or dt % 64 in (1, 5, 6)
def w(r):
    mf = r.random() < .35
    dt = r.choice([1, 2, 4, 5, 6, 801, 129, 130, 132, 133, 134])
    lo_nb = 10 if dt % 64 == 5 else 1
    nb = r.randint(lo_nb, 16) if r.random() < .6 else r.randint(lo_nb, 32)
    if dt == 5 and r.random() < .3: nb = 64
    if dt == 801: nb = min(nb, 30)
    if mf: nb = min(nb, 30)
    if mf and dt in (5, 133): nb = 32
    if mf and nb < 2: nb = 2
    if real(dt): es = 8 if dt == 801 or (dt in (1, 129) and nb <= 30 and r.random() < .25) else 4
    else: es = r.choice([e for e in (1, 2, 4, 4) if nb <= 8 * e])
    m = 1 if mf else 0
    if real(dt): top = 16000 if mf else 1000000
    elif dt % 64 == 4: top = 2**(min(nb, 31) - 1) - 1 - m
    else: top = min(2**nb - 1, 2147483646) - m
    if top < 0: top = 0
    hi = top if r.random() < .4 else r.choice([x for x in (0, 1, 2, 5, 100, 255, 4000, 65535, 300000) if x <= top])
    if real(dt): lo = r.choice([0, -hi, hi // 2, hi, hi - 1, -(hi // 3), -top]) ; hi2 = r.choice([hi, hi, hi, -1]); lo, hi = min(lo, hi2), max(lo, hi2)
    elif dt % 64 == 4: lo = r.choice([0, -hi, hi // 2, hi, -hi - 1])
    else: lo = r.choice([0, hi // 2, hi])
    sc = r.choice([0, 0, -10, 5, -30, 20]) if real(dt) else 0
    p = r.randrange(13)
    if es == 4 and dt in (129, 130, 134) and not mf and r.random() < .3:
        nb, p = r.choice([14, 15, 16, 16]), r.choice([2, 3, 9, 10, 11, 12])
        if dt == 130: lo, hi = 0, 2**nb - 1
    return 'w %d %d %d %d %d %d %d %d %d %d %d %d' % (dt, nb, es, *r.choice(SH), p, r.randrange(1, 10000), lo, hi, sc, r.choice([0, 3, 50, 300, 990, 1000]) if mf else -1)
def x(r):
    dt = r.choice([0, 3, 7, 8, 128, 131, 135])
    nb = r.choice([1, 8, 12, 16, 32, 64]) if dt % 64 == 0 else r.choice([32, 64]) if dt == 8 else 8
    return 'x %d %d %d %d %d %d %d %d' % (dt, nb, 1 if dt % 64 in (3, 7) else 8 if nb == 64 else 4, *r.choice(SH), r.randrange(1, 10000), r.randrange(3))
def script(r, n):
    o = []
    while len(o) < n:
        t = r.random()
        if t < .4:
            o.append(w(r)); a = o[-1].split(); dt, nb = int(a[1]), int(a[2])
            if r.random() < .8: o.append('r 0 0')
            if not real(dt) and r.random() < .25: o.append('r 0 %d' % r.choice([e for e in (1, 2, 4) if nb <= 8 * e]))
            if dt in (1, 129) and nb <= 30 and r.random() < .2: o.append('r 0 %d' % r.choice([4, 8]))
        elif t < .47: o.append(x(r)); o.append('r 0 0')
        elif t < .97: o.append('r %d 0' % r.randrange(12))
        else: o.append('reopen')
    return o
def run():
    c = Check('C05', 'pack', 'PackTrace', assumptions=['field values the type can hold', 'magnitudes up to 2^20 units of a power of two (real types)', 'one unit, local file'])
    c.model_check('PackMC', 'PackMC.cfg' if TIER == 'quick' else 'PackMC4.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_pack', ['d_pack.c'])
    q = TIER == 'quick'
    gen = c.generate('PackMC', 'PackGen.cfg', 100 if q else 1500, 42)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [script(c.rng, 40) for _ in range(250 if q else 3000)], label='seeded random fields of every type')
    return c.finish()
main(run)
