import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def to_script(b): return [' '.join(str(x) for x in c) for c in b]
KL = [[(8, i % 3 == 2) for i in range(9)], [(32, 0)], [(2, 0), (30, 0), (16, 1)], [(32, 1), (5, 0), (27, 0), (16, 0), (16, 1)], [(1, 0), (1, 0), (1, 0), (29, 0), (32, 0)],
      [(16, 0)] * 3 + [(8, 0), (8, 0), (7, 0)], [(4, 0)] * 17, [(32, 0), (32, 1)] * 3, [(1, 0)] * 32, [(31, 0), (1, 0), (20, 0), (12, 1), (9, 0)], [(2, 0)] * 33]
EL = [(0, 32), (3, 8), (5, 8), (7, 64), (8, 32), (6, 16), (9, 32), (0, 20), (1, 16), (3, 16)] + [(t, n) for t in (2, 4) for n in (2, 3, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32)] + [(2, 1)]
def script(r, n, many=False):
    p = r.choice(KL); a = r.choice(KL + [[]]); sh = lambda k: '%d %s' % (len(k), ' '.join('%d %d' % (x, y) for x, y in k))
    o = ['new %s %s' % (sh(p), sh(a))]
    kk = lambda n, none=.1, top=11: ' '.join(str(-1 if r.random() < none else r.randint(0, top)) for _ in range(n))
    cap = {}; nrec = 1
    def ini():
        k = r.randrange(3); cap[k] = r.choice([2, 4, 6, 8, 12, 20, 30]); o.append('ini %d %d %d %s %s' % (k, cap[k], r.choice([1, 2, 9, 64, 111, 120, 125, 0, 127, 255]) if r.random() < .3 else r.randint(1, 9), kk(len(p)), kk(len(a))))
    ini(); ini()
    while len(o) < n:
        t = r.random(); k = r.choice(list(cap)); e = r.choice(EL); ne = r.choice([1, 1, 2, 3, 4, 5, 8, 9, 13, 20]) if r.random() < .95 else 0
        pos = r.choice([0, 64, 128, 192, 256, 320, 384, -64, -64, -64, -65, 448, 512]) if r.random() < .93 else r.choice([32, 100, 64 * 200])
        if t < .04: ini()
        elif t < .3: o.append('add %d %d %d %d %d' % (k, ne, e[1], e[0], r.randrange(10000)))
        elif t < .42: o.append('ins %d %d %d %d %d %d' % (k, pos, ne, e[1], e[0], r.randrange(10000)))
        elif t < .5: o.append('rep %d %d %d %d %d %d' % (k, pos, ne, e[1], e[0], r.randrange(10000)))
        elif t < .57: o.append('cut %d %d %d %d %d' % (k, pos, ne, e[1], e[0]))
        elif t < .65: o.append('xtr %d %d %d %d %d' % (k, pos, ne, e[1], e[0]))
        elif t < .75: o.append('put %d 0 0' % k); nrec += 1
        elif t < .79: o.append('put %d %d %d' % (k, r.randint(1, nrec), r.random() < .3)); nrec += 1
        elif t < .81: o.append('del %d' % r.randint(1, nrec))
        elif t < .86: k = r.randrange(3); cap[k] = 1; o.append('get %d %d %d' % (k, r.choice([0, 2, 4, 8, 14, 30]), r.randint(1, nrec)))
        elif t < .88: o.append('prm %d' % r.randint(1, nrec))
        elif t < .93: o.append('loc %d 1 %s' % (r.choice([0, 0, -1, r.randint(1, nrec)]), kk(len(p), r.choice([.5, .9, .97, 1]), 5)))
        elif t < .955: o.append('loc -1 0')
        elif t < .965: o.append('reopen')
        elif t < .98: o.append('upd %d %d %s %s' % (k, r.choice([-1, 5, 0, 127]), kk(len(p), .5), kk(len(a), .5)))
        elif t < .99: o.append('sta')
        else: o.append('hdr %d' % k)
        if many and len(o) in (12, 30): o.append('putn %d %d' % (k, r.choice([250, 256, 257]))); nrec += 250
    return o
def run():
    c = Check('C06', 'xdf', 'XdfTrace', assumptions=['keys one after the other, none across a 32-bit word', 'record types 1 to 125', 'values of packed elements within their width', 'one random file per history'])
    c.model_check('XdfMC', 'XdfMC.cfg' if TIER == 'quick' else 'XdfMC6.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_xdf', ['d_xdf.c'])
    q = TIER == 'quick'
    gen = c.generate('XdfMC', 'XdfGen.cfg', 150 if q else 2000, 62)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [script(c.rng, 70) for _ in range(200 if q else 3000)] + [script(c.rng, 60, True) for _ in range(6 if q else 60)], label='seeded random histories')
    return c.finish()
main(run)
