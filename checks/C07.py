import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def to_script(b): return [' '.join(str(x) for x in c) for c in b]
STN = ['71826', 'CYUL', 'ship-0042', 'a1b2c3d4e', '___x', 'LONGNAMESTATION', '>>DALLAS', '_', 'abc']
DATES = [950315, 991231, 100, 19950315, 20240229, 20991231, 21000101, 19000101, 20000630, 19991231, 20450607]
def hdr(r, upd=False):
    f = [(r.choice([0, 1200, 2359, 630, 5]), ), (r.randrange(1 << 24),), (r.choice([1, 32, 128, 254, r.randrange(256)]),), (r.randrange(65535),), (r.randrange(65535),), (r.randrange(4096),), (r.randrange(4096),), (r.randrange(8192),),
         (r.randrange(2048),), (r.choice(DATES),), (r.randrange(65536),), (r.randrange(256),)]
    v = [x[0] for x in f]
    if r.random() < .4: v[2] = r.choice([32, 33]); v[3] = r.choice([100, 200]); v[4] = r.choice([5, 6])
    if upd: v = [-1 if r.random() < .6 else x for x in v]; s = r.choice(STN + ['*********', '**1**']) 
    else: s = r.choice(STN)
    if upd and s == '**1**': s = '**1******'
    return s + ' ' + ' '.join(map(str, v))
def block(r, nbm=32):
    t = r.choice([2, 2, 2, 2, 4, 4, 0, 3, 5, 6, 7, 8, 9])
    nele = r.choice([1, 1, 2, 3, 3, 4, 5, 6, 7, 8, 11]) if r.random() < .96 else r.choice([126, 127, 128, 130]); nval = r.choice([1, 1, 2, 3, 7]) if r.random() < .96 else r.choice([255, 256, 257]); nt = r.choice([1, 1, 1, 2, 5]) if r.random() < .97 else r.choice([255, 256, 300])
    if nele * nval * nt > 900: nval = nt = 1
    if t in (7, 8) and r.random() < .9: nele = 2 * ((nele + 1) // 2)
    if t == 9 and r.random() < .9: nele = 4 * ((nele + 3) // 4)
    nb = 8 if t in (3, 5) and r.random() < .95 else r.choice([1, 2, 5, 7, 8, 9, 12, 16, 17, 20, 24, 31, 32, 3])
    if t == 0: nb = r.choice([32, 32, 16, 8])
    fam = r.choice([0, 1, 6, 63, 64, 70, 128, 4095, r.randrange(4096)]); desc = r.choice([0] * 8 + [1, 2, fam // 64])
    return '%d %d %d %d %d %d %d %d %d %d %d' % (nele, nval, nt, fam, desc, r.choice([0, 16, 2048, 106, 32767, r.randrange(32768)]), nb, t, r.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9]), r.randrange(10000), r.random() < .1)
def script(r, n):
    o = ['create']; nrec = 1; nb = {}
    def ini(k): nb[k] = 0; o.append('ini %d %d %s' % (k, r.choice([12, 30, 60, 200, 400, 2000, 2000, 5000]), hdr(r)))
    ini(0); ini(1)
    while len(o) < n:
        t = r.random(); k = r.choice(list(nb)); i = r.randint(1, max(1, nb[k])) if r.random() < .95 else r.choice([0, -1, nb[k] + 1, 99])
        fam = r.choice([-1, 0, 1, 6, 63, 64, 70, 128, 4095]); ty = r.choice([(-1, -1, -1), (0, 0, 0), (0, 1, 0), (1, 0, 0), (0, 6, 10), (15, 127, 15), (0, -1, -1), (-1, 0, -1), (-1, -1, 0), (1, -1, 0), (0, 0, -1)])
        if t < .03: ini(r.randrange(3))
        elif t < .3: o.append('add %d %s' % (k, block(r))); nb[k] += 1
        elif t < .38: o.append('delb %d %d' % (k, i)); nb[k] = max(0, nb[k] - 1)
        elif t < .46: o.append('rep %d %d %d %d' % (k, i, r.randrange(10), r.randrange(10000)))
        elif t < .52: o.append('xtr %d %d' % (k, i))
        elif t < .58: o.append('all %d' % k)
        elif t < .65: o.append('loc %d %d %d %d %d %d %d %d' % (k, fam, r.choice([0, 0, 0, -1, 1, 2]), *ty, r.choice([0, 0, 1, 2]), r.random() < .5))
        elif t < .67: o.append('prml %d %d %d' % (k, r.choice([0, 0, 1, 2]), r.choice([1, 3, 20])))
        elif t < .7: o.append(r.choice(['len', 'hdr']) + ' %d' % k)
        elif t < .73: o.append('upd %d %s' % (k, hdr(r, True)))
        elif t < .79: o.append('put %d 0' % k); nrec += 1
        elif t < .82: o.append('put %d %d' % (k, r.randint(1, nrec))); nrec += 1
        elif t < .87: k = r.randrange(3); nb[k] = 3; o.append('get %d %d %d' % (k, r.choice([-1, -1, -1, 12, 60, 500, 3000]), r.randint(1, nrec)))
        elif t < .89: o.append('fdel %d' % r.randint(1, nrec))
        elif t < .94: o.append('floc %d %s %d %d %d %d %d' % (r.choice([0, 0, 1, 2, r.randint(0, nrec)]), r.choice(STN + ['*********'] * 9 + ['7********', '*****6***']), r.choice([-1, -1, 1200, 1230, 630]), r.choice([-1, -1, 32, 33]), r.choice([-1, -1, 100, 200]), r.choice([-1, -1, 5, 6]), r.choice([-1, -1, -1] + DATES)))
        elif t < .96: o.append('prm %d' % r.randint(1, nrec))
        elif t < .97: o.append('counts')
        elif t < .98: o.append('reopen'); o.append('counts')
        elif t < .99: o.append('names ' + ' '.join('%d' % (r.randrange(4) * 100000 + r.randrange(64) * 1000 + r.randrange(256)) for _ in range(6)))
        else: o.append('btyp %d %d %d' % (r.randrange(16), r.randrange(128), r.randrange(16)))
    return o
def run():
    c = Check('C07', 'burp', 'BurpTrace', assumptions=['header values within the width of their keys', 'no supplementary keys', 'blocks of at least one value, dimensions up to 65535', 'random files'])
    c.model_check('BurpMC', 'BurpMC.cfg' if TIER == 'quick' else 'BurpMC6.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_burp', ['d_burp.c'])
    q = TIER == 'quick'
    gen = c.generate('BurpMC', 'BurpGen.cfg', 120 if q else 2000, 62)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [script(c.rng, 70) for _ in range(200 if q else 3000)], label='seeded random histories')
    return c.finish()
main(run)
