import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def to_script(b): return [' '.join(str(x) for x in c) for c in b]
def script(r, n, slow=False):
    names = r.sample(['a', 'b', 'wind', 'temp-field', 'x' * 60], 3); o = []; ch = []
    for k in names[:r.randint(1, 3)]:
        for m in r.choice(['WR', 'RW', 'WR', 'W', 'R']): o.append('init %s %d' % (k, r.choice([0, 0, 1, 5]))); ch.append([k, m])
    for i, c in enumerate(ch):
        if r.random() < .95: o.append('open %d %s' % (i + 1, c[1]))
    q = {k: [] for k in names}; opened = len(ch)
    while len(o) < n:
        i = r.randrange(len(ch)); k, m = ch[i]; t = r.random(); ty = r.choice('IRDC'); ne = r.choice([1, 1, 2, 3, 5, 17, 200, 3000]) if r.random() < .97 else r.choice([0, -1]); lt = r.choice([1, 4, 10, 30, ne if ne > 0 else 1])
        if t < .75 and m == 'W':
            f = r.choice([1, 2, 3, 4, 5, 6, 8, 9]) if r.random() < .12 else 0
            o.append('w %d %s %d %d %d %d' % (i + 1, ty, ne, r.randrange(10000), f, lt))
            if ne > 0 and f in (0, 4, 5): q[k].append((ty, min(ne, lt) if ty == 'C' else ne))
        elif t < .75:
            if q[k] and r.random() < .85:
                ty, ne = q[k].pop(0); f = 5 if r.random() < .3 and ne < 300 else 0
                if r.random() < .1: q[k].insert(0, (ty, ne)); f = r.choice([1, 2, 3, 4, 6, 8])
                o.append('r %d %s %d %d %d' % (i + 1, ty, ne, f, ne + r.choice([0, 0, 1, 9])))
            else: o.append('r %d %s %d %d %d' % (i + 1, ty, ne, 0, lt))
        elif t < .79: o.append('clos %d' % (i + 1))
        elif t < .8: o.append('term')
        elif t < .82: o.append(r.choice(['r', 'w']) + ' %d %s' % (i + 1, r.choice(['X 3 0 4', 'I 0 0 0', 'L 1 0 0'])))
        elif t < .84: o.append(('w %d I 2 1 0 1' if r.random() < .5 else 'r %d I 2 0 1') % r.choice([0, -1, 24, len(ch) + 1, i + 1, i + 1]))
        elif t < .86 and opened < 22: o.append('down %d %s' % (i + 1, m)); opened += 0
        elif opened < 22: o.append('%s %d %s' % ('openlate' if r.random() < .3 else 'open', i + 1, m)); opened += 1
        else: o.append('timeout %d 30' % (i + 1))
        if slow and len(o) == 20: o.append('timeout %d 1' % (i + 1)); o.append(('w %d I 2 5 7 1' if m == 'W' else 'r %d I 2 7 1') % (i + 1))
    return o
def many(r): return ['init n%d 0' % i for i in range(26)] + ['open %d W' % r.randint(1, 23), 'open 24 W', 'open 0 R', 'term']
def run():
    c = Check('C24', 'mgi', 'MgiTrace', assumptions=['a server answering by the protocol of gossip_sock.c', 'SIGPIPE ignored by the program', 'at most 24 connections per process', 'message type is not part of the protocol: same byte length is accepted'])
    c.model_check('MgiMC', 'MgiMC.cfg' if TIER == 'quick' else 'MgiMC6.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_mgi', ['d_mgi.c'], libs=['-Wl,--wrap=sleep'])
    q = TIER == 'quick'
    gen = c.generate('MgiMC', 'MgiGen.cfg', 60 if q else 800, 47)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [script(c.rng, 50, i % 8 == 0) for i in range(120 if q else 1500)] + [many(c.rng) for _ in range(2)], label='seeded random histories of several channels')
    return c.finish()
main(run)
