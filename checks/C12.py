import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *

def line(r, a):
    o = a['op']
    if o in ('msg', 'toall'): return '%s %d %d %s' % (o, a['v'], r.choice([0, 0, 1, 7]), a['m'])
    if o == 'verb': return 'verb %d %d' % (a['v'], r.randrange(2))
    if o == 'redirect': return 'redirect %d %d' % (a['v'], a['u'])
    if 'v' in a: return '%s %d' % (o, a['v'])
    return o

def to_script(r, b): return [line(r, a) for a in b]

def rnd_script(r, n):
    s = []; full = r.random() < .15
    for _ in range(n):
        o = r.random(); lev = r.choice([-1, 0, 1, 2, 3, 3, 4, 5, 5, 6, 6, 7, 7, 8, 9])
        txt = r.choice(['a', 'b', 'two_words', '', 'x' * r.randrange(1, 200), '_lead', 'm%d' % r.randrange(1000), 'Q' * r.choice([1, 900, 1023, 1024])])
        if full and o < .9: s.append('msg %d 0 %s' % (r.choice([6, 7, 8]), 'm%d' % r.randrange(5))); continue
        if o < .45: s.append(line(r, dict(op='msg', v=lev, m=txt)))
        elif o < .52: s.append(line(r, dict(op='toall', v=lev, m=txt)))
        elif o < .57: s.append(s[-1] if s else 'flush')
        elif o < .62: s.append(line(r, dict(op='verb', v=lev)))
        elif o < .65: s.append('%s %d' % (r.choice(['p0', 'can']), r.choice([0, 0, 1])))
        elif o < .67: s.append('p0 %d' % r.choice([0, 3])); 
        elif o < .77: s.append('redirect %d %d' % (r.choice([0, 6, 0, 6, 1, 2, 3, 4, 5, 7, 8]), r.randrange(1, 7)))
        elif o < .82: s.append('bverb %d' % lev)
        elif o < .88: s.append('flush')
        elif o < .90: s.append('breset')
        elif o < .95: s.append('unit %d' % lev)
        else: s.append(r.choice(['getverb', 'getbverb', 'info']))
    return s + ['can 1', 'flush', 'info'] + ['unit %d' % v for v in range(9)]

def run():
    c = Check('C12', 'msg', 'MsgTrace', assumptions=['one thread; texts of at most 1024 characters; levels redirected are among 1..8'])
    c.model_check('MsgMC', 'MsgMC.cfg' if TIER == 'quick' else 'MsgMCb.cfg')
    c.build_lib()
    exe = c.compile('d_msg', ['d_msg_f.F90', 'd_msg.c'])
    q = TIER == 'quick'
    c.conform(exe, [to_script(c.rng, b) for b in c.generate('MsgMC', 'MsgGen.cfg', 80 if q else 800, 42)], label='behaviours generated from the specification')
    n, m = (100, 80) if q else (1000, 120)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)] + [rnd_script(c.rng, 700) for _ in range(4)], label='seeded random histories')
    return c.finish()
main(run)
