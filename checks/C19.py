import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
NW = 8
def val(bits): return int(''.join(map(str, bits)), 2)
def to_script(b):
    out = ['set 1' + ' 0' * NW, 'set 2' + ' 0' * NW]
    for a in b:
        if a['op'] == 'swap': out.append('swap %d %d' % (a['sl'], a['n']))
        else:
            out.append('%s %d %d %s %s' % (a['op'], a['sl'], len(a['ws']), ' '.join(map(str, a['ws'])), ' '.join(str(val(v)) for v in a.get('vs', []))))
    return out
def eff(w): return max(0, min(32, w))
def widths(r):
    ws = []; t = 0
    mode = r.choice(['any', 'any', 'word', 'small', 'fill'])
    for _ in range(r.randrange(0, 40)):
        w = r.choice([32, 32, 16, 0, 64, 8]) if mode == 'word' else r.randrange(0, 6) if mode == 'small' else r.choice([r.randrange(-2, 36), 32, 31, 1, 0])
        if t + eff(w) > 32 * NW: break
        ws.append(w); t += eff(w)
    if mode == 'fill':
        while t < 32 * NW:
            w = min(32 * NW - t, r.randrange(1, 33)); ws.append(w); t += w
        ws += [0] * r.randrange(0, 3)
    return ws[:60]
def rnd_script(r, n):
    out = []
    for s in (1, 2): out.append('set %d %s' % (s, ' '.join(str(r.getrandbits(32)) for _ in range(NW))))
    lastw = [32]
    for _ in range(n):
        s = r.choice([1, 2]); o = r.random()
        if o < .1: out.append('set %d %s' % (s, ' '.join(str(r.choice([r.getrandbits(32), 0, 0xffffffff, 0x80000000, 1])) for _ in range(NW))))
        elif o < .2: out.append('swap %d %d' % (s, r.choice([0, 1, NW, r.randrange(NW + 1), -1])))
        elif o < .6:
            lastw = widths(r)
            out.append('put %d %d %s %s' % (s, len(lastw), ' '.join(map(str, lastw)), ' '.join(str(r.choice([r.getrandbits(32), 0xffffffff, 0])) for _ in lastw)))
        else:
            w = lastw if r.random() < .5 else widths(r)
            out.append('get %d %d %s' % (s, len(w), ' '.join(map(str, w))))
    return out
def run():
    c = Check('C19', 'bits', 'BitsTrace', assumptions=['little-endian host; arrays of 8 words, at most 60 slices per call'])
    c.model_check('BitsMC', 'BitsMC.cfg')
    if TIER == 'thorough': c.model_check('BitsMC', 'BitsMC3.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_bits', ['d_bits.c'])
    q = TIER == 'quick'
    gen = c.generate('BitsMC', 'BitsGen.cfg', 60 if q else 600, 11)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (60, 40) if q else (800, 80)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    return c.finish()
main(run)
