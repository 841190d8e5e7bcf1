import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def to_script(b): return [' '.join(str(x) for x in c) for c in b]
NAMES = ['A', 'a', 'AB', 'ab_c', 'B', 'key1', 'KEY10', 'pk/a', 'pk/B', 'Wind_speed', 'A_NAME_OF_27_CHARACTERS_yes', 'a_name_of_28_characters_yess']
KINDS = [(2, 4, 0), (2, 8, 0), (1, 4, 0), (1, 8, 0), (4, 4, 0), (4, 1, 0), (3, 7, 0), (3, 45, 0), (3, 1, 0), (2, 4, 3), (2, 8, 2), (1, 4, 5), (1, 8, 1), (4, 4, 4), (3, 6, 3), (3, 40, 2), (3, 12, 4)]
ODD = [(2, 2, 0), (1, 16, 0), (4, 8, 0), (3, 0, 0), (3, 521, 0), (3, 520, 0), (7, 4, 0), (2, 4, -1), (0, 4, 0), (2, 4, 700), (2, 8, 300), (3, 500, 3)]
OPTS = [0, 0, 256, 256, 512, 512, 1024, 128, 8, 2048, 256 + 2048, 128 + 256, 128 + 1024, 512 + 8, 1024 + 8 + 128, 512 + 128, 2048 + 128 + 256, 256 + 512, 512 + 1024, 1, 257, 513, 1 + 128, 8 + 256]
def value(r, kind):
    if kind == 'i': return str(r.choice([0, 1, -1, 7, 100, -2147483647, 2147483647, 65536, r.randrange(-10 ** 6, 10 ** 6)]))
    if kind == 'r': return r.choice(['1.5', '-0.25', '.5', '2.', '1.25E+2', '-3.5e-1', '0.0', '1024.0625'])
    if kind == 'l': return r.choice(['T', 'F'])
    return r.choice(['abc', 'x', 'two_words', 'AbC_', '~', 'a_longer_string_of_characters', 'semi.colon#!'])
def directive(r, declared):
    x = r.random()
    if x < .1: return 'O/%d' % r.choice([8, 256, 512, 1024, 128, 8 + 512, 2048, 256 + 128])
    nm = r.choice(NAMES[:6] + ['define_x', 'OPTIONS2', 'zed', 'messages1'])
    if x < .45:
        t, s, n = r.choice(KINDS) if r.random() < .93 else r.choice([k for k in ODD if k[2] >= 0])
        declared[nm.upper()] = (t, n); own = r.random() < .4
        return 'D/%s/%s%d/%d/%d/%d' % (nm, {1: 'R', 2: 'I', 3: 'C', 4: 'L'}.get(t, 'Q'), s, n, own, r.choice([8, 256, 512, 1024, 128, 512 + 8, 128 + 256, 256 + 512]))
    t, n = declared.get(nm.upper(), (2, 0))
    kind = {1: r.choice('rri'), 2: 'i', 3: 's', 4: 'l'}.get(t, 'i') if r.random() < .9 else r.choice('irls')
    m = max(1, n) if r.random() < .6 else r.randint(1, max(1, n) + 1)
    return 'K/%s/%s/%s' % (nm, kind, ','.join(value(r, kind) for _ in range(min(m, 40))))
def script(r, n):
    o = ['ckname 0 %d' % r.randrange(3)]; ty = {}; big = 0
    names = r.sample(NAMES, 6) + ['A', 'AB']
    def kind(w, nm, p):
        k = (w, nm.upper())
        if k in ty and r.random() < p: return ty[k]
        return r.choice(KINDS) if r.random() < .93 else r.choice(ODD)
    while len(o) < n:
        t = r.random(); w = r.choice([0, 0, 0, 0, 1, 1, 2]); nm = r.choice(names); pre = r.choice(['.', 'A', 'a', 'AB', 'k', 'KEY1', 'pk/', 'zz', 'W', 'b']); sd = r.randrange(100000)
        if t < .04: o.append('new %d' % r.choice([1, 1, 2]))
        elif t < .05: o.append('free %d' % r.choice([1, 2]))
        elif t < .37:
            k = kind(w, nm, .85); ty.setdefault((w, nm.upper()), k); nb = r.randint(1, k[2]) if k[2] > 0 and r.random() < .5 else k[2]
            sz = k[1] if k[0] != 3 or r.random() < .7 else r.choice([1, 5, 30, 60]) 
            o.append('put %d %s %d %d %d %d %d %d' % (w, nm, k[0], sz, nb, r.choice(OPTS), sd, r.random() < .5))
        elif t < .62:
            k = kind(w, nm, .9); nb = r.choice([k[2], k[2], 1, 2, 5, 0]) if k[2] > 0 else k[2] if r.random() < .9 else 1
            o.append('get %d %s %d %d %d %d' % (w, nm, k[0], k[1] if k[0] != 3 else r.choice([k[1], 40, 80, 600, 3, 8]), nb, r.random() < .5))
        elif t < .7: o.append('meta %d %s' % (w, nm))
        elif t < .75: o.append('keys %d %s %d %d' % (w, pre, r.choice([20, 20, 3, 1, 0]), r.choice([27, 32, 40, 5])))
        elif t < .78: o.append('check %d %s %d' % (w, pre, r.choice([-1, 64, 2, 256, 512, 1024, 32, 8, 4, 128, 4096, 64 + 512, 2048])))
        elif t < .82: o.append('lock %d %s %d' % (w, pre, r.random() < .5))
        elif t < .86: o.append('ckpt')
        elif t < .9: o.append('restart %d' % r.randrange(4))
        elif t < .91: o.append('reload')
        elif t < .93: o.append('ckname %d %d' % (r.randrange(2), r.randrange(3)))
        else:
            big += 1; mode = r.choice([1, 1, 1, 2, 2, 0]); d = {}; ds = (['D/q%d/C20/0/0/0' % big, 'K/q%d/s/semi;colon#!' % big] if mode and r.random() < .2 else []) + [directive(r, d) for _ in range(r.randint(1, 7))]
            if r.random() < .15: ds.append('X/%d' % r.randrange(7) if r.random() < .7 else r.choice(['O/0', 'O/-1']))
            o.append('read %d %s %d %d %d %s' % (w, r.choice(['.', '.', 'pk/', 'P_']), mode, r.random() < .95, sd, ' '.join(ds)))
    o.append('fds')
    return o
def run():
    c = Check('C09', 'wb', 'WBTrace', assumptions=['one thread', 'names without control characters, directive files of ASCII text ending with a new line', 'directives after a syntax error on the same file are not examined'])
    q = TIER == 'quick'
    c.model_check('WBMC', 'WBMC.cfg' if q else 'WBMC4.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_wb', ['d_wb.c'])
    gen = c.generate('WBMC', 'WBGen.cfg', 150 if q else 2500, 62)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    c.conform(exe, [script(c.rng, 80) for _ in range(250 if q else 4000)], label='seeded random histories')
    return c.finish()
main(run)
