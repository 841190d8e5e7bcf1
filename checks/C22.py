import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
J = lambda b: ' '.join(map(str, b))
def st(v, b): return 'setenv %d -1' % v if b == [-1] else 'setenv %d %d %s' % (v, len(b), J(b))
def to_script(b):
    out = []
    for a in b:
        out.append('read %d' % a['v'] if a['op'] == 'read' else st(a['v'], a['str']))
    return out + ['read 1', 'read 2', 'read 1']
def text(r):
    t = text0(r)
    if r.random() < .4: t = ''.join(r.choice(' \t\t\n\v') if c == ' ' and r.random() < .5 else c for c in t)
    return t
def text0(r):
    def word(k=6): return ''.join(r.choice('abcXYZ019_./-') for _ in range(r.randrange(1, k)))
    m = r.random()
    if m < .15:
        t = ''.join(r.choice('ab =;,()[]{}"\' 1') for _ in range(r.randrange(0, 25)))
        return ';'.join('='.join(p.split('=')[:2]) for p in t.split(';'))
    os_ = []
    for _ in range(r.choice([1, 2, 3, 5, 40] if m > .9 else [1, 2, 3, 4])):
        b = lambda: ' ' * r.choice([0, 0, 0, 1, 2])
        q = r.choice(['', '', '', '()', '[]', '{}', '""', "''"])
        vs = [word(200 if m > .97 else 8) for _ in range(r.choice([1, 1, 2, 3, 8]))]
        j = r.choice([',', ',', ', ', ' , ', ' ', ',,', ',  ', ' ,  '])
        v = j.join(vs)
        if q: v = q[0] + b() + v + b() + q[1]
        if r.random() < .08: v = r.choice(['', '(', ')', '"', v + ')', v + ']', '(' + v, '()', ',', "''", '[ ]', v + '(', '}' + v])
        os_.append(b() + word() + b() + r.choice(['=', '=', '=', '']) + b() + v + b())
    return r.choice([';', ';', '; ', ';;']).join(os_) + r.choice(['', '', ';'])
def rnd_script(r, n):
    s = []
    for _ in range(n):
        v = r.choice([1, 2]); o = r.random()
        if o < .45: s.append(st(v, [ord(c) for c in text(r)]))
        elif o < .5: s.append('setenv %d -1' % v)
        else: s.append('read %d' % v)
    return s + ['read 1', 'read 2', 'read 1']
def run():
    c = Check('C22', 'envopt', 'EnvOptTrace', assumptions=['at most one = sign per option', 'ASCII text'])
    c.model_check('EnvOptMC', 'EnvOptMC.cfg')
    c.model_check('EnvOptMC', 'EnvOptMCa.cfg' if TIER == 'quick' else 'EnvOptMC3.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_envopt', ['d_envopt.c'])
    q = TIER == 'quick'
    gen = c.generate('EnvOptMC', 'EnvOptGen.cfg', 150 if q else 2000, 40)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (100, 50) if q else (1500, 80)
    c.conform(exe, [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    return c.finish()
main(run)
