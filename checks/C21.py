import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def S(b): return ' '.join(map(str, [len(b)] + list(b)))
def line(a): return ' '.join(['parse', a['kind'], str(a['npos']), str(len(a['keys']))] + [S(x) for k in ('keys', 'def', 'val') for x in a[k]] + [str(len(a['args']))] + [S(x) for x in a['args']])
def to_script(b): return [line(a) for a in b]
def B(s): return [ord(c) for c in s]
def rnd(r):
    kind = r.choice('ccf')
    names = r.sample(['k', 'kk', 'in', 'OUT', 'x1', 'nom', 'Z', 'date'], r.randrange(1, 5))
    if r.random() < .5: names.insert(r.randrange(len(names) + 1), '-')
    keys = []
    for n in names:
        suf = r.choice(['', '.', '_', '.', ':' if kind == 'f' else ''])
        if n == '-': suf = r.choice(['', '', '.', '_'])
        keys += [n + suf] * r.choice([1, 1, 2, 3])
    keys = keys[:12]
    w = lambda: ''.join(r.choice('abXY019.') for _ in range(r.randrange(0, 6)))
    if r.random() < .03: w = lambda: 'x' * r.choice([250, 255, 256, 300, 600])
    v1 = lambda: ''.join(r.choice('abXY019.') for _ in range(r.randrange(1, 6)))
    def val():
        m = r.random()
        if m < .35: return w()
        if m < .6: return ':'.join(v1() for _ in range(r.randrange(2, 6)))
        if m < .75: return '=-' + ':'.join(r.choice(['', '-', '=']) + w() for _ in range(r.randrange(1, 4)))
        if m < .85: return ':'.join(w() for _ in range(r.randrange(1, 5)))
        return r.choice(['=', ':', '::', '=:', 'a=b', 'a:', ':a', '=='])
    nm = [k.rstrip('._:') for k in keys if k.rstrip('._:') != '-'] or ['k']
    args = []
    for _ in range(r.randrange(0, 3)): args.append(w())
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.choice(nm + ['bad', 'kkk', 'i'] if r.random() < .4 else nm)
        k = r.choice([k, k.upper(), k.lower(), k.capitalize()])
        args.append('-' + k + ('=' + val() if r.random() < .3 else ''))
        for _ in range(r.choice([0, 1, 1, 2])): args.append(val())
    if r.random() < .3: args += ['--'] + [r.choice([w(), '-9', '--', '-k']) for _ in range(r.randrange(0, 4))]
    if r.random() < .02: args = ['-h']
    if kind == 'f': args = ['' if a.startswith('-h') and len(args) > 1 else a for a in args]
    d = lambda: B(''.join(r.choice('aBc12') for _ in range(r.randrange(0, 5))))
    return dict(kind=kind, npos=r.choice([0, 0, 1, 5, -111, -1] + ([111] if kind == 'f' else [])), keys=[B(k) for k in keys], **{'def': [d() for _ in keys], 'val': [d() for _ in keys]}, args=[B(a) for a in args])
def run():
    c = Check('C21', 'ccard', 'CcardTrace', assumptions=['same spelling for every key of a list', 'key names not empty and without blanks', 'at most 100 keys', 'a -- argument has no other character', 'CCARD_ARGS not used'])
    c.model_check('CcardMC', 'CcardMC.cfg' if TIER == 'quick' else 'CcardMC4.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_ccard', ['d_ccard.c'])
    q = TIER == 'quick'
    gen = c.generate('CcardMC', 'CcardGen.cfg', 100 if q else 1500, 20)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (80, 25) if q else (1200, 50)
    c.conform(exe, [[line(rnd(c.rng)) for _ in range(m)] for _ in range(n)], label='seeded random command lines')
    return c.finish()
main(run)
