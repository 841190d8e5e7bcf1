import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
def P(a): return '%d %d %s' % (a['abs'], len(a['c']), ' '.join(a['c']))
def S(b): return ' '.join(map(str, [len(b)] + list(b)))
def line(a):
    o = a['op']
    if o == 'ctype': return 'ctype %d' % a['c']
    if o in ('basename', 'dirname', 'getenv', 'getenvc', 'putenv'): return '%s %s %d' % (o, S(a['txt']), a.get('len', 0))
    if o == 'getcwd': return 'getcwd %d' % a['len']
    if o == 'glob': return 'glob %s %d %d %s' % (P(a), a['max'], a['len'], a['prefix'])
    if o == 'rename': return 'rename %s %s' % (P(a), P(a['to']))
    if o == 'symlink': return 'symlink %s %d %s' % (P(a), len(a['t']), ' '.join(a['t']))
    if o == 'mkfile': return 'mkfile %s %d %d' % (P(a), a['m'], a['s'])
    if o == 'mkfifo': return 'mkfifo %s %d' % (P(a), a['m'])
    if o in ('realpath', 'readlink'): return '%s %s %d' % (o, P(a), a['len'])
    return '%s %s' % (o, P(a))
SETUP = [dict(op='mkdir', abs=True, c=['p']), dict(op='mkdir', abs=True, c=['p', 'q'])]
def B(s): return [ord(c) for c in s]
def rnd(r, n):
    N = ['a', 'ab', 'b', 'ba', 'c1']
    def path(destr):
        pre = r.choice([[], [], [], ['a'], ['b'], ['p'], ['p', 'q'], ['a', 'b'], ['a', 'a', 'ab'], ['p', '..'], ['.', 'a'], ['..'], ['p', 'q', '..', '..', 'b']])
        last = [r.choice(N)] if destr or r.random() < .85 else r.choice([['.'], ['p'], ['p', 'q'], ['..']])
        return dict(abs=r.random() < .25, c=pre + last)
    out = list(SETUP)
    for _ in range(n):
        m = r.random(); d = path(True); q = path(False)
        if m < .12: a = dict(d, op='mkdir')
        elif m < .17: a = dict(dict(abs=d['abs'], c=d['c'] + [r.choice(N) for _ in range(r.randrange(0, 3))]), op='mkdir_r')
        elif m < .27: a = dict(d, op='mkfile', m=r.choice([0o644, 0o600, 0o444, 0o755, 0o200, 0o100, 0, 0o077, 0o011]), s=r.choice([0, 1, 17, 100, 5000]))
        elif m < .29: a = dict(d, op='mkfifo', m=0o644)
        elif m < .37: a = dict(d, op='symlink', t=r.choice([[r.choice(N)], [r.choice(N), r.choice(N)], ['b'], ['p', 'q']]))
        elif m < .47: a = dict(d, op=r.choice(['rmdir', 'unlink', 'remove']))
        elif m < .58: a = dict(d, op='rename', to=path(True))
        elif m < .61: a = dict(op='chdir', **r.choice([dict(abs=True, c=[]), dict(abs=True, c=['p']), dict(abs=True, c=['p', 'q']), dict(abs=False, c=['zz'])]))
        elif m < .82: a = dict(q, op=r.choice(['exist', 'isreadok', 'iswriteok', 'isexecok', 'isdir', 'isfile', 'isfifo', 'islink', 'size', 'mtime', 'stat']))
        elif m < .90: a = dict(q, op=r.choice(['getcwd', 'realpath', 'readlink']), len=r.choice([1, 2, 3, 4, 5, 60, 300, 1024]))
        elif m < .94: a = dict(op='glob', abs=False, c=r.choice([[], [], ['p'], ['a'], ['p', 'q'], ['b'], ['zz']]), prefix=r.choice(['', 'a', 'ab', 'b', 'zz']), max=r.choice([1, 2, 3, 50]), len=r.choice([1, 2, 4, 80]))
        elif m < .97: a = dict(op=r.choice(['basename', 'dirname']), txt=B(r.choice(['', '/', 'x/', '/x/', 'a/b/', '/abc/d.e/']) + ''.join(r.choice('xyz.') for _ in range(r.choice([1, 2, 5]))) + ' ' * r.choice([0, 0, 3])), len=r.choice([1, 2, 5, 6, 40]))
        elif m < .985: a = dict(op='putenv', txt=B(r.choice(['VPA', 'VPB', 'VPAB']) + r.choice(['=', '=', '=', '']) + ''.join(r.choice('xy =') for _ in range(r.choice([0, 1, 5])))  + ' ' * r.choice([0, 2])))
        else: a = dict(op=r.choice(['getenv', 'getenvc']), txt=B(r.choice(['VPA', 'VPB', 'VPAB', 'VP', 'VPA']) + ' ' * r.choice([0, 0, 4])), len=r.choice([1, 3, 5, 9]))
        if a['op'] == 'putenv' and '=' not in ''.join(map(chr, a['txt'])): a['txt'] = [x for x in a['txt'] if x in B('VPAB')]
        if a['op'] == 'basename' and r.random() < .1: a['txt'] = B('/' + ' ' * r.choice([0, 2]))
        out.append(a)
    return [line(a) for a in out]
def run():
    c = Check('C20', 'clib', 'ClibTrace', assumptions=['paths without trailing or double slashes', 'scratch tree owned by the caller (an unprivileged user, and root)', 'C locale'])
    c.model_check('ClibMC', 'ClibMC.cfg' if TIER == 'quick' else 'ClibMC4.cfg', workers=2, timeout=800)
    c.build_lib()
    exe = c.compile('d_clib', ['d_clib.c'])
    q = TIER == 'quick'
    gen = c.generate('ClibMC', 'ClibGen.cfg', 60 if q else 800, 60)
    c.conform(exe, [[line(a) for a in SETUP + b] for b in gen], label='behaviours generated from the specification')
    n, m = (90, 70) if q else (1200, 120)
    c.conform(exe, [rnd(c.rng, m) for _ in range(n)] + [[line(dict(op='ctype', c=x)) for x in range(256)]], label='seeded random histories (unprivileged user)')
    c.conform(exe, [rnd(c.rng, m) for _ in range(n // 3)], env={'VP_STAYROOT': '1'}, label='seeded random histories (super-user)')
    return c.finish()
main(run)
