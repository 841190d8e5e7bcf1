import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
WRAP = ['-Wl,--wrap=' + f for f in 'read write select poll recv send'.split()]
def S(b): return ' '.join(map(str, [len(b)] + list(b)))
def tag(n): return [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255]
REQ, ACK, NACK = list(b'SEND'), list(b'ACK\0\0'), list(b'NACK\0')
def data(r, n): return [r.randrange(256) for _ in range(n)]
def swap(b, t): return [b[(i // t) * t + t - 1 - i % t] if i < len(b) // t * t else b[i] for i in range(len(b))]
def item(r, big=True):
    """one record and what the reader asks for"""
    t = r.choice([1, 2, 4, 8]); n = r.choice([0, 1, 1, 2, 3, 5, 16] + ([130, 700] if big and r.random() < .3 else []))
    d = data(r, n * t)
    m = r.random()
    if m < .6: e, x = r.choice([0, n]), r.choice([0, n, n + 3])
    else: e, x = r.choice([0, n, n + 1, max(0, n - 1)]), r.choice([0, n, max(1, n - 1), 1])
    return dict(data=d, t=t, exp=e, max=x)
def wr(c, s, x): return 'wrec %d %d %d %s' % (c, s, x['t'], S(x['data']))
def rd(r, c, s, x): return 'rrec %d %d %d %d %d %d' % (c, s, x['exp'], x['max'], r.choice([x['t']] * 9 + [0]) if x['t'] == 1 else x['t'], r.choice([0, 1]))
def paired(r, nch, nrec, cut=False, items=None, other=True):
    """both ends are the library's; several channels at the same time, records in both directions"""
    out = ['session %d %d %d 1' % (r.randrange(1 << 20), r.choice([0, 1, 2, 2]), r.choice([0, 0, 20]))]
    for c in range(nch):
        out.append('chan %d %d %d' % (c, r.choice([0, 1]), r.choice([0, 0, 1, 7, 64, 4096])))
        if cut and r.random() < .7: out.append('limit %d %d %d 1' % (c, r.choice([0, 1]), r.choice([0, 3, 4, 5, 8, 12, 13, 20, 33, 60, r.randrange(150)])))
        if r.random() < .3:
            for s in (0, 1): out.append('stmo %d %d %d' % (c, s, r.choice([1, 2, 3, 4, 10, 60, -5, 0, 180]) or 7))
        a, b = [], []
        for x in (items if items else [item(r) for _ in range(nrec)]):
            if r.random() < .5 or items: a.append(wr(c, 0, x)); b.append(rd(r, c, 1, x))
            else: b.append(wr(c, 1, x)); a.append(rd(r, c, 0, x))
            if other and r.random() < .3:
                k = r.choice(['pint', 'sack', 'raw', 'cmd', 'cmd2'])
                if k == 'pint': a.append('pint %d 0 %d' % (c, r.choice([0, 1, 255, 256, 2**31, 2**32 - 1, r.randrange(2**32)]))); b.append('gint %d 1' % c)
                elif k == 'sack': b.append('sack %d 1 %d' % (c, r.choice([0, 1, 2]))); a.append('gack %d 0' % c)
                elif k == 'raw':
                    n = r.choice([0, 1, 2, 9, 300]); a.append('%s %d 0 %s' % (r.choice(['wft'] if out[0].split()[3] != '0' else ['wft', 'wst']), c, S(data(r, n)))); b.append('%s %d 1 %d' % (r.choice(['rft', 'rftc'] if out[0].split()[3] != '0' else ['rft', 'rftc', 'rst']), c, n))
                else:
                    n = r.choice([1, 5, 100]); d = [r.randrange(1, 256) for _ in range(n)]
                    a.append('%s %d 0 %s' % ('cmd' if k == 'cmd' else 'cmd', c, S(d))); b.append('rft %d 1 %d' % (c, n)); b.append('sack %d 1 %d' % (c, r.choice([0, 0, 1])))
        out += a + b
    return out + ['run']
def solo(r, n):
    """one end is the library's, the other is played by the session: anything may come, and stop anywhere"""
    e = r.choice([0, 0, 25]); out = ['session %d %d %d 0' % (r.randrange(1 << 20), r.choice([0, 1, 2, 2]), e)]
    for c in range(n):
        out.append('chan %d %d 0' % (c, r.choice([0, 1])))
        if r.random() < .2: out.append('stmo %d 0 %d' % (c, r.choice([1, 2, 3, 5, 100, 150, -4])))
        dead = False
        for _ in range(r.choice([1, 1, 2, 4])):
            x = item(r, False); k = r.choice(['wrec', 'rrec', 'rrec', 'rrec', 'rft', 'rftc', 'rst', 'gack', 'gint', 'wft', 'wst', 'cmd', 'cmd2', 'sack', 'pint'])
            if e and k in ('rst', 'wst'): k = 'rft'
            inp = []
            if k == 'wrec': inp = REQ + r.choice([ACK, ACK, NACK, [88, 0, 0, 0, 0], list(b'ACKNO')]); op = wr(c, 0, x)
            elif k == 'rrec':
                d = x['data'] + (data(r, r.randrange(1, x['t'])) if x['t'] > 1 and r.random() < .3 else []); L = tag(len(d)); inp = L + swap(d, x['t']) + L; m = r.random()
                if m < .1: inp = inp[:-4] + tag(len(d) + r.choice([1, 256, -1]) & 0xffffffff)
                elif m < .15: inp = r.choice([[255] * 4, [128, 0, 0, 0], [128, 0, 0, 9], [254, 255, 255, 250]])
                op = rd(r, c, 0, x)
            elif k in ('rft', 'rftc', 'rst'): inp = data(r, r.choice([0, 1, 4, 40])); op = '%s %d 0 %d' % (k, c, len(inp))
            elif k == 'gack': inp = r.choice([ACK, NACK, list(b'XXXXX'), [0] * 5]); op = 'gack %d 0' % c
            elif k == 'gint': inp = data(r, 4); op = 'gint %d 0' % c
            elif k in ('wft', 'wst'): op = '%s %d 0 %s' % (k, c, S(data(r, r.choice([0, 1, 50]))))
            elif k in ('cmd', 'cmd2'): inp = r.choice([ACK, NACK]); op = '%s %d 0 %s' % (k, c, S([r.randrange(1, 256) for _ in range(r.choice([1, 9, 60]))]))
            elif k == 'sack': op = 'sack %d 0 %d' % (c, r.choice([0, 1]))
            else: op = 'pint %d 0 %d' % (c, r.randrange(2**32))
            m = r.random()
            if m < .3 and inp:
                q = r.randrange(len(inp)); out.append('feed %d 0 %s' % (c, S(inp[:q])))
                if r.random() < .5: out.append('eof %d 0 %d' % (c, r.choice([0, 0, 1])))
                dead = True
            elif m < .4 and not inp or m < .35 and k in ('wrec', 'cmd'):
                out.append('limit %d 0 %d %d' % (c, r.randrange(0, 12), r.choice([0, 1])))
                if inp: out.append('feed %d 0 %s' % (c, S(inp)))
                dead = True
            elif inp: out.append('feed %d 0 %s' % (c, S(inp)))
            out.append(op)
            if dead: break
    return out + ['run']
def files(r):
    out, names = ['session 1 0 0 0'], ['a', 'chan_1', 'x_y_z']
    for _ in range(12):
        k = r.choice(names)
        if r.random() < .6: out.append('store %s %s' % (k, S(data(r, r.choice([0, 1, 10, 50, 1000])))))
        else: out.append('load %s %d' % (k, r.choice([0, 0, 5])))
    return out + ['run']
def run():
    c = Check('C23', 'gossip', 'GossipTrace', assumptions=['the transport is a reliable byte stream that may be cut', 'after a failure the channel is closed',
              'read_stream and write_stream are not interrupted by signals', 'writing on a blocking channel whose peer stopped reading waits'])
    q = TIER == 'quick'
    c.model_check('GossipMC', 'GossipMC.cfg', workers=3)
    c.model_check('GossipMC', 'GossipMCf.cfg', workers=2)
    c.build_lib()
    exe = c.compile('d_gossip', ['d_gossip.c'], libs=WRAP)
    r = c.rng
    gen = c.generate('GossipMC', 'GossipGen.cfg', 60 if q else 600, 8)
    S_ = [paired(r, 1, 0, items=[dict(x, data=x['data']) for x in b]) for b in gen]
    c.conform(exe, [sum(S_[i:i + 10], []) for i in range(0, len(S_), 10)], label='sessions generated from the specification, both ends real')
    N = 24 if q else 240
    c.conform(exe, [sum([paired(r, r.choice([1, 2, 4, 8]), r.choice([1, 3, 6])) for _ in range(8)], []) for _ in range(N)], label='concurrent channels, seeded schedules and fragments')
    c.conform(exe, [sum([paired(r, r.choice([1, 2, 3]), r.choice([1, 3]), cut=True) for _ in range(8)], []) for _ in range(N)], label='connections cut at any byte')
    c.conform(exe, [sum([solo(r, 6) for _ in range(8)], []) for _ in range(N)], label='one end played by the session: malformed, short, closed, silent')
    c.conform(exe, [files(r) for _ in range(10 if q else 60)], label='channel data saved and loaded')
    return c.finish()
main(run)
