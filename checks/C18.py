import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
J = lambda b: ' '.join(map(str, b))
def line(a):
    o = a['op']
    if o == 'seed': return 'seed %d %d' % (a['i'], a['v'][0] * 65536 + a['v'][1])
    if o == 'crc32' or o == 'mupd' or o == 'crypt': return '%s %d %d %s' % (o, a['i'], len(a['b']), J(a['b']))
    if o == 'crcne': return 'crcne %d %d %d %d %d %s' % (a['i'], a['w'], a['siz'], a['mode'], len(a['b']), J(a['b']))
    if o == 'ccitt': return 'ccitt %d %d %d %s' % (a['i'], a['stride'], len(a['b']), J(a['b']))
    if o == 'mstart' or o == 'mfin': return '%s %d' % (o, a['i'])
    if o in ('hstart', 'asetup'): return '%s %d %d %s' % (o, a['i'], len(a['key']), J(a['key']))
    if o == 'md5': return 'md5 %d %s' % (len(a['b']), J(a['b']))
    if o == 'hmac': return 'hmac %d %d %s %s' % (len(a['key']), len(a['b']), J(a['key']), J(a['b']))
def to_script(b): return [line(a) for a in b]
def rb(r, n):
    m = r.random()
    return [0] * n if m < .1 else [255] * n if m < .2 else [r.randrange(256) for _ in range(n)]
def rnd_script(r, n):
    s = []; md = {}; ks = {}; tot = {}
    LEN = [0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 200]
    for _ in range(n):
        i = r.choice([1, 2]); o = r.choice(['seed', 'crc32', 'crc32', 'crcne', 'crcne', 'crcne', 'ccitt', 'ccitt', 'md', 'md', 'md', 'md', 'md5', 'hmac', 'mfile', 'arc', 'arc'])
        n1 = r.choice(LEN + [r.randrange(0, 150)])
        if o == 'seed': s.append('seed %d %d' % (r.randrange(1, 4), r.choice([0, 0xffffffff, r.getrandbits(32)])))
        elif o == 'crc32': s.append('crc32 %d %d %s' % (r.randrange(1, 4), n1, J(rb(r, n1))))
        elif o == 'crcne':
            siz = r.choice([1, 2, 4, 8]); c = n1 // siz * siz
            s.append('crcne %d %d %d %d %d %s' % (r.randrange(1, 4), r.choice([16, 24, 32, 16, 24, 32, 0, 64]), siz, r.choice([0, 1, 1, 2]), c, J(rb(r, c))))
        elif o == 'ccitt': s.append('ccitt %d %d %d %s' % (r.randrange(1, 4), r.choice([1, 1, 2, 3, 4, 8]), n1, J(rb(r, n1))))
        elif o == 'md':
            if i not in md:
                md[i] = 1; k = r.choice([0, 1, 16, 63, 64, 65, 100])
                s.append('mstart %d' % i if r.random() < .6 else 'hstart %d %d %s' % (i, k, J(rb(r, k))))
            elif r.random() < .25: s.append('mfin %d' % i); del md[i]
            else: s.append('mupd %d %d %s' % (i, n1, J(rb(r, n1))))
        elif o == 'md5': s.append('md5 %d %s' % (n1, J(rb(r, n1))))
        elif o == 'hmac':
            k = r.choice([0, 1, 20, 64, 65, 130]); s.append('hmac %d %d %s %s' % (k, n1, J(rb(r, k)), J(rb(r, n1))))
        elif o == 'mfile':
            k = r.choice([n1, n1, 1023, 1024, 1025, 2050]); s.append('mfile %d %d %s' % (r.random() < .85, k, J(rb(r, k))))
        else:
            if i not in ks or r.random() < .15:
                k = r.choice([1, 5, 16, 255, 256, 300]); ks[i] = 1; s.append('asetup %d %d %s' % (i, k, J(rb(r, k))))
            else: s.append('crypt %d %d %s' % (i, n1, J(rb(r, n1))))
    for i in md: s.append('mfin %d' % i)
    return s
def big_script(r, n):
    """every 1-byte table entry of every CRC"""
    s = []
    for k in range(256):
        s += ['seed 1 0', 'crcne 1 16 1 1 1 %d' % k, 'seed 1 0', 'crcne 1 24 1 1 1 %d' % k, 'seed 1 0', 'crcne 1 32 1 1 1 %d' % k, 'seed 1 0', 'crc32 1 1 %d' % k, 'seed 1 0', 'ccitt 1 1 1 %d' % k,
              'seed 1 0', 'crcne 1 16 2 1 2 %d 0' % k, 'seed 1 0', 'crcne 1 24 2 1 2 %d 0' % k, 'seed 1 0', 'crcne 1 32 2 1 2 %d 0' % k]
    return s
def run():
    c = Check('C18', 'digest', 'DigestTrace', assumptions=['little-endian host; messages up to about 2 KB per digest (MD5 length field beyond 2^24 bits not reached)'])
    c.model_check('DigestMC', 'DigestMC.cfg')
    if TIER == 'thorough': c.model_check('DigestMC', 'DigestMC3.cfg', workers=4, timeout=800)
    c.build_lib()
    exe = c.compile('d_digest', ['d_digest.c'])
    q = TIER == 'quick'
    gen = c.generate('DigestMC', 'DigestGen.cfg', 40 if q else 500, 16)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (24, 50) if q else (300, 120)
    c.conform(exe, [big_script(c.rng, 0)] + [rnd_script(c.rng, m) for _ in range(n)], label='seeded random histories')
    return c.finish()
main(run)
