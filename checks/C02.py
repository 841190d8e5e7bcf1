import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
from fstscripts import *
def run():
    c = Check('C02', 'fst', 'FstTrace', assumptions=['one unit per file', 'local files', 'no I/O errors', 'the process dies; the operating system and the disk do not'])
    c.model_check('FstMC', 'FstMC.cfg' if TIER == 'quick' else 'FstMC7.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_fst', ['d_fst.c'], flags=['-Wl,--wrap=write'])
    q = TIER == 'quick'
    gen = c.generate('FstMC', 'FstGen.cfg', 60 if q else 1000, 62)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (120, 60) if q else (1200, 90)
    c.conform(exe, [c02(c.rng, m) for _ in range(n)], label='seeded histories with deaths, checkpoints, other processes')
    c.conform(exe, [c02pages(c.rng, n) for n in (256, 512, 257)] + [c02pages(c.rng) for _ in range(2 if q else 30)], label='several directory pages')
    return c.finish()
main(run)
