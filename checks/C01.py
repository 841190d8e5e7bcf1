import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
from fstscripts import *
def run():
    c = Check('C01', 'fst', 'FstTrace', assumptions=['one unit per file', 'local files', 'no I/O errors'])
    c.model_check('FstMC', 'FstMC.cfg' if TIER == 'quick' else 'FstMC7.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_fst', ['d_fst.c'], flags=['-Wl,--wrap=write'])
    q = TIER == 'quick'
    gen = c.generate('FstMC', 'FstGen.cfg', 60 if q else 1000, 62)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (80, 120) if q else (800, 160)
    c.conform(exe, [c01(c.rng, m) for _ in range(n)], label='seeded random histories')
    c.conform(exe, [pages(c.rng, k) for k in ((260, 300) if q else (256, 257, 300, 513, 600, 900))] + [pages(c.rng, 560, (11, 12))], label='more records than a directory page')
    return c.finish()
main(run)
