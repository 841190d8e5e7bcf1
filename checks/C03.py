import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
from fstscripts import *
def run():
    c = Check('C03', 'fst', 'FstTrace', assumptions=['one unit per file', 'local files', 'no I/O errors', 'units are unlinked before they are closed'])
    c.model_check('FstMC', 'FstMC.cfg' if TIER == 'quick' else 'FstMC7.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_fst', ['d_fst.c'], flags=['-Wl,--wrap=write'])
    q = TIER == 'quick'
    gen = c.generate('FstMC', 'FstGen.cfg', 60 if q else 1000, 62)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (80, 60) if q else (800, 80)
    c.conform(exe, [c03(c.rng, m) for _ in range(n)], label='seeded histories of linked units')
    c.conform(exe, [c03(c.rng, 40, True) for _ in range(4 if q else 40)], label='files of several directory pages')
    return c.finish()
main(run)
