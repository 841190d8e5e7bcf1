import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from vp import *
from fstscripts import *
def run():
    c = Check('C04', 'fst', 'FstSeqTrace', assumptions=['one unit per file', 'local files', 'no I/O errors', 'handles are those of records that are in the file'])
    if os.path.exists(c.spec + '/FstSeqMC.tla'):
        c.model_check('FstSeqMC', 'FstSeqMC.cfg' if TIER == 'quick' else 'FstSeqMC7.cfg', workers=6, timeout=850)
    c.build_lib()
    exe = c.compile('d_fst', ['d_fst.c'], flags=['-Wl,--wrap=write'])
    q = TIER == 'quick'
    gen = c.generate('FstSeqMC', 'FstSeqGen.cfg', 150 if q else 3000, 72)
    c.conform(exe, [to_script(b) for b in gen], label='behaviours generated from the specification')
    n, m = (200, 100) if q else (2500, 140)
    c.conform(exe, [c04(c.rng, m) for _ in range(n)], label='seeded random histories of sequential files')
    return c.finish()
main(run)
