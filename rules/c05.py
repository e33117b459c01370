"""Effect analysis: no event of an out-of-place call (FFT and Remap level) writes to, or uses as scratch, the input buffer."""
from .compute import *
from . import remap

NEED = ('API calls analysed',)


def run(rep, tier):
    rep.rule = __doc__
    for r in run_all(tier):
        rep.merge(r['C05'])
    remap.run_all(rep, ('C05',), tier)
