"""Layout dataflow with transform counts: each 1d-FFT event must cover exactly the whole lines of the current layout, with a plan of the right length and direction, and each axis ends up transformed once."""
from .compute import *

NEED = ('API calls analysed',)


def run(rep, tier):
    rep.rule = __doc__
    for r in run_all(tier):
        rep.merge(r['C03'])
