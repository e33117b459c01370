"""Layout dataflow: abstract layouts of the data buffer are propagated through the remap/copy/FFT events of compute(); every remap must read the layout present and the final layout must be the documented one."""
from .compute import *

NEED = ('API calls analysed',)


def run(rep, tier):
    rep.rule = __doc__
    for r in run_all(tier):
        rep.merge(r['C02'])
