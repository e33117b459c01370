"""Scaling pass analysis: stores to the data buffer must be one complete multiplication by 1/N of the data held, exactly once for scaled inverse transforms and never otherwise."""
from .compute import *

NEED = ('API calls analysed',)


def run(rep, tier):
    rep.rule = __doc__
    for r in run_all(tier):
        rep.merge(r['C04'])
