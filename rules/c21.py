"""Comparison of the event sequences of only_remaps / only_one_remap / only_1d_ffts / remaponly with those of compute()."""
from .compute import *

NEED = ('API calls analysed',)


def run(rep, tier):
    rep.rule = __doc__
    for r in run_all(tier):
        rep.merge(r['C21'])
