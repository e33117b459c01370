"""Order analysis on the event trace of remap(): all reads of the input (packs, own block) precede the first write of the output."""
from .remap import *

NEED = ('remap configurations with obligations',)


def run(rep, tier):
    rep.rule = __doc__
    run_all(rep, ('C08',), tier)
