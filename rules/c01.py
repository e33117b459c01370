"""Record-list and copy-nest analysis of Remap2d/Remap3d: the partner records setup() builds are expressed over the bounds of both processors and compared with the overlap of the tiles; the copies remap() makes per record are compared, as mixed-radix digit lists, with the permuted placement."""
from .remap import *

NEED = ('remap configurations with obligations',)


def run(rep, tier):
    rep.rule = __doc__
    run_all(rep, ('C01',), tier)
