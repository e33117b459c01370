"""Message matching on the event trace of remap(): every partner record is sent/received once with the peer, count, datatype, tag and buffer its record dictates; receives are posted first; completion selects the unpack."""
from .remap import *

NEED = ('remap configurations with obligations',)


def run(rep, tier):
    rep.rule = __doc__
    run_all(rep, ('C07',), tier)
