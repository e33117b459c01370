"""Capacity analysis: symbolic sizes of every stage, message and allocation are compared with the sizes setup reports."""
from .compute import *
from . import remap

NEED = ('API calls analysed',)


def run(rep, tier):
    rep.rule = __doc__
    for r in run_all(tier):
        rep.merge(r['C06'])
    remap.run_all(rep, ('C06',), tier)
