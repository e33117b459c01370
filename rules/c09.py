"""Uniformity (dependence) analysis: the guards and trip counts under which every collective operation - MPI collectives, remaps,
setups, error stops of all processors - is reached, and its count/datatype/root arguments, are traced back through the abstract values to
their inputs; none may depend on a processor's own rank, tile bounds or clock except through a reduction or broadcast, or on
membership of the communicator the operation works on."""
from .common import *
from .uniform import *
from .tune import TuneRun
from . import remap as RM

NEED = ('collective operations', 'remap setups', 'tune histories')


def remap(rep, cfg, dim, coll):
    """setup of a remap: collective calls on the caller's communicator"""
    S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
    ev = list(S.ctor(S.world))
    so, ro = S.buf('*sendsize'), S.buf('*recvsize')
    args, local = [], []
    for side in ('in', 'out'):
        for a in AX[dim]:
            lo, n = '%s_%slo' % (side, a), '%s_n%s' % (side, a)
            local += [lo, n]
            args += [sym(lo, nonneg=True), sym(lo, nonneg=True) + sym(n, nonneg=True) - 1]
    S.set('collective', coll)
    S.set('packflag', sym('packflag'))
    ev += list(S.call('setup', *(args + [sym('nqty', pos=True), sym('permute', nonneg=True), sym('memoryflag'), so[1], ro[1]])))
    T = Taint(S.I, local, ev)
    check_uniform(rep, T, ev, '%s, collective %d, %s' % (S.cls, coll, cfg))
    rep.inst('remap setups')
    rep.use(S.I)
    return rep.to_dict()


def work(job):
    rep = Report('C09')
    if job[1] == 'remap':
        return remap(rep, job[0], job[2], job[3])
    if job[1] == 'tune':
        cfg, _, dim = job
        R = TuneRun(cfg, dim)
        T = Taint(R.S.I, local_names(dim), R.ev0 + R.ev)
        check_uniform(rep, T, R.ev0 + R.ev, R.hist, kinds=('setup_call', 'compute'))
        rep.inst('tune histories')
        rep.use(R.S.I)
        return rep.to_dict()
    cfg, dim, ex, perm, mem = job
    S = FFTSession(cfg, dim)
    ev = list(S.start(exchange=ex, collective=sym('collective'), packflag=sym('packflag'), memoryflag=mem))
    bi, bo = S.buf('in'), S.buf('out')
    hist = '%s, exchange %d, permute %s, %s' % (S.cls, ex, perm if perm is not None else 'any', cfg)
    flag = sym('flag')
    ev += list(S.setup(C(perm) if perm is not None else sym('permute', nonneg=True)))
    if mem == 0:
        bs, br = S.buf('send'), S.buf('recv')
        ev += list(S.call('setup_memory', bs[1], br[1]))
    for f in ('scaled', 'remaponly'):
        S.set(f, sym(f))
    ev += list(S.call('compute', bi[1], bo[1], flag))
    ev += list(S.call('only_remaps', bi[1], bo[1], flag))
    ev += list(S.call('only_1d_ffts', bi[1], flag))
    ev += list(S.call('only_one_remap', bi[1], bo[1], flag, sym('which')))
    ev += list(S.dtor())
    T = Taint(S.I, local_names(dim), ev)
    check_uniform(rep, T, ev, hist)
    rep.inst('FFT histories')
    rep.use(S.I)
    return rep.to_dict()


def run(rep, tier):
    t = tier == 'thorough'
    jobs = [('kiss-double', 'tune', d) for d in (3, 2)]
    jobs += [(c, d, ex, p, m) for d in (3, 2) for c in (CONFIGS if t else ('kiss-double', 'fftw3-single')) for ex in (0, 1)
             for p in (None, 0, d - 1) for m in (0, 1) if t or (p is None) == (m == 1)]
    jobs += [(c, 'remap', d, k) for d in (3, 2) for c in (CONFIGS if t else ('kiss-double',)) for k in (0, 1)]
    for d in parallel(work, jobs):
        rep.merge(d)
    RM.run_all(rep, ('C09',), tier)
    rep.rule = __doc__
