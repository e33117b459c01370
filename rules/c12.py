"""Resource typestate: all allocations, plans, handles and remap objects of complete create..destroy histories are followed to
their releases; on every path each must be released exactly once by the matching routine and not touched afterwards."""
from .common import *
from .life import *

NEED = ('histories', 'allocations followed', 'releases followed', 'remap objects followed', 'MPI handles followed')


def fft(job):
    cfg, dim, perm, ex = job
    rep = Report('C12')
    S = FFTSession(cfg, dim)
    ev0 = list(S.start(exchange=ex))
    bi, bo, bs, br, bs2, br2 = (S.buf(n) for n in ('in', 'out', 'sendbuf', 'recvbuf', 'sendbuf2', 'recvbuf2'))
    flag, which = sym('flag'), sym('which')
    inside = ('Remap%dd' % dim,)

    def history(name, S, ev):
        D = S.fork()
        ev = ev + list(D.dtor())
        rep.inst('histories')
        h = '%s, exchange %d, permute %d, %s: %s' % (D.cls, ex, perm, cfg, name)
        audit(rep, D, ev, h, inside=inside)
        remap_objects(rep, D, ev, h)
    history('create, destroy', S, ev0)
    for mf in (1, 0):
        T = S.fork()
        T.set('memoryflag', mf)
        ev = ev0 + list(T.setup(C(perm)))
        history('create, setup (memoryflag %d), destroy' % mf, T, ev)
        if not mf:
            ev = ev + list(T.call('setup_memory', bs[1], br[1]))
            history('create, setup, setup_memory, destroy', T, ev)
            ev = ev + list(T.call('setup_memory', bs2[1], br2[1]))
        for r in range(2):
            ev = ev + list(T.call('compute', bi[1], bo[1], flag))
        ev = ev + list(T.call('only_remaps', bi[1], bo[1], flag)) + list(T.call('only_1d_ffts', bi[1], flag)) \
            + list(T.call('only_one_remap', bi[1], bo[1], flag, which))
        history('create, setup (memoryflag %d), transforms, destroy' % mf, T, ev)
        # the caller may change the settings between setup and destroy
        U = T.fork()
        for f in ('memoryflag', 'exchange', 'collective', 'packflag'):
            U.set(f, sym('new_' + f))
        history('create, setup (memoryflag %d), transforms, settings changed, destroy' % mf, U, ev)
    rep.use(S.I)
    return rep.to_dict()


def remap(job):
    cfg, dim, perm, coll = job
    rep = Report('C12')
    S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
    null = [Ptr(S.prog.global_obj(m, n), ZERO) for m in S.prog.modules for n in m.globals if 'comm_null' in n]
    if null:
        S.I.commnull = null[0]
    ev0 = list(S.ctor(S.world))
    bi, bo, bs, br = (S.buf(n) for n in ('in', 'out', 'sendbuf', 'recvbuf'))
    so, ro = S.buf('*sendsize'), S.buf('*recvsize')
    args = []
    for side in ('in', 'out'):
        for a in AX[dim]:
            lo = sym('%s_%slo' % (side, a), nonneg=True)
            args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]

    def history(name, S, ev):
        D = S.fork()
        ev = ev + list(D.dtor())
        rep.inst('histories')
        h = '%s, collective %d, permute %d, %s: %s' % (D.cls, coll, perm, cfg, name)
        audit(rep, D, ev, h)
        handles(rep, D, ev, h)
    history('create, destroy', S, ev0)
    for mf in (1, 0):
        T = S.fork()
        T.set('collective', coll)
        ev = ev0 + list(T.call('setup', *(args + [sym('nqty', pos=True), C(perm), C(mf), so[1], ro[1]])))
        history('create, setup (memoryflag %d), destroy' % mf, T, ev)
        for r in range(2):
            ev = ev + list(T.call('remap', bi[1], bo[1], bs[1], br[1]))
        history('create, setup (memoryflag %d), remaps, destroy' % mf, T, ev)
        U = T.fork()
        for f in ('collective', 'packflag'):
            U.set(f, sym('new_' + f))
        history('create, setup (memoryflag %d), remaps, settings changed, destroy' % mf, U, ev)
    rep.use(S.I)
    return rep.to_dict()


def work(job):
    return (fft if job[0] == 'fft' else remap)(job[1:])


def run(rep, tier):
    rep.rule = __doc__
    jobs = [('fft', c, d, p, ex) for d in (3, 2) for c in CONFIGS for p in (range(d) if tier == 'thorough' or 'double' in c else (0,)) for ex in (0, 1)]
    jobs += [('remap', c, d, p, k) for d in (3, 2) for c in ('kiss-double', 'kiss-single') for p in (range(d) if tier == 'thorough' else (0, d - 1))
             for k in (0, 1)]
    for d in parallel(work, jobs):
        rep.merge(d)
