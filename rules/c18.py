"""Settings: constructor defaults are read off the abstract object; the collective/exchange/packflag values that setup hands to each
remap are compared with the settings (collective 2: by whether both layouts of the remap are pencils); after setup the settings are
replaced by unknown values and no transform, communication or release may depend on them, while scaled and remaponly must count."""
from .common import *
from .uniform import Taint

NEED = ('defaults', 'remap setups', 'frozen histories')
FROZEN = ('collective', 'exchange', 'packflag', 'memoryflag')


def const(d):
    return d.val.const() if d.var is None and isinstance(d.val, Poly) else None


def defaults(rep, cfg, cls, want, S):
    for f, v in want.items():
        if f not in S.fs:
            continue
        rep.inst('defaults')
        g = S.get(f)
        rep.check(const(g) == v, '%s::%s' % (cls, cls), '%s [%s]: %s is %s after construction, documented default %d' % (cls, cfg, f, ddstr(g), v),
                  '%s: %s = %d' % (cls, f, v))


def pencil(lohi, gn, guard):
    """do these bounds provably cover a whole axis"""
    for lo, hi in lohi:
        if isinstance(lo, Poly) and isinstance(hi, Poly):
            for n in gn:
                if lo == ZERO and hi == n - 1:
                    return True
                if 1:
                    d = AND(eqcond(lo, ZERO), eqcond(hi, n - 1))
                    if d is not FALSE and not feasible(AND(guard, NOT(d))):
                        return True
    return False


def setups(rep, S, ev, coll, ex, pf, hist):
    dim = S.dim
    for e, c, l in flat(ev):
        if e.kind != 'remap_setup':
            continue
        rep.inst('remap setups')
        b = e.info['bounds']
        if len(b) != 4 * dim:
            continue
        G = AND(c, S.I.facts)
        d = e.info['packflag']
        rep.check(d.var is None and isinstance(d.val, Poly) and d.val == pf, where(e), '%s: a remap is given packflag %s' % (hist, ddstr(d)),
                  '%s: remap at %s has the packflag setting' % (hist, where(e)))
        k = e.info['collective']
        for g, v in leaves(dtuple(list(b) + [k])):
            gg = AND(G, g)
            if gg is FALSE or not feasible(gg):
                continue
            got = v[-1].const() if isinstance(v[-1], Poly) else None
            if coll in (0, 1):
                rep.check(got == coll, where(e), '%s: a remap uses collective mode %s, the setting is %d' % (hist, v[-1], coll),
                          '%s: remap at %s is %s' % (hist, where(e), 'collective' if coll else 'point-to-point'))
                continue
            pr = [(v[2 * i], v[2 * i + 1]) for i in range(2 * dim)]
            if pr[:dim] == pr[dim:]:
                continue                    # reorders storage only, nothing moves between processors
            p0, p1 = pencil(pr[:dim], S.gn, gg), pencil(pr[dim:], S.gn, gg)
            want = 1 if p0 and p1 else 0
            rep.check(got == want, where(e), '%s: a remap between %s layouts uses collective mode %s' % (
                hist, 'two pencil' if want else 'brick and pencil', v[-1]),
                '%s: remap at %s is %s' % (hist, where(e), 'collective' if want else 'point-to-point'))
            if ex == 1:
                rep.check(not (p0 and p1), where(e), '%s: data moves directly between pencils' % hist)
            else:
                rep.check(p0 or p1, where(e), '%s: a remap between two bricks' % hist)


def frozen(rep, T, ev, hist):
    n = 0
    for e, c, loops in flat(ev):
        if e.kind in ('load', 'undef', 'note'):
            continue
        n += 1
        deps = set(T.of(c))
        for a in e.args:
            if isinstance(a, (DD, Poly, Ptr)):
                deps |= T.of(a)
        for l in loops:
            deps |= T.of(l.T)
        bad = sorted(x for k, x in deps if k == 'v' and x.startswith('later_'))
        rep.check(not bad, where(e), '%s: %s %s depends on the value %s has after setup' % (hist, e.kind, e.name or '', ', '.join(b[6:] for b in bad)),
                  '%s: independent of later settings' % hist)
    return n


def fft(job):
    cfg, dim, coll, ex, mem = job
    rep = Report('C18')
    S = FFTSession(cfg, dim)
    ev = list(S.start())
    defaults(rep, cfg, S.cls, dict(collective=2, exchange=0, packflag=2, memoryflag=1, scaled=1, remaponly=0), S)
    pf = sym('packflag')
    for f, v in (('collective', coll), ('exchange', ex), ('packflag', pf), ('memoryflag', mem)):
        S.set(f, v)
    hist = '%s, collective %d, exchange %d, %s' % (S.cls, coll, ex, cfg)
    perm = sym('permute', nonneg=True)
    sv = list(S.setup(perm))
    setups(rep, S, sv, coll, ex, pf, hist)
    for f in FROZEN:
        S.set(f, sym('later_' + f))
    bi, bo, bs, br = (S.buf(n) for n in ('in', 'out', 'send', 'recv'))
    flag = sym('flag')
    for f in ('scaled', 'remaponly'):
        S.set(f, sym('now_' + f))
    lv = []
    if mem == 0:
        lv += list(S.call('setup_memory', bs[1], br[1]))
    cv = list(S.call('compute', bi[1], bo[1], flag))
    lv += cv
    lv += list(S.call('only_remaps', bi[1], bo[1], flag))
    lv += list(S.call('only_1d_ffts', bi[1], flag))
    lv += list(S.call('only_one_remap', bi[1], bo[1], flag, sym('which')))
    lv += list(S.dtor())
    T = Taint(S.I, ['later_' + f for f in FROZEN] + ['now_scaled', 'now_remaponly'], ev + sv + lv)
    frozen(rep, T, lv, hist)
    rep.inst('frozen histories')
    seen = set()
    for e, c, loops in flat(cv):
        for k, x in T.of(c):
            if k == 'v':
                seen.add(x)
    for f in ('scaled', 'remaponly'):
        rep.check('now_' + f in seen, '%s::compute' % S.cls, '%s: nothing in compute depends on the current value of %s' % (hist, f),
                  '%s: compute looks at %s' % (hist, f))
    rep.use(S.I)
    return rep.to_dict()


P2P = ('MPI_Send', 'MPI_Isend', 'MPI_Ssend', 'MPI_Rsend', 'MPI_Irecv', 'MPI_Recv', 'MPI_Sendrecv')


def remap(job):
    cfg, dim, coll, pf = job
    rep = Report('C18')
    S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
    ev = list(S.ctor(S.world))
    defaults(rep, cfg, S.cls, dict(collective=1, packflag=2), S)
    so, ro = S.buf('*sendsize'), S.buf('*recvsize')
    args = []
    for side in ('in', 'out'):
        for a in AX[dim]:
            lo = sym('%s_%slo' % (side, a), nonneg=True)
            args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]
    S.set('collective', coll)
    S.set('packflag', pf)
    hist = '%s, collective %d, packflag %d, %s' % (S.cls, coll, pf, cfg)
    ev += list(S.call('setup', *(args + [C(2), C(0), C(0), so[1], ro[1]])))
    for f in ('collective', 'packflag'):
        if f in S.fs:
            S.set(f, sym('later_' + f))
    bi, bo, bs, br = (S.buf(n) for n in ('in', 'out', 'send', 'recv'))
    rv = list(S.call('remap', bi[1], bo[1], bs[1], br[1]))
    rep.check(not any(e.kind == 'call' and e.name in (('MPI_Alltoallv', 'MPI_Alltoall') if coll == 0 else P2P) for e, c, l in flat(rv)),
              '%s::remap' % S.cls, '%s: data moves by %s' % (hist, 'collective' if coll == 0 else 'point-to-point') + ' communication',
              '%s: communication follows the setting' % hist)
    rep.check(any(e.kind == 'call' and e.name in (('MPI_Alltoallv', 'MPI_Alltoall') if coll else P2P) for e, c, l in flat(rv)),
              '%s::remap' % S.cls, '%s: no %s communication' % (hist, 'collective' if coll else 'point-to-point'))
    rv += list(S.dtor())
    T = Taint(S.I, ['later_collective', 'later_packflag'], ev + rv)
    frozen(rep, T, rv, hist)
    rep.inst('frozen histories')
    rep.use(S.I)
    return rep.to_dict()


def work(job):
    return (fft if job[0] == 'fft' else remap)(job[1:])


def run(rep, tier):
    rep.rule = __doc__
    t = tier == 'thorough'
    jobs = [('fft', c, d, k, ex, m) for d in (3, 2) for c in (CONFIGS if t else ('kiss-double', 'fftw3-single')) for k in (2, 0, 1) for ex in (0, 1)
            for m in ((0, 1) if t else ((k + ex) % 2,))]
    jobs += [('remap', c, d, k, p) for d in (3, 2) for c in ('kiss-double', 'kiss-single') for k in (0, 1) for p in (0, 1, 2)]
    for d in parallel(work, jobs):
        rep.merge(d)
