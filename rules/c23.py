"""Null-value analysis with failing allocations: every malloc/posix_memalign/realloc in setup and tune may return NULL; for each of them
the guard under which it has failed must contradict the guard of every later access through a null pointer and of a normal return."""
from .common import *
from .tune import TuneRun

NEED = ('allocation sites',)


def audit(rep, S, ev, hist):
    F = S.I.facts
    allocs = []
    seen = set()
    for e, c, l in flat(ev):
        if e.kind == 'alloc' and e.name in ('malloc', 'posix_memalign', 'realloc', 'calloc') and e.args[0].var is None and isinstance(e.args[0].val, Ptr):
            o = e.args[0].val.obj
            if o not in seen:
                seen.add(o)
                allocs.append((e, c, l, BV(('b', 'allocfail', o))))
    rep.inst('allocation sites', len(allocs))
    uses = [(e, c, l) for e, c, l in flat(ev) if e.kind == 'nullderef']
    for e, c, l, f in allocs:
        a = AND(c, f, F)
        if a is FALSE:
            continue
        try:
            live = feasible(AND(S.alive, a))
        except TM.Budget:
            rep.inst('undecided')
            continue
        w = caller(e)
        rep.check(not live, w, '%s: the call returns normally although the allocation of %s bytes at %s failed' % (hist, ddstr(e.args[1])[:120], w),
                  '%s: failure of the allocation at %s stops the library' % (hist, w))
        v = next(iter(f.sup))
        for u, cu, lu in uses:
            if v not in cu.sup:
                continue
            # null because of this very failure
            g = AND(a, AND(simplify(cu, f), NOT(simplify(cu, NOT(f)))))
            if g is FALSE:
                continue
            try:
                bad = feasible(g)
            except TM.Budget:
                rep.inst('undecided')
                continue
            rep.check(not bad, where(u), '%s: the block whose allocation failed at %s may be accessed' % (hist, w))


def caller(e):
    """position of the allocation and the code that asked for it"""
    return '%s <- %s' % (where(e), ' <- '.join(str(x) for x in list(e.chain)[::-1][1:3])) if getattr(e, 'chain', None) else where(e)


def work(job):
    rep = Report('C23')
    kind, cfg, dim = job[:3]
    if kind == 'remap':
        coll, mem = job[3:]
        S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
        S.I.allocfail = True
        S.ctor(S.world)
        so, ro = S.buf('*sendsize'), S.buf('*recvsize')
        args = []
        for side in ('in', 'out'):
            for a in AX[dim]:
                lo = sym('%s_%slo' % (side, a), nonneg=True)
                args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]
        S.set('collective', coll)
        n0 = len(S.I.events)
        S.call('setup', *(args + [sym('nqty', pos=True), sym('permute', nonneg=True), C(mem), so[1], ro[1]]))
        audit(rep, S, S.I.events[n0:], '%s::setup, collective %d, memoryflag %d, %s' % (S.cls, coll, mem, cfg))
    elif kind == 'fft':
        ex, mem = job[3:]
        S = FFTSession(cfg, dim)
        S.I.allocfail = True
        S.start(exchange=ex, memoryflag=mem)
        n0 = len(S.I.events)
        S.setup(sym('permute', nonneg=True))
        audit(rep, S, S.I.events[n0:], '%s::setup, exchange %d, memoryflag %d, %s' % (S.cls, ex, mem, cfg))
    else:
        R = TuneRun(cfg, dim, tmax=1 if job[3] else 0, flag=1, tflag=0, niter=1, early=(2, 3), allocfail=True)
        S = R.S
        audit(rep, S, R.ev, R.hist)
    rep.use(S.I)
    return rep.to_dict()


def run(rep, tier):
    rep.rule = __doc__
    jobs = [('remap', c, d, k, m) for d in (3, 2) for c in ('kiss-double', 'kiss-single') for k in (0, 1) for m in (0, 1)]
    jobs += [('fft', c, d, ex, m) for d in (3, 2) for c in CONFIGS for ex in (0, 1) for m in (0, 1)]
    jobs += [('tune', 'kiss-double', d, k) for d in (3, 2) for k in (0, 1)]
    for d in parallel(work, jobs):
        rep.merge(d)
