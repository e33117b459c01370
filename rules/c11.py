"""Lifecycle typestate: from every reachable state of the object (created / set up with internal memory / set up with caller
memory / caller memory given) each public method is analysed; calls that are out of order must reach an error that does not
return before any effect on data, calls in documented order must reach none."""
from .common import *

NEED = ('method x state pairs', 'states', 'error routines')


def effects(ev, bufs=()):
    """what a refused call must not have done"""
    out = []
    for e, c, l in flat(ev):
        if e.kind in ('remap', 'fft1d', 'remap_setup', 'alloc', 'free', 'remap_destroy', 'memcpy', 'load_arg', 'setup_call'):
            out.append((e, c))
        elif e.kind == 'store':
            d = e.args[0]
            for p in leafvals(d):
                if isinstance(p, Ptr) and p.obj is not None and (p.obj.kind == 'heap' or p.obj in bufs):
                    out.append((e, c))
                    break
        elif e.kind == 'call' and e.name.startswith('MPI_') and e.name not in ('MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Wtime'):
            out.append((e, c))
    return out


class Case:
    def __init__(self, rep, S, state):
        self.rep, self.S, self.state = rep, S, state
        rep.inst('states')

    def method(self, name, args, refused, bufs=(), ignore=()):
        S = self.S.fork()
        rep = self.rep
        rep.inst('method x state pairs')
        base = S.alive
        ev = S.call(name, *args)
        site = '%s::%s in state "%s" [%s]' % (S.cls, name, self.state, S.cfg)
        facts = S.I.facts
        if refused:
            g = AND(S.alive, facts)
            rep.check(not feasible(g), site, 'the call returns normally although it is out of order (under %s)' % gstr(g),
                      '%s: always ends in an error' % site)
            for e, c in effects(ev, bufs):
                g = AND(c, facts)
                if not rep.check(not feasible(g), where(e), '%s: acts (%s %s) although the call is out of order' % (site, e.kind, e.name)):
                    break
        else:
            for e, c, l in flat(ev):
                if e.kind != 'error' or any(w in str(e.info.get('msg')) for w in ignore):
                    continue
                g = AND(c, facts)
                rep.check(not feasible(g), where(e), '%s: a call in documented order can fail with "%s" under %s'
                          % (site, e.info.get('msg'), gstr(g)))
            g = AND(base, facts, NOT(S.alive))
            if not any(e.kind == 'error' for e, c, l in flat(ev)):
                rep.check(not feasible(g), site, 'a call in documented order does not return under %s' % gstr(g),
                          '%s: returns normally' % site)
        return S


def fft(job):
    cfg, dim = job
    rep = Report('C11')
    S = FFTSession(cfg, dim)
    S.start()
    bi, bo, bs, br = (S.buf(n) for n in ('in', 'out', 'sendbuf', 'recvbuf'))
    bufs = (bi[0], bo[0], bs[0], br[0])
    flag, which = sym('flag'), sym('which')
    com = {'compute': (bi[1], bo[1], flag), 'only_remaps': (bi[1], bo[1], flag),
           'only_one_remap': (bi[1], bo[1], flag, which)}
    ffts = {'only_1d_ffts': (bi[1], flag)}
    smem = {'setup_memory': (bs[1], br[1])}
    sargs = S.setup_args(ZERO)
    again = {'setup': sargs, 'tune': sargs + [sym('tflag'), sym('niter'), sym('tmax'), sym('timing')]}

    k = Case(rep, S, 'created')
    for m, a in list(com.items()) + list(ffts.items()) + list(smem.items()):
        k.method(m, a, True, bufs)

    # set up, internal memory
    S1 = S.fork()
    S1.set('memoryflag', 1)
    S1.call('setup', *sargs)
    k = Case(rep, S1, 'set up, memoryflag 1')
    for m, a in list(smem.items()) + list(again.items()):
        k.method(m, a, True, bufs)
    for m, a in list(com.items()) + list(ffts.items()):
        k.method(m, a, False)

    # set up, caller's memory
    S2 = S.fork()
    S2.set('memoryflag', 0)
    S2.call('setup', *sargs)
    k = Case(rep, S2, 'set up, memoryflag 0')
    for m, a in list(com.items()) + list(again.items()):
        k.method(m, a, True, bufs)
    for m, a in ffts.items():
        k.method(m, a, False)
    S3 = k.method('setup_memory', smem['setup_memory'], False)
    k = Case(rep, S3, 'caller memory given')
    for m, a in again.items():
        k.method(m, a, True, bufs)
    for m, a in list(com.items()) + list(ffts.items()) + list(smem.items()):
        k.method(m, a, False)
    rep.use(S.I)
    return rep.to_dict()


def remap(job):
    cfg, dim = job
    rep = Report('C11')
    S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
    S.ctor(S.world)
    bi, bo, bs, br = (S.buf(n) for n in ('in', 'out', 'sendbuf', 'recvbuf'))
    so, ro = S.buf('*sendsize'), S.buf('*recvsize')
    args = []
    for side in ('in', 'out'):
        for a in AX[dim]:
            lo = sym('%s_%slo' % (side, a), nonneg=True)
            args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]
    args += [sym('nqty', pos=True), ZERO, ONE, so[1], ro[1]]
    k = Case(rep, S, 'created')
    r = (bi[1], bo[1], bs[1], br[1])
    bufs = (bi[0], bo[0], bs[0], br[0])
    k.method('remap', r, True, bufs)
    for coll in (0, 1):
        S1 = S.fork()
        S1.set('collective', coll)
        S1 = Case(rep, S1, 'created').method('setup', args, False, ignore=('Could not allocate',))
        k = Case(rep, S1, 'set up, collective %d' % coll)
        k.method('setup', args, True, bufs)
        k.method('remap', r, False)
    rep.use(S.I)
    return rep.to_dict()


def errors(job):
    """the error routines themselves never return and say what is wrong"""
    cfg, dim = job
    rep = Report('C11')
    for name in ('all', 'one'):
        S = Session(cfg, 'Error', {})
        S.ctor(S.world)
        msg = S.buf('message')
        ev = S.call(name, msg[1])
        rep.use(S.I)
        rep.inst('error routines')
        site = 'Error::%s [%s]' % (name, cfg)
        g = AND(S.alive, S.I.facts)
        rep.check(not feasible(g), site, 'the error routine can return to its caller under %s' % gstr(g),
                  '%s: never returns' % site)
        said = FALSE
        for e, c, l in flat(ev):
            if e.kind == 'call' and any(isinstance(v, Ptr) and v.obj is msg[0] for a in e.args for v in leafvals(a)):
                said = OR(said, c)
        rep.check(said is not FALSE, site, 'the error message is not printed on any processor')
        if name == 'one':
            rep.check(not feasible(AND(S.I.facts, NOT(said))), site, 'the message of a one-processor error is not always printed')
    return rep.to_dict()


def work(job):
    return {'fft': fft, 'remap': remap, 'error': errors}[job[2]](job[:2])


def run(rep, tier):
    rep.rule = __doc__
    jobs = [(c, d, 'fft') for d in (3, 2) for c in CONFIGS] + [(c, d, 'remap') for d in (3, 2) for c in CONFIGS if 'kiss' in c]
    jobs += [(c, 3, 'error') for c in CONFIGS]
    for d in parallel(work, jobs):
        rep.merge(d)
