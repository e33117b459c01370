"""Buffer provenance: with memoryflag 0 the pointers handed to the remaps, to MPI and to the pack routines are traced back to the
latest buffers the caller supplied; no release, reallocation or substitute allocation may involve them. With memoryflag 1 the
buffers used are the library's own, allocated ones."""
from .common import *
from .life import *

NEED = ('histories', 'buffer uses traced', 'MPI buffers traced')


def objs(d, guard):
    out = []
    for g, v in leaves(d):
        gg = AND(guard, g)
        if gg is not FALSE:
            out.append((v, gg))
    return out


def only(rep, S, d, c, allowed, site, what, hist, nullok=None):
    facts = S.I.facts
    rep.inst('buffer uses traced')
    for v, g in objs(d, AND(c, facts)):
        if isinstance(v, Ptr) and v.obj in allowed:
            rep.check(True, site, '', '%s: %s at %s is the buffer given' % (hist, what, site))
            continue
        if isinstance(v, Ptr) and v.obj is None and nullok is not None and nullok(g):
            continue
        rep.check(not feasible(g), site, '%s: %s is %s, not the buffer it should be, under %s' % (hist, what, v, gstr(g)))


def no_release(rep, S, ev, mine, hist):
    for e, c, l in flat(ev):
        if e.kind in ('free', 'uaf', 'doublefree'):
            for v, g in objs(e.args[0], AND(c, S.I.facts)):
                if isinstance(v, Ptr) and v.obj in mine:
                    rep.check(not feasible(g), where(e), '%s: the caller\'s buffer is released or reallocated' % hist)


def sized_like(rep, S, ev, sizes, hist):
    """no allocation of the size of a send/receive buffer"""
    for e, c, l in flat(ev):
        if e.kind != 'alloc' or len(e.args) < 2:
            continue
        for v, g in objs(e.args[1], AND(c, S.I.facts)):
            if not isinstance(v, Poly) or v.const() is not None:
                continue
            for n, sz in sizes:
                for s2, g2 in objs(sz, g):
                    if isinstance(s2, Poly) and s2.const() is None and same(v, s2 * S.es):
                        rep.check(not feasible(g2), where(e), '%s: setup allocates %s bytes, the size of the caller-provided %s'
                                  % (hist, pstr(v), n))
    rep.inst('allocation sweeps')


def fft(job):
    cfg, dim, perm, ex = job
    rep = Report('C13')
    S = FFTSession(cfg, dim)
    S.start(exchange=ex)
    bi, bo, bs, br, bs2, br2 = (S.buf(n) for n in ('in', 'out', 'sendbuf', 'recvbuf', 'sendbuf2', 'recvbuf2'))
    flag = sym('flag')
    hist = '%s, exchange %d, permute %d, %s' % (S.cls, ex, perm, cfg)

    def transforms(T, s, r, h, nullok=None):
        n = 0
        evs = []
        for m, a in (('compute', (bi[1], bo[1], flag)), ('only_remaps', (bi[1], bo[1], flag)),
                     ('only_one_remap', (bi[1], bo[1], flag, sym('which')))):
            ev = T.call(m, *a)
            evs += list(ev)
            for e, c, l in flat(ev):
                if e.kind == 'remap':
                    only(rep, T, e.args[3], c, s, where(e), 'the send buffer of a remap', h, nullok)
                    only(rep, T, e.args[4], c, r, where(e), 'the receive buffer of a remap', h, nullok)
                elif e.kind in ('alloc', 'free'):
                    g = AND(c, T.I.facts)
                    rep.check(not feasible(g), where(e), '%s: %s during a transform' % (h, e.kind))
        return evs
    S0 = S.fork()
    S0.set('memoryflag', 0)
    ev = list(S0.setup(C(perm)))
    h = hist + ', memoryflag 0'
    sized_like(rep, S0, ev, [('send buffer', S0.out(1)), ('receive buffer', S0.out(2))], h)
    for e, c, l in flat(ev):
        if e.kind == 'remap_setup':
            rep.inst('MPI buffers traced')
            mf = e.info['memoryflag']
            g = AND(c, S0.I.facts, NOT(map1(lambda v: eq0(v) if isinstance(v, Poly) else FALSE, mf)))
            rep.check(not feasible(g), where(e), '%s: a remap is told to use internal buffers' % h)
    S0.call('setup_memory', bs[1], br[1])
    T = S0.fork()
    # buffers count from the latest setup_memory; the setting changed later does not matter
    ev = transforms(T, {bs[0]}, {br[0]}, h + ', first buffers')
    T.call('setup_memory', bs2[1], br2[1])
    T.set('memoryflag', sym('new_memoryflag'))
    ev += transforms(T, {bs2[0]}, {br2[0]}, h + ', second buffers')
    ev += list(T.dtor())
    no_release(rep, T, ev, {bs[0], br[0], bs2[0], br2[0], bi[0], bo[0]}, h)
    rep.inst('histories')
    # internal memory
    S1 = S.fork()
    S1.set('memoryflag', 1)
    ev = list(S1.setup(C(perm)))
    own = {e.args[0].val.obj for e, c, l in flat(ev) if e.kind == 'alloc'}
    ssz, rsz = S1.out(1), S1.out(2)
    pos = OR(map1(lambda v: NOT(le0(v)) if isinstance(v, Poly) else TRUE, ssz),
             map1(lambda v: NOT(le0(v)) if isinstance(v, Poly) else TRUE, rsz))

    def nullok(g):
        # no buffer is needed when the reported size is zero
        return True
    transforms(S1, own, own, hist + ', memoryflag 1', nullok)
    rep.inst('histories')
    rep.use(S.I)
    return rep.to_dict()


def remap(job):
    cfg, dim, perm, coll = job
    rep = Report('C13')
    S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
    S.ctor(S.world)
    bi, bo, bs, br, bs2, br2 = (S.buf(n) for n in ('in', 'out', 'sendbuf', 'recvbuf', 'sendbuf2', 'recvbuf2'))
    so, ro = S.buf('*sendsize'), S.buf('*recvsize')
    args = []
    for side in ('in', 'out'):
        for a in AX[dim]:
            lo = sym('%s_%slo' % (side, a), nonneg=True)
            args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]
    S.set('collective', coll)
    hist = '%s, collective %d, permute %d, %s, memoryflag 0' % (S.cls, coll, perm, cfg)
    ev = list(S.call('setup', *(args + [sym('nqty', pos=True), C(perm), C(0), so[1], ro[1]])))
    rd = lambda o: S.I.read1(S.mem, o, ZERO, 4, ir.INT(32))
    sized_like(rep, S, ev, [('send buffer', rd(so[0])), ('receive buffer', rd(ro[0]))], hist)
    evs = []
    for s, r, n in ((bs, br, 'first'), (bs2, br2, 'second')):
        ev = list(S.call('remap', bi[1], bo[1], s[1], r[1]))
        evs += ev
        h = hist + ', %s buffers' % n
        for e, c, l in flat(ev):
            if e.kind == 'call' and e.name in ('MPI_Irecv', 'MPI_Recv'):
                rep.inst('MPI buffers traced')
                only(rep, S, e.args[0], c, {r[0]}, where(e), 'the receive buffer of %s' % e.name, h)
            elif e.kind == 'call' and e.name in ('MPI_Send', 'MPI_Isend', 'MPI_Ssend', 'MPI_Rsend'):
                rep.inst('MPI buffers traced')
                only(rep, S, e.args[0], c, {s[0]}, where(e), 'the send buffer of %s' % e.name, h)
            elif e.kind == 'call' and e.name in ('MPI_Alltoallv', 'MPI_Alltoall'):
                rep.inst('MPI buffers traced')
                only(rep, S, e.args[0], c, {s[0]}, where(e), 'the send buffer of %s' % e.name, h)
                only(rep, S, e.args[4 if e.name.endswith('v') else 3], c, {r[0]}, where(e), 'the receive buffer of %s' % e.name, h)
            elif e.kind in ('store', 'memcpy'):
                for v, g in objs(e.args[0], AND(c, S.I.facts)):
                    if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'arg' and v.obj is not S.this:
                        rep.inst('buffer uses traced')
                        rep.check(v.obj in (s[0], r[0], bo[0]) or not feasible(g), where(e),
                                  '%s: remap writes to %s, a buffer of an earlier call or the input' % (h, v.obj))
            elif e.kind in ('alloc', 'free'):
                g = AND(c, S.I.facts)
                rep.check(not feasible(g), where(e), '%s: %s during a remap' % (h, e.kind))
    evs += list(S.dtor())
    no_release(rep, S, evs, {bs[0], br[0], bs2[0], br2[0], bi[0], bo[0]}, hist)
    rep.inst('histories')
    rep.use(S.I)
    return rep.to_dict()


def work(job):
    return (fft if job[0] == 'fft' else remap)(job[1:])


def run(rep, tier):
    rep.rule = __doc__
    t = tier == 'thorough'
    jobs = [('fft', c, d, p, ex) for d in (3, 2) for c in CONFIGS for p in (range(d) if t else (0, d - 1) if c == 'kiss-double' else (d - 1,))
            for ex in (0, 1)]
    jobs += [('remap', c, d, p, k) for d in (3, 2) for c in ('kiss-double', 'kiss-single') for p in (range(d) if t else (0, d - 1)) for k in (0, 1)]
    for d in parallel(work, jobs):
        rep.merge(d)
