"""Accounting analysis: memusage after setup is, as a closed form, the sum of the bytes of the send/receive buffers the object allocated itself and
of its remaps' memusage (FFT) or of all blocks setup allocated and kept (Remap); the np* members are the number of pieces per dimension of
the decompositions whose tiles are handed to the remaps (all ranks, all outcomes of the decomposition search, a list of processor counts);
fft1d and precision point to the name of the compiled library and precision."""
from .common import *
from . import c19

SLACK = 128      # bytes: a list entry of the processor's own block may or may not be counted
NEED = ('memusage values', 'decompositions compared', 'names')
ALLOC = ('malloc', 'posix_memalign', 'realloc', 'calloc', 'aligned_alloc', '_Znam', '_Znwm', 'new', 'operator new', 'operator new[]')


def cond_sum(total, c, size):
    """add size under guard c (a block of zero bytes need not be allocated)"""
    def one_(s):
        if not isinstance(s, Poly):
            return leaf(Undef('size'))
        g = simplify(c, NOT(eq0(s)))
        return ite(g, leaf(s), leaf(ZERO))
    add = map1(lambda s: one_(s), size)
    return map2(lambda a, b: a + b if isinstance(a, Poly) and isinstance(b, Poly) else Undef('sum'), total, add)


def opaque_pair(d):
    """d = c*(x - y) with x, y results of loops: the difference of two counts that cannot be compared symbolically"""
    if len(d.t) != 2:
        return False
    (m1, c1), (m2, c2) = d.t
    return c1 == -c2 and len(m1) == 1 and len(m2) == 1 and all(TM.atom_key(m[0])[0] in ('final', 'trip', 'multi', 'rec', 'K') for m in (m1, m2))


def compare(rep, S, mu, want, hist, site, cond=TRUE):
    G = AND(S.alive, S.I.facts, cond)
    d = map2(lambda a, b: a - b if isinstance(a, Poly) and isinstance(b, Poly) else Undef('?'), simplify(mu, G), simplify(want, G))
    for v in leafvals(d):
        rep.inst('memusage values')
        if isinstance(v, Poly) and (v == ZERO or same(v, ZERO)):
            rep.check(True, '', '', '%s: memusage is the sum of the blocks kept' % hist)
            continue
        g = AND(G, map1(lambda x: TRUE if x is v else FALSE, d))
        if g is FALSE or not feasible(g):
            continue
        if not isinstance(v, Poly):
            if any(isinstance(x, Undef) for x in leafvals(simplify(mu, g))):
                rep.check(False, site, '%s: memusage is not set (%s)' % (hist, ddstr(simplify(mu, g))[:100]))
            else:
                rep.assumptions.append('%s: sizes of the blocks not recognised' % hist)
            continue
        if opaque_pair(v):
            rep.inst('undecided')
            rep.assumptions.append('%s: memusage and blocks differ by %s, two loop counts taken to be equal' % (hist, pstr(v)[:160]))
            rep.check(True, '', '')
            continue
        if v.const() is not None and abs(v.const()) <= SLACK:
            rep.check(True, '', '', '%s: memusage is the sum of the blocks kept up to one list entry' % hist)
            continue
        rep.check(False, site, '%s: memusage differs by %s from the bytes allocated and kept, under %s' % (hist, pstr(v)[:300], gstr(g)))


def remap_usage(job):
    _, cfg, dim, coll, mem = job
    rep = Report('C24')
    S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
    S.ctor(S.world)
    so, ro = S.buf('*sendsize'), S.buf('*recvsize')
    args = []
    for side in ('in', 'out'):
        for a in AX[dim]:
            lo = sym('%s_%slo' % (side, a), nonneg=True)
            args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]
    S.set('collective', coll)
    ev = S.call('setup', *(args + [sym('nqty', pos=True), C(0), C(mem), so[1], ro[1]]))
    rep.use(S.I)
    hist = 'Remap%dd::setup, collective %d, memoryflag %d, %s' % (dim, coll, mem, cfg)
    want = leaf(ZERO)
    for e, c, l in flat(ev):
        if e.kind != 'alloc' or not (e.args[0].var is None and isinstance(e.args[0].val, Ptr)):
            continue
        if l:
            rep.assumptions.append('%s: allocation in a loop at %s' % (hist, where(e)))
            return rep.to_dict()
        o = e.args[0].val.obj
        freed = S.mem.get(o).freed if S.mem.get(o) is not None else FALSE
        want = cond_sum(want, AND(c, NOT(freed)), e.args[1])
    compare(rep, S, S.get('memusage', 8), want, hist, 'Remap%dd::setup' % dim)
    return rep.to_dict()


def fft_usage(job):
    _, cfg, dim, ex, mem = job
    rep = Report('C24')
    uses = {}

    def m_setup(I, q, args, mm, cond, ins):
        r = m_remap_setup(I, q, args, mm, cond, ins)
        n = I.ctr['rsetup']
        u = sym('remap_memusage_%d' % n, nonneg=True)
        uses[n] = u
        off = I.prog.fields(q.split('::')[0])['memusage'][0]
        I.store_quiet(mm, map1(lambda v: Ptr(v.obj, v.off + off) if isinstance(v, Ptr) and v.obj is not None else v, args[0]), leaf(u), 8)
        return r
    S = FFTSession(cfg, dim, models={'Remap%dd::setup' % dim: m_setup})
    S.start(exchange=ex, memoryflag=mem)
    perm = sym('permute', nonneg=True)
    ev = list(S.setup(perm))
    rep.use(S.I)
    hist = 'FFT%dd::setup, exchange %d, memoryflag %d, %s' % (dim, ex, mem, cfg)
    want = leaf(ZERO)
    for e, c, l in flat(ev):
        if e.kind == 'remap_setup':
            want = cond_sum(want, c, leaf(uses[e.info['n']]))
        elif e.kind == 'alloc' and len(e.args) > 1:
            at = [x for v in leafvals(e.args[1]) if isinstance(v, Poly) for x in c19._deep_atoms(v)]
            if any('remap_sendsize' in pstr(TM.Poly((((x,), 1),))) or 'remap_recvsize' in pstr(TM.Poly((((x,), 1),))) for x in at):
                o = e.args[0].val.obj if e.args[0].var is None and isinstance(e.args[0].val, Ptr) else None
                freed = S.mem.get(o).freed if o is not None and S.mem.get(o) is not None else FALSE
                want = cond_sum(want, AND(c, NOT(freed)), e.args[1])
    for p in range(dim):
        compare(rep, S, S.get('memusage', 8), want, hist + ', permute %d' % p, 'FFT%dd::setup' % dim, eq0(perm - p))
    names(rep, S, cfg, dim, hist)
    return rep.to_dict()


def names(rep, S, cfg, dim, hist):
    for field, want in (('fft1d', 'KISS' if 'kiss' in cfg else 'FFTW3'), ('precision', 'single' if 'single' in cfg else 'double')):
        if field not in S.fs:
            continue
        d = simplify(S.get(field, 8, ptr=True), AND(S.alive, S.I.facts))
        for v in leafvals(d):
            rep.inst('names')
            t = S.prog.cstring(v) if isinstance(v, Ptr) else None
            if t is None and isinstance(v, Ptr) and v.obj is not None and v.obj.kind != 'global':
                rep.assumptions.append('%s: %s is not a constant string' % (hist, field))
                continue
            g = AND(S.alive, S.I.facts, map1(lambda x: TRUE if x is v else FALSE, d))
            if t != want and not feasible(g):
                continue
            rep.check(t == want, 'FFT%dd' % dim, '%s: %s is %r, compiled is %r' % (hist, field, t if t is not None else str(v), want),
                      '%s: %s names %s' % (hist, field, want))


def decomps(job):
    _, cfg, dim, ex, nprocs = job
    rep = Report('C24')
    S = FFTSession(cfg, dim, models={'MPI_Comm_size': c19.m_size(nprocs), 'sqrt': c19.m_sqrt, 'sqrtf': c19.m_sqrt})
    S.I.unroll, S.I.fdecide, S.I.fchoice = 4 * nprocs + 60, True, nprocs > 5
    S.start(**({'exchange': ex} if dim == 3 else {}))
    ev = S.setup(0)
    rep.use(S.I)
    hist = 'FFT%dd::setup [%s, %d processors, exchange %s]' % (dim, cfg, nprocs, ex)
    kinds = ('fast', 'mid', 'slow', 'brick') if dim == 3 else ('fast', 'slow')
    T, found = [], []
    for k in kinds:
        fs = ['np%s%d' % (k, i + 1) for i in range(dim)]
        if all(f in S.fs for f in fs):
            found.append(k)
            T += [S.get(f) for f in fs]
    if not found:
        rep.assumptions.append('%s: no decomposition members' % hist)
        return rep.to_dict()
    rk = RANK.single_atom()
    seen = set()
    for e, c, l in flat(ev):
        if e.kind != 'remap_setup' or len(e.info['bounds']) != 4 * dim:
            continue
        bs = e.info['bounds']
        G = AND(c, S.I.facts)
        for half in (bs[:2 * dim], bs[2 * dim:]):
            half = [simplify(x, G) for x in half]
            key = tuple(x.id for x in half)
            if key in seen:
                continue
            seen.add(key)
            allr = leaf(())
            for r in range(nprocs):
                s = TM.Subst({rk: C(r)})
                allr = map2(lambda a, b: a + (b,), allr, dtuple([s.dd(x) for x in half]))
            both = map2(lambda a, b: (a, b), allr, simplify(dtuple(T), G))
            for boxes, nps in leafvals(both):
                ok = decomp_ok(S, dim, boxes, nps, found, nprocs)
                if ok is None:
                    continue
                rep.inst('decompositions compared')
                if not ok:
                    g = AND(G, map1(lambda x: TRUE if x == (boxes, nps) else FALSE, both))
                    if g is FALSE or not feasible(g):
                        continue
                rep.check(ok, where(e), '%s: the %d-processor decomposition handed to the remap is none of the reported ones (%s)'
                          % (hist, nprocs, ', '.join('%s %s' % (k, 'x'.join('?' if not isinstance(x, Poly) else pstr(x) for x in nps[dim * i:dim * i + dim]))
                                                     for i, k in enumerate(found))),
                          '%s: decomposition at %s is one of those reported' % (hist, where(e)))
    return rep.to_dict()


def decomp_ok(S, dim, boxes, nps, found, nprocs):
    """does the number of pieces per dimension equal a reported decomposition; None when this is not a computed partition"""
    fl = [x for b in boxes for x in b]
    if any(not isinstance(x, Poly) for x in fl):
        return None
    known = set(a for x in S.gn for a in x.atoms())
    if any(c19._deep_atoms(x) - known for x in fl):
        return None
    perms = [p for p in c19.itertools.permutations(range(dim)) if c19.tiles_closed(boxes, [S.gn[i] for i in p])]
    if not perms:
        return None
    for p in perms:
        cnt = [0] * dim
        for d in range(dim):
            cnt[p[d]] = len({(b[2 * d], b[2 * d + 1]) for b in boxes})
        for i in range(len(found)):
            t = nps[dim * i:dim * i + dim]
            if all(isinstance(x, Poly) and x == C(n) for x, n in zip(t, cnt)):
                whole = {'fast': 0, 'mid': 1, 'slow': dim - 1}.get(found[i])
                if whole is None or cnt[whole] == 1:
                    return True
    return False


def work(job):
    return {'remap': remap_usage, 'fft': fft_usage, 'np': decomps}[job[0]](job)


def run(rep, tier):
    rep.rule = __doc__
    jobs = [('fft', c, d, ex, m) for d in (3, 2) for c in CONFIGS for ex in ((0, 1) if d == 3 else (0,)) for m in (0, 1)]
    jobs += [('remap', c, d, k, m) for d in (3, 2) for c in ('kiss-double', 'kiss-single') for k in (0, 1) for m in (0, 1)]
    ns = {(3, 0): [1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 24, 30], (3, 1): [1, 2, 3, 4, 6, 8, 12, 16], (2, 0): [1, 2, 3, 4, 6, 8, 12, 16, 32]}
    if tier == 'thorough':
        ns = c19.DEEP
    jobs += [('np', 'kiss-double', d, ex, n) for (d, ex), l in ns.items() for n in sorted(l, reverse=True)]
    for d in parallel(work, jobs):
        rep.merge(d)
