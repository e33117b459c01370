"""Width analysis: every integer operation of at most 32 bits (multiplication, addition, shift, narrowing conversion) executed by setup,
tune, compute and the remaps has a closed form; none of them may be a multiple of the number of global grid points, a sum of tile sizes
over processors, or the byte count of a data buffer (anything above a quarter of the bytes handed to an allocation or copy)."""
from fractions import Fraction
from .common import *
from .tune import TuneRun

NEED = ('narrow operations', 'byte counts')


def byte_counts(ev, S, reported=None):
    """closed forms of the sizes (in bytes) of allocations and copies of grid data"""
    out = {}
    for e, c, l in flat(ev):
        if e.kind == 'alloc' and len(e.args) > 1:
            d = e.args[1]
        elif e.kind in ('memcpy', 'memset') and len(e.args) > 2:
            d = e.args[2]
        else:
            continue
        for v in leafvals(d):
            if isinstance(v, Poly) and v.const() is None:
                if e.kind == 'alloc' and reported is not None and not any(same(v, C(S.es) * r) for r in reported):
                    continue
                out.setdefault(v, where(e))
    return out


def ratio(v, b):
    """r when v = r*b + other monomials (r > 0), the smallest ratio over the monomials of b"""
    dv = dict(v.t)
    r = None
    for m, c in b.t:
        if not m:
            continue
        if m not in dv or dv[m] * c <= 0:
            return None
        q = Fraction(dv[m]) / Fraction(c)
        r = q if r is None else min(r, q)
    return r


def summed(v):
    """is v the sum of local tile sizes over all processors"""
    a = v.single_atom()
    if a is None:
        return False
    k = TM.atom_key(a)
    if k[0] == 'allreduce' and 'op_sum' in str(k[1]):
        return any(isinstance(x, Poly) and any(len(m) >= 2 for m, _ in x.t) for x in (leafvals(k[2]) if isinstance(k[2], DD) else [k[2]]))
    return False


def points(S):
    out = []
    for b in (S.inb, S.outb):
        r = ONE
        for lo, hi in b:
            r = r * (hi - lo + 1)
        out.append(r)
    return out


def audit(rep, S, ev, narrow, hist, reported=None):
    F = S.I.facts
    bs = byte_counts(ev, S, reported)
    rep.inst('byte counts', len(bs))
    ext = [list(g.atoms())[0] for g in S.gn] if hasattr(S, 'gn') else []
    done = set()
    for op, d, w, loc, fn, c in narrow:
        rep.inst('narrow operations')
        for v in leafvals(d):
            if not isinstance(v, Poly) or (v, loc) in done:
                continue
            done.add((v, loc))
            site = '%s (%s)' % (sloc(loc), fn)
            why = None
            if ext and any(all(a in m for a in ext) for m, _ in v.t):
                why = 'the number of global grid points'
            elif summed(v):
                why = 'a sum of tile sizes over all processors'
            else:
                for b, wh in bs.items():
                    r = ratio(v, b)
                    if r is not None and r > Fraction(1, 4):
                        why = 'the number of bytes used at %s (%s)' % (wh, pstr(b)[:120])
                        break
            if why is None:
                rep.check(True, '', '', '%s: %d-bit %s is no global or byte count' % (site, w, op))
                continue
            g = AND(c, F, map1(lambda x: TRUE if x is v or x == v else FALSE, d))
            if feasible(g):
                rep.check(False, site, '%s: %s is computed in %d bits (%s): %s' % (hist, why, w, op, pstr(v)[:200]))
    pts = points(S) if hasattr(S, 'inb') else []
    for e, c, l in flat(ev):
        if e.kind == 'call' and e.name == 'MPI_Allreduce' and 'op_sum' in str(e.info.get('op')):
            sz = IN.dtsize(e.args[3])
            for val, r in e.info.get('pairs') or ():
                for v in leafvals(val):
                    if isinstance(v, Poly) and any(same(v, p) for p in pts):
                        rep.inst('sums over processors')
                        rep.check(sz >= 8, where(e), '%s: tile sizes are summed over all processors in %d-byte integers' % (hist, sz),
                                  '%s: sum of tile sizes at %s in 64 bits' % (hist, where(e)))


def work(job):
    rep = Report('C20')
    kind, cfg, dim = job[:3]
    if kind == 'fft':
        ex, mem = job[3:]
        S = FFTSession(cfg, dim)
        S.I.narrow = []
        S.start(exchange=ex, memoryflag=mem)
        ev = list(S.setup(sym('permute', nonneg=True)))
        bi, bo = S.buf('in'), S.buf('out')
        if not mem:
            ev += list(S.call('setup_memory', S.buf('sendbuf')[1], S.buf('recvbuf')[1]))
        ev += list(S.call('compute', bi[1], bo[1], sym('flag')))
        ev += list(S.call('only_remaps', bi[1], bo[1], sym('flag')))
        ev += list(S.call('only_1d_ffts', bi[1], sym('flag')))
        audit(rep, S, ev, S.I.narrow, '%s, exchange %d, memoryflag %d, %s' % (S.cls, ex, mem, cfg))
        # what is reported in bytes must have room for it
        rep.inst('reported byte counts')
        rep.check(S.fs.get('memusage', (0, 8))[1] >= 8 if 'memusage' in S.fs else True, S.cls, '%s: memusage is narrower than 64 bits' % S.cls)
    elif kind == 'tune':
        R = TuneRun(cfg, dim, tmax=job[3], flag=1, tflag=0, niter=1, early=(2, 3), narrow=True)
        S = R.S
        audit(rep, S, R.ev, S.I.narrow, R.hist)
    else:
        coll, pack, perm = job[3:]
        S = Session(cfg, 'Remap%dd' % dim, dict(BASE))
        S.I.narrow = []
        S.ctor(S.world)
        so, ro = S.buf('*sendsize'), S.buf('*recvsize')
        args = []
        for side in ('in', 'out'):
            for a in AX[dim]:
                lo = sym('%s_%slo' % (side, a), nonneg=True)
                args += [lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1]
        S.set('collective', coll)
        S.set('packflag', pack)
        n0 = len(S.I.events)
        S.call('setup', *(args + [sym('nqty', pos=True), C(perm), C(1), so[1], ro[1]]))
        rd = [v for o in (so, ro) for v in leafvals(S.I.read1(S.mem, o[0], ZERO, 4, ir.INT(32))) if isinstance(v, Poly)]
        S.call('remap', S.buf('in')[1], S.buf('out')[1], leaf(NULL), leaf(NULL))
        audit(rep, S, S.I.events[n0:], S.I.narrow, '%s, collective %d, packflag %d, permute %d, %s' % (S.cls, coll, pack, perm, cfg), rd)
    rep.use(S.I)
    return rep.to_dict()


def run(rep, tier):
    rep.rule = __doc__
    jobs = [('fft', c, d, ex, m) for d in (3, 2) for c in CONFIGS for ex in (0, 1) for m in (0, 1)]
    jobs += [('tune', 'kiss-double', d, t) for d in (3, 2) for t in (0, 1)]
    jobs += [('remap', c, d, k, p, q) for d in (3, 2) for c in ('kiss-double', 'kiss-single') for k in (0, 1) for p in (0, 1, 2) for q in range(d)]
    for d in parallel(work, jobs):
        rep.merge(d)
