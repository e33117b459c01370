"""Rejection analysis: the guard under which setup survives is computed for arbitrary (unconstrained) arguments; every documented
kind of invalid argument, on this processor or (through the reductions) on another one, must contradict that guard; and no
error guard over the arguments may be satisfiable by valid arguments."""
from .common import *

NEED = ('API calls analysed', 'rejections decided', 'error sites', 'extents decided')

MAXPERM = {3: 2, 2: 1}


def lt(a, b):
    """a < b"""
    return le0(a - b + 1)


def reductions(ev):
    """(value, result, op) of every reduced element"""
    out = []
    for e, c, l in flat(ev):
        if e.kind == 'call' and e.name == 'MPI_Allreduce':
            for v, r in e.info.get('pairs', ()):
                out.append((v, r, e.info['op'], c, e))
    return out


def args_of(S):
    return list(S.gn) + [x for b in S.inb + S.outb for x in b]


def bad_args(S):
    """documented kinds of invalid arguments: (text, guard, may concern one processor only)"""
    out = []
    for n, g in zip(GN[S.dim], S.gn):
        out.append(('%s < 2' % n, lt(g, C(2)), False))
    out.append(('permute < 0', lt(S.perm, ZERO), False))
    out.append(('permute > %d' % MAXPERM[S.dim], lt(C(MAXPERM[S.dim]), S.perm), False))
    for side, bs in (('input', S.inb), ('output', S.outb)):
        for (lo, hi), a, g, n in zip(bs, AX[S.dim], S.gn, GN[S.dim]):
            out.append(('%s %slo < 0' % (side, a), lt(lo, ZERO), True))
            out.append(('%s %shi >= %s' % (side, a, n), le0(g - hi), True))
            out.append(('%s %slo > %shi+1' % (side, a, a), lt(hi + 1, lo), True))
    return out


def valid(S):
    v = TRUE
    for _, b, _ in bad_args(S):
        v = AND(v, NOT(b))
    return v


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def one(job):
    cfg, dim = job
    rep = Report('C10')
    S = FFTSession(cfg, dim, valid=False)
    S.start()
    rep.inst('API calls analysed')
    S.perm = sym('permute')
    ev = S.setup(S.perm)
    rep.use(S.I)
    fname = 'FFT%dd::setup' % dim
    site = '%s [%s]' % (fname, cfg)
    facts = S.I.facts
    alive = S.alive
    errs = [(e, c) for e, c, l in flat(ev) if e.kind == 'error']
    rep.inst('error sites', len(errs))
    red = reductions(ev)
    # the same reductions seen from another processor: its bounds are different symbols, its results the same
    loc = [x for b in S.inb + S.outb for x in b]
    sub = Subst({x.single_atom(): sym('other_' + pstr(x)) for x in loc})
    ofacts = TRUE
    for v, r, op, c, e in red:
        try:
            ov = sub.dd(v)
        except Exception:
            continue
        nn = is_nonneg_dd(v)

        def fact(x):
            if not isinstance(x, Poly):
                return TRUE
            if 'op_max' in op or 'op_lor' in op or 'op_bor' in op or ('op_sum' in op and nn):
                return le0(x - r)
            if 'op_min' in op or 'op_land' in op:
                return le0(r - x)
            return TRUE
        ofacts = AND(ofacts, map1(fact, ov))
    for text, b, local in bad_args(S):
        rep.inst('rejections decided')
        g = AND(alive, facts, b)
        rep.check(not feasible(g), site, 'setup accepts %s: it survives under %s' % (text, gstr(g)),
                  '%s: setup cannot survive %s' % (site, text))
        if local:
            rep.inst('rejections decided')
            g = AND(alive, ofacts, facts, sub.dd(b))
            rep.check(not feasible(g), site, 'a processor survives setup although another one passed %s: %s' % (text, gstr(g)),
                      '%s: setup stops everywhere when one processor passes %s' % (site, text))
    # the tile sizes must add up to the grid, on input and output
    N = prod(S.gn)
    v = valid(S)
    sumok = {}
    for side, bs in (('input', S.inb), ('output', S.outb)):
        want = prod([hi - lo + 1 for lo, hi in bs])
        hits = []
        for val, r, op, c, e in red:
            if 'op_sum' not in op:
                continue
            sv = simplify(val, AND(c, v)) if val.var is not None else val
            if sv.var is None and isinstance(sv.val, Poly) and same(sv.val, want):
                hits.append((r, e))
        rep.inst('rejections decided')
        good = False
        for r, e in hits:
            sumok[r] = N
            if not feasible(AND(alive, v, NOT(eq0(r - N)))):
                good = True
        if not hits and any(val.var is None and isinstance(val.val, Undef) for val, *_ in red):
            rep.assumptions.append('%s: the tiling sum of the %s bounds was not recognised' % (site, side))
            continue
        rep.check(good, site, 'setup does not require the %s tiles of all processors to add up to the global grid '
                  '(sum of %s over all processors compared with %s)' % (side, pstr(want), pstr(N)),
                  '%s: the sum of %s over processors must equal %s' % (site, pstr(want), pstr(N)))
    # valid arguments on all processors are accepted
    vf = v
    known = set(a for x in args_of(S) + [S.perm] for a in x.atoms())
    for val, r, op, c, e in red:
        ra = r.single_atom()
        if r in sumok:
            vf = AND(vf, eq0(r - N))
            known.add(ra)
        elif 'op_max' in op or 'op_sum' in op:
            if not feasible(AND(v, c, NOT(map1(lambda x: eq0(x) if isinstance(x, Poly) else FALSE, val)))):
                vf = AND(vf, eq0(r))
                known.add(ra)
    before = TRUE
    factored, other = set(), []
    for e, c in errs:
        passed = dd_atoms(before)
        new = dd_atoms(c) - known - passed
        before = AND(before, NOT(c))
        factor_roots(S, new, S.gn, factored, other)
        if new:
            continue
        bad = AND(c, vf)
        rep.check(not feasible(bad), where(e), 'setup can reject valid arguments: error "%s" under %s' % (e.info.get('msg'), gstr(bad)),
                  '%s: error "%s" only for invalid arguments' % (where(e), e.info.get('msg')))
    # an extent with a forbidden prime factor: the error guards examine every extent or none
    if factored:
        for n, g in zip(GN[dim], S.gn):
            rep.inst('rejections decided')
            rep.check(g in factored or other, site, 'no error guard examines the prime factors of %s' % n,
                      '%s: an error guard divides %s by the allowed primes' % (site, n))
    # nothing is built before the checks are over
    order_rule(rep, S, ev, errs, site)
    return rep.to_dict()


def factor_roots(S, atoms, gn, hit, other):
    """which extents do loop results in an error guard start from"""
    for a in atoms:
        r = S.I.recs.get(a)
        if not r or 'rec' not in r:
            continue
        init = S.I.recs[r['rec']]['init']
        if init.var is None and isinstance(init.val, Poly) and init.val in gn:
            hit.add(init.val)
        elif dd_atoms(init) & set(a for g in gn for a in g.atoms()) or (init.var is None and isinstance(init.val, Poly)
                                                                     and init.val.const() is None):
            other.append(init)


def order_rule(rep, S, ev, errs, site):
    """remaps, plans and communicators are only made under the surviving guard of the argument checks"""
    bads = [b for _, b, _ in bad_args(S)]
    anybad = OR(*bads)
    for e, c, l in flat(ev):
        if e.kind in ('remap_setup', 'alloc') or (e.kind == 'call' and e.name in ('MPI_Comm_create', 'MPI_Comm_split')):
            rep.inst('construction sites')
            g = AND(c, S.I.facts, anybad)
            rep.check(not feasible(g), where(e), 'setup already builds (%s) although an argument is invalid: %s' % (e.kind, gstr(g)),
                      '%s happens only with valid arguments' % where(e))


def tune_args(job):
    """tune refuses invalid tuning arguments before doing anything"""
    cfg, dim = job
    rep = Report('C10')

    def m_setup(I, q, args, mem, cond, ins):
        I.emit('setup_call', q, [I.under(a) for a in args])
        return None, FALSE
    S = FFTSession(cfg, dim, valid=False, models={'FFT%dd::setup' % dim: m_setup})
    S.start()
    S.perm = sym('permute')
    flag, niter, tflag = sym('flag'), sym('niter'), sym('tflag')
    tmax = sym('tmax')
    ev = S.call('tune', *(S.setup_args(S.perm) + [flag, niter, tmax, tflag]))
    rep.use(S.I)
    rep.inst('API calls analysed')
    site = 'FFT%dd::tune [%s]' % (dim, cfg)
    acts = [(e, c) for e, c, l in flat(ev) if e.kind not in ('error', 'loop', 'load')]
    for text, b in (('flag < -1', lt(flag, C(-1))), ('flag > 1', lt(C(1), flag)), ('niter <= 0', le0(niter)),
                    ('tflag < 0', lt(tflag, ZERO)), ('tflag > 1', lt(C(1), tflag))):
        rep.inst('rejections decided')
        for e, c in acts:
            if e.kind == 'store':
                continue
            g = AND(c, S.I.facts, b)
            if not rep.check(not feasible(g), where(e), 'tune goes on (%s %s) although %s' % (e.kind, e.name, text),
                             '%s: not reached when %s' % (where(e), text)):
                break
        g = AND(S.alive, S.I.facts, b)
        rep.check(not feasible(g), site, 'tune returns normally although %s' % text)
    # setup is handed the caller's arguments: then everything setup rejects is rejected by tune
    calls = [(e, c) for e, c in acts if e.kind == 'setup_call']
    rep.inst('error sites', sum(1 for e, c, l in flat(ev) if e.kind == 'error'))
    rep.inst('calls of setup in tune', len(calls))
    rep.check(bool(calls), site, 'tune never calls setup')
    want = S.setup_args(S.perm)[:-3]
    for e, c in calls:
        for i, w in enumerate(want):
            a = e.args[1 + i]
            ok = a.var is None and isinstance(a.val, Poly) and same(a.val, w)
            rep.check(ok, where(e), 'tune passes %s to setup as argument %d, the caller gave %s' % (ddstr(a), i + 1, pstr(w)),
                      '%s: argument %d of setup is the caller\'s %s' % (where(e), i + 1, pstr(w)))
    return rep.to_dict()


GOOD_N, BAD_N = (2, 3, 5, 90, 128), (7, 11, 13, 14, 49, 66, 169, 1024 * 17)


def extents(job):
    """documented extents (products of 2, 3, 5) are accepted and all others refused, decided for a list of extents per dimension"""
    cfg, dim = job
    rep = Report('C10')

    def m_stop(I, q, args, mem, cond, ins):
        I.emit('accepted', q, [])           # the checks are over once the processors are factored; the rest is not needed here
        return leaf(ZERO), FALSE
    for d in range(dim):
        for n in BAD_N + GOOD_N:
            S = FFTSession(cfg, dim, models={'FFT%dd::factor' % dim: m_stop})
            S.I.unroll = 60
            S.start()
            S.gn = [C(n) if k == d else C(4) for k in range(dim)]
            ev = S.setup(0)
            rep.use(S.I)
            rep.inst('extents decided')
            site = 'FFT%dd::setup [%s]' % (dim, cfg)
            errs = [(e, c) for e, c, l in flat(ev) if e.kind == 'error']
            if n in BAD_N:
                g = AND(OR(S.alive, *[c for e, c, l in flat(ev) if e.kind == 'accepted']), S.I.facts)
                dead = g is FALSE or not feasible(g)
                if not dead and any(opaque_guard(c) for e, c in errs):
                    rep.assumptions.append('%s: refusal of %s = %d not decided' % (site, GN[dim][d], n))
                    continue
                rep.check(dead, site, 'setup accepts %s = %d, which is not a product of 2, 3 and 5' % (GN[dim][d], n),
                          '%s: %s = %d is refused' % (site, GN[dim][d], n))
            else:
                bad = [e for e, c in errs if AND(c, S.I.facts) is TRUE or c is TRUE]
                rep.check(not bad, where(bad[0]) if bad else site,
                          'setup refuses %s = %d (error "%s")' % (GN[dim][d], n, bad[0].info.get('msg') if bad else 'none'),
                          '%s: %s = %d is accepted' % (site, GN[dim][d], n))
    return rep.to_dict()


def opaque_guard(c):
    return any(TM.atom_key(a)[0] in ('final', 'multi', 'rec', 'trip') for a in dd_atoms(c))


def work(job):
    return {'setup': one, 'tune': tune_args, 'ext': extents}[job[2]](job[:2])


def run(rep, tier):
    rep.rule = __doc__
    jobs = [(c, d, k) for k in ('setup', 'tune') for d in (3, 2) for c in CONFIGS] + [(c, d, 'ext') for d in (3, 2) for c in ('kiss-double', 'fftw3-single')]
    for d in parallel(work, jobs):
        rep.merge(d)
