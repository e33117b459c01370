"""C19: every tile FFT setup hands to a remap is, taken over all processors, either the caller's own tiling or an exact partition
of the grid: from the closed forms of the tile bounds, rank by rank, the index ranges of each dimension start at 0, follow each
other without gap or overlap, end at extent-1, and every combination of ranges belongs to exactly one processor. Decided for all
grid extents (closed forms in the extents) and all outcomes of the surface comparisons, for a list of processor counts."""
import itertools
import math
from fractions import Fraction
from .common import *
from sa.terms import Subst

QUICK = {(3, 0): list(range(1, 41)) + [42, 45, 48, 50, 54, 60, 64, 72, 96], (3, 1): list(range(1, 13)) + [14, 15, 16, 18, 20],
         (2, 0): list(range(1, 65)) + [72, 80, 90, 96, 100, 121, 128]}
DEEP = {(3, 0): list(range(1, 65)) + [72, 96, 128], (3, 1): list(range(1, 21)) + [24],
        (2, 0): list(range(1, 129))}


def m_size(n):
    def m(I, q, args, mem, cond, ins):
        I.emit('call', q, args)
        I.store_quiet(mem, args[1], leaf(C(n)), 4)
        return leaf(ZERO), TRUE
    return m


def m_sqrt(I, q, args, mem, cond, ins):
    def f(v):
        c = v.const() if isinstance(v, Poly) else None
        if c is None or c < 0:
            return A(('fn_sqrt', v)) if isinstance(v, Poly) else Undef('sqrt')
        if c.denominator == 1 if isinstance(c, Fraction) else True:
            r = math.isqrt(int(c))
            if r * r == c:
                return C(r)
        return C(Fraction(math.sqrt(c)))
    return map1(f, args[0]), TRUE


def user_tile(S, box):
    """which of the caller's tiles a box is (a dimension may be given as the whole extent), or None"""
    names = []
    for side, bs in (('in', S.inb), ('out', S.outb)):
        for perm in itertools.permutations(range(S.dim)):
            ok, whole = True, []
            for d, (lo, hi) in enumerate([bs[q] for q in perm]):
                if (box[2 * d], box[2 * d + 1]) == (lo, hi):
                    continue
                if box[2 * d] == ZERO and box[2 * d + 1] == S.gn[perm[d]] - 1:
                    whole.append(perm[d])
                    continue
                ok = False
            if ok and len(whole) < S.dim:
                names.append((side, perm, tuple(whole)))
    return names


def chain(pairs, n):
    """order index ranges so that each starts after the previous one; None when they do not cover 0..n-1"""
    left, at, out = list(pairs), ZERO, []
    while left:
        nxt = [p for p in left if p[0] == at]
        if len(nxt) != 1:
            return None
        out.append(nxt[0])
        left.remove(nxt[0])
        at = nxt[0][1] + 1
    return out if at == n else None


def tiles_closed(boxes, ext):
    dim = len(ext)
    if len(set(boxes)) != len(boxes):
        return False
    total = 1
    for d in range(dim):
        pairs = []
        for b in boxes:
            p = (b[2 * d], b[2 * d + 1])
            if p not in pairs:
                pairs.append(p)
        if chain(pairs, ext[d]) is None:
            return False
        total *= len(pairs)
    return total == len(boxes)


def tiles_eval(boxes, ext, nprocs):
    """None when the boxes partition the grid for every evaluated grid, else a description"""
    atoms = [e.atoms() for e in ext]
    for step in range(2 * nprocs + 8):
        vals = [2 + step % (2 * nprocs + 8), 2 + (step * 3 + 1) % (nprocs + 7), 2 + (step * 5 + 2) % (nprocs + 5)][:len(ext)]
        base = {}
        for e, v in zip(ext, vals):
            a = list(e.atoms())[0]
            base[a] = v - (Env(0, base={a: 0}).poly(e))
        env = Env(step, base=base)
        seen = set()
        for b in boxes:
            iv = [int(env.poly(x)) for x in b]
            rng = [range(max(iv[2 * d], -1), min(iv[2 * d + 1], vals[d]) + 1) for d in range(len(ext))]
            cells = [()]
            for r in rng:
                cells = [c + (i,) for c in cells for i in r]
            for c in cells:
                if c in seen or any(i < 0 or i >= n for i, n in zip(c, vals)):
                    return 'grid %s: point %s is outside the grid or in two tiles' % ('x'.join(map(str, vals)), c)
                seen.add(c)
        want = 1
        for v in vals:
            want *= v
        if len(seen) != want:
            return 'grid %s: %d of %d points belong to no processor' % ('x'.join(map(str, vals)), want - len(seen), want)
    return None


def choice_vars(g):
    return any(var_key(v)[:2] == ('b', 'fchoice') for v in g.sup)


def one(job):
    cfg, dim, exch, nprocs = job
    rep = Report('C19')
    S = FFTSession(cfg, dim, models={'MPI_Comm_size': m_size(nprocs), 'sqrt': m_sqrt, 'sqrtf': m_sqrt})
    S.I.unroll = 4 * nprocs + 60
    S.I.fdecide = True
    S.I.fchoice = nprocs > 5
    S.start(**({'exchange': exch} if exch is not None and dim == 3 else {}))
    ev = S.setup(0)
    rep.use(S.I)
    site = 'FFT%dd::setup [%s, %d processors, exchange %s]' % (dim, cfg, nprocs, exch)
    rep.inst('processor counts')
    rk = RANK.single_atom()
    seen = {}
    found = False
    for e, c, l in flat(ev):
        if e.kind != 'remap_setup':
            continue
        found = True
        rep.inst('remap constructions')
        bs = e.info['bounds']
        if len(bs) != 4 * dim:
            rep.assumptions.append('%s: %s: remap bounds not recognised' % (site, where(e)))
            continue
        for half, what in ((bs[:2 * dim], 'input'), (bs[2 * dim:], 'output')):
            T = simplify(dtuple(half), AND(c, S.I.facts))
            if T.id in seen:
                continue
            seen[T.id] = T
            tiling(rep, S, [simplify(x, AND(c, S.I.facts)) for x in half], AND(c, S.I.facts), nprocs, rk, e, what, site)
    if not found:
        rep.assumptions.append('%s: no remap construction seen' % site)
    return rep.to_dict()


def tiling(rep, S, half, cond, nprocs, rk, e, what, site):
    allr = leaf(())
    for r in range(nprocs):
        s = Subst({rk: C(r)})
        Tr = dtuple([s.dd(x) for x in half])
        allr = map2(lambda a, b: a + (b,), allr, Tr)
    for boxes in leafvals(allr):
        rep.inst('tilings decided')
        flatv = [x for b in boxes for x in b]
        if any(not isinstance(x, Poly) for x in flatv):
            g = AND(cond, map1(lambda v: TRUE if v == boxes else FALSE, allr))
            if not feasible(g):
                continue
            if choice_vars(g):
                rep.assumptions.append('%s: %s: an undefined tile bound could not be excluded' % (site, where(e)))
                continue
            rep.check(False, where(e), '%s: the %s tile of the remap has an undefined bound (%s) under %s'
                      % (site, what, ', '.join('?' if not isinstance(x, Poly) else pstr(x) for x in boxes[0]), gstr(g)))
            continue
        users = [user_tile(S, b) for b in boxes]
        if all(users):
            common = set(users[0])
            for u in users[1:]:
                common &= set(u)
            ok = False
            g = None
            for side, _, whole in sorted(common):
                bad = FALSE
                bb = S.inb if side == 'in' else S.outb
                for d in whole:
                    bad = OR(bad, NOT(eq0(bb[d][0])), NOT(eq0(bb[d][1] - S.gn[d] + 1)))
                if g is None:
                    g = AND(cond, map1(lambda v: TRUE if v == boxes else FALSE, allr))
                if bad is FALSE or not feasible(AND(g, bad)):
                    ok = True
            rep.check(ok, where(e), '%s: the %s tile is the whole extent where the caller\'s tile need not be: %s'
                      % (site, what, ' '.join(pstr(x) for x in boxes[0])),
                      '%s: %s tiles of all processors are the caller\'s' % (where(e), what))
            continue
        local = set(a for lo, hi in S.inb + S.outb for a in (lo.atoms() | hi.atoms()))
        if any(x.atoms() & local for x in flatv):
            if any(users):
                rep.check(False, where(e), '%s: the %s tiles are the caller\'s on some processors and not on others' % (site, what))
            else:
                rep.assumptions.append('%s: %s: tile bounds mix caller bounds with computed ones' % (site, where(e)))
            continue
        ext = S.gn
        known = set(a for x in ext for a in x.atoms())
        if any(_deep_atoms(x) - known for x in flatv):
            rep.assumptions.append('%s: %s: tile bounds depend on values without closed form' % (site, where(e)))
            continue
        if any(tiles_closed(boxes, x) for x in itertools.permutations(ext)):
            rep.check(True, where(e), '', '%s: the %s tiles of %d processors partition the grid' % (where(e), what, nprocs))
            continue
        bad = None
        for x in itertools.permutations(ext):
            bad = tiles_eval(boxes, x, nprocs)
            if bad is None:
                break
        rep.check(bad is None, where(e), '%s: the %s tiles of the processors do not partition the grid: %s (tile of processor 0: %s)'
                  % (site, what, bad, ' '.join(pstr(x) for x in boxes[0])),
                  '%s: the %s tiles of %d processors partition every evaluated grid' % (where(e), what, nprocs))


def _deep_atoms(x, seen=None):
    """the atoms a closed form is built of, looking into quotients, remainders, minima and maxima"""
    out = set()
    for a in x.atoms():
        k = TM.atom_key(a)
        if k[0] in ('idiv', 'imod', 'min', 'max', 'udiv', 'urem'):
            for y in k[1:]:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, Poly):
                        out |= _deep_atoms(z)
        else:
            out.add(a)
    return out


def work(job):
    return one(job)


def run(rep, tier):
    rep.rule = __doc__
    tab = DEEP if tier == 'thorough' else QUICK
    jobs = []
    for (dim, exch), ns in tab.items():
        for n in ns:
            jobs.append(('kiss-double', dim, exch, n))
            if n in (4, 6):
                jobs += [(c, dim, exch, n) for c in CONFIGS if c != 'kiss-double']
    jobs.sort(key=lambda j: -(j[3] * (4 if j[2] else 1)))
    for d in parallel(work, jobs):
        rep.merge(d)
