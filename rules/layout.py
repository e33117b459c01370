"""Layout/stage dataflow over the events of FFT compute calls.

Abstract state per data buffer: the global index region it holds, the storage
order of the axes, and how often / in which direction every axis was
transformed.  Remap events, 1d-FFT events and copies are the transfer
functions; a transfer whose precondition fails is a violation."""
from .common import *


class Lay:
    """(storage-ordered (axis,lo,hi) tuple, transforms per axis)"""


def mklay(order, bounds, done):
    return ('L', tuple((a,) + tuple(bounds[a]) for a in order), tuple(done), 0)


def lsize(l):
    r = ONE
    for a, lo, hi in l[1]:
        r = r * (hi - lo + 1)
    return r


def lstr(l):
    if l is None:
        return 'nothing'
    return ' '.join('%s:[%s..%s]' % ('ijk'[a], pstr(lo), pstr(hi)) for a, lo, hi in l[1]) + ' transforms %s scaled %s' % (l[2], l[3])


ROT = {3: {0: (0, 1, 2), 1: (1, 2, 0), 2: (2, 0, 1)}, 2: {0: (0, 1), 1: (1, 0)}}


class Sim:
    def __init__(self, s, setup_events, reps, what, move='C02', fft='C03', scale='C04'):
        self.s = s
        self.I = s.I
        self.dim = s.dim
        self.reps = reps
        self.move = reps[move]
        self.fft = reps[fft]
        self.scl = reps[scale]
        self.what = what
        self.facts = s.I.facts
        self.setups = {}
        for e, c, loops in flat(setup_events):
            if e.kind == 'remap_setup':
                for g, v in leaves(e.args[0]):
                    if isinstance(v, Ptr) and v.obj is not None:
                        self.setups.setdefault(v.obj, []).append((AND(c, g), e))
        self.state = {}
        self.sizes = []          # (cond, size poly DD, where)
        self.used = []           # (cond, setup event)
        self.writes = []         # (buffer obj, cond, event)
        self.failg = FALSE       # guards under which something was wrong
        self.group = []          # pending element stores
        self.order = []          # abstract stage list

    def bad(self, rep, e, g, msg):
        self.failg = OR(self.failg, AND(g, self.facts))
        rep.check(False, where(e), '%s: %s [when %s]' % (self.what, msg, gstr(AND(g, self.facts))))

    def get(self, o):
        return self.state.get(o, leaf(None))

    def put(self, o, cond, d):
        self.state[o] = ite(cond, d, self.get(o))

    def ptr_target(self, e, d, c):
        """leaves of a data pointer argument with their guards"""
        return [(g, v) for g, v in leaves(simplify(d, AND(c, self.facts))) if AND(c, g, self.facts) is not FALSE]

    # ---- transfer functions
    def remap(self, e, c):
        this, src, dst = e.args[0], e.args[1], e.args[2]
        for g, v in leaves(simplify(this, AND(c, self.facts))):
            cg = AND(c, g)
            if AND(cg, self.facts) is FALSE:
                continue
            if not isinstance(v, Ptr) or v.obj is None or v.obj not in self.setups:
                self.bad(self.move, e, cg, 'remap through a plan that was never set up')
                continue
            covered = FALSE
            for sc, se in self.setups[v.obj]:
                cc = AND(cg, sc)
                covered = OR(covered, sc)
                if AND(cc, self.facts) is FALSE:
                    continue
                self.used.append((cc, se, e))
                self.remap1(e, cc, se, src, dst)
            if feasible(AND(cg, self.facts, NOT(covered))):
                self.bad(self.move, e, AND(cg, self.facts, NOT(covered)), 'remap through a plan that was never set up')

    def remap1(self, e, c, se, src, dst):
        n = self.dim
        F = self.facts
        spec = dtuple([simplify(b, AND(c, F)) for b in se.info['bounds']] +
                      [simplify(se.info['nqty'], AND(c, F)), simplify(se.info['permute'], AND(c, F))])
        for gs, ps in self.ptr_target(e, src, c):
            for gd, pd in self.ptr_target(e, dst, AND(c, gs)):
                cc = AND(c, gs, gd)
                if not isinstance(ps, Ptr) or not isinstance(pd, Ptr) or ps.off.t or pd.off.t \
                        or ps.obj is None or pd.obj is None:
                    self.bad(self.move, e, cc, 'remap data pointer is not the start of a data buffer (%s -> %s)' % (ps, pd))
                    continue
                cur = simplify(self.get(ps.obj), AND(cc, F))
                res = map2(lambda l, t: self.apply(l, t), cur, spec)
                okc = map1(lambda r: r[0] if isinstance(r, tuple) and r and isinstance(r[0], DD) else FALSE, res)
                b = AND(cc, F, NOT(okc))
                self.move.obl += 1
                if b is not FALSE and feasible(b):
                    l, t = [x for gg, x in leaves(simplify(map2(lambda l, t: (l, t), cur, spec), b))
                            if AND(b, gg) is not FALSE][0]
                    n2 = 2 * n
                    msg = 'remap (set up at %s) expects input %s nqty %s but the buffer holds %s' % (
                        where(se), ' '.join('[%s..%s]' % (t[2 * i], t[2 * i + 1]) for i in range(n)), t[-2], lstr(l))
                    self.bad(self.move, e, b, msg)
                else:
                    self.move.ok += 1
                new = map1(lambda r: leaf(r[1]) if isinstance(r, tuple) and r and isinstance(r[0], DD) else leaf(None),
                           res)
                self.writes.append((pd.obj, cc, e))
                self.put(pd.obj, cc, new)
                self.note_size(cc, new, e)

    def apply(self, l, t):
        """-> (ok guard, new layout)"""
        n = self.dim
        if l is None:
            return (FALSE, None)
        nq, pm = t[-2], t[-1]
        if nq.const() != 2 or pm.const() not in ROT[n]:
            return (FALSE, None)
        ok = TRUE
        for i, (a, lo, hi) in enumerate(l[1]):
            ok = AND(ok, eqcond(lo, t[2 * i]), eqcond(hi, t[2 * i + 1]))
        out = t[2 * n:4 * n]
        axes = [a for a, _, _ in l[1]]
        rot = ROT[n][pm.const()]
        new = tuple((axes[r], out[2 * r], out[2 * r + 1]) for r in rot)
        return (ok, ('L', new, l[2], l[3]))

    def note_size(self, c, lay, e):
        self.sizes.append((c, lay, e))

    def copy(self, e, c):
        dst, src, nb = e.args
        F = self.facts
        for gs, ps in self.ptr_target(e, src, c):
            for gd, pd in self.ptr_target(e, dst, AND(c, gs)):
                cc = AND(c, gs, gd)
                if not (isinstance(ps, Ptr) and isinstance(pd, Ptr)):
                    continue
                if ps.obj not in self.state and pd.obj not in self.data:
                    continue
                if pd.obj not in self.data:
                    continue
                self.writes.append((pd.obj, cc, e))
                cur = simplify(self.get(ps.obj), AND(cc, F))
                es = self.s.es

                def f(l, n):
                    if l is None or ps.off.t or pd.off.t or not isinstance(n, Poly):
                        return FALSE
                    return eqcond(n, lsize(l) * (2 * es))
                ok = map2(f, cur, simplify(nb, AND(cc, F)))
                b = AND(cc, F, NOT(ok))
                b = b if feasible(b) else FALSE
                self.move.check(b is FALSE, where(e), '%s: copy of %s bytes does not copy exactly the data the buffer holds'
                               ' (%s) [when %s]' % (self.what, nb, lstr_dd(simplify(cur, b)), gstr(b)) if b is not FALSE else '')
                self.put(pd.obj, cc, cur)

    def fft1d(self, e, c, loops, flag):
        plan, src, dst = e.args[0], e.args[1], e.args[2]
        F = self.facts
        es = 2 * self.s.es
        for g, v in leaves(simplify(plan, AND(c, F))):
            cg = AND(c, g)
            if AND(cg, F) is FALSE:
                continue
            pl = v.obj.meta.get('plan') if isinstance(v, Ptr) and v.obj is not None else None
            if pl is None:
                self.bad(self.fft, e, cg, '1d FFT through something that is not a plan (%s)' % (v,))
                continue
            for gs, ps in self.ptr_target(e, src, cg):
                for gd, pd in self.ptr_target(e, dst, AND(cg, gs)):
                    cc = AND(cg, gs, gd)
                    if not (isinstance(ps, Ptr) and isinstance(pd, Ptr)) or ps != pd or ps.obj is None:
                        self.bad(self.fft, e, cc, '1d FFT is not in place on one data line (%s -> %s)' % (ps, pd))
                        continue
                    cur = simplify(self.get(ps.obj), AND(cc, F))
                    plans = self.plan_desc(pl, cc)
                    Ts = dtuple([simplify(l.T, AND(cc, F)) for l in loops])
                    res = map2(lambda l, t: map2(lambda d, tt: self.apply_fft(l, d, tt, ps, loops, flag, es), plans, Ts)
                               if True else None, cur, leaf(()))
                    okc = map1(lambda r: r[0], res)
                    b = AND(cc, F, NOT(okc))
                    self.fft.obl += 1
                    if not feasible(b):
                        self.fft.ok += 1
                    else:
                        m = [x[2] for gg, x in leaves(simplify(res, b)) if AND(b, gg) is not FALSE][0]
                        self.bad(self.fft, e, b, m)
                    new = map1(lambda r: leaf(r[1]), res)
                    self.writes.append((pd.obj, cc, e))
                    self.put(ps.obj, cc, new)

    def plan_desc(self, pl, cc):
        F = self.facts
        if pl['lib'] == 'kiss':
            return map1(lambda t: ('kiss',) + t, dtuple([simplify(pl['n'], AND(cc, F)), simplify(pl['inverse'], AND(cc, F))]))
        return map1(lambda t: ('fftw',) + t, dtuple([simplify(pl[k], AND(cc, F)) for k in
                                                    ('n', 'sign', 'rank', 'howmany', 'istride', 'idist', 'ostride', 'odist')]))

    def apply_fft(self, l, d, Ts, ptr, loops, flag, es):
        """-> (ok guard, new layout, message)"""
        if l is None:
            return (FALSE, None, '1d FFT on a buffer without defined data')
        a, lo, hi = l[1][0]
        N = self.s.gn[a]
        rest = ONE
        for x, l2, h2 in l[1][1:]:
            rest = rest * (h2 - l2 + 1)
        done = list(l[2])
        done[a] += flag
        new = ('L', l[1], tuple(done), l[3])
        ok = AND(eqcond(lo, ZERO), eqcond(hi, N - 1))
        msg = '1d FFTs (length %s) along %s of layout %s' % (d[1], 'ijk'[a], lstr(l))
        if AND(ok) is FALSE:
            return (FALSE, new, msg + ': the processor does not own the whole line')
        ok = AND(ok, eqcond(d[1], N))
        if d[0] == 'kiss':
            fwd = d[2].const() == 0
            # lines visited: ptr.off over the loops must enumerate rest lines of N elements
            okc, why = covers(ptr.off, loops, Ts, N * es, rest)
            ok = AND(ok, okc)
            if okc is FALSE:
                msg += ': lines transformed are not all lines once: ' + why
        else:
            sign = d[2].const()
            if sign not in (-1, 1):
                return (FALSE, new, msg + ': bad sign')
            fwd = sign == -1
            if d[3].const() != 1 or d[5].const() != 1 or d[7].const() != 1:
                return (FALSE, new, msg + ': plan geometry')
            # lines: howmany at distance idist within one execution, times the loops around it
            okc, why = covers(ptr.off, loops, Ts, N * es, rest, inner=(d[4], d[6] * es))
            ok = AND(ok, okc, OR(eqcond(d[4], ONE), eqcond(d[6], d[8])))
            if okc is FALSE:
                msg += ': lines transformed are not all lines once: ' + why
        if fwd != (flag == 1):
            return (FALSE, new, msg + ': wrong direction for flag %d' % flag)
        return (ok, new, msg)

    def store(self, e, c, loops):
        p, val = e.args
        for g, v in self.ptr_target(e, p, c):
            if isinstance(v, Ptr) and v.obj in self.data:
                self.writes.append((v.obj, AND(c, g), e))
                self.group.append((v.obj, AND(c, g), e, v, val, loops))

    def flush(self):
        """element stores since the last stage: must be one complete scaling pass"""
        g, self.group = self.group, []
        while g:
            key = (g[0][0], g[0][1].id, tuple(id(l) for l in g[0][5]))
            grp = [x for x in g if (x[0], x[1].id, tuple(id(l) for l in x[5])) == key]
            g = [x for x in g if not any(x is y for y in grp)]
            self.scale_pass(grp)

    def factor(self, v, val):
        """the factor a store multiplies its own old value by, if it does"""
        fs = set()
        for p in leafvals(val):
            if not isinstance(p, Poly):
                return None
            la = [a for a in dd_atoms(leaf(p)) if TM.atom_key(a)[0] == 'load' and TM.atom_key(a)[1] is v.obj]
            if len(la) != 1 or TM.atom_key(la[0])[2] != v.off:
                return None
            z = Subst({la[0]: ZERO})
            if z.poly(p).t:
                return None
            one = Subst({la[0]: ONE}).poly(p)
            two = Subst({la[0]: C(2)}).poly(p)
            for s in range(4):
                if Env(s).poly(two) != 2 * Env(s).poly(one):
                    return None
            fs.add(one)
        return fs.pop() if len(fs) == 1 else None

    def scale_pass(self, grp):
        F = self.facts
        obj, c, e, v, val, loops = grp[0]
        es = self.s.es
        N = ONE
        for x in self.s.gn:
            N = N * x
        why = None
        offs = []
        for _, _, e1, v1, val1, _ in grp:
            f = self.factor(v1, val1)
            if f is None:
                why = 'elements are overwritten with %s, not scaled' % (str(val1)[:120],)
            elif any(Env(s).poly(f) * Env(s).poly(N) != 1 for s in range(6)):
                why = 'elements are scaled by %s instead of 1/(product of the global extents)' % pstr(f)
            offs.append(v1.off)
        if why:
            self.bad(self.scl, e, c, why)
            return
        # the constant parts enumerate the scalars of one iteration
        base = offs[0]
        ds = sorted((o - base).const() if (o - base).const() is not None else None for o in offs) \
            if all((o - base).const() is not None for o in offs) else None
        if ds is None or [d - ds[0] for d in ds] != [i * es for i in range(len(ds))]:
            self.bad(self.scl, e, c, 'scaling does not touch every component exactly once (offsets %s)' %
                     ', '.join(pstr(o) for o in offs))
            return
        lo = base + ds[0]
        Ts = dtuple([simplify(l.T, AND(c, F)) for l in loops])
        cur = simplify(self.get(obj), AND(c, F))
        m = len(ds)

        def f(l, t):
            if l is None:
                return (FALSE, None, 'scaling of undefined data')
            ok, w = covers(lo, loops, t, C(es), 2 * lsize(l), inner=(C(m), C(es)))
            return (ok, ('L', l[1], l[2], l[3] + 1), 'scaling %s %s' % (w, lstr(l)))
        res = map2(f, cur, Ts)
        b = AND(c, F, NOT(map1(lambda r: r[0], res)))
        self.scl.obl += 1
        if feasible(b):
            w = [x[2] for gg, x in leaves(simplify(res, b)) if AND(b, gg) is not FALSE][0]
            self.bad(self.scl, e, b, 'scaling does not cover exactly the data: ' + w)
        else:
            self.scl.ok += 1
        self.put(obj, c, map1(lambda r: leaf(r[1]), res))

    def run(self, events, flag, data):
        self.data = data
        for e, c, loops in flat(events):
            if AND(c, self.facts) is FALSE:
                continue
            if e.kind in ('remap', 'fft1d', 'memcpy'):
                self.flush()
            if e.kind == 'remap':
                if loops:
                    self.bad(self.move, e, c, 'remap inside a loop')
                self.remap(e, c)
                self.order.append(('remap', c, e))
            elif e.kind == 'fft1d':
                self.fft1d(e, c, loops, flag)
                self.order.append(('fft', c, e))
            elif e.kind == 'memcpy':
                self.copy(e, c)
            elif e.kind == 'store':
                self.store(e, c, loops)
            elif e.kind == 'memset':
                for g, v in self.ptr_target(e, e.args[0], c):
                    if isinstance(v, Ptr) and v.obj in data:
                        self.bad(self.move, e, c, 'data buffer overwritten')
            elif e.kind in ('nullderef', 'undefderef', 'undefbranch', 'uaf'):
                if AND(c, self.facts) is not FALSE:
                    self.bad(self.move, e, AND(c, self.facts), e.kind)
        self.flush()


def lstr_dd(d):
    vs = [v for v in leafvals(d)]
    return ' | '.join(lstr(v) for v in vs[:3])


def tripeq(T, count, coef, unit):
    """guard under which T*coef == count*unit"""
    T = strip0(T)
    if same(T * coef, unit * count):
        return TRUE
    g = eq0(T * coef - unit * count)
    a = T.single_atom()
    if a is not None and TM.atom_key(a)[0] == 'idiv':
        # iterations k with k*den < total
        _, p, den = TM.atom_key(a)
        total = p + 1 - den
        g = OR(g, eqcond(total * coef, den * count * unit))
    return g


def covers(off, loops, Ts, unit, count, inner=None):
    """do the addresses off(k...) over the loops enumerate unit*[0..count) exactly once?
    inner=(n, stride): every address stands for n items at that stride"""
    ks = []
    rest = off
    for l, T in zip(loops, Ts):
        ka = TM.atom_id(('K', l.depth))
        coef, rest2 = IN.lin_in(rest, ka)
        if coef is None:
            return FALSE, 'address %s is not linear in the loop counter' % pstr(off)
        if not coef.t:
            return eqcond(strip0(T), ONE), 'every item is visited %s times' % pstr(T)
        ks.append((coef, T))
        rest = rest2
    if inner is not None:
        n, st = inner
        if n.const() != 1 or not ks:
            ks.append((st, n))
    if rest.t:
        return FALSE, 'first item is at offset %s' % pstr(rest)
    if not ks:
        return eqcond(count, ONE), 'a single item is visited, %s exist' % pstr(count)
    cur = unit
    left = list(ks)
    while True:
        nxt = None
        for i, (coef, T) in enumerate(left):
            if same(coef, cur):
                nxt = i
                break
        if nxt is None and len(left) == 1:
            # stride irrelevant when there is at most one item; strides equal under a guard otherwise
            coef, T = left[0]
            return AND(OR(eqcond(coef, cur), eqcond(strip0(T), ONE)), tripeq(T, count, cur, unit)), \
                'stride %s where %s is needed, or %s items of %s' % (pstr(coef), pstr(cur), pstr(T), pstr(count))
        if nxt is None:
            return FALSE, 'stride %s where %s is needed' % (pstr(left[0][0]), pstr(cur))
        coef, T = left.pop(nxt)
        if not left:
            return tripeq(T, count, cur, unit), 'covers %s x %s of %s' % (pstr(T), pstr(cur), pstr(unit * count))
        cur = cur * strip0(T)
