"""Study of one Remap object: what setup() records about its communication partners, what remap() copies and sends.

The interpreter turns setup() into array summaries ("record lists": for every processor q in some order, if the tiles
overlap, store peer, sizes, offsets, plans of q) and remap() into loops over these records.  Here the values of a
record are expressed over the bounds of this processor and of its partner and compared with what a redistribution
of a tiled grid has to do."""
from rules.common import *
from rules.layout import ROT

AXN = {3: 'ijk', 2: 'ij'}


def m_allgather(I, q, args, mem, cond, ins):
    """remember what every processor contributes: entry q of the result is that, for processor q"""
    sent = {}
    for g, v in leaves(I.under(args[0])):
        if isinstance(v, Ptr) and v.obj is not None:
            st = mem.d.get(v.obj)
            if st is not None:
                for off, (val, sz) in st.cells.items():
                    d = (off - v.off).const()
                    if d is not None:
                        sent.setdefault(d, []).append((g, val, sz))
    e = I.emit('call', q, args, sent=sent)
    for g, v in leaves(I.under(args[3])):
        if isinstance(v, Ptr) and v.obj is not None:
            v.obj.meta.setdefault('gathers', []).append((args, sent))
            I.havoc(mem, v.obj)
    return leaf(ZERO), TRUE


def m_comm_create(I, q, args, mem, cond, ins):
    """a processor that is not in the group gets MPI_COMM_NULL"""
    o = I.newobj_handle(q) if hasattr(I, 'newobj_handle') else Obj('%s#%d' % (q, I.uniq(q)), 'handle', 'sym')
    o.meta['how'] = q
    null = None
    for mod in I.prog.modules:
        if 'ompi_mpi_comm_null' in mod.globals:
            null = I.prog.global_obj(mod, 'ompi_mpi_comm_null')
            break
    v = leaf(Ptr(o, ZERO))
    if null is not None:
        v = ite(BV(('b', 'commnull', o.name)), leaf(Ptr(null, ZERO)), v)
    I.emit('call', q, args, made=o)
    I.store_quiet(mem, args[2], v, 8)
    return leaf(ZERO), TRUE


MODELS = dict(BASE)
MODELS['MPI_Allgather'] = m_allgather
MODELS['MPI_Comm_create'] = m_comm_create


class RemapSession(Session):
    def __init__(self, cfg, dim, **kw):
        super().__init__(cfg, 'Remap%dd' % dim, dict(MODELS), **kw)
        self.dim = dim
        self.tile = {'in': [], 'out': []}      # own bounds (lo, n)
        self.ptile = {'in': [], 'out': []}     # partner's
        self.own2partner = {}
        for side in ('in', 'out'):
            for a in AXN[dim]:
                lo, n = sym('%s_%slo' % (side, a), nonneg=True), sym('%s_n%s' % (side, a), nonneg=True)
                plo, pn = sym('q.%s_%slo' % (side, a), nonneg=True), sym('q.%s_n%s' % (side, a), nonneg=True)
                self.tile[side].append((lo, n))
                self.ptile[side].append((plo, pn))
                self.own2partner[lo.single_atom()] = plo
                self.own2partner[n.single_atom()] = pn
        self.ss, self.pss = self.buf('*sendsize')
        self.rs, self.prs = self.buf('*recvsize')

    def setup(self, nqty, permute, memoryflag):
        a = []
        for side in ('in', 'out'):
            for lo, n in self.tile[side]:
                a += [lo, lo + n - 1]
        return self.call('setup', *a, nqty, permute, memoryflag, self.pss, self.prs)

    def sizes(self):
        return (self.I.read1(self.mem, self.ss, ZERO, 4, ir.INT(32)), self.I.read1(self.mem, self.rs, ZERO, 4, ir.INT(32)))


class Unknown(Exception):
    """the code has a shape this analysis does not decide"""


def split_index(off, stride):
    """off == stride*X + d with 0 <= d < stride -> (X, d), else None"""
    c0 = off.c0()
    d = c0 % stride
    t = {}
    for m, c in (off - d).t:
        if c % stride:
            return None
        t[m] = c // stride
    return TM.mkpoly(t), d


def dd_vars(d):
    return set(d.sup)


def samples(n, atoms, lo=0, hi=6, seed=0):
    """n random assignments of the atoms"""
    import random
    r = random.Random(12345 + seed)
    for i in range(n):
        yield {a: r.randint(1 if a in TM.POS else lo, hi) for a in atoms}


def guards_equal(a, b, n=600):
    """do two guards over tile bounds agree? canonical form, else identity testing on random boxes"""
    if a is b:
        return True
    at = sorted(dd_atoms(a) | dd_atoms(b))
    base = [x for x in at if TM.atom_key(x)[0] not in ('max', 'min', 'idiv', 'imod')]
    for k, v in enumerate(samples(n, base)):
        if Env(k, v).dd(a) != Env(k, v).dd(b):
            return False
    return True


class RList:
    """one record list filled by setup()"""

    def __init__(self, loop, rec, stride):
        self.loop, self.rec = loop, rec
        self.fields = {}       # (obj, d) -> [(cond, value DD, event)]
        self.strides = {}      # obj -> stride
        self.cases = []
        self.side = None       # 'send': own input tile against partners' output tiles; 'recv': the converse


class Study:
    def __init__(self, job):
        self.job = job
        self.cfg, self.dim, self.coll, self.pack, self.perm, self.nq, self.memflag = job
        self.R = {k: Report(k) for k in ('C01', 'C05', 'C06', 'C07', 'C08', 'C17', 'C09')}
        self.undecided = []
        self.what = 'Remap%dd collective=%d packflag=%d permute=%d nqty=%s memoryflag=%d %s' % (
            self.dim, self.coll, self.pack, self.perm, self.nq, self.memflag, self.cfg)
        s = self.s = RemapSession(self.cfg, self.dim)
        self.I = s.I
        s.ctor(s.world)
        s.set('collective', self.coll)
        s.set('packflag', self.pack)
        self.nqty = sym('nqty3', pos=True) + 2 if self.nq == 'n' else C(self.nq)
        self.ev1 = s.setup(self.nqty, self.perm, self.memflag)
        self.alive = s.alive
        self.IN, pin = s.buf('IN')
        self.OUT, pout = s.buf('OUT')
        self.SB, psb = s.buf('USENDBUF')
        self.RB, prb = s.buf('URECVBUF')
        self.ss, self.rs = s.sizes()
        self.ev2 = s.call('remap', pin, pout, psb, prb)
        for r in self.R.values():
            r.use(self.I)
        # overlap symbols
        self.olo = [sym('o_%slo' % a, nonneg=True) for a in AXN[self.dim]]
        self.on = [sym('o_n%s' % a, pos=True) for a in AXN[self.dim]]

    def V(self, pid, e, msg):
        w = where(e) if isinstance(e, Event) else e
        self.R[pid].check(False, w, '%s: %s' % (self.what, msg))

    def C(self, pid, good, e, msg, sample=None):
        if good:
            return self.R[pid].check(True, '', '', sample)
        self.V(pid, e, msg)
        return False

    def undec(self, pid, e, msg):
        self.undecided.append((pid, where(e) if isinstance(e, Event) else str(e), msg))

    # ------------------------------------------------------------ record lists
    def find_lists(self):
        self.lists = []
        by = {}
        self.owner = {}
        for loop in self.ev1:
            if loop.kind != 'loop':
                continue
            for e, c, loops in flat(loop.body):
                if e.kind != 'store' or loops:
                    continue
                for g, v in leaves(e.args[0]):
                    if not isinstance(v, Ptr) or v.obj is None or v.obj.kind != 'heap':
                        continue
                    rs = [a for a in v.off.atoms() if a in self.I.recs and 'next' in self.I.recs[a]
                          and TM.atom_key(a)[0] == 'rec']
                    if len(rs) != 1:
                        continue
                    co, rest = IN.lin_in(v.off, rs[0])
                    if co is None or co.const() is None or rest.const() is None or co.const() <= 0:
                        continue
                    st, d = co.const(), rest.const()
                    k = (id(loop), rs[0])
                    L = by.get(k)
                    if L is None:
                        L = by[k] = RList(loop, rs[0], st)
                        self.lists.append(L)
                    L.strides[v.obj] = st
                    L.fields.setdefault((v.obj, d), []).append((c, e.args[1], e))
        keep = []
        for L in self.lists:
            r = self.I.recs[L.rec]
            x = r['x']
            if x.var is not None:
                continue
            ok = map1(lambda v: isinstance(v, Poly) and (v - x.val).const() in (0, 1), r['next'])
            if ok is not TRUE:
                continue
            L.g = map1(lambda v: (v - x.val).const() == 1, r['next'])
            if self.build_cases(L):
                keep.append(L)
                for (o, d) in L.fields:
                    self.owner[o] = L
        self.lists = keep

    def gload(self, a):
        """atom -> (processor index, partner value) if it reads a gathered array"""
        k = TM.atom_key(a)
        if k[0] != 'load':
            return None
        gs = k[1].meta.get('gathers')
        if not gs or len(gs) != 1:
            return None
        args, sent = gs[0]
        cnt = args[4]
        if cnt.var is not None or cnt.val.const() is None:
            return None
        S = cnt.val.const() * IN.dtsize(args[5])
        sp = split_index(k[2], S)
        if sp is None:
            return None
        Q, d = sp
        return Q, d, sent.get(d)

    def partner(self, Q, d, cell, tag='q'):
        if cell is None or len(cell) != 1 or cell[0][1].var is not None or not isinstance(cell[0][1].val, Poly):
            return None
        m = self.s.own2partner
        if tag != 'q':
            m = {a: sym(tag + '.' + TM.pstr(p), nonneg=True) for a, p in m.items()}
        return Subst(m).poly(cell[0][1].val)

    def build_cases(self, L):
        K = TM.atom_id(('K', L.loop.depth))
        dds = [L.g] + [v for f in L.fields.values() for _, v, _ in f] + [c for f in L.fields.values() for c, _, _ in f]
        loads = {}
        for d in dds:
            for a in dd_atoms(d):
                gl = self.gload(a)
                if gl is not None:
                    loads[a] = gl
        if not loads:
            return False
        # which test selects the partner index
        wv = set()
        for d in dds:
            for v in dd_vars(d):
                at = dd_atoms(TM.BVn(v))
                if K in at and not any(a in loads for a in at):
                    wv.add(v)
        if len(wv) > 4:
            return False
        cases = [TRUE]
        for v in sorted(wv):
            cases = [AND(c, x) for c in cases for x in (TM.BVn(v), NOT(TM.BVn(v)))]
        cases = [c for c in cases if c is not FALSE]
        sides = set()
        for c in cases:
            g = simplify(L.g, c)
            qs = {loads[a][0] for a in dd_atoms(g) if a in loads}
            if not qs:
                return False
            Q = sorted(qs, key=TM.pstr)[0]
            m = {}
            for a, (q, d, cell) in loads.items():
                p = self.partner(q, d, cell, 'q' if q == Q else 'other[%s]' % TM.pstr(q))
                if p is not None:
                    m[a] = p
            sub = Subst(m)
            gs = sub.dd(g)
            names = {TM.atom_key(a)[1] for a in dd_atoms(gs) if TM.atom_key(a)[0] == 'sym'}
            side = 'send' if any(n.startswith('q.out') for n in names) else 'recv'
            sides.add(side)
            kap = Subst({K: sym('kappa', nonneg=True)})
            L.cases.append(dict(cond=c, Q=Q, g=gs, sub=sub, val={}, kap=kap, Qk=kap.poly(Q)))
        if len(sides) != 1:
            return False
        L.side = sides.pop()
        own, par = ('in', 'out') if L.side == 'send' else ('out', 'in')
        L.own, L.par = own, par
        spec = TRUE
        m = {}
        for i in range(self.dim):
            (lo, n), (pl, pn) = self.s.tile[own][i], self.s.ptile[par][i]
            a, b = TM.pmax(lo, pl), TM.pmin(lo + n - 1, pl + pn - 1)
            spec = AND(spec, le0(a - b))
            m[a.single_atom()] = self.olo[i]
            m[b.single_atom()] = self.olo[i] + self.on[i] - 1
        L.spec, L.osub = spec, Subst(m)
        L.osub_self = None
        for cs in L.cases:
            for k, st in L.fields.items():
                val = leaf(Undef('field'))
                for c, v, e in st:
                    c1 = cs['sub'].dd(simplify(c, cs['cond']))
                    v1 = cs['sub'].dd(simplify(v, cs['cond']))
                    val = ite(c1, v1, val)
                val = simplify(val, AND(cs['g'], spec))
                cs['val'][k] = cs['kap'].dd(L.osub.dd(val))
        return True


    # ------------------------------------------------------------ setup obligations
    def check_lists(self):
        """the records cover every processor once and select exactly the overlapping ones"""
        for side in ('send', 'recv'):
            ls = [L for L in self.lists if L.side == side and L.fields]
            if len(ls) != 1:
                raise Broken('%s: found %d lists of %s partners in setup()' % (self.what, len(ls), side))
        self.S = [L for L in self.lists if L.side == 'send' and L.fields][0]
        self.Rv = [L for L in self.lists if L.side == 'recv' and L.fields][0]
        for L in (self.S, self.Rv):
            e = next(iter(L.fields.values()))[0][2]
            own = 'input' if L.side == 'send' else 'output'
            for cs in L.cases:
                self.C('C01', guards_equal(cs['g'], L.spec), e,
                       'a %s partner is recorded when %s, which is not "its tile overlaps my %s tile"' %
                       (L.side, gstr(cs['g'], 2), own), '%s partners recorded iff tiles overlap' % L.side)
            q = leaf(L.cases[0]['Q'])
            for cs in L.cases[1:]:
                q = ite(cs['cond'], leaf(cs['Q']), q)
            L.q = q
            ra, na, ka = IN.RANK.single_atom(), IN.NPROCS.single_atom(), TM.atom_id(('K', L.loop.depth))
            T = L.loop.T
            perm_ok, last_ok, first_ok = True, True, True
            for n in range(1, 8):
                for r in range(n):
                    t = Env(0, {ra: r, na: n}).dd(T)
                    t = Env(0, {ra: r, na: n}).poly(t) if isinstance(t, Poly) else -1
                    qs = []
                    for k in range(min(int(t), 3 * n)):
                        env = Env(0, {ra: r, na: n, ka: k})
                        qs.append(env.poly(env.dd(q)))
                    perm_ok &= sorted(qs) == list(range(n))
                    last_ok &= bool(qs) and qs[-1] == r
                    first_ok &= bool(qs) and qs[0] == r
            self.C('C01', perm_ok, e, 'the loop over partners (index %s, %s iterations) does not visit every processor '
                   'exactly once' % (ddstr(q), ddstr(T)), 'partner loop visits every processor once')
            L.last_is_self, L.first_is_self = last_ok, first_ok

    # ------------------------------------------------------------ rewriting into record terms
    def count_list(self, a):
        """final atom -> list whose records it counts"""
        k = TM.atom_key(a)
        if k[0] != 'final':
            return None
        ra = TM.atom_id(k[1])
        for L in (self.S, self.Rv):
            if L.rec == ra:
                return L
        r = self.I.recs.get(ra)
        if r is None or 'next' not in r or r['x'].var is not None:
            return None
        x = r['x'].val
        if not isinstance(x, Poly) or r['init'].var is not None or r['init'].val != ZERO:
            return None
        if map1(lambda v: isinstance(v, Poly) and (v - x).const() in (0, 1), r['next']) is not TRUE:
            return None
        if k[2] != IN.NPROCS:
            return None
        P = RList(type('E', (), dict(depth=r['depth']))(), ra, 0)
        P.g = map1(lambda v: (v - x).const() == 1, r['next'])
        if not self.build_cases(P):
            return None
        for cs in P.cases:
            if not guards_equal(cs['g'], P.spec):
                return None
        return self.S if P.side == 'send' else self.Rv

    def exists(self, L, d):
        """value of d where list L has at least one record"""
        m = {}
        for a in dd_atoms(d):
            if TM.atom_key(a)[0] == 'final' and self.count_list(a) is L:
                m[a] = sym('npartners_' + L.side, pos=True)
        return Subst(m).dd(d) if m else d

    def world(self, selfp):
        """substitution machinery for one world: selfp = my input and output tiles overlap"""
        W = World(self, selfp)
        return W


class World:
    def __init__(self, st, selfp):
        self.st, self.selfp = st, selfp
        self.n = {'send': sym('nsend_other', nonneg=True), 'recv': sym('nrecv_other', nonneg=True)}
        self.map = {}
        self.seen = set()
        self.peers = []

    def total(self, side):
        return self.n[side] + (1 if self.selfp else 0)

    def learn(self, d, cs=None):
        """enter all atoms of d that stand for record counts or record fields"""
        for a in dd_atoms(d):
            if a in self.seen:
                continue
            self.seen.add(a)
            k = TM.atom_key(a)
            if k[0] == 'final':
                L = self.st.count_list(a)
                if L is not None:
                    self.map[a] = self.total(L.side)

    def recs_in(self, d):
        """list loads in d: [(atom, list, X, obj, d)]"""
        out = []
        for a in sorted(dd_atoms(d)):
            k = TM.atom_key(a)
            if k[0] == 'load' and k[1] in self.st.owner:
                L = self.st.owner[k[1]]
                sp = split_index(k[2], L.strides[k[1]])
                if sp is None:
                    continue
                self.learn(leaf(sp[0]))
                X = Subst(self.map).poly(sp[0])
                out.append((a, L, X, k[1], sp[1]))
        return out

    def is_self(self, L, X):
        return self.selfp and L.last_is_self and X == self.total(L.side) - 1 or \
            self.selfp and L.first_is_self and X == ZERO

    def is_peer(self, L, o, off):
        return all(c['val'].get((o, off)) is not None and c['val'][(o, off)].var is None and
                   c['val'][(o, off)].val == c['Qk'] for c in L.cases)

    def phase1(self, dds, extra=None):
        """resolve record counts and the question whether my own record exists"""
        m = {}
        for d in dds:
            self.learn(d)
            for a, L, X, o, off in self.recs_in(d):
                if self.is_self(L, X):
                    if self.is_peer(L, o, off):
                        m[a] = IN.RANK
                elif not self.selfp and (X == self.total(L.side) - 1 or X == ZERO and L.first_is_self):
                    if self.is_peer(L, o, off):
                        m[a] = IN.RANK + 1 + sym('otherproc', nonneg=True)
        m.update(self.map)
        if extra:
            m.update(extra)
        return Subst(m)

    def rewriter(self, dds, ci, extra=None):
        """Subst for these values with partner case number ci"""
        m = {}
        for d in dds:
            self.learn(d)
            for a, L, X, o, off in self.recs_in(d):
                if self.is_self(L, X):
                    cs = L.cases[0]
                    v = cs['val'].get((o, off))
                    if v is None or v.var is not None or not isinstance(v.val, Poly):
                        continue
                    if all(c['val'][(o, off)].var is None and c['val'][(o, off)].val == c['Qk'] for c in L.cases):
                        m[a] = IN.RANK
                    else:
                        m[a] = Subst({x.single_atom(): y for side in ('in', 'out') for (x, xn), (y, yn) in
                                      zip(self.st.s.ptile[side], self.st.s.tile[side])}).poly(v.val)
                    continue
                if X == self.total(L.side) - 1 or X == ZERO and L.first_is_self:
                    # the record where my own would be, in the world without one: somebody else
                    if all(c['val'].get((o, off)) is not None and c['val'][(o, off)].var is None and
                           c['val'][(o, off)].val == c['Qk'] for c in L.cases):
                        m[a] = IN.RANK + 1 + sym('otherproc', nonneg=True)
                    continue
                cs = L.cases[min(ci, len(L.cases) - 1)]
                v = cs['val'].get((o, off))
                if v is not None and v.var is None and isinstance(v.val, Poly):
                    m[a] = v.val
        m.update(self.map)
        if extra:
            m.update(extra)
        return Subst(m)


class Step:
    def __init__(self, **k):
        self.__dict__.update(k)


def elems(p, es):
    """byte offset -> element offset"""
    r = TM.pdiv_exact(p, C(es))
    return r


class Timeline:
    """remap() events in one world and one partner case, in record terms"""

    def __init__(self, st, W, ci):
        self.st, self.W, self.ci = st, W, ci
        self.steps = []
        self.es = st.s.es
        self.tmap = {}
        self.T = {}
        self.prep(st.ev2)
        ss, rs = self.rw1(st.ss), self.rw1(st.rs)
        self.ss, self.rs = ss, rs
        self.nz = []
        for z in (ss, rs):
            self.nz.append(NOT(eq0(z.val)) if z.var is None and isinstance(z.val, Poly) else TRUE)
        self.pos = 0
        self.walk(st.ev2, TRUE, ())

    def rw1(self, d):
        return self.W.rewriter([d], self.ci, self.tmap).dd(d)

    def prep(self, evs, ctx=TRUE):
        for e in evs:
            if e.kind == 'loop':
                T = self.rw1(e.T)
                ta, cc = e.info.get('tatom'), e.info.get('cc')
                if ta is not None and cc is not None and ta in dd_atoms(T):
                    # strides are known by now
                    T = self.st.I.trip_dd(self.rw1(cc), TM.atom_id(('K', e.depth)), e.info['kind'], A(TM.atom_key(ta)))
                vs = [v for g, v in leaves(T)]
                c = ctx
                if len(vs) > 1:
                    # T == 0 either way where the loop is skipped; it is entered only where the loops around it turn
                    c = AND(ctx, self.rw1(e.cond))
                    g = AND(c, NOT(map1(lambda v: isinstance(v, Poly) and v == ZERO, T)))
                    if g is not FALSE:
                        T = simplify(T, g)
                    vs = leafvals(T)
                self.T[id(e)] = T
                ta = e.info.get('tatom')
                if ta is not None and len(vs) == 1 and isinstance(vs[0], Poly) and vs[0].single_atom() != ta:
                    self.tmap[ta] = vs[0]
                if len(vs) == 1 and isinstance(vs[0], Poly):
                    c = AND(c, NOT(eq0(vs[0])))
                self.prep(e.body, c)

    def walk(self, evs, cond, loops):
        for e in evs:
            c = AND(cond, self.rw1(e.cond))
            if c is FALSE:
                continue
            if e.kind == 'loop':
                T = self.T[id(e)]
                nz = NOT(map1(lambda v: isinstance(v, Poly) and eq0(v), T)) if T.var is None else \
                    NOT(map1(lambda v: eq0(v) if isinstance(v, Poly) else FALSE, T))
                if AND(c, nz) is FALSE:
                    continue
                self.walk(e.body, AND(c, nz), loops + (e,))
                continue
            self.pos += 1
            self.step(e, c, loops)

    def xs(self, e, loops, cond=TRUE, args=None):
        """records an event touches: {side: set of record indices}"""
        xs = {}
        dds = [d for d in (e.args if args is None else args) if isinstance(d, DD)] + [l.T for l in loops]
        for d in dds:
            d1 = simplify(self.W.phase1([d], self.tmap).dd(d), cond)
            for v in leafvals(d1):
                for a, L, X, o, off in self.W.recs_in(leaf(v)):
                    xs.setdefault(L.side, set()).add(self.st_sub(X))
        return xs

    def st_sub(self, X):
        return Subst({**self.W.map, **self.tmap}).poly(X)

    def step(self, e, c, loops):
        st = self.st
        base = AND(c, self.nonempty(loops))
        if e.kind in ('store', 'memcpy'):
            dst = simplify(self.rw1(e.args[0]), base)
            if e.kind == 'store':
                val = simplify(self.rw1(e.args[1]), base)
                src = map1(lambda v: self.loaded(v), val)
            else:
                src = simplify(self.rw1(e.args[1]), base)
            n = leaf(ONE) if e.kind == 'store' else map1(lambda v: elems(v, self.es) if isinstance(v, Poly) else None,
                                                         self.rw1(e.args[2]))
            both = dtuple([dst, src, simplify(n, base)])
            for g, (d, s_, k) in leaves(both):
                cg = AND(base, g)
                if cg is FALSE or not feasible(cg):
                    continue
                if isinstance(d, Ptr) and d.obj is not None and d.obj.kind in ('stack',):
                    continue
                if isinstance(d, Ptr) and d.obj is st.s.this:
                    continue
                self.steps.append(Step(kind='copy', e=e, cond=cg, loops=loops, dst=d, src=s_, n=k, pos=self.pos,
                                       xs=self.xs(e, loops, base)))
        elif e.kind in ('call', 'alloc', 'free', 'memset', 'error'):
            a = [simplify(self.rw1(x), base) if isinstance(x, DD) else x for x in e.args]
            self.steps.append(Step(kind=e.kind, name=e.name, e=e, cond=c, loops=loops, args=a, pos=self.pos,
                                   xs=self.xs(e, loops, base)))
        elif e.kind in ('nullderef', 'undefderef', 'undefbranch', 'uaf'):
            d = self.rw1(e.args[0]) if e.args else None
            self.steps.append(Step(kind=e.kind, e=e, cond=base, loops=loops, args=[d], pos=self.pos, xs={}))

    def nonempty(self, loops):
        """a message that exists has elements, so the buffer sizes that bound it (see sizes()) are not 0"""
        g = TRUE
        if self.st.coll:
            return AND(*self.nz)
        for l in loops:
            T = self.T[id(l)]
            if T.var is None and isinstance(T.val, Poly):
                if T.val == self.W.n['send']:
                    g = AND(g, self.nz[0])
                if T.val == self.W.n['recv']:
                    g = AND(g, self.nz[1])
        if self.W.selfp:
            g = AND(g, self.nz[1])
        return g

    def loaded(self, v):
        if isinstance(v, Poly):
            a = v.single_atom()
            if a is not None and TM.atom_key(a)[0] == 'load':
                k = TM.atom_key(a)
                return Ptr(k[1], k[2])
        return v


# ------------------------------------------------------------------ copy nests
def split_inner(step, nouter, tl):
    return step.loops[:nouter], step.loops[nouter:]


def affine(p, loops):
    """byte offset -> (const part, [coef per loop]) or None"""
    co = []
    for l in loops:
        ka = TM.atom_id(('K', l.depth))
        c, rest = IN.lin_in(p, ka)
        if c is None:
            return None
        co.append(c)
        p = rest
    return p, co


def div(p, n):
    return TM.pdiv_exact(p, C(n))


class Nest:
    """a set of element copies: message offset and data offset as functions of counters"""

    def __init__(self, mbase, dbase, digits):
        self.mbase, self.dbase, self.digits = mbase, dbase, digits   # digits: [(trip, mcoef, dcoef)]

    def normal(self):
        """digits in message order: [(trip, data stride)], or None; total count"""
        ds = [(strip0(t), m, d) for t, m, d in self.digits if not (t.const() == 1)]
        cur = ONE
        out = []
        while ds:
            for i, (t, m, d) in enumerate(ds):
                if same(m, cur):
                    out.append((t, d))
                    cur = cur * t
                    ds.pop(i)
                    break
            else:
                return None, None
        return out, cur


def make_nest(steps, inner, es, pack):
    """steps: copy steps in the same inner loops -> Nest in elements"""
    items = []
    for s in steps:
        if not (isinstance(s.dst, Ptr) and isinstance(s.src, Ptr) and isinstance(s.n, Poly)):
            return None, 'copies something that is not the data (%s <- %s)' % (s.dst, s.src)
        m, d = (s.dst.off, s.src.off) if pack else (s.src.off, s.dst.off)
        am, ad = affine(m, inner), affine(d, inner)
        if am is None or ad is None:
            return None, None
        items.append((am, ad, s.n))
    am, ad, n0 = items[0]
    dig = []
    for x in items[1:]:
        if x[0][1] != am[1] or x[1][1] != ad[1] or x[2] != n0:
            return None, None
    if len(items) > 1:
        items.sort(key=lambda x: ((x[0][0] - am[0]).const() is None, (x[0][0] - am[0]).const() or 0))
        am, ad, n0 = items[0]
        steps_m = [(b[0][0] - a[0][0]) for a, b in zip(items, items[1:])]
        steps_d = [(b[1][0] - a[1][0]) for a, b in zip(items, items[1:])]
        if any(x != steps_m[0] for x in steps_m) or any(x != steps_d[0] for x in steps_d):
            return None, 'unrolled copies do not step evenly'
        dig.append((C(len(items)), div(steps_m[0], es), div(steps_d[0], es)))
    if n0 != ONE:
        dig.append((n0, ONE, ONE))
    for l, cm, cd in zip(inner, am[1], ad[1]):
        dig.append((steps[0].tl.T[id(l)].val if steps[0].tl.T[id(l)].var is None else None, div(cm, es), div(cd, es)))
    mb, db = div(am[0], es), div(ad[0], es)
    if any(x is None for t in dig for x in t) or mb is None or db is None:
        return None, 'copies at offsets that are not whole elements'
    return Nest(mb, db, dig), None


def refine(a, b):
    """two digit lists over the same message -> [(trip, stride a, stride b)], or None"""
    a, b = list(a), list(b)
    out = []
    while a and b:
        (ta, sa), (tb, sb) = a[0], b[0]
        if same(ta, tb):
            out.append((ta, sa, sb))
            a.pop(0)
            b.pop(0)
            continue
        r = TM.pdiv_exact(tb, ta)
        if r is not None:
            out.append((ta, sa, sb))
            a.pop(0)
            b[0] = (r, sb * ta)
            continue
        r = TM.pdiv_exact(ta, tb)
        if r is not None:
            out.append((tb, sa, sb))
            b.pop(0)
            a[0] = (r, sa * tb)
            continue
        return None
    if a or b:
        return None
    return out


def match_spec(dig, spec):
    """dig: [(trip, s_in, s_out)] in message order; spec: axes [(trip, s_in, s_out)] in any order; both may be split"""
    dig = [d for d in dig]
    left = [x for x in spec if x[0].const() != 1]
    while dig:
        t, a, b = dig.pop(0)
        if t.const() == 1:
            continue
        hit = None
        for i, (st, sa, sb) in enumerate(left):
            if same(sa, a) and same(sb, b):
                hit = i
                break
        if hit is None:
            return False
        st, sa, sb = left[hit]
        if same(st, t):
            left.pop(hit)
            continue
        r = TM.pdiv_exact(st, t)
        if r is not None:
            left[hit] = (r, sa * t, sb * t)
            continue
        r = TM.pdiv_exact(t, st)
        if r is not None:
            left.pop(hit)
            dig.insert(0, (r, a * st, b * st))
            continue
        return False
    return not left


def forced_eqs(cond):
    """substitution for the equalities a guard forces"""
    m = {}
    for v in sorted(cond.sup):
        k = TM.var_key(v)
        if k[0] == 'eq' and AND(cond, NOT(TM.BVn(v))) is FALSE:
            se = TM.solve_eq(Subst(m).poly(k[1])) if m else TM.solve_eq(k[1])
            if se is not None:
                m[se[0]] = se[1]
    return Subst(m) if m else None


class Checker:
    """obligations on one timeline"""

    def __init__(self, tl):
        self.tl = tl
        self.st = tl.st
        self.W = tl.W
        self.dim = tl.st.dim
        self.es = tl.es
        st = self.st
        nq = st.nqty
        self.s_in, self.s_out = [None] * self.dim, [None] * self.dim
        p = nq
        for a in range(self.dim):
            self.s_in[a] = p
            p = p * st.s.tile['in'][a][1]
        p = nq
        for a in ROT[self.dim][st.perm]:
            self.s_out[a] = p
            p = p * st.s.tile['out'][a][1]
        self.axes = [(nq, ONE, ONE)] + [(st.on[a], self.s_in[a], self.s_out[a]) for a in range(self.dim)]
        self.base_in = ZERO
        self.base_out = ZERO
        self.count = nq
        for a in range(self.dim):
            self.base_in = self.base_in + (st.olo[a] - st.s.tile['in'][a][0]) * self.s_in[a]
            self.base_out = self.base_out + (st.olo[a] - st.s.tile['out'][a][0]) * self.s_out[a]
            self.count = self.count * st.on[a]
        self.world = 'my tiles overlap' if tl.W.selfp else 'my tiles do not overlap'

    # -- helpers
    def V(self, pid, e, msg):
        self.st.V(pid, e, msg)

    def C(self, pid, good, e, msg, sample=None):
        return self.st.C(pid, good, e, msg, sample)

    def classify(self, s):
        st = self.st
        so = s.src.obj if isinstance(s.src, Ptr) else None
        do = s.dst.obj if isinstance(s.dst, Ptr) else None
        if do is st.IN:
            return 'intoin'
        if so is st.IN and do is st.OUT:
            return 'direct'
        if so is st.IN:
            return 'pack'
        if do is st.OUT:
            return 'unpack'
        return 'other'

    def record_of(self, s, side):
        """-> ('self',) or ('all', loop, nouter): which records this step handles, or None"""
        W = self.W
        L = self.st.S if side == 'send' else self.st.Rv
        xs = s.xs.get(side, set())
        if len(xs) != 1:
            return None
        X = next(iter(xs))
        if W.is_self(L, X) and not any(TM.atom_id(('K', l.depth)) in X.atoms() for l in s.loops):
            return ('self', 0)
        return ('rec', X)

    def domain(self, s, side, X):
        """does X run over all records of the list but mine? -> number of outer loops or None with message"""
        W = self.W
        want = W.n[side] if not self.st.coll else W.total(side)
        for i, l in enumerate(s.loops):
            T = self.tl.T[id(l)]
            ka = TM.atom_id(('K', l.depth))
            if ka in X.atoms():
                co, rest = IN.lin_in(X, ka)
                if T.var is not None or not isinstance(T.val, Poly):
                    return None, 'its loop has no single trip count (%s)' % ddstr(T)
                if co is not None and co.const() == 1 and rest == ZERO and same(strip0(T.val), want):
                    return i + 1, None
                if co is not None and co.const() == -1 and same(rest, strip0(T.val) - 1) and same(strip0(T.val), want):
                    return i + 1, None
                return None, 'records %s for %s iterations instead of all %s records' % (
                    pstr(X), ddstr(T), pstr(want))
        a = X.single_atom()
        if a is not None and TM.atom_key(a)[0] == 'out':
            for i, l in enumerate(s.loops):
                T = self.tl.T[id(l)]
                if T.var is None and isinstance(T.val, Poly) and same(strip0(T.val), want):
                    return i + 1, None
            return None, 'completed records are handled in %s iterations instead of %s' % (
                ', '.join(ddstr(self.tl.T[id(l)]) for l in s.loops[:1]), pstr(want))
        return None, 'record index %s' % pstr(X)

    def transfers(self):
        """group the element copies"""
        tl = self.tl
        self.groups = []
        by = {}
        for s in tl.steps:
            if s.kind != 'copy':
                continue
            s.tl = tl
            k = self.classify(s)
            if k != 'intoin':
                self.C('C05', True, s.e, '', 'copies do not write the input')
            if k == 'intoin':
                self.V('C05', s.e, 'the input buffer is written while the output is a different buffer')
                continue
            if k == 'other':
                continue
            side = 'recv' if k == 'unpack' else 'send'
            r = self.record_of(s, side)
            if r is None:
                if k == 'unpack' and not isinstance(s.src, Ptr):
                    self.V('C01', s.e, 'the output is overwritten with %s' % str(s.src)[:100])
                else:
                    m = 'a block is %sed with values that belong to no single partner record (%s)' % (
                        k, {a: [pstr(x) for x in b] for a, b in s.xs.items()})
                    self.V('C01', s.e, m)
                    if 'MPI_' in m:         # one of them was selected by the completed receive
                        self.V('C07', s.e, m)
                continue
            if r[0] == 'rec':
                n, why = self.domain(s, side, r[1])
                if n is None:
                    self.V('C01', s.e, '%s does not run over all %s partners: %s' % (k, side, why))
                    continue
                outer, inner = s.loops[:n], s.loops[n:]
            else:
                outer, inner = (), s.loops
            key = (k, r, tuple(id(l) for l in outer))
            if key not in by:
                by[key] = Step(kind=k, rec=r, outer=outer, steps=[], e=s.e, side=side)
                self.groups.append(by[key])
            by[key].steps.append((s, inner))
        for g in self.groups:
            g.pos0 = min(s.pos for s, _ in g.steps)
            g.pos1 = max(s.pos for s, _ in g.steps)
            self.nest(g)

    def nest(self, g):
        """the copies of one transfer as a digit list"""
        pack = g.kind != 'unpack'
        variants = {}
        for s, inner in g.steps:
            variants.setdefault(tuple(id(l) for l in inner) + (s.cond.id,), []).append((s, inner))
        g.nests = []
        covered = FALSE
        for vs in variants.values():
            s0, inner = vs[0]
            covered = OR(covered, s0.cond)
            n, why = make_nest([s for s, _ in vs], inner, self.es, pack)
            if n is None:
                if why:
                    self.V('C01', s0.e, '%s: %s' % (g.kind, why))
                else:
                    self.st.undec('C01', s0.e, 'copy pattern of %s is not affine' % g.kind)
                continue
            mobj = s0.dst.obj if pack else s0.src.obj
            g.nests.append((s0, n, mobj))
        ctx = TRUE
        for l in g.outer:
            T = self.tl.T[id(l)]
            ctx = AND(ctx, NOT(map1(lambda v: eq0(v) if isinstance(v, Poly) else FALSE, T)))
        ctx = AND(ctx, self.tl.nonempty(g.outer))
        if g.rec[0] == 'self':
            ctx = AND(ctx, self.tl.nz[1])
        miss = AND(ctx, NOT(covered))
        if self.st.coll:
            g.covered = covered
        elif feasible(miss):
            self.V('C01', g.e, '%s of a block is skipped when %s' % (g.kind, gstr(miss)))
        else:
            self.C('C01', True, g.e, '')

    def check_pack(self, g):
        """-> normalised digits [(n, stride in the data)] per nest"""
        g.norm = []
        pack = g.kind != 'unpack'
        base = self.base_in if pack else self.base_out
        for s0, n, mobj in g.nests:
            eq = forced_eqs(s0.cond)
            dg = n.digits
            db, mb, sb, cnt = n.dbase, n.mbase, base, self.count
            if eq:
                dg = [tuple(eq.poly(x) for x in t) for t in dg]
                db, mb, sb, cnt = eq.poly(db), eq.poly(mb), eq.poly(sb), eq.poly(cnt)
            norm, total = Nest(mb, db, dg).normal()
            if norm is None:
                self.V('C01', s0.e, '%s does not enumerate the message contiguously (%s)' % (
                    g.kind, '; '.join('%s iterations: message step %s, data step %s' % tuple(map(pstr, t)) for t in dg)))
                continue
            self.C('C01', same(total, cnt), s0.e, '%s copies %s values per block, the overlap has %s' % (
                g.kind, pstr(total), pstr(cnt)), '%s copies the whole overlap' % g.kind)
            self.C('C01', same(db, sb), s0.e, '%s starts at element %s of the %s data, the overlap starts at %s' % (
                g.kind, pstr(db), 'input' if pack else 'output', pstr(sb)))
            g.norm.append((s0, norm, total, mb, mobj, eq))

    def compare(self, gp, gu):
        """sender's order of a block against the receiver's"""
        for s0, a, ta, _, _, e1 in gp.norm:
            for u0, b, tb, _, _, e2 in gu.norm:
                ax = self.axes
                for eq in (e1, e2):
                    if eq:
                        ax = [tuple(eq.poly(x) for x in t) for t in ax]
                        a = [tuple(eq.poly(x) for x in t) for t in a]
                        b = [tuple(eq.poly(x) for x in t) for t in b]
                r = refine(a, b)
                ok = r is not None and match_spec(r, ax)
                self.C('C01', ok, u0.e, 'block packed at %s as [%s] is unpacked as [%s] (count x data stride, fastest '
                       'first): elements do not arrive at their place for permute %d' % (
                           where(s0.e), ', '.join('%s x %s' % (pstr(x), pstr(y)) for x, y in a),
                           ', '.join('%s x %s' % (pstr(x), pstr(y)) for x, y in b), self.st.perm),
                       'pack and unpack enumerate the block alike and place it by permute')

    # -- sizes
    def accum(self, val, side, need, pid, e, what, mode):
        """is val (a reported size) at least what is needed?
        mode 'max': largest message of the list; 'sum': all messages"""
        st, W = self.st, self.W
        vol = st.nqty
        for lo, n in st.s.tile['in' if side == 'send' else 'out']:
            vol = vol * n
        if is_nonneg(val - vol) or same(val, vol):
            return True, ''
        a = val.single_atom()
        if a is None or TM.atom_key(a)[0] != 'final':
            # a sum of nonnegative parts, one of which is enough
            for m, c in val.t:
                if c >= 1 and len(m) == 1 and TM.atom_key(m[0])[0] == 'final' and is_nonneg(val - Poly(((m, 1),))):
                    return self.accum(Poly(((m, 1),)), side, need, pid, e, what, mode)
            return None, 'size %s' % pstr(val)
        raw = self.rawfinal(a)
        if raw is None:
            return None, 'size %s' % pstr(val)
        ra, T = raw
        r = st.I.recs.get(ra)
        if r is None or r['x'].var is not None:
            return None, 'size %s' % pstr(val)
        x = r['x'].val
        if r['init'].var is not None or not isinstance(r['init'].val, Poly) or not is_nonneg(r['init'].val):
            return False, '%s starts at %s' % (what, r['init'])
        L = st.S if side == 'send' else st.Rv
        size = sym('msgsize', pos=True)
        X = sym('acc', nonneg=True)
        K = TM.atom_id(('K', r['depth']))
        nxt = r['next']
        m = {}
        own = ra == L.rec or any(v == ra for v in self.loop_recs(L))
        idx = None
        for at in dd_atoms(nxt):
            k = TM.atom_key(at)
            if k[0] == 'load' and k[1] in st.owner:
                LL = st.owner[k[1]]
                sp = split_index(k[2], LL.strides[k[1]])
                vs = [c['val'].get((k[1], sp[1])) for c in LL.cases] if sp else [None]
                if LL is L and all(v is not None and v.var is None and same(v.val, self.count) for v in vs):
                    m[at] = size
                    idx = sp[0]
        m[x.single_atom()] = X
        nxt = st.exists(L, nxt)
        if not own and idx is not None:
            d = Subst(m).dd(nxt)
            # over the records: index must be the loop counter, enough iterations
            Tn = Subst(W.map).poly(T)
            W.learn(leaf(T))
            Tn = Subst({**W.map, **self.tl.tmap}).poly(T)
            want = W.n[side] if need == 'other' else W.total(side)
            co, rest = IN.lin_in(idx, K)
            ok = co is not None and co.const() == 1 and rest == ZERO and is_nonneg(Tn - want) or \
                co is not None and co.const() == -1 and same(rest, T - 1) and same(Tn, want)
            if not ok:
                return False, '%s is computed over %s of %s messages' % (what, pstr(Tn), pstr(want))
            return self.grows(d, X, size, mode, what)
        # computed while the records are made
        for cs in L.cases:
            d = cs['kap'].dd(L.osub.dd(cs['sub'].dd(simplify(Subst({x.single_atom(): X}).dd(nxt), cs['cond']))))
            g = L.spec
            gg = L.osub.dd(simplify(cs['sub'].dd(simplify(Subst({x.single_atom(): X}).dd(nxt), cs['cond'])), g))
            gg = Subst(m).dd(gg)
            ok, why = self.grows(gg, X, self.count, mode, what)
            if not ok:
                return ok, why
        return True, ''

    def rawfinal(self, a):
        k = TM.atom_key(a)
        ra = TM.atom_id(k[1])
        if ra in self.st.I.recs:
            return ra, k[2]
        # rewritten: find the original
        for f, info in self.st.I.recs.items():
            if 'rec' in info:
                kk = TM.atom_key(f)
                self.W.learn(leaf(Poly((((f,), 1),))))
                if Subst({**self.W.map, **self.tl.tmap}).poly(Poly((((f,), 1),))) == Poly((((a,), 1),)):
                    return info['rec'], info['T']
        return None

    def loop_recs(self, L):
        return [a for a in L.loop.info['recs'] if isinstance(a, int)]

    def grows(self, d, X, size, mode, what):
        at = sorted(dd_atoms(d) | set(X.atoms()) | set(size.atoms()))
        base = [x for x in at if TM.atom_key(x)[0] not in ('max', 'min', 'idiv', 'imod')]
        for k, v in enumerate(samples(60, base, 0, 40)):
            env = Env(k, v)
            r = env.dd(d)
            if not isinstance(r, Poly):
                return None, what
            r = env.poly(r)
            xx, ss = env.poly(X), env.poly(size)
            if r < (max(xx, ss) if mode == 'max' else xx + ss):
                return False, '%s becomes %s after a message of %s values when it was %s' % (what, ddstr(d), ss, xx)
        return True, ''

    def alloc_ok(self, obj, size, e, what):
        """an internally allocated buffer has the reported size"""
        st = self.st
        if obj in (st.SB, st.RB):
            self.C('C06', obj is (st.SB if what == 'send' else st.RB), e,
                   'the %s buffer is not the caller\'s %s buffer' % (what, what))
            return
        for ev, c, loops in flat(st.ev1):
            if ev.kind == 'alloc' and any(isinstance(v, Ptr) and v.obj is obj for v in leafvals(ev.args[0])):
                b = self.tl.rw1(ev.args[1])
                ok = all(isinstance(v, Poly) and (is_nonneg(v - size * self.es) or same(v, size * self.es))
                         for g, v in leaves(b) if feasible(AND(g, self.tl.rw1(c))))
                self.C('C06', ok, ev, 'the %s buffer is allocated with %s bytes, %s values are reported' % (
                    what, ddstr(b), pstr(size)))
                self.C('C17', ok, ev, 'the %s buffer is allocated with %s bytes for %s values of %d bytes' % (
                    what, ddstr(b), pstr(size), self.es))
                return
        self.st.undec('C06', e, 'no allocation found for the %s buffer' % what)

    def prefix(self, base, side, e):
        """message offsets (a recurrence over the records) never overlap; -> final atom check against the size"""
        st = self.st
        L = st.S if side == 'send' else st.Rv
        a = base.single_atom()
        if a is None or a not in st.I.recs or a not in self.loop_recs(L):
            return None
        r = st.I.recs[a]
        if r['init'].var is not None or r['init'].val != ZERO:
            self.V('C06', e, 'the first message is placed at offset %s of the %s buffer' % (r['init'], side))
            return False
        ok = True
        exact = True
        P = Poly((((a,), 1),))
        for cs in L.cases:
            d = cs['sub'].dd(simplify(r['next'], cs['cond']))
            yes = L.osub.dd(simplify(d, L.spec))
            no = simplify(d, NOT(L.spec))
            m = {}
            for at in dd_atoms(yes):
                k = TM.atom_key(at)
                if k[0] == 'load' and k[1] in st.owner:
                    sp = split_index(k[2], L.strides.get(k[1], 4))
                    v = cs['val'].get((k[1], sp[1])) if sp else None
                    if v is not None and v.var is None and isinstance(v.val, Poly):
                        m[at] = v.val
            yes = st.exists(L, Subst(m).dd(yes))
            for v in leafvals(yes):
                if not isinstance(v, Poly) or not (is_nonneg(v - P - self.count) or same(v - P, self.count)):
                    self.V('C06', e, 'after a message of %s values the next one is placed at %s of the %s buffer: they overlap'
                           % (pstr(self.count), v if not isinstance(v, Poly) else 'offset + (%s)' % pstr(v - P), side))
                    ok = False
                elif not same(v - P, self.count):
                    exact = False
            for v in leafvals(no):
                if not isinstance(v, Poly) or not same(v, P):
                    if isinstance(v, Poly) and is_nonneg(v - P):
                        exact = False
                        continue
                    self.V('C06', e, 'message offsets in the %s buffer change at a processor without message' % side)
                    ok = False
        if ok:
            self.C('C06', True, e, '', 'messages in the %s buffer do not overlap' % side)
        self.prefix_exact = exact
        return ok


class P2P(Checker):
    def run(self):
        st, tl, W = self.st, self.tl, self.W
        self.transfers()
        calls = [s for s in tl.steps if s.kind == 'call' and s.name and s.name.startswith('MPI_')]
        for g in self.groups:
            self.check_pack(g)
        packs = [g for g in self.groups if g.kind == 'pack']
        unpacks = [g for g in self.groups if g.kind == 'unpack']
        direct = [g for g in self.groups if g.kind == 'direct']
        for g in direct:
            self.V('C08', g.e, 'a block is copied from input to output directly: with in == out it may overwrite data '
                   'that is still to be sent')
        rp = [g for g in packs if g.rec[0] == 'rec']
        ru = [g for g in unpacks if g.rec[0] == 'rec']
        sp = [g for g in packs if g.rec[0] == 'self']
        su = [g for g in unpacks if g.rec[0] == 'self']
        e0 = st.ev2[0] if st.ev2 else 'remap'
        bad = bool(st.R['C01'].viols)
        if not bad:
            self.C('C01', len(rp) == 1, rp[1].e if len(rp) > 1 else e0, 'blocks for other processors are packed %d times' % len(rp))
            self.C('C01', len(ru) == 1, ru[1].e if len(ru) > 1 else e0, 'blocks of other processors are unpacked %d times' % len(ru))
            if W.selfp and not direct:
                self.C('C01', len(sp) == 1 and len(su) == 1, e0, 'the block a processor keeps is packed %d and unpacked %d '
                       'times' % (len(sp), len(su)))
            if not W.selfp:
                self.C('C01', not sp and not su, (sp + su)[0].e if sp + su else e0, 'a block is copied to itself without overlap')
        if not (len(rp) == len(ru) == 1):
            return
        rp, ru = rp[0], ru[0]
        if not rp.nests or not ru.nests:
            return
        self.compare(rp, ru)
        if len(sp) == 1 and len(su) == 1 and sp[0].nests and su[0].nests:
            self.compare(sp[0], su[0])
        # C08: everything is read before anything is written
        lastread = max(g.pos1 for g in packs)
        for g in unpacks:
            self.C('C08', g.pos0 > lastread, g.e, 'the output is written (%s block) before all blocks have been packed from '
                   'the input (last at %s): with in == out data is overwritten' % (
                       'own' if g.rec[0] == 'self' else 'received', where(max(packs, key=lambda x: x.pos1).e)),
                   'unpack after the last pack')
            common = {id(l) for l in g.outer} & {id(l) for p in packs for l in p.outer}
            self.C('C08', not common, g.e, 'packing and unpacking alternate in one loop: with in == out data is overwritten')
        # C07
        self.messages(calls, rp, ru, sp, su)
        self.sizes(calls, rp, ru, sp, su)

    def messages(self, calls, rp, ru, sp, su):
        st, tl, W = self.st, self.tl, self.W
        e0 = rp.e
        send = [c for c in calls if c.name in ('MPI_Send', 'MPI_Ssend', 'MPI_Rsend', 'MPI_Bsend')]
        isend = [c for c in calls if c.name in ('MPI_Isend', 'MPI_Issend')]
        irecv = [c for c in calls if c.name == 'MPI_Irecv']
        recv = [c for c in calls if c.name == 'MPI_Recv']
        sends = send + isend
        self.C('C07', len(sends) == 1, sends[1].e if len(sends) > 1 else e0, 'a block is sent %d times' % len(sends))
        self.C('C07', len(irecv) + len(recv) == 1, (irecv + recv)[1].e if len(irecv + recv) > 1 else e0,
               'a block is received %d times' % len(irecv + recv))
        if len(sends) != 1 or len(irecv) + len(recv) != 1:
            return
        s, r = sends[0], (irecv + recv)[0]
        self.C('C07', s.name != 'MPI_Rsend', s.e, 'ready send without knowing that the receive is posted')
        dt = '@ompi_mpi_double' if self.es == 8 else '@ompi_mpi_float'
        for c, side, g, what in ((s, 'send', rp, 'sent'), (r, 'recv', ru, 'received')):
            L = st.S if side == 'send' else st.Rv
            xs = c.xs.get(side, set())
            X = next(iter(xs)) if len(xs) == 1 else None
            n, why = self.domain(c, side, X) if X is not None else (None, 'no single record')
            self.C('C07', n is not None, c.e, 'messages are not %s for exactly the partners: %s' % (what, why),
                   'one message per partner record')
            cs = L.cases[min(tl.ci, len(L.cases) - 1)]
            self.C('C07', self.val(c.args[3]) == cs['Qk'], c.e, 'the message for processor %s is %s processor %s' % (
                pstr(cs['Qk']), 'sent to' if side == 'send' else 'received from', ddstr(c.args[3])),
                'peer is the processor whose tile overlaps')
            cnt = self.val(c.args[1])
            self.C('C07', cnt is not None and same(cnt, self.count), c.e, '%s values are %s, the block has %s' % (
                ddstr(c.args[1]), what, pstr(self.count)), 'count is the size of the overlap')
            ds = str(c.args[2].val) if c.args[2].var is None else '?'
            self.C('C17', dt in ds, c.e, 'values of %d bytes are %s as %s' % (self.es, what, ds), 'datatype matches precision')
            self.C('C07', dt in ds, c.e, 'values of %d bytes are %s as %s' % (self.es, what, ds))
            self.C('C07', c.args[5].var is None and isinstance(c.args[5].val, Ptr) and c.args[5].val.obj is st.s.world.val.obj,
                   c.e, 'message is not in the communicator of the remap')
            ctx = AND(*[NOT(eq0(self.val(tl.T[id(l)]))) for l in c.loops if self.val(tl.T[id(l)]) is not None])
            self.C('C07', not feasible(AND(ctx, NOT(c.cond))), c.e, 'a message is not %s when %s' % (
                what, gstr(AND(ctx, NOT(c.cond)))))
        ta, tb = self.val(s.args[4]), self.val(r.args[4])
        self.C('C07', ta is not None and tb is not None and (ta == tb and ta.const() is not None), s.e,
               'sent with tag %s, received with tag %s' % (ddstr(s.args[4]), ddstr(r.args[4])), 'tags agree')
        # buffers
        for s0, norm, total, mb, mobj, eq in rp.norm:
            b = s.args[0]
            self.C('C07', b.var is None and isinstance(b.val, Ptr) and b.val.obj is mobj and
                   same(b.val.off, mb * self.es), s.e, 'the buffer sent (%s) is not the one packed (%s)' % (
                       ddstr(b), Ptr(mobj, mb * self.es)), 'the packed buffer is sent')
        for s0, norm, total, mb, mobj, eq in ru.norm:
            b = r.args[0]
            self.C('C07', b.var is None and isinstance(b.val, Ptr) and b.val.obj is mobj and
                   same(b.val.off, mb * self.es), r.e, 'data is received at %s but unpacked from %s' % (
                       ddstr(b), Ptr(mobj, mb * self.es)), 'the received buffer is unpacked')
        # order within an iteration: pack, then send
        same_loop = s.loops and rp.outer and s.loops[0] is rp.outer[0]
        self.C('C07', rp.pos1 < s.pos, s.e, 'the block is sent before it is packed')
        off = self.val_ptr_off(s.args[0])
        dep = off is not None and s.loops and self.separate(off, s)
        if not same_loop and not dep:
            self.C('C07', False, s.e, 'all blocks are packed into one buffer before the first one is sent')
        if isend:
            ok = False
            for c in calls:
                if c.name == 'MPI_Wait' and c.loops == s.loops and c.pos > s.pos and self.same_req(c.args[0], s.args[6]):
                    ok = True
                if c.name == 'MPI_Waitall' and dep and c.pos > s.pos and not c.loops:
                    ok = True
            self.C('C07', ok, s.e, 'the send buffer is packed again (or remap returns) while a nonblocking send may still use it')
        # receives are posted before any blocking send
        if irecv:
            self.C('C07', r.pos < s.pos and not (r.loops and s.loops and r.loops[0] is s.loops[0]), s.e,
                   'a blocking send is issued before all receives are posted', 'receives are posted before sends')
            self.waits(calls, r, ru)
        elif send:
            self.C('C07', False, r.e, 'blocking receives are posted after blocking sends: two processors may wait for each other')
        else:
            self.C('C07', r.pos < ru.pos0, r.e, 'a block is unpacked before it is received')

    def separate(self, off, s):
        """message buffers of different partners do not share memory"""
        at = dd_atoms(leaf(off))
        return any(a in self.loop_recs(self.st.S) for a in at)

    def waits(self, calls, r, ru):
        st, tl, W = self.st, self.tl, self.W
        w = [c for c in calls if c.name in ('MPI_Waitany', 'MPI_Waitall', 'MPI_Wait', 'MPI_Waitsome')]
        req = r.args[6]
        rq = req.val if req.var is None and isinstance(req.val, Ptr) else None
        ka = TM.atom_id(('K', r.loops[0].depth)) if r.loops else None
        if rq is None or ka is None:
            st.undec('C07', r.e, 'request slot')
            return
        co, rest = IN.lin_in(rq.off, ka)
        self.C('C07', co is not None and co.const() is not None and abs(co.const()) >= 8, r.e,
               'receives share request slots (slot %s)' % pstr(rq.off), 'every receive has its own request')
        X = ru.rec[1]
        xa = X.single_atom()
        for c in w:
            if c.name == 'MPI_Waitany':
                n = self.val(c.args[0])
                self.C('C07', n is not None and same(n, W.n['recv']), c.e, 'waits for one of %s requests, %s were posted' % (
                    ddstr(c.args[0]), pstr(W.n['recv'])), 'waits over all posted receives')
                p = c.args[1].val if c.args[1].var is None else None
                self.C('C07', isinstance(p, Ptr) and p.obj is rq.obj and same(p.off, rest) and co.const() == 8, c.e,
                       'waits for requests %s, receives use %s' % (ddstr(c.args[1]), rq))
                T = self.val(tl.T[id(c.loops[0])]) if c.loops else ONE
                self.C('C07', T is not None and same(strip0(T), W.n['recv']), c.e, '%s of %s receives are waited for' % (
                    pstr(T) if T is not None else '?', pstr(W.n['recv'])), 'as many waits as receives')
                used = xa is not None and TM.atom_key(xa)[0] == 'out' and TM.atom_key(xa)[1] == 'MPI_Waitany'
                self.C('C07', used and ru.outer and c.loops and ru.outer[0] is c.loops[0] and c.pos < ru.pos0, ru.e,
                       'the block unpacked is not the one whose receive has completed (record %s)' % pstr(X),
                       'the completed message is unpacked')
            elif c.name == 'MPI_Waitall':
                n = self.val(c.args[0])
                self.C('C07', n is not None and same(n, W.n['recv']), c.e, 'waits for %s requests, %s were posted' % (
                    ddstr(c.args[0]), pstr(W.n['recv'])))
                p = c.args[1].val if c.args[1].var is None else None
                self.C('C07', isinstance(p, Ptr) and p.obj is rq.obj and same(p.off, rest), c.e,
                       'waits for requests %s, receives use %s' % (ddstr(c.args[1]), rq))
                self.C('C07', c.pos < ru.pos0 and not c.loops, c.e, 'a block is unpacked before its receive has completed')
            elif c.name == 'MPI_Wait':
                p = c.args[0].val if c.args[0].var is None else None
                ok = isinstance(p, Ptr) and p.obj is rq.obj
                if not ok:
                    continue
                kc = TM.atom_id(('K', c.loops[0].depth)) if c.loops else None
                slot = Subst({ka: X}).poly(rq.off)
                self.C('C07', p.off == slot and c.pos < ru.pos0 and c.loops and ru.outer and c.loops[0] is ru.outer[0], c.e,
                       'waits for request %s before unpacking the block of request %s' % (pstr(p.off), pstr(slot)))
            else:
                st.undec('C07', c.e, c.name)
        good = [c for c in w if c.name != 'MPI_Wait' or
                (c.args[0].var is None and isinstance(c.args[0].val, Ptr) and c.args[0].val.obj is rq.obj)]
        self.C('C07', bool(good), ru.e, 'receives are never waited for')

    def same_req(self, a, b):
        return a is b

    def val(self, d):
        return d.val if d.var is None and isinstance(d.val, Poly) else None

    def val_ptr_off(self, d):
        return d.val.off if d.var is None and isinstance(d.val, Ptr) else None

    def sizes(self, calls, rp, ru, sp, su):
        st, tl, W = self.st, self.tl, self.W
        ss, rs = self.val(tl.ss), self.val(tl.rs)
        if ss is None or rs is None:
            st.undec('C06', rp.e, 'sizes returned by setup')
            return
        # send buffer
        for s0, norm, total, mb, mobj, eq in rp.norm:
            if mb == ZERO:
                ok, why = self.accum(ss, 'send', 'other', 'C06', s0.e, 'sendsize', 'max')
            else:
                p = self.prefix(mb, 'send', s0.e)
                ok, why = self.accum(ss, 'send', 'other', 'C06', s0.e, 'sendsize', 'sum') if p else (None, '')
            if ok is None:
                st.undec('C06', s0.e, why)
            else:
                self.C('C06', ok, s0.e, why, 'sendsize is at least every message sent')
            self.alloc_ok(mobj, ss, s0.e, 'send')
        robj = None
        for s0, norm, total, mb, mobj, eq in ru.norm:
            robj = mobj
            p = self.prefix(mb, 'recv', s0.e)
            if p is None:
                st.undec('C06', s0.e, 'placement of received messages (%s)' % pstr(mb))
                continue
            if p:
                vol = st.nqty
                for lo, n in st.s.tile['out']:
                    vol = vol * n
                if (is_nonneg(rs - vol) or same(rs, vol)):
                    ok, why = (True, '') if self.prefix_exact else (False, 'message offsets leave gaps, recvsize does not')
                else:
                    ok, why = self.accum(rs, 'recv', 'all' if su else 'other', 'C06', s0.e, 'recvsize', 'sum')
                if ok is None:
                    st.undec('C06', s0.e, why)
                else:
                    self.C('C06', ok, s0.e, why, 'recvsize is at least the sum of all messages')
            self.alloc_ok(mobj, rs, s0.e, 'recv')
        for gp in sp:
            for s0, norm, total, mb, mobj, eq in gp.norm:
                for gu in su:
                    for u0, n2, t2, mb2, mobj2, eq2 in gu.norm:
                        self.C('C01', mobj is mobj2 and same(mb, mb2), u0.e,
                               'the own block is packed to %s and unpacked from %s' % (Ptr(mobj, mb), Ptr(mobj2, mb2)),
                               'own block: unpacked where it was packed')
                if mobj is robj:
                    p = self.prefix(mb, 'recv', s0.e)
                    if p is None:
                        st.undec('C06', s0.e, 'placement of the own block (%s)' % pstr(mb))
                elif mobj is not None:
                    ok, why = self.accum(ss, 'send', 'all', 'C06', s0.e, 'sendsize', 'max')
                    self.C('C06', bool(ok) and mb == ZERO, s0.e, 'the own block is packed into the send buffer, which is only as '
                           'large as the blocks for other processors')


class WorldC(World):
    """collective mode: my own record is an ordinary one; there is at least one record and one group member"""

    def __init__(self, st):
        super().__init__(st, True)
        self.n = {'send': sym('nsend_all', pos=True), 'recv': sym('nrecv_all', pos=True)}

    def total(self, side):
        return self.n[side]

    def is_self(self, L, X):
        return False


class Collective(Checker):
    def find_group(st, W):
        """who is in the communicator: (count, list object)"""
        inc = [(e, c) for e, c, l in flat(st.ev1) if e.kind == 'call' and e.name == 'MPI_Group_incl']
        crt = [(e, c) for e, c, l in flat(st.ev1) if e.kind == 'call' and e.name == 'MPI_Comm_create']
        if len(inc) != 1 or len(crt) != 1:
            raise Unknown('group of processors')
        e = inc[0][0]
        st.group_e, st.create_e = e, crt[0][0]
        for v in sorted(e.args[2].sup):
            k = TM.var_key(v)
            if k[0] == 'eq' and k[1].single_atom() is not None:
                W.map[k[1].single_atom()] = sym('ngroup_found', pos=True)
                W.seen.add(k[1].single_atom())
        if e.args[1].var is not None or not isinstance(e.args[1].val, Poly) or e.args[1].val.single_atom() is None:
            raise Unknown('size of the group')
        st.ngroup_atom = e.args[1].val.single_atom()
        st.NG = sym('ngroup', pos=True)
        W.map[st.ngroup_atom] = st.NG
        W.seen.add(st.ngroup_atom)
        ps = {v.obj for v in leafvals(e.args[2]) if isinstance(v, Ptr) and v.obj is not None}
        if len(ps) != 1:
            raise Unknown('list of the group')
        st.pgroup = ps.pop()
    find_group = staticmethod(find_group)

    def peer_field(self, L):
        for (o, d) in L.fields:
            if self.W.is_peer(L, o, d):
                return o, d
        return None

    def domain(self, s, side, X):
        st = self.st
        for l in s.loops[:1]:
            T = self.tl.T[id(l)]
            if not (T.var is None and isinstance(T.val, Poly) and same(strip0(T.val), st.NG)):
                return None, 'its loop runs %s times, the group has %s processors' % (ddstr(T), pstr(st.NG))
            a = X.single_atom()
            want = self.slot.get(side)
            if a is None or TM.atom_key(a)[0] != 'trip':
                return None, 'record index %s' % pstr(X)
            if want is None:
                return 1, None
            ka = TM.atom_id(('K', l.depth))
            if X == Subst({TM.atom_id(('K', want[1])): A(('K', l.depth))}).poly(want[0]):
                return 1, None
            return None, 'uses the record of another group member (%s)' % pstr(X)
        return None, 'no loop over the group'

    def setup_side(self, side):
        """the loop that finds the record of every group member; -> False if not recognised"""
        st, W, tl = self.st, self.W, self.tl
        L = st.S if side == 'send' else st.Rv
        pf = self.peer_field(L)
        msub = Subst(W.map)
        for e0 in st.ev1:
            if e0.kind != 'loop':
                continue
            T0 = msub.dd(e0.T)
            for e1 in e0.body:
                if e1.kind != 'loop' or len(e1.info['exitconds']) != 2 or not e1.info.get('tatom'):
                    continue
                k0, k1 = A(('K', e0.depth)), A(('K', e1.depth))
                ex = []
                for c in e1.info['exitconds']:
                    W.learn(c)
                    ex.append(c)
                msub = Subst(W.map)
                ex = [msub.dd(c) for c in ex]
                at = set().union(*[dd_atoms(c) for c in ex])
                pl = [a for a in at if TM.atom_key(a)[0] == 'load' and TM.atom_key(a)[1] is pf[0]] if pf else []
                gl = [a for a in at if TM.atom_key(a)[0] == 'load' and TM.atom_key(a)[1] is st.pgroup]
                if len(pl) != 1 or len(gl) != 1:
                    continue
                # which list does it search
                pk, gk = TM.atom_key(pl[0]), TM.atom_key(gl[0])
                ok = pk[2] == k1 * L.strides[pf[0]] + pf[1]
                self.C('C01', ok, e1, 'search for the %s record of a processor looks at entry %s in step %s' % (
                    side, pstr(pk[2]), pstr(k1)))
                ok = gk[2] == k0 * 4
                self.C('C01', ok, e1, 'slot %s of the %s tables is filled for group member %s' % (pstr(k0), side, pstr(gk[2])))
                none = le0(W.total(side) - k1)
                eq = eq0(Poly((((pl[0],), 1),)) - Poly((((gl[0],), 1),)))
                want = {none.id, AND(NOT(none), eq).id}
                got = {c.id for c in ex}
                none0 = [c for c in ex if eq.var not in c.sup]
                self.C('C01', got == want, e1, 'the search for the %s record of a group member stops when %s, instead of '
                       'at the end of the %s records' % (side, ' or '.join(gstr(c) for c in ex), pstr(W.total(side))),
                       'the record of every group member is found')
                self.C('C01', T0.var is None and same(T0.val, st.NG), e0, '%s tables are filled for %s of %s group members' % (
                    side, ddstr(T0), pstr(st.NG)))
                X = Poly((((e1.info['tatom'],), 1),))
                self.slot[side] = (X, e0.depth)
                ks = Subst({k1.single_atom(): X})
                self.foundctx[side] = OR(ks.dd(none), ks.dd(eq))
                self.found[side] = NOT(ks.dd(none))
                # tables
                tab = {}
                for ev in e0.body:
                    if ev.kind != 'store':
                        continue
                    for g, v in leaves(msub.dd(ev.args[0])):
                        if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'heap':
                            W.learn(ev.cond)
                            W.learn(ev.args[1])
                            c = AND(g, Subst(W.map).dd(ev.cond))
                            old = tab.get((v.obj, v.off), leaf(Undef('unset')))
                            tab[(v.obj, v.off)] = ite(c, tl.rw1(ev.args[1]), old)
                self.tab[side] = (tab, e0)
                return True
        return False

    def rules(self, side, d):
        return simplify(d, self.foundctx[side])

    def offset_rec(self, p, side, e, what):
        """p is a recurrence that is the sum of the sizes of the preceding group members' messages"""
        st, W, tl = self.st, self.W, self.tl
        a = p.single_atom()
        if a is None or a not in st.I.recs or 'next' not in st.I.recs[a]:
            st.undec('C01', e, '%s: offset %s' % (what, pstr(p)))
            return None
        r = st.I.recs[a]
        if r['init'].var is not None or r['init'].val != ZERO:
            self.V('C01', e, '%s starts at offset %s' % (what, ddstr(r['init'])))
            return False
        nxt = simplify(tl.rw1(r['next']), self.ctx(side))
        yes, no = simplify(nxt, AND(self.ctx(side), self.found[side])), simplify(nxt, AND(self.ctx(side), NOT(self.found[side])))
        ok = yes.var is None and isinstance(yes.val, Poly) and same(yes.val - p, self.count) and \
            no.var is None and no.val == p
        self.C('C01', ok, e, '%s: offset becomes %s after a message of %s values (%s without message)' % (
            what, ddstr(yes), pstr(self.count), ddstr(no)), 'offsets advance by the size of each message')
        return ok

    def ctx(self, side):
        return AND(self.foundctx.get(side, TRUE), *self.tl.nz)

    def run(self):
        st, tl, W = self.st, self.tl, self.W
        self.slot, self.found, self.foundctx, self.tab = {}, {}, {}, {}
        for side in ('send', 'recv'):
            if not self.setup_side(side):
                raise Unknown('tables of the %s messages' % side)
        self.transfers()
        for g in self.groups:
            self.check_pack(g)
        packs = [g for g in self.groups if g.kind == 'pack']
        unpacks = [g for g in self.groups if g.kind == 'unpack']
        e0 = st.ev2[0] if st.ev2 else 'remap'
        for g in self.groups:
            if g.kind == 'direct':
                self.V('C08', g.e, 'a block is copied from input to output directly: with in == out it may overwrite data '
                       'that is still to be sent')
        bad = bool(st.R['C01'].viols)
        if not bad:
            self.C('C01', len(packs) == 1, packs[1].e if len(packs) > 1 else e0, 'blocks are packed %d times' % len(packs))
            self.C('C01', len(unpacks) == 1, unpacks[1].e if len(unpacks) > 1 else e0, 'blocks are unpacked %d times' % len(unpacks))
        if not (len(packs) == len(unpacks) == 1) or not packs[0].nests or not unpacks[0].nests:
            return
        gp, gu = packs[0], unpacks[0]
        self.compare(gp, gu)
        a2a = [s for s in tl.steps if s.kind == 'call' and s.name and s.name.startswith('MPI_')]
        comm = [s for s in a2a if s.name == 'MPI_Alltoallv']
        other = [s for s in a2a if s.name not in ('MPI_Alltoallv', 'MPI_Barrier')]
        if other:
            raise Unknown('calls of %s' % other[0].name)
        self.C('C01', len(comm) == 1 and not comm[0].loops if comm else False, comm[0].e if comm else e0,
               'data is exchanged %d times' % len(comm), 'one exchange of data')
        if len(comm) != 1:
            return
        a = comm[0]
        # order
        self.C('C08', gp.pos1 < a.pos < gu.pos0, gu.e if a.pos >= gu.pos0 else gp.e,
               'data is packed, exchanged and unpacked in the wrong order', 'pack, exchange, unpack')
        self.C('C08', not ({id(l) for l in gu.outer} & {id(l) for l in gp.outer}), gu.e,
               'packing and unpacking alternate in one loop: with in == out data is overwritten')
        # skipped only by processors without communicator
        made = st.create_e.info.get('made')
        null = BV(('b', 'commnull', made.name)) if made is not None else FALSE
        self.C('C09', simplify(a.cond, NOT(null)) is TRUE or AND(NOT(null), NOT(a.cond)) is FALSE, a.e,
               'a member of the communicator does not take part in the exchange when %s' % gstr(AND(NOT(null), NOT(a.cond))),
               'all members take part in the exchange')
        raw = next((c for e, c, l in flat(st.ev2) if e is a.e), None)
        if raw is not None:
            self.W.learn(raw)
            for side, text in (('send', 'sends nothing'), ('recv', 'receives nothing')):
                m = {k: ZERO if v == self.W.n[side] else v for k, v in self.W.map.items()}
                c0 = simplify(Subst(m).dd(raw), NOT(null))
                self.C('C09', c0 is not FALSE, a.e, 'a member of the communicator that %s does not take part in the exchange' % text,
                       'members that send or receive nothing take part, too')
        args = [simplify(x, NOT(null)) for x in a.args]
        com = args[8]
        self.C('C09', com.var is None and isinstance(com.val, Ptr) and com.val.obj is made, a.e,
               'data is exchanged in communicator %s' % ddstr(com), 'exchange in the communicator of the group')
        if made is not None:
            self.C('C09', AND(null, a.cond) is FALSE, a.e, 'a processor without communicator calls MPI_Alltoallv')
        dt = '@ompi_mpi_double' if self.es == 8 else '@ompi_mpi_float'
        for i in (3, 7):
            self.C('C17', dt in ddstr(args[i]), a.e, 'values of %d bytes are exchanged as %s' % (self.es, ddstr(args[i])),
                   'datatype matches precision')
        for side, g, b, word in (('send', gp, 0, 'packed'), ('recv', gu, 4, 'unpacked')):
            L = st.S if side == 'send' else st.Rv
            F = self.found[side]
            miss = AND(self.ctx(side), F, NOT(g.covered))
            self.C('C01', not feasible(miss), g.e, 'the block of a group member is not %s when %s' % (word, gstr(miss)),
                   'every block is %s' % word)
            extra = AND(self.ctx(side), g.covered, NOT(F))
            self.C('C01', not feasible(extra), g.e, 'a block is %s for a group member without message' % word)
            for s0, norm, total, mb, mobj, eq in g.norm:
                buf = args[b]
                if self.offset_rec(mb, side, s0.e, 'the data to be %s' % word) is None:
                    continue
                self.C('C01', buf.var is None and isinstance(buf.val, Ptr) and buf.val.obj is mobj and buf.val.off == ZERO,
                       a.e, 'data is %s at %s but exchanged at %s' % (word, mobj, ddstr(buf)), 'the %s buffer is exchanged' % word)
                size = tl.ss if side == 'send' else tl.rs
                if size.var is None and isinstance(size.val, Poly):
                    ok, why = self.accum(size.val, side, 'all', 'C06', s0.e, side + 'size', 'sum')
                    if ok is None:
                        st.undec('C06', s0.e, why)
                    else:
                        self.C('C06', ok, s0.e, why, side + 'size is at least the sum of all messages')
                    self.alloc_ok(mobj, size.val, s0.e, side)
                else:
                    st.undec('C06', s0.e, 'sizes returned by setup')
            # tables
            tab, e0 = self.tab[side]
            k0 = A(('K', e0.depth))
            for i, what in ((b + 1, 'counts'), (b + 2, 'displacements')):
                p = args[i]
                o = p.val.obj if p.var is None and isinstance(p.val, Ptr) else None
                if o is None or (o, k0 * 4) not in tab:
                    if o is not None and any(x is o for t, _ in self.tab.values() for x, _ in t):
                        self.V('C01', a.e, 'the %s of the %s messages are taken from the wrong table' % (what, side))
                    elif o is not None and p.val.off == ZERO and any(x is o for x, _ in tab):
                        self.V('C01', e0, 'the table of %s of the %s messages is filled at other slots (%s)' % (
                            what, side, ', '.join(pstr(y) for x, y in tab if x is o)))
                    else:
                        st.undec('C01', a.e, 'table of %s' % what)
                    continue
                v = simplify(tab[(o, k0 * 4)], self.ctx(side))
                yes, no = simplify(v, AND(self.ctx(side), F)), simplify(v, AND(self.ctx(side), NOT(F)))
                if what == 'counts':
                    self.C('C01', yes.var is None and isinstance(yes.val, Poly) and same(yes.val, self.count), e0,
                           '%s values are exchanged with a processor whose block has %s' % (ddstr(yes), pstr(self.count)),
                           'counts are the sizes of the overlaps')
                    self.C('C01', no.var is None and no.val == ZERO, e0,
                           '%s values are exchanged with a processor without block' % ddstr(no))
                elif yes.var is None and isinstance(yes.val, Poly):
                    self.offset_rec(yes.val, side, e0, 'table of %s displacements' % side)
                else:
                    self.V('C01', e0, 'displacement of a message is %s' % ddstr(yes))
                al = [ev for ev, c, l in flat(st.ev1) if ev.kind == 'alloc' and
                      any(isinstance(x, Ptr) and x.obj is o for x in leafvals(ev.args[0]))]
                for ev in al:
                    b_ = tl.rw1(ev.args[1])
                    self.C('C06', all(isinstance(x, Poly) and is_nonneg(x - st.NG * 4) for x in leafvals(b_)), ev,
                           'table of %s has %s bytes for %s group members' % (what, ddstr(b_), pstr(st.NG)))
        self.membership()

    def membership(self):
        """the group is the same set, in the same order, on all its members"""
        st, tl, W = self.st, self.tl, self.W
        c = st.create_e
        wv = st.s.world.val.obj
        self.C('C09', c.args[0].var is None and isinstance(c.args[0].val, Ptr) and c.args[0].val.obj is wv, c,
               'communicator is not created by all processors of the remap')
        # order
        P = st.pgroup
        stores = []
        for e, cd, loops in flat(st.ev1):
            if e.kind == 'store' and loops:
                for g, v in leaves(Subst(W.map).dd(e.args[0])):
                    if isinstance(v, Ptr) and v.obj is P:
                        stores.append((e, cd, loops, v))
        F = None
        if len(stores) == 1 and len(stores[0][2]) == 1:
            e, cd, (l,), v = stores[0]
            k0 = A(('K', l.depth))
            ra = st.I.recs.get(st.ngroup_atom, {}).get('rec')
            good = e.args[1].var is None and e.args[1].val == k0 and l.T.var is None and l.T.val == IN.NPROCS and \
                ra is not None and v.off == Poly((((ra,), 1),)) * 4
            if not good:
                st.undec('C09', e, 'list of group members')
                return
            fl = [a for a in dd_atoms(Subst(W.map).dd(cd)) if TM.atom_key(a)[0] == 'load']
            if len(fl) != 1 or TM.atom_key(fl[0])[2] != k0 * 4:
                st.undec('C09', e, 'condition for membership: %s' % gstr(cd))
                return
            F = TM.atom_key(fl[0])[1]
            want = NOT(eq0(Poly((((fl[0],), 1),))))
            self.C('C09', Subst(W.map).dd(cd) is want, e, 'a processor is a member when %s' % gstr(cd),
                   'members are listed in the order of their ranks')
        else:
            unsorted_ = [x for x in stores if len(x[2]) >= 1 and self.unsorted(x)]
            if unsorted_ and not any(e.kind in ('call', 'icall') and e.name and 'sort' in str(e.name) for e, _, _ in flat(st.ev1)):
                e = unsorted_[0][0]
                self.V('C09', e, 'the members of the communicator are listed in the order in which this processor found '
                       'them, which differs between processors')
            else:
                st.undec('C09', st.group_e, 'list of group members')
            return
        self.closure(F)

    def unsorted(self, x):
        e, cd, loops, v = x
        for val in leafvals(e.args[1]):
            if isinstance(val, Poly):
                a = val.single_atom()
                if a is not None and TM.atom_key(a)[0] == 'load' and TM.atom_key(a)[1] in self.st.owner:
                    return True
        return False

    def closure(self, F):
        st, tl, W = self.st, self.tl, self.W
        flags = []
        for e, cd, loops in flat(st.ev1):
            if e.kind != 'store' or not loops:
                continue
            for g, v in leaves(Subst(W.map).dd(e.args[0])):
                if isinstance(v, Ptr) and v.obj is F:
                    c = e.args[1]
                    if c.var is None and isinstance(c.val, Poly) and c.val == ZERO:
                        continue
                    flags.append((e, AND(g, Subst(W.map).dd(cd)), loops, v.off))
        for side in ('send', 'recv'):
            L = st.S if side == 'send' else st.Rv
            pf = self.peer_field(L)
            hit = False
            for e, cd, loops, off in flags:
                a = TM.pdiv_exact(off, C(4))
                a = a.single_atom() if a is not None else None
                if a is None or TM.atom_key(a)[0] != 'load' or TM.atom_key(a)[1] is not pf[0] or len(loops) != 1:
                    continue
                W.learn(loops[0].T)
                W.learn(cd)
                T = Subst(W.map).dd(loops[0].T)
                cd = Subst(W.map).dd(cd)
                k = A(('K', loops[0].depth))
                idx = split_index(TM.atom_key(a)[2], L.strides[pf[0]])
                ok = T.var is None and same(T.val, W.total(side)) and idx is not None and idx[0] == k
                notyet = TRUE
                for x in dd_atoms(cd):
                    if TM.atom_key(x)[0] == 'load' and TM.atom_key(x)[1] is F and TM.atom_key(x)[2] == off:
                        notyet = eq0(Poly((((x,), 1),)))
                ok = ok and AND(notyet, NOT(cd)) is FALSE
                self.C('C09', ok, e, 'not all %s partners are members of the communicator (%s of %s, when %s)' % (
                    side, ddstr(T), pstr(W.total(side)), gstr(cd)), 'all %s partners are members' % side)
                hit = True
            if not hit:
                self.any_flag(flags, side)
        deep = [x for x in flags if len(x[2]) == 3]
        if not deep:
            if flags:
                self.V('C09', flags[0][0], 'the communicator contains only the partners of this processor, not the partners '
                       'of its partners: its members disagree about who is in it')
            return
        # one pass over all pairs (member, processor)
        tot = FALSE
        for e, cd, loops, off in deep:
            if loops != deep[0][2] or off != A(('K', loops[2].depth)) * 4:
                st.undec('C09', e, 'search for further members')
                return
            tot = OR(tot, cd)
        e, cd, (lw, li, lj), off = deep[0]
        kj = A(('K', lj.depth))
        m, idx, fl = self.pairs(tot, F, off, kj)
        if len(idx) != 1 or any(v is None for v in m.values()):
            st.undec('C09', e, 'search for further members')
            return
        self.C('C09', len(fl) >= 1 and lj.T.var is None and lj.T.val == IN.NPROCS, e, 'only %s processors are tested for '
               'being further members' % ddstr(lj.T))
        m0 = dict(m)
        for a in fl:
            m0[a] = ZERO
        tot0 = Subst(m0).dd(tot)
        spec = FALSE
        b = {}
        for t in 'ij':
            for side in ('in', 'out'):
                for ax in range(st.dim):
                    lo, n = st.s.ptile[side][ax]
                    b[t, side, ax] = (sym(t + '.' + pstr(lo), nonneg=True), sym(t + '.' + pstr(n), nonneg=True))
        for x, y in (('in', 'out'), ('out', 'in')):
            o = TRUE
            for ax in range(st.dim):
                (l1, n1), (l2, n2) = b['i', x, ax], b['j', y, ax]
                o = AND(o, le0(TM.pmax(l1, l2) - TM.pmin(l1 + n1 - 1, l2 + n2 - 1)))
            spec = OR(spec, o)
        self.C('C09', guards_equal(tot0, spec, 3000), e, 'a processor is added to the communicator when %s; it must be added '
               'exactly if one of its tiles overlaps a tile of a member, in either direction' % gstr(tot0, 3),
               'partners of members are members')
        # repeated until nothing is added
        ex = lw.info['exitconds']
        ok = None
        if len(ex) == 1 and len(ex[0].sup) == 1:
            k = TM.var_key(next(iter(ex[0].sup)))
            a = k[1].single_atom() if k[0] == 'eq' else None
            if a is not None and a in st.I.recs and ex[0] is eq0(Poly((((a,), 1),))):
                ok = self.active(a, spec, F, off, kj)
        if ok is None:
            st.undec('C09', lw, 'termination of the search for members')
        else:
            self.C('C09', ok, lw, 'the search for further members stops although a member has just been added',
                   'search is repeated until nothing is added')

    def pairs(self, tot, F, off, kj):
        """bounds of the two processors compared in a guard"""
        st = self.st
        m, idx, fl = {}, set(), []
        for a in dd_atoms(tot):
            gl = st.gload(a)
            k = TM.atom_key(a)
            if gl is not None:
                q, d, cell = gl
                if q == kj:
                    m[a] = st.partner(q, d, cell, 'j')
                else:
                    idx.add(q)
                    m[a] = st.partner(q, d, cell, 'i')
            elif k[0] == 'load' and k[1] is F and k[2] == off:
                fl.append(a)
        return m, idx, fl

    def active(self, a, spec, F, off, kj):
        st = self.st
        r = st.I.recs[a]
        if r['init'].var is not None or not isinstance(r['init'].val, Poly) or r['init'].val.const() in (0, None):
            return False if r['init'].var is None and r['init'].val == ZERO else None
        for depth in (0, 1):
            f = r['next']
            if f.var is not None or not isinstance(f.val, Poly) or f.val.single_atom() is None:
                return None
            fa = f.val.single_atom()
            k = TM.atom_key(fa)
            if k[0] != 'final':
                return None
            ra = TM.atom_id(k[1])
            r = st.I.recs.get(ra)
            if r is None:
                # the inner recurrence, renamed
                info = st.I.recs.get(fa)
                if info is None:
                    return None
                ra = info['rec']
                r = st.I.recs.get(ra)
                if r is None:
                    return None
        x = r['x']
        nxt = r['next']
        for g, v in leaves(nxt):
            if not (isinstance(v, Poly) and (v == x.val or v.const() not in (0, None))):
                return None
        m, idx, fl = self.pairs(nxt, F, off, kj)
        if len(idx) != 1 or any(v is None for v in m.values()):
            return None
        for a in fl:
            m[a] = ZERO
        on = map1(lambda v: v.const() is not None, nxt)
        on = Subst(m).dd(on)
        return guards_equal(AND(spec, NOT(on)), FALSE, 3000)

    def any_flag(self, flags, side):
        L = self.st.S if side == 'send' else self.st.Rv
        e = next(iter(L.fields.values()))[0][2]
        if flags:
            self.V('C09', flags[0][0], 'processors I %s are not made members of the communicator' % (
                'send to' if side == 'send' else 'receive from'))
        else:
            self.st.undec('C09', e, 'members of the group')


def study(job):
    st = Study(job)
    st.find_lists()
    st.check_lists()
    if st.coll:
        try:
            W = WorldC(st)
            Collective.find_group(st, W)
            for ci in range(max(len(st.S.cases), len(st.Rv.cases))):
                Collective(Timeline(st, W, ci)).run()
        except Unknown as ex:
            st.undec('C01', 'remap', str(ex))
        return st
    for sp in (True, False):
        W = st.world(sp)
        for ci in range(max(len(st.S.cases), len(st.Rv.cases))):
            tl = Timeline(st, W, ci)
            P2P(tl).run()
    return st


PIDS = ('C01', 'C05', 'C06', 'C07', 'C08', 'C17', 'C09')


def work(job):
    """study of one configuration -> {pid: report dict}, undecided shapes"""
    try:
        st = study(job)
    except (Broken, Unknown, IN.AnalysisError) as ex:
        return {}, [('all', 'Remap%dd' % job[1], '%s: %s' % (job, ex))]
    out = {}
    for k, r in st.R.items():
        r.inst('remap configurations')
        if r.obl:
            r.inst('remap configurations with obligations')
        out[k] = r.to_dict()
    return out, st.undecided


def jobs(tier):
    out = []
    n = 0
    for dim in (3, 2):
        for coll in (1, 0):
            for pack in (0, 1, 2):
                for perm in range(dim):
                    for nq in (1, 2, 'n'):
                        n += 1
                        ms = (0, 1) if tier == 'thorough' or not coll else (n % 2,)
                        for m in ms:
                            out.append(('kiss-double', dim, coll, pack, perm, nq, m))
                    for m in ((0, 1) if tier == 'thorough' else ((n + 1) % 2,)):
                        out.append(('kiss-single', dim, coll, pack, perm, 2, m))
    if tier == 'thorough':
        out += [('fftw3-' + c[5:],) + tuple(r) for c, *r in out]
    return out


def run_all(rep, pids, tier):
    """merge the results for these properties into rep; -> undecided"""
    und = []
    res = parallel(work, jobs(tier))
    ok = 0
    for out, u in res:
        for pid in pids:
            if pid in out:
                rep.merge(out[pid])
        ok += bool(out)
        und += [x for x in u if x[0] in pids or x[0] == 'all']
    if und:
        rep.inst('undecided shapes', len(und))
        for x in und[:8]:
            rep.assumptions.append('not decided: %s %s' % (x[1], str(x[2])[:200]))
    if not ok:
        raise Broken('no Remap configuration could be analysed: %s' % (und[:1],))
    return und


if __name__ == '__main__':
    import sys
    st = study((sys.argv[6] if len(sys.argv) > 6 else 'kiss-double', int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), 'n' if sys.argv[5] == 'n' else int(sys.argv[5]), 1))
    for r in st.R.values():
        print(r.pid, r.obl, r.ok)
        for v in r.viols:
            print('   ', v)
    for u in st.undecided:
        print('UNDECIDED', u)
