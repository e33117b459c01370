"""Every C wrapper is interpreted with symbolic arguments down to the class methods. A forwarding wrapper must make exactly one call of
the method of its name, on the object it was given, with each argument equal to the wrapper's own (index arguments minus one for the
*_fortran variants, communicator through MPI_Comm_f2c), and hand every output back through the caller's pointer. For keyword wrappers
each documented keyword must select the member of that name and nothing else may change; every other string yields the error value."""
from .common import *

NEED = ('wrappers', 'forwarded arguments', 'keywords', 'rejected keywords')

SET = {'collective': 'collective', 'exchange': 'exchange', 'pack': 'packflag', 'memory': 'memoryflag', 'scale': 'scaled',
       'remaponly': 'remaponly'}
RSET = {'collective': 'collective', 'pack': 'packflag'}
GINT = {3: ['npfast1', 'npfast2', 'npfast3', 'npmid1', 'npmid2', 'npmid3', 'npslow1', 'npslow2', 'npslow3', 'npbrick1', 'npbrick2',
            'npbrick3'],
        2: ['npfast1', 'npfast2', 'npslow1', 'npslow2', 'npbrick1', 'npbrick2']}
IVEC = ['cflags', 'eflags', 'pflags']
DVEC = {3: ['tfft', 't1d', 'tremap', 'tremap1', 'tremap2', 'tremap3', 'tremap4'],
        2: ['tfft', 't1d', 'tremap', 'tremap1', 'tremap2', 'tremap3']}
STR = ['fft1d', 'precision']


def concrete(I, mem, d):
    """bytes of the C string a pointer denotes when they are all known"""
    v = d.val if d.var is None else None
    if not isinstance(v, Ptr) or v.obj is None:
        return None
    if v.obj.meta.get('str') is not None and v.off == ZERO:
        return v.obj.meta['str']
    if v.obj.kind == 'global' and not v.off.t:
        return I.prog.cstring(v)
    return None


def m_strcmp(I, q, args, mem, cond, ins):
    a, b = concrete(I, mem, args[0]), concrete(I, mem, args[1])
    if a is None or b is None:
        return None, TRUE
    if len(args) > 2:
        n = args[2].val.const() if args[2].var is None and isinstance(args[2].val, Poly) else None
        if n is None:
            return None, TRUE
        a, b = a[:int(n)], b[:int(n)]
    if q.endswith('casecmp'):
        a, b = a.lower(), b.lower()
    return leaf(C((a > b) - (a < b))), TRUE


def m_strlen(I, q, args, mem, cond, ins):
    s = concrete(I, mem, args[0])
    if s is not None:
        return leaf(C(len(s))), TRUE
    return map1(lambda v: A(('strlen', v.obj, v.off)) if isinstance(v, Ptr) and v.obj is not None else Undef('strlen'), args[0]), TRUE


def m_method(nout):
    """a class method taking nout int references among its arguments"""
    def m(I, q, args, mem, cond, ins):
        outs = []
        refs = args[-nout[0] - nout[1]:len(args) - nout[1]] if nout[0] else []
        n = I.uniq('method')
        for i, r in enumerate(refs):
            v = sym('method_out_%d_%d' % (n, i))
            I.store_quiet(mem, r, leaf(v), 4)
            outs.append(v)
        I.emit('method', q, list(args), outs=outs)
        return None, TRUE
    return m


def m_f2c(I, q, args, mem, cond, ins):
    v = leaf(Ptr(Obj('f2c', 'arg'), ZERO))
    I.emit('f2c', q, list(args), ret=v)
    return v, TRUE


METHODS = {'fft': {'setup': (3, 0), 'setup_memory': (0, 0), 'compute': (0, 0), 'only_1d_ffts': (0, 0), 'only_remaps': (0, 0),
                   'only_one_remap': (0, 0), 'tune': (3, 4)},
           'remap': {'setup': (2, 0), 'remap': (0, 0)}}


class W:
    def __init__(self, rep, cfg, kind, dim):
        self.rep, self.cfg, self.kind, self.dim = rep, cfg, kind, dim
        self.cls = ('FFT%dd' if kind == 'fft' else 'Remap%dd') % dim
        self.pre = '%s%dd_' % (kind, dim)
        self.prog = program(cfg)
        self.fs = self.prog.fields(self.cls)
        self.models = {'strcmp': m_strcmp, 'strncmp': m_strcmp, 'strcasecmp': m_strcmp, 'strlen': m_strlen, 'MPI_Comm_f2c': m_f2c,
                       'PMPI_Comm_f2c': m_f2c}
        for k in ('FFT', 'Remap'):
            for d in (2, 3):
                c = '%s%dd' % (k, d)
                for n, o in METHODS[k.lower()].items():
                    self.models['%s::%s' % (c, n)] = m_method(o)
                self.models['%s::%s' % (c, c)] = m_method((0, 0))
                self.models['%s::~%s' % (c, c)] = m_method((0, 0))

    def run(self, name, args):
        fs = self.prog.find(self.pre + name)
        if not fs:
            raise Broken('C wrapper %s%s is missing' % (self.pre, name))
        self.fn = fs[0]
        self.site = '%s%s' % (self.pre, name)
        if len(self.fn.params) != len(args):
            raise Broken('C wrapper %s takes %d arguments, documented are %d' % (self.site, len(self.fn.params), len(args)))
        self.I = Interp(self.prog, self.models)
        self.I.unroll = 40
        self.mem = Mem()
        self.this = Obj('this', 'arg', 'sym')
        self.T = leaf(Ptr(self.this, ZERO))
        args = [self.T if a is None else a for a in args]
        self.ret, self.mem, self.alive = self.I.run(self.fn, args, self.mem, TRUE)
        self.rep.use(self.I)
        self.rep.inst('wrappers')
        return self.I.events

    def fld(self, f, size, ptr=False):
        m = Mem()
        ty = ir.PTR if ptr else ir.INT(8 * size)
        return self.I.read1(m, self.this, C(self.fs[f][0]), size, ty)

    def kw(self, s):
        o = Obj('"%s"' % s, 'arg')
        o.meta['str'] = s
        return leaf(Ptr(o, ZERO))

    def mutated(self, allowed):
        """stores to objects visible to the caller, other than allowed [(obj, off)]"""
        out = []
        for e, c, l in flat(self.I.events):
            if e.kind == 'store':
                for g, v in leaves(e.args[0]):
                    if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'arg' and feasible(AND(c, g)):
                        if not any(v.obj is o and v.off == off for o, off in allowed):
                            out.append((where(e), v))
            elif e.kind in ('memcpy', 'memset'):
                for g, v in leaves(e.args[0]):
                    if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'arg' and feasible(AND(c, g)):
                        if not any(v.obj is o for o, off in allowed):
                            out.append((where(e), v))
        return out


def ddsame(a, b):
    return a is b or all(x is y or x == y or (isinstance(x, Poly) and isinstance(y, Poly) and same(x, y))
                         for (g1, x) in leaves(a) for (g2, y) in leaves(b) if AND(g1, g2) is not FALSE)


def unresolved(k):
    return any(w in str(k) for w in ("'ret'", "'out'", "'rec'", "'trip'", "'final'", "'K'", "'X'", "'XP'", 'trip<', 'rec<', 'ret<'))


def opaque(d, known=()):
    """does the value contain results of code the analysis did not see through"""
    for _, v in leaves(d):
        if isinstance(v, Undef):
            continue
        if isinstance(v, Poly):
            for m in v.t:
                for a in m[0]:
                    if unresolved(TM.atom_key(a)):
                        return True
    for x in d.sup:
        if unresolved(var_key(x)):
            return True
    return False


def forward(w, name, method, args, expect, outs):
    """args: wrapper arguments, None = the object; expect: method arguments after this, without outputs; outs: caller's out objects"""
    rep = w.rep
    ev = w.run(name, args)
    calls = [(e, c) for e, c, l in flat(ev) if e.kind == 'method']
    q = '%s::%s' % (w.cls, method)
    ok = rep.check(len(calls) == 1, w.site, 'makes %d method calls (%s), expected exactly one of %s'
                   % (len(calls), ', '.join(e.name for e, c in calls), q), '%s forwards to %s' % (w.site, q))
    if not ok:
        return
    e, c = calls[0]
    rep.check(e.name == q, where(e), '%s calls %s, not %s' % (w.site, e.name, q))
    if e.name != q:
        return
    rep.check(not feasible(NOT(c)), where(e), '%s calls %s only under a condition' % (w.site, q))
    rep.check(ddsame(e.args[0], w.T), where(e), '%s is not applied to the given object' % q)
    no, tail = METHODS[w.kind].get(method, (0, 0))
    rest = list(e.args[1:])
    got = rest[:len(rest) - no - tail] + (rest[len(rest) - tail:] if tail else [])
    rep.check(len(got) == len(expect), where(e), '%s: %d arguments forwarded, expected %d' % (w.site, len(got), len(expect)))
    if len(got) != len(expect):
        return
    for i, (a, b) in enumerate(zip(got, expect)):
        rep.inst('forwarded arguments')
        rep.check(ddsame(a, b), where(e), '%s: argument %d passed to %s is %s, should be %s' % (w.site, i + 1, q, ddstr(a), ddstr(b)),
                  '%s argument %d = %s' % (w.site, i + 1, ddstr(b)) if i == 3 else None)
    for i, o in enumerate(outs):
        v = w.I.read1(w.mem, o, ZERO, 4, ir.INT(32))
        rep.check(ddsame(v, leaf(e.info['outs'][i])), w.site, 'output %d handed to the caller is %s, not what %s returned'
                  % (i + 1, ddstr(v), q))
    for site, v in w.mutated([(o, ZERO) for o in outs]):
        rep.check(False, site, '%s writes to %s' % (w.site, v))


def names(dim):
    return ['%s_%s%s' % (s, a, e) for s in ('in', 'out') for a in AX[dim] for e in ('lo', 'hi')]


def outp(n):
    return [Obj(x, 'arg') for x in n]


def ptr(o):
    return leaf(Ptr(o, ZERO))


def forwarding(rep, cfg, kind, dim):
    w = W(rep, cfg, kind, dim)
    bounds = [sym('arg_' + n) for n in names(dim)]
    B = [leaf(b) for b in bounds]
    B1 = [leaf(b - 1) for b in bounds]
    if kind == 'fft':
        g = [leaf(sym('arg_' + n)) for n in GN[dim]]
        perm = leaf(sym('arg_permute'))
        for suffix, bb in (('', B), ('_fortran', B1)):
            o = outp(['*fftsize', '*sendsize', '*recvsize'])
            forward(w, 'setup' + suffix, 'setup', [None] + g + B + [perm] + [ptr(x) for x in o], g + bb + [perm], o)
            o = outp(['*fftsize', '*sendsize', '*recvsize'])
            t = [leaf(sym('arg_' + n)) for n in ('flag', 'niter', 'tmax', 'tflag')]
            forward(w, 'tune' + suffix, 'tune', [None] + g + B + [perm] + [ptr(x) for x in o] + t, g + bb + [perm] + t, o)
        i, o, s, r = (ptr(x) for x in outp(['in', 'out', 'sendbuf', 'recvbuf']))
        f, wh = leaf(sym('arg_flag')), leaf(sym('arg_which'))
        for n, a in (('setup_memory', [s, r]), ('compute', [i, o, f]), ('only_1d_ffts', [i, f]), ('only_remaps', [i, o, f]),
                     ('only_one_remap', [i, o, f, wh])):
            forward(w, n, n, [None] + a, a, [])
    else:
        q = [leaf(sym('arg_' + n)) for n in ('nqty', 'permute', 'memoryflag')]
        for suffix, bb in (('', B), ('_fortran', B1)):
            o = outp(['*sendsize', '*recvsize'])
            forward(w, 'setup' + suffix, 'setup', [None] + B + q + [ptr(x) for x in o], bb + q, o)
        a = [ptr(x) for x in outp(['in', 'out', 'sendbuf', 'recvbuf'])]
        forward(w, 'remap', 'remap', [None] + a, a, [])
    # create and destroy
    prec = [leaf(sym('arg_precision'))] if kind == 'fft' else []
    for suffix in ('', '_fortran'):
        h = Obj('*handle', 'arg')
        comm = ptr(Obj('communicator', 'arg')) if not suffix else leaf(sym('arg_fcomm'))
        ev = w.run('create' + suffix, [comm] + prec + [ptr(h)])
        fl = list(flat(ev))
        al = [e for e, c, l in fl if e.kind == 'alloc']
        ct = [(e, c) for e, c, l in fl if e.kind == 'method']
        q = '%s::%s' % (w.cls, w.cls)
        ok = rep.check(len(ct) == 1 and ct[0][0].name == q, w.site, 'constructs %s, expected one %s' % ([e.name for e, c in ct], w.cls))
        if ok:
            e, c = ct[0]
            rep.check(not feasible(NOT(c)), where(e), '%s constructs only under a condition' % w.site)
            want = comm
            if suffix:
                fc = [x for x, _, _ in fl if x.kind == 'f2c']
                good = rep.check(len(fc) == 1 and ddsame(fc[0].args[0], comm), w.site, 'the Fortran communicator is not converted')
                want = fc[0].ret if good else None
            if want is not None:
                rep.check(ddsame(e.args[1], want), where(e), '%s: the communicator passed on is %s' % (w.site, ddstr(e.args[1])))
                rep.inst('forwarded arguments')
            for a, b in zip(e.args[2:], prec):
                rep.check(ddsame(a, b), where(e), '%s: precision passed on is %s' % (w.site, ddstr(a)))
                rep.inst('forwarded arguments')
            v = w.I.read1(w.mem, h, ZERO, 8, ir.PTR)
            rep.check(ddsame(v, e.args[0]), w.site, 'the handle returned is %s, not the new object' % ddstr(v),
                      '%s returns the object it constructed' % w.site)
            size = w.prog.composites[w.cls][1]
            for a in al:
                if a.args[0] is e.args[0] or ddsame(a.args[0], e.args[0]):
                    s = a.args[1]
                    if s.var is None and isinstance(s.val, Poly) and s.val.const() is not None:
                        rep.check(s.val.const() >= size, where(a),
                                  '%s allocates too little' % w.site)
        for site, v in w.mutated([(h, ZERO)]):
            rep.check(False, site, '%s writes to %s' % (w.site, v))
    ev = w.run('destroy', [None])
    fl = list(flat(ev))
    ds = [(e, c) for e, c, l in fl if e.kind == 'method']
    q = '%s::~%s' % (w.cls, w.cls)
    ok = rep.check(len(ds) == 1 and ds[0][0].name == q and ddsame(ds[0][0].args[0], w.T), w.site,
                   'destroy runs %s, expected %s once on the given object' % ([e.name for e, c in ds], q))
    fr = [e for e, c, l in fl if e.kind == 'free']
    rep.check(len(fr) == 1 and ddsame(fr[0].args[0], w.T), w.site, 'the object is released %d times' % len(fr))


def verdict(rep, w, got, want, key, what):
    rep.inst('keywords')
    if not ddsame(got, want) and opaque(got):
        a = '%s("%s"): lookup not resolved statically' % (w.site, key)
        if a not in rep.assumptions:
            rep.assumptions.append(a)
        return
    rep.check(ddsame(got, want), w.site, '%s for keyword "%s" is %s, should be %s' % (what, key, ddstr(got), ddstr(want)),
              '%s("%s") = %s' % (w.site, key, ddstr(want)))


def wrong(keys):
    """strings that are no keyword: prefixes, extensions, changed case, neighbours"""
    out = ['', 'x', 'nosuchkeyword']
    for k in keys:
        out += [k[:-1], k + 'x', k + '1', k.upper()]
    return [s for s in dict.fromkeys(out) if s not in keys]


def keywords(rep, cfg, kind, dim):
    w = W(rep, cfg, kind, dim)
    val = sym('arg_value')
    sets = SET if kind == 'fft' else RSET
    for k, f in sets.items():
        ev = w.run('set', [None, w.kw(k), leaf(val)])
        off = C(w.fs[f][0])
        verdict(rep, w, w.I.read1(w.mem, w.this, off, 4, ir.INT(32)), leaf(val), k, 'member %s' % f)
        for site, v in w.mutated([(w.this, off)]):
            fl = w.prog.field_at(w.cls, v.off.const()) if v.off.const() is not None else '?'
            rep.check(False, site, '%s("%s") also writes %s' % (w.site, k, fl))
    for k in wrong(sets):
        w.run('set', [None, w.kw(k), leaf(val)])
        rep.inst('rejected keywords')
        for site, v in w.mutated([]):
            rep.check(False, site, '%s("%s") changes the object though this is no keyword' % (w.site, k))
        rep.check(True, w.site, '')
    if kind != 'fft':
        return
    M1 = leaf(C(-1))
    NUL = leaf(NULL)

    def bad(fn, keys, args, err, errname):
        for k in wrong(keys):
            w.run(fn, [None, w.kw(k)] + args())
            rep.inst('rejected keywords')
            if not ddsame(w.ret, err) and opaque(w.ret):
                continue
            rep.check(ddsame(w.ret, err), w.site, 'unknown keyword "%s" yields %s, should be %s' % (k, ddstr(w.ret), errname))

    ints = {k: v for k, v in SET.items() if k in ('collective', 'exchange', 'pack')}
    for n in GINT[dim] + ['ntrial', 'npertrial']:
        ints[n] = n
    for k, f in ints.items():
        w.run('get_int', [None, w.kw(k)])
        verdict(rep, w, w.ret, w.fld(f, 4), k, 'result')
        for site, v in w.mutated([]):
            rep.check(False, site, '%s writes to %s' % (w.site, v))
    opt = [k for k in SET if k not in ints] + ['cbest', 'ebest', 'pbest']     # may or may not be readable
    bad('get_int', list(ints) + opt, list, M1, '-1')
    w.run('get_double', [None, w.kw('setuptime')])
    verdict(rep, w, w.ret, w.I.read1(Mem(), w.this, C(w.fs['setuptime'][0]), 8, ir.F64), 'setuptime', 'result')
    bad('get_double', ['setuptime', 'besttime'], list, M1, '-1.0')
    w.run('get_int64', [None, w.kw('memusage')])
    verdict(rep, w, w.ret, w.fld('memusage', 8), 'memusage', 'result')
    bad('get_int64', ['memusage'], list, M1, '-1')
    for k in STR:
        n = Obj('*len', 'arg')
        w.run('get_string', [None, w.kw(k), ptr(n)])
        p = w.fld(k, 8, ptr=True)
        verdict(rep, w, w.ret, p, k, 'result')
        want = map1(lambda v: A(('strlen', v.obj, v.off)) if isinstance(v, Ptr) else Undef('x'), p)
        got = w.I.read1(w.mem, n, ZERO, 4, ir.INT(32))
        for v in leafvals(p):
            if isinstance(v, Ptr) and v.obj is not None:        # the strings of an FFT that is set up exist
                got = simplify(got, NOT(w.I.isnull(v)))
        verdict(rep, w, got, want, k, 'length')
        for site, v in w.mutated([(n, ZERO)]):
            rep.check(False, site, '%s writes to %s' % (w.site, v))
    bad('get_string', STR, lambda: [ptr(Obj('*len', 'arg'))], NUL, 'NULL')
    for fn, keys in (('get_int_vector', IVEC), ('get_double_vector', DVEC[dim])):
        for k in keys:
            n = Obj('*len', 'arg')
            w.run(fn, [None, w.kw(k), ptr(n)])
            verdict(rep, w, w.ret, leaf(Ptr(w.this, C(w.fs[k][0]))), k, 'result')
            verdict(rep, w, w.I.read1(w.mem, n, ZERO, 4, ir.INT(32)), w.fld('ntrial', 4), k, 'length')
            for site, v in w.mutated([(n, ZERO)]):
                rep.check(False, site, '%s writes to %s' % (w.site, v))
        bad(fn, keys, lambda: [ptr(Obj('*len', 'arg'))], NUL, 'NULL')


def work(job):
    cfg, kind, dim, part = job
    rep = Report('C15')
    (forwarding if part == 'f' else keywords)(rep, cfg, kind, dim)
    return rep.to_dict()


def run(rep, tier):
    cfgs = ['kiss-double', 'fftw3-single'] if tier == 'quick' else list(CONFIGS)
    jobs = [(c, k, d, p) for c in cfgs for k in ('fft', 'remap') for d in (2, 3) for p in ('f', 'k')]
    for r in parallel(work, jobs):
        rep.merge(r)
