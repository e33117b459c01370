"""Affine-form analysis of the built-in 1d FFT: for each length of a list, plan construction and transform are interpreted abstractly with the
input values kept symbolic (constants propagate through factorisation, twiddles, strides and recursion); every output must be the linear form
given by the DFT of that length and direction, nothing else may be written, temporary blocks hold all values stored in them and are released,
and no value is rounded below the compiled precision on the way."""
import math
from .common import *
from .c19 import m_sqrt

NEED = ('transforms', 'outputs compared')
TOL = 1e-7


def m_trig(f):
    def m(I, q, args, mem, cond, ins):
        def g(v):
            c = v.const() if isinstance(v, Poly) else None
            if c is None:
                return A(('fn_' + f.__name__, v)) if isinstance(v, Poly) else Undef('trig')
            return C(Fraction(f(float(c))))
        return map1(g, args[0]), TRUE
    return m


def m_round(f):
    def m(I, q, args, mem, cond, ins):
        def g(v):
            c = v.const() if isinstance(v, Poly) else None
            return C(f(c)) if c is not None else (A(('fn_' + f.__name__, v)) if isinstance(v, Poly) else Undef('round'))
        return map1(g, args[0]), TRUE
    return m


MATH = {'cos': m_trig(math.cos), 'sin': m_trig(math.sin), 'cosf': m_trig(math.cos), 'sinf': m_trig(math.sin),
        'sqrt': m_sqrt, 'sqrtf': m_sqrt, 'llvm.sqrt.f64': m_sqrt, 'llvm.sqrt.f32': m_sqrt,
        'floor': m_round(math.floor), 'floorf': m_round(math.floor), 'llvm.floor.f64': m_round(math.floor), 'llvm.floor.f32': m_round(math.floor),
        'ceil': m_round(math.ceil), 'llvm.ceil.f64': m_round(math.ceil)}


def sparse_inputs(n):
    return sorted({0, 1, 2, n // 3, n // 2 + 1, n - 1}) if n > 8 else list(range(n))


def transform(rep, cfg, n, inv, inplace, dense):
    P = program(cfg)
    es = esize(cfg)
    m = dict(BASE)
    m.update(MATH)
    I = Interp(P, m)
    I.unroll, I.fdecide, I.recurse, I.copylimit = 4 * n + 80, True, 40, 1 << 24
    fa, ft = P.find('kiss_fft_alloc'), P.find('kiss_fft')
    if not fa or not ft:
        raise Broken('kiss_fft_alloc / kiss_fft not found')
    hist = 'kiss_fft, length %d, %s, %s, %s' % (n, 'inverse' if inv else 'forward', 'in place' if inplace else 'out of place', cfg)
    site = 'kissfft.h: kiss_fft_alloc/kiss_fft'
    nu = leaf(NULL)
    plan, mem, al = I.run(fa[0], [leaf(C(n)), leaf(C(inv)), nu, nu], Mem(), TRUE)

    def undecided(why):
        rep.inst('undecided')
        rep.assumptions.append('%s: %s' % (hist, why))

    rep.inst('transforms')
    if plan is None or any(not (isinstance(v, Ptr) and v.obj is not None) for v in leafvals(simplify(plan, al))):
        return undecided('plan not recognised')
    a = Obj('in', 'arg')
    b = a if inplace else Obj('out', 'arg')
    w = mem.own(a)
    pos = set(range(n) if dense else sparse_inputs(n))
    x = {}
    for j in range(n):
        for c in (0, 1):
            v = ZERO
            if j in pos:
                x[2 * j + c] = v = sym('x%d.%s' % (j, 'im' if c else 're'))
            w.cells[C(es * (2 * j + c))] = (leaf(v), es)
    old = dict(w.cells)
    n0 = len(I.events)
    _, mem, al = I.run(ft[0], [plan, leaf(Ptr(a, ZERO)), leaf(Ptr(b, ZERO))], mem, al)
    rep.use(I)
    kinds = {e.kind for e, c, l in flat(I.events)}
    if kinds & {'loop', 'recursive'} or any(l for e, c, l in flat(I.events)):
        return undecided('a loop or recursion was not followed to its end')
    for e, c, l in flat(I.events):
        if e.kind == 'error' or e.kind == 'call' and e.name in ('exit', 'abort'):
            return undecided('error path')
    # --- outputs
    reads = {}
    for k in range(n):
        for c in (0, 1):
            d = simplify(I.read1(mem, b, C(es * (2 * k + c)), es, ir.F64 if es == 8 else ir.F32), al)
            reads[k, c] = d
    bad = []
    for (k, c), d in reads.items():
        if d.var is not None:
            return undecided('output %d depends on a condition' % k)
        v = d.val
        if isinstance(v, Undef):
            rep.inst('outputs compared')
            if '+' in v.what:
                rep.check(False, site, '%s: output %d is computed from memory that was never set' % (hist, k))
                return
            return undecided('output %d not tracked (%s)' % (k, v))
        if not isinstance(v, Poly):
            return undecided('output %d not tracked' % k)
        dv = dict(v.t)
        err = None
        for j in sorted(pos):
            th = (2 if inv else -2) * math.pi * (j * k % n) / n
            want = (math.cos(th), -math.sin(th)) if c == 0 else (math.sin(th), math.cos(th))
            for cc in (0, 1):
                got = float(dv.pop(x[2 * j + cc].t[0][0], 0))
                if abs(got - want[cc]) > TOL and err is None:
                    err = 'its weight of input %d (%s) is %.6g, the DFT has %.6g' % (j, ('re', 'im')[cc], got, want[cc])
        if dv:
            err = err or 'it also contains %s' % pstr(TM.Poly(tuple(dv.items())))[:80]
        rep.inst('outputs compared')
        if not rep.check(err is None, site, '%s: output %d (%s) is not the DFT: %s' % (hist, k, ('re', 'im')[c], err),
                         '%s: output %d is the DFT of the input' % (hist, k)):
            bad.append(k)
            if len(bad) > 3:
                break
    # --- writes
    for o, what in ((b, 'output'),) + (() if inplace else ((a, 'input'),)):
        for off, (v, sz) in mem.own(o).cells.items():
            k = off.const() if isinstance(off, Poly) else None
            if k is None:
                continue
            inside = 0 <= k and k + sz <= 2 * es * n
            rep.inst('written cells')
            if o is a and not inplace:
                same_ = off in old and old[off][0].id == v.id
                rep.check(same_, site, '%s: the input is modified at byte %s' % (hist, k), '%s: input unchanged' % hist)
            else:
                rep.check(inside, site, '%s: writes byte %s of the output, which has %d bytes' % (hist, k, 2 * es * n),
                          '%s: writes stay in the output' % hist)
    # --- temporary blocks
    sizes = {}
    for i, e in enumerate(I.events):
        if e.kind == 'alloc' and e.args and e.args[0].var is None and isinstance(e.args[0].val, Ptr):
            o = e.args[0].val.obj
            sz = e.args[1].val.const() if len(e.args) > 1 and e.args[1].var is None and isinstance(e.args[1].val, Poly) else None
            st = mem.get(o)
            if st is None:
                continue
            rep.inst('blocks')
            if i >= n0:
                rep.check(simplify(st.freed, al) is TRUE, where(e), '%s: temporary block from %s is not released' % (hist, where(e)),
                          '%s: temporary block of %s bytes released' % (hist, sz))
            if sz is None:
                continue
            for off, (v, ssz) in st.cells.items():
                k = off.const() if isinstance(off, Poly) else None
                if k is not None and not (0 <= k and k + ssz <= sz):
                    rep.check(False, where(e), '%s: byte %s of a block of %s bytes from %s is written' % (hist, k, sz, where(e)))
                    break
            else:
                rep.check(True, '', '')


def rounding(rep, cfg):
    """no float conversion inside the double precision transform"""
    P = program(cfg)
    todo = [f for q in ('kiss_fft_alloc', 'kiss_fft') for f in P.find(q)]
    seen = set()
    while todo:
        f = todo.pop()
        if f.name in seen or not f.blocks:
            continue
        seen.add(f.name)
        for b in f.blocks.values():
            for ins in b.instrs:
                if ins.op == 'fptrunc':
                    rep.check(False, '%s' % P.qname(f), '%s: a value is rounded to a narrower floating point type in %s' % (cfg, P.qname(f)))
                for g in callee(P, f, ins):
                    todo.append(g)
        rep.inst('functions without rounding')
        rep.check(True, '', '', '%s: no narrowing of floating point values in %s' % (cfg, P.qname(f)))


def callee(P, f, ins):
    if ins.op not in ('call', 'invoke') or ins.x is None or ins.x.k != 'global':
        return []
    g = P.lookup(f.module, ins.x.v)
    return [g] if g is not None else []


def work(job):
    rep = Report('C22')
    for cfg, n, inv, inplace, dense in job[2:]:
        transform(rep, cfg, n, inv, inplace, dense)
    return rep.to_dict()


DENSE = list(range(1, 33)) + [35, 36, 40, 45, 48, 49, 50, 54, 60, 64]
SPARSE = [66, 70, 72, 75, 77, 80, 81, 91, 96, 97, 100, 105, 108, 120, 121, 125, 128, 135, 144, 150, 160, 180, 192, 200, 210, 225, 240, 243, 256]
BIG = [143, 169, 289, 300, 343, 360, 375, 400, 450, 480, 500, 512, 600, 625, 720, 729, 768, 900, 1000, 1024]


def run(rep, tier):
    rep.rule = __doc__
    jobs = []
    for i, n in enumerate(SPARSE + (BIG if tier == 'thorough' else [])):
        jobs += [('kiss-double', n, inv, (i + inv) % 2, False) for inv in (0, 1)]
    jobs.sort(key=lambda j: -j[1])
    for n in sorted(DENSE, reverse=True):
        jobs += [('kiss-double', n, inv, ip, True) for inv in (0, 1) for ip in (0, 1)]
        if n <= 16:
            jobs += [('kiss-single', n, inv, 1, True) for inv in (0, 1)]
    rounding(rep, 'kiss-double')
    groups, cur, cost = [], {}, {}
    for j in jobs:                          # several short ones per process
        g = cur.setdefault(j[0], [])
        g.append(j)
        cost[j[0]] = cost.get(j[0], 0) + (j[1] ** 2 if j[4] else 12 * j[1])
        if cost[j[0]] > 4000:
            groups.append(('t', j[0]) + tuple(g))
            cur[j[0]], cost[j[0]] = [], 0
    groups += [('t', c) + tuple(g) for c, g in cur.items() if g]
    for d in parallel(work, groups):
        rep.merge(d)
