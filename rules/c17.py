"""Size and datatype agreement in each compiled precision: remap messages carry the datatype of the element type and buffers are
sized in it; reductions and broadcasts name a datatype of the width of the variables they are given; bytes copied or allocated for grid
data are whole complex elements of the compiled precision; constructors survive exactly for the compiled precision."""
from .common import *
from . import remap as RM

NEED = ('constructor precisions', 'reductions and broadcasts', 'remap configurations with obligations')


def precision(rep, cfg, dim):
    S = FFTSession(cfg, dim)
    p = sym('precision')
    ev = S.ctor(S.world, p)
    right = 1 if S.es == 4 else 2
    ok = S.alive
    site = '%s::%s' % (S.cls, S.cls)
    G = AND(ok, S.I.facts)
    rep.inst('constructor precisions')
    rep.check(not feasible(AND(G, NOT(eq0(p - right)))), site, '%s [%s]: a precision other than %d is accepted' % (S.cls, cfg, right),
              '%s [%s]: only precision %d is accepted' % (S.cls, cfg, right))
    rep.check(simplify(ok, eq0(p - right)) is TRUE or AND(eq0(p - right), NOT(ok)) is FALSE or not feasible(AND(eq0(p - right), NOT(ok))), site,
              '%s [%s]: the compiled precision is rejected' % (S.cls, cfg))
    rep.use(S.I)


def datatypes(rep, ev, hist):
    for e, c, l in flat(ev):
        if e.kind != 'call' or e.name not in ('MPI_Allreduce', 'MPI_Bcast'):
            continue
        rep.inst('reductions and broadcasts')
        dt = e.args[3 if e.name == 'MPI_Allreduce' else 2]
        n = e.args[2 if e.name == 'MPI_Allreduce' else 1]
        sz = IN.dtsize(dt)
        cnt = n.val.const() if n.var is None and isinstance(n.val, Poly) else None
        if cnt is None:
            continue
        for i in ((0, 1) if e.name == 'MPI_Allreduce' else (0,)):
            for v in leafvals(e.args[i]):
                if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'stack' and v.obj.size is not None and v.off == ZERO:
                    s = v.obj.size.const()
                    if s is not None:
                        rep.check(cnt * sz == s if s <= 8 else cnt * sz <= s, where(e), '%s: %s handles %d values of %d bytes in a variable of %d bytes'
                                  % (hist, e.name, cnt, sz, s), '%s: %s at %s matches its variable' % (hist, e.name, where(e)))


def points(S):
    out = []
    for b in (S.inb, S.outb):
        r = ONE
        for lo, hi in b:
            r = r * (hi - lo + 1)
        out.append(r)
    return out


def work(job):
    cfg, dim, ex = job
    rep = Report('C17')
    precision(rep, cfg, dim)
    S = FFTSession(cfg, dim)
    S.start(exchange=ex)
    hist = '%s, exchange %d, %s' % (S.cls, ex, cfg)
    ev = list(S.setup(sym('permute', nonneg=True)))
    for e, c, l in flat(ev):
        if e.kind == 'remap_setup':
            q = e.info['nqty']
            rep.check(q.var is None and isinstance(q.val, Poly) and q.val == C(2), where(e), '%s: a remap moves %s values per grid point instead of 2'
                      % (hist, ddstr(q)), '%s: remap at %s moves complex values' % (hist, where(e)))
    datatypes(rep, ev, hist)
    bi, bo = S.buf('in'), S.buf('out')
    flag = sym('flag')
    cv = list(S.call('compute', bi[1], bo[1], flag)) + list(S.call('only_remaps', bi[1], bo[1], flag)) + \
        list(S.call('only_one_remap', bi[1], bo[1], flag, sym('which')))
    pts = points(S)
    for e, c, l in flat(cv):
        if e.kind != 'memcpy' or l:
            continue
        objs = {v.obj for v in leafvals(e.args[0]) if isinstance(v, Ptr)}
        if not objs & {bi[0], bo[0]}:
            continue
        rep.inst('copies')
        n = e.info.get('size') if 'size' in e.info else e.args[2] if len(e.args) > 2 else None
        for v in leafvals(n) if n is not None else ():
            if isinstance(v, Poly):
                q = TM.pdiv_exact(v, C(2 * S.es))
                rep.check(q is not None and any(same(q, p) for p in pts), where(e), '%s: %s bytes are copied, not a tile of elements of %d bytes'
                          % (hist, pstr(v), 2 * S.es), '%s: copy at %s is a whole tile' % (hist, where(e)))
    rep.use(S.I)
    return rep.to_dict()


def run(rep, tier):
    for d in parallel(work, [(c, d, ex) for d in (3, 2) for c in CONFIGS for ex in (0, 1)]):
        rep.merge(d)
    RM.run_all(rep, ('C17',), tier)
    rep.rule = __doc__
