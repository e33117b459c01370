"""Resource histories: every allocation, handle and plan of a create..destroy history against its releases."""
from .common import *

HANDLE_OUT = {'MPI_Comm_group': 1, 'MPI_Group_incl': 3, 'MPI_Comm_create': 2, 'MPI_Comm_split': 3, 'MPI_Comm_dup': 1,
              'MPI_Group_excl': 3, 'MPI_Comm_create_group': 3}
HANDLE_FREE = {'MPI_Comm_free': 0, 'MPI_Group_free': 0}


def is_ptr_to(o):
    def f(v):
        return TRUE if isinstance(v, Ptr) and v.obj is o and v.off == ZERO else FALSE
    return f


def loop_results(g):
    return any(TM.atom_key(a)[0] in ('final', 'trip', 'rec', 'sum') for a in dd_atoms(g))


def audit(rep, S, ev, hist, leaks=True, inside=()):
    """ev: all events of a complete history"""
    I = S.I
    facts = I.facts
    allocs, frees = [], []
    for e, c, l in flat(ev):
        if e.kind == 'alloc':
            if e.fn and e.fn.split('::')[0] in inside:
                continue                    # belongs to a modelled class, audited on its own
            allocs.append((e, c, l))
        elif e.kind == 'free':
            frees.append((e, c, l))
        elif e.kind in ('uaf', 'doublefree', 'nullderef', 'undefderef', 'undefbranch'):
            rep.inst('suspect accesses examined')
            g = AND(c, facts)
            if e.kind == 'undefbranch' and '+' not in str(e.name):
                continue
            if loop_results(g) and (e.kind == 'nullderef' or any(
                    isinstance(v, Undef) and 'null-deref' in v.what for d in e.args if isinstance(d, DD) for v in leafvals(d))):
                # whether a counting loop ended at zero is settled where the counts are compared (C01, C06)
                rep.inst('NULL tests left to the count analysis')
                continue
            what = {'uaf': 'released memory is used', 'doublefree': 'memory is released twice',
                    'nullderef': 'a NULL pointer is dereferenced', 'undefderef': 'an uninitialised pointer is used',
                    'undefbranch': 'a decision depends on an uninitialised value'}[e.kind]
            rep.check(not feasible(g), where(e), '%s: %s (%s) under %s' % (hist, what, e.name, gstr(g)))
    rep.inst('allocations followed', len(allocs))
    rep.inst('releases followed', len(frees))
    seen = set()
    for e, c, l in frees:
        p = e.args[0]
        for g, v in leaves(p):
            gg = AND(c, facts, g)
            if gg is FALSE:
                continue
            if isinstance(v, Undef):
                rep.check(not feasible(gg), where(e), '%s: an uninitialised pointer is released under %s' % (hist, gstr(gg)))
            elif isinstance(v, Ptr) and v.obj is not None:
                if v.obj.kind not in ('heap',):
                    if v.obj.kind == 'opaque' or v.obj.meta.get('handle'):
                        continue
                    rep.check(not feasible(gg), where(e), '%s: memory the library did not allocate (%s) is released' % (hist, v.obj))
                elif v.off != ZERO:
                    rep.check(not feasible(gg), where(e), '%s: a pointer into the middle of a block is released' % hist)
                else:
                    kind_ok(rep, e, v.obj, hist)
    if leaks:
        for e, c, l in allocs:
            o = e.args[0].val.obj
            if l:
                rep.inst('allocations inside loops')
            freed = FALSE
            for f, fc, fl in frees:
                freed = OR(freed, AND(fc, map1(is_ptr_to(o), f.args[0])))
            g = AND(S.alive, c, facts, NOT(freed))
            rep.check(not feasible(g), where(e), '%s: the block allocated here is never released under %s' % (hist, gstr(g)),
                      '%s: block of %s is released exactly once' % (hist, where(e)))


FAMILY = {'malloc': 'free', 'realloc': 'free', 'posix_memalign': 'free', 'calloc': 'free', 'aligned_alloc': 'free'}


def fam(q):
    if q is None:
        return None
    if 'new[]' in q or q.startswith('_Zna'):
        return 'new[]'
    if 'new' in q or q.startswith('_Znw'):
        return 'new'
    if 'delete[]' in q or q.startswith('_Zda'):
        return 'new[]'
    if 'delete' in q or q.startswith('_Zdl'):
        return 'new'
    if q in ('malloc', 'realloc', 'calloc', 'free', 'posix_memalign', 'kiss_fft_alloc'):
        return 'malloc'
    if 'destroy_plan' in q or q == 'fftw_plan':
        return 'fftw'
    return None


def kind_ok(rep, e, o, hist):
    a, b = fam(o.meta.get('how')), fam(e.name)
    if a is None or b is None:
        return
    rep.inst('allocator pairs')
    rep.check(a == b, where(e), '%s: block from %s (%s) is released by %s' % (hist, o.meta.get('how'), sloc(o.loc), e.name))


def remap_objects(rep, S, ev, hist):
    """the destructor of a remap runs exactly when its memory goes away, once"""
    made, gone, freed = {}, {}, {}
    for e, c, l in flat(ev):
        if e.kind == 'remap_setup':
            for g, v in leaves(e.args[0]):
                if isinstance(v, Ptr) and v.obj is not None:
                    made[v.obj] = (e, OR(made[v.obj][1] if v.obj in made else FALSE, AND(c, g)))
        elif e.kind == 'remap_destroy':
            for g, v in leaves(e.args[0]):
                if isinstance(v, Ptr) and v.obj is not None:
                    cc = AND(c, g)
                    old = gone.get(v.obj, FALSE)
                    both = AND(old, cc, S.I.facts)
                    rep.check(not feasible(both), where(e), '%s: a remap is destroyed twice' % hist)
                    gone[v.obj] = OR(old, cc)
        elif e.kind == 'free':
            for g, v in leaves(e.args[0]):
                if isinstance(v, Ptr) and v.obj is not None:
                    freed[v.obj] = OR(freed.get(v.obj, FALSE), AND(c, g))
    for o, (e, c) in made.items():
        rep.inst('remap objects followed')
        g = AND(S.alive, c, S.I.facts, NOT(gone.get(o, FALSE)))
        rep.check(not feasible(g), where(e), '%s: the remap set up here is never destroyed under %s' % (hist, gstr(g)),
                  '%s: remap set up at %s is destroyed once' % (hist, where(e)))


def handles(rep, S, ev, hist):
    """MPI communicators and groups: released exactly once, only when obtained"""
    I = S.I
    got, rel = [], []
    for e, c, l in flat(ev):
        if e.kind != 'call':
            continue
        if e.name in HANDLE_OUT:
            o = e.info.get('out')
            got.append((e, c, o))
        elif e.name in HANDLE_FREE:
            rel.append((e, c, e.info.get('val')))
    for e, c, o in got:
        if o is None:
            continue
        rep.inst('MPI handles followed')
        freed, twice = FALSE, FALSE
        for f, fc, val in rel:
            hit = AND(fc, map1(is_ptr_to(o), val))
            twice = OR(twice, AND(freed, hit))
            freed = OR(freed, hit)
        null = e.info.get('null', FALSE)
        g = AND(S.alive, c, I.facts, NOT(freed), NOT(null))
        rep.check(not feasible(g), where(e), '%s: the handle obtained from %s is never released under %s' % (hist, e.name, gstr(g)),
                  '%s: handle of %s at %s is released once' % (hist, e.name, where(e)))
        g = AND(I.facts, twice)
        rep.check(not feasible(g), where(e), '%s: the handle obtained from %s is released twice under %s' % (hist, e.name, gstr(g)))
    objs = {o for e, c, o in got}
    for f, fc, val in rel:
        for g, v in leaves(val):
            gg = AND(fc, I.facts, g)
            if gg is FALSE or (isinstance(v, Ptr) and v.obj in objs):
                continue
            rep.check(not feasible(gg), where(f), '%s: %s is applied to a handle that was never obtained (%s)' % (hist, f.name, v))
