"""End-to-end study of FFT compute / only_* calls over symbolic grids, bounds and ranks.

One abstract interpretation of  ctor; options; setup; call  per option combination feeds the
rules C02 C03 C04 C05 C06 C21."""
from .layout import *

ASPECTS = ('C02', 'C03', 'C04', 'C05', 'C06', 'C21')


def start_lay(s, flag, perm):
    rot = ROT[s.dim][perm]
    if flag == 1:
        return mklay(range(s.dim), s.inb, [0] * s.dim), mklay(rot, s.outb, [1] * s.dim)
    return mklay(rot, s.outb, [0] * s.dim), mklay(range(s.dim), s.inb, [-1] * s.dim)


def final_check(sim, f, obj, want, what, loc, done, scaled):
    """compare the final state of the result buffer"""
    fin = simplify(sim.get(obj), AND(f.alive, sim.facts))
    R = sim.reps
    for g, v in leaves(fin):
        gg = AND(f.alive, sim.facts, g)
        if gg is FALSE or not feasible(gg):
            continue
        if v is None:
            sim.move.check(False, loc, '%s: the result buffer does not receive the result [when %s]' % (what, gstr(gg)))
            continue
        ok = TRUE
        if [x[0] for x in v[1]] != [x[0] for x in want[1]]:
            ok = FALSE
        else:
            for a, b in zip(v[1], want[1]):
                ok = AND(ok, eqcond(a[1], b[1]), eqcond(a[2], b[2]))
        b = AND(gg, NOT(ok))
        sim.move.check(b is FALSE or not feasible(b), loc, '%s: result is laid out as %s, expected %s [when %s]' % (
            what, lstr(v), lstr(want), gstr(b)), sample='%s: final layout %s' % (what, lstr(v)[:160]))
        if done is not None:
            sim.fft.check(v[2] == tuple(done), loc, '%s: axes were transformed %s, expected %s [when %s]' % (
                what, v[2], tuple(done), gstr(gg)), sample='%s: transforms %s' % (what, v[2]))
        if scaled is not None:
            sim.scl.check(v[3] == scaled, loc, '%s: result was scaled %s times by 1/N, expected %s [when %s]' % (
                what, v[3], scaled, gstr(gg)), sample='%s: scaled %s times' % (what, v[3]))


def untouched(sim, f, obj, evs, what, rep):
    """out-of-place: no write of any kind to the input buffer"""
    n = 0
    for e, c, loops in flat(evs):
        cc = AND(c, sim.facts)
        if cc is FALSE:
            continue
        if e.kind == 'remap':
            ps = e.args[2:]
        elif e.kind == 'fft1d':
            ps = e.args[2:3]
        elif e.kind in ('memcpy', 'memset', 'store'):
            ps = e.args[:1]
        elif e.kind in ('free', 'realloc'):
            ps = e.args[:1]
        else:
            continue
        n += 1
        for p in ps:
            for g, v in leaves(simplify(p, cc)):
                if isinstance(v, Ptr) and v.obj is obj:
                    b = AND(cc, g)
                    if feasible(b):
                        rep.check(False, where(e), '%s: %s writes to the input buffer of an out-of-place call [when %s]'
                                  % (what, e.kind, gstr(b)))
                        break
        rep.obl += 1
        rep.ok += 1
    rep.inst('writes examined', n)


def capacity(sim, f, what, R, bufobjs):
    """no stage needs more room than setup reported"""
    cap = [f.out(0), f.out(1), f.out(2)]
    F = AND(f.alive, sim.facts)
    for c, lay, e in sim.sizes:
        cc = AND(c, F)
        if cc is FALSE:
            continue
        d = map2(lambda l, p: (l, p), simplify(lay, cc), simplify(cap[0], cc))
        for g, (l, p) in leaves(d):
            b = AND(cc, g)
            if l is None or b is FALSE:
                continue
            ok = ge(p, lsize(l))
            if not ok:
                ok = not feasible(AND(b, NOT(le0(lsize(l) - p))))
            R.check(ok, where(e), '%s: a stage stores %s grid points but setup reports fftsize %s [when %s]' % (
                what, pstr(lsize(l)), pstr(p), gstr(b)), sample='%s: stage size %s <= fftsize' % (what, pstr(lsize(l))[:80]))
    seen = set()
    for c, se, e in sim.used:
        cc = AND(c, F)
        if cc is FALSE or (se.info['n'], e.loc, e.fn, cc.id) in seen:
            continue
        seen.add((se.info['n'], e.loc, e.fn, cc.id))
        for need, k, nm in ((se.info['ssz'], 1, 'sendsize'), (se.info['rsz'], 2, 'recvsize')):
            for g, p in leaves(simplify(cap[k], cc)):
                b = AND(cc, g)
                if b is FALSE:
                    continue
                ok = isinstance(p, Poly) and ge(p, need)
                if not ok:
                    ok = isinstance(p, Poly) and not feasible(AND(b, NOT(le0(need - p))))
                R.check(ok, where(e), '%s: remap set up at %s may need a larger %s buffer than reported (%s) [when %s]' % (
                    what, where(se), nm, p, gstr(b)), sample='%s: %s of remap at %s covered' % (what, nm, where(se)))
        # buffers handed to the remap hold what was reported
        if len(e.args) >= 5:
            for arg, k, nm in ((e.args[3], 1, 'sendbuf'), (e.args[4], 2, 'recvbuf')):
                for g, (v, cp0) in leaves(map2(lambda a_, b_: (a_, b_), simplify(arg, cc), simplify(cap[k], cc))):
                    b = AND(cc, g)
                    if b is FALSE:
                        continue
                    if not isinstance(v, Ptr) or v.obj is None:
                        bad = AND(b, NOT(eq0(cp0)))
                        R.check(bad is FALSE or not feasible(bad), where(e), '%s: remap gets a null %s [when %s]' % (
                            what, nm, gstr(bad)))
                        continue
                    if v.off.t:
                        R.check(False, where(e), '%s: remap gets %s from the middle of a buffer' % (what, nm))
                        continue
                    room = bufobjs(v.obj)
                    if room is None:
                        R.check(False, where(e), '%s: remap uses %s as %s' % (what, v.obj.name, nm))
                        continue
                    for g2, (rm, cp) in leaves(map2(lambda a, b_: (a, b_), simplify(room, b), simplify(cap[k], b))):
                        b2 = AND(b, g2)
                        if b2 is FALSE:
                            continue
                        need = cp * f.es
                        ok = isinstance(rm, Poly) and (ge(rm, need) or not feasible(AND(b2, NOT(le0(need - rm)))))
                        R.check(ok, where(e), '%s: %s has room for %s bytes, reported size needs %s [when %s]' % (
                            what, nm, rm, pstr(need), gstr(b2)), sample='%s: %s allocated with %s bytes' % (what, nm, str(rm)[:60]))


def alloc_rooms(events):
    """object -> allocated bytes (DD)"""
    rooms = {}
    for e, c, loops in flat(events):
        if e.kind == 'alloc':
            for g, v in leaves(e.args[0]):
                if isinstance(v, Ptr) and v.obj is not None:
                    rooms[v.obj] = e.args[1]
    return rooms


def fft_sig(events, facts, flag):
    """multiset signature of the 1d FFT work in a list of events: (guard, plan, geometry)"""
    out = []
    for e, c, loops in flat(events):
        if e.kind == 'fft1d' and AND(c, facts) is not FALSE:
            out.append((e, AND(c, facts), loops))
    return out


def study(job):
    cfg, dim, perm, opts = job
    reps = {a: Report(a) for a in ASPECTS}
    s = FFTSession(cfg, dim)
    s.start(**opts)
    ev = s.setup(perm)
    if s.alive is FALSE or AND(s.alive, s.I.facts) is FALSE:
        raise Broken('FFT%dd::setup rejects every input' % dim)
    tag = '%s FFT%dd permute=%d %s' % (cfg, dim, perm, ','.join('%s=%s' % x for x in sorted(opts.items())))
    rooms = alloc_rooms(s.I.events)
    remaponly = opts.get('remaponly', 0)
    scaled = opts.get('scaled', 1)
    for flag in (1, -1):
        for inplace in (0, 1):
            def buffers(f):
                io, ip = f.buf('IN')
                oo, op = (io, ip) if inplace else f.buf('OUT')
                return io, ip, oo, op
            lay, want = start_lay(s, flag, perm)
            # ---- compute
            f = s.fork()
            io, ip, oo, op = buffers(f)
            what = '%s compute(%s,%d)' % (tag, 'in-place' if inplace else 'out-of-place', flag)
            cev = f.call('compute', ip, op, flag)
            loc = 'FFT%dd::compute' % dim
            sim = Sim(f, ev, reps, what)
            sim.state[io] = leaf(lay)
            sim.run(cev, flag, {io, oo})
            final_check(sim, f, oo, want, what, loc, [0] * dim if remaponly else want[2],
                        1 if (flag == -1 and scaled and not remaponly) else 0)
            if not inplace:
                untouched(sim, f, io, cev, what, reps['C05'])
            capacity(sim, f, what, reps['C06'], lambda o: rooms.get(o))
            for r in reps.values():
                r.inst('API calls analysed')
            ncomp = (len([1 for k, c, e in sim.order if k == 'remap']), len([1 for k, c, e in sim.order if k == 'fft']))
            if not ncomp[0] or (not ncomp[1] and not remaponly):
                raise Broken('no remap or 1d FFT events found in %s' % what)
            if remaponly or opts.get('skip_only'):
                continue
            comp_remaps = [(c, e) for k, c, e in sim.order if k == 'remap']
            comp_ffts = [(c, e) for k, c, e in sim.order if k == 'fft']
            # ---- only_remaps: same movement, no arithmetic
            f = s.fork()
            io, ip, oo, op = buffers(f)
            what = '%s only_remaps(%s,%d)' % (tag, 'in-place' if inplace else 'out-of-place', flag)
            oev = f.call('only_remaps', ip, op, flag)
            sim = Sim(f, ev, reps, what, 'C21', 'C21', 'C21')
            sim.state[io] = leaf(lay)
            sim.run(oev, flag, {io, oo})
            final_check(sim, f, oo, want, what, 'FFT%dd::only_remaps' % dim, [0] * dim, 0)
            if not inplace:
                untouched(sim, f, io, oev, what, reps['C05'])
            capacity(sim, f, what, reps['C06'], lambda o: rooms.get(o))
            reps['C21'].check(not any(k == 'fft' for k, _, _ in sim.order), 'FFT%dd::only_remaps' % dim,
                              what + ': performs 1d FFTs')
            same_stages(reps['C21'], sim, comp_remaps, [(c, e) for k, c, e in sim.order if k == 'remap'], what,
                        'FFT%dd::only_remaps' % dim, 0)
            # ---- only_one_remap: the stages, one at a time.  compute() may run the forward sequence
            # for both directions when input and output layouts agree, so either order may be the valid one.
            nst = 4 if dim == 3 else 3
            what = '%s only_one_remap(%s,%d)' % (tag, 'in-place' if inplace else 'out-of-place', flag)
            orders = [range(1, nst + 1)] if flag == 1 else [range(nst, 0, -1), range(1, nst + 1)]
            fails = TRUE
            first = None
            msgs = None
            for stages in orders:
                f = s.fork()
                io, ip, oo, op = buffers(f)
                tmp = {a: Report(a) for a in ASPECTS}
                sim = Sim(f, ev, tmp, what, 'C21', 'C21', 'C21')
                sim.state[io] = leaf(lay)
                wevs = []
                for n, which in enumerate(stages):
                    wev = f.call('only_one_remap', ip if n == 0 else op, op, flag, which)
                    wevs += wev
                    if n == 0 and not inplace:
                        untouched(sim, f, io, wev, what, reps['C05'])
                    sim.what = what + ' which=%d' % which
                    sim.run(wev, flag, {io, oo})
                    stage_check(sim, f, oo, dim, which, 1 if list(stages)[0] == 1 else -1, perm, what, want)
                    reps['C21'].inst('API calls analysed')
                sub = AND(f.alive, sim.facts)
                reps['C21'].check(not any(e.kind == 'fft1d' for e, _, _ in flat(wevs)), 'FFT%dd::only_one_remap' % dim,
                                  what + ': performs 1d FFTs')
                fails = AND(fails, sim.failg)
                msgs = msgs or tmp['C21'].viols
                capsim = sim
                reps['C21'].obl += tmp['C21'].obl
                reps['C21'].ok += tmp['C21'].obl
                if stages is orders[0]:
                    capacity(sim, f, what, reps['C06'], lambda o: rooms.get(o))
            reps['C21'].check(fails is FALSE or not feasible(AND(fails, s.I.facts)),
                              msgs[0][0] if msgs else '', '%s: stages do not chain like the FFT does: %s' % (
                                  what, msgs[0][1] if msgs else ''), sample=what + ': stage chain agrees with compute()')
        # ---- only_1d_ffts: the same 1d FFTs as compute, in place
        if not remaponly and not opts.get('skip_only'):
            f = s.fork()
            io, ip = f.buf('IN')
            what = '%s only_1d_ffts(%d)' % (tag, flag)
            oev = f.call('only_1d_ffts', ip, flag)
            got = [(c, e) for e, c, l in flat(oev) if e.kind == 'fft1d']
            mv = [e for e, c, l in flat(oev) if e.kind in ('remap', 'memcpy', 'store') and
                  any(isinstance(v, Ptr) and v.obj is io for p in e.args for v in leafvals(p) if isinstance(p, DD))]
            reps['C21'].check(not mv, where(mv[0]) if mv else '', what + ': moves or rewrites data')
            same_ffts(reps['C21'], s.I, comp_ffts, got, what)
            reps['C21'].inst('API calls analysed')
    for r in reps.values():
        r.use(s.I)
    if s.I.problems:
        raise Broken('interpreter: %s' % s.I.problems[:3])
    return {a: r.to_dict() for a, r in reps.items()}


def same_stages(rep, sim, a, b, what, loc, argi):
    """two remap sequences use the same plans under the same guards"""
    F = sim.facts

    def per_plan(seq):
        """plan object -> guard under which it is executed"""
        m = {}
        for c, e in seq:
            for g, v in leaves(simplify(e.args[argi], AND(c, F))):
                if isinstance(v, Ptr) and v.obj is not None:
                    m.setdefault(v.obj, []).append(AND(c, g, F))
        return {o: OR(*gs) for o, gs in m.items()}
    A_, B_ = per_plan(a), per_plan(b)
    for o in set(A_) | set(B_):
        x, y = A_.get(o, FALSE), B_.get(o, FALSE)
        d1, d2 = AND(x, NOT(y)), AND(y, NOT(x))
        rep.check((d1 is FALSE or not feasible(d1)) and (d2 is FALSE or not feasible(d2)), loc,
                  '%s: plan created at %s is executed %s than in compute() [when %s]' % (
                      what, sloc(o.loc), 'less often' if d1 is not FALSE else 'more often',
                      gstr(d1 if d1 is not FALSE else d2)))


def same_ffts(rep, I, comp, got, what):
    def keyed(seq):
        m = {}
        for c, e in seq:
            for g, v in leaves(simplify(e.args[0], AND(c, I.facts))):
                if isinstance(v, Ptr) and v.obj is not None:
                    cc = AND(c, g, I.facts)
                    if cc is not FALSE:
                        m[v.obj] = OR(m.get(v.obj, FALSE), cc)
        return m
    A_, B_ = keyed(comp), keyed(got)
    for o in set(A_) | set(B_):
        x, y = A_.get(o, FALSE), B_.get(o, FALSE)
        d1, d2 = AND(x, NOT(y)), AND(y, NOT(x))
        rep.check((d1 is FALSE or not feasible(d1)) and (d2 is FALSE or not feasible(d2)), 'only_1d_ffts',
                  '%s: 1d plan created at %s is used in compute() but not here or vice versa [when %s]' % (
                      what, sloc(o.loc), gstr(d1 if d1 is not FALSE else d2)))
    rep.check(len(got) > 0, 'only_1d_ffts', what + ': no 1d FFTs performed')


def stage_check(sim, f, oo, dim, which, direction, perm, what, want):
    """after stage `which` the buffer is in the documented layout: pencils along the next axis"""
    F = AND(f.alive, sim.facts)
    axis = {3: {1: 0, 2: 1, 3: 2}, 2: {1: 0, 2: 1}}[dim]
    ax = axis.get(which if direction == 1 else which - 1)
    fin = simplify(sim.get(oo), F)
    for g, v in leaves(fin):
        b = AND(F, g)
        if b is FALSE:
            continue
        if v is None:
            ok = FALSE
        elif ax is not None:
            a0, lo, hi = v[1][0]
            ok = AND(eqcond(lo, ZERO), eqcond(hi, f.gn[ax] - 1)) if a0 == ax else FALSE
        else:
            ok = FALSE
            if [x[0] for x in v[1]] == [x[0] for x in want[1]]:
                ok = TRUE
                for a, w in zip(v[1], want[1]):
                    ok = AND(ok, eqcond(a[1], w[1]), eqcond(a[2], w[2]))
        bb = AND(b, NOT(ok))
        if bb is FALSE or not feasible(bb):
            sim.move.check(True, '', '')
        else:
            sim.failg = OR(sim.failg, bb)
            sim.move.check(False, 'FFT%dd::only_one_remap' % dim, '%s which=%d: result is %s, expected %s [when %s]' % (
                what, which, lstr(v), 'pencils along ' + 'ijk'[ax] if ax is not None else lstr(want), gstr(bb)))


def jobs(tier):
    out = []
    for cfg in CONFIGS:
        for dim in (3, 2):
            for perm in range(dim):
                for ex in ((0, 1) if dim == 3 else (None,)):
                    o = {} if ex is None else {'exchange': ex}
                    out.append((cfg, dim, perm, o))
    for cfg in CONFIGS:
        for dim in (3, 2):
            out.append((cfg, dim, 0, {'remaponly': 1}))
            out.append((cfg, dim, dim - 1, {'scaled': 0, 'skip_only': 1}))
    return out


def run_all(tier):
    js = jobs(tier)
    js.sort(key=lambda j: (-j[1], -j[3].get('exchange', 0)))
    return parallel(study, js)
