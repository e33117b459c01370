"""Tune is interpreted abstractly down to the setup, transform and release calls it makes, clock readings and broadcast times staying
symbolic; the resulting closed forms (which settings each setup gets, how often each transform runs, what is stored in the result
members) are compared with the documented procedure for orderings of the trial times, time limits, directions and iteration counts;
a dependence analysis shows that no decision depends on a value that is not agreed among all processors."""
from .common import *
from .tune import *
from .uniform import Taint, local_names

NEED = ('tuning histories', 'decisions traced')
DEFAULT = (2, 0, 2)


def calls_release(prog, cls):
    """does one release method call the other itself"""
    for a in RELEASE:
        for f in prog.find('%s::%s' % (cls, a)):
            for b in f.blocks.values():
                for ins in b.instrs:
                    if ins.op in ('call', 'invoke') and any(r in ins.text for r in RELEASE):
                        return True
    return False


def expected_runs(P, ts, tf):
    """trials after the initial one, iterations per trial, timing of parts - as documented"""
    n, tmax, tflag = P['niter'], P['tmax'], P['tflag']
    k = 3 if tflag else 1
    if tmax == 0 or 10 * (ts + k * n * tf) <= tmax:
        return 9, n, tflag
    x = (Fraction(tmax, 10) - ts) / tf
    if int(x / k) >= 1 and x > 0:
        return 9, int(x / k), tflag
    if int(x) >= 1 and x > 0:
        return 9, int(x), 0
    r = int(Fraction(tmax) / (ts + tf)) - 1
    if r >= 9:
        return 9, 1, 0
    if r >= 6:
        return 6, 1, 0
    if r >= 3:
        return 3, 1, 0
    if r == 2:
        return 2, 1, 0
    if r == 1 and P['user'] != DEFAULT:
        return 1, 1, 0
    return 0, 1, 0


def judge(rep, R, X, P, sizes, pairing):
    S, env = R.S, X.env
    site = '%s::tune' % S.cls
    h = '%s, flag %s, niter %s, tmax %s, tflag %s' % (R.hist, P['flag'], P['niter'], P['tmax'], P['tflag'])
    rep.inst('tuning histories')

    def ck(good, what, e=None):
        return rep.check(good, where(e) if e is not None else site, '%s: %s' % (h, what), '%s: as documented' % h)
    for w, m in X.bad:
        rep.check(False, w, '%s: %s' % (h, m))
    ck(not X.errors, 'valid arguments lead to an error (%s)' % (X.errors[0].info.get('msg') if X.errors else ''), X.errors[0] if X.errors else None)
    if X.errors:
        return
    tr = X.trials
    if not ck(len(tr) >= 2, 'no setup remains after the initial run'):
        return
    runs, fin = tr[:-1], tr[-1]
    ck(not fin.calls and not fin.released, 'the final setup is used or released again inside tune', fin.e)
    key = lambda t: (t.st['collective'], t.st['exchange'], t.st['packflag'])
    for t in tr:
        for i in range(R.nin):
            a, w = t.e.args[1 + i], S.setup_args(sym('permute', nonneg=True))[i]
            ck(a.var is None and isinstance(a.val, Poly) and a.val == w, 'setup is not given the caller\'s argument %d' % (i + 1), t.e)
    for t in runs:
        ck(t.st['memoryflag'] != 0, 'a trial runs without internal buffers', t.e)
        if pairing:
            ck(sorted(t.released) == sorted(RELEASE), 'a trial setup is released by %s before the next setup' % (t.released or 'nothing'), t.e)
        for e, p in t.data:
            need = 2 * S.es * env.num(t.e.info['outs'][0])
            if not isinstance(p, Ptr):
                continue
            if p.obj is None:
                ck(need == 0, 'a trial transform is given no data', e)
            elif p.obj in sizes:
                sz = env.num(sizes[p.obj]) - env.num(p.off)
                ck(sz >= need, 'a trial transform of %d bytes is given a buffer of %d bytes' % (need, sz), e)
    ck(key(runs[0]) == P['user'], 'the initial run uses settings %s instead of the current %s' % (key(runs[0]), P['user']), runs[0].e)
    ts = X.dur[('setup', 0)]
    tf = runs[0].time.get(('compute', 0), 0)
    if not ck(tf > 0, 'the initial run performs no FFT', runs[0].e):
        return
    nr, niter, tflag = expected_runs(P, ts, tf)
    if not ck(len(runs) - 1 == nr, '%d trials are run instead of %d (setup takes %s, an FFT %s)' % (len(runs) - 1, nr, ts, tf)):
        return
    # what each trial does
    nw = 4 if S.dim == 3 else 3
    dirs = (1, -1) if P['flag'] == 0 else (P['flag'],)
    for i, t in enumerate(runs):
        n, tfl = (1, 0) if i == 0 else (niter, tflag)
        want = {('compute', 0, d): n for d in dirs}
        if tfl:
            for d in dirs:
                want[('only_1d_ffts', 0, d)] = n
                want[('only_remaps', 0, d)] = n
                for w in range(1, nw + 1):
                    want[('only_one_remap', w, d)] = n
        got = {k: v for k, v in t.calls.items() if v}
        ck(got == want, 'trial %d performs %s instead of %s' % (i, fmt(got), fmt(want)), t.e)
    # recorded trials
    rec = runs if len(runs) <= 2 else runs[1:]
    ck(X.field('ntrial') == len(rec), '%s trials are recorded, %d were run' % (X.field('ntrial'), len(rec)))
    ck(X.field('npertrial') == niter, 'npertrial is %s, each trial made %s iterations' % (X.field('npertrial'), niter))
    scale = Fraction(1, niter * (2 if P['flag'] == 0 else 1))
    names = [('tfft', ('compute', 0)), ('t1d', ('only_1d_ffts', 0)), ('tremap', ('only_remaps', 0))] + \
        [('tremap%d' % w, ('only_one_remap', w)) for w in range(1, nw + 1)]
    for i, t in enumerate(rec):
        for f, k in (('cflags', 'collective'), ('eflags', 'exchange'), ('pflags', 'packflag')):
            v = X.field(f, i)
            ck(v == t.st[k], '%s of trial %d is recorded as %s, the trial used %s' % (k, i + 1, v, t.st[k]), t.e)
        for f, k in names:
            v = X.field(f, i, 8, ir.F64)
            ck(v == t.time.get(k, 0) * scale, 'the %s time of trial %d is recorded as %s, it took %s per FFT'
               % (f, i + 1, v, t.time.get(k, 0) * scale), t.e)
    # the documented search
    tm = lambda t: t.time[('compute', 0)]
    if nr == 0:
        best, bt = key(runs[0]), tm(runs[0])
    else:
        n1 = min(nr, 6)
        s1, s2 = runs[1:1 + n1], runs[1 + n1:]
        cs = {6: (0, 1, 2), 3: (0, 1, 2), 2: (1, 2), 1: (2,)}[n1]
        es = (0, 1) if n1 == 6 else (0,)
        ck(sorted(key(t) for t in s1) == sorted((c, e, 2) for c in cs for e in es),
           'the collective/exchange trials use settings %s' % sorted(key(t) for t in s1), s1[0].e)
        b1 = min(s1, key=tm)
        best, bt = key(b1), tm(b1)
        if s2:
            ck(sorted(key(t) for t in s2) == sorted((best[0], best[1], p) for p in (0, 1, 2)),
               'the packflag trials use settings %s, the best collective/exchange are %s' % (sorted(key(t) for t in s2), best[:2]), s2[0].e)
            b2 = min(s2, key=tm)
            best, bt = (best[0], best[1], b2.st['packflag']), tm(b2)
    ck(key(fin) == best, 'the FFT is left set up with (collective, exchange, packflag) %s, the fastest were %s' % (key(fin), best), fin.e)
    ck(fin.st['memoryflag'] == P['mem'], 'the final setup runs with memoryflag %s, the caller chose %s' % (fin.st['memoryflag'], P['mem']), fin.e)
    for f, v in (('cbest', best[0]), ('ebest', best[1]), ('pbest', best[2]), ('collective', best[0]), ('exchange', best[1]),
                 ('packflag', best[2]), ('memoryflag', P['mem'])):
        ck(X.field(f) == v, '%s is %s after tune, should be %s' % (f, X.field(f), v))
    ck(X.field('besttime', 0, 8, ir.F64) == bt * scale, 'the best time is reported as %s, it was %s' % (X.field('besttime', 0, 8, ir.F64), bt * scale))
    ck(X.field('setuptime', 0, 8, ir.F64) == X.dur[('setup', fin.n)], 'setuptime is not the time of the final setup')
    for i in range(3):
        ck(env.num(S.out(i)) == env.num(fin.e.info['outs'][i]), 'a reported size is not that of the final setup', fin.e)


def fmt(d):
    return ', '.join('%sx %s%s(%s)' % (n, m, w or '', f) for (m, w, f), n in sorted(d.items())) or 'nothing'


def base(R, P):
    b = {R.flag: P['flag'], R.niter: P['niter'], R.tmax: P['tmax'], R.tflag: P['tflag'],
         sym('user_collective'): P['user'][0], sym('user_exchange'): P['user'][1], sym('user_packflag'): P['user'][2], sym('user_memoryflag'): P['mem']}
    return b


USERS = ((2, 0, 2), (0, 1, 0), (1, 0, 2), (2, 1, 1), (0, 0, 2), (2, 0, 0))


def work(job):
    cfg, dim, tmax, flag, tflag, niter, nenv = job
    rep = Report('C14')
    fixed = None
    R = TuneRun(cfg, dim, tmax, flag, tflag, niter, early=None if tmax == 0 or tmax is None else (2, 3))
    S = R.S
    if S.I.problems:
        rep.assumptions.append('%s: not fully interpreted (%s)' % (R.hist, S.I.problems[0]))
    sizes = {}
    for e, c, l in flat(R.ev):
        if e.kind == 'alloc' and e.args[0].var is None and isinstance(e.args[0].val, Ptr):
            sizes[e.args[0].val.obj] = e.args[1]
    pairing = not R.missing and not calls_release(S.prog, S.cls)
    rng = random.Random(dim * 1000 + (tmax or 0))
    und = 0
    for s in range(nenv):
        P = dict(flag=flag if flag is not None else rng.choice((-1, 0, 1)), niter=niter if niter is not None else rng.choice((1, 2, 3, 7)),
                 tmax=tmax if tmax is not None else rng.choice((0, 1, 40, 100, 400, 1000, 3000, 10000, 100000)),
                 tflag=tflag if tflag is not None else rng.choice((0, 1)),
                 user=USERS[s % len(USERS)], mem=rng.choice((0, 1)))
        fx = None
        if R.early:
            ds, dc = R.early
            fx = lambda k: ds if k == ('setup', 0) else dc if k[0] == 0 and k[1] == 'compute' else None
        try:
            X = Replay(R, 1 + s, base(R, P), fx)
            judge(rep, R, X, P, sizes, pairing)
        except Undecided as ex:
            und += 1
            a = '%s: not decided: %s' % (R.hist, str(ex)[:160])
            if len(rep.assumptions) < 6 and a not in rep.assumptions:
                rep.assumptions.append(a)
            if und > 3:
                break
    if not R.early:
        agreed(rep, R)
    rep.use(S.I)
    return rep.to_dict()


def agreed(rep, R):
    """settings of every setup and the number of transforms depend on agreed values only"""
    S = R.S
    T = Taint(S.I, local_names(R.dim), R.ev0 + R.ev)
    for e, c, loops in flat(R.ev):
        if e.kind not in ('setup_call', 'compute'):
            continue
        rep.inst('decisions traced')
        deps = set(T.of(c))
        if e.kind == 'setup_call':
            for f in STATE:
                deps |= T.of(e.info['state'][f])
        for l in loops:
            deps |= T.of(l.T)
        bad = sorted(n for k, n in deps if k == 'v')
        rep.check(not bad, where(e), '%s: %s depends on %s, which differs between processors' % (R.hist, e.name, ', '.join(bad[:3])),
                  '%s: settings of %s at %s are agreed' % (R.hist, e.name, where(e)))


def run(rep, tier):
    rep.rule = __doc__
    t = tier == 'thorough'
    jobs = [(c, d, 0, None, None, None, 700 if t else 120) for d in (3, 2) for c in CONFIGS]
    # limited time: setup takes 2, a transform 3 units in the initial run
    lim = (1000, 141, 139, 95, 51, 49, 36, 34, 21, 19, 16, 14, 11, 9, 4, 1)
    for d in (3, 2):
        for i, m in enumerate(lim):
            fl = (1, -1, 0)[i % 3]
            for tf in ((0, 1) if t or m > 50 else (i % 2,)):
                jobs.append(('kiss-double', d, m, fl, tf, 4, 30))
                if t:
                    jobs += [('fftw3-single', d, m, f2, tf, 3, 30) for f2 in (1, -1, 0) if f2 != fl]
    # any time limit
    jobs = [('kiss-double', d, None, None, None, None, 400 if t else 60) for d in (3, 2)] + jobs
    for d in parallel(work, jobs):
        rep.merge(d)
