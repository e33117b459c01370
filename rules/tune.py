"""Abstract runs of tune: setup, the transforms and the two release methods are stopped at their interface, loops over trials are
executed trial by trial, and clock readings and broadcast times stay symbolic."""
import random
from .common import *

STATE = ('collective', 'exchange', 'packflag', 'memoryflag')
TRANSFORMS = ('compute', 'only_1d_ffts', 'only_remaps', 'only_one_remap')
RELEASE = ('deallocate_setup', 'deallocate_setup_memory')


def stop(S, kind):
    def m(I, q, args, mem, cond, ins):
        st = {f: I.read1(mem, S.this, C(S.fs[f][0]), 4, ir.INT(32)) for f in STATE}
        outs = []
        if kind == 'setup_call':
            outs = [sym('%s_%d' % (n, I.uniq('setupout')), nonneg=True) for n in ('fftsize', 'sendsize', 'recvsize')]
        I.emit(kind, q, [I.under(a) for a in args], state=st, outs=outs)
        for p, v in zip(args[-3:], outs):
            I.store_quiet(mem, p, leaf(v), 4)
        return None, TRUE
    return m


class TuneRun:
    def __init__(self, cfg, dim, tmax=None, flag=None, tflag=None, niter=None, early=None, allocfail=False, narrow=False):
        cls = 'FFT%dd' % dim
        models = {}
        S = FFTSession(cfg, dim, models=models)
        self.S, self.dim, self.cfg = S, dim, cfg
        self.missing = [r for r in RELEASE if not S.prog.find('%s::%s' % (cls, r))]
        for m in ('setup',) + TRANSFORMS:
            if not S.prog.find('%s::%s' % (cls, m)):
                raise Broken('%s::%s not found' % (cls, m))
            S.I.models['%s::%s' % (cls, m)] = stop(S, 'setup_call' if m == 'setup' else 'compute')
        for m in RELEASE:
            S.I.models['%s::%s' % (cls, m)] = stop(S, 'dealloc')
        for f in STATE:
            if f not in S.fs:
                raise Broken('class %s has no member %s' % (cls, f))
        self.early = early
        if early:
            # fixed times (setup, transform) up to the second setup: then the number of trials is known
            self.nset, self.clock = 0, 0
            S.I.models['MPI_Wtime'] = self.wtime
            S.I.models['MPI_Bcast'] = self.bcast
        S.I.allocfail = allocfail
        S.I.narrow = [] if narrow else None
        self.ev0 = list(S.start())
        S.I.unroll = 12
        self.user = {f: sym('user_' + f) for f in STATE}
        for f in STATE:
            S.set(f, self.user[f])
        opt = lambda v, s: s if v is None else C(v)
        self.flag, self.niter = opt(flag, sym('flag')), opt(niter, sym('niter', pos=True))
        self.tmax, self.tflag = opt(tmax, sym('tmax')), opt(tflag, sym('tflag'))
        self.args = S.setup_args(sym('permute', nonneg=True))
        self.nin = len(self.args) - 3
        self.ev = list(S.call('tune', *(self.args + [self.flag, self.niter, self.tmax, self.tflag])))
        self.hist = '%s::tune [%s%s]' % (cls, cfg, ''.join(', %s %s' % (n, v) for n, v in (('tmax', tmax), ('flag', flag), ('tflag', tflag)) if v is not None))

    def wtime(self, I, q, args, mem, cond, ins):
        n = 0
        t = 1000
        for e, c, l in flat(I.events):
            n += e.kind == 'setup_call'
            if e.kind in ('setup_call', 'compute') and c is not FALSE:
                t += self.early[0 if e.kind == 'setup_call' else 1]
        if n > 1:
            return IN.m_wtime(I, q, args, mem, cond, ins)
        I.emit('call', q, args, ret=leaf(C(t)))
        return leaf(C(t)), TRUE

    def bcast(self, I, q, args, mem, cond, ins):
        n = args[1].val.const() if args[1].var is None and isinstance(args[1].val, Poly) else None
        vals = []
        for i in range(int(n or 0)):
            p = map1(lambda v: Ptr(v.obj, v.off + C(i * 8)) if isinstance(v, Ptr) and v.obj is not None else v, args[0])
            v = I.load(mem, p, ir.F64, 8)
            vals.append(v)
        if n and all(v.var is None and isinstance(v.val, Poly) and v.val.const() is not None for v in vals):
            I.emit('call', q, args, pairs=[])
            return leaf(ZERO), TRUE
        return IN.m_bcast(I, q, args, mem, cond, ins)

    def field(self, name, i=0, size=4, ty=None):
        S = self.S
        return S.I.read1(S.mem, S.this, C(S.fs[name][0] + i * size), size, ty or ir.INT(8 * size))


class Undecided(Exception):
    pass


class Strict(Env):
    """evaluation that refuses to invent values for anything but named inputs"""

    def atom(self, a):
        if a in self.v:
            return self.v[a]
        k = TM.atom_key(a)
        if k[0] not in ('max', 'min', 'idiv', 'imod', 'fdiv', 'fptosi', 'sym'):
            raise Undecided('value %s' % (k,))
        if k[0] == 'fdiv' and self.poly(k[2]) == 0:
            raise Undecided('division by zero')
        return Env.atom(self, a)

    def dd(self, d):
        while d.var is not None:
            k = TM.var_key(d.var)
            if k[0] == 'le':
                b = self.poly(k[1]) <= 0
            elif k[0] == 'eq':
                b = self.poly(k[1]) == 0
            elif k[:2] == ('b', 'flt'):
                b = self.poly(k[2]) < 0
            elif k[:2] == ('b', 'feq'):
                b = self.poly(k[2]) == 0
            else:
                raise Undecided('condition %s' % (k[:2],))
            d = d.hi if b else d.lo
        return d.val

    def num(self, d):
        v = self.dd(d) if isinstance(d, DD) else d
        if not isinstance(v, Poly):
            raise Undecided('value %s' % (v,))
        return self.poly(v)


class Trial:
    def __init__(self, n, e, st):
        self.n, self.e, self.st = n, e, st
        self.calls = {}          # (method, which, flag) -> number of calls
        self.time = {}           # (method, which) -> time spent
        self.released = []
        self.data = []


class Replay:
    """one timing history of a TuneRun: the clock advances only inside setup and the transforms, by amounts drawn from seed"""

    def __init__(self, R, seed, base, fixed=None):
        self.R, self.bad = R, []
        self.env = Strict(seed, {p.single_atom(): v for p, v in base.items() if p.single_atom() is not None})
        self.rng = random.Random(seed * 7919 + 13)
        self.fixed = fixed
        self.clock = 1000
        self.trials = []
        self.setups = []
        self.errors = []
        self.dur = {}
        self.walk(R.ev, 1)
        self.finish = self.env.dd(R.S.alive) is True or R.S.alive is TRUE

    def duration(self, key):
        if key not in self.dur:
            f = self.fixed(key) if self.fixed else None
            self.dur[key] = f if f is not None else self.rng.randint(1, 400)
        return self.dur[key]

    def walk(self, events, mult):
        env = self.env
        for e in events:
            g = env.dd(e.cond)
            if g is not True:
                continue
            if e.kind == 'loop':
                if any(True for _ in self.interesting(e.body)):
                    T = env.num(e.T)
                    if T > 0:
                        if T > 1 and any(x.kind == 'call' or x.kind in ('setup_call', 'dealloc') for x in self.interesting(e.body)):
                            raise Undecided('operations other than transforms inside a loop')
                        self.walk(e.body, mult * T)
            elif e.kind == 'setup_call':
                st = {f: env.num(v) for f, v in e.info['state'].items()}
                t = Trial(len(self.trials), e, st)
                self.trials.append(t)
                self.clock += self.duration(('setup', t.n))
            elif e.kind == 'compute':
                if not self.trials:
                    self.bad.append((where(e), 'a transform runs before any setup'))
                    continue
                t = self.trials[-1]
                m = e.name.split('::')[1]
                if m == 'only_1d_ffts':
                    flag, which = env.num(e.args[2]), 0
                else:
                    flag = env.num(e.args[3])
                    which = env.num(e.args[4]) if m == 'only_one_remap' else 0
                t.calls[(m, which, flag)] = t.calls.get((m, which, flag), 0) + mult
                d = self.duration((t.n, m, which, flag)) * mult
                t.time[(m, which)] = t.time.get((m, which), 0) + d
                self.clock += d
                t.data.append((e, env.dd(e.args[1])))
                if m != 'only_1d_ffts':
                    t.data.append((e, env.dd(e.args[2])))
                if t.released:
                    self.bad.append((where(e), 'a trial transform runs after the setup of the trial was released'))
            elif e.kind == 'dealloc':
                if not self.trials:
                    self.bad.append((where(e), 'a release happens before any setup'))
                    continue
                self.trials[-1].released.append(e.name.split('::')[1])
            elif e.kind == 'call' and e.name == 'MPI_Wtime':
                a = e.ret.val.single_atom()
                if a is not None:
                    env.v[a] = self.clock
            elif e.kind == 'call' and e.name == 'MPI_Bcast':
                for v, r in e.info.get('pairs', ()):
                    env.v[r.single_atom()] = env.num(v)
            elif e.kind == 'call' and e.name == 'MPI_Allreduce':
                for v, r in e.info.get('pairs', ()):
                    env.v[r.single_atom()] = env.num(v)
            elif e.kind == 'error':
                self.errors.append(e)

    def interesting(self, events):
        for e in events:
            if e.kind == 'loop':
                yield from self.interesting(e.body)
            elif e.kind in ('setup_call', 'compute', 'dealloc', 'error') or e.kind == 'call' and e.name in ('MPI_Wtime', 'MPI_Bcast', 'MPI_Allreduce'):
                yield e

    def field(self, name, i=0, size=4, ty=None):
        return self.env.num(self.R.field(name, i, size, ty))
