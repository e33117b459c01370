"""Shared parts of the rules: reports, API-history sessions, event models, comparisons."""
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)
from sa.build import program, programs, CONFIGS, REPO, BuildError
from sa.interp import *
from sa import interp as IN
from sa import terms as TM
from sa import ir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """the analysis lost its footing (anchor vanished, nothing to analyse): neither pass nor violation"""


def sloc(loc):
    if not loc:
        return '?'
    return '%s:%s' % (os.path.basename(str(loc[0])), loc[1])


def where(e):
    return '%s (%s)' % (sloc(e.loc), e.fn)


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = 0
        self.ok = 0
        self.viols = []
        self.samples = []
        self.functions = set()
        self.loops = 0
        self.instrs = 0
        self.events = 0
        self.instances = {}
        self.assumptions = []
        self.rule = ''

    def use(self, I):
        """account for the code an interpreter run has analysed"""
        self.functions |= I.functions_analysed
        self.loops += I.loops_analysed
        self.instrs += I.instrs
        self.events += sum(1 for _ in flat(I.events))

    def inst(self, kind, n=1):
        self.instances[kind] = self.instances.get(kind, 0) + n

    def check(self, good, where_, msg, sample=None):
        """one obligation"""
        self.obl += 1
        if good:
            self.ok += 1
            if sample and len(self.samples) < 12:
                self.samples.append(sample)
            return True
        v = (where_, msg)
        if v not in self.viols:
            self.viols.append(v)
        return False

    def merge(self, o):
        """o: dict from to_dict()"""
        self.obl += o['obl']
        self.ok += o['ok']
        for v in o['viols']:
            v = tuple(v)
            if v not in self.viols:
                self.viols.append(v)
        for s in o['samples']:
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)
        self.functions |= set(o['functions'])
        self.loops += o['loops']
        self.instrs += o['instrs']
        self.events += o['events']
        for k, n in o['instances'].items():
            self.inst(k, n)
        for a in o.get('assumptions', ()):
            if a not in self.assumptions:
                self.assumptions.append(a)

    def to_dict(self):
        return dict(obl=self.obl, ok=self.ok, viols=self.viols, samples=self.samples,
                    functions=sorted(self.functions), loops=self.loops, instrs=self.instrs,
                    events=self.events, instances=self.instances, assumptions=self.assumptions)


# ------------------------------------------------------------------ models
def m_error(I, q, args, mem, cond, ins):
    msg = None
    if len(args) > 1 and args[1].var is None:
        msg = I.prog.cstring(args[1].val)
    I.emit('error', q, args, msg=msg)
    return None, FALSE


def m_remap_setup(I, q, args, mem, cond, ins):
    """stop at the Remap interface: remember what the remap was configured to do"""
    this = I.under(args[0])
    cls = q.split('::')[0]
    fs = I.prog.fields(cls)
    n = I.uniq('rsetup')
    ssz, rsz = sym('remap_sendsize_%d' % n, nonneg=True), sym('remap_recvsize_%d' % n, nonneg=True)

    def fld(name):
        off = fs[name][0]
        return map1(lambda v: I.read1(mem, v.obj, v.off + off, 4, ir.INT(32))
                    if isinstance(v, Ptr) and v.obj is not None else Undef('fld'), this)
    info = dict(bounds=args[1:-5], nqty=args[-5], permute=args[-4], memoryflag=args[-3],
                ssz=ssz, rsz=rsz, n=n, collective=fld('collective'), packflag=fld('packflag'))
    I.emit('remap_setup', q, args, **info)
    I.store_quiet(mem, args[-2], leaf(ssz), 4)
    I.store_quiet(mem, args[-1], leaf(rsz), 4)
    return None, TRUE


def m_remap_remap(I, q, args, mem, cond, ins):
    I.check_null(args[0], 'remap')
    I.emit('remap', q, [I.under(a) for a in args])
    return None, TRUE


def m_remap_dtor(I, q, args, mem, cond, ins):
    I.emit('remap_destroy', q, args)
    return None, TRUE


def m_kiss_alloc(I, q, args, mem, cond, ins):
    r = m_new(I, q, [leaf(ZERO)], mem, cond, ins)
    o = r[0].val.obj
    o.default = 'sym'
    o.meta['plan'] = dict(lib='kiss', n=args[0], inverse=args[1])
    o.meta['how'] = 'kiss_fft_alloc'
    mem.own(o).default = 'sym'
    return r


def m_kiss_fft(I, q, args, mem, cond, ins):
    I.emit('fft1d', q, [I.under(a) for a in args])
    return None, TRUE


def m_fftw_plan_many(I, q, args, mem, cond, ins):
    nval = I.load(mem, args[1], ir.INT(32), 4)
    n = I.uniq('heap')
    o = Obj('plan%d@%s' % (n, sloc(I.curloc)), 'heap', 'sym', loc=I.curloc)
    o.meta['how'] = 'fftw_plan'
    o.meta['plan'] = dict(lib='fftw', rank=args[0], n=nval, howmany=args[2], istride=args[5], idist=args[6],
                          ostride=args[9], odist=args[10], sign=args[11])
    mem.own(o)
    I.emit('alloc', q, [leaf(Ptr(o, ZERO)), leaf(ZERO)])
    return leaf(Ptr(o, ZERO)), TRUE


def m_fftw_plan_1d(I, q, args, mem, cond, ins):
    n = I.uniq('heap')
    o = Obj('plan%d@%s' % (n, sloc(I.curloc)), 'heap', 'sym', loc=I.curloc)
    o.meta['how'] = 'fftw_plan'
    o.meta['plan'] = dict(lib='fftw', rank=leaf(ONE), n=args[0], howmany=leaf(ONE), istride=leaf(ONE), idist=args[0],
                          ostride=leaf(ONE), odist=args[0], sign=args[3])
    mem.own(o)
    I.emit('alloc', q, [leaf(Ptr(o, ZERO)), leaf(ZERO)])
    return leaf(Ptr(o, ZERO)), TRUE


def m_fftw_execute(I, q, args, mem, cond, ins):
    I.emit('fft1d', q, [I.under(a) for a in args])
    return None, TRUE


BASE = {'Error::all': m_error, 'Error::one': m_error}
KISS = {'kiss_fft_alloc': m_kiss_alloc, 'kiss_fft': m_kiss_fft}
FFTW = {}
for p_ in ('fftw', 'fftwf'):
    FFTW[p_ + '_plan_many_dft'] = m_fftw_plan_many
    FFTW[p_ + '_plan_dft_1d'] = m_fftw_plan_1d
    FFTW[p_ + '_execute_dft'] = m_fftw_execute
    FFTW[p_ + '_destroy_plan'] = m_free
REMAP = {}
for d_ in ('2', '3'):
    REMAP['Remap%sd::setup' % d_] = m_remap_setup
    REMAP['Remap%sd::remap' % d_] = m_remap_remap
    REMAP['Remap%sd::~Remap%sd' % (d_, d_)] = m_remap_dtor


def esize(cfg):
    return 4 if 'single' in cfg else 8


# ------------------------------------------------------------------ sessions
class Session:
    """one API history on one object of class cls, over symbolic arguments"""

    def __init__(self, cfg, cls, models=None, **kw):
        self.cfg = cfg
        self.prog = program(cfg)
        self.cls = cls
        self.es = esize(cfg)
        self.I = Interp(self.prog, models, **kw)
        self.mem = Mem()
        self.alive = TRUE
        self.this = Obj('this', 'arg', 'undef')
        self.T = leaf(Ptr(self.this, ZERO))
        self.world = leaf(Ptr(Obj('world', 'arg'), ZERO))
        self.fs = self.prog.fields(cls)

    def fork(self):
        s = object.__new__(type(self))
        s.__dict__.update(self.__dict__)
        s.mem = self.mem.copy()
        return s

    def find(self, name, nparams=None):
        fs = self.prog.find(name, nparams)
        if not fs:
            raise Broken('function %s not found' % name)
        return fs[0]

    def call(self, name, *args):
        """call a method (or free function when name has ::), return its events"""
        fn = self.find(name if '::' in name else '%s::%s' % (self.cls, name))
        n0 = len(self.I.events)
        a = [x if isinstance(x, DD) else leaf(x if not isinstance(x, int) else C(x)) for x in args]
        self.ret, self.mem, self.alive = self.I.run(fn, [self.T] + a, self.mem, self.alive)
        return self.I.events[n0:]

    def ctor(self, *args):
        return self.call('%s::%s' % (self.cls, self.cls), *args)

    def dtor(self):
        return self.call('%s::~%s' % (self.cls, self.cls))

    def set(self, field, v, size=4):
        if field not in self.fs:
            raise Broken('class %s has no member %s' % (self.cls, field))
        self.mem.own(self.this).cells[C(self.fs[field][0])] = (v if isinstance(v, DD) else
                                                             leaf(C(v) if isinstance(v, int) else v), size)

    def get(self, field, size=4, ptr=False):
        if field not in self.fs:
            raise Broken('class %s has no member %s' % (self.cls, field))
        return self.I.read1(self.mem, self.this, C(self.fs[field][0]), size, ir.PTR if ptr else ir.INT(8 * size))

    def buf(self, name):
        o = Obj(name, 'arg')
        return o, leaf(Ptr(o, ZERO))


def fft_models(cfg, remap_stop=True):
    m = dict(BASE)
    m.update(KISS if 'kiss' in cfg else FFTW)
    if remap_stop:
        m.update(REMAP)
    return m


AX = {3: ('i', 'j', 'k'), 2: ('i', 'j')}
GN = {3: ('nfast', 'nmid', 'nslow'), 2: ('nfast', 'nslow')}


class FFTSession(Session):
    def __init__(self, cfg, dim, remap_stop=True, models=None, valid=True, **kw):
        m = fft_models(cfg, remap_stop)
        if models:
            m.update(models)
        super().__init__(cfg, 'FFT%dd' % dim, m, **kw)
        self.dim = dim
        self.valid = valid
        self.gn = [sym(n, pos=True) + (1 if valid else 0) if valid else sym('g_' + n) for n in GN[dim]]
        self.inb, self.outb = [], []
        for side, b in (('in', self.inb), ('out', self.outb)):
            for a in AX[dim]:
                if valid:
                    lo = sym('%s_%slo' % (side, a), nonneg=True)
                    b.append((lo, lo + sym('%s_n%s' % (side, a), nonneg=True) - 1))
                else:
                    b.append((sym('%s_%slo' % (side, a)), sym('%s_%shi' % (side, a))))
        self.outs = [self.buf(n) for n in ('*fftsize', '*sendsize', '*recvsize')]

    def start(self, **opts):
        ev = self.ctor(self.world, 1 if self.es == 4 else 2)
        for k, v in opts.items():
            if not k.startswith('skip_'):
                self.set(k, v)
        return ev

    def setup_args(self, permute):
        a = list(self.gn)
        for lo, hi in self.inb + self.outb:
            a += [lo, hi]
        a.append(permute)
        return a + [p for _, p in self.outs]

    def setup(self, permute):
        return self.call('setup', *self.setup_args(permute))

    def out(self, i):
        return self.I.read1(self.mem, self.outs[i][0], ZERO, 4, ir.INT(32))


# ------------------------------------------------------------------ comparing values
def strip0(p):
    """max(0, x) -> x  (extents of valid tiles are never negative)"""
    a = p.single_atom()
    if a is not None and TM.atom_key(a)[0] == 'max':
        args = [x for x in TM.atom_key(a)[1] if x.t]
        if len(args) == 1:
            return strip0(args[0])
    return p


def same(p, q):
    """are two closed forms equal: canonical form, else identity testing over the atoms"""
    if p == q:
        return True
    p, q = strip0(p), strip0(q)
    if p == q:
        return True
    d = p - q
    if d.const() is not None:
        return False
    for s in range(24):
        if Env(s).poly(d) != 0:
            return False
    return True


def eqcond(p, q):
    """guard under which p == q"""
    if not isinstance(p, Poly) or not isinstance(q, Poly):
        return TRUE if p is q or p == q else FALSE
    if same(p, q):
        return TRUE
    return eq0(p - q)


def ge(p, q):
    """p >= q decided structurally"""
    d = p - q
    if is_nonneg(d):
        return True
    a = p.single_atom()
    if a is not None and TM.atom_key(a)[0] == 'max':
        if any(ge(x, q) for x in TM.atom_key(a)[1]):
            return True
    a = q.single_atom()
    if a is not None and TM.atom_key(a)[0] == 'max':
        return all(ge(p, x) for x in TM.atom_key(a)[1])
    if a is not None and TM.atom_key(a)[0] == 'min':
        return any(ge(p, x) for x in TM.atom_key(a)[1])
    return strip0(p) == strip0(q)


def dtuple(ds):
    """list of DDs -> one DD of tuples"""
    r = leaf(())
    for d in ds:
        r = map2(lambda t, x: t + (x,), r, d)
    return r


def bad_guard(cond, facts, d):
    """guard (within cond and facts) under which boolean DD d is false"""
    return AND(cond, facts, NOT(d))


def gstr(g, n=1):
    s = cubes(g, n)
    return s if len(s) < 400 else s[:400] + '...'


class TimeLimit(Exception):
    pass


FAILED = []             # jobs that could not be analysed: reported with the evidence
T_START = time.time()
BUDGET = 780.0          # seconds for a whole check
JOB_BYTES = 3500 << 20  # address space per job


def _alarm(sig, frame):
    raise TimeLimit('the time budget of the check is used up')


def _guarded(a):
    fn, job, limit = a
    if limit:
        resource.setrlimit(resource.RLIMIT_AS, (JOB_BYTES, resource.RLIM_INFINITY))
    left = T_START + BUDGET - time.time()
    try:
        if left <= 0:
            raise TimeLimit('the time budget of the check is used up')
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, left, 5.0)
        return 'ok', fn(job)
    except BuildError:
        raise
    except MemoryError:
        return 'failed', '%s: out of memory' % (job,)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return 'failed', '%s: %s: %s (%s)' % (job, type(e).__name__, str(e)[:300],
                                              ' < '.join('%s:%d' % (os.path.basename(x.filename), x.lineno) for x in tb[:-4:-1]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def parallel(fn, jobs, workers=8):
    """run fn(job) over jobs, each in a fresh process forked from this one (deterministic); results in order.
    A job whose code has a shape the analysis cannot handle is left out and recorded as not analysed."""
    import multiprocessing as mp
    if not jobs:
        return []
    for c in sorted({x for j in jobs if isinstance(j, tuple) for x in j[:2] if x in CONFIGS}):
        program(c)
    if len(jobs) == 1:
        out = [_guarded((fn, jobs[0], False))]
    else:
        import gc
        gc.collect()
        gc.freeze()                         # the parsed programs stay out of the children's garbage collections
        gc.set_threshold(50000, 20, 50)
        with mp.get_context('fork').Pool(min(workers, len(jobs)), maxtasksperchild=1) as pool:
            out = pool.map(_guarded, [(fn, j, True) for j in jobs], chunksize=1)
    bad = [r for k, r in out if k == 'failed']
    FAILED.extend(bad)
    if len(bad) == len(out):
        raise Broken('nothing could be analysed: %s' % bad[0])
    return [r for k, r in out if k == 'ok']
