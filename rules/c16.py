"""The Fortran bind(c) interfaces and the Python ctypes classes are read as declarations and compared with the prototypes of the C
functions they bind (from the compiler's type information): same number and order of arguments, by-value or by-reference as C expects,
same size and kind, same result; indices go through the *_fortran entry points from Fortran; each Python method, followed symbolically
for both precisions, calls the C function of its name with its own parameters in order and returns what that function produced."""
from .common import *
from sa import bindings as B

NEED = ('fortran procedures', 'python methods', 'ctypes declarations')
FFT_M = ['set', 'get_int', 'get_double', 'get_int64', 'get_string', 'get_int_vector', 'get_double_vector', 'setup', 'setup_memory',
         'compute', 'only_1d_ffts', 'only_remaps', 'only_one_remap', 'tune']
REMAP_M = ['set', 'setup', 'remap']
VIA = {'create', 'setup', 'tune'}


def undecided(rep, msg):
    if msg not in rep.assumptions:
        rep.assumptions.append(msg)


def cstr(t):
    if t is None:
        return 'void'
    return {'i': 'int%s', 'f': 'float%s', 's': '%s'}[t[0]] % t[1] if t[0] != 'p' else cstr(t[1]) + ' *'


def fstr(t):
    if t is None:
        return '?'
    return {'cptr': 'c_ptr by value', 'ref': 'by reference %s', 'arr': 'array of %s'}.get(t[0], '%s by value') % (
        () if t[0] == 'cptr' else (cstr(t[1]) if t[0] in ('ref', 'arr') and t[1][0] != 'cptr' else 'c_ptr' if t[0] in ('ref', 'arr')
                                   else cstr(t),)) if t[0] != 'cfunptr' else 'c_funptr'


def fortran(rep, kind, dim, protos):
    pre = '%s%dd_' % (kind, dim)
    fn = os.path.join(REPO, 'src', '%s%dd_wrap.f90' % (kind, dim))
    base = os.path.basename(fn)
    if not os.path.exists(fn):
        raise Broken('%s is missing' % base)
    ifs = B.f90_interfaces(open(fn).read())
    if not ifs:
        raise Broken('no interfaces in %s' % base)
    for m in ['create', 'destroy'] + (FFT_M if kind == 'fft' else REMAP_M):
        n = pre + m
        rep.inst('fortran procedures')
        f = ifs.get(n)
        if not rep.check(f is not None, base, 'no interface for %s' % n):
            continue
        site = '%s (%s)' % (base, n)
        want = n + ('_fortran' if m in VIA else '')
        if not rep.check(f['cname'] == want, site, 'binds C function %s, should bind %s' % (f['cname'], want)):
            continue
        res, ps = protos[want]
        ok = rep.check(len(f['args']) == len(ps), site, '%d arguments declared, the C function takes %d' % (len(f['args']), len(ps)))
        if not ok:
            continue
        cn = [p[0] for p in ps]
        for i, ((fa, ft), (ca, ct)) in enumerate(zip(f['args'], ps)):
            r = B.f_matches(ft, ct)
            if r is None:
                undecided(rep, '%s: type of argument %s not understood' % (site, fa))
                continue
            rep.check(r, site, 'argument %d (%s) is declared %s, the C function takes %s' % (i + 1, fa, fstr(ft), cstr(ct)),
                      '%s argument %s: %s for %s' % (n, fa, fstr(ft), cstr(ct)) if i == 3 else None)
            base_ = (ca or '').replace('_caller', '')
            if fa in [(c or '').replace('_caller', '').lower() for c in cn] and base_.lower() != fa:
                rep.check(False, site, 'argument %d is called %s, but in C argument %d is %s' % (i + 1, fa, i + 1, ca))
        if f['kind'] == 'subroutine':
            rep.check(res is None, site, 'declared a subroutine, but the C function returns %s' % cstr(res))
        else:
            r = f['result']
            if r is None:
                undecided(rep, '%s: result type not understood' % site)
            else:
                rep.check(res is not None and (r == res or (r == ('cptr',) and res[0] == 'p')), site,
                          'result is declared %s, the C function returns %s' % (fstr(r), cstr(res)))


def same_ct(py, c, scalar):
    """ctypes declaration against C type; None: cannot tell"""
    if py[0] == 'const' and py[1] is None:
        return c is None
    if py[0] != 'ctype':
        return None
    t = py[1]
    if c is None:
        return False
    if c[0] == 's':
        return True
    if t[0] == 'p' or c[0] == 'p':
        if t[0] != c[0]:
            return False
        if t[1] is None or c[1] is None:
            return True
        return t[1] == c[1]
    return t == c


def base_of(v):
    """strip conversions that keep the value"""
    while v[0] == 'conv' or (v[0] == 'cobj' and len(v[3]) == 1 and v[2][0] != 'p'):
        v = v[2] if v[0] == 'conv' else v[3][0]
    return v


def python(rep, kind, dim, prec, protos):
    fn = os.path.join(REPO, 'src', 'fftmpi.py')
    if not os.path.exists(fn):
        raise Broken('fftmpi.py is missing')
    try:
        tree = B.py_tree(open(fn).read())
    except SyntaxError as e:
        raise Broken('fftmpi.py does not parse: %s' % e)
    cls = ('FFT%ddMPI' if kind == 'fft' else 'Remap%ddMPI') % dim
    pre = '%s%dd_' % (kind, dim)
    if cls not in {n.name for n in tree.body if isinstance(n, B.ast.ClassDef)}:
        raise Broken('no class %s in fftmpi.py' % cls)
    R = B.PyRun(tree, cls, {'precision': prec})

    def runs(seq):
        try:
            return [p for p in R.paths(seq)]
        except B.Giveup as e:
            undecided(rep, 'fftmpi.py %s.%s: %s' % (cls, seq[-1], e))
            return []
        except (KeyError, IndexError, AttributeError) as e:
            undecided(rep, 'fftmpi.py %s.%s: %s' % (cls, seq[-1], type(e).__name__))
            return []

    # declarations and creation
    good = 0
    for p in runs(['__init__']):
        if p['how'] == 'exit':
            continue
        good += 1
        lib = p['attrs'].get('__lib__')
        if lib and lib[0] == 'const':
            rep.check('fft%dd' % dim in str(lib[1]), 'fftmpi.py (%s)' % cls, 'loads %s' % lib[1])
        for f, d in sorted(p['ct'].items()):
            site = 'fftmpi.py (%s, %s)' % (cls, f)
            rep.inst('ctypes declarations')
            if not rep.check(f in protos, site, 'declares the C function %s, which does not exist' % f):
                continue
            if not rep.check(f.startswith(pre) and not f.endswith('_fortran'), site, '%s is not a function of %s' % (f, cls)):
                continue
            res, ps = protos[f]
            if 'argtypes' in d:
                v, line = d['argtypes']
                if v[0] != 'tuple':
                    undecided(rep, '%s: argtypes not understood' % site)
                    continue
                ok = rep.check(len(v[1]) == len(ps), '%s line %d' % (site, line), '%d argument types declared, the C function takes %d'
                               % (len(v[1]), len(ps)))
                for i, (a, (cn, ct)) in enumerate(zip(v[1], ps) if ok else ()):
                    if f == pre + 'create' and i == 0:
                        rep.check(a[0] != 'ctype' or a[1] in (('i', 32), ('p', None)), site, 'communicator declared %s' % (a,))
                        continue
                    r = same_ct(a, ct, prec)
                    if r is None:
                        undecided(rep, '%s: argument type %d not understood' % (site, i + 1))
                        continue
                    rep.check(r, '%s line %d' % (site, line), 'argument %d declared %s, the C function takes %s with precision %d'
                              % (i + 1, cstr(a[1]), cstr(ct), prec), '%s argument %d: %s' % (f, i + 1, cstr(ct)) if i == 2 else None)
            if 'restype' in d:
                v, line = d['restype']
                r = same_ct(v, res, prec)
                if r is None:
                    undecided(rep, '%s: restype not understood' % site)
                else:
                    rep.check(r, '%s line %d' % (site, line), 'result declared %s, the C function returns %s'
                              % (cstr(v[1]) if v[0] == 'ctype' else v[1], cstr(res)))
            else:
                rep.check(res is None or res == ('i', 32), site, 'result type not declared, ctypes would take it for an int; it is %s'
                          % cstr(res))
        for m in FFT_M if kind == 'fft' else REMAP_M:
            res, ps = protos[pre + m]
            if res not in (None, ('i', 32)):
                rep.check('restype' in p['ct'].get(pre + m, {}), 'fftmpi.py (%s, %s)' % (cls, pre + m),
                          'result type not declared, ctypes would take the %s for an int' % cstr(res))
        cr = [c for c in p['log']]
        site = 'fftmpi.py (%s.__init__)' % cls
        if rep.check([c[0] for c in cr] == [pre + 'create'], site, 'calls %s, should create one instance' % [c[0] for c in cr]):
            a = cr[0][1]
            h = a[-1]
            rep.check(len(a) == len(protos[pre + 'create'][1]), site, 'create called with %d arguments' % len(a))
            if h[0] == 'byref' and h[1][0] == 'cobj':
                rep.check(h[1][2] == ('p', None), site, 'handle is %s, not a pointer' % cstr(h[1][2]))
            else:
                rep.check(h[0] in ('unk', 'name', 'attr', 'call'), site, 'handle passed as %s, create needs its address' % h[0])
            if kind == 'fft':
                rep.check(a[1] == ('const', prec) or a[1][0] not in ('const', 'param'), site, 'precision passed on is %s' % (a[1],))
    if not good:
        undecided(rep, 'fftmpi.py %s.__init__ not followed' % cls)
        return
    for m in FFT_M if kind == 'fft' else REMAP_M:
        site = 'fftmpi.py (%s.%s)' % (cls, m)
        if not rep.check(m in R.methods, 'fftmpi.py (%s)' % cls, 'no method %s' % m):
            continue
        rep.inst('python methods')
        params = [a.arg for a in R.methods[m].args.args[1:]]
        res, ps = protos[pre + m]
        called = 0
        total = 0
        for p in runs(['__init__', m]):
            for x in p['err']:
                rep.check(False, site, x)
            if p['how'] == 'exit':
                continue
            total += 1
            calls = p['log'][p['mark']:]
            if not calls:
                continue
            called += 1
            if not rep.check(len(calls) == 1 and calls[0][0] == pre + m, site, 'calls %s, should call %s once'
                             % ([c[0] for c in calls], pre + m)):
                continue
            f, a, r, line = calls[0]
            st = '%s line %d' % (site, line)
            if not rep.check(len(a) == len(ps), st, 'passes %d arguments, the C function takes %d' % (len(a), len(ps))):
                continue
            h = p['log'][0][1][-1]
            rep.check(h[0] != 'byref' or a[0] == h[1] or a[0][0] not in ('cobj', 'param', 'const', 'byref'), st,
                      'first argument is not the handle of the instance')
            it = iter(params)
            outs = []
            for i, (v, (cn, ct)) in enumerate(zip(a[1:], ps[1:])):
                if ct == ('p', ('i', 32)):
                    if v[0] == 'byref' and v[1][0] == 'cobj':
                        rep.check(v[1][2] == ('i', 32), st, 'argument %d (%s) is the address of a %s' % (i + 2, cn, cstr(v[1][2])))
                        rep.check(v[1] not in outs, st, 'argument %d (%s) uses the same variable as another output' % (i + 2, cn))
                        outs.append(v[1])
                    elif v[0] in ('cobj', 'param', 'const', 'data_as'):
                        rep.check(False, st, 'argument %d (%s) is an output, its address must be passed' % (i + 2, cn))
                    continue
                pn = next(it, None)
                if not rep.check(pn is not None, st, 'the method has no parameter left for %s' % cn):
                    break
                if ct[0] == 'p' and ct[1] and ct[1][0] == 'f':
                    if v[0] == 'data_as':
                        src = v[1][1] if v[1][0] == 'attr' and v[1][2] == 'ctypes' else v[1]
                        if src[0] == 'param':
                            rep.check(src[1] == pn, st, 'argument %d is the data of %s, should be of %s' % (i + 2, src[1], pn))
                        if v[2][0] == 'ctype':
                            rep.check(v[2][1] == ct or v[2][1] == ('p', None), st, 'data of %s is passed as %s, with precision %d it is %s'
                                      % (pn, cstr(v[2][1]), prec, cstr(ct)))
                    elif v[0] == 'param':
                        undecided(rep, '%s: %s passed without conversion' % (site, v[1]))
                    elif v[0] == 'const':
                        rep.check(False, st, 'argument %d is %s, should be the data of %s' % (i + 2, v[1], pn))
                    continue
                b = base_of(v)
                if b[0] in ('param', 'const', 'bin', 'un', 'cobj'):
                    rep.check(b == ('param', pn), st, 'argument %d (%s) is %s, should be parameter %s'
                              % (i + 2, cn, b[1] if b[0] in ('param', 'const') else 'a changed value', pn))
                else:
                    undecided(rep, '%s: argument %d not understood' % (site, i + 2))
            left = list(it)
            rep.check(not left or any(x in R.consts for x in left), st, 'parameters %s are not passed on' % left)
            v = p['res'][-1]
            if m in ('setup', 'tune') and outs:
                if v[0] == 'tuple':
                    got = [x[1] if x[0] == 'attr' and x[2] == 'value' else x for x in v[1]]
                    if all(x[0] == 'cobj' for x in got):
                        rep.check(got == outs, st, 'the sizes are returned in another order than the C function stores them',
                                  '%s.%s returns the outputs of %s in order' % (cls, m, f))
                        rep.check(all(x[0] == 'attr' for x in v[1]), st, 'returns ctypes objects, not their values')
                else:
                    rep.check(v[0] != 'const', st, 'the sizes are not returned')
            elif m in ('get_int', 'get_double', 'get_int64', 'get_string'):
                b = base_of(v)
                if b[0] in ('const', 'libret', 'slice') and not (b == ('const', None) and p['guesses'] > 1):
                    rep.check(b == r or (b[0] == 'slice' and b[1] == r), st, 'does not return the result of %s' % f)
            elif m in ('get_int_vector', 'get_double_vector'):
                if v[0] == 'slice':
                    ok = v[1] == r and v[2] == ('const', 0) and v[3][0] == 'attr' and v[3][2] == 'value' and outs and v[3][1] == outs[0]
                    if v[1][0] == 'libret' and v[3][0] in ('attr', 'const'):
                        rep.check(ok, st, 'does not return all of the vector, of the length %s reported' % f)
                elif v == r or (v[0] == 'const' and p['guesses'] < 2):
                    rep.check(False, st, 'does not return the vector with its length')
        if total and not called:
            rep.check(False, site, 'never calls the library')
    # destruction
    for seq, want in ((['__init__', '__del__'], 1), (['__init__', 'destroy'], 1), (['__init__', 'destroy', '__del__'], 1)):
        if any(s not in R.methods for s in seq):
            continue
        site = 'fftmpi.py (%s.%s)' % (cls, seq[-1])
        allp = runs(seq)
        for p in allp:
            for x in p['err']:
                rep.check(False, site, 'after %s: %s' % (' and '.join(seq[1:]), x))
        ps = [p for p in allp if p['how'] != 'exit']
        ns = [sum(1 for c in p['log'] if c[0] == pre + 'destroy') for p in ps]
        base = min((p['guesses'] for p in runs(['__init__']) if p['how'] != 'exit'), default=0)
        for p, n in zip(ps, ns):
            if p['guesses'] > base + 1:
                undecided(rep, '%s: condition not determined' % site)
                continue
            rep.check(n == want, site, 'after %s the C instance has been destroyed %d times' % (' and '.join(seq[1:]), n),
                      '%s destroys the instance once' % site)
            for c in p['log']:
                if c[0] == pre + 'destroy':
                    h = p['log'][0][1][-1]
                    rep.check(h[0] != 'byref' or c[1] == [h[1]], site, 'destroys something else than the instance')


def work(job):
    cfg, kind, dim = job
    rep = Report('C16')
    protos = B.c_prototypes(program(cfg), r'(fft|remap)[23]d_')
    if not protos:
        raise Broken('no C interface functions found')
    prec = 1 if 'single' in cfg else 2
    rep.functions |= set(protos)
    for m in ['create', 'destroy'] + (FFT_M if kind == 'fft' else REMAP_M):
        n = '%s%dd_%s' % (kind, dim, m)
        for x in [n] + ([n + '_fortran'] if m in VIA else []):
            if x not in protos:
                raise Broken('C function %s is missing' % x)
    fortran(rep, kind, dim, protos)
    python(rep, kind, dim, prec, protos)
    return rep.to_dict()


def run(rep, tier):
    jobs = [(c, k, d) for c in ('kiss-double', 'kiss-single') for k in ('fft', 'remap') for d in (2, 3)]
    for r in parallel(work, jobs):
        rep.merge(r)
