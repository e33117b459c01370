"""Interprocedural, guarded value analysis over LLVM IR.

Abstract interpretation in a symbolic-polynomial domain: acyclic regions are
processed once, in topological order, joining states at merge points with
guarded values (no path enumeration); loops are summarised through induction
variables / recurrences; calls into the library are analysed in context, calls
out of it become *events*.  The result of analysing an entry point is the
guarded, ordered tree of events plus the final abstract memory."""
from fractions import Fraction
from .terms import *
from . import terms as TM
from . import ir

_cnt = [0]


def fresh(tag):
    _cnt[0] += 1
    return '%s#%d' % (tag, _cnt[0])


class AnalysisError(Exception):
    pass


class Obj:
    __slots__ = ('name', 'kind', 'size', 'default', 'loc', 'atom', 'factory', 'init', 'meta', 'module')

    def __init__(self, name, kind, default='sym', size=None, loc=None):
        self.name = name
        self.kind = kind
        self.default = default
        self.size = size
        self.loc = loc
        self.atom = None
        self.factory = None
        self.init = None
        self.meta = {}
        self.module = None

    def __repr__(self):
        return self.name

    def __str__(self):
        return self.name


_deref = {}


def deref_obj(aid):
    o = _deref.get(aid)
    if o is None:
        o = Obj('*' + astr(aid), 'deref', 'sym')
        o.atom = aid
        o.factory = deref_obj
        _deref[aid] = o
    return o


class OS:
    """abstract state of one object"""
    __slots__ = ('cells', 'ver', 'default', 'sums', 'freed', 'epoch', 'wrote')

    def __init__(self, default):
        self.cells = {}
        self.ver = 0
        self.default = default
        self.sums = ()
        self.freed = FALSE
        self.epoch = 0
        self.wrote = False

    def copy(self):
        o = OS(self.default)
        o.cells = dict(self.cells)
        o.ver = self.ver
        o.sums = self.sums
        o.freed = self.freed
        o.epoch = self.epoch
        o.wrote = self.wrote
        return o


class Mem:
    __slots__ = ('d',)

    def __init__(self, d=None):
        self.d = d if d is not None else {}

    def copy(self):
        return Mem(dict(self.d))

    def get(self, obj):
        s = self.d.get(obj)
        if s is None:
            s = OS(obj.default)
        return s

    def own(self, obj):
        s = self.d.get(obj)
        s = s.copy() if s is not None else OS(obj.default)
        self.d[obj] = s
        return s


class Sum:
    """array summary: for all 0<=k<T: obj[off(k)] == val(k) (under cond(k))"""
    __slots__ = ('off', 'size', 'val', 'cond', 'depth', 'T')

    def __init__(self, off, size, val, cond, depth, T):
        self.off, self.size, self.val, self.cond, self.depth, self.T = off, size, val, cond, depth, T


class Event:
    __slots__ = ('kind', 'name', 'args', 'cond', 'loc', 'fn', 'ret', 'body', 'T', 'depth', 'info', 'seq', 'chain')

    def __init__(self, kind, name=None, args=(), cond=TRUE, loc=None, fn=None, ret=None, **info):
        self.kind = kind
        self.name = name
        self.args = list(args)
        self.cond = cond
        self.loc = loc
        self.fn = fn
        self.ret = ret
        self.body = None
        self.T = None
        self.depth = None
        self.info = info
        self.chain = ()

    def where(self):
        l = self.loc
        return '%s:%s (%s)' % (l[0] if l else '?', l[1] if l else '?', self.fn)

    def __repr__(self):
        if self.kind == 'loop':
            return 'LOOP[k%d<%s]{%d}' % (self.depth, ddstr(self.T) if self.T is not None else '?', len(self.body))
        return '%s %s(%s) if %s @%s' % (self.kind, self.name, ', '.join(map(repr, self.args)),
                                        'true' if self.cond is TRUE else cubes(self.cond, 3), self.where())


def flat(events, cond=TRUE, loops=()):
    """yield (event, absolute guard, loops) in order; loop events are descended into"""
    for e in events:
        c = AND(cond, e.cond)
        if e.kind == 'loop':
            yield from flat(e.body, c, loops + (e,))
        else:
            yield e, c, loops


class Agg:
    """first-class aggregate value"""
    def __init__(self, vals):
        self.vals = vals


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        self.layout = {}
        self.debug = {}
        self.byname = {}
        self.composites = {}
        for m in modules:
            self.layout[m] = ir.Layout(m)
            self.debug[m] = ir.Debug(m)
            for a, t in m.aliases.items():
                self.aliases[a] = (m, t)
            for f in m.functions.values():
                if not f.internal:
                    self.functions.setdefault(f.name, f)
                self.byname.setdefault(self.debug[m].fn_name(f), []).append(f)
            for k, v in self.debug[m].composites().items():
                self.composites.setdefault(k, v + (m,))
        self._cfg = {}
        self._gobj = {}

    def qname(self, f):
        return self.debug[f.module].fn_name(f)

    def lookup(self, mod, name):
        if name in mod.functions:
            return mod.functions[name]
        if name in mod.aliases:
            return self.lookup(mod, mod.aliases[name])
        if name in self.functions:
            return self.functions[name]
        if name in self.aliases:
            m, t = self.aliases[name]
            return self.lookup(m, t)
        return None

    def find(self, qname, nparams=None):
        fs = self.byname.get(qname, [])
        if nparams is not None:
            fs = [f for f in fs if len(f.params) == nparams]
        # several modules may hold the same linkonce function
        seen = {}
        for f in fs:
            seen.setdefault(f.name, f)
        return list(seen.values())

    def fields(self, cls):
        """field name -> (byte offset, type id, module) of class cls"""
        c = self.composites.get(cls)
        if c is None:
            raise AnalysisError('class %s not found in debug info' % cls)
        flds, size, scope, nid, mod = c
        return {n: (off, ty, mod) for off, (n, ty) in flds.items()}

    def field_at(self, cls, off):
        c = self.composites.get(cls)
        if c is None:
            return None
        best = None
        for o, (n, ty) in c[0].items():
            if o <= off and (best is None or o > best[0]):
                best = (o, n)
        return best

    def class_size(self, cls):
        return self.composites[cls][1]

    def cfg(self, f):
        c = self._cfg.get(f)
        if c is None:
            c = CFG(f)
            self._cfg[f] = c
        return c

    def global_obj(self, mod, name):
        g = mod.globals.get(name)
        key = (mod if (g and g['internal']) else None, name)
        o = self._gobj.get(key)
        if o is None:
            default = 'sym'
            o = Obj('@' + name, 'global', default)
            o.module = mod
            if g and g['const'] and g['init'] is not None:
                o.init = g['init']
                o.default = 'const'
            o.meta['g'] = g
            self._gobj[key] = o
        return o

    def cstring(self, d):
        """string literal a pointer leaf denotes, or None"""
        if not isinstance(d, Ptr) or d.obj is None or d.obj.kind != 'global':
            return None
        i = d.obj.init
        if i is None or i.k != 'cstr':
            if i is not None and i.k == 'zero':
                return ''
            return None
        s = i.v[2:-1]
        s = re_unescape(s)
        return s.rstrip('\0')


def re_unescape(s):
    import re
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)


class Loop:
    __slots__ = ('header', 'body', 'parent', 'children', 'latches')


class CFG:
    def __init__(self, f):
        self.f = f
        self.entry = next(iter(f.blocks))
        # reverse postorder
        seen = set()
        order = []
        st = [(self.entry, iter(f.blocks[self.entry].succs))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in f.blocks[b].preds if p in idom and p in self.idx]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in f.blocks[b].succs:
                if self.dominates(s, b):
                    l = self.loops.get(s)
                    if l is None:
                        l = Loop()
                        l.header = s
                        l.body = {s}
                        l.latches = []
                        l.parent = None
                        l.children = []
                        self.loops[s] = l
                    l.latches.append(b)
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in l.body:
                            continue
                        l.body.add(x)
                        work.extend(p for p in f.blocks[x].preds if p in self.idx)
                elif self.idx[s] <= self.idx[b]:
                    raise AnalysisError('irreducible control flow in ' + f.name)
        for l in self.loops.values():
            best = None
            for m in self.loops.values():
                if m is not l and l.header in m.body and l.body <= m.body:
                    if best is None or len(m.body) < len(best.body):
                        best = m
            l.parent = best
            if best:
                best.children.append(l)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n


class Frame:
    __slots__ = ('f', 'mod', 'env', 'cfg', 'layout', 'allocas')


class Edge:
    __slots__ = ('src', 'dst', 'cond', 'mem', 'sub', 'env')

    def __init__(self, src, dst, cond, mem, sub=None, env=None):
        self.src, self.dst, self.cond, self.mem, self.sub, self.env = src, dst, cond, mem, sub, env


class Interp:
    def __init__(self, prog, models=None, optimistic=False, trace_loads=False):
        self.prog = prog
        self.models = dict(DEFAULT_MODELS)
        if models:
            self.models.update(models)
        self.events = []
        self.unroll = 0
        self.narrow = None          # list: results of integer operations of at most 32 bits are recorded in it
        self.fdecide = False        # decide real comparisons from the 32-bit range of the integers in them
        self.fchoice = False        # comparisons between path-dependent values may go either way
        self.tripconds = {}
        self.recording = True
        self.condstack = [TRUE]
        self.depth = 0
        self.callstack = []
        self.recurse = 0
        self.copylimit = 512
        self.callsites = []
        self.optimistic = optimistic
        self.trace_loads = trace_loads
        self.recs = {}            # rec atom id -> dict(init,next,depth,T,...)
        self.noalias_objs = set()
        self.functions_analysed = set()
        self.loops_analysed = 0
        self.instrs = 0
        self.curloc = None
        self.curfn = None
        self.problems = []        # analysis imprecision notes
        self.bounds = {}          # offset -> constant byte range it stays in
        self.indexed = {}         # offset -> (index, array length)
        self._undef = 0
        self.looptest = {}
        self.ctr = {}
        self.facts = TRUE         # facts established by models (valid whenever the model's call was reached)

    # ------------------------------------------------------------ helpers
    def uniq(self, tag):
        # names of allocation sites etc. must be reproducible over the silent passes of a loop
        self.ctr[tag] = self.ctr.get(tag, 0) + 1
        return self.ctr[tag]

    def abscond(self):
        return AND(*self.condstack)

    def emit(self, kind, name=None, args=(), cond=TRUE, ret=None, **info):
        if not self.recording:
            return None
        e = Event(kind, name, args, AND(self.localcond, cond), self.curloc, self.curfn, ret, **info)
        e.chain = tuple(self.callstack)
        self.events.append(e)
        return e

    # ------------------------------------------------------------ memory
    def may_alias(self, o1, s1, o2, s2):
        k1, k2 = o1.const(), o2.const()
        if k1 is not None and k2 is not None:
            return -s1 < k1 - k2 < s2
        d = o1 - o2
        c = d.const()
        if c is not None:
            return -s1 < c < s2
        g = pcontent(d.lin())
        if g > 1 and isinstance(d.c0(), int):
            r = d.c0() % g
            # offsets differ by r + g*t ; overlap iff some t gives -s1 < v < s2
            if not (r < s2 or r - g > -s1):
                return False
        if is_nonneg(d - s2) or is_nonneg(-d - s1):
            return False
        r1, r2 = self.extent(o1, s1), self.extent(o2, s2)
        if r1 is not None and r2 is not None and (r1[1] <= r2[0] or r2[1] <= r1[0]):
            return False
        return not self.optimistic

    def extent(self, off, size):
        """constant byte range an offset lies in (array members are indexed inside their bounds)"""
        c = off.const()
        if c is not None:
            return (c, c + size)
        return self.bounds.get(off)

    def read1(self, mem, obj, off, size, ty):
        st = mem.get(obj)
        c = st.cells.get(off)
        if c is not None and (c[1] == size):
            return c[0]
        alias = False
        for o, (v, s) in st.cells.items():
            if self.may_alias(o, s, off, size):
                if o == off and s > size:
                    # low part of a wider constant
                    pass
                alias = True
                break
        if not alias:
            for sm in reversed(st.sums):
                r = self.match_sum(sm, off, size)
                if r is not None:
                    return r
                if self.may_alias(sm.off, sm.size, off, size):
                    alias = True
                    break
        if alias:
            return self.opaque_load(obj, off, ('e', st.epoch), ty)
        if obj.kind == 'global' and st.default == 'const':
            v = self.const_load(obj, off, size, ty)
            if v is not None:
                return v
            return self.opaque_load(obj, off, 0, ty)
        if st.default == 'undef':
            return leaf(Undef(obj.name + '+' + pstr(off)))
        if st.default == 'zero':
            if ty.k == 'ptr':
                return leaf(NULL)
            return leaf(ZERO)
        return self.opaque_load(obj, off, st.ver, ty)

    def match_sum(self, sm, off, size):
        if sm.size != size:
            return None
        ka = atom_id(('K', sm.depth))
        # off pattern linear in K?
        coef = ZERO
        rest = ZERO
        for m, c in sm.off.t:
            n = m.count(ka)
            if n == 0:
                rest = rest + mkpoly({m: c})
            elif n == 1:
                mm = list(m)
                mm.remove(ka)
                coef = coef + mkpoly({tuple(mm): c})
            else:
                return None
        j = pdiv_exact(off - rest, coef) if coef.t else None
        if j is None:
            return None
        s = Subst({ka: j})
        c = s.dd(sm.cond)
        if c is not TRUE:
            return None
        if any(atom_key(a)[0] == 'rec' and atom_key(a)[1] >= sm.depth for a in dd_atoms(sm.val)):
            return None
        # j must be able to be an iteration
        jc = j.const()
        if jc is not None and jc < 0:
            return None
        return s.dd(sm.val)

    def opaque_load(self, obj, off, ver, ty):
        aid = atom_id(('load', obj, off, ver))
        if ty.k == 'ptr':
            return leaf(Ptr(deref_obj(aid), ZERO))
        p = Poly((((aid,), 1),))
        if ty.k == 'int' and ty.a == 1:
            return NOT(eq0(p))
        return leaf(p)

    def const_load(self, obj, off, size, ty):
        c = off.const()
        if c is None:
            return None
        lay = self.prog.layout[obj.module]
        t = obj.meta['g']['type']
        v = obj.init

        def walk(t, v, c):
            t = lay.resolve(t)
            if v.k == 'zero':
                return leaf(NULL if ty.k == 'ptr' else ZERO)
            if t.k == 'array':
                es = lay.size_align(t.b)[0]
                i, r = divmod(c, es)
                if v.k == 'cstr':
                    s = re_unescape(v.v[2:-1])
                    if i < len(s) and size == 1:
                        return leaf(C(ord(s[i])))
                    return None
                if v.k == 'agg' and 0 <= i < len(v.v):
                    return walk(t.b, v.v[i], r)
                return None
            if t.k == 'struct':
                _, _, offs = lay.struct(t)
                for i in range(len(offs) - 1, -1, -1):
                    if offs[i] <= c:
                        return walk(t.a[i], v.v[i], c - offs[i])
                return None
            if c == 0:
                return self.operand_const(obj.module, v)
            return None
        return walk(t, v, c)

    def write1(self, mem, obj, off, size, val, guard):
        st = mem.own(obj)
        st.epoch = fresh('e')
        st.wrote = True
        kill = []
        k = off.const()
        for o, (v, s) in st.cells.items():
            if o is off:
                continue
            if k is not None:
                c = o.const()
                if c is not None:
                    if c != k and -s < c - k < size:
                        kill.append(o)
                    continue
            if o != off and self.may_alias(o, s, off, size):
                kill.append(o)
        for o in kill:
            v, s = st.cells[o]
            st.cells[o] = (leaf(A(('kill', fresh('x')))), s)
        if guard is not TRUE:
            tyk = None
            old = st.cells.get(off)
            if old is not None and old[1] == size:
                oldv = old[0]
            else:
                oldv = self.read1(mem, obj, off, size, self._ty_of(val))
            val = ite(guard, val, oldv)
        st.cells[off] = (val, size)

    def _ty_of(self, val):
        for v in leafvals(val):
            if isinstance(v, (Ptr, Fn)):
                return ir.PTR
            if isinstance(v, bool):
                return ir.INT(1)
        return ir.INT(32)

    def havoc(self, mem, obj, default='sym'):
        st = mem.own(obj)
        st.cells = {}
        st.sums = ()
        st.ver = fresh('v')
        st.epoch = st.ver
        st.wrote = True
        st.default = default

    def under(self, p):
        """pointer value restricted to the leaves reachable under the current guard"""
        if p.var is None:
            return p
        c = AND(self.abscond(), self.localcond, self.facts)
        if c is TRUE or c is FALSE:
            return p
        return simplify(p, c)

    def load(self, mem, p, ty, size):
        p = self.under(p)

        def one(v):
            if isinstance(v, Ptr) and v.obj is not None:
                self.check_freed(mem, v, 'load')
                return self.read1(mem, v.obj, v.off, size, ty)
            if isinstance(v, Ptr):
                return leaf(Undef('null-deref'))
            if isinstance(v, Undef):
                return leaf(Undef('deref ' + v.what))
            aid = atom_id(('ldany', v if isinstance(v, Poly) else str(v)))
            if ty.k == 'ptr':
                return leaf(Ptr(deref_obj(aid), ZERO))
            return leaf(Poly((((aid,), 1),)))
        self.check_null(p, 'load')
        if self.trace_loads and self.recording:
            self.emit('load', None, [p], size=size, ty=ty)
        return map1(one, p)

    def check_null(self, p, what):
        if not self.recording:
            return
        if p.var is None:
            v = p.val
            if isinstance(v, Ptr) and v.obj is not None:
                return
        for g, v in leaves(p):
            if isinstance(v, Ptr) and v.obj is None:
                if AND(self.localcond, g) is not FALSE and AND(self.abscond(), self.localcond, g) is not FALSE:
                    self.emit('nullderef', what, [p], cond=g)
            elif isinstance(v, Undef):
                if AND(self.abscond(), self.localcond, g) is not FALSE:
                    self.emit('undefderef', what, [p], cond=g)

    def check_freed(self, mem, v, what):
        if not self.recording:
            return
        st = mem.d.get(v.obj)
        if st is not None and st.freed is not FALSE:
            c = AND(self.localcond, st.freed)
            if c is not FALSE and AND(self.abscond(), c) is not FALSE:
                self.emit('uaf', what, [leaf(v)], cond=st.freed)

    def store(self, mem, p, val, size):
        p = self.under(p)
        self.check_null(p, 'store')
        ls = leaves(p) if p.var is not None else [(TRUE, p.val)]
        for g, v in ls:
            if isinstance(v, Ptr) and v.obj is not None:
                self.check_freed(mem, v, 'store')
                self.write1(mem, v.obj, v.off, size, val, g)
        if self.recording:
            if any(isinstance(v, Ptr) and v.obj is not None and v.obj.kind != 'stack' for _, v in ls):
                self.emit('store', None, [p, val], size=size)

    # ------------------------------------------------------------ merging
    def merge_mems(self, edges):
        """edges: list of Edge with disjoint conds -> (cond, mem)"""
        if len(edges) == 1:
            e = edges[0]
            return e.cond, e.mem.copy(), [TRUE]
        total = OR(*[e.cond for e in edges])
        guards = [simplify(e.cond, total) for e in edges]
        objs = set()
        for e in edges:
            objs.update(e.mem.d)
        res = Mem()
        for o in objs:
            sts = [e.mem.d.get(o) for e in edges]
            s0 = sts[0]
            if all(s is s0 for s in sts):
                res.d[o] = s0
                continue
            if o.kind == 'stack' and any(s is None for s in sts):
                # local of a branch
                s = next(s for s in sts if s is not None)
                res.d[o] = s
                continue
            gs = guards
            oedges = edges
            if o.kind == 'heap' and any(s is None for s in sts):
                # the object does not exist on the other edges: nothing there can refer to it
                idx = [i for i, s in enumerate(sts) if s is not None]
                if len(idx) == 1:
                    res.d[o] = sts[idx[0]]
                    continue
                oedges = [edges[i] for i in idx]
                gs = [guards[i] for i in idx]
            full = [e.mem.get(o) for e in oedges]
            n = OS(o.default)
            offs = {}
            for s in full:
                for k, (v, sz) in s.cells.items():
                    offs.setdefault((k, sz), None)
            vers = {s.ver for s in full}
            defaults = {s.default for s in full}
            epochs = {s.epoch for s in full}
            n.wrote = any(s.wrote for s in full)
            n.ver = full[0].ver if len(vers) == 1 else fresh('m')
            n.epoch = full[0].epoch if len(epochs) == 1 else fresh('m')
            n.default = full[0].default if len(defaults) == 1 else 'sym'
            if all(s.sums == full[0].sums for s in full):
                n.sums = full[0].sums
            else:
                # keep summaries guarded where possible
                longest = max(full, key=lambda s: len(s.sums)).sums
                if all(s.sums == longest or (not s.sums and s.default == 'undef') for s in full):
                    n.sums = longest
                else:
                    n.ver = fresh('m')
                    n.sums = longest if False else ()
                    n.default = 'sym'
            for (k, sz) in offs:
                vals = []
                tyk = None
                for s in full:
                    c = s.cells.get(k)
                    if c is not None and c[1] == sz:
                        vals.append(c[0])
                    else:
                        vals.append(None)
                ref = next(v for v in vals if v is not None)
                ty = self._ty_of(ref)
                for i, v in enumerate(vals):
                    if v is None:
                        vals[i] = self.read1(oedges[i].mem, o, k, sz, ty)
                v = vals[-1]
                for g, x in zip(gs[-2::-1], vals[-2::-1]):
                    v = ite(g, x, v)
                n.cells[k] = (v, sz)
            fr = full[-1].freed
            for g, s in zip(gs[-2::-1], full[-2::-1]):
                fr = ite(g, s.freed, fr)
            n.freed = fr
            res.d[o] = n
        return total, res, guards

    # ------------------------------------------------------------ operands
    def operand_const(self, mod, op):
        k = op.k
        if k == 'const':
            if op.t.k == 'int' and op.t.a == 1:
                return TRUE if op.v else FALSE
            return leaf(C(op.v))
        if k == 'fconst':
            f = op.v
            if f == int(f) if f == f and abs(f) != float('inf') else False:
                return leaf(C(int(f)))
            if f != f or abs(f) == float('inf'):
                return leaf(A(('fspecial', repr(f))))
            return leaf(C(Fraction(f)))
        if k == 'null':
            return leaf(NULL)
        if k == 'undef':
            return leaf(Undef('undef'))
        if k == 'zero':
            return leaf(NULL if op.t.k == 'ptr' else ZERO)
        if k == 'global':
            fn = self.prog.lookup(mod, op.v)
            if fn is not None:
                return leaf(Fn(self.fnkey(fn)))
            if op.v in mod.globals:
                return leaf(Ptr(self.prog.global_obj(mod, op.v), ZERO))
            return leaf(Fn(op.v))
        if k == 'gepconst':
            bt, base, idx = op.v
            b = self.operand_const(mod, base)
            return self.gep(mod, bt, b, [self.operand_const(mod, i) for i in idx])
        if k == 'castconst':
            return self.operand_const(mod, op.v[1])
        raise AnalysisError('operand %s' % k)

    def fnkey(self, fn):
        key = fn.name if not fn.internal else '%s|%s' % (fn.module.name, fn.name)
        self.prog.__dict__.setdefault('_fnkeys', {})[key] = fn
        return key

    def fn_by_key(self, key):
        return self.prog.__dict__.get('_fnkeys', {}).get(key)

    def val(self, fr, op):
        if op.k == 'local':
            v = fr.env.get(op.v)
            if v is None:
                raise AnalysisError('no value for %%%s in %s' % (op.v, fr.f.name))
            return v
        return self.operand_const(fr.mod, op)

    def gep(self, mod, bt, base, idx):
        lay = self.prog.layout[mod]
        off = leaf(ZERO)
        t = bt
        arr = None

        def addmul(o, i, s):
            def f(a, b):
                if isinstance(a, Poly) and isinstance(b, Poly):
                    return a + b * s
                return next((z for z in (a, b) if isinstance(z, Undef)), None) or Undef('gep')
            return map2(f, o, i)
        off = addmul(off, idx[0], lay.size_align(t)[0])
        for i in idx[1:]:
            t = lay.resolve(t)
            if t.k == 'struct':
                n = i.val.const()
                _, _, offs = lay.struct(t)
                off = map1(lambda a, n=n, offs=offs: a + offs[n] if isinstance(a, Poly) else a, off)
                t = t.a[n]
            elif t.k in ('array', 'vector'):
                off = addmul(off, i, lay.size_align(t.b)[0])
                arr = (t.a, lay.size_align(t.b)[0], i)
                t = t.b
                continue
            else:
                raise AnalysisError('gep into %s' % t.k)
            arr = None

        rel = None
        if arr is not None and len(idx) > 1:
            # variable index into an array of fixed length: the access stays inside that array
            i = idx[-1]
            if not (i.var is None and isinstance(i.val, Poly) and i.val.const() is not None):
                rel = arr

        def comb(b, o):
            if isinstance(b, Ptr) and isinstance(o, Poly):
                r = b.off + o
                if rel is not None and r.const() is None:
                    n, es, i = rel
                    for iv in leafvals(i):
                        if isinstance(iv, Poly):
                            c = (r - iv * es).const()
                            if c is not None:
                                self.bounds[r] = (c, c + n * es)
                                self.indexed[r] = (iv, n)
                                break
                return Ptr(b.obj, r)
            if isinstance(b, Undef):
                return b
            if isinstance(b, Poly):
                a = b.single_atom()
                if a is not None:
                    return Ptr(deref_obj(a), o)
            return o if isinstance(o, Undef) else Undef('gep')
        return map2(comb, base, off)

    # ------------------------------------------------------------ scalar ops
    def binop(self, op, a, b, ty):
        if ty.k == 'int' and ty.a == 1:
            if op == 'and':
                return AND(a, b)
            if op == 'or':
                return OR(a, b)
            if op in ('xor', 'add', 'sub'):
                return ite(a, NOT(b), b)
        return map2(lambda x, y: self.bin1(op, x, y, ty), a, b)

    def bin1(self, op, x, y, ty):
        if isinstance(x, Undef):
            return x
        if isinstance(y, Undef):
            return y
        x = self.aspoly(x)
        y = self.aspoly(y)
        if op in ('add', 'fadd'):
            return x + y
        if op in ('sub', 'fsub'):
            return x - y
        if op in ('mul', 'fmul'):
            return x * y
        if op in ('sdiv', 'udiv'):
            return idiv(x, y)
        if op in ('srem', 'urem'):
            return imod(x, y)
        xc, yc = x.const(), y.const()
        if op == 'fdiv':
            if yc not in (None, 0):
                return pscale(x, _fr(1, yc))
            if xc == 0:
                return ZERO
            # normalise constant factors out
            return A(('fdiv', x, y))
        if op == 'shl' and yc is not None:
            return x * (1 << yc)
        if op in ('ashr', 'lshr') and yc is not None:
            if xc is not None and xc >= 0:
                return C(xc >> yc)
            e = pdiv_exact(x, C(1 << yc))
            if e is not None:
                return e
            return A(('sar', x, yc))
        if xc is not None and yc is not None:
            if op == 'and':
                return C(xc & yc)
            if op == 'or':
                return C(xc | yc)
            if op == 'xor':
                return C(xc ^ yc)
        if op == 'xor' and yc == -1:
            return -x - 1
        if op in ('and', 'or', 'xor'):
            s = sorted((x, y), key=lambda p: p.t)
            return A((op, s[0], s[1]))
        return A((op, x, y))

    def aspoly(self, v):
        if isinstance(v, Poly):
            return v
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, Ptr):
            if v.obj is None:
                return v.off
            return A(('addr', v.obj)) + v.off
        return A(('opq', str(v)))

    def icmp(self, pred, a, b, ty):
        if ty.k == 'int' and ty.a == 1:
            e = ite(a, b, NOT(b))
            if pred == 'eq':
                return e
            if pred == 'ne':
                return NOT(e)
        if self.fchoice and pred[0] == 's':
            la, lb = leafvals(a), leafvals(b)
            if len(la) + len(lb) > 3 and all(isinstance(v, Poly) for v in list(la) + list(lb)):
                rs = {self.cmp1(pred, x, y) for x in la for y in lb}
                if all(r.var is None for r in rs) and len(rs) > 1:
                    return map2(lambda x, y: self.cmp1(pred, x, y), a, b)
                return rs.pop() if len(rs) == 1 else BV(('b', 'fchoice', self.uniq('fchoice')))
        return map2(lambda x, y: self.cmp1(pred, x, y), a, b)

    def cmp1(self, pred, x, y):
        if isinstance(x, Undef) or isinstance(y, Undef):
            u = x if isinstance(x, Undef) else y
            return BV(('b', 'undefcmp', u.what, pred, str(y if u is x else x)))
        if isinstance(x, (Ptr, Fn)) or isinstance(y, (Ptr, Fn)):
            return self.pcmp(pred, x, y)
        x, y = self.aspoly(x), self.aspoly(y)
        if pred == 'eq':
            return eq0(x - y)
        if pred == 'ne':
            return NOT(eq0(x - y))
        if pred[0] in 'su':
            p = pred[1:]
            if p == 'lt':
                return le0(x - y + 1)
            if p == 'le':
                return le0(x - y)
            if p == 'gt':
                return le0(y - x + 1)
            if p == 'ge':
                return le0(y - x)
        raise AnalysisError('icmp ' + pred)

    def pcmp(self, pred, x, y):
        if isinstance(x, Poly) and x.const() == 0:
            x = NULL
        if isinstance(y, Poly) and y.const() == 0:
            y = NULL
        if isinstance(x, Fn) or isinstance(y, Fn):
            r = TRUE if x is y else FALSE
            if isinstance(x, Ptr) and x.obj is not None or isinstance(y, Ptr) and y.obj is not None:
                r = BV(('b', 'fneq', str(x), str(y)))
            return r if pred == 'eq' else NOT(r)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj is y.obj:
                return self.cmp1(pred, x.off, y.off)
            if pred in ('eq', 'ne'):
                if x.obj is None or y.obj is None:
                    o = y if x.obj is None else x
                    r = self.isnull(o)
                else:
                    r = self.maybe_same(x, y)
                return r if pred == 'eq' else NOT(r)
        return BV(('b', 'pcmp', pred, str(x), str(y)))

    def isnull(self, p):
        if p.obj.kind == 'deref' and not p.obj.meta.get('nonnull'):
            return BV(('b', 'isnull', Poly((((p.obj.atom,), 1),))))
        return FALSE

    def maybe_same(self, x, y):
        ox, oy = x.obj, y.obj
        if ox.kind == 'deref' and oy.kind == 'deref':
            a, b = sorted((ox.atom, oy.atom))
            return BV(('b', 'sameptr', Poly((((a,), 1),)), Poly((((b,), 1),))))
        return FALSE

    def fcmp(self, pred, a, b):
        def f(x, y):
            if isinstance(x, Undef) or isinstance(y, Undef):
                u = x if isinstance(x, Undef) else y
                return BV(('b', 'undefcmp', u.what, pred, 'f'))
            x, y = self.aspoly(x), self.aspoly(y)
            d = x - y
            c = d.const()
            p = pred[1:] if pred not in ('ord', 'uno') else pred

            def lt(P):
                c = P.const()
                if c is not None:
                    return TRUE if c < 0 else FALSE
                if self.fdecide:
                    lo, hi = int_bounds(P)
                    if lo is not None and lo >= 0:
                        return FALSE
                    if hi is not None and hi < 0:
                        return TRUE
                g = abs(P.lin().t[0][1])
                P = pscale(P, _fr(1, g))
                return BV(('b', 'flt', P))
            if p == 'lt':
                return lt(d)
            if p == 'gt':
                return lt(-d)
            if p == 'le':
                return NOT(lt(-d))
            if p == 'ge':
                return NOT(lt(d))
            if p in ('eq', 'ne'):
                if c is not None:
                    r = TRUE if c == 0 else FALSE
                else:
                    if d.lin().t[0][1] < 0:
                        d = -d
                    r = BV(('b', 'feq', d))
                return r if p == 'eq' else NOT(r)
            if pred == 'ord':
                return TRUE
            if pred == 'uno':
                return FALSE
            return BV(('b', 'fcmp', pred, d))
        if self.fchoice and (a.var is not None or b.var is not None):
            rs = {f(x, y) for x in leafvals(a) for y in leafvals(b)}
            if len(rs) == 1 and next(iter(rs)).var is None:
                return next(iter(rs))
            return BV(('b', 'fchoice', self.uniq('fchoice')))
        return map2(f, a, b)

    def cast(self, op, v, src, dst):
        if op in ('sext', 'zext'):
            if src.k == 'int' and src.a == 1:
                one = C(1) if op == 'zext' else C(-1)
                return map1(lambda b: one if b is True else (ZERO if b is False else b), v)
            return v
        if op == 'trunc':
            if dst.k == 'int' and dst.a == 1:
                def f(x):
                    if isinstance(x, Poly):
                        c = x.const()
                        if c is not None:
                            return TRUE if c & 1 else FALSE
                        return NOT(eq0(x))
                    if isinstance(x, Undef):
                        return BV(('b', 'undefcmp', x.what, 'trunc', ''))
                    return TRUE if x else FALSE
                return map1(f, v)
            if self.recording:
                self.emit('trunc', None, [v], src=src.a, dst=dst.a)
            return v
        if op in ('bitcast', 'sitofp', 'uitofp', 'fpext'):
            if src.k == 'int' and src.a == 1:
                return map1(lambda b: ONE if b is True else ZERO, v)
            return v
        if op == 'fptrunc':
            if self.recording:
                self.emit('fptrunc', None, [v])
            return v
        if op in ('fptosi', 'fptoui'):
            def f(x):
                if isinstance(x, Poly):
                    c = x.const()
                    if c is not None:
                        return C(int(c))
                    return A(('fptosi', x))
                return x
            return map1(f, v)
        if op == 'ptrtoint':
            return map1(lambda x: self.aspoly(x) if not isinstance(x, Undef) else x, v)
        if op == 'inttoptr':
            def f(x):
                if isinstance(x, Poly):
                    if not x.t:
                        return NULL
                    for m, c in x.t:
                        if len(m) == 1 and c == 1 and atom_key(m[0])[0] == 'addr':
                            return Ptr(atom_key(m[0])[1], x - Poly((((m[0],), 1),)))
                    a = x.single_atom()
                    if a is not None:
                        return Ptr(deref_obj(a), ZERO)
                return x
            return map1(f, v)
        raise AnalysisError('cast ' + op)

    # ------------------------------------------------------------ execution
    def run(self, fn, args, mem=None, cond=TRUE):
        """analyse entry function; args: list of DD values.  returns (ret, mem, alive)"""
        if mem is None:
            mem = Mem()
        self.localcond = cond
        return self.call_function(fn, args, mem, cond)

    def call_function(self, fn, args, mem, cond):
        q = self.prog.qname(fn)
        if len(self.callstack) > 60:
            raise AnalysisError('call depth')
        fr = Frame()
        fr.f = fn
        fr.mod = fn.module
        fr.cfg = self.prog.cfg(fn)
        fr.layout = self.prog.layout[fn.module]
        fr.env = {}
        self.functions_analysed.add(q)
        for (t, n), a in zip(fn.params, args):
            fr.env[n] = a
        if len(args) < len(fn.params):
            raise AnalysisError('arity of ' + fn.name)
        save = (self.curloc, self.curfn, self.localcond)
        self.callstack.append(q)
        self.curfn = q
        rets, exits, back = self.region(fr, None, fr.cfg.entry, [Edge(None, fr.cfg.entry, cond, mem)])
        self.callstack.pop()
        self.curloc, self.curfn, self.localcond = save
        if not rets:
            return None, mem, FALSE
        total, m, guards = self.merge_mems([Edge(None, None, c, mm) for c, mm, v in rets])
        ret = None
        if rets[0][2] is not None:
            ret = rets[-1][2]
            for g, (c, mm, v) in zip(guards[-2::-1], rets[-2::-1]):
                ret = ite(g, v, ret)
        return ret, m, total

    def region(self, fr, loop, entry, in_edges, header_phis=None, cont_mode=None):
        """process the acyclic part of a loop body (or function).  returns rets, exit edges, back edges"""
        cfg = fr.cfg
        blocks = loop.body if loop is not None else None
        incoming = {entry: list(in_edges)}
        rets, exits, back = [], [], []

        def push(e):
            if loop is not None:
                if e.dst == loop.header:
                    back.append(e)
                    return
                if e.dst not in blocks:
                    exits.append(e)
                    return
            incoming.setdefault(e.dst, []).append(e)

        skip = set()
        for b in cfg.rpo:
            if blocks is not None and b not in blocks:
                continue
            if b in skip:
                continue
            es = incoming.get(b)
            if not es:
                continue
            es = [e for e in es if e.cond is not FALSE]
            if not es:
                continue
            inner = cfg.loops.get(b)
            if inner is not None and inner is not loop:
                self.exec_loop(fr, inner, es, push, rets)
                skip |= inner.body
                continue
            cond, mem, guards = self.merge_mems(es)
            phis = header_phis if (loop is not None and b == loop.header) else None
            self.block(fr, loop, b, es, guards, cond, mem, phis, push, rets, cont_mode)
        return rets, exits, back

    def phi_value(self, fr, ins, es, guards):
        vals = []
        for e in es:
            op = None
            for v, bl in ins.x:
                if bl == e.src:
                    op = v
                    break
            if op is None:
                raise AnalysisError('phi %s' % ins.text)
            if e.env is not None:
                keep, fr.env = fr.env, e.env
                v = self.val(fr, op)
                fr.env = keep
            else:
                v = self.val(fr, op)
            if e.sub is not None:
                v = e.sub.dd(v)
            vals.append(v)
        v = vals[-1]
        for g, x in zip(guards[-2::-1], vals[-2::-1]):
            v = ite(g, x, v)
        return v

    def block(self, fr, loop, bname, es, guards, cond, mem, phis, push, rets, cont_mode):
        b = fr.f.blocks[bname]
        newphis = {}
        for ins in b.instrs:
            if ins.op != 'phi':
                break
            if phis is not None:
                newphis[ins.res] = phis[ins.res]
            else:
                newphis[ins.res] = self.phi_value(fr, ins, es, guards)
        fr.env.update(newphis)
        dbg = self.prog.debug[fr.mod]
        for ins in b.instrs:
            op = ins.op
            if op == 'phi':
                continue
            self.instrs += 1
            if ins.dbg is not None:
                self.curloc_id = ins.dbg
                l = dbg.loc(ins.dbg)
                if l:
                    self.curloc = l
            self.curfn = self.callstack[-1] if self.callstack else None
            self.localcond = cond
            if op == 'br':
                if len(ins.x) == 1:
                    push(Edge(bname, ins.x[0], cond, mem))
                else:
                    c = self.val(fr, ins.ops[0])
                    c = self.tobool(c)
                    if self.recording:
                        self.note_branch(c, cond, ins)
                    if ins.x[0] == ins.x[1]:
                        push(Edge(bname, ins.x[0], cond, mem))
                        return
                    ct, cf = AND(cond, c), AND(cond, NOT(c))
                    if cont_mode is not None and loop is not None and bname == cont_mode:
                        self.looptest[loop.header] = c if ins.x[0] in loop.body else NOT(c)
                        # the loop's own exit test: inside the body it holds by construction
                        t_in = ins.x[0] in loop.body
                        f_in = ins.x[1] in loop.body
                        if t_in != f_in:
                            if t_in:
                                ct = cond
                                # exit edge keeps the test
                            else:
                                cf = cond
                            push(Edge(bname, ins.x[0], ct if t_in else AND(cond, c), mem))
                            push(Edge(bname, ins.x[1], cf if f_in else AND(cond, NOT(c)), mem.copy()))
                            return
                    push(Edge(bname, ins.x[0], ct, mem))
                    push(Edge(bname, ins.x[1], cf, mem.copy()))
                return
            if op == 'switch':
                v = self.val(fr, ins.ops[0])
                rest = cond
                bydst = {}
                for cv, dst in ins.x[1]:
                    t = self.icmp('eq', v, self.val(fr, cv), cv.t)
                    bydst[dst] = OR(bydst.get(dst, FALSE), AND(rest, t))
                    rest = AND(rest, NOT(t))
                bydst[ins.x[0]] = OR(bydst.get(ins.x[0], FALSE), rest)
                for dst, c in bydst.items():
                    push(Edge(bname, dst, c, mem.copy()))
                return
            if op == 'ret':
                v = self.val(fr, ins.ops[0]) if ins.ops else None
                rets.append((cond, mem, v))
                return
            if op == 'unreachable':
                return
            if op == 'call' or op == 'invoke':
                r, mem, alive = self.call(fr, ins, mem, cond)
                if ins.res is not None:
                    fr.env[ins.res] = r if r is not None else leaf(Undef('void'))
                cond = AND(cond, alive)
                if cond is FALSE:
                    return
                continue
            self.simple(fr, ins, mem)
        raise AnalysisError('block without terminator')

    def note_branch(self, c, cond, ins):
        for v in c.sup:
            k = var_key(v)
            if k[0] == 'b' and k[1] == 'undefcmp':
                self.emit('undefbranch', k[2], [c])
                break

    def tobool(self, v):
        def f(x):
            if x is True or x is False:
                return leaf(x)
            if isinstance(x, Poly):
                return NOT(eq0(x))
            if isinstance(x, Undef):
                return BV(('b', 'undefcmp', x.what, 'bool', ''))
            return BV(('b', 'tobool', str(x)))
        return map1(f, v)

    def simple(self, fr, ins, mem):
        op = ins.op
        env = fr.env
        if op == 'load':
            env[ins.res] = self.load(mem, self.val(fr, ins.ops[0]), ins.ty, fr.layout.size_align(ins.ty)[0])
        elif op == 'store':
            self.store(mem, self.val(fr, ins.ops[1]), self.val(fr, ins.ops[0]),
                       fr.layout.size_align(ins.ops[0].t)[0])
        elif op == 'getelementptr':
            env[ins.res] = self.gep(fr.mod, ins.x, self.val(fr, ins.ops[0]),
                                    [self.val(fr, o) for o in ins.ops[1:]])
        elif op in ir.BINOPS:
            env[ins.res] = self.binop(op, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]), ins.ty)
            if self.narrow is not None and self.recording and ins.ty.k == 'int' and ins.ty.a <= 32 and op in ('mul', 'add', 'sub', 'shl'):
                self.narrow.append((op, env[ins.res], ins.ty.a, self.curloc, self.curfn, self.abscond()))
        elif op == 'fneg':
            env[ins.res] = map1(lambda x: -x if isinstance(x, Poly) else x, self.val(fr, ins.ops[0]))
        elif op == 'icmp':
            env[ins.res] = self.icmp(ins.x, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]), ins.ops[0].t)
        elif op == 'fcmp':
            env[ins.res] = self.fcmp(ins.x, self.val(fr, ins.ops[0]), self.val(fr, ins.ops[1]))
        elif op in ir.CASTS:
            env[ins.res] = self.cast(op, self.val(fr, ins.ops[0]), ins.ops[0].t, ins.ty)
            if self.narrow is not None and self.recording and ins.ty.k == 'int' and ins.ty.a <= 32 and op in ('trunc', 'fptosi', 'fptoui'):
                self.narrow.append((op, env[ins.res], ins.ty.a, self.curloc, self.curfn, self.abscond()))
        elif op == 'select':
            c = self.tobool(self.val(fr, ins.ops[0]))
            env[ins.res] = ite(c, self.val(fr, ins.ops[1]), self.val(fr, ins.ops[2]))
        elif op == 'alloca':
            o = Obj('%s.%s' % (fr.f.name if False else self.callstack[-1], ins.res), 'stack', 'undef')
            sz = fr.layout.size_align(ins.x)[0]
            o.size = C(sz)
            env[ins.res] = leaf(Ptr(o, ZERO))
        elif op == 'freeze':
            env[ins.res] = self.val(fr, ins.ops[0])
        elif op == 'extractvalue':
            i = ins.x[0]
            env[ins.res] = map1(lambda v: v.vals[i] if isinstance(v, Agg) and i < len(v.vals)
                                else leaf(A(('agg', fresh('agg')))), self.val(fr, ins.ops[0]))
        elif op in ('insertvalue', 'vecop'):
            env[ins.res] = leaf(A(('agg', fresh('agg'))))
        else:
            raise AnalysisError('op ' + op)

    # ------------------------------------------------------------ calls
    def call(self, fr, ins, mem, cond):
        cal = self.val(fr, ins.x) if ins.x.k != 'global' else None
        args = [self.val(fr, o) for o in ins.ops]
        if cal is None:
            fn = self.prog.lookup(fr.mod, ins.x.v)
            return self.dispatch(ins.x.v, fn, args, mem, cond, ins)
        ls = leaves(simplify(cal, cond))
        if len(ls) == 1 and isinstance(ls[0][1], Fn):
            key = ls[0][1].name
            return self.dispatch(key, self.fn_by_key(key), args, mem, cond, ins)
        outs = []
        for g, v in ls:
            c = AND(cond, g)
            if c is FALSE:
                continue
            self.localcond = c
            if isinstance(v, Fn):
                outs.append((c,) + tuple(self.dispatch(v.name, self.fn_by_key(v.name), args, mem.copy(), c, ins)))
            else:
                self.emit('icall', str(v), args, target=v)
                outs.append((c, self.opaque_ret('icall', ins.ty), mem.copy(), c))
        self.localcond = cond
        outs = [o for o in outs if o[3] is not FALSE]
        if not outs:
            return None, mem, FALSE
        total, m, guards = self.merge_mems([Edge(None, None, AND(o[0], o[3]), o[2]) for o in outs])
        ret = outs[-1][1]
        if ret is not None:
            for g, o in zip(guards[-2::-1], outs[-2::-1]):
                ret = ite(g, o[1], ret)
        return ret, m, total

    def opaque_ret(self, name, ty, key=None):
        if ty is None or ty.k == 'void':
            return None
        aid = atom_id(('ret', name, key if key is not None else fresh(name)))
        if ty.k == 'ptr':
            return leaf(Ptr(deref_obj(aid), ZERO))
        p = Poly((((aid,), 1),))
        if ty.k == 'int' and ty.a == 1:
            return NOT(eq0(p))
        return leaf(p)

    def dispatch(self, name, fn, args, mem, cond, ins):
        q = self.prog.qname(fn) if fn is not None else name
        model = self.models.get(q) or self.models.get(name)
        if model is None and fn is None:
            model = self.models.get(ext_name(name))
        if model is not None:
            r = model(self, q, args, mem, cond, ins)
            if r is NotImplemented:
                model = None
            else:
                if r is None:
                    r = (None, TRUE)
                ret, alive = r
                if ret is None and ins.ty is not None and ins.ty.k != 'void':
                    ret = self.opaque_ret(q, ins.ty)
                return ret, mem, alive
        if fn is None:
            if name.startswith('llvm.'):
                if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.stack', 'llvm.assume')):
                    return self.opaque_ret(name, ins.ty), mem, TRUE
            return self.external(name, args, mem, cond, ins), mem, TRUE
        if self.callstack.count(q) > self.recurse:
            self.emit('recursive', q, args)
            return self.opaque_ret(q, ins.ty), mem, TRUE
        save = (self.curloc, self.curfn)
        ret, m, alive = self.call_function(fn, args, mem, cond)
        self.curloc, self.curfn = save
        self.localcond = cond
        return ret, m, alive

    def external(self, name, args, mem, cond, ins):
        name = ext_name(name)
        if name in PURE:
            r = self.pure(name, args, ins)
            return r
        ret = self.opaque_ret(name, ins.ty)
        self.emit('call', name, args, ret=ret)
        return ret

    def pure(self, name, args, ins):
        def pack(*vals):
            if any(isinstance(v, Undef) for v in vals):
                return Undef('pure')
            ps = tuple(self.aspoly(v) for v in vals)
            return A(('fn_' + name,) + ps)
        if len(args) == 1:
            return map1(pack, args[0])
        if len(args) == 2:
            return map2(pack, args[0], args[1])
        return self.opaque_ret(name, ins.ty)

    # ------------------------------------------------------------ loops
    def try_unroll(self, fr, loop, phis, inits, cond0, mem0, push, rets):
        """execute a loop whose bound is a constant iteration by iteration; False when it is not of that kind"""
        save = (len(self.events), dict(self.ctr), dict(fr.env), self.localcond, self.instrs)
        xblocks = [b for b in loop.body if any(s not in loop.body for s in fr.f.blocks[b].succs)]
        out, rr = [], []
        cond, mem, hp = cond0, mem0.copy(), dict(inits)
        for n in range(self.unroll + 1):
            if n == self.unroll:
                break
            r2, exits, back = self.region(fr, loop, loop.header, [Edge(None, loop.header, cond, mem)], header_phis=hp)
            exits = [e for e in exits if e.cond is not FALSE]
            back = [e for e in back if e.cond is not FALSE]
            if back and {e.src for e in exits} >= set(xblocks):
                break
            env = dict(fr.env)
            for e in exits:
                if e.env is None:
                    e.env = env
            out += exits
            rr += r2
            if not back:
                for e in out:
                    push(e)
                rets.extend(rr)
                self.loops_analysed += 1 if self.recording else 0
                return True
            cond, mem, bg = self.merge_mems(back)
            hp = {i.res: self.phi_value(fr, i, back, bg) for i in phis}
        del self.events[save[0]:]
        self.ctr, fr.env, self.localcond, self.instrs = save[1], save[2], save[3], save[4]
        return False

    def exec_loop(self, fr, loop, in_edges, push, rets):
        cfg = fr.cfg
        cond0, mem0, guards = self.merge_mems(in_edges)
        hdr = fr.f.blocks[loop.header]
        phis = [i for i in hdr.instrs if i.op == 'phi']
        inits = {}
        for ins in phis:
            inits[ins.res] = self.phi_value(fr, ins, in_edges, guards)
        if self.unroll and self.try_unroll(fr, loop, phis, inits, cond0, mem0, push, rets):
            return
        ctx = AND(self.abscond(), cond0)
        if ctx is not TRUE and ctx is not FALSE:
            for k, v in inits.items():
                if v.var is not None and any(isinstance(x, (Ptr, Undef)) for x in leafvals(v)):
                    inits[k] = simplify(v, ctx)
        depth = self.depth
        self.depth += 1
        K = A(('K', depth))
        katom = K.single_atom()
        saved_rec = self.recording
        saved_events = self.events
        self.recording = False
        save_local = self.localcond
        self.condstack.append(cond0)
        save_ctr = dict(self.ctr)
        # which exits
        exit_blocks = [b for b in cfg.rpo if b in loop.body and
                       any(s not in loop.body for s in fr.f.blocks[b].succs)]
        cont_mode = None
        kind = 'multi'
        if len(exit_blocks) == 1:
            xb = exit_blocks[0]
            if xb == loop.header:
                kind = 'header'
                cont_mode = xb
            elif len(loop.latches) == 1 and xb == loop.latches[0]:
                kind = 'latch'
            elif self._pre_header_pure(fr, loop, xb):
                kind = 'header'
                cont_mode = xb
            else:
                kind = 'mid'

        # variables: ('phi', name) or ('cell', obj, off, size)
        vals = {}            # var -> current DD value at header
        init = {}
        for ins in phis:
            init[('phi', ins.res)] = inits[ins.res]
        wild = {}            # obj -> list of (off,size) written at variant offsets
        status = {}
        tyof = {}

        def opaque_for(var, n):
            i0 = init[var]
            if i0.var is None and isinstance(i0.val, Ptr) and i0.val.obj is not None and status.get(var) != 'optr':
                return leaf(Ptr(i0.val.obj, i0.val.off + A(('X', depth, n))))
            vs = leafvals(i0)
            if any(isinstance(v, (Ptr, Fn)) for v in vs) or status.get(var) == 'optr':
                aid = atom_id(('XP', depth, n))
                return leaf(Ptr(deref_obj(aid), ZERO))
            if vs and all(v is True or v is False for v in vs):
                return BV(('b', 'XB', depth, n))
            return leaf(A(('X', depth, n)))

        order = list(init)
        cells = []

        def header_mem():
            m = mem0.copy()
            for o, ws in wild.items():
                st = m.own(o)
                drop = [k for k, (v, s) in st.cells.items()
                        if any(self.may_alias(k, s, w[0], w[1]) for w in ws)]
                for k in drop:
                    del st.cells[k]
                st.sums = tuple(sm for sm in st.sums
                                if not any(self.may_alias(sm.off, sm.size, w[0], w[1]) for w in ws))
                st.ver = ('h', depth, wildver)
                st.epoch = st.ver
                st.wrote = True
                if st.default != 'const':
                    st.default = 'sym'
            for var in cells:
                _, o, off, size = var
                st = m.own(o)
                st.cells[off] = (vals[var], size)
            for o, c in freed_h.items():
                st = m.own(o)
                st.freed = c
            return m

        freed_h = {}
        entry = TRUE
        wildver = fresh('w')
        result = None
        npass = 0
        while True:
            npass += 1
            if npass > 14:
                self.problems.append('loop summary did not stabilise in %s' % fr.f.name)
                break
            for n, var in enumerate(order):
                if status.get(var) in (None, 'opaque', 'optr'):
                    vals[var] = opaque_for(var, n)
            mh = header_mem()
            hp = {v[1]: vals[v] for v in order if v[0] == 'phi'}
            self.ctr = dict(save_ctr)
            self.localcond = TRUE
            r2, exits, back = self.region(fr, loop, loop.header, [Edge(None, loop.header, TRUE, mh)],
                                          header_phis=hp, cont_mode=cont_mode)
            if not back:
                break          # body never completes an iteration
            bc, bm, bg = self.merge_mems(back)
            # modified memory
            changed = False
            for o, st in bm.d.items():
                hst = mh.d.get(o)
                if st is hst:
                    continue
                if o not in mh.d and o.kind == 'stack' and o not in mem0.d:
                    continue
                if o not in mem0.d and o.kind == 'heap':
                    continue      # allocated in this iteration
                hcells = hst.cells if hst is not None else {}
                for k, (v, s) in st.cells.items():
                    h = hcells.get(k)
                    if h is not None and h[0] is v:
                        continue
                    at = dd_atoms(leaf(k))
                    variant = any(atom_key(a)[0] in ('X', 'K', 'rec', 'XP') and
                                  (atom_key(a)[1] >= depth if atom_key(a)[0] != 'rec' else atom_key(a)[1] >= depth)
                                  for a in at)
                    if variant:
                        w = wild.setdefault(o, [])
                        # generalise offsets in later comparisons: treat X/K as the variable itself
                        if (k, s) not in w:
                            if len(w) < 40:
                                w.append((k, s))
                                changed = True
                    else:
                        var = ('cell', o, k, s)
                        if var not in init:
                            ty = self._ty_of(v)
                            c0 = mem0.get(o).cells.get(k)
                            init[var] = c0[0] if c0 is not None and c0[1] == s else self.read1(mem0, o, k, s, ty)
                            order.append(var)
                            cells.append(var)
                            changed = True
                if hst is not None and st.ver != hst.ver and o not in wild:
                    wild[o] = [(A(('K', 99)), 1)]
                    changed = True
                hf = hst.freed if hst is not None else FALSE
                if st.freed is not hf:
                    freed_h[o] = OR(hf, BV(('b', 'freedin', o, depth)))
                    if hf is not freed_h[o]:
                        changed = True
            if changed:
                # keep classifications, but they must be revalidated
                for v in list(status):
                    if status[v] in ('iv', 'inv', 'wrap'):
                        status[v] = None
                continue
            # next values
            nxt = {}
            for var in order:
                if var[0] == 'phi':
                    ins = next(i for i in phis if i.res == var[1])
                    nxt[var] = self.phi_value(fr, ins, back, bg)
                else:
                    st = bm.d[var[1]]
                    nxt[var] = st.cells[var[2]][0]
            newly = False
            for n, var in enumerate(order):
                if status.get(var) in ('iv', 'inv', 'wrap'):
                    continue
                x = vals[var]
                nv = simplify(nxt[var], bc)
                if nv is x:
                    status[var] = 'inv'
                    vals[var] = init[var]
                    newly = True
                    continue
                cl = self.closed_form(x, nv, init[var], depth, n, K)
                if cl is not None:
                    status[var] = 'iv'
                    vals[var] = cl
                    newly = True
                    continue
                if status.get(var) == 'opaque' or status.get(var) == 'optr':
                    continue
                if status.get(var) is None and x.var is None and isinstance(x.val, Ptr) and x.val.obj is not None \
                        and x.val.obj.kind != 'deref':
                    # pointer whose object may change
                    lv = leafvals(nv)
                    if any(not isinstance(v, Ptr) or v.obj is not x.val.obj for v in lv):
                        status[var] = 'optr'
                        newly = True
            if newly:
                continue
            # the test of the first iteration holds in every iteration
            if cont_mode is not None and entry is TRUE and loop.header in self.looptest:
                c0 = Subst({katom: ZERO}).dd(self.looptest[loop.header])
                if c0 is not TRUE and c0 is not FALSE and self.invariant(c0, depth) and AND(cond0, c0) is not FALSE:
                    entry = c0
                    self.condstack[-1] = AND(cond0, entry)
                    for v in list(status):
                        status[v] = None
                    continue
            # verify closed forms: next(K) == value(K+1)
            bad = False
            s1 = Subst({katom: K + 1})
            for var in order:
                if status.get(var) in ('iv', 'inv', 'wrap'):
                    want = s1.dd(vals[var])
                    got = simplify(nxt[var], bc)
                    if got is not want and simplify(want, bc) is not got:
                        if not self._eq_wrap(got, want, K):
                            status[var] = 'opaque'
                            bad = True
            if bad:
                continue
            result = (exits, back, bc, bm, nxt, mh)
            break
        # canonical recurrence atoms for what stayed opaque
        recmap = {}
        recinfo = []
        if result is not None:
            exits, back, bc, bm, nxt, mh = result
            for n, var in enumerate(order):
                if status.get(var) in (None, 'opaque', 'optr'):
                    key = self.rec_key(var, order, vals, init, nxt, status, depth, bc)
                    ra = ('rec', depth, key)
                    x = vals[var]
                    if x.var is None and isinstance(x.val, Poly):
                        a = atom_id(ra)
                        recmap[x.val.single_atom()] = Poly((((a,), 1),))
                        self.recs[a] = {'init': init[var], 'next': nxt[var], 'x': x, 'depth': depth,
                                        'guard': bc, 'var': var}
                        if is_nonneg_dd(init[var]) and self._nondecreasing(x, nxt[var]):
                            TM.NONNEG.add(a)
                        vals[var] = leaf(Poly((((a,), 1),)))
                        status[var] = 'rec'
                        recinfo.append((a, var))
                    elif x.var is None and isinstance(x.val, Ptr) and x.val.obj is not None and \
                            x.val.obj.kind != 'deref':
                        a = atom_id(ra)
                        xa = (x.val.off - init[var].val.off).single_atom()
                        recmap[xa] = Poly((((a,), 1),))
                        self.recs[a] = {'init': init[var], 'next': nxt[var], 'x': x, 'depth': depth,
                                        'guard': bc, 'var': var}
                        vals[var] = leaf(Ptr(x.val.obj, init[var].val.off + Poly((((a,), 1),))))
                        status[var] = 'rec'
                        recinfo.append((a, var))
                    elif x.var is None and isinstance(x.val, Ptr):
                        a = atom_id(ra)
                        self.recs[a] = {'init': init[var], 'next': nxt[var], 'x': x, 'depth': depth,
                                        'guard': bc, 'var': var}
                        vals[var] = leaf(Ptr(deref_obj(a), ZERO))
                        status[var] = 'rec'
                        recinfo.append((a, var))
                    else:
                        bvk = ('b', 'rec', depth, key)
                        vals[var] = BV(bvk)
                        status[var] = 'rec'
                        recinfo.append((bvk, var))
            sx = Subst(recmap)
            for a, var in recinfo:
                if a in self.recs:
                    r = self.recs[a]
                    r['next'] = sx.dd(r['next'])
                    r['guard'] = sx.dd(r['guard'])
                    r['x'] = vals[var]
            if wild:
                # variant offsets recorded with X atoms -> rec atoms
                for o in list(wild):
                    for k, s in wild[o]:
                        k2 = sx.poly(k)
                        if k in self.bounds and k2 not in self.bounds:
                            self.bounds[k2] = self.bounds[k]
                    wild[o] = [(sx.poly(k), s) for k, s in wild[o]]
        # final (recording) pass
        self.recording = saved_rec
        self.events = []
        self.ctr = dict(save_ctr)
        self.localcond = TRUE
        mh = header_mem()
        hp = {v[1]: vals[v] for v in order if v[0] == 'phi'}
        r2, exits, back = self.region(fr, loop, loop.header, [Edge(None, loop.header, TRUE, mh)],
                                      header_phis=hp, cont_mode=cont_mode)
        body_events = self.events
        self.events = saved_events
        bm = None
        bc = FALSE
        if back:
            bc, bm, bg = self.merge_mems(back)
        if self.recording:
            self.loops_analysed += 1
        # trip count
        T = None
        cc = None
        if kind in ('header', 'latch') and exits:
            ex = OR(*[e.cond for e in exits])
            cc = NOT(ex)
            t = self.solve_trip(cc, katom)
            if t is not None:
                T = t if kind == 'header' else t + 1
                if kind == 'header':
                    T = pmax(ZERO, T) if not is_nonneg(T) else T
                else:
                    T = pmax(ONE, T) if not is_nonneg(T - 1) else T
        exact = T is not None
        if T is None:
            # same exit conditions, same trip count
            ds = [cc] if cc is not None else [e.cond for e in exits]
            at = {atom_key(a) for d in ds for a in dd_atoms(d)}
            key = ('cc' if cc is not None else kind,) + tuple(d.id for d in ds) if ds else fresh('trip')
            T = A(('trip', depth, key) + tuple(A(('K', d)) for d in range(depth) if ('K', d) in at or not ds))
            TM.NONNEG.add(T.single_atom())
            self.tripconds[T.single_atom()] = ds
        # value of K on the exit edge
        kx = T
        if kind == 'latch':
            kx = T - 1
        submap = {katom: kx}
        for a, var in recinfo:
            if isinstance(a, int):
                fa = A(('final', atom_key(a), kx))
                if a in TM.NONNEG:
                    TM.NONNEG.add(fa.single_atom())
                submap[a] = fa
                self.recs[fa.single_atom()] = {'rec': a, 'T': kx}
        sub = Subst(submap)
        self.depth = depth
        self.condstack.pop()
        self.localcond = save_local
        if self.recording:
            ev = Event('loop', None, (), cond0, self.curloc, self.callstack[-1] if self.callstack else None)
            ev.body = body_events
            ev.T = leaf(T)
            if not exact and cc is not None:
                ev.T = self.trip_dd(cc, katom, kind, T)
            ev.depth = depth
            ev.info = {'exact': exact, 'tatom': T.single_atom(), 'kind': kind, 'recs': [a for a, _ in recinfo],
                       'vars': [(v, vals[v], init[v], status.get(v)) for v in order],
                       'exits': len(exits), 'exitconds': [e.cond for e in exits], 'cc': cc, 'header': fr.f.blocks[loop.header].name,
                       'fr': self.callstack[-1] if self.callstack else None}
            l = None
            for i in hdr.instrs:
                l = l or self.prog.debug[fr.mod].loc(i.dbg)
            if l:
                ev.loc = l
            if body_events or True:
                self.events.append(ev)
        # exit edges
        def conv_mem(m, e_kind):
            out = Mem()
            for o, st in m.d.items():
                h0 = mem0.d.get(o)
                if st is h0:
                    out.d[o] = st
                    continue
                if o.kind == 'stack' and o not in mem0.d and False:
                    continue
                n = OS(st.default)
                n.ver = st.ver
                n.epoch = fresh('x')
                n.wrote = st.wrote
                n.sums = st.sums
                n.freed = sub.dd(st.freed)
                for k, (v, s) in st.cells.items():
                    at = dd_atoms(leaf(k))
                    if any((atom_key(a)[0] == 'K' and atom_key(a)[1] == depth) or
                           (atom_key(a)[0] == 'rec' and atom_key(a)[1] == depth) for a in at):
                        k2 = sub.poly(k)
                        n.cells[k2] = (sub.dd(v), s)
                    else:
                        n.cells[k] = (sub.dd(v), s)
                if bm is not None and e_kind == 'header':
                    bst = bm.d.get(o)
                    if bst is not None and o in wild:
                        add = []
                        for k, (v, s) in bst.cells.items():
                            at = dd_atoms(leaf(k))
                            if any((atom_key(a)[0] == 'K' and atom_key(a)[1] == depth) for a in at):
                                add.append(Sum(k, s, v, TRUE, depth, T))
                        if add:
                            n.sums = n.sums + tuple(add)
                out.d[o] = n
            return out

        if kind == 'latch' or kind == 'multi' or kind == 'mid':
            pass
        single = len(exits) == 1 and kind in ('header', 'latch')
        for e in exits:
            if single:
                c = cond0
            else:
                c = AND(cond0, sub.dd(e.cond))
            ek = kind
            m = conv_mem(e.mem, ek)
            ne = Edge(e.src, e.dst, c, m, sub if e.sub is None else Compose(e.sub, sub), e.env)
            push(ne)
        if not single and len(exits) > 1:
            pass
        for c, m, v in r2:
            rets.append((AND(cond0, sub.dd(c)), conv_mem(m, kind), sub.dd(v) if v is not None else None))

    def _pre_header_pure(self, fr, loop, xb):
        """exit test sits in a block reached unconditionally from the header through side-effect free blocks"""
        b = loop.header
        seen = set()
        while b != xb:
            if b in seen:
                return False
            seen.add(b)
            bl = fr.f.blocks[b]
            if any(i.op in ('store', 'call') for i in bl.instrs):
                return False
            if len(bl.succs) != 1:
                return False
            b = bl.succs[0]
        return not any(i.op in ('store', 'call') for i in fr.f.blocks[xb].instrs)

    def _nondecreasing(self, x, nxt):
        if not (x.var is None and isinstance(x.val, Poly)):
            return False
        for v in leafvals(nxt):
            if not isinstance(v, Poly):
                return False
            if not is_nonneg(v - x.val):
                if not is_nonneg(v):
                    return False
        return True

    def _eq_wrap(self, got, want, K):
        """mod recurrences: got is ite(x+1==N,0,x+1) with x = imod(i+K,N), want imod(i+K+1,N)"""
        if want.var is None and isinstance(want.val, Poly):
            a = want.val.single_atom()
            if a is not None and atom_key(a)[0] == 'imod':
                N = atom_key(a)[2]
                p = atom_key(a)[1]
                x = imod(p - 1, N)
                w = ite(eq0(x + 1 - N), leaf(ZERO), leaf(x + 1))
                if w is got:
                    return True
                w = ite(le0(N - x - 1), leaf(ZERO), leaf(x + 1))
                if w is got:
                    return True
                w = leaf(imod(x + 1, N))
                if w is got:
                    return True
        return False

    def closed_form(self, x, nv, init, depth, n, K):
        """x: value of the variable at the header; nv: value at the latch"""
        if x.var is not None:
            return None
        xv = x.val
        if isinstance(xv, Poly):
            xa = xv.single_atom()
            if xa is None or atom_key(xa)[0] != 'X':
                return None
            if nv.var is None and isinstance(nv.val, Poly):
                step = nv.val - xv
                if self.invariant(leaf(step), depth):
                    return map1(lambda v: v + step * K if isinstance(v, Poly) else v, init)
                # geometric etc: not closed
                a = nv.val.single_atom()
                if a is not None and atom_key(a)[0] == 'imod':
                    p, N = atom_key(a)[1], atom_key(a)[2]
                    d = p - xv
                    if d.const() is not None and self.invariant(leaf(N), depth):
                        if init.var is None and isinstance(init.val, Poly):
                            return leaf(imod(init.val + d * K, N))
                return None
            # wrap around
            if nv.var is not None and nv.hi.var is None and nv.lo.var is None:
                kv = var_key(nv.var)
                if kv[0] in ('eq', 'le'):
                    for z, o, neg in ((nv.hi, nv.lo, False), (nv.lo, nv.hi, True)):
                        if isinstance(z.val, Poly) and z.val.const() == 0 and isinstance(o.val, Poly) \
                                and (o.val - xv).const() == 1:
                            P = kv[1]
                            N = None
                            if kv[0] == 'eq' and not neg:
                                for sgn in (1, -1):
                                    q = (xv + 1) - P * sgn
                                    if self.invariant(leaf(q), depth):
                                        N = q
                            elif kv[0] == 'le':
                                # N <= x+1   <=>  N - x - 1 <= 0, or negation of x+1-N+1 <= 0
                                q = P + xv + 1 if not neg else (xv + 2) - P
                                if self.invariant(leaf(q), depth):
                                    N = q
                            if N is not None and init.var is None and isinstance(init.val, Poly):
                                return leaf(imod(init.val + K, N))
            return None
        if isinstance(xv, Ptr) and xv.obj is not None and xv.obj.kind != 'deref' or \
                (isinstance(xv, Ptr) and xv.obj is not None and init.var is None and isinstance(init.val, Ptr)
                 and init.val.obj is xv.obj):
            if nv.var is None and isinstance(nv.val, Ptr) and nv.val.obj is xv.obj:
                step = nv.val.off - xv.off
                if self.invariant(leaf(step), depth) and init.var is None and isinstance(init.val, Ptr):
                    return leaf(Ptr(xv.obj, init.val.off + step * K))
        elif isinstance(xv, Ptr) and xv.obj is not None and xv.obj.kind == 'deref' and \
                atom_key(xv.obj.atom)[:2] == ('XP', depth):
            # pointer into one of several blocks, same step in all of them
            if nv.var is None and isinstance(nv.val, Ptr) and nv.val.obj is xv.obj:
                step = nv.val.off - xv.off
                if self.invariant(leaf(step), depth) and self.invariant(init, depth):
                    return map1(lambda v: Ptr(v.obj, v.off + step * K) if isinstance(v, Ptr) else v, init)
        return None

    def invariant(self, d, depth):
        for a in dd_atoms(d):
            k = atom_key(a)
            if k[0] in ('X', 'XP', 'K', 'rec') and k[1] >= depth:
                return False
            if k[0] == 'load' and isinstance(k[3], tuple) and k[3][0] == 'h' and k[3][1] >= depth:
                return False
        return True

    def trip_dd(self, cc, katom, kind, fallback, budget=64):
        """trip count as a guarded value: split on the literals that do not mention the counter"""
        ctr = [budget]

        def wrap(t):
            if t is None:
                return leaf(fallback)
            if kind == 'header':
                return leaf(t if is_nonneg(t) else pmax(ZERO, t))
            t = t + 1
            return leaf(t if is_nonneg(t - 1) else pmax(ONE, t))

        def rec(d):
            ctr[0] -= 1
            if ctr[0] < 0:
                return leaf(fallback)
            if d is FALSE:
                return leaf(ZERO if kind == 'header' else ONE)
            for v in sorted(d.sup):
                k = var_key(v)
                if k[0] in ('le', 'eq') and katom in dd_atoms(leaf(k[1])):
                    continue
                if k[0] not in ('le', 'eq', 'b'):
                    continue
                lit = TM.BVn(v)
                h, l = simplify(d, lit), simplify(d, NOT(lit))
                if v in h.sup or v in l.sup:
                    continue
                return ite(lit, rec(h), rec(l))
            return wrap(self.solve_trip(d, katom))
        return rec(cc)

    def solve_trip(self, cc, katom):
        """number of iterations for which the continue-condition cc(K) holds, from K=0"""
        if cc.var is None:
            return None
        # conjunction of literals that do not mention K may be dropped only if absent
        if not (cc.hi.var is None and cc.lo.var is None):
            return None
        pos = cc.hi is TRUE
        k = var_key(cc.var)
        if k[0] not in ('le', 'eq'):
            return None
        P = k[1]
        coef, rest = lin_in(P, katom)
        if coef is None or not coef.t:
            return None
        c = coef.const()
        if k[0] == 'eq':
            if pos:
                return None
            q = pdiv_exact(-rest, coef)
            return q
        if pos:
            # coef*K + rest <= 0, need coef > 0
            num, den = -rest, coef
        else:
            # coef*K + rest >= 1  -> -coef*K - rest + 1 <= 0
            num, den = rest - 1, -coef
        dc = den.const()
        if dc is None:
            if is_nonneg(den):
                q = pdiv_exact(num + 1, den)    # K < (num+1)/den
                if q is not None:
                    return q
                return A(('idiv', num + den, den))
            return None
        if dc <= 0:
            return None
        if dc == 1:
            return num + 1
        # K <= floor(num/dc): T = floor(num/dc)+1 ; exact when num+dc... try both roundings
        for r in range(dc):
            q = pdiv_exact(num - r, C(dc))
            if q is not None:
                return q + 1
        return A(('idiv', num + dc, C(dc)))

    def rec_key(self, var, order, vals, init, nxt, status, depth, bc):
        """structural key of a recurrence, independent of naming"""
        num = {}
        out = []
        xs = {}
        for n, v in enumerate(order):
            if status.get(v) in (None, 'opaque', 'optr'):
                xs[v] = vals[v]
        atom_of = {}
        for v, x in xs.items():
            for a in dd_atoms(x):
                k = atom_key(a)
                if k[0] in ('X', 'XP') and k[1] == depth:
                    atom_of[a] = v

        work = [var]
        seen = []
        while work:
            v = work.pop(0)
            if v in seen:
                continue
            seen.append(v)
            for a in sorted(dd_atoms(nxt[v])):
                w = atom_of.get(a)
                if w is not None and w not in seen and w not in work:
                    work.append(w)
        m = {}
        for i, v in enumerate(seen):
            for a, w in atom_of.items():
                if w is v:
                    m[a] = A(('self', depth, i))
        s = Subst(m)
        key = tuple((init[v].id, simplify(s.dd(nxt[v]), s.dd(bc)).id) for v in seen)
        return key


def lin_in(P, a):
    coef = ZERO
    rest = ZERO
    for m, c in P.t:
        n = m.count(a)
        if n == 0:
            if any(a in dd_atoms(leaf(Poly((((x,), 1),)))) for x in m):
                return None, None
            rest = rest + mkpoly({m: c})
        elif n == 1:
            mm = list(m)
            mm.remove(a)
            coef = coef + mkpoly({tuple(mm): c})
        else:
            return None, None
    return coef, rest


def int_bounds(P):
    """range of a closed form whose atoms are non-negative 32-bit integers"""
    lo = hi = 0
    for m, c in P.t:
        if not m:
            lo, hi = lo + c, hi + c
            continue
        mn, mx = 1, 1
        for a in m:
            if not TM.atom_nonneg(a):
                return None, None
            mn *= 1 if a in TM.POS else 0
            mx *= 2 ** 31 - 1
        if c > 0:
            lo, hi = lo + c * mn, hi + c * mx
        else:
            lo, hi = lo + c * mx, hi + c * mn
    return lo, hi


class Compose:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def dd(self, d):
        return self.b.dd(self.a.dd(d))


def is_nonneg_dd(d):
    return all(isinstance(v, Poly) and is_nonneg(v) for v in leafvals(d))


def _fr(a, b):
    r = Fraction(a) / Fraction(b)
    return int(r) if r.denominator == 1 else r


def ext_name(name):
    return {'_Znwm': 'operator new', '_Znam': 'operator new[]', '_ZdlPv': 'operator delete',
            '_ZdaPv': 'operator delete[]', '_ZdlPvm': 'operator delete'}.get(name, name)


PURE = {'cos', 'sin', 'sqrt', 'floor', 'ceil', 'pow', 'fabs', 'llvm.fabs.f64', 'cosf', 'sinf', 'sqrtf',
        'llvm.sqrt.f64', 'exp', 'log'}


# ------------------------------------------------------------ models
def m_new(I, q, args, mem, cond, ins):
    """operator new / malloc: fresh heap object (identity = allocation order)"""
    loc = I.curloc
    n = I.uniq('heap')
    site = '%s:%s' % ((loc[0] or '?').split('/')[-1], loc[1]) if loc else '?'
    o = Obj('heap%d@%s' % (n, site), 'heap', 'undef', size=args[0], loc=loc)
    mem.own(o)
    I.emit('alloc', q, [leaf(Ptr(o, ZERO))] + list(args))
    o.meta['how'] = q
    return leaf(Ptr(o, ZERO)), TRUE


def m_free(I, q, args, mem, cond, ins):
    p = args[0]
    I.emit('free', q, args)
    for g, v in leaves(p):
        if isinstance(v, Ptr) and v.obj is not None:
            st = mem.own(v.obj)
            c = AND(I.localcond, g, st.freed)
            if I.recording and c is not FALSE and AND(I.abscond(), c) is not FALSE:
                I.emit('doublefree', q, [leaf(v)], cond=AND(g, st.freed))
            st.freed = OR(st.freed, g)
    return None, TRUE


def m_calloc(I, q, args, mem, cond, ins):
    sz = map2(lambda a, b: a * b if isinstance(a, Poly) and isinstance(b, Poly) else Undef('calloc'),
              args[0], args[1])
    r = m_new(I, q, [sz], mem, cond, ins)
    o = r[0].val.obj
    mem.own(o).default = 'zero'
    return r


def m_posix_memalign(I, q, args, mem, cond, ins):
    """posix_memalign(&p, align, n): stores a fresh object, returns 0 (or fails when I.allocfail)"""
    r = m_new(I, q, [args[2], args[1]], mem, cond, ins)
    if getattr(I, 'allocfail', False):
        f = BV(('b', 'allocfail', r[0].val.obj))
        I.store_quiet(mem, args[0], ite(f, leaf(Undef('memptr after failed posix_memalign')), r[0]), 8)
        return ite(f, leaf(C(12)), leaf(ZERO)), TRUE
    I.store_quiet(mem, args[0], r[0], 8)
    return leaf(ZERO), TRUE


def m_malloc(I, q, args, mem, cond, ins):
    r = m_new(I, q, args, mem, cond, ins)
    if getattr(I, 'allocfail', False):
        f = BV(('b', 'allocfail', r[0].val.obj))
        return ite(f, leaf(NULL), r[0]), TRUE
    return r


def m_realloc(I, q, args, mem, cond, ins):
    r = m_malloc(I, q, [args[1]], mem, cond, ins)
    old = I.under(args[0])
    for v in leafvals(old):
        if isinstance(v, Ptr) and v.obj is not None:
            g = map1(lambda x: TRUE if x is v or x == v else FALSE, old)
            st = mem.own(v.obj)
            st.freed = OR(st.freed, g)
    I.emit('free', 'realloc', [args[0]])
    return r


def m_exit(I, q, args, mem, cond, ins):
    I.emit('exit', q, args)
    return None, FALSE


def m_memcpy(I, q, args, mem, cond, ins):
    dst, src, n = args[0], args[1], args[2]
    I.check_null(dst, 'memcpy')
    I.check_null(src, 'memcpy')
    I.emit('memcpy', q, [dst, src, n])
    for g, v in leaves(dst):
        if not (isinstance(v, Ptr) and v.obj is not None):
            continue
        I.check_freed(mem, v, 'memcpy')
        nv = n.val.const() if n.var is None and isinstance(n.val, Poly) else None
        done = False
        if nv is not None and nv <= I.copylimit and g is TRUE and src.var is None and isinstance(src.val, Ptr) \
                and src.val.obj is not None:
            so, soff = src.val.obj, src.val.off
            sst = mem.get(so)
            offs = [(k, s) for k, (x, s) in sst.cells.items()
                    if (k - soff).const() is not None and 0 <= (k - soff).const() < nv]
            got = set()
            for k, s in offs:
                I.write1(mem, v.obj, v.off + (k - soff), s, sst.cells[k][0], TRUE)
                got.update(range((k - soff).const(), (k - soff).const() + s))
            # remaining words: treat as ints
            for o in range(0, nv, 4):
                if not any(b in got for b in range(o, o + 4)) and nv - o >= 4:
                    if (nv % 8 == 0 and nv // 8 == 1):
                        continue
                    I.write1(mem, v.obj, v.off + o, 4, I.read1(mem, so, soff + o, 4, ir.INT(32)), TRUE)
            done = True
        if not done and v.obj.kind != 'stack' or not done:
            st = mem.own(v.obj)
            st.ver = fresh('mc')
            st.epoch = st.ver
            st.default = 'sym'
            st.wrote = True
            st.cells = {}
            st.sums = ()
    return dst, TRUE


def m_memset(I, q, args, mem, cond, ins):
    dst, val, n = args[0], args[1], args[2]
    I.emit('memset', q, [dst, val, n])
    z = val.var is None and isinstance(val.val, Poly) and val.val.const() == 0
    for g, v in leaves(dst):
        if isinstance(v, Ptr) and v.obj is not None:
            st = mem.own(v.obj)
            st.cells = {}
            st.sums = ()
            st.ver = fresh('ms')
            st.epoch = st.ver
            st.wrote = True
            st.default = 'zero' if z and g is TRUE and not v.off.t else 'sym'
    return dst, TRUE


def _store_quiet(self, mem, p, val, size):
    r = self.recording
    self.recording = False
    self.store(mem, p, val, size)
    self.recording = r


Interp.store_quiet = _store_quiet


def m_comm_rank(I, q, args, mem, cond, ins):
    I.emit('call', q, args)
    I.store_quiet(mem, args[1], leaf(RANK), 4)
    return leaf(ZERO), TRUE


def m_comm_size(I, q, args, mem, cond, ins):
    I.emit('call', q, args)
    I.store_quiet(mem, args[1], leaf(NPROCS), 4)
    return leaf(ZERO), TRUE


RANK = sym('rank', nonneg=True)
NPROCS = sym('nprocs', pos=True)


def m_allreduce(I, q, args, mem, cond, ins):
    """result atom carries the reduced local value and the operation; rank-uniform"""
    src, dst, cnt, dt, op = args[0], args[1], args[2], args[3], args[4]
    sz = dtsize(dt)
    opn = str(op.val) if op.var is None else '?'
    inplace = src.var is None and isinstance(src.val, Poly)       # MPI_IN_PLACE
    n = cnt.val.const() if cnt.var is None and isinstance(cnt.val, Poly) else None
    if n is None or n > 16:
        I.emit('call', 'MPI_Allreduce', args, pairs=[], op=opn)
        for v in leafvals(dst):
            if isinstance(v, Ptr) and v.obj is not None:
                I.havoc(mem, v.obj)
        return leaf(ZERO), TRUE
    pairs = []
    for i in range(int(n)):
        def at(p):
            return map1(lambda v: Ptr(v.obj, v.off + C(i * sz)) if isinstance(v, Ptr) and v.obj is not None else v, p) if i else p
        v = I.load(mem, at(dst if inplace else src), ir.INT(sz * 8), sz)
        u = I.uniq('allreduce')
        r = A(('allreduce', opn, v, u))
        pairs.append((v, r))
        # a global maximum (minimum, sum) bounds the local contribution
        nn = is_nonneg_dd(v)
        if nn:
            TM.NONNEG.add(r.single_atom())

        lv = [x.const() if isinstance(x, Poly) else None for x in leafvals(v)]
        if lv and None not in lv and ('op_max' in opn or 'op_min' in opn):
            I.facts = AND(I.facts, le0(C(min(lv)) - r), le0(r - C(max(lv))))     # every processor contributes one of these
            if min(lv) >= 0:
                TM.NONNEG.add(r.single_atom())
        if 'op_lor' in opn or 'op_land' in opn:
            TM.NONNEG.add(r.single_atom())
            I.facts = AND(I.facts, le0(r - 1))

        def fact(x):
            if not isinstance(x, Poly):
                return TRUE
            if 'op_lor' in opn or 'op_bor' in opn:
                return OR(eq0(x), NOT(eq0(r)))
            if 'op_land' in opn:
                return OR(eq0(r), NOT(eq0(x)))
            if lv and None not in lv and ('op_max' in opn and x.const() == max(lv) or 'op_min' in opn and x.const() == min(lv)):
                return eq0(x - r)                   # the extreme value any processor can contribute
            if 'op_max' in opn or ('op_sum' in opn and nn):
                return le0(x - r)
            if 'op_min' in opn:
                return le0(r - x)
            return TRUE
        I.facts = AND(I.facts, map1(fact, v))
    I.emit('call', 'MPI_Allreduce', args, value=pairs[0][0] if pairs else None, result=pairs[0][1] if pairs else None,
           pairs=pairs, op=opn)
    for i, (v, r) in enumerate(pairs):
        d = map1(lambda p: Ptr(p.obj, p.off + C(i * sz)) if isinstance(p, Ptr) and p.obj is not None else p, dst) if i else dst
        I.store_quiet(mem, d, leaf(r), sz)
    return leaf(ZERO), TRUE


def dtsize(dt):
    s = str(dt.val) if dt.var is None else ''
    for k, n in (('longlong', 8), ('long_long', 8), ('long', 8), ('double', 8), ('float', 4), ('int64', 8), ('int', 4), ('byte', 1), ('char', 1)):
        if k in s:
            return n
    return 4


def m_havoc_out(idx):
    def m(I, q, args, mem, cond, ins):
        I.emit('call', q, args)
        for i in idx:
            for g, v in leaves(args[i]):
                if isinstance(v, Ptr) and v.obj is not None:
                    if v.obj.kind == 'stack' or v.off.t:
                        # scalar out parameter
                        I.store_quiet(mem, leaf(v), leaf(A(('out', q, fresh(q)))), 4)
                    else:
                        I.havoc(mem, v.obj)
        return leaf(ZERO), TRUE
    return m


def m_bcast(I, q, args, mem, cond, ins):
    """the root's value, same on all processors"""
    dst, cnt, sz = args[0], args[1], dtsize(args[2])
    n = cnt.val.const() if cnt.var is None and isinstance(cnt.val, Poly) else None
    if n is None or n > 16:
        I.emit('call', q, args, pairs=[])
        for v in leafvals(dst):
            if isinstance(v, Ptr) and v.obj is not None:
                I.havoc(mem, v.obj)
        return leaf(ZERO), TRUE
    ty = {'double': ir.F64, 'float': ir.F32}.get('double' if 'double' in str(args[2].val) else 'float' if 'float' in str(args[2].val) else '', ir.INT(sz * 8))
    pairs, ps = [], []
    for i in range(int(n)):
        p = map1(lambda v: Ptr(v.obj, v.off + C(i * sz)) if isinstance(v, Ptr) and v.obj is not None else v, dst) if i else dst
        pairs.append((I.load(mem, p, ty, sz), A(('out', 'MPI_Bcast', I.uniq('bcast')))))
        ps.append(p)
    I.emit('call', q, args, pairs=pairs)
    for p, (v, r) in zip(ps, pairs):
        I.store_quiet(mem, p, leaf(r), sz)
    return leaf(ZERO), TRUE


def m_ptr_out(i, size=8):
    """call that stores an opaque handle through argument i"""
    def m(I, q, args, mem, cond, ins):
        n = I.uniq(q)
        o = Obj('%s#%d' % (q, n), 'heap', 'sym')
        o.meta['how'] = q
        e = I.emit('call', q, args, handle=o, out=o)
        v = leaf(Ptr(o, ZERO))
        if q == 'MPI_Comm_create' and getattr(I, 'commnull', None) is not None:
            # a processor outside the group gets MPI_COMM_NULL
            b = BV(('b', 'commnull', o))
            if e is not None:
                e.info['null'] = b
            v = ite(b, leaf(I.commnull), v)
        I.store_quiet(mem, args[i], v, size)
        return leaf(ZERO), TRUE
    return m


def m_handle_free(I, q, args, mem, cond, ins):
    v = I.load(mem, args[0], ir.PTR, 8)
    I.emit('call', q, args, val=v)
    I.store_quiet(mem, args[0], leaf(NULL), 8)
    return leaf(ZERO), TRUE


def m_plain(I, q, args, mem, cond, ins):
    I.emit('call', q, args)
    return None, TRUE


def m_wtime(I, q, args, mem, cond, ins):
    r = A(('wtime', I.uniq('wtime')))
    I.emit('call', q, args, ret=leaf(r))
    return leaf(r), TRUE


def m_umul(I, q, args, mem, cond, ins):
    v = I.binop('mul', args[0], args[1], ir.INT(64))
    return leaf(Agg([v, FALSE])), TRUE


DEFAULT_MODELS = {
    'llvm.umul.with.overflow.i64': m_umul,
    'operator new': m_new, 'operator new[]': m_new, 'malloc': m_malloc, 'calloc': m_calloc,
    'posix_memalign': m_posix_memalign, 'realloc': m_realloc,
    'operator delete': m_free, 'operator delete[]': m_free, 'free': m_free,
    'exit': m_exit, 'abort': m_exit, 'MPI_Abort': m_exit,
    'llvm.memcpy.p0.p0.i64': m_memcpy, 'memcpy': m_memcpy, 'memmove': m_memcpy,
    'llvm.memmove.p0.p0.i64': m_memcpy, 'llvm.memset.p0.i64': m_memset, 'memset': m_memset,
    'MPI_Comm_rank': m_comm_rank, 'MPI_Comm_size': m_comm_size, 'MPI_Allreduce': m_allreduce,
    'MPI_Wtime': m_wtime,
    'MPI_Allgather': m_havoc_out([3]), 'MPI_Alltoallv': m_havoc_out([4]),
    'MPI_Waitany': m_havoc_out([2]), 'MPI_Irecv': m_havoc_out([]),
    'MPI_Bcast': m_bcast,
    'MPI_Comm_free': m_handle_free, 'MPI_Group_free': m_handle_free,
    'MPI_Comm_group': m_ptr_out(1), 'MPI_Group_incl': m_ptr_out(3), 'MPI_Comm_create': m_ptr_out(2),
    'MPI_Comm_split': m_ptr_out(3), 'MPI_Comm_dup': m_ptr_out(1),
}
