"""Which values are the same on all processors: dependence of guards, trip counts and arguments on rank-local inputs."""
from .common import *

LOCAL = ('rank',)
VARYING_OUT = ()
UNIFORM_CALLS = ('MPI_Bcast', 'MPI_Allreduce', 'MPI_Allgather')
COLLECTIVES = ('MPI_Allreduce', 'MPI_Allgather', 'MPI_Allgatherv', 'MPI_Bcast', 'MPI_Barrier', 'MPI_Comm_create', 'MPI_Comm_split',
               'MPI_Comm_dup', 'MPI_Reduce', 'MPI_Alltoall', 'MPI_Gather', 'MPI_Scatter', 'MPI_Scan', 'MPI_Exscan')


class Taint:
    def __init__(self, I, local, events):
        self.I = I
        self.local = set(local) | set(LOCAL)
        self.content = {}
        self.agreed = set()
        for e, c, l in flat(events):
            if e.kind == 'call' and e.name in UNIFORM_CALLS:
                for v in leafvals(e.args[{'MPI_Bcast': 0, 'MPI_Allreduce': 1, 'MPI_Allgather': 3}[e.name]]):
                    if isinstance(v, Ptr) and v.obj is not None:
                        self.agreed.add(v.obj)
                        self.content.setdefault(v.obj, [])
        for e, c, l in flat(events):
            if e.kind in ('store', 'memcpy'):
                for v in leafvals(e.args[0]):
                    if isinstance(v, Ptr) and v.obj is not None:
                        self.content.setdefault(v.obj, []).append((e.args[1], c))
            elif e.kind == 'call' and e.name.startswith('MPI_') and e.name not in UNIFORM_CALLS:
                for a in e.args:
                    for v in leafvals(a):
                        if isinstance(v, Ptr) and v.obj is not None and v.obj.kind == 'heap':
                            self.content.setdefault(v.obj, []).append((None, c))

    def of(self, x):
        """what a value depends on: ('v', local input) or ('u', not classified)"""
        out, seen, work = set(), set(), [x]
        while work:
            y = work.pop()
            if isinstance(y, Poly):
                for m, _ in y.t:
                    for a in m:
                        if ('a', a) not in seen:
                            seen.add(('a', a))
                            self.atom(a, out, work)
            elif isinstance(y, DD):
                if y.id not in seen:
                    seen.add(y.id)
                    if y.var is None:
                        work.append(y.val)
                    else:
                        work.append(var_key(y.var))
                        work += [y.hi, y.lo]
            elif isinstance(y, Ptr):
                work.append(y.off)
                if y.obj is not None and getattr(y.obj, 'kind', None) == 'deref' and ('a', y.obj.atom) not in seen:
                    seen.add(('a', y.obj.atom))
                    self.atom(y.obj.atom, out, work)
            elif isinstance(y, tuple):
                work += list(y)
            elif isinstance(y, Obj):
                if y not in seen:
                    seen.add(y)
                    self.obj(y, out, work)
        return out

    def obj(self, o, out, work):
        """what the values stored in an object depend on"""
        if o.kind == 'global':
            return
        if o not in self.content or o.kind not in ('heap', 'stack'):
            out.add(('u', str(o)))
            return
        for v, c in self.content[o]:
            if v is None:
                out.add(('u', str(o)))
                continue
            for x in leafvals(v):
                if isinstance(x, Ptr) and x.obj is not None and x.obj is not o and x.obj.kind in ('heap', 'stack'):
                    work.append(x.obj)
            work += [v, c]

    def atom(self, a, out, work):
        k = TM.atom_key(a)
        h = k[0]
        if h == 'sym':
            if k[1] in self.local:
                out.add(('v', k[1]))
        elif h == 'allreduce' or h in ('K', 'self'):
            pass
        elif h == 'wtime':
            out.add(('v', 'MPI_Wtime'))
        elif h == 'out':
            if k[1] not in UNIFORM_CALLS:
                out.add(('u', str(k)[:80]))
        elif h == 'trip':
            cs = self.I.tripconds.get(a)
            if cs is None:
                out.add(('u', 'trip count'))
            else:
                work += list(cs) + list(k[3:])
        elif h == 'rec':
            r = self.I.recs.get(a)
            if r is None or 'init' not in r:
                out.add(('u', 'recurrence'))
            else:
                work += [r['init'], r['next']]
        elif h == 'final':
            r = self.I.recs.get(a)
            if r is None:
                out.add(('u', 'recurrence'))
            else:
                work += [A(TM.atom_key(r['rec'])), r['T']]
        elif h == 'ret':
            out.add(('u', str(k)[:80]))
        else:
            work += list(k[1:])


def local_names(dim):
    out = []
    for s in ('in', 'out'):
        for a in AX[dim]:
            out += ['%s_%slo' % (s, a), '%s_n%s' % (s, a), '%s_%shi' % (s, a)]
    return out


def check_uniform(rep, T, ev, hist, kinds=('remap_setup', 'remap', 'setup_call', 'compute'), errors=True):
    for e, c, loops in flat(ev):
        if e.kind == 'call' and e.name in COLLECTIVES or e.kind in kinds or (errors and e.kind == 'error' and e.name == 'Error::all'):
            what = e.name
        else:
            continue
        rep.inst('collective operations')
        rs = set(T.of(c))
        for l in loops:
            if getattr(l, 'T', None) is not None:
                rs |= T.of(l.T)
        bad = sorted(n for k, n in rs if k == 'v')
        und = [n for k, n in rs if k == 'u']
        if und and not bad:
            a = '%s: condition of %s at %s depends on values the analysis cannot classify' % (hist, what, where(e))
            if a not in rep.assumptions and len(rep.assumptions) < 12:
                rep.assumptions.append(a)
            rep.inst('undecided conditions')
            continue
        rep.check(not bad, where(e), '%s: %s is reached under a condition that differs between processors (it depends on %s): %s'
                  % (hist, what, ', '.join(bad[:4]), gstr(c)), '%s: %s at %s is reached by all processors or none' % (hist, what, where(e)))
        sel = dict(e.info['state']) if e.kind == 'setup_call' else {'collective': e.info['collective']} if e.kind == 'remap_setup' else {}
        for f in ('collective', 'exchange'):
            if f in sel:
                b = sorted(n for k, n in T.of(sel[f]) if k == 'v')
                rep.check(not b, where(e), '%s: the %s setting %s uses differs between processors (it depends on %s)'
                          % (hist, f, what, ', '.join(b[:4])))
        if e.kind == 'call' and e.name in ('MPI_Allreduce', 'MPI_Bcast', 'MPI_Allgather', 'MPI_Reduce'):
            idx = {'MPI_Allreduce': (2, 3, 4), 'MPI_Bcast': (1, 2, 3), 'MPI_Allgather': (1, 2, 4, 5), 'MPI_Reduce': (2, 3, 4, 5)}[e.name]
            for i in idx:
                b = sorted(n for k, n in T.of(e.args[i]) if k == 'v')
                rep.check(not b, where(e), '%s: argument %d of %s differs between processors (it depends on %s)'
                          % (hist, i + 1, what, ', '.join(b[:4])))
