"""Value domain of the analysis: polynomials over interned atoms, gated by
decision diagrams (guarded values, as in gated SSA).  No solver is involved:
equality is decided by canonical form, and the canonical form of guards is a
reduced ordered decision diagram."""
import random
import zlib
from fractions import Fraction

# ------------------------------------------------------------------ atoms
_atoms = []          # id -> key tuple
_atom_ids = {}
NONNEG = set()       # atom ids known to be >= 0
POS = set()


def atom_id(key):
    i = _atom_ids.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(key)
        _atom_ids[key] = i
    return i


def atom_key(i):
    return _atoms[i]


class Poly:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t          # tuple of (mono tuple, coef), sorted
        self.h = hash(t)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return pstr(self)

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None

    def __add__(self, o):
        return padd(self, topoly(o))

    __radd__ = __add__

    def __sub__(self, o):
        return padd(self, pscale(topoly(o), -1))

    def __rsub__(self, o):
        return padd(topoly(o), pscale(self, -1))

    def __neg__(self):
        return pscale(self, -1)

    def __mul__(self, o):
        return pmul(self, topoly(o))

    __rmul__ = __mul__

    def c0(self):
        for m, c in self.t:
            if m == ():
                return c
        return 0

    def lin(self):
        return Poly(tuple(x for x in self.t if x[0] != ()))

    def atoms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def single_atom(self):
        if len(self.t) == 1 and len(self.t[0][0]) == 1 and self.t[0][1] == 1:
            return self.t[0][0][0]
        return None


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def mkpoly(d):
    return Poly(tuple(sorted((m, c) for m, c in d.items() if c != 0)))


ZERO = Poly(())
ONE = Poly((((), 1),))


def C(n):
    if n == 0:
        return ZERO
    return Poly((((), n),))


def topoly(x):
    if isinstance(x, Poly):
        return x
    return C(x)


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    d = dict(a.t)
    for m, c in b.t:
        d[m] = _norm(d.get(m, 0) + c)
    return mkpoly(d)


def pscale(a, k):
    if k == 1:
        return a
    return mkpoly({m: _norm(c * k) for m, c in a.t})


def pmul(a, b):
    if not a.t or not b.t:
        return ZERO
    d = {}
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            d[m] = _norm(d.get(m, 0) + c1 * c2)
    return mkpoly(d)


def A(key):
    return Poly((((atom_id(key),), 1),))


def sym(name, nonneg=False, pos=False):
    i = atom_id(('sym', name))
    if nonneg or pos:
        NONNEG.add(i)
    if pos:
        POS.add(i)
    return Poly((((i,), 1),))


def is_nonneg(p):
    lb = 0
    for m, c in p.t:
        if not m:
            lb += c
            continue
        if c < 0:
            return False
        pos = True
        for a in m:
            if a not in POS:
                pos = False
                if not atom_nonneg(a):
                    return False
        if pos:
            lb += c
    return lb >= 0


def atom_nonneg(a):
    if a in NONNEG:
        return True
    k = _atoms[a]
    if k[0] == 'max':
        return any(is_nonneg(p) for p in k[1])
    if k[0] == 'K':
        return True
    if k[0] in ('idiv',):
        return is_nonneg(k[1]) and is_nonneg(k[2])
    if k[0] == 'imod':
        return is_nonneg(k[1])
    return False


def pmax(*ps):
    s = set()
    for p in ps:
        a = p.single_atom()
        if a is not None and _atoms[a][0] == 'max':
            s.update(_atoms[a][1])
        else:
            s.add(p)
    # drop dominated
    out = set(s)
    for p in s:
        for q in s:
            if p is not q and p in out and q in out and p != q:
                d = q - p
                if is_nonneg(d):
                    out.discard(p)
    s = out
    if len(s) == 1:
        return next(iter(s))
    return A(('max', tuple(sorted(s, key=lambda p: p.t))))


def pmin(*ps):
    s = set()
    for p in ps:
        a = p.single_atom()
        if a is not None and _atoms[a][0] == 'min':
            s.update(_atoms[a][1])
        else:
            s.add(p)
    out = set(s)
    for p in s:
        for q in s:
            if p in out and q in out and p != q and is_nonneg(q - p):
                out.discard(q)
    s = out
    if len(s) == 1:
        return next(iter(s))
    return A(('min', tuple(sorted(s, key=lambda p: p.t))))


def pcontent(p):
    from math import gcd
    g = 0
    for m, c in p.t:
        if isinstance(c, int):
            g = gcd(g, abs(c))
        else:
            return 1
    return g or 1


def pdiv_exact(p, q):
    """exact division p/q when q is a constant or a single monomial; None otherwise"""
    qc = q.const()
    if qc is not None:
        if qc == 0:
            return None
        out = {}
        for m, c in p.t:
            if isinstance(c, int) and isinstance(qc, int):
                if c % qc:
                    return None
                out[m] = c // qc
            else:
                return None
        return mkpoly(out)
    if len(q.t) == 1:
        qm, qk = q.t[0]
        out = {}
        for m, c in p.t:
            mm = list(m)
            for a in qm:
                if a in mm:
                    mm.remove(a)
                else:
                    return None
            if not isinstance(c, int) or c % qk:
                return None
            out[tuple(mm)] = c // qk
        return mkpoly(out)
    if p == q:
        return ONE
    return pdiv_long(p, q)


def pdiv_long(p, q):
    lead = max(q.t, key=lambda x: (len(x[0]), x[0]))
    quot = ZERO
    rem = p
    for _ in range(200):
        if not rem.t:
            return quot
        done = False
        for m, c in sorted(rem.t, key=lambda x: (len(x[0]), x[0]), reverse=True):
            mm = list(m)
            ok = True
            for a in lead[0]:
                if a in mm:
                    mm.remove(a)
                else:
                    ok = False
                    break
            if ok and isinstance(c, int) and isinstance(lead[1], int) and c % lead[1] == 0:
                t = mkpoly({tuple(mm): c // lead[1]})
                quot = quot + t
                rem = rem - t * q
                done = True
                break
        if not done:
            return None
    return None


def idiv(p, q):
    """C integer division"""
    pc, qc = p.const(), q.const()
    if pc is not None and qc not in (None, 0):
        r = abs(pc) // abs(qc)
        return C(r if (pc < 0) == (qc < 0) else -r)
    if qc == 1:
        return p
    e = pdiv_exact(p, q)
    if e is not None:
        return e
    return A(('idiv', p, q))


def imod(p, q):
    pc, qc = p.const(), q.const()
    if pc is not None and qc not in (None, 0):
        r = abs(pc) % abs(qc)
        return C(r if pc >= 0 else -r)
    if qc == 1:
        return ZERO
    return A(('imod', p, q))


# ------------------------------------------------------------ pretty print
def astr(i):
    k = _atoms[i]
    return kstr(k)


def kstr(k):
    if not isinstance(k, tuple):
        return str(k)
    if k[0] == 'sym':
        return k[1]
    if k[0] == 'K':
        return 'k%d' % k[1]
    if k[0] in ('max', 'min'):
        return '%s(%s)' % (k[0], ', '.join(pstr(p) for p in k[1]))
    if k[0] == 'idiv':
        return '(%s)/(%s)' % (pstr(k[1]), pstr(k[2]))
    if k[0] == 'imod':
        return '(%s)%%(%s)' % (pstr(k[1]), pstr(k[2]))
    if k[0] == 'load':
        return '%s[%s]%s' % (k[1], pstr(k[2]) if isinstance(k[2], Poly) else k[2], "'%s" % (k[3],) if k[3] else '')
    return '%s<%s>' % (k[0], ','.join(str(x) if not isinstance(x, tuple) else kstr(x) for x in k[1:]))


def pstr(p):
    if not p.t:
        return '0'
    out = []
    for m, c in p.t:
        s = '*'.join(astr(a) for a in m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append('-' + s)
        else:
            out.append('%s*%s' % (c, s))
    return ' + '.join(out).replace('+ -', '- ')


# ------------------------------------------------------------ other leaves
class Ptr:
    __slots__ = ('obj', 'off', 'h')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off
        self.h = hash((id(obj), off))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __repr__(self):
        if self.obj is None:
            return 'NULL' if not self.off.t else 'NULL+%s' % self.off
        return '&%s%s' % (self.obj.name, '+[%s]' % pstr(self.off) if self.off.t else '')


NULL = Ptr(None, ZERO)


class Fn:
    __slots__ = ('name',)
    _tab = {}

    def __new__(cls, name):
        f = cls._tab.get(name)
        if f is None:
            f = object.__new__(cls)
            f.name = name
            cls._tab[name] = f
        return f

    def __repr__(self):
        return 'fn:' + self.name


class Undef:
    _tab = {}

    def __new__(cls, what=''):
        u = cls._tab.get(what)
        if u is None:
            u = object.__new__(cls)
            u.what = what
            cls._tab[what] = u
        return u

    def __repr__(self):
        return 'UNDEF(%s)' % self.what


# ------------------------------------------------------------ predicates
# var key: ('le', P): P<=0 ; ('eq', P): P==0 ; ('b', ...): opaque
_vars = []
_var_ids = {}
_related = {}     # linear part -> [var ids]


def var_id(key):
    i = _var_ids.get(key)
    if i is None:
        i = len(_vars)
        _vars.append(key)
        _var_ids[key] = i
        if key[0] in ('le', 'eq'):
            _related.setdefault(key[1].lin(), []).append(i)
            if len(_related[key[1].lin()]) == 2:
                pass
    return i


def var_key(i):
    return _vars[i]


def vstr(i, pos=True):
    k = _vars[i]
    if k[0] == 'le':
        return '%s %s 0' % (pstr(k[1]), '<=' if pos else '>')
    if k[0] == 'eq':
        return '%s %s 0' % (pstr(k[1]), '==' if pos else '!=')
    return ('' if pos else '!') + kstr(k[1:])


def _implied(v, val, w):
    """value of var w implied by var v == val (same linear part), else None"""
    kv, kw = _vars[v], _vars[w]
    cv, cw = kv[1].c0(), kw[1].c0()
    # let x = linear part.  le: x <= -c ; eq: x == -c
    if kv[0] == 'le':
        if val:      # x <= -cv
            lo, hi = None, -cv
        else:        # x >= -cv+1
            lo, hi = -cv + 1, None
    else:
        if val:
            lo = hi = -cv
        else:
            # x != -cv
            if kw[0] == 'eq' and cw == cv:
                return False
            return None
    if kw[0] == 'le':    # x <= -cw ?
        if hi is not None and hi <= -cw:
            return True
        if lo is not None and lo > -cw:
            return False
        return None
    # x == -cw ?
    if lo is not None and hi is not None and lo == hi:
        return lo == -cw
    if hi is not None and -cw > hi:
        return False
    if lo is not None and -cw < lo:
        return False
    return None


# ------------------------------------------------------------ DDs
class DD:
    __slots__ = ('id', 'var', 'hi', 'lo', 'val', 'sup')

    def __repr__(self):
        return ddstr(self)


_leaves = {}
_nodes = {}
_next = [0]


def leaf(v):
    k = (type(v), v)
    n = _leaves.get(k)
    if n is None:
        n = DD()
        n.id = _next[0]
        _next[0] += 1
        n.var = None
        n.val = v
        n.hi = n.lo = None
        n.sup = frozenset()
        _leaves[k] = n
    return n


TRUE = leaf(True)
FALSE = leaf(False)


def isleaf(d):
    return d.var is None


_rcache = {}


def restrict1(d, asg):
    """asg: tuple of (var, bool)"""
    if d.var is None:
        return d
    if not any(v in d.sup for v, _ in asg):
        return d
    key = (d.id, asg)
    r = _rcache.get(key)
    if r is not None:
        return r
    r = None
    for v, b in asg:
        if v == d.var:
            r = restrict1(d.hi if b else d.lo, asg)
            break
    if r is None:
        r = mk(d.var, restrict1(d.hi, asg), restrict1(d.lo, asg))
    _rcache[key] = r
    return r


_impl_cache = {}


def _impls(v, val, sup):
    k = _vars[v]
    if k[0] not in ('le', 'eq'):
        return ()
    rel = _related.get(k[1].lin(), ())
    out = []
    for w in rel:
        if w != v and w in sup:
            x = _implied(v, val, w)
            if x is not None:
                out.append((w, x))
    return tuple(out)


def _mm1(P, h, l):
    if h is l:
        return h
    if not isinstance(h.val, Poly) or not isinstance(l.val, Poly):
        return None
    d = h.val - l.val
    if (P - d).const() in (0, 1):
        return leaf(pmin(h.val, l.val))
    if (P + d).const() in (0, 1):
        return leaf(pmax(h.val, l.val))
    return None


def _mm(var, P, hi, lo, cache=None):
    """var ? hi : lo where every pair of leaves is the same or a min/max of the compared values"""
    if cache is None:
        x, y = hi, lo
        while True:       # quick look at one path
            v = min((z.var for z in (x, y) if z.var is not None), default=None)
            if v is None:
                break
            x = x.hi if x.var == v else x
            y = y.hi if y.var == v else y
        if not isinstance(x.val, Poly) or not isinstance(y.val, Poly) or _mm1(P, x, y) is None:
            return None
        cache = {}
    if hi is lo:
        return hi
    if hi.var is None and lo.var is None:
        return _mm1(P, hi, lo)
    key = (hi.id, lo.id)
    if key in cache:
        return cache[key]
    v = min(z.var for z in (hi, lo) if z.var is not None)
    a = _mm(var, P, cof(hi, v, True), cof(lo, v, True), cache)
    r = None
    if a is not None:
        b = _mm(var, P, cof(hi, v, False), cof(lo, v, False), cache)
        if b is not None:
            r = mk(v, a, b)
    cache[key] = r
    return r


def mk(var, hi, lo):
    if hi is lo:
        return hi
    a = _impls(var, True, hi.sup)
    if a:
        hi = restrict1(hi, a)
    a = _impls(var, False, lo.sup)
    if a:
        lo = restrict1(lo, a)
    if hi is lo:
        return hi
    k = _vars[var]
    if hi.var is None and lo.var is None and isinstance(hi.val, Poly) and isinstance(lo.val, Poly):
        if k[0] == 'le':
            d = hi.val - lo.val
            P = k[1]
            e = P - d
            c = e.const()
            if c in (0, 1):
                return leaf(pmin(hi.val, lo.val))
            e = P + d
            c = e.const()
            if c in (0, 1):
                return leaf(pmax(hi.val, lo.val))
        elif k[0] == 'eq':
            # x==c ? c : x
            d = hi.val - lo.val
            if k[1] == d or k[1] == -d:
                return lo
    key = (var, hi.id, lo.id)
    n = _nodes.get(key)
    if n is None and k[0] == 'le' and not (hi.var is None and lo.var is None):
        m = _mm(var, k[1], hi, lo)
        if m is not None:
            _nodes[key] = m
            return m
    if n is None:
        n = DD()
        n.id = _next[0]
        _next[0] += 1
        n.var = var
        n.hi = hi
        n.lo = lo
        n.val = None
        n.sup = hi.sup | lo.sup | {var}
        _nodes[key] = n
    return n


def cof(d, v, b):
    if d.var == v:
        return d.hi if b else d.lo
    if v in d.sup:
        return restrict1(d, ((v, b),))
    return d


_itec = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c.id, a.id, b.id)
    r = _itec.get(key)
    if r is not None:
        return r
    v = min(x.var for x in (c, a, b) if x.var is not None)
    r = mk(v, ite(cof(c, v, True), cof(a, v, True), cof(b, v, True)),
           ite(cof(c, v, False), cof(a, v, False), cof(b, v, False)))
    _itec[key] = r
    return r


def NOT(a):
    return ite(a, FALSE, TRUE)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def implies(a, b):
    """is a -> b valid (up to the pairwise theory)"""
    return AND(a, NOT(b)) is FALSE


def BV(key):
    return mk(var_id(key), TRUE, FALSE)


def map1(f, d, cache=None):
    if cache is None:
        cache = {}
    if d.var is None:
        r = f(d.val)
        return r if isinstance(r, DD) else leaf(r)
    r = cache.get(d.id)
    if r is None:
        r = ite(BVn(d.var), map1(f, d.hi, cache), map1(f, d.lo, cache))
        cache[d.id] = r
    return r


def BVn(v):
    return mk(v, TRUE, FALSE)


def map2(f, a, b, cache=None):
    if cache is None:
        cache = {}
    if a.var is None and b.var is None:
        r = f(a.val, b.val)
        return r if isinstance(r, DD) else leaf(r)
    key = (a.id, b.id)
    r = cache.get(key)
    if r is None:
        v = min(x.var for x in (a, b) if x.var is not None)
        r = ite(BVn(v), map2(f, cof(a, v, True), cof(b, v, True), cache),
                map2(f, cof(a, v, False), cof(b, v, False), cache))
        cache[key] = r
    return r


def simplify(d, c):
    """generalised cofactor: simplify d under care set c"""
    return _simp(d, c, {})


def _simp(d, c, cache):
    if c is TRUE or d.var is None:
        return d
    if c is FALSE:
        return d
    key = (d.id, c.id)
    r = cache.get(key)
    if r is not None:
        return r
    v = min(x.var for x in (d, c) if x.var is not None)
    ch, cl = cof(c, v, True), cof(c, v, False)
    if ch is FALSE:
        d1 = cof(d, v, False)
        i = _impls(v, False, d1.sup)
        r = _simp(restrict1(d1, i) if i else d1, cl, cache)
    elif cl is FALSE:
        d1 = cof(d, v, True)
        i = _impls(v, True, d1.sup)
        r = _simp(restrict1(d1, i) if i else d1, ch, cache)
    elif v not in d.sup:
        ih, il = _impls(v, True, d.sup), _impls(v, False, d.sup)
        if not ih and not il:
            r = _simp(d, OR(ch, cl), cache)
        else:
            rh = _simp(restrict1(d, ih) if ih else d, ch, cache)
            rl = _simp(restrict1(d, il) if il else d, cl, cache)
            r = rh if rh is rl else ite(BVn(v), rh, rl)
    else:
        r = ite(BVn(v), _simp(cof(d, v, True), ch, cache), _simp(cof(d, v, False), cl, cache))
    cache[key] = r
    return r


def leaves(d, cond=TRUE):
    """list of (guard, leafvalue) with guards disjoint"""
    if d.var is None:
        return [] if cond is FALSE else [(cond, d.val)]
    order, seen, st = [], set(), [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var is None:
            order.append(x)
        else:
            st.append(x.lo)
            st.append(x.hi)
    out = []
    for k in order:
        memo = {}

        def sel(x):
            if x.var is None:
                return TRUE if x is k or x.id == k.id else FALSE
            r = memo.get(x.id)
            if r is None:
                r = memo[x.id] = mk(x.var, sel(x.hi), sel(x.lo))
            return r
        g = AND(cond, sel(d))
        if g is not FALSE:
            out.append((g, k.val))
    return out


def leafvals(d):
    out = []
    seen = set()
    st = [d]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.var is None:
            out.append(x.val)
        else:
            st.append(x.lo)
            st.append(x.hi)
    return out


# comparisons ---------------------------------------------------------
def le0(P):
    """P <= 0"""
    c = P.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if is_nonneg(P - 1):
        return FALSE
    if is_nonneg(-P):
        return TRUE
    g = pcontent(P.lin())
    if g > 1 and all(isinstance(k, int) for _, k in P.t):
        # g*L + c <= 0  <=> L <= floor(-c/g)
        L = mkpoly({m: k // g for m, k in P.lin().t})
        P = L - ((-P.c0()) // g)
    lead = P.lin().t[0][1]
    if lead > 0:
        return BV(('le', P))
    return NOT(BV(('le', 1 - P)))


def eq0(P):
    c = P.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if is_nonneg(P - 1) or is_nonneg(-P - 1):
        return FALSE
    g = pcontent(P.lin())
    if g > 1:
        if isinstance(P.c0(), int):
            if P.c0() % g:
                return FALSE
            P = mkpoly({m: k // g for m, k in P.t})
    lead = P.lin().t[0][1]
    if lead < 0:
        P = -P
    return BV(('eq', P))


def ddstr(d, depth=0):
    if d.var is None:
        return repr(d.val) if not isinstance(d.val, Poly) else pstr(d.val)
    if depth > 12:
        return '...'
    return 'if(%s){%s}else{%s}' % (vstr(d.var), ddstr(d.hi, depth + 1), ddstr(d.lo, depth + 1))


def cubes(c, limit=6):
    """human readable DNF of a Bool DD"""
    out = []

    def rec(d, path):
        if len(out) >= limit:
            return
        if d.var is None:
            if d.val is True:
                out.append(' && '.join(path) or 'true')
            return
        rec(d.hi, path + [vstr(d.var, True)])
        rec(d.lo, path + [vstr(d.var, False)])
    rec(c, [])
    return ' || '.join(out) if out else 'false'


# substitution -----------------------------------------------------------
class Subst:
    """substitute atoms by polynomials everywhere (also inside composite atoms)"""

    def __init__(self, m, objmap=None):
        self.m = m              # atom id -> Poly
        self.pc = {}
        self.ac = {}
        self.dc = {}
        self.objmap = objmap

    def poly(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        r = ZERO
        changed = False
        for m, c in p.t:
            t = C(c)
            for a in m:
                x = self.atom(a)
                t = pmul(t, x)
            r = padd(r, t)
        self.pc[p] = r
        return r

    def atom(self, a):
        r = self.m.get(a)
        if r is not None:
            return r
        r = self.ac.get(a)
        if r is not None:
            return r
        k = _atoms[a]
        r = self._rebuild(a, k)
        self.ac[a] = r
        return r

    def _rebuild(self, a, k):
        t = k[0]
        if t in ('sym', 'K'):
            return Poly((((a,), 1),))
        if t == 'max':
            return pmax(*[self.poly(p) for p in k[1]])
        if t == 'min':
            return pmin(*[self.poly(p) for p in k[1]])
        if t == 'idiv':
            return idiv(self.poly(k[1]), self.poly(k[2]))
        if t == 'imod':
            return imod(self.poly(k[1]), self.poly(k[2]))
        nk = tuple(self._any(x) for x in k)
        if nk == k:
            return Poly((((a,), 1),))
        n = A(nk)
        if a in NONNEG:
            NONNEG.add(n.single_atom())
        return n

    def _any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, DD):
            return self.dd(x)
        if isinstance(x, Ptr):
            return Ptr(self.obj(x.obj), self.poly(x.off))
        if isinstance(x, tuple):
            return tuple(self._any(y) for y in x)
        return x

    def obj(self, o):
        if o is None:
            return o
        if getattr(o, 'kind', None) == 'deref':
            k2 = self.atom(o.atom)
            if k2 != Poly((((o.atom,), 1),)):
                s = k2.single_atom()
                if s is not None:
                    return o.factory(s)
        if self.objmap is not None:
            return self.objmap(o)
        return o

    def leafval(self, v):
        if isinstance(v, Poly):
            return self.poly(v)
        if isinstance(v, Ptr):
            return Ptr(self.obj(v.obj), self.poly(v.off))
        return v

    def dd(self, d):
        r = self.dc.get(d.id)
        if r is not None:
            return r
        if d.var is None:
            r = leaf(self.leafval(d.val))
        else:
            r = ite(self.var(d.var), self.dd(d.hi), self.dd(d.lo))
        self.dc[d.id] = r
        return r

    def var(self, v):
        k = _vars[v]
        if k[0] == 'le':
            return le0(self.poly(k[1]))
        if k[0] == 'eq':
            return eq0(self.poly(k[1]))
        nk = tuple(self._any(x) for x in k)
        if nk == k:
            return BVn(v)
        return BV(nk)


def dd_atoms(d, acc=None, deep=True):
    """all atoms (transitively inside composite atoms) occurring in d"""
    acc = set() if acc is None else acc
    seen = set()

    def anyv(x):
        if isinstance(x, Poly):
            for m, _ in x.t:
                for a in m:
                    if a not in acc:
                        acc.add(a)
                        if deep:
                            for y in _atoms[a]:
                                anyv(y)
        elif isinstance(x, DD):
            if x.id in seen:
                return
            seen.add(x.id)
            if x.var is None:
                anyv(x.val)
            else:
                for y in _vars[x.var]:
                    anyv(y)
                anyv(x.hi)
                anyv(x.lo)
        elif isinstance(x, Ptr):
            anyv(x.off)
            if x.obj is not None and getattr(x.obj, 'kind', None) == 'deref':
                a = x.obj.atom
                if a not in acc:
                    acc.add(a)
                    for y in _atoms[a]:
                        anyv(y)
        elif isinstance(x, tuple):
            for y in x:
                anyv(y)
    anyv(d)
    return acc


# evaluation (identity testing of closed forms) ----------------------------
class Env:
    def __init__(self, seed, base=None, lo=1, hi=97):
        self.seed = seed
        self.v = dict(base or {})
        self.lo = lo
        self.hi = hi

    def atom(self, a):
        if a in self.v:
            return self.v[a]
        k = _atoms[a]
        t = k[0]
        if t == 'max':
            r = max(self.poly(p) for p in k[1])
        elif t == 'min':
            r = min(self.poly(p) for p in k[1])
        elif t in ('idiv', 'imod'):
            p, q = self.poly(k[1]), self.poly(k[2])
            if q == 0:
                q = 1
            d = abs(p) // abs(q)
            d = d if (p < 0) == (q < 0) else -d
            r = d if t == 'idiv' else p - d * q
        elif t == 'fdiv':
            p, q = self.poly(k[1]), self.poly(k[2])
            r = Fraction(p) / (q if q else 1)
        elif t == 'fptosi':
            r = int(self.poly(k[1]))
        else:
            rng = random.Random(zlib.crc32(repr((self.seed, a)).encode()))
            r = rng.randint(self.lo, self.hi)
        self.v[a] = r
        return r

    def poly(self, p):
        r = 0
        for m, c in p.t:
            x = c
            for a in m:
                x = x * self.atom(a)
            r += x
        return r

    def dd(self, d):
        while d.var is not None:
            k = _vars[d.var]
            if k[0] == 'le':
                b = self.poly(k[1]) <= 0
            elif k[0] == 'eq':
                b = self.poly(k[1]) == 0
            elif k[:2] == ('b', 'flt'):
                b = self.poly(k[2]) < 0
            else:
                b = random.Random(zlib.crc32(repr((self.seed, 'v', d.var)).encode())).random() < 0.5
            d = d.hi if b else d.lo
        return d.val


# equality propagation over guards -------------------------------------------
class ShallowSubst(Subst):
    """substitution that treats composite summary atoms as names"""
    OPAQUE = ('allreduce', 'rec', 'final', 'trip', 'load', 'ret', 'out')

    def _rebuild(self, a, k):
        if k[0] in self.OPAQUE:
            return Poly((((a,), 1),))
        return Subst._rebuild(self, a, k)

    def obj(self, o):
        return o


def solve_eq(P):
    """atom, Poly with P == 0  <=>  atom == Poly (linear occurrence with coefficient +-1), or None"""
    best = None
    for m, c in P.t:
        if len(m) != 1 or c not in (1, -1):
            continue
        a = m[0]
        if any(a in m2 for m2, _ in P.t if m2 != m):
            continue
        r = pscale(P - Poly(((m, c),)), -c)
        if a in dd_atoms(leaf(r)):
            continue
        k = _atoms[a]
        rank = 0 if k[0] == 'sym' else 1
        if a in POS or a in NONNEG:
            rank += 2
        if best is None or rank < best[0]:
            best = (rank, a, r)
    return (best[1], best[2]) if best else None


class Budget(Exception):
    pass


def feasible(d, budget=20000):
    """can guard d hold?  equalities on a branch are substituted into everything else on it.
    False is definite; True means 'not refuted'."""
    left = [budget]
    seen = {}

    def rec(d, lits):
        if d is FALSE:
            return False
        if d is TRUE:
            return True
        left[0] -= 1
        if left[0] < 0:
            raise Budget()
        k = _vars[d.var]
        # lits: literals taken so far (as DDs)
        for val, br in ((True, d.hi), (False, d.lo)):
            if br is FALSE:
                continue
            lit = BVn(d.var) if val else NOT(BVn(d.var))
            if k[0] == 'eq' and val:
                s = solve_eq(k[1])
                if s is not None:
                    sub = ShallowSubst({s[0]: s[1]})
                    nl = []
                    bad = False
                    for l in lits:
                        x = sub.dd(l)
                        # sign knowledge about the eliminated atom
                        if x is FALSE:
                            bad = True
                            break
                        if x is not TRUE:
                            nl.append(x)
                    if not bad and s[0] in POS and le0(s[1]) is TRUE:
                        bad = True
                    if not bad and s[0] in NONNEG and le0(s[1] + 1) is TRUE:
                        bad = True
                    if bad:
                        continue
                    c = TRUE
                    for x in nl:
                        c = AND(c, x)
                    if s[0] in NONNEG or s[0] in POS:
                        c = AND(c, le0((1 if s[0] in POS else 0) - s[1]))
                    if c is FALSE:
                        continue
                    e = AND(c, sub.dd(br))
                    if e is FALSE:
                        continue
                    if rec(e, ()):
                        return True
                    continue
            if rec(br, lits + (lit,)):
                return True
        return False
    try:
        return rec(d, ())
    except Budget:
        return True
