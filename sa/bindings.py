"""Readers of the language bindings: C prototypes (from debug info), Fortran bind(c) interfaces, Python ctypes classes."""
import ast
import re
from . import ir


# ------------------------------------------------------------------ C side
def c_type(dbg, t):
    """('i',bits) ('f',bits) ('p',pointee) ('s',name) or None for void"""
    t = dbg.strip(t)
    if not isinstance(t, int):
        return None
    n = dbg.node(t)
    if n[0] == 'DIBasicType':
        enc = n[1].get('encoding', '')
        return ('f' if enc == 'DW_ATE_float' else 'i', int(n[1].get('size', 0)))
    if n[0] == 'DIDerivedType' and n[1].get('tag') in ('DW_TAG_pointer_type', 'DW_TAG_reference_type'):
        b = n[1].get('baseType')
        return ('p', c_type(dbg, b) if isinstance(b, int) else None)
    return ('s', n[1].get('name'))


def c_prototypes(prog, pat):
    """name -> (result, [(param name, type)]) of the C functions matching pat"""
    out = {}
    for q, fs in prog.byname.items():
        if not re.match(pat, q):
            continue
        f = fs[0]
        dbg = prog.debug[f.module]
        n = dbg.node(f.dbg)
        st = dbg.node(n[1]['type'])
        ts = dbg.node(st[1]['types'])[1] if isinstance(st[1].get('types'), int) else [None]
        names = {}
        for i, s in f.module.md.items():
            if 'DILocalVariable(' in s and 'arg:' in s:
                v = dbg.node(i)[1]
                if v.get('scope') == f.dbg:
                    names[int(v['arg'])] = v.get('name')
        out[f.name] = (c_type(dbg, ts[0]) if ts and ts[0] is not None else None,
                       [(names.get(i + 1), c_type(dbg, t)) for i, t in enumerate(ts[1:])])
    return out


# ------------------------------------------------------------------ Fortran side
def f90_lines(text):
    """logical lines: comments stripped, continuations joined, lower case outside quotes"""
    out, cur = [], ''
    for raw in text.split('\n'):
        l, q, res = raw, None, ''
        for ch in l:
            if q:
                res += ch
                if ch == q:
                    q = None
                continue
            if ch in '\'"':
                q = ch
                res += ch
            elif ch == '!':
                break
            else:
                res += ch.lower()
        l = res.strip()
        if not l:
            continue
        if cur and l.startswith('&'):
            l = l[1:].lstrip()
        if l.endswith('&'):
            cur += l[:-1].rstrip() + ' '
            continue
        for part in (cur + l).split(';'):
            if part.strip():
                out.append(part.strip())
        cur = ''
    return out


F_KIND = {'c_int': ('i', 32), 'c_int32_t': ('i', 32), 'c_int64_t': ('i', 64), 'c_long_long': ('i', 64), 'c_long': ('i', 64),
          'c_short': ('i', 16), 'c_size_t': ('i', 64), 'c_double': ('f', 64), 'c_float': ('f', 32), 'c_char': ('i', 8),
          'c_signed_char': ('i', 8), 'c_bool': ('i', 8), 'c_intptr_t': ('i', 64)}


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        if ch == sep and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def f90_base(spec):
    m = re.match(r'(integer|real|character|logical|type|double\s*precision)\s*(\*\s*\d+|\(.*\))?$', spec)
    if not m:
        return None
    t, k = m.group(1), (m.group(2) or '').strip()
    if t == 'type':
        return ('cptr',) if k.strip('() ') == 'c_ptr' else ('cfunptr',) if k.strip('() ') == 'c_funptr' else None
    if t.startswith('double'):
        return ('f', 64)
    if k.startswith('*'):
        return ('i' if t == 'integer' else 'f', 8 * int(k[1:]))
    kind = None
    for a in split_top(k[1:-1]) if k else []:
        kind = a.split('=')[1].strip() if '=' in a and a.split('=')[0].strip() == 'kind' else (a if '=' not in a else kind)
    if kind is None:
        return {'integer': ('i', 32), 'real': ('f', 32), 'logical': ('i', 32), 'character': ('i', 8)}[t]
    if kind.isdigit():
        return ('i' if t in ('integer', 'logical') else 'f', 8 * int(kind)) if t != 'character' else ('i', 8)
    b = F_KIND.get(kind)
    if b is None:
        return None
    if t == 'real' and b[0] != 'f' or t in ('integer', 'logical') and b[0] != 'i':
        return None
    return b


def f90_interfaces(text):
    """fortran name -> dict(cname, result, args=[(name, type or None)], line text); type: ('i',n) ('f',n) ('cptr',) ('ref',t) ('arr',t)"""
    out = {}
    cur = None
    for l in f90_lines(text):
        m = re.match(r'(?:(.*?)\s+)?(subroutine|function)\s+(\w+)\s*\(([^)]*)\)\s*(.*)$', l)
        if m and not l.startswith('end') and not (m.group(1) or '').startswith('end'):
            cur = dict(name=m.group(3), args=[a.strip() for a in m.group(4).split(',') if a.strip()], kind=m.group(2), decl={},
                       cname=None, res=m.group(3))
            tail = m.group(5)
            r = re.search(r'result\s*\(\s*(\w+)\s*\)', tail)
            if r:
                cur['res'] = r.group(1)
            b = re.search(r'bind\s*\(\s*c\s*(?:,\s*name\s*=\s*([\'"])(.*?)\1\s*)?\)', tail)
            if b:
                cur['cname'] = b.group(2) if b.group(1) else cur['name']
            if m.group(1):
                pre = m.group(1).strip()
                t = f90_base(pre)
                if t:
                    cur['decl'][cur['res']] = t
            continue
        if cur is None:
            continue
        if re.match(r'end\s*(subroutine|function)?\b', l):
            o = dict(cname=cur['cname'], kind=cur['kind'], args=[(a, cur['decl'].get(a)) for a in cur['args']])
            r = cur['decl'].get(cur['res'])
            o['result'] = None if cur['kind'] == 'subroutine' else (r[1] if r and r[0] == 'ref' else r)
            out[cur['name']] = o
            cur = None
            continue
        if '::' in l:
            spec, vars_ = l.split('::', 1)
            attrs = split_top(spec)
            base = f90_base(attrs[0])
            rest = attrs[1:]
            byval = 'value' in rest
            arr = any(a.startswith('dimension') for a in rest)
            if any(a.startswith(('pointer', 'allocatable', 'optional')) for a in rest):
                base = None
            for v in split_top(vars_):
                mv = re.match(r'(\w+)\s*(\(.*\))?', v)
                n, dim = mv.group(1), mv.group(2)
                if base is None:
                    cur['decl'][n] = None
                elif byval:
                    cur['decl'][n] = base
                elif dim or arr:
                    cur['decl'][n] = ('arr', base)
                else:
                    cur['decl'][n] = ('ref', base)
    return out


def f_matches(f, c):
    """does a Fortran dummy argument occupy the C parameter correctly; None = cannot tell"""
    if f is None or c is None:
        return None
    if f[0] == 'cptr':
        return c[0] == 'p'
    if f[0] in ('i', 'f'):
        return f == c
    if f[0] in ('ref', 'arr'):
        if c[0] != 'p':
            return False
        if f[1] == ('cptr',):
            return c[1] is not None and c[1][0] == 'p'
        return c[1] is None or c[1] == f[1]
    return None


# ------------------------------------------------------------------ Python side
def py_tree(text):
    """syntax tree of a (possibly Python 2) module"""
    try:
        return ast.parse(text)
    except SyntaxError:
        pass
    lines = []
    for l in text.split('\n'):
        m = re.match(r'^(\s*)(.*?\:\s*)?print\s+(?!\()(.*?)(,)?\s*$', l)
        if m and (m.group(2) is None or re.match(r'(if|else|elif|except|try|for|while)\b', m.group(2))):
            l = '%s%sprint(%s)' % (m.group(1), m.group(2) or '', m.group(3))
        m = re.match(r'^(\s*)(.*?\:\s*)?raise\s+(\w+)\s*,\s*(.*)$', l)
        if m:
            l = '%s%sraise %s(%s)' % (m.group(1), m.group(2) or '', m.group(3), m.group(4))
        l = re.sub(r'except\s+(\w+)\s*,\s*(\w+)\s*:', r'except \1 as \2:', l)
        lines.append(l)
    return ast.parse('\n'.join(lines))


class Exit(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Giveup(Exception):
    pass


CT = {'c_int': ('i', 32), 'c_int32': ('i', 32), 'c_long': ('i', 64), 'c_longlong': ('i', 64), 'c_int64': ('i', 64),
      'c_double': ('f', 64), 'c_float': ('f', 32), 'c_char_p': ('p', ('i', 8)), 'c_void_p': ('p', None), 'c_size_t': ('i', 64),
      'c_short': ('i', 16), 'c_bool': ('i', 8), 'c_uint': ('i', 32), 'c_char': ('i', 8), 'c_byte': ('i', 8)}
UNK = ('unk',)


class PyRun:
    """symbolic execution of one method of a ctypes wrapper class, all truth values that are not determined are enumerated"""

    def __init__(self, tree, cls, consts):
        self.funcs = {}
        self.mod = {}
        self.cls = None
        self.classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
        for n in tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.mod[t.id] = n.value
        self.c = self.classes[cls]
        self.methods = {}
        self.collect(self.c)
        self.consts = consts

    def collect(self, c):
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id in self.classes:
                self.collect(self.classes[b.id])
        for n in c.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = n

    def paths(self, names, limit=64):
        """execute the methods in sequence on a fresh object; yields (log, results, attrs, guesses)"""
        todo = [[]]
        done = 0
        while todo:
            pre = todo.pop()
            done += 1
            if done > limit:
                raise Giveup('too many paths')
            self.pre, self.pos, self.guess = pre, 0, []
            self.err = []
            self.log, self.attrs, self.ct, self.n = [], {}, {}, 0
            self.ctr = 0
            res = []
            how = 'end'
            try:
                for m in names:
                    f = self.methods[m]
                    args = [('self',)]
                    for a in f.args.args[1:]:
                        args.append(('const', self.consts[a.arg]) if a.arg in self.consts else ('param', a.arg))
                    self.mark = len(self.log)
                    res.append(self.invoke(f, args, {}))
            except Exit:
                how = 'exit'
            for i in range(len(pre), len(self.guess)):
                todo.append(self.guess[:i] + [not self.guess[i]])
            yield dict(log=self.log, res=res, attrs=self.attrs, ct=dict(self.ct), guesses=len(self.guess), how=how, err=self.err, mark=self.mark)

    def decide(self):
        if self.pos < len(self.pre):
            v = self.pre[self.pos]
        else:
            v = True
        self.pos += 1
        self.guess.append(v)
        return v

    def invoke(self, f, args, kw):
        env = {'%locals': {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}}
        names = [a.arg for a in f.args.args]
        defaults = f.args.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            env[n] = self.ev(d, env)
        for n, v in zip(names, args):
            env[n] = v
        if f.args.vararg:
            env[f.args.vararg.arg] = ('tuple', list(args[len(names):]))
        for k, v in kw.items():
            env[k] = v
        try:
            self.body(f.body, env)
        except Ret as r:
            return r.v
        return ('const', None)

    def truth(self, v):
        if v[0] == 'const':
            return bool(v[1])
        if v[0] in ('lib', 'libfn', 'self'):
            return True
        if v[0] == 'tuple':
            return bool(v[1])
        if v[0] == 'not':
            return not self.truth(v[1])
        return self.decide()

    def body(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.If):
            self.body(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.Return):
            raise Ret(self.ev(s.value, env) if s.value is not None else ('const', None))
        elif isinstance(s, ast.Raise):
            raise Exit()
        elif isinstance(s, ast.Try):
            self.body(s.body, env)
            self.body(s.orelse, env)
            self.body(s.finalbody, env)
        elif isinstance(s, (ast.Pass, ast.Global, ast.Import, ast.ImportFrom)):
            pass
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env)
            if it[0] != 'tuple':
                raise Giveup('loop over %s' % (it,))
            for x in it[1]:
                self.assign(s.target, x, env)
                self.body(s.body, env)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(ast.BinOp(left=ast.Name(id=s.target.id), op=s.op, right=s.value), env) if isinstance(s.target, ast.Name) else UNK
            self.assign(s.target, v, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ('func', s)
        elif isinstance(s, ast.Delete):
            pass
        else:
            raise Giveup(type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            if b[0] == 'self':
                self.attrs[t.attr] = v
            elif b[0] == 'libfn':
                self.ct.setdefault(b[1], {})[t.attr] = (v, getattr(t, 'lineno', 0))
            elif b[0] == 'unk':
                pass
            else:
                raise Giveup('assignment to attribute of %s' % (b,))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == 'tuple' and len(v[1]) == len(t.elts):
                for a, b in zip(t.elts, v[1]):
                    self.assign(a, b, env)
            else:
                for a in t.elts:
                    self.assign(a, UNK, env)
        else:
            raise Giveup('assignment')

    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return ('const', e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in env.get('%locals', ()):
                self.err.append('%s is used before it is assigned (line %d)' % (e.id, e.lineno))
                raise Exit()
            if e.id in CT:
                return ('ctype', CT[e.id])
            if e.id in ('None', 'True', 'False'):
                return ('const', {'None': None, 'True': True, 'False': False}[e.id])
            if e.id in self.funcs:
                return ('func', self.funcs[e.id])
            if e.id in self.mod:
                return self.ev(self.mod[e.id], {})
            return ('name', e.id)
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            if b[0] == 'self':
                if e.attr in self.attrs:
                    return self.attrs[e.attr]
                if e.attr in self.methods:
                    return ('method', e.attr)
                return UNK
            if b[0] == 'lib':
                return ('libfn', e.attr)
            if b == ('const', None):
                self.err.append('attribute %s of None (line %d)' % (e.attr, e.lineno))
                raise Exit()
            if b[0] == 'name' and e.attr in CT and b[1] == 'ctypes':
                return ('ctype', CT[e.attr])
            if b[0] == 'name' and b[1] == 'ctypes':
                return ('name', e.attr)
            return ('attr', b, e.attr)
        if isinstance(e, (ast.Tuple, ast.List)):
            return ('tuple', [self.ev(x, env) for x in e.elts])
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if a[0] == 'tuple' and b[0] == 'tuple' and isinstance(e.op, ast.Add):
                return ('tuple', a[1] + b[1])
            if isinstance(e.op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    if x[0] == 'tuple' and y[0] == 'const' and isinstance(y[1], int):
                        return ('tuple', x[1] * y[1])
            if a[0] == 'const' and b[0] == 'const':
                try:
                    return ('const', {ast.Add: lambda: a[1] + b[1], ast.Sub: lambda: a[1] - b[1], ast.Mult: lambda: a[1] * b[1],
                                      ast.Mod: lambda: a[1] % b[1]}[type(e.op)]())
                except Exception:
                    return UNK
            if a[0] == 'const' and isinstance(e.op, ast.Mod) and isinstance(a[1], str) and b[0] == 'tuple' and \
                    all(x[0] == 'const' for x in b[1]):
                return ('const', a[1] % tuple(x[1] for x in b[1]))
            return ('bin', type(e.op).__name__, a, b)
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return ('const', not self.truth(v)) if v[0] in ('const', 'lib', 'tuple') else ('not', v)
            if v[0] == 'const' and isinstance(e.op, ast.USub):
                return ('const', -v[1])
            return ('un', type(e.op).__name__, v)
        if isinstance(e, ast.BoolOp):
            last = UNK
            for x in e.values:
                last = self.ev(x, env)
                t = self.truth(last)
                if isinstance(e.op, ast.And) and not t:
                    return ('const', False)
                if isinstance(e.op, ast.Or) and t:
                    return ('const', True) if last[0] not in ('lib',) else last
            return ('const', isinstance(e.op, ast.And))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
            op = type(e.ops[0]).__name__
            if a[0] == 'const' and b[0] == 'const':
                try:
                    return ('const', {'Eq': lambda: a[1] == b[1], 'NotEq': lambda: a[1] != b[1], 'Lt': lambda: a[1] < b[1],
                                      'Gt': lambda: a[1] > b[1], 'LtE': lambda: a[1] <= b[1], 'GtE': lambda: a[1] >= b[1],
                                      'Is': lambda: a[1] is b[1], 'IsNot': lambda: a[1] is not b[1]}[op]())
                except Exception:
                    return UNK
            if op in ('Is', 'IsNot', 'Eq', 'NotEq') and b == ('const', None) and a[0] in ('lib', 'libfn', 'cobj'):
                return ('const', op in ('IsNot', 'NotEq'))
            if op in ('In', 'NotIn') and a[0] == 'const' and b[0] == 'tuple' and all(x[0] == 'const' for x in b[1]):
                r = a[1] in [x[1] for x in b[1]]
                return ('const', r if op == 'In' else not r)
            return ('cmp', op, a, b)
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                lo = self.ev(e.slice.lower, env) if e.slice.lower else ('const', 0)
                hi = self.ev(e.slice.upper, env) if e.slice.upper else ('const', None)
                return ('slice', b, lo, hi)
            i = self.ev(e.slice, env)
            if b[0] == 'tuple' and i[0] == 'const' and isinstance(i[1], int):
                return b[1][i[1]]
            if b[0] == 'dict' and i[0] == 'const':
                for k, v in b[1]:
                    if k == i:
                        return v
            return ('idx', b, i)
        if isinstance(e, ast.Dict):
            return ('dict', [(self.ev(k, env), self.ev(v, env)) for k, v in zip(e.keys, e.values)])
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.ev(e.generators[0].iter, env)
            if it[0] != 'tuple':
                raise Giveup('comprehension')
            out = []
            for x in it[1]:
                e2 = dict(env)
                self.assign(e.generators[0].target, x, e2)
                out.append(self.ev(e.elt, e2))
            return ('tuple', out)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.JoinedStr):
            s = ''
            for v in e.values:
                x = self.ev(v.value if isinstance(v, ast.FormattedValue) else v, env)
                if x[0] != 'const':
                    return UNK
                s += str(x[1])
            return ('const', s)
        return UNK

    def call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if v[0] != 'tuple':
                    raise Giveup('star argument')
                args += v[1]
            else:
                args.append(self.ev(a, env))
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords if k.arg}
        line = getattr(e, 'lineno', 0)
        if f[0] == 'libfn':
            self.ctr += 1
            r = ('libret', f[1], self.ctr)
            self.log.append((f[1], args, r, line))
            return r
        if f[0] == 'method':
            return self.invoke(self.methods[f[1]], [('self',)] + args, kw)
        if f[0] == 'func':
            return self.invoke(f[1], args, kw)
        if f[0] == 'ctype':
            self.ctr += 1
            return ('cobj', self.ctr, f[1], tuple(args))
        if f[0] == 'name':
            n = f[1]
            if n in ('CDLL', 'PyDLL') or n == 'cdll':
                self.attrs['__lib__'] = args[0] if args else UNK
                return ('lib',)
            if n == 'POINTER' and args and args[0][0] == 'ctype':
                return ('ctype', ('p', args[0][1]))
            if n in ('byref', 'pointer'):
                return ('byref', args[0])
            if n in ('int', 'float', 'str', 'bool') and args:
                if n == 'bool':
                    return args[0]
                return ('conv', n, args[0]) if args[0][0] != 'const' else args[0]
            if n == 'getattr' and len(args) >= 2 and args[1][0] == 'const':
                if args[0][0] == 'lib':
                    return ('libfn', args[1][1])
                if args[0][0] == 'self':
                    return self.attrs.get(args[1][1], args[2] if len(args) > 2 else UNK)
            if n == 'hasattr' and args[0][0] == 'self' and args[1][0] == 'const':
                return ('const', args[1][1] in self.attrs or args[1][1] in self.methods)
            if n == 'setattr' and args[0][0] in ('self', 'libfn') and args[1][0] == 'const':
                if args[0][0] == 'self':
                    self.attrs[args[1][1]] = args[2]
                else:
                    self.ct.setdefault(args[0][1], {})[args[1][1]] = (args[2], line)
                return UNK
            if n in ('exit', 'quit'):
                raise Exit()
            if n == 'cast' and len(args) == 2:
                return ('data_as', args[0], args[1])
            return ('call', n, tuple(str(a) for a in args))
        if f[0] == 'attr':
            if f[2] == 'exit' and f[1] == ('name', 'sys'):
                raise Exit()
            if f[2] == 'data_as' and args:
                return ('data_as', f[1], args[0])
            if f[2] in ('encode', 'decode'):
                return ('conv', f[2], f[1])
            if f[2] == 'from_address':
                return ('fromaddr', f[1], args[0])
            if f[2] == 'format' and f[1][0] == 'const' and all(a[0] == 'const' for a in args):
                return ('const', f[1][1].format(*[a[1] for a in args]))
            if f[1] == ('name', 'ctypes'):
                return UNK
            return ('call', str(f), tuple(str(a) for a in args))
        return UNK
