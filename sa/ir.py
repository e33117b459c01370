"""Textual LLVM IR (as produced by clang-18 / opt-18) -> Python objects.

Only the subset that clang emits for this code base is understood; anything
else raises IRError, which the runner reports as "analysis broken" (exit 2).
"""
import re
import struct as _struct


class IRError(Exception):
    pass


TOK = re.compile(r'''
    \s+
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#[0-9]+)
  | (?P<num>[-+]?[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?|0x[0-9A-Fa-fKLMHR]+|-?[0-9]+)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
  | (?P<punct>\.\.\.|[=,(){}\[\]<>*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: %r at %r' % (s, s[i:i + 20]))
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k = k
        self.a = a
        self.b = b

    def __repr__(self):
        return {'int': 'i%s' % self.a}.get(self.k, '%s(%s,%s)' % (self.k, self.a, self.b))


PTR = T('ptr')
VOID = T('void')
F32 = T('float')
F64 = T('double')
META = T('metadata')
LABEL = T('label')
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = T('int', n)
    return _ints[n]


class Op:
    """operand: kind in local, const, global, null, undef, fconst, gepconst, meta, zero"""
    __slots__ = ('k', 'v', 't')

    def __init__(self, k, v, t):
        self.k = k
        self.v = v
        self.t = t

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'block', 'text')

    def __repr__(self):
        return self.text


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succs = []
        self.preds = []

    @property
    def term(self):
        return self.instrs[-1]


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # [(type, name)]
        self.ret = None
        self.blocks = {}      # ordered
        self.dbg = None
        self.internal = False
        self.module = None


class Parser:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IRError('expected %r near %r' % (v, self.t[max(0, self.i - 5):self.i + 5]))

    ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly
        returned immarg nofree nest readnone swiftself allocptr allocalign noreturn nounwind inbounds nuw nsw exact
        tail musttail notail fast nnan ninf nsz arcp contract afn reassoc dso_local local_unnamed_addr
        unnamed_addr dead_on_unwind writable disjoint nneg'''.split())

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in self.ATTRS:
                self.i += 1
            elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                                       'align', 'allocsize', 'memory', 'range', 'elementtype', 'nofpclass'):
                self.i += 1
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        _, w = self.next()
                        if w == '(':
                            d += 1
                        elif w == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align':
                    self.i += 1
            else:
                return

    def type(self):
        k, v = self.next()
        if k == 'word':
            m = re.fullmatch(r'i([0-9]+)', v)
            if m:
                t = INT(int(m.group(1)))
            elif v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v == 'float':
                t = F32
            elif v == 'double':
                t = F64
            elif v == 'metadata':
                return META
            elif v == 'label':
                return LABEL
            elif v == 'opaque':
                t = T('opaque')
            elif v == 'x86_fp80':
                t = T('x86_fp80')
            else:
                raise IRError('type %r' % v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = T('array', n, e)
        elif v == '<':
            if self.peek()[1] == '{':
                self.i += 1
                fs = self._fields()
                self.expect('>')
                t = T('struct', fs, True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = T('vector', n, e)
        elif v == '{':
            t = T('struct', self._fields(), False)
        elif k == 'local':
            t = T('named', v[1:].strip('"'))
        else:
            raise IRError('type tok %r' % v)
        # function type "(...)"
        if self.peek()[1] == '(' and t.k in ('void', 'int', 'ptr', 'float', 'double'):
            save = self.i
            self.i += 1
            args = []
            try:
                while not self.accept(')'):
                    if self.accept('...'):
                        args.append('...')
                    else:
                        args.append(self.type())
                    self.accept(',')
                return T('fn', t, args)
            except IRError:
                self.i = save
        return t

    def _fields(self):
        fs = []
        while not self.accept('}'):
            fs.append(self.type())
            self.accept(',')
        return fs

    def value(self, t):
        k, v = self.next()
        if k == 'local':
            return Op('local', v[1:].strip('"'), t)
        if k == 'glob':
            return Op('global', v[1:].strip('"'), t)
        if k == 'num':
            if t.k in ('float', 'double'):
                if v.startswith('0x'):
                    f = _struct.unpack('<d', _struct.pack('<Q', int(v, 16)))[0]
                else:
                    f = float(v)
                return Op('fconst', f, t)
            return Op('const', int(v), t)
        if k == 'word':
            if v == 'true':
                return Op('const', 1, t)
            if v == 'false':
                return Op('const', 0, t)
            if v == 'null':
                return Op('null', None, t)
            if v in ('undef', 'poison'):
                return Op('undef', None, t)
            if v == 'zeroinitializer':
                return Op('zero', None, t)
            if v == 'getelementptr':
                self.skip_attrs()
                self.expect('(')
                bt = self.type()
                self.expect(',')
                pt = self.type()
                base = self.value(pt)
                idx = []
                while self.accept(','):
                    it = self.type()
                    idx.append(self.value(it))
                self.expect(')')
                return Op('gepconst', (bt, base, idx), t)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'sext', 'zext'):
                self.expect('(')
                t1 = self.type()
                x = self.value(t1)
                self.expect('to')
                self.type()
                self.expect(')')
                return Op('castconst', (v, x), t)
            if v == 'blockaddress' or v == 'asm':
                raise IRError('unsupported constant ' + v)
        if k == 'str':
            return Op('cstr', v, t)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            el = []
            while not self.accept(close):
                if v == '<' and self.peek()[1] in '{':
                    pass
                et = self.type()
                el.append(self.value(et))
                self.accept(',')
            return Op('agg', el, t)
        raise IRError('value %r %r' % (k, v))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return self.value(t)


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.aliases = {}
        self.functions = {}
        self.declared = set()
        self.md = {}
        self._mdcache = {}
        self.source = None


_MD_FIELD = re.compile(r'(\w+): (!\d+|"(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)')


def parse_module(text, name):
    m = Module(name)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    cur = None
    blk = None
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if cur is None:
            c = ln[0]
            if c == '%':
                toks = tokenize(ln)
                p = Parser(m, toks)
                nm = p.next()[1][1:].strip('"')
                p.expect('=')
                p.expect('type')
                m.types[nm] = p.type()
            elif c == '@':
                _global(m, ln)
            elif ln.startswith('define'):
                cur = _define(m, ln)
                blk = None
            elif ln.startswith('declare'):
                mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                m.declared.add(mm.group(1).strip('"'))
            elif c == '!':
                mm = re.match(r'!(\d+) = (.*)$', ln)
                if mm:
                    m.md[int(mm.group(1))] = mm.group(2)
            elif ln.startswith('source_filename'):
                m.source = ln.split('"')[1]
            continue
        if ln[0] == '}':
            _finish(cur)
            cur = None
            continue
        if ln[0] != ' ':
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if not mm:
                raise IRError('line %r' % ln)
            blk = Block(mm.group(1).strip('"'))
            cur.blocks[blk.name] = blk
            continue
        if blk is None:
            # unnamed entry block
            blk = Block(str(len(cur.params)))
            cur.blocks[blk.name] = blk
        s = ln.strip()
        if 'llvm.dbg.' in s or s.startswith('#dbg'):
            continue
        # switch spans lines
        if s.startswith('switch') and s.endswith('['):
            while not lines[i].strip().startswith(']'):
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ' + lines[i].strip()
            i += 1
        ins = _instr(m, s)
        if ins is not None:
            ins.block = blk
            blk.instrs.append(ins)
    return m


def _global(m, ln):
    mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
    nm, rest = mm.group(1).strip('"'), mm.group(2)
    if ' alias ' in ' ' + rest.split('@')[0] + ' ':
        tgt = re.search(r'ptr @("[^"]*"|[-a-zA-Z$._0-9]+)\s*$', rest)
        m.aliases[nm] = tgt.group(1).strip('"')
        return
    const = re.search(r'\bconstant\b', rest.split('"')[0]) is not None
    ext = re.search(r'\bexternal\b', rest.split('"')[0]) is not None
    body = re.split(r'\b(?:global|constant)\s', rest, maxsplit=1)
    init = None
    ty = None
    if len(body) == 2:
        try:
            p = Parser(m, tokenize(body[1]))
            ty = p.type()
            if not ext:
                init = p.value(ty)
        except IRError:
            init = None
    dbg = re.search(r'!dbg !(\d+)', rest)
    m.globals[nm] = {'const': const, 'ext': ext, 'type': ty, 'init': init,
                     'internal': bool(re.match(r'(private|internal)\b', rest)),
                     'dbg': int(dbg.group(1)) if dbg else None}


def _define(m, ln):
    mm = re.match(r'define\s+(.*?)@("[^"]*"|[-a-zA-Z$._0-9]+)\((.*)$', ln)
    f = Function(mm.group(2).strip('"'))
    f.module = m
    f.internal = 'internal' in mm.group(1).split() or 'private' in mm.group(1).split()
    d = re.search(r'!dbg !(\d+)', ln)
    f.dbg = int(d.group(1)) if d else None
    pre = tokenize(mm.group(1))
    # return type: last parsable type in prefix
    p = Parser(m, pre)
    f.ret = None
    while p.i < len(pre):
        k, v = p.peek()
        if k == 'word' and not re.fullmatch(r'i\d+|ptr|void|float|double', v):
            if v in ('dereferenceable', 'align', 'dereferenceable_or_null', 'range', 'comdat'):
                p.skip_attrs()
            else:
                p.i += 1
            continue
        if k in ('word', 'local') or v in ('{', '[', '<'):
            f.ret = p.type()
            break
        p.i += 1
    p = Parser(m, tokenize('(' + mm.group(3)))
    p.expect('(')
    while not p.accept(')'):
        if p.accept('...'):
            continue
        t = p.type()
        p.skip_attrs()
        k, v = p.peek()
        if k == 'local':
            p.i += 1
            f.params.append((t, v[1:].strip('"')))
        else:
            f.params.append((t, str(len(f.params))))
        p.accept(',')
    m.functions[f.name] = f
    return f


BINOPS = set('add sub mul sdiv udiv srem urem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
CASTS = set('sext zext trunc bitcast ptrtoint inttoptr sitofp uitofp fptosi fptoui fpext fptrunc'.split())


def _instr(m, s):
    ins = Instr()
    ins.text = s
    d = re.search(r'!dbg !(\d+)', s)
    ins.dbg = int(d.group(1)) if d else None
    body = s
    # cut metadata tail
    cut = re.search(r', ![a-z]', body)
    if cut:
        body = body[:cut.start()]
    p = Parser(m, tokenize(body))
    ins.res = None
    ins.x = None
    ins.ops = []
    ins.ty = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        ins.res = p.next()[1][1:].strip('"')
        p.i += 1
    p.skip_attrs()
    op = p.next()[1]
    ins.op = op
    if op in BINOPS:
        p.skip_attrs()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins.ty = t
        ins.ops = [a, b]
    elif op == 'fneg':
        p.skip_attrs()
        t = p.type()
        ins.ty = t
        ins.ops = [p.value(t)]
    elif op in CASTS:
        p.skip_attrs()
        a = p.tv()
        p.expect('to')
        ins.ty = p.type()
        ins.ops = [a]
    elif op in ('icmp', 'fcmp'):
        p.skip_attrs()
        ins.x = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins.ty = INT(1)
        ins.ops = [a, b]
    elif op == 'load':
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        ins.ty = t
        ins.ops = [p.tv()]
    elif op == 'store':
        p.accept('volatile')
        a = p.tv()
        p.expect(',')
        ins.ops = [a, p.tv()]
        ins.ty = VOID
    elif op == 'alloca':
        ins.ty = PTR
        ins.x = p.type()
        ins.ops = []
        if p.accept(','):
            if p.peek()[1] != 'align':
                ins.ops = [p.tv()]
    elif op == 'getelementptr':
        p.skip_attrs()
        ins.x = p.type()
        p.expect(',')
        ins.ops = [p.tv()]
        while p.accept(','):
            ins.ops.append(p.tv())
        ins.ty = PTR
    elif op == 'phi':
        p.skip_attrs()
        t = p.type()
        ins.ty = t
        ins.x = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = p.next()[1][1:].strip('"')
            p.expect(']')
            ins.x.append((v, b))
            if not p.accept(','):
                break
    elif op == 'select':
        p.skip_attrs()
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        ins.ty = a.t
        ins.ops = [c, a, b]
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.i += 1
            ins.x = [p.next()[1][1:].strip('"')]
        else:
            c = p.tv()
            p.expect(',')
            p.expect('label')
            a = p.next()[1][1:].strip('"')
            p.expect(',')
            p.expect('label')
            b = p.next()[1][1:].strip('"')
            ins.ops = [c]
            ins.x = [a, b]
    elif op == 'switch':
        c = p.tv()
        p.expect(',')
        p.expect('label')
        dflt = p.next()[1][1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            v = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((v, p.next()[1][1:].strip('"')))
        ins.ops = [c]
        ins.x = (dflt, cases)
    elif op == 'ret':
        t = p.type()
        ins.ty = t
        if t.k != 'void':
            ins.ops = [p.value(t)]
    elif op in ('call', 'invoke'):
        p.skip_attrs()
        if p.peek()[1] in ('fastcc', 'ccc', 'coldcc'):
            p.i += 1
            p.skip_attrs()
        t = p.type()
        if t.k == 'fn':
            t = t.a
        ins.ty = t
        p.skip_attrs()
        if p.peek()[1] == 'asm':
            raise IRError('inline asm')
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type()
            p.skip_attrs()
            if at.k == 'metadata':
                # skip to , or )
                while p.peek()[1] not in (',', ')'):
                    p.i += 1
                p.accept(',')
                continue
            args.append(p.value(at))
            p.accept(',')
        ins.x = callee
        ins.ops = args
    elif op == 'unreachable':
        pass
    elif op in ('extractvalue',):
        a = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        ins.ops = [a]
        ins.x = idx
        ins.ty = a.t
    elif op in ('insertvalue',):
        a = p.tv()
        p.expect(',')
        b = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        ins.ops = [a, b]
        ins.x = idx
        ins.ty = a.t
    elif op == 'freeze':
        a = p.tv()
        ins.ops = [a]
        ins.ty = a.t
    elif op in ('extractelement', 'insertelement', 'shufflevector'):
        ins.op = 'vecop'
        ins.ty = None
    else:
        raise IRError('instruction %r' % s)
    return ins


def _finish(f):
    for b in f.blocks.values():
        t = b.term
        if t.op == 'br':
            b.succs = list(t.x)
        elif t.op == 'switch':
            b.succs = [t.x[0]] + [l for _, l in t.x[1]]
        else:
            b.succs = []
    for b in f.blocks.values():
        for s in b.succs:
            f.blocks[s].preds.append(b.name)


# ------------------------------------------------------------ layout
class Layout:
    def __init__(self, mod):
        self.m = mod
        self.cache = {}

    def resolve(self, t):
        while t.k == 'named':
            if t.a not in self.m.types:
                raise IRError('type ' + t.a)
            t = self.m.types[t.a]
        return t

    def size_align(self, t):
        key = id(t)
        if key in self.cache:
            return self.cache[key][0]
        r = self._sa(t)
        self.cache[key] = (r, t)
        return r

    def _sa(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.a + 7) // 8
            n = 1
            while n < b:
                n *= 2
            return n, min(n, 8)
        if t.k == 'ptr':
            return 8, 8
        if t.k == 'float':
            return 4, 4
        if t.k == 'double':
            return 8, 8
        if t.k == 'x86_fp80':
            return 16, 16
        if t.k == 'array':
            s, a = self.size_align(t.b)
            return s * t.a, a
        if t.k == 'vector':
            s, a = self.size_align(t.b)
            return s * t.a, s * t.a
        if t.k == 'struct':
            off, al, _ = self.struct(t)
            return off, al
        if t.k == 'opaque':
            return 1, 1
        raise IRError('size of %r' % t)

    def struct(self, t):
        off = 0
        al = 1
        offs = []
        for f in t.a:
            s, a = self.size_align(f)
            if t.b:
                a = 1
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
        off = (off + al - 1) // al * al
        return off, al, offs


# ------------------------------------------------------------ debug info
class Debug:
    def __init__(self, mod):
        self.m = mod
        self.cache = {}

    def node(self, i):
        if i in self.cache:
            return self.cache[i]
        s = self.m.md.get(i)
        if s is None:
            return None
        s2 = re.sub(r'^distinct ', '', s)
        if s2.startswith('!{'):
            r = ('list', [int(x[1:]) if x.startswith('!') and x[1:].isdigit() else None
                          for x in re.findall(r'![0-9]+|null|!"[^"]*"|[a-z0-9]+ [^,}]+', s2[2:])])
        else:
            mm = re.match(r'!(\w+)\(', s2)
            d = {}
            for k, v in _MD_FIELD.findall(s2[mm.end():] if mm else ''):
                if v.startswith('"'):
                    v = v[1:-1]
                elif v.startswith('!'):
                    v = int(v[1:])
                d[k] = v
            r = (mm.group(1) if mm else '?', d)
        self.cache[i] = r
        return r

    def loc(self, i):
        """(file, line) of a DILocation, outermost scope file"""
        n = self.node(i) if i is not None else None
        if not n or n[0] != 'DILocation':
            return None
        line = int(n[1].get('line', 0))
        sc = n[1].get('scope')
        fn = self.scope_file(sc)
        return (fn, line)

    def scope_file(self, sc):
        seen = 0
        while sc is not None and seen < 50:
            seen += 1
            n = self.node(sc)
            if not n:
                return None
            f = n[1].get('file')
            if isinstance(f, int):
                ff = self.node(f)
                return ff[1].get('filename')
            sc = n[1].get('scope')
        return None

    def fn_name(self, f):
        n = self.node(f.dbg) if f.dbg is not None else None
        if not n:
            return f.name
        d = n[1]
        nm = d.get('name', f.name)
        sc = d.get('scope')
        if isinstance(sc, int):
            s = self.node(sc)
            if s and s[0] == 'DICompositeType':
                nm = s[1].get('name', '?') + '::' + nm
        return nm

    def strip(self, t):
        """strip typedefs/cv -> composite or basic node id"""
        while isinstance(t, int):
            n = self.node(t)
            if n and n[0] == 'DIDerivedType' and n[1].get('tag') in (
                    'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                t = n[1].get('baseType')
                continue
            return t
        return t

    def composites(self):
        """name -> {byte offset: (field name, type id)} for complete structs"""
        out = {}
        for i, s in self.m.md.items():
            if 'DICompositeType(' in s and ('DW_TAG_structure_type' in s or 'DW_TAG_class_type' in s) \
                    and 'elements:' in s:
                n = self.node(i)
                d = n[1]
                name = d.get('name')
                if not name:
                    continue
                el = self.node(d['elements'])
                flds = {}
                for e in el[1]:
                    if e is None:
                        continue
                    en = self.node(e)
                    if en and en[0] == 'DIDerivedType' and en[1].get('tag') == 'DW_TAG_member':
                        flds[int(en[1].get('offset', '0')) // 8] = (en[1].get('name'), en[1].get('baseType'))
                out[name] = (flds, int(d.get('size', '0')) // 8, d.get('scope'), i)
        return out
