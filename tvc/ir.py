"""Reader for textual LLVM IR (as clang 18 writes it): types, globals, functions, loops, debug-info layouts."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:[-a-zA-Z$._0-9]+|"[^"]*"))
 |(?P<md>![a-zA-Z0-9._]*)
 |(?P<attr>\#[0-9]+)
 |(?P<num>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
 |(?P<ell>\.\.\.)
 |(?P<word>[a-zA-Z_$][-a-zA-Z0-9_.$]*)
 |(?P<p>[][(){}<>,=*:;|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise SyntaxError('ir token: ' + s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


# ---------- types ----------
class T:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.a
        if self.k == 'arr':
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'named':
            return self.a
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return self.k


PTR = T('ptr')
VOID = T('void')
DBL = T('double')
FLT = T('float')
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = T('int', n)
    return _ints[n]


# ---------- constants / operands ----------
# operands: ('loc', name) ('glob', name) ('int', v) ('null',) ('undef',) ('zero',) ('fp', bits) ('gep', ty, base, idxs)
#           ('cast', op, ty, val) ('agg', [..]) ('str', bytes)
PATTR = {'noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nonnull', 'immarg',
         'returned', 'readnone', 'nofree', 'inreg', 'nest', 'swiftself', 'nosync', 'nounwind', 'mustprogress', 'noreturn', 'cold'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'captures'}


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise SyntaxError('expected %s got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    def type(self):
        v = self.next()
        if v == 'ptr':
            t = PTR
        elif v == 'void':
            t = VOID
        elif v == 'double':
            t = DBL
        elif v == 'float':
            t = FLT
        elif v in ('metadata', 'label', 'x86_fp80'):
            t = T(v)
        elif re.fullmatch(r'i[0-9]+', v):
            t = I(int(v[1:]))
        elif v[0] == '%':
            t = T('named', v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = T('arr', n, e)
        elif v == '<' and self.peek() == '{':
            self.next()
            t = self._struct()
            t.b = 'packed'
            self.expect('>')
        elif v == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = T('vec', n, e)
        elif v == '{':
            t = self._struct()
        elif v == 'opaque':
            t = T('opaque')
        else:
            raise SyntaxError('type? %r in %r' % (v, ' '.join(x[1] for x in self.t)[:300]))
        if self.peek() == '(':  # function type
            d = 0
            while True:
                w = self.next()
                if w == '(':
                    d += 1
                elif w == ')':
                    d -= 1
                    if d == 0:
                        break
            t = T('fn', t)
        return t

    def _struct(self):
        fs = []
        if not self.eat('}'):
            while True:
                fs.append(self.type())
                if self.eat('}'):
                    break
                self.expect(',')
        return T('struct', fs)

    def value(self, ty):
        k = self.kind()
        v = self.next()
        if k == 'id':
            return ('loc', v) if v[0] == '%' else ('glob', v)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if k == 'num':
            if ty.k in ('double', 'float'):
                import struct
                if v.startswith('0x'):
                    return ('fp', int(v, 16))
                return ('fp', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            return ('int', int(v))
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type()
            self.expect(',')
            self.type()
            base = self.value(PTR)
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', bt, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            self.expect('(')
            st = self.type()
            sv = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('cast', v, st, sv, dt)
        if v in ('add', 'sub', 'mul'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            t1 = self.type()
            a = self.value(t1)
            self.expect(',')
            self.type()
            b = self.value(t1)
            self.expect(')')
            return ('cbin', v, t1, a, b)
        if k == 'str':
            return ('str', unescape(v))
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next()
                close = '}'
            out = []
            if not self.eat(close):
                while True:
                    et = self.type()
                    out.append((et, self.value(et)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if v == '<' and close == '}':
                self.expect('>')
            return ('agg', out)
        raise SyntaxError('value? %r in %r' % (v, ' '.join(x[1] for x in self.t)[:300]))

    def skip_pattrs(self):
        while True:
            p = self.peek()
            if p in PATTR:
                self.next()
            elif p in PATTR_ARG:
                self.next()
                if self.eat('('):
                    d = 1
                    while d:
                        w = self.next()
                        d += (w == '(') - (w == ')')
                else:
                    self.next()
            else:
                return

    def typed(self):
        t = self.type()
        self.skip_pattrs()
        return t, self.value(t)


def unescape(s):
    s = s[2:-1] if s[0] == 'c' else s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line', 'dbg')

    def __init__(self, op, dst, ty, a):
        self.op, self.dst, self.ty, self.a, self.dbg = op, dst, ty, a, None

    def __repr__(self):
        return '%s = %s %r %r' % (self.dst, self.op, self.ty, self.a)


class Func:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.params = []      # (type, name)
        self.ret = None
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self._cfg = None
        self.sp = None

    @property
    def entry(self):
        return self.order[0]

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'}
MDSUF = re.compile(r'(, ![a-zA-Z.]+ !\d+)+\s*$')


def parse_instr(s):
    dbg = None
    m = MDSUF.search(s)
    if m:
        d = re.search(r'!dbg !(\d+)', m.group())
        if d:
            dbg = int(d.group(1))
        s = s[:m.start()]
    p = Parser(tokenize(s))
    dst = None
    if p.kind() == 'id' and p.peek(1) == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    ins = None
    if op == 'br':
        if p.eat('label'):
            ins = Instr('br', None, None, (p.next(),))
        else:
            t, c = p.typed()
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            ins = Instr('cbr', None, t, (c, a, b))
    elif op == 'switch':
        t, c = p.typed()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        ins = Instr('switch', None, t, (c, d, cases))
    elif op == 'ret':
        if p.peek() == 'void':
            ins = Instr('ret', None, VOID, None)
        else:
            t, v = p.typed()
            ins = Instr('ret', None, t, v)
    elif op == 'unreachable':
        ins = Instr(op, None, None, None)
    elif op == 'alloca':
        t = p.type()
        n = None
        if p.eat(',') and p.peek() != 'align':
            n = p.typed()
        ins = Instr(op, dst, t, n)
    elif op == 'load':
        p.eat('volatile')
        t = p.type()
        p.expect(',')
        _, v = p.typed()
        ins = Instr(op, dst, t, v)
    elif op == 'store':
        p.eat('volatile')
        t, v = p.typed()
        p.expect(',')
        _, q = p.typed()
        ins = Instr(op, None, t, (v, q))
    elif op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        t = p.type()
        p.expect(',')
        _, base = p.typed()
        idx = []
        while p.eat(','):
            idx.append(p.typed())
        ins = Instr('gep', dst, t, (base, idx))
    elif op in ('icmp', 'fcmp'):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz'):
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr(op, dst, t, (pred, a, b))
    elif op in BIN:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast'):
            fl.append(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        ins = Instr('bin', dst, t, (op, a, b, fl))
    elif op == 'fneg':
        t, v = p.typed()
        ins = Instr('fneg', dst, t, v)
    elif op in CAST:
        p.eat('nneg')
        t, v = p.typed()
        p.expect('to')
        t2 = p.type()
        ins = Instr('cast', dst, t2, (op, t, v))
    elif op == 'select':
        _, c = p.typed()
        p.expect(',')
        t, a = p.typed()
        p.expect(',')
        _, b = p.typed()
        ins = Instr(op, dst, t, (c, a, b))
    elif op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            inc.append((v, p.next()))
            p.expect(']')
            if not p.eat(','):
                break
        ins = Instr(op, dst, t, inc)
    elif op == 'call':
        p.skip_pattrs()
        while p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.skip_pattrs()
        t = p.type()
        if t.k == 'fn':
            t = t.a
        if p.peek() == 'asm':
            ins = Instr('asm', dst, t, s)
        else:
            fn = p.value(PTR)
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    at = p.type()
                    if at.k == 'metadata':
                        args = None
                        break
                    p.skip_pattrs()
                    args.append((at, p.value(at)))
                    if p.eat(')'):
                        break
                    p.expect(',')
            ins = Instr('call', dst, t, (fn, args))
    elif op == 'extractvalue':
        t, v = p.typed()
        p.expect(',')
        ins = Instr(op, dst, t, (v, [int(p.next())]))
    elif op == 'insertvalue':
        t, v = p.typed()
        p.expect(',')
        et, ev = p.typed()
        p.expect(',')
        ins = Instr(op, dst, t, (v, (et, ev), [int(p.next())]))
    elif op == 'freeze':
        t, v = p.typed()
        ins = Instr(op, dst, t, v)
    else:
        ins = Instr('unsupported', dst, None, s)
    ins.dbg = dbg
    return ins


class Module:
    def __init__(self, path):
        self.types = {}
        self.globals = {}     # name -> (type, initializer text or None, const?)
        self._ginit = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self.srcfile = None
        self._bodies = {}
        self._parse(path)
        self._structs_di = None
        self._layout = {}

    def _parse(self, path):
        cur = None
        for line in open(path, errors='replace'):
            if cur is not None:
                if line.startswith('}'):
                    cur = None
                else:
                    self._bodies[cur].append(line)
                continue
            if line.startswith('define'):
                m = re.search(r'@([-a-zA-Z$._0-9]+|"[^"]*")\(', line)
                cur = m.group(1)
                self._bodies[cur] = [line]
            elif line.startswith('declare'):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', line)
                if m:
                    self.decls[m.group(1)] = line
            elif line[0] == '%':
                m = re.match(r'(%\S+|%"[^"]*") = type (.*)', line)
                self.types[m.group(1)] = m.group(2).strip()
            elif line[0] == '@':
                m = re.match(r'@([-a-zA-Z$._0-9]+) = (.*)', line)
                self.globals[m.group(1)] = m.group(2)
            elif line[0] == '!':
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', line)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
            elif line.startswith('source_filename'):
                self.srcfile = line.split('"')[1]

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        if name not in self._bodies:
            return None
        lines = self._bodies[name]
        f = Func(name, self)
        hd = lines[0]
        m = re.search(r'!dbg !(\d+)', hd)
        if m:
            f.sp = int(m.group(1))
        i = hd.index('@' + name + '(') if not name.startswith('"') else hd.index('@' + name)
        # parameters
        args = hd[i + len(name) + 1:]
        p = Parser(tokenize(args.split(') #')[0].split(') local_unnamed_addr')[0].split(') !dbg')[0].split(') unnamed_addr')[0] + ')'))
        p.expect('(')
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                else:
                    t = p.type()
                    p.skip_pattrs()
                    f.params.append((t, p.next()))
                if p.eat(')'):
                    break
                p.expect(',')
        lab = None
        buf = None
        for ln in lines[1:]:
            if buf is not None:
                buf += ln
                if ln.strip().startswith(']'):
                    f.blocks[lab].append(parse_instr(buf))
                    buf = None
                continue
            s = ln.split(';')[0].rstrip() if not re.search(r'"[^"]*;', ln) else ln.rstrip()
            if not s.strip():
                continue
            if not s.startswith(' '):
                m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', s)
                lab = '%' + m.group(1)
                f.blocks[lab] = []
                f.order.append(lab)
                continue
            s = s.strip()
            if lab is None:
                lab = '%0'
                f.blocks[lab] = []
                f.order.append(lab)
            if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime.' in s or '@llvm.experimental.noalias' in s:
                continue
            if s.startswith('switch') and s.endswith('['):
                buf = s
                continue
            f.blocks[lab].append(parse_instr(s))
        self.funcs[name] = f
        return f

    # ----- globals -----
    def ginit(self, name):
        """(type, value or None)"""
        if name in self._ginit:
            return self._ginit[name]
        s = self.globals[name]
        s = re.sub(r'(, (align \d+|!dbg !\d+|comdat|section "[^"]*"))+\s*$', '', s.strip())
        p = Parser(tokenize(s))
        ext = False
        const = False
        while p.peek() not in ('global', 'constant'):
            if p.peek() in ('external', 'extern_weak', 'available_externally'):
                ext = True
            p.next()
        const = p.next() == 'constant'
        t = p.type()
        v = None
        if not ext:
            v = p.value(t)
        self._ginit[name] = (t, v, const)
        return self._ginit[name]

    # ----- layout -----
    def resolve(self, t):
        while t.k == 'named':
            d = self.types[t.a]
            if isinstance(d, str):
                d = Parser(tokenize(d)).type()
                self.types[t.a] = d
            t = d
        return t

    def size_align(self, t):
        key = repr(t)
        r = self._layout.get(key)
        if r:
            return r
        u = self.resolve(t)
        if u.k == 'int':
            b = max(1, (u.a + 7) // 8)
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif u.k == 'ptr' or u.k == 'double':
            r = (8, 8)
        elif u.k == 'float':
            r = (4, 4)
        elif u.k == 'arr':
            s, a = self.size_align(u.b)
            r = (s * u.a, a)
        elif u.k == 'struct':
            o = 0
            al = 1
            for f in u.a:
                s, a = self.size_align(f)
                if u.b == 'packed':
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            r = ((o + al - 1) // al * al, al)
        elif u.k == 'opaque':
            r = (0, 1)
        elif u.k == 'x86_fp80':
            r = (16, 16)
        else:
            raise NotImplementedError('size of %r' % u)
        self._layout[key] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        u = self.resolve(t)
        o = 0
        for k, f in enumerate(u.a):
            s, a = self.size_align(f)
            if u.b == 'packed':
                a = 1
            o = (o + a - 1) // a * a
            if k == i:
                return o, f
            o += s
        raise IndexError

    # ----- debug info: struct member offsets by name -----
    def di_struct(self, name):
        """{member: (offset, size)} flattened with dotted names, for struct tag or typedef NAME"""
        if self._structs_di is None:
            self._structs_di = {}
            for k, v in self.md.items():
                if v.startswith('!DICompositeType(tag: DW_TAG_structure_type') or v.startswith('!DICompositeType(tag: DW_TAG_union_type'):
                    m = re.search(r'name: "([^"]*)"', v)
                    if m and 'elements:' in v:
                        self._structs_di.setdefault(m.group(1), k)
                elif v.startswith('!DIDerivedType(tag: DW_TAG_typedef'):
                    m = re.search(r'name: "([^"]*)"', v)
                    b = re.search(r'baseType: !(\d+)', v)
                    if m and b:
                        self._structs_di.setdefault('typedef ' + m.group(1), int(b.group(1)))
        n = self._structs_di.get(name)
        if n is None:
            n = self._structs_di.get('typedef ' + name)
        out = {}
        if n is None:
            return None
        n, _ = self._strip(n)
        self._flat(n, 0, '', out)
        m = re.search(r'size: (\d+)', self.md[n])
        out['__size__'] = (0, int(m.group(1)) // 8)
        return out

    def _strip(self, n):
        while True:
            v = self.md[n]
            if v.startswith('!DIDerivedType') and re.search(r'tag: DW_TAG_(typedef|const_type|volatile_type)', v):
                b = re.search(r'baseType: !(\d+)', v)
                if not b:
                    return n, v
                n = int(b.group(1))
            else:
                return n, v

    def _flat(self, n, base, pre, out):
        v = self.md[n]
        m = re.search(r'elements: !(\d+)', v)
        if not m:
            return
        for e in re.findall(r'!(\d+)', self.md[int(m.group(1))]):
            d = self.md[int(e)]
            if 'DW_TAG_member' not in d:
                continue
            nm = re.search(r'name: "([^"]*)"', d)
            nm = nm.group(1) if nm else ''
            off = re.search(r'offset: (\d+)', d)
            off = int(off.group(1)) // 8 if off else 0
            sz = re.search(r'size: (\d+)', d)
            sz = int(sz.group(1)) // 8 if sz else 0
            bt = re.search(r'baseType: !(\d+)', d)
            full = (pre + '.' + nm) if pre and nm else (pre or nm)
            if nm:
                out.setdefault(full, (base + off, sz))
            if bt:
                bn, bv = self._strip(int(bt.group(1)))
                if bv.startswith('!DICompositeType(tag: DW_TAG_structure_type') or bv.startswith('!DICompositeType(tag: DW_TAG_union_type'):
                    self._flat(bn, base + off, full, out)

    def line(self, dbg):
        if dbg is None:
            return None
        v = self.md.get(dbg, '')
        m = re.search(r'line: (\d+)', v)
        return int(m.group(1)) if m else None


class Cfg:
    def __init__(self, f):
        self.succ = {}
        self.pred = {b: [] for b in f.order}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                s = [t.a[0]]
            elif t.op == 'cbr':
                s = [t.a[1], t.a[2]]
            elif t.op == 'switch':
                s = [t.a[1]] + [c[1] for c in t.a[2]]
            else:
                s = []
            self.succ[b] = list(dict.fromkeys(s))
            for x in self.succ[b]:
                self.pred[x].append(b)
        # dominators (iterative, RPO)
        self.rpo = []
        seen = set()
        st = [(f.entry, iter(self.succ[f.entry]))]
        seen.add(f.entry)
        post = []
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(n)
                st.pop()
        self.rpo = post[::-1]
        num = {b: i for i, b in enumerate(self.rpo)}
        self.idom = self._dom(self.rpo, num, {b: [p for p in self.pred[b] if p in num] for b in self.rpo}, f.entry)
        # natural loops
        self.loops = {}   # header -> set(blocks)
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x not in body:
                            body.add(x)
                            stk.extend(p for p in self.pred[x] if p in num)
        # irreducible check
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if num[s] <= num[b] and not self.dominates(s, b):
                    self.irreducible = True
        # post dominators with virtual exit
        ex = '%%exit'
        rs = {b: list(self.pred[b]) for b in self.rpo}
        rs[ex] = [b for b in self.rpo if not self.succ[b]]
        rp = {b: (list(self.succ[b]) or [ex]) for b in self.rpo}
        rp[ex] = []
        seen = {ex}
        st = [(ex, iter(rs[ex]))]
        post = []
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen and s in num:
                    seen.add(s)
                    st.append((s, iter(rs[s])))
                    break
            else:
                post.append(n)
                st.pop()
        order = post[::-1]
        pn = {b: i for i, b in enumerate(order)}
        self.ipdom = self._dom(order, pn, {b: [p for p in rp.get(b, []) if p in pn] for b in order}, ex)

    @staticmethod
    def _dom(rpo, num, preds, entry):
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == entry:
                    continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    def dominates(self, a, b):
        if b not in self.idom:
            return False
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n
