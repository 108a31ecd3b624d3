r"""Deductive verifier core: symbolic execution of LLVM IR with contracts, inferred and checked loop invariants, SMT discharge.

Every path condition, bounds check, assertion, loop-invariant base/step and postcondition becomes an obligation
(pc /\ facts => goal) that is given to z3 (and to cvc5 when z3 gives up)."""
import time, itertools, os
import z3
from .terms import *
from . import terms as T
from . import lia
from . import ir as IR


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('reg', 'idx', 'off', 'ver')

    def __init__(self, reg, idx=None, off=0, ver=0):
        self.reg = reg
        self.idx = idx if idx is not None else K(0, 64)
        self.off = off
        self.ver = ver

    def __repr__(self):
        return 'Ptr(%s[%s]+%d)' % (self.reg.name, self.idx, self.off)


class Null:
    def __repr__(self):
        return 'NULL'


NULL = Null()


class Opaque:
    """pointer whose target is not one of the tracked regions"""
    __slots__ = ('bv', 'tag')

    def __init__(self, bv, tag=None):
        self.bv, self.tag = bv, tag

    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.bv, self.tag)


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'PtrIte(%s,%s,%s)' % (self.c, self.a, self.b)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def isptr(v):
    return isinstance(v, (Ptr, Null, Opaque, PtrIte, Fn))


class Region:
    _n = itertools.count(1)

    def __init__(self, name, kind, stride=None, layout=None, header=0, uid=None, ctx=()):
        self.id = next(Region._n)
        self.name = '%s#%s' % (name, uid if uid is not None else 'g%d' % self.id)
        self.ctx = tuple(ctx)      # loop counters this region depends on (created inside a summarised loop)
        self.base = name
        self.kind = kind           # heap alloca global ext
        self.stride = stride
        self.layout = layout       # {off: size} for array elements
        self.header = header       # leading bytes addressed as a struct (multiple of stride)
        if self.ctx:
            self.addr = z3.Function('addr!' + self.name, *([z3.BitVecSort(64)] * (len(self.ctx) + 1)))(*self.ctx)
        else:
            self.addr = z3.BitVec('addr!' + self.name, 64)
        self.hooks = {}            # field offset -> fn(engine,state,ptr,size,ty) for loads
        self.shooks = {}
        self.readonly = False
        self.untracked = False

    def __repr__(self):
        return self.name


class RS:
    """state of one region"""
    __slots__ = ('len', 'alive', 'ver', 'cells', 'arrs', 'bytes', 'epoch')

    def __init__(self):
        self.len = None       # elements (stride regions) as 64-bit term
        self.bytes = None     # byte size term (when known)
        self.alive = True
        self.ver = 0
        self.epoch = 0
        self.cells = {}
        self.arrs = {}

    def copy(self):
        r = RS.__new__(RS)
        r.len, r.alive, r.ver, r.bytes, r.epoch = self.len, self.alive, self.ver, self.bytes, self.epoch
        r.cells = dict(self.cells)
        r.arrs = dict(self.arrs)
        return r


class Frame:
    __slots__ = ('fn', 'block', 'ip', 'env', 'dst', 'allocas')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.ip, f.env, f.dst, f.allocas = self.fn, self.block, self.ip, dict(self.env), self.dst, list(self.allocas)
        return f


class Fact:
    """forall j. body(j), instantiated for terms found under the trigger functions.
    triggers: list of (func decl, argument position, inverse: arg term -> j)"""
    __slots__ = ('body', 'triggers', 'name', 'arity')

    def __init__(self, body, triggers, name='', arity=1):
        self.body, self.triggers, self.name, self.arity = body, triggers, name, arity


class State:
    __slots__ = ('frames', 'mem', 'pc', 'facts', 'ev', 'wlog', 'ghost', 'trace', 'exactness', 'ret', 'seq', 'nowrap')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.facts = []
        self.ev = []
        self.wlog = []
        self.ghost = {}
        self.trace = ()
        self.exactness = True
        self.seq = 0
        self.nowrap = {}

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.ev = list(self.ev)
        s.wlog = list(self.wlog)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.exactness = self.exactness
        s.seq = self.seq
        s.nowrap = self.nowrap
        return s

    def rs(self, reg):
        return self.mem[reg.id]

    def rsw(self, reg):
        r = self.mem[reg.id].copy()
        self.mem[reg.id] = r
        return r

    @property
    def depth(self):
        return len(self.frames)

    def assume(self, c):
        if c is not True:
            self.pc.append(ZB(c))


class Ob:
    __slots__ = ('kind', 'msg', 'where', 'status', 'model', 'time', 'exact', 'solver')

    def __init__(self, kind, msg, where):
        self.kind, self.msg, self.where = kind, msg, where
        self.status = None
        self.model = None
        self.time = 0.0
        self.exact = True
        self.solver = 'z3'

    def as_dict(self):
        return {'kind': self.kind, 'msg': self.msg, 'where': self.where, 'status': self.status, 'model': self.model,
                'time': round(self.time, 3), 'exact': self.exact, 'solver': self.solver}


class Program:
    def __init__(self, modules):
        self.modules = modules
        self.by_name = {}
        for m in modules:
            for n in m._bodies:
                self.by_name.setdefault(n, []).append(m)

    def find(self, name, prefer=None):
        if prefer is not None and name in prefer._bodies:
            return prefer.func(name)
        ms = self.by_name.get(name)
        if ms:
            return ms[0].func(name)
        return None


class Engine:
    def __init__(self, prog, models, timeout_ms=20000):
        self.prog = prog
        self.models = models
        self.ringorg = {}
        self.ringred = {}
        self.fcache, self.pcache = {}, {}
        self.obs = []
        self.quiet = 0
        self.timeout = timeout_ms
        self.globals = {}
        self.cnt = itertools.count()
        self.loopctx = []          # counters (z3 consts) of enclosing summarised loops
        self.max_paths = 4000
        self.npaths = 0
        self.hints = []            # fn(engine, loopinfo) -> extra candidate invariants
        self.fname = None
        self.deadline = None
        self.encs = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.unroll = 0            # >0: bounded mode, loops unrolled
        self.bounded_hit = False
        self.on_reenter = None
        self.opts = {}
        self.assumed = set()
        self.inlined = set()
        self.ackermann = []
        self.axioms = []           # global Facts (function symbols of the specification)
        self.loop_log = []
        self.merge = True
        self.cur = None
        self.regs = {}

    # ------------------------------------------------------------ fresh symbols
    def uid(self):
        """symbol number: path-local while executing (so re-executing a loop body yields the same names)"""
        if self.cur is not None:
            self.cur.seq += 1
            return str(self.cur.seq)
        return 'g%d' % next(self.cnt)

    def fresh(self, name, w=64):
        n = '%s!%s' % (name, self.uid())
        if self.loopctx:
            sorts = [z3.BitVecSort(64)] * len(self.loopctx)
            rng = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
            return z3.Function(n, *sorts, rng)(*self.loopctx)
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def fresh_fn(self, name, *widths):
        """fresh uninterpreted function of the given argument widths (last = result); closed over loop counters"""
        n = '%s!%s' % (name, self.uid())
        dom = [z3.BitVecSort(64)] * len(self.loopctx) + [z3.BitVecSort(w) for w in widths[:-1]]
        f = z3.Function(n, *dom, z3.BoolSort() if widths[-1] == 1 else z3.BitVecSort(widths[-1]))
        ctx = list(self.loopctx)
        if not ctx:
            return lambda *a: f(*[Z(x) for x in a]), f
        return lambda *a: f(*ctx, *[Z(x) for x in a]), f

    # ------------------------------------------------------------ regions
    def new_region(self, st, name, kind, stride=None, layout=None, length=None, nbytes=None, header=0):
        r = Region(name, kind, stride, layout, header, self.uid(), self.loopctx)
        self.regs[r.id] = r
        s = RS()
        s.len = length
        s.bytes = nbytes
        st.mem[r.id] = s
        return r

    def arr_default(self, st, reg, off, size):
        """closure with arbitrary contents for an array field"""
        n = '%s.e%d.f%d' % (reg.name, st.mem[reg.id].epoch, off)
        f = z3.Function(n, *([z3.BitVecSort(64)] * (len(reg.ctx) + 1)), z3.BitVecSort(size * 8))
        return lambda k, f=f, ctx=reg.ctx: f(*ctx, Z(k))

    def cell_default(self, st, reg, off, size):
        n = '%s.e%d.%d' % (reg.name, st.mem[reg.id].epoch, off)
        if reg.ctx:
            return z3.Function(n, *([z3.BitVecSort(64)] * len(reg.ctx)), z3.BitVecSort(size * 8))(*reg.ctx)
        return z3.BitVec(n, size * 8)

    def global_ptr(self, st, name, mod):
        key = name
        if name in self.prog.by_name or (name in mod.decls):
            return Fn(name)
        if key not in self.globals:
            r = Region('@' + name, 'global')
            r.gname = name
            self.regs[r.id] = r
            self.globals[key] = (r, mod)
        r, _ = self.globals[key]
        if r.id not in st.mem:
            st.mem[r.id] = RS()
            self.global_init(st, r)
        return Ptr(r)

    def global_init(self, st, r):
        name = r.gname
        s = st.mem[r.id]
        m = self.globals[name][1]
        if name not in m.globals or ' external ' in (' ' + ' '.join(m.globals[name].split()[:5]) + ' '):
            for mm in self.prog.modules:
                if name in mm.globals and ' external ' not in (' ' + ' '.join(mm.globals[name].split()[:5]) + ' '):
                    m = mm
                    break
        try:
            t, v, const = m.ginit(name)
            s.bytes = K(m.size(t), 64) if m.size(t) else None
            if t.k == 'arr':
                es = m.size(t.b)
                r.stride = es if es in (16, 8, 4, 2, 1) and t.b.k != 'named' else None
                if r.stride:
                    s.len = K(t.a, 64)
            if v is not None and const:
                self._init_const(st, r, s, m, t, v, 0)
        except KeyError:
            pass

    def _init_const(self, st, r, s, m, t, v, off):
        if r.stride:
            # constant table: make closures
            vals = []
            if v[0] == 'str':
                vals = [K(b, 8) for b in v[1]]
            elif v[0] == 'agg':
                vals = [K(x[1][1], x[0].a) for x in v[1] if x[1][0] == 'int']
            elif v[0] == 'zero':
                vals = None
            if vals is None:
                s.arrs[0] = (r.stride, lambda k, w=r.stride * 8: K(0, w))
            elif vals:
                dflt = self.arr_default(st, r, 0, r.stride)

                def clo(k, vals=vals, dflt=dflt):
                    if isinstance(k, K):
                        return vals[k.v] if k.v < len(vals) else dflt(k)
                    e = dflt(k)
                    for i in range(len(vals) - 1, -1, -1):
                        e = ite(eq(k, K(i, 64)), vals[i], e)
                    return e
                s.arrs[0] = (r.stride, clo)
            return
        u = m.resolve(t)
        if u.k == 'struct':
            for i in range(len(u.a)):
                o, ft = m.field_off(t, i)
                fv = v[1][i][1] if v[0] == 'agg' else v
                self._init_const(st, r, s, m, ft, fv, off + o)
        elif u.k == 'arr':
            es = m.size(u.b)
            if v[0] == 'str':
                for i, b in enumerate(v[1]):
                    s.cells[off + i] = (1, K(b, 8))
            else:
                for i in range(u.a):
                    fv = v[1][i][1] if v[0] == 'agg' else v
                    self._init_const(st, r, s, m, u.b, fv, off + i * es)
        else:
            s.cells[off] = (m.size(u), self.const(st, m, u, v))

    # ------------------------------------------------------------ constants
    def const(self, st, mod, ty, v):
        k = v[0]
        if k == 'int':
            if ty.k == 'int' and ty.a == 1:
                return bool(v[1])
            return K(v[1], ty.a)
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.global_ptr(st, v[1][1:], mod)
        if k == 'undef':
            if ty.k == 'int':
                return UNDEF if ty.a == 1 else self.fresh('undef', ty.a)
            return UNDEF
        if k == 'zero':
            u = mod.resolve(ty)
            if u.k == 'int':
                return K(0, u.a) if u.a > 1 else False
            if u.k == 'ptr':
                return NULL
            if u.k == 'double':
                return K(0, 64)
            if u.k == 'struct':
                return tuple(self.const(st, mod, t, v) for t in u.a)
        if k == 'fp':
            return K(v[1], 64)
        if k == 'gep':
            base = self.const(st, mod, IR.PTR, v[2])
            return self.gep(st, mod, v[1], base, [(t, self.const(st, mod, t, x)) for t, x in v[3]])
        if k == 'cast':
            x = self.const(st, mod, v[2], v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'cbin':
            a = self.const(st, mod, v[2], v[3])
            b = self.const(st, mod, v[2], v[4])
            return self.binop(st, v[1], a, b, v[2].a)
        raise Unsupported('const %r' % (v,))

    def val(self, st, ty, v):
        if v[0] == 'loc':
            try:
                return st.frames[-1].env[v[1]]
            except KeyError:
                raise Unsupported('undefined local %s in %s' % (v[1], st.frames[-1].fn.name))
        return self.const(st, st.frames[-1].fn.mod, ty, v)

    # ------------------------------------------------------------ pointers
    def enc(self, p):
        if isinstance(p, Null):
            return K(0, 64)
        if isinstance(p, Opaque):
            return p.bv
        if isinstance(p, Fn):
            t = z3.BitVec('fn!' + p.name, 64)
            self.encs[t.get_id()] = (t, p)
            return t
        if isinstance(p, PtrIte):
            return ite(p.c, self.enc(p.a), self.enc(p.b))
        if isinstance(p, Ptr):
            st = p.reg.stride or 1
            t = p.reg.addr
            if not (isinstance(p.idx, K) and p.idx.v == 0 and p.off == 0):
                t = add(add(t, mul(p.idx, K(st, 64))), K(p.off, 64))
            t = Z(t)
            self.encs[t.get_id()] = (t, p)
            return t
        raise Unsupported('enc %r' % (p,))

    def dec(self, t, tag=None):
        if isinstance(t, K):
            return NULL if t.v == 0 else Opaque(t, tag)
        e = self.encs.get(t.get_id())
        if e is not None:
            return e[1]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = self.dec(norm(t.arg(1)), tag), self.dec(norm(t.arg(2)), tag)
            if not (isinstance(a, Opaque) and isinstance(b, Opaque)):
                return PtrIte(t.arg(0), a, b)
        return Opaque(t, tag)

    def norm_ptr(self, p):
        if isinstance(p, Ptr) and p.reg.stride:
            s = p.reg.stride
            if p.off >= s or p.off < 0:
                return Ptr(p.reg, add(p.idx, K(p.off // s, 64)), p.off % s, p.ver)
        return p

    def gep(self, st, mod, ty, base, idx):
        off = 0
        sidx = []   # (size, term)
        t = ty
        first = True
        for it, iv in idx:
            if first:
                sz = mod.size(t)
                first = False
            else:
                u = mod.resolve(t)
                if u.k == 'struct':
                    o, t = mod.field_off(t, iv.v)
                    off += o
                    continue
                elif u.k == 'arr':
                    t = u.b
                    sz = mod.size(t)
                else:
                    raise Unsupported('gep into %r' % u)
            if isinstance(iv, K):
                off += sz * sgn(iv.v, iv.w)
            else:
                sidx.append((sz, sext(iv, 64)))
        return self.ptr_add(st, base, off, sidx)

    def ptr_add(self, st, base, off, sidx=()):
        if isinstance(base, PtrIte):
            return PtrIte(base.c, self.ptr_add(st, base.a, off, sidx), self.ptr_add(st, base.b, off, sidx))
        if isinstance(base, Null):
            if not sidx and off == 0:
                return base
            t = K(off, 64)
            for sz, x in sidx:
                t = add(t, mul(x, K(sz, 64)))
            if isinstance(t, K) and t.v == 0:
                return NULL
            return Opaque(t, 'null+')
        if isinstance(base, Opaque):
            t = add(base.bv, K(off, 64))
            for sz, x in sidx:
                t = add(t, mul(x, K(sz, 64)))
            if off == 0 and not sidx:
                return base
            o = self.opaque_region(st, base)
            if o is not None:
                return self.ptr_add(st, o, off, sidx)
            return Opaque(t, '%s+%d' % (base.tag, off) if base.tag and not sidx else None)
        if isinstance(base, Ptr):
            r = base.reg
            i = base.idx
            o = base.off + off
            for sz, x in sidx:
                if r.stride is None:
                    r.stride = sz
                    if sz == 1:
                        r.stride = next((k for k in (16, 8, 4, 2) if div_exact(x, k) is not None), 1)
                    i = base.idx
                if sz == r.stride:
                    i = add(i, x)
                elif sz % r.stride == 0:
                    i = add(i, mul(x, K(sz // r.stride, 64)))
                else:
                    d = div_exact(mul(x, K(sz, 64)), r.stride)
                    if d is None:
                        d = div_exact(simp(mul(x, K(sz, 64))), r.stride)
                    if d is None:
                        w = self.widen(st, x)
                        d = div_exact(mul(w, K(sz, 64)), r.stride) if w is not None else None
                    if d is None:
                        raise Unsupported('gep stride %d into region %s of stride %d' % (sz, r.name, r.stride))
                    i = add(i, d)
            return self.norm_ptr(Ptr(r, i, o, base.ver))
        raise Unsupported('gep base %r' % (base,))

    def widen(self, st, x):
        """zext(a * c) with a product that provably fits: zext(a) * c"""
        x = simp(x)
        if isinstance(x, K):
            return None
        if x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0 and x.num_args() == 2:
            y = x.arg(1)
        elif x.decl().kind() == z3.Z3_OP_ZERO_EXT:
            y = x.arg(0)
        else:
            return None
        c = 1
        if y.decl().kind() == z3.Z3_OP_BMUL and y.num_args() == 2 and z3.is_bv_value(y.arg(0)):
            c, a = y.arg(0).as_long(), y.arg(1)
        elif y.decl().kind() == z3.Z3_OP_CONCAT and y.num_args() == 2 and z3.is_bv_value(y.arg(1)) and y.arg(1).as_long() == 0 and y.arg(0).decl().kind() == z3.Z3_OP_EXTRACT \
                and y.arg(0).params()[1] == 0 and y.arg(0).arg(0).size() == y.size():
            c, a = 1 << y.arg(1).size(), y.arg(0).arg(0)
        else:
            return None
        w = y.size()
        if self.prove(st, ule(a, K(((1 << w) - 1) // c, w)), 3000) is not True:
            return None
        return mul(zext(a, 64), K(c, 64))

    def opaque_region(self, st, p):
        """hook: map an opaque pointer to a lazily created region (dict in ghost)"""
        m = st.ghost.get('opq')
        if m:
            r = m.get(p.bv.get_id() if not isinstance(p.bv, K) else ('k', p.bv.v))
            if r is not None:
                return Ptr(r[1], ver=st.mem[r[1].id].ver)
        return None

    def materialize(self, st, p, name):
        """give an opaque pointer a struct region with arbitrary contents"""
        r0 = self.opaque_region(st, p)
        if r0 is not None:
            return r0
        m = dict(st.ghost.get('opq', {}))
        r = self.new_region(st, name or (p.tag or 'obj'), 'ext')
        m[p.bv.get_id() if not isinstance(p.bv, K) else ('k', p.bv.v)] = (p.bv, r)
        st.ghost['opq'] = m
        if not isinstance(p.bv, K):
            self.encs[Z(r.addr).get_id()] = (r.addr, p)
        return Ptr(r)

    # ------------------------------------------------------------ solving
    def insts(self, st, goals, rounds=2, facts=None):
        facts = st.facts + self.axioms if facts is None else facts
        if not facts:
            return []
        out = []
        done = set()
        todo = [ZB(g) for g in goals]
        seen = set()
        trig = {}
        for fi, f in enumerate(facts):
            for (d, pos, inv) in f.triggers:
                trig.setdefault(d.get_id() if not isinstance(d, str) else d, []).append((fi, f, pos, inv))
        for r in range(rounds):
            new = []
            st_ = list(todo)
            while st_:
                x = st_.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                st_.extend(x.children())
                if z3.is_app(x) and x.num_args():
                    for (fi, f, pos, inv) in trig.get(x.decl().get_id(), ()):
                        try:
                            if isinstance(pos, tuple):
                                js = inv(*[norm(x.arg(q)) for q in pos])
                            else:
                                js = inv(norm(x.arg(pos)))
                        except z3.Z3Exception:
                            continue
                        if js is None:
                            continue
                        if not isinstance(js, tuple):
                            js = (js,)
                        js = tuple(simp(j) for j in js)
                        key = (fi,) + tuple((j.v if isinstance(j, K) else j.get_id()) for j in js)
                        if key in done:
                            continue
                        done.add(key)
                        b = f.body(*js)
                        if b is True:
                            continue
                        out.append(ZB(b))
                        new.append(ZB(b))
            todo = new
            if not new:
                break
        return out

    def _solver(self, tmo):
        s = z3.Solver()
        s.set('timeout', tmo)
        return s

    def _check(self, asserts, tmo):
        self.nqueries += 1
        t = time.time()
        zs = [ZB(a) for a in asserts]
        first = 400
        self.how = 'z3'
        s = self._solver(min(first, tmo))
        s.add(*zs)
        r = s.check()
        if r == z3.unknown and tmo > first:
            if has_fp(zs) and fp_unsat(zs, tmo):
                r = z3.unsat
                self.how = 'z3 (bit-vectors and floats, uninterpreted applications abstracted)'
            elif lia.unsat(zs, min(tmo, 8000)):
                r = z3.unsat
                self.how = 'z3 (integer translation)'
            else:
                s = self._solver(tmo)
                s.add(*zs)
                r = s.check()
        self.solver_time += time.time() - t
        return r, s

    def feasible(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        sc = z3.simplify(c)
        if z3.is_true(sc):
            # pc assumed feasible
            return True
        if z3.is_false(sc):
            return False
        key = (c.get_id(),) + tuple(x.get_id() for x in st.pc)
        hit = self.fcache.get(key)
        if hit is not None:
            return hit[0]
        r, s = self._check(st.pc + [c], 1500)
        self.fcache[key] = (r != z3.unsat, c, list(st.pc))
        return r != z3.unsat

    def prove(self, st, g, tmo=None, extra=()):
        """True/False/None(unknown) ; model on failure in self.last_model"""
        self.last_model = None
        if g is True:
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if g is False:
            ng = z3.BoolVal(True)
        else:
            g = z3.simplify(g)
            if z3.is_true(g):
                return True
            ng = z3.Not(g)
        base = list(st.pc) + list(extra) + [ng]
        facts = st.facts + self.axioms
        key = (tuple(x.get_id() for x in base), tuple(map(id, facts)))
        if key in self.pcache:
            return True
        tmo = tmo or self.timeout
        if facts:
            r = None
            if any(not f.triggers for f in facts):
                pass
            inst = self.insts(st, base, rounds=3)
            r, s = self._check(base + inst, tmo)
        else:
            r, s = self._check(base, tmo)
        if r == z3.unsat:
            self.pcache[key] = (base, facts)
            return True
        if r == z3.sat:
            self.last_model = s.model()
            return False
        return None

    def where(self, st):
        if not st.frames:
            return self.fname
        out = []
        for f in reversed(st.frames[-4:]):
            ln = None
            blk = f.fn.blocks.get(f.block)
            if blk:
                ins = blk[min(f.ip, len(blk) - 1)]
                ln = f.fn.mod.line(ins.dbg)
            out.append('%s:%s' % (f.fn.name, ln))
        return ' < '.join(out)

    def check(self, st, g, kind, msg):
        """obligation: pc => g. Afterwards g is assumed."""
        if g is True:
            if not self.quiet:
                o = Ob(kind, msg, self.where(st))
                o.status = 'proved'
                o.solver = 'trivial'
                self.obs.append(o)
            return True
        if self.quiet:
            st.assume(g) if g is not False else st.pc.append(z3.BoolVal(False))
            return True
        o = Ob(kind, msg, self.where(st))
        t = time.time()
        r = self.prove(st, g)
        if r is None:
            r2 = self._cvc5(st, g)
            if r2:
                r = True
                o.solver = 'cvc5'
        o.time = time.time() - t
        o.exact = st.exactness
        if r is True:
            o.status = 'proved'
            if o.solver == 'z3':
                o.solver = getattr(self, 'how', 'z3')
        elif r is False:
            o.status = 'failed'
            o.model = self.describe(st, self.last_model)
            o.msg += ' | goal: ' + str(simp(g))[:400]
        else:
            o.status = 'unknown'
            o.msg += ' | goal: ' + str(simp(g))[:400]
        self.obs.append(o)
        if g is False:
            st.pc.append(z3.BoolVal(False))
        else:
            st.assume(g)
        return r is True

    def _cvc5(self, st, g):
        import subprocess, tempfile
        base = list(st.pc) + [z3.Not(ZB(g))]
        inst = self.insts(st, base, rounds=3)
        s = z3.Solver()
        s.add(*[ZB(a) for a in base + inst])
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % self.timeout], input=txt, capture_output=True, text=True,
                               timeout=self.timeout / 1000 + 5)
            return p.stdout.strip().startswith('unsat')
        except Exception:
            return False

    def describe(self, st, m):
        if m is None:
            return None
        d = {}
        for k, t in st.ghost.get('watch', {}).items():
            try:
                v = m.eval(Z(t) if not isinstance(t, bool) and not z3.is_bool(t) else t, model_completion=True)
                d[k] = v.as_long() if z3.is_bv_value(v) else str(v)
            except Exception:
                pass
        return d

    # ------------------------------------------------------------ memory access
    def check_access(self, st, p, size, what):
        r = p.reg
        s = st.mem.get(r.id)
        if s is None:
            raise Unsupported('region %s not in state' % r.name)
        if s.alive is not True:
            self.check(st, False if s.alive is False else s.alive, 'memory', '%s of freed memory %s' % (what, r.base))
        if p.ver != s.ver:
            self.check(st, False, 'memory', '%s through a stale pointer into %s (moved by realloc)' % (what, r.base))
        if r.stride and s.len is not None and not (r.header and isinstance(p.idx, K) and p.idx.v * r.stride < r.header):
            idx = p.idx if not r.header else sub(p.idx, K(r.header // r.stride, 64))
            n = (p.off + size + r.stride - 1) // r.stride
            if n <= 1:
                self.check(st, ult(idx, s.len), 'memory', '%s within bounds of %s' % (what, r.base))
            else:
                self.check(st, And(ult(idx, s.len), ule(add(idx, K(n, 64)), s.len)), 'memory', '%s within bounds of %s' % (what, r.base))
        elif s.bytes is not None and not r.stride:
            if not (isinstance(p.idx, K) and p.idx.v == 0):
                raise Unsupported('symbolic index in struct region %s' % r.name)
            if p.off < 0:
                self.check(st, False, 'memory', '%s before the start of %s' % (what, r.base))
            else:
                self.check(st, ule(K(p.off + size, 64), s.bytes), 'memory', '%s within bounds of %s' % (what, r.base))

    def load(self, st, p, size, isp, what='load', chk=True):
        """value of `size` bytes at p: bv (or pointer if isp)"""
        if isinstance(p, PtrIte):
            d = self.decide(st, p.c)
            if d is not None:
                return self.load(st, p.a if d else p.b, size, isp, what, chk)
            raise ForkOn(p.c)
        if isinstance(p, (Null,)):
            self.check(st, False, 'memory', '%s through NULL' % what)
            raise Dead()
        if isinstance(p, Opaque):
            q = self.opaque_region(st, p)
            if q is None:
                h = self.opts.get('opaque_load')
                q = h(self, st, p, size) if h else None
                if q is None:
                    if p.tag and p.tag.startswith('null+'):
                        self.check(st, False, 'memory', '%s through an offset NULL pointer' % what)
                        raise Dead()
                    # memory owned by the engine: a fixed function of the address during the call
                    st.ghost['extread'] = True
                    if size in (1, 2):
                        f = z3.Function('ext4', z3.BitVecSort(64), z3.BitVecSort(32))
                        return extract(f(Z(p.bv)), size * 8 - 1, 0)
                    f = z3.Function('ext%d' % size, z3.BitVecSort(64), z3.BitVecSort(size * 8))
                    return self.as_ty(f(Z(p.bv)), size, isp, '%s->' % p.tag)
            p = q
        if isinstance(p, Fn) or p is UNDEF:
            raise Unsupported('load from %r' % p)
        p = self.norm_ptr(p)
        if chk:
            self.check_access(st, p, size, what)
        r = p.reg
        s = st.mem[r.id]
        if r.stride and not (r.header and isinstance(p.idx, K) and p.idx.v * r.stride + p.off < r.header):
            h = r.hooks.get(p.off)
            if h:
                return h(self, st, p, size, isp)
            idx = p.idx if not r.header else sub(p.idx, K(r.header // r.stride, 64))
            v = self.arr_load(st, r, idx, p.off, size)
            return self.as_ty(v, size, isp, '%s[].%d' % (r.base, p.off))
        off = p.off + (p.idx.v * r.stride if r.stride and p.idx.v else 0)
        h = r.hooks.get(off)
        if h:
            v = h(self, st, p, size, isp)
            if v is not None:
                return v
        return self.cell_load(st, r, off, size, isp)

    def as_ty(self, v, size, isp, tag=None):
        if isp:
            if isptr(v) or v is UNDEF:
                return v
            return self.dec(v, tag)
        if isptr(v):
            return self.enc(v)
        return v

    def cell_load(self, st, r, off, size, isp):
        s = st.mem[r.id]
        c = s.cells.get(off)
        if c is not None and c[0] == size:
            return self.as_ty(c[1], size, isp, '%s+%d' % (r.base, off))
        # contained in a larger cell
        for o in range(off, max(off - 16, -1), -1):
            c = s.cells.get(o)
            if c is not None and o + c[0] >= off + size:
                v = self.as_ty(c[1], c[0], False)
                v = extract(v, (off - o + size) * 8 - 1, (off - o) * 8)
                return self.as_ty(v, size, isp)
            if c is not None and o + c[0] > off:
                break
        # composed of smaller cells
        over = sorted((o, c) for o, c in s.cells.items() if o < off + size and o + c[0] > off)
        if over:
            # fill gaps with fresh bytes
            pos = off
            parts = []
            ok = True
            for o, c in over:
                if o < pos:
                    ok = False
                    break
                if o > pos:
                    parts.append((pos, self.cell_load(st, r, pos, o - pos, False)) if (o - pos) in (1, 2, 4, 8) else (pos, self.cell_default(st, r, pos, o - pos)))
                parts.append((o, self.as_ty(c[1], c[0], False)))
                pos = o + c[0]
            if ok and pos <= off + size:
                if pos < off + size:
                    parts.append((pos, self.cell_load(st, r, pos, off + size - pos, False)) if (off + size - pos) in (1, 2, 4, 8) else (pos, self.cell_default(st, r, pos, off + size - pos)))
                v = parts[0][1]
                for _, x in parts[1:]:
                    v = concat(x, v)
                return self.as_ty(v, size, isp)
            raise Unsupported('overlapping cells in %s at %d' % (r.name, off))
        if r.kind == 'alloca' and r.base not in ('retval',):
            st.ghost['uninit_read'] = True
        w = size
        o = off
        if size < 4 and off % 4 + size <= 4 and not any(x < off - off % 4 + 4 and x + c[0] > off - off % 4 for x, c in s.cells.items()):
            w, o = 4, off - off % 4
        v = self.cell_default(st, r, o, w)
        s2 = st.rsw(r)
        s2.cells[o] = (w, v)
        if w != size:
            v = extract(v, (off - o + size) * 8 - 1, (off - o) * 8)
        return self.as_ty(v, size, isp, '%s+%d' % (r.base, off))

    def arr_field(self, st, r, off, size):
        """(field offset, field size, closure) holding off..off+size"""
        s = st.mem[r.id]
        for fo, (fs, clo) in s.arrs.items():
            if fo <= off and off + size <= fo + fs:
                return fo, fs, clo
        fo, fs = off, size
        if r.layout:
            for lo, ls in r.layout.items():
                if lo <= off and off + size <= lo + ls:
                    fo, fs = lo, ls
        else:
            if size < 4 and r.stride >= 16:
                fo, fs = off - off % 4, 4
            for xo, (xs, _) in s.arrs.items():
                if xo < fo + fs and fo < xo + xs:
                    return None
        if fo > off or fo + fs < off + size:
            return None
        for xo, (xs, _) in s.arrs.items():
            if xo < fo + fs and fo < xo + xs:
                return None
        clo = self.arr_default(st, r, fo, fs)
        # cells written before the stride was known
        pre = [(o, c) for o, c in s.cells.items() if not r.header or o >= r.header]
        s2 = st.rsw(r)
        for o, c in pre:
            o2 = o - r.header
            if o2 % r.stride == fo and c[0] == fs:
                clo = (lambda k, i=K(o2 // r.stride, 64), v=self.as_ty(c[1], c[0], False), old=clo: ite(eq(k, i), v, old(k)))
                del s2.cells[o]
        s2.arrs[fo] = (fs, clo)
        return fo, fs, clo

    def arr_load(self, st, r, idx, off, size):
        f = self.arr_field(st, r, off, size)
        if f is None:
            # composite: concat of fields
            s = st.mem[r.id]
            pos = off
            v = None
            while pos < off + size:
                step = None
                for fs in (8, 4, 2, 1):
                    if pos + fs <= off + size and self.arr_field(st, r, pos, fs) is not None:
                        step = fs
                        break
                if step is None:
                    raise Unsupported('array access %s off %d size %d' % (r.name, off, size))
                x = self.arr_load(st, r, idx, pos, step)
                v = x if v is None else concat(x, v)
                pos += step
            return v
        fo, fs, clo = f
        v = clo(idx) if not self.ring else at_leaves(clo, idx)
        if fs != size:
            v = extract(v, (off - fo + size) * 8 - 1, (off - fo) * 8)
        return v

    def store(self, st, p, size, v, what='store', chk=True):
        if isinstance(p, PtrIte):
            d = self.decide(st, p.c)
            if d is not None:
                return self.store(st, p.a if d else p.b, size, v, what, chk)
            raise ForkOn(p.c)
        if isinstance(p, Null):
            self.check(st, False, 'memory', '%s through NULL' % what)
            raise Dead()
        if isinstance(p, Opaque):
            q = self.opaque_region(st, p)
            if q is None:
                if p.tag and p.tag.startswith('null+'):
                    self.check(st, False, 'memory', '%s through an offset NULL pointer' % what)
                    raise Dead()
                raise Unsupported('%s through untracked pointer %s tag=%s' % (what, str(p.bv)[:80], p.tag))
            p = q
        if not isinstance(p, Ptr):
            raise Unsupported('store to %r' % p)
        p = self.norm_ptr(p)
        if chk:
            self.check_access(st, p, size, what)
        r = p.reg
        if r.readonly:
            self.check(st, False, 'frame', '%s to read-only %s' % (what, r.base))
        if v is UNDEF:
            v = self.fresh('undef', size * 8)
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            v = zext(v, size * 8)
        if r.stride and not (r.header and isinstance(p.idx, K) and p.idx.v * r.stride + p.off < r.header):
            h = r.shooks.get(p.off)
            if h and h(self, st, p, size, v):
                return
            idx = p.idx if not r.header else sub(p.idx, K(r.header // r.stride, 64))
            return self.arr_store(st, r, idx, p.off, size, self.as_ty(v, size, False))
        off = p.off + (p.idx.v * r.stride if r.stride and p.idx.v else 0)
        h = r.shooks.get(off)
        if h and h(self, st, p, size, v):
            return
        self.cell_store(st, r, off, size, v)

    def cell_store(self, st, r, off, size, v):
        s = st.rsw(r)
        c = s.cells.get(off)
        if c is None or c[0] != size:
            for o in [o for o, c in s.cells.items() if o < off + size and o + c[0] > off]:
                cs, cv = s.cells.pop(o)
                if o >= off and o + cs <= off + size:
                    continue
                cv = self.as_ty(cv, cs, False)
                if o < off:
                    s.cells[o] = (off - o, extract(cv, (off - o) * 8 - 1, 0))
                if o + cs > off + size:
                    s.cells[off + size] = (o + cs - off - size, extract(cv, cs * 8 - 1, (off + size - o) * 8))
        s.cells[off] = (size, v)

    def arr_store(self, st, r, idx, off, size, v):
        f = self.arr_field(st, r, off, size)
        if f is None:
            pos = off
            while pos < off + size:
                step = None
                for fs in (8, 4, 2, 1):
                    if pos + fs <= off + size and self.arr_field(st, r, pos, fs) is not None:
                        step = fs
                        break
                if step is None:
                    raise Unsupported('array store %s off %d size %d' % (r.name, off, size))
                self.arr_store(st, r, idx, pos, step, extract(v, (pos - off + step) * 8 - 1, (pos - off) * 8))
                pos += step
            return
        fo, fs, clo = f
        if fs != size:
            old = clo(idx)
            lo, hi = (off - fo) * 8, (off - fo + size) * 8
            w = fs * 8
            x = v
            if lo > 0:
                x = concat(x, extract(old, lo - 1, 0))
            if hi < w:
                x = concat(extract(old, w - 1, hi), x)
            v = x
        s = st.rsw(r)
        s.arrs[fo] = (fs, mkupd(clo, idx, v))
        st.wlog.append(('w', r, fo, idx, v, True))

    def bulk(self, st, r, fo, fs, clo, info=None):
        s = st.rsw(r)
        s.arrs[fo] = (fs, clo)
        st.wlog.append(('bulk', r, fo, info, None, True))

    def decide(self, st, c):
        """True/False if the path condition settles c, else None"""
        if isinstance(c, bool):
            return c
        t = self.feasible(st, c)
        f = self.feasible(st, Not(c))
        if t and f:
            return None
        if not t and not f:
            raise Dead()
        return t

    # ------------------------------------------------------------ positions in a ring buffer (x & mask, mask + 1 a power of two)
    ring = False

    def ring_masks(self, st):
        return st.ghost.get('pow2', ())

    def ring_mask(self, st, m):
        """64-bit form of m if m + 1 is proved to be a power of two below 2^32, else None"""
        M = zext(m, 64)
        for x in self.ring_masks(st):
            if same(x, M):
                return x
        alias = st.ghost.get('pow2alias', {})
        if not isinstance(M, K) and M.get_id() in alias:
            return alias[M.get_id()][1]
        for x in self.ring_masks(st):
            if self.prove(st, eq(x, M), 1000) is True:
                if not isinstance(M, K):
                    st.ghost['pow2alias'] = dict(alias)
                    st.ghost['pow2alias'][M.get_id()] = (M, x)
                return x
        if self.prove(st, And(eq(and_(M, add(M, K(1, 64))), K(0, 64)), ule(M, K((1 << 31) - 1, 64))), 4000) is not True:
            return None
        st.ghost['pow2'] = self.ring_masks(st) + (M,)
        return M

    def wide(self, t, M):
        """64-bit term congruent to t modulo M + 1 (a power of two that divides 2^32), with inner masking removed"""
        if isinstance(t, K):
            return K(sgn(t.v, t.w), 64)
        o = self.ringorg.get(t.get_id())
        if o is not None and same(o[2], M):
            return o[1]
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = K(0, 64)
            for c in t.children():
                r = add(r, self.wide(norm(c), M))
            return r
        if k == z3.Z3_OP_BSUB:
            return sub(self.wide(norm(t.arg(0)), M), self.wide(norm(t.arg(1)), M))
        if k == z3.Z3_OP_BNEG:
            return neg(self.wide(norm(t.arg(0)), M))
        if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            return mul(self.wide(norm(t.arg(1)), M), K(sgn(t.arg(0).as_long(), t.size()), 64))
        if (k == z3.Z3_OP_EXTRACT and t.params()[1] == 0 and t.params()[0] >= 31) or k == z3.Z3_OP_ZERO_EXT and t.arg(0).size() >= 32:
            x = norm(t.arg(0))
            if isinstance(x, K) or x.get_id() in self.ringorg or x.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT):
                return self.wide(x, M)
        return zext(simp(t), 64)

    def ring_val(self, st, X, M, pieces=None):
        """X & M as a choice between X, X - (M+1), X + (M+1), where the range of X allows it"""
        W = add(M, K(1, 64))
        top = add(M, W)
        if pieces is None:
            pieces = self.ring_pieces(st, X, M)
        if pieces == '0':
            return X
        if pieces == '+':
            return ite(ule(X, M), X, sub(X, W))
        if pieces == '-':
            return ite(sle(K(0, 64), X), X, add(X, W))
        if pieces == '+-':
            return ite(sle(K(0, 64), X), ite(ule(X, M), X, sub(X, W)), add(X, W))
        return and_(X, M)

    def ring_pieces(self, st, X, M):
        W = add(M, K(1, 64))
        top = add(M, W)
        hi0, hi1, lo0, lo1 = sle(X, M), sle(X, top), sle(K(0, 64), X), sle(neg(W), X)
        P = lambda g: self.prove(st, g, 3000) is True
        if P(And(lo0, hi1)):
            return '0' if P(hi0) else '+'
        if P(And(lo1, hi0)):
            return '-'
        if P(And(lo1, hi1)):
            return '+-'
        return None

    def ring_and(self, st, a, b, w):
        for x, m in ((a, b), (b, a)):
            M = self.ring_mask(st, m)
            if M is None:
                continue
            X = self.wide(x, M)
            R = self.ring_val(st, X, M)
            if isinstance(R, K):
                return K(R.v, w)
            self.ringorg[R.get_id()] = (R, X, M)
            self.ringred[R.get_id()] = (R, X, M)
            if w == 64:
                return R
            st.nowrap = dict(st.nowrap)
            T.NOWRAP = st.nowrap
            T.NOWRAP[R.get_id()] = (R, 32)
            return trunc(R, w)
        return None

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b, w):
        if w == 1:
            a = False if a is UNDEF else a
            b = False if b is UNDEF else b
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if b is True:
                    return Not(a)
                if a is True:
                    return Not(b)
                if b is False:
                    return a
                if a is False:
                    return b
                return ne(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptr_diff(st, a.p, b.p)
            if op in ('add', 'sub') and isinstance(a, PtrInt) and isinstance(b, K):
                return PtrInt(self.ptr_add(st, a.p, sgn(b.v, 64) * (1 if op == 'add' else -1)))
            a = self.enc(a.p) if isinstance(a, PtrInt) else a
            b = self.enc(b.p) if isinstance(b, PtrInt) else b
        if a is UNDEF:
            a = self.fresh('undef', w)
        if b is UNDEF:
            b = self.fresh('undef', w)
        f = {'add': add, 'sub': sub, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
             'udiv': udiv, 'sdiv': sdiv, 'urem': urem, 'srem': srem}.get(op)
        if f is None:
            return self.fpop(op, a, b)
        if op == 'and' and self.ring and not isinstance(a, K) and not isinstance(b, K) and w in (32, 64):
            r = self.ring_and(st, a, b, w)
            if r is not None:
                return r
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.check(st, ne(b, K(0, w)), 'arith', 'division by zero')
            if op in ('sdiv', 'udiv') and isinstance(b, K):
                d = div_exact(a, b.v)
                if d is not None and op == 'sdiv':
                    # exact when the quotient does not overflow; pointer differences
                    return d
        return f(a, b)

    def fpop(self, op, a, b):
        fa, fb = tofp(a), tofp(b)
        rm = z3.RNE()
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, fa, fb)
        return z3.fpToIEEEBV(r)

    def ptr_diff(self, st, p, q):
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.reg is q.reg:
            s = p.reg.stride or 1
            return add(mul(sub(p.idx, q.idx), K(s, 64)), K(p.off - q.off, 64))
        return sub(self.enc(p), self.enc(q))

    def ptr_cmp(self, st, pred, a, b):
        if isinstance(a, PtrIte):
            return ite(a.c, self.ptr_cmp(st, pred, a.a, b), self.ptr_cmp(st, pred, a.b, b))
        if isinstance(b, PtrIte):
            return ite(b.c, self.ptr_cmp(st, pred, a, b.a), self.ptr_cmp(st, pred, a, b.b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg:
            s = a.reg.stride or 1
            if a.off == b.off:
                x, y = a.idx, b.idx
            else:
                x = add(mul(a.idx, K(s, 64)), K(a.off, 64))
                y = add(mul(b.idx, K(s, 64)), K(b.off, 64))
            if pred in ('eq', 'ne'):
                return ICMP[pred](x, y)
            # ordering of pointers into one object: as signed element offsets
            return ICMP[{'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pred, pred)](x, y)
        if pred in ('eq', 'ne'):
            if isinstance(a, (Ptr, Fn)) and isinstance(b, (Ptr, Null, Fn)) or isinstance(a, Null) and isinstance(b, (Ptr, Fn)):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    r = a.name == b.name
                else:
                    r = False
                return r if pred == 'eq' else not r
            if isinstance(a, Null) and isinstance(b, Null):
                return pred == 'eq'
            return ICMP[pred](self.enc(a), self.enc(b))
        return ICMP[pred](self.enc(a), self.enc(b))

    def cast(self, st, op, sty, v, dty):
        if v is UNDEF:
            if dty.k == 'int' and dty.a > 1:
                return self.fresh('undef', dty.a)
            return UNDEF
        if op == 'trunc':
            if dty.a == 1:
                return ne(and_(v, K(1, width(v))), K(0, width(v))) if not (isinstance(v, K)) else bool(v.v & 1)
            if isinstance(v, PtrInt):
                v = self.enc(v.p)
            return trunc(v, dty.a)
        if op == 'zext':
            return zext(v, dty.a)
        if op == 'sext':
            return sext(v, dty.a)
        if op == 'ptrtoint':
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            return self.dec(v)
        if op == 'bitcast':
            return v
        if op in ('sitofp', 'uitofp'):
            f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
            return norm(z3.simplify(z3.fpToIEEEBV(f(z3.RNE(), Z(v), z3.Float64()))))
        if op in ('fptosi', 'fptoui'):
            f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
            return f(z3.RTZ(), tofp(v), z3.BitVecSort(dty.a))
        raise Unsupported('cast ' + op)

    def fcmp(self, pred, a, b):
        x, y = tofp(a), tofp(b)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred == 'uno':
            r = un
        elif pred == 'ord':
            r = z3.Not(un)
        elif pred == 'une':
            r = z3.Not(z3.fpEQ(x, y))
        elif pred == 'one':
            r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))
        elif pred[0] == 'o':
            r = base[pred[1:]](x, y)
        else:
            r = z3.Or(un, base[pred[1:]](x, y))
        return simp(r)


def has_fp(zs):
    seen, todo = set(), list(zs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x):
            return True
        todo.extend(x.children())
    return False


def fp_unsat(zs, tmo):
    """unsatisfiable even when every uninterpreted application is an arbitrary constant"""
    apps = {}
    seen = set()

    def walk(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps[x.get_id()] = x
            return
        for c in x.children():
            walk(c)
    zs = [z3.simplify(z) for z in zs]
    for z in zs:
        walk(z)
    sub_ = [(a, z3.Const('abs!%d' % i, a.sort())) for i, a in enumerate(apps.values())]
    s = z3.SolverFor('QF_BVFP')
    s.set('timeout', tmo)
    for z in zs:
        s.add(z3.substitute(z, *sub_) if sub_ else z)
    return s.check() == z3.unsat


def tofp(v):
    return z3.fpBVToFP(Z(v), z3.Float64())


class PtrInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Dead(Exception):
    """the path ends (an obligation that cannot hold was reported)"""


class ForkOn(Exception):
    def __init__(self, c):
        self.c = c


def mkupd(clo, idx, v):
    return lambda k: ite(eq(k, idx), v, clo(k))
