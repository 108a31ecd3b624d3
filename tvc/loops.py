"""Loop rule.

A loop is replaced by its exact n-th-iteration semantics: every variable it changes gets a closed form in the iteration counter n
(affine, "value of the previous iteration", array writes at affine indices) or, failing that, an uninterpreted function of n with its
recurrence as a fact; `the loop went round at every j < n' is a fact; inductive invariants are guessed from templates and kept only
when base and step are proved (Houdini). Obligations of the body are then proved for an arbitrary iteration n."""
import z3
from .terms import *
from . import terms as T
from .sym import *
from . import ir as IR
from .execu import TooManyPaths, Bulk, affine, ev_subst, x_subst, Outcome

import os
DBG = bool(os.environ.get('TVC_DBG'))
B64 = z3.BitVecSort(64)


class Var:
    def __init__(self, key, init, w=None, ptr=None):
        self.key, self.init, self.w = key, init, w
        self.form = 'gen'
        self.ptr = ptr            # None (int), 'idx' (Ptr into init.reg), 'opq'
        self.c = 0
        self.H = None             # function n -> term
        self.decl = None
        self.prevterm = None
        self.banned = set()
        self.closed = None
        self.nowrap = False

    def __repr__(self):
        return 'Var(%s,%s,c=%s)' % (self.key, self.form, self.c)


def eqp(E, a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if isptr(a) and isptr(b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.reg is b.reg and a.off == b.off and a.ver == b.ver and same(a.idx, b.idx)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return same(a.bv, b.bv)
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        if isinstance(a, PtrIte) and isinstance(b, PtrIte):
            return (a.c is b.c or (z3.is_expr(a.c) and z3.is_expr(b.c) and a.c.eq(b.c))) and eqp(E, a.a, b.a) and eqp(E, a.b, b.b)
        return type(a) is type(b) and isinstance(a, Null)
    if isptr(a) != isptr(b):
        if isptr(a):
            a = E.enc(a)
        if isptr(b):
            b = E.enc(b)
    if a is UNDEF or b is UNDEF or isinstance(a, PtrInt) or isinstance(b, PtrInt):
        return False
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, K) or isinstance(b, K):
        return isinstance(a, K) and isinstance(b, K) and a == b
    return a.eq(b)


def goto_exits(E, outs, D, outer):
    res = []
    for o in outs:
        if o.kind != 'exit':
            res.append(o)
            continue
        saved = E.cur
        E.cur = o.st
        try:
            r = E.goto(o.st, o.info, D, outer)
        except Dead:
            r = []
        finally:
            E.cur = saved
        res.extend([o.st] if r is None else r)
    return res


def run_once(E, st, D, loop, vals):
    s = st.copy()
    E.enter(s, loop[0], vals)
    return E.explore(s, D, loop)


def summarize(E, st, header, blocks, vals, D, outer, peel=0):
    loop = (header, blocks)
    Df = len(st.frames)
    if outer is not None and Df != D:
        pass
    # constant trip count: unroll
    r = try_unroll(E, st, Df, loop, vals)
    if r is not None:
        return goto_exits(E, r, D, outer)
    if peel == 0:
        r = try_chain(E, st, Df, loop, vals)
        if r is not None:
            return goto_exits(E, r, D, outer)
    L = Loop(E, st, Df, loop, vals)
    L.peel = peel
    try:
        r = L.go()
    except NeedPeel:
        if peel >= 2:
            raise Unsupported('loop pointer variable not summarisable')
        return peel_once(E, st, Df, loop, vals, D, outer, peel)
    return goto_exits(E, r, D, outer)


class NeedPeel(Exception):
    pass


def peel_once(E, st, Df, loop, vals, D, outer, peel):
    outs = run_once(E, st, Df, loop, vals)
    res = []
    for o in outs:
        if o.kind == 'back':
            saved = E.cur
            E.cur = o.st
            try:
                res.extend(summarize(E, o.st, loop[0], loop[1], [(d, o.val[d], ty) for d, _, ty in vals], D, outer, peel + 1))
            finally:
                E.cur = saved
        else:
            res.extend(goto_exits(E, [o], D, outer))
    return res


def try_chain(E, st, Df, loop, vals):
    """a loop that follows a pointer (ZVAL_DEREF retries and the like) and cannot go round more than twice"""
    if not any(isinstance(v, Opaque) or (isinstance(v, Ptr) and not v.reg.stride and v.reg.kind in ('ext', 'alloca')) for _, v, _ in vals):
        return None
    for quiet in (1, 0):
        work, res = [(st, vals, 0)], []
        E.quiet += quiet
        try:
            while work:
                cur, v, k = work.pop()
                outs = run_once(E, cur, Df, loop, v)
                for o in outs:
                    if o.kind != 'back':
                        res.append(o)
                    elif k >= 2 or len(work) > 8:
                        return None
                    else:
                        work.append((o.st, [(d, o.val[d], ty) for d, _, ty in vals], k + 1))
        finally:
            E.quiet -= quiet
    return res


def try_unroll(E, st, Df, loop, vals):
    """a loop whose trip count is a small constant: every iteration is executed (also when the body forks)"""
    if not any(isinstance(v, K) or isinstance(v, Ptr) for _, v, _ in vals) and vals:
        return None
    forks = 0
    for quiet in (1, 0):
        E.quiet += quiet
        work, res = [(st, vals, 0)], []
        try:
            while work:
                cur, v, k = work.pop()
                outs = run_once(E, cur, Df, loop, v)
                backs = [o for o in outs if o.kind == 'back']
                exits = len(outs) - len(backs)
                if quiet and backs:
                    if k > E.MAXUNROLL:
                        return None
                    if len(outs) > 1:
                        # a body that forks is unrolled only where the trip count is visibly constant and small
                        if not E.fork_unroll or k >= E.fork_unroll or not counts(v, [(d, backs[0].val[d], ty) for d, _, ty in vals]):
                            return None
                        forks += 1
                    if len(res) + len(work) > 200:
                        return None
                res.extend(o for o in outs if o.kind != 'back')
                work.extend((o.st, [(d, o.val[d], ty) for d, _, ty in vals], k + 1) for o in backs)
        finally:
            E.quiet -= quiet
    return res


def counts(a, b):
    """some loop variable is a constant that changes from one iteration to the next"""
    for (_, x, _), (_, y, _) in zip(a, b):
        if isinstance(x, K) and isinstance(y, K) and x.v != y.v:
            return True
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and isinstance(x.idx, K) and isinstance(y.idx, K) and (x.idx.v, x.off) != (y.idx.v, y.off):
            return True
    return False


class Loop:
    def __init__(self, E, st, Df, loop, vals):
        self.E, self.st, self.Df, self.loop, self.vals = E, st, Df, loop, vals
        self.vars = {}
        self.tag = E.uid()
        self.n = E.fresh('n')
        self.ctx = list(E.loopctx)
        self.seq0 = st.seq
        self.invs = []
        self.notes = []

    # ---- header valuations
    def decl(self, name, *ws):
        f = z3.Function('%s!%s' % (name, self.tag), *([B64] * (len(self.ctx))), *[z3.BitVecSort(w) for w in ws[:-1]],
                        z3.BoolSort() if ws[-1] == 1 else z3.BitVecSort(ws[-1]))
        return f

    def scalar(self, v, n):
        """integer value (w bits) of a scalar variable at iteration n"""
        if v.form == 'affine':
            if v.w == 1:
                return v.init
            if v.w == 64:
                return add(v.i0(), mul(n, K(v.c, 64)))
            t = add(zext(v.i0(), 64), mul(n, K(v.c, 64)))
            return trunc(t, v.w)
        if v.form == 'ring':
            return self.ring_at(v, n)
        if v.form == 'prev':
            return ite(eq(n, K(0, 64)), v.i0(), subst(v.prevterm, [(Z(self.n), Z(sub(n, K(1, 64))))]))
        if v.decl is None:
            v.decl = self.decl('H:' + str(v.key[-1] if v.key[0] == 'phi' else '%s%s+%s' % (v.key[0], v.key[1], v.key[2:])), 64, v.w)
        return v.decl(*self.ctx, Z(n))

    def ring_at(self, v, n, raw=False):
        """position in a ring buffer: congruent to i0 + c*n modulo W = M+1. kinds: 'mod' (reduced), 'first' (reduced after the first iteration),
        'end' (W instead of 0 after an increment: the wrap test precedes the use)"""
        E = self.E
        M, c, kind = v.ring
        if v.ringX0 is None:
            v.ringX0 = E.wide(v.i0(), M)
        X = add(v.ringX0, mul(n, K(c, 64)))
        i0 = zext(v.i0(), 64)
        ite_ = v.ringmode and not raw
        val = lambda x, q=None: E.ring_val(None, x, M, v.ringmode if ite_ else 'and')
        if kind == 'mod':
            R = val(X)
        elif kind == 'first':
            R = ite(eq(n, K(0, 64)), i0, val(X))
        elif ite_:
            one = K(1, 64)
            R = add(val(sub(X, one)), one)
            if v.ringmode == '+':
                W = add(M, one)
                R = ite(ule(X, W), X, sub(X, W))
            elif v.ringmode == '0':
                R = X
            R = ite(eq(n, K(0, 64)), i0, R) if not v.ringat0 else R
        else:
            R = ite(eq(n, K(0, 64)), i0, add(and_(sub(X, K(1, 64)), M), K(1, 64)))
        if not isinstance(R, K):
            E.ringorg[R.get_id()] = (R, X, M)
            if v.w == 32:
                T.NOWRAP = self.st.nowrap = dict(self.st.nowrap)
                T.NOWRAP[R.get_id()] = (R, 32)
        return trunc(R, v.w)

    def try_ring(self, backs):
        E = self.E
        for v in self.vars.values():
            if v.form != 'gen' or v.key[0] in ('arr', 'ver', 'len') or v.w not in (32, 64) or v.ptr == 'opq' or 'ring' in v.banned:
                continue
            if not hasattr(v, 'ringc'):
                v.ringc = [(M, c, k) for M in E.ring_masks(self.st) for k, c in (('mod', 1), ('mod', -1), ('first', 1), ('first', -1), ('end', 1))]
            while v.ringc:
                v.ring = v.ringc.pop(0)
                v.ringX0, v.ringmode, v.ringat0 = None, None, False
                # the first value must fit the form
                if v.ring[2] == 'mod' and E.prove(self.st, ule(zext(v.i0(), 64), v.ring[0]), 3000) is not True:
                    continue
                v.form = 'ring'
                return True
            v.banned.add('ring')
        return False

    def ring_cong(self, v, x, n1):
        """x is a masked position whose unmasked origin is that of the form at n1: both are the one reduced position of their class"""
        M, c, kind = v.ring
        if kind == 'end' or isinstance(x, K):
            return False
        while z3.is_expr(x) and x.decl().kind() in (z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT):
            if x.decl().kind() == z3.Z3_OP_EXTRACT and (x.params()[1] != 0 or x.params()[0] < 31):
                return False
            x = x.arg(0)
        o = self.E.ringred.get(x.get_id())
        if o is None or not same(o[2], M):
            return False
        d = simp(sub(o[1], add(v.ringX0, mul(n1, K(c, 64)))))
        return isinstance(d, K) and d.v == 0

    def ring_modes(self, backs):
        """replace masking by case distinctions where the invariants bound the position"""
        E = self.E
        ch = False
        self.backcond = Or(*[b.info for b in backs])
        insts = self.instances(backs)
        for v in self.vars.values():
            if v.form != 'ring' or v.ringmode or getattr(v, 'ringtried', False):
                continue
            v.ringtried = True
            M, c, kind = v.ring
            X = add(v.ringX0 if v.ringX0 is not None else E.wide(v.i0(), M), mul(self.n, K(c, 64)))
            s = self.hs.copy()
            for x in insts:
                s.assume(x)
            if kind in ('first', 'end'):
                s.assume(ne(self.n, K(0, 64)))
            if DBG: print('MODE', v, v.ring, X, [str(i)[:200] for i in insts])
            p = E.ring_pieces(s, X if kind != 'end' else sub(X, K(1, 64)), M)
            if DBG: print('-> pieces', p)
            if p is None:
                continue
            v.ringmode = p
            if kind == 'end' and p in ('+', '0'):
                v.ringat0 = E.prove(self.st, And(same(E.wide(v.i0(), M), zext(v.i0(), 64)), ule(zext(v.i0(), 64), M)), 3000) is True
            ch = True
        return ch

    def value(self, v, n):
        if v.ptr == 'idx':
            i = v.init
            return Ptr(i.reg, self.scalar(v, n), i.off, self.vers.get(i.reg.id, i.ver))
        x = self.scalar(v, n)
        if v.ptr == 'opq':
            return self.E.dec(x, v.tag)
        return x

    def clo(self, v):
        if v.form == 'closed':
            return v.closed
        if v.decl is None:
            v.decl = self.decl('C:%s.%s' % (v.key[1], v.key[2]), 64, 64, v.w)
        return lambda k: v.decl(*self.ctx, Z(self.n), Z(k))

    def mkvar(self, key, init, tyw=None):
        if key[0] == 'arr':
            v = Var(key, init, tyw)
            self.vars[key] = v
            return v
        while isinstance(init, PtrIte):
            d = self.E.decide(self.st, init.c)
            if d is None:
                break
            init = init.a if d else init.b
        if isptr(init) or init is UNDEF:
            v = Var(key, init, 64)
            v.tag = None
            if isinstance(init, Ptr) and (init.reg.stride or init.reg.header == 0) and not self.is_struct(init):
                v.ptr = 'idx'
                v.i0 = lambda: init.idx
            elif init is UNDEF:
                v.ptr = 'opq'
                v.i0 = lambda: self.E.fresh('undefinit')
                u = z3.BitVec('undefinit!%s%s' % (self.tag, key[-1]), 64)
                v.i0 = lambda: u
            else:
                v.ptr = 'opq'
                v.tag = init.tag if isinstance(init, Opaque) else None
                v.i0 = lambda: self.E.enc(init)
        else:
            if isinstance(init, PtrInt):
                init = self.E.enc(init.p)
            if isinstance(init, tuple):
                raise Unsupported('aggregate loop variable')
            v = Var(key, init, 1 if isinstance(init, bool) or (z3.is_expr(init) and z3.is_bool(init)) else width(init))
            v.i0 = lambda: init
        self.vars[key] = v
        return v

    def is_exc(self, v):
        g = self.E.globals.get('executor_globals')
        return v.key[0] == 'cell' and g is not None and v.key[1] == g[0].id

    def is_struct(self, p):
        r = p.reg
        if r.stride:
            return False
        s = self.st.mem.get(r.id)
        if s is None:
            return False
        return bool(s.cells) and r.kind in ('ext', 'alloca', 'global')

    def header_state(self):
        E = self.E
        s = self.st.copy()
        s.seq = self.seq0
        s.frames = s.frames[:-1] + [s.frames[-1].copy()]
        self.vers = {}
        for key, v in self.vars.items():
            if key[0] == 'ver':
                rs = s.mem[key[1]].copy()
                rs.ver = ('L', self.tag, key[1])
                s.mem[key[1]] = rs
                self.vers[key[1]] = rs.ver
        vals = []
        for d, init, ty in self.vals:
            v = self.vars[('phi', d)]
            vals.append((d, self.value(v, self.n), ty))
        for key, v in self.vars.items():
            if key[0] == 'cell':
                rs = s.mem[key[1]].copy()
                x = self.value(v, self.n)
                if v.w == 1 and not v.ptr:
                    x = zext(x, 8)
                # drop overlapping cells
                rs.cells[key[2]] = (key[3], x)
                s.mem[key[1]] = rs
            elif key[0] == 'arr':
                rs = s.mem[key[1]].copy()
                rs.arrs[key[2]] = (v.w // 8, self.clo(v))
                s.mem[key[1]] = rs
            elif key[0] == 'len':
                rs = s.mem[key[1]].copy()
                rs.len = self.value(v, self.n)
                rs.bytes = None
                s.mem[key[1]] = rs
        # untouched pointer cells into regions whose version changes are re-based when they were current
        for rid, tok in self.vers.items():
            old = self.st.mem[rid].ver
            for k2, rs in list(s.mem.items()):
                for off, (sz, x) in list(rs.cells.items()):
                    if isinstance(x, Ptr) and x.reg.id == rid and x.ver == old and ('cell', k2, off, sz) in self.vars:
                        pass
        if E.ring:
            s.assume(ult(self.n, K(1 << 62, 64)))
        E.enter(s, self.loop[0], vals)
        return s

    # ---- one quiet pass
    def trial(self):
        E = self.E
        s = self.header_state()
        s.pc = s.pc + [ZB(c) for c in self.invs]
        self.hs = s.copy()
        base = (len(s.pc), len(s.ev), len(s.wlog))
        E.quiet += 1
        E.loopctx = self.ctx + [self.n]
        saved = E.cur
        try:
            outs = E.explore(s, self.Df, self.loop)
        finally:
            E.quiet -= 1
            E.loopctx = list(self.ctx)
            E.cur = saved
        self.outs = outs
        self.maxseq = max([o.st.seq for o in outs] + [self.seq0])
        backs = [o for o in outs if o.kind == 'back']
        for b in backs:
            b.info = And(*b.st.pc[base[0]:]) if len(b.st.pc) > base[0] else True
        self.base = base
        return backs

    def discover(self, backs):
        """memory changed on back paths -> new variables"""
        E = self.E
        new = False
        for b in backs:
            for rid, rs in b.st.mem.items():
                h = self.hs.mem.get(rid)
                if h is None:
                    # lazily created (globals, materialised pointers)
                    g = [r for r, _ in E.globals.values() if r.id == rid]
                    if g and rid not in self.st.mem:
                        s0 = RS()
                        s0.bytes, s0.len = rs.bytes, rs.len
                        s0.cells, s0.arrs = {}, {}
                        self.st.mem[rid] = s0
                        E.global_init(self.st, g[0])
                        new = True
                    continue
                if rs is h:
                    continue
                reg = self.reg_of(rid, b.st)
                if rs.alive is not h.alive:
                    raise Unsupported('loop frees a region allocated before it')
                if rs.epoch != h.epoch:
                    raise Unsupported('loop havocs region')
                if rs.ver != h.ver and ('ver', rid) not in self.vars:
                    self.vars[('ver', rid)] = Var(('ver', rid), h.ver)
                    new = True
                if rs.len is not h.len and not (rs.len is not None and h.len is not None and same(rs.len, h.len)) and ('len', rid) not in self.vars:
                    if h.len is None:
                        if h.bytes is not None and same_opt(rs.bytes, h.bytes):
                            st0 = self.st.rsw(reg)   # stride became known: same size
                            st0.len = rs.len
                            new = True
                        elif h.bytes is None:
                            raise Unsupported('region length')
                        else:
                            E.region_len(self.st, reg)
                            new = True
                    else:
                        self.mkvar(('len', rid), h.len)
                        new = True
                for off, (sz, x) in rs.cells.items():
                    hc = h.cells.get(off)
                    if hc is None:
                        d = E.cell_default(self.hs, reg, off, sz)
                        if z3.is_expr(x) and x.eq(d):
                            s0 = self.st.rsw(reg)
                            s0.cells[off] = (sz, x)
                            continue
                        over = [o for o, c in h.cells.items() if o < off + sz and o + c[0] > off]
                        if over:
                            # written with another granularity: merge the old cells into one
                            s0 = self.st.rsw(reg)
                            if all(off <= o and o + h.cells[o][0] <= off + sz for o in over):
                                val = E.cell_load(self.st, reg, off, sz, False)
                                s0 = self.st.rsw(reg)
                                for o in over:
                                    s0.cells.pop(o, None)
                                    self.vars.pop(('cell', rid, o, h.cells[o][0]), None)
                                s0.cells[off] = (sz, val)
                            else:
                                o = over[0]
                                cs = h.cells[o][0]
                                if o <= off and off + sz <= o + cs:
                                    val = E.cell_load(self.st, reg, off, sz, False)
                                    full = E.as_ty(self.st.mem[rid].cells[o][1], cs, False)
                                    s0 = self.st.rsw(reg)
                                    s0.cells.pop(o)
                                    self.vars.pop(('cell', rid, o, cs), None)
                                    if off > o:
                                        s0.cells[o] = (off - o, extract(full, (off - o) * 8 - 1, 0))
                                    s0.cells[off] = (sz, val)
                                    if o + cs > off + sz:
                                        s0.cells[off + sz] = (o + cs - off - sz, extract(full, cs * 8 - 1, (off + sz - o) * 8))
                                else:
                                    raise Unsupported('cell granularity changes in loop')
                            new = True
                            continue
                        s0 = self.st.rsw(reg)
                        s0.cells[off] = (sz, d)
                        self.mkvar(('cell', rid, off, sz), d)
                        new = True
                    elif hc[0] == sz and not eqp(E, hc[1], x):
                        key = ('cell', rid, off, sz)
                        if key not in self.vars:
                            i = self.st.mem[rid].cells.get(off)
                            i = i[1] if i else hc[1]
                            self.mkvar(key, i)
                            new = True
                    elif hc[0] != sz:
                        # split cell in the initial state
                        val = E.cell_load(self.st, reg, off, sz, False)
                        o, cs = off, hc[0]
                        full = E.as_ty(self.st.mem[rid].cells[o][1], cs, False)
                        s0 = self.st.rsw(reg)
                        if sz < cs:
                            s0.cells[off] = (sz, val)
                            s0.cells[off + sz] = (cs - sz, extract(full, cs * 8 - 1, sz * 8))
                            self.vars.pop(('cell', rid, o, cs), None)
                            new = True
                        else:
                            raise Unsupported('cell granularity changes in loop')
                for fo, (fs, clo) in rs.arrs.items():
                    ha = h.arrs.get(fo)
                    wrote = any(w[1] is reg and w[2] == fo for w in b.st.wlog[self.base[2]:])
                    key = ('arr', rid, fo)
                    if ha is None:
                        E.arr_field(self.st, reg, fo, fs)
                        new = True
                    if wrote and key not in self.vars:
                        a = E.arr_field(self.st, reg, fo, fs)
                        self.mkvar(key, a[2], fs * 8)
                        self.vars[key].reg = reg
                        new = True
                if reg.stride and h.cells and not h.arrs and rs.arrs:
                    pass
        return new

    def reg_of(self, rid, s):
        E = self.E
        r = E.regs.get(rid)
        if r is None:
            raise Unsupported('unknown region %d' % rid)
        return r

    def nexts(self, v, b):
        """raw value of the variable at the end of back path b"""
        key = v.key
        if key[0] == 'phi':
            x = b.val[key[1]]
        elif key[0] == 'cell':
            c = b.st.mem[key[1]].cells.get(key[2])
            if c is None or c[0] != key[3]:
                return self.E.cell_load(b.st, self.reg_of(key[1], b.st), key[2], key[3], bool(v.ptr))
            x = c[1]
        elif key[0] == 'len':
            x = b.st.mem[key[1]].len
            if x is None:
                raise Unsupported('region length unknown after iteration')
        return x

    def next_scalar(self, v, b):
        x = self.nexts(v, b)
        while isinstance(x, PtrIte):
            d = self.E.decide(b.st, x.c)
            if d is None:
                break
            x = x.a if d else x.b
        if v.ptr == 'idx':
            if not isinstance(x, Ptr) or x.reg is not v.init.reg or x.off != v.init.off:
                if isinstance(x, Ptr) and x.reg is v.init.reg:
                    raise Unsupported('pointer variable changes element offset')
                return None
            if x.ver != b.st.mem[x.reg.id].ver:
                return None
            return self.resolve(x.idx, b)
        if v.ptr == 'opq':
            if x is UNDEF:
                return self.E.fresh('undefnext')
            return self.E.enc(x) if isptr(x) else x
        if x is UNDEF:
            return z3.BitVec('undefnext!%s%s' % (self.tag, v.key[-1]), v.w) if v.w != 1 else z3.Bool('undefnext!%s%s' % (self.tag, v.key[-1]))
        if isptr(x):
            x = self.E.enc(x)
        if isinstance(x, PtrInt):
            x = self.E.enc(x.p)
        return self.resolve(x, b)

    def resolve(self, x, b):
        """choices the path condition of a back path settles"""
        for _ in range(4):
            if isinstance(x, (K, bool)) or not z3.is_expr(x) or not z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_bool(x):
                break
            c = x.arg(0)
            key = (c.get_id(), id(b.st))
            d = self.E.decide(b.st, c)
            if d is None:
                break
            x = norm(x.arg(1) if d else x.arg(2))
        return x

    def classify(self, backs):
        ch = False
        n1 = add(self.n, K(1, 64))
        for v in list(self.vars.values()):
            if v.key[0] in ('arr', 'ver'):
                continue
            nx = [self.next_scalar(v, b) for b in backs]
            if any(x is None for x in nx):
                # pointer that leaves its region
                if v.ptr == 'idx' and v.form == 'gen' and not v.init.reg.stride:
                    v.ptr = 'opq'
                    init = v.init
                    v.i0 = lambda init=init: self.E.enc(init)
                    v.tag = None
                    v.decl = None
                    ch = True
                    continue
                raise NeedPeel()
            cur = self.scalar(v, self.n)
            if v.form == 'gen' and 'affine' not in v.banned:
                if v.w == 1:
                    if all(not isinstance(x, bool) and not isinstance(cur, bool) and x.eq(cur) for x in nx):
                        v.form, v.c = 'affine', 0
                        ch = True
                    continue
                ds = [simp(sub(x, cur)) for x in nx]
                if all(isinstance(d, K) for d in ds) and len(set(d.v for d in ds)) == 1:
                    v.form, v.c = 'affine', sgn(ds[0].v, v.w)
                    ch = True
                    continue
                # loop-invariant next that equals the initial value
                if all((isinstance(d, K) and d.v == 0) or eqp(self.E, x, v.i0()) for x, d in zip(nx, ds)):
                    v.form, v.c = 'affine', 0
                    ch = True
                    continue
            elif v.form == 'ring' and not v.ringmode:
                for b, x in zip(backs, nx):
                    if self.ring_cong(v, x, n1):
                        continue
                    r_ = self.E.prove(b.st, eq(x, self.scalar(v, n1)), 5000)
                    if DBG: print('RING', v, v.ring[1:], r_, str(z3.simplify(Z(x)))[:300], '|||', str(z3.simplify(Z(self.scalar(v, n1))))[:300], self.E.last_model if r_ is False else '')
                    if r_ is not True:
                        v.form = 'gen'
                        v.ring = None
                        ch = True
                        break
            elif v.form == 'affine':
                for x in nx:
                    if v.w == 1:
                        ok = x is v.init or (not isinstance(x, bool) and not isinstance(v.init, bool) and x.eq(v.init))
                    else:
                        d = simp(sub(x, self.scalar(v, n1)))
                        ok = isinstance(d, K) and d.v == 0
                    if not ok:
                        v.form = 'gen'
                        v.banned.add('affine')
                        ch = True
                        break
        return ch

    def merged(self, v, backs):
        r = None
        for b in reversed(backs):
            x = self.next_scalar(v, b)
            r = x if r is None else ite(b.info, x, r)
        return r

    def classify_prev(self, backs):
        ch = False
        gens = [v for v in self.vars.values() if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and 'prev' not in v.banned]
        gids = {}
        for v in gens:
            self.scalar(v, self.n)
        for v in gens:
            t = self.merged(v, backs)
            if isinstance(t, (K, bool)) or not uses_decl(t, [g.decl for g in gens if g.decl is not None]):
                v.form = 'prev'
                v.prevterm = t
                ch = True
                break
        for v in self.vars.values():
            if v.form == 'prev' and v not in gens:
                t = self.merged(v, backs)
                same_ = eqp(self.E, t, v.prevterm)
                if not same_:
                    v.prevterm = t
                    v.retry = getattr(v, 'retry', 0) + 1
                    if v.retry > 3:
                        v.form = 'gen'
                        v.banned.add('prev')
                    ch = True
        return ch

    # ---- invariants
    def atoms(self, cond, acc, depth=0):
        if isinstance(cond, bool):
            return
        seen = set()
        stack = [cond]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = x.decl().kind() if z3.is_app(x) else None
            if k in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SLEQ, z3.Z3_OP_SGT, z3.Z3_OP_SGEQ) or \
               (k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(x.arg(0))):
                acc.append((x.arg(0), x.arg(1)))
            if z3.is_bool(x):
                stack.extend(c for c in x.children() if z3.is_bool(c))

    def candidates(self, backs):
        """list of (name, function n -> bool)"""
        E = self.E
        n = self.n
        out = []
        scal = [v for v in self.vars.values() if v.key[0] not in ('arr', 'ver') and v.w not in (1,) and not (v.form == 'affine' and v.c == 0)]
        lims = []
        nid = {Z(n).get_id()}
        for o in self.outs:
            acc = []
            for c in o.st.pc[self.base[0]:]:
                self.atoms(c, acc)
            for a, b in acc:
                for x in (a, b):
                    x = norm(x)
                    if width(x) in (32, 64) and not contains(x, nid):
                        if not any(same(x, y) for y in lims):
                            lims.append(x)
        lims = lims[:8]
        for v in scal:
            val = lambda m, v=v: zext(self.scalar(v, m), 64)
            if v.form == 'affine':
                if v.w < 64:
                    i0 = zext(v.i0(), 64)
                    t = lambda m, v=v, i0=i0: add(i0, mul(m, K(v.c, 64)))
                    out.append(('nowrap %s' % v, lambda m, t=t, v=v: ult(t(m), K(1 << v.w, 64)), v))
                if v.c < 0:
                    out.append(('%s!=0' % v, lambda m, val=val: ne(val(m), K(0, 64))))
                for l in lims:
                    if width(l) == v.w or True:
                        out.append(('%s<=%s' % (v, str(l)[:40]), lambda m, val=val, l=l: ule(val(m), zext(l, 64))))
                        out.append(('%s>=%s' % (v, str(l)[:40]), lambda m, val=val, l=l: ule(zext(l, 64), val(m))))
                        if E.ring and v.c > 0:
                            out.append(('%s<%s' % (v, str(l)[:40]), lambda m, val=val, l=l: ult(val(m), zext(l, 64))))
                continue
            if v.form != 'gen':
                continue
            i0 = zext(v.i0(), 64)
            out.append(('%s>=init' % v, lambda m, val=val, i0=i0: ule(i0, val(m))))
            out.append(('%s<=init' % v, lambda m, val=val, i0=i0: ule(val(m), i0)))
            out.append(('%s-init<=n' % v, lambda m, val=val, i0=i0: And(ule(i0, val(m)), ule(sub(val(m), i0), m))))
            out.append(('init-%s<=n' % v, lambda m, val=val, i0=i0: And(ule(val(m), i0), ule(sub(i0, val(m)), m))))
            out.append(('%s!=0' % v, lambda m, val=val: ne(val(m), K(0, 64))))
            out.append(('%s pow2' % v, lambda m, val=val: eq(and_(val(m), sub(val(m), K(1, 64))), K(0, 64))))
            for l in lims:
                out.append(('%s<=%s' % (v, str(l)[:40]), lambda m, val=val, l=l: ule(val(m), zext(l, 64))))
                out.append(('%s>=%s' % (v, str(l)[:40]), lambda m, val=val, l=l: ule(zext(l, 64), val(m))))
            for u in scal:
                if u is v or u.form == 'prev':
                    continue
                uval = lambda m, u=u: zext(self.scalar(u, m), 64)
                out.append(('%s<=%s' % (v, u), lambda m, val=val, uval=uval: ule(val(m), uval(m))))
                if u.form != 'gen':
                    out.append(('%s>=%s' % (v, u), lambda m, val=val, uval=uval: ule(uval(m), val(m))))
                out.append(('%s==%s' % (v, u), lambda m, val=val, uval=uval: eq(val(m), uval(m))))
        if not any(v.form == 'gen' for v in scal):
            # only what cannot be derived from the history: keep nowrap
            out = [c for c in out if len(c) == 3 or E.ring and ('!=0' in c[0] or ')<' in c[0] and ')<=' not in c[0])]
        for v in scal:
            if v.form == 'ring':
                M, c, kind = v.ring
                for l in lims:
                    d = sub(E.wide(l, M), v.ringX0) if c > 0 else sub(v.ringX0, E.wide(l, M))
                    root = E.ring_val(self.st, d, M)
                    out.append(('n<=root(%s=%s)' % (v, str(l)[:30]), lambda m, root=root: ule(m, root)))
        for h in E.hints:
            out.extend(h(E, self) or [])
        return out

    def next_subst(self, b):
        """pairs mapping every gen symbol at n to its next value, used to evaluate candidates at n+1"""
        return None

    def cand_next(self, f, b):
        """candidate at n+1 along back path b: gen symbols replaced by next terms"""
        n1 = add(self.n, K(1, 64))
        t = f(n1)
        if isinstance(t, bool):
            return t
        pairs = []
        for v in self.vars.values():
            if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and v.decl is not None:
                a = v.decl(*self.ctx, Z(n1))
                x = self.next_scalar(v, b)
                pairs.append((a, ZB(x) if v.w == 1 else Z(x)))
        return subst(t, pairs) if pairs else t

    def houdini(self, backs):
        E = self.E
        cands = self.candidates(backs)
        if not cands:
            return []
        pc0 = [ZB(c) for c in self.st.pc]
        # base
        keep = []
        z = K(0, 64)
        pairs0 = []
        for v in self.vars.values():
            if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and v.decl is not None:
                pairs0.append((v.decl(*self.ctx, Z(z)), ZB(v.i0()) if v.w == 1 else Z(v.i0())))
        for c in cands:
            g = c[1](z)
            g = subst(g, pairs0) if pairs0 and not isinstance(g, bool) else g
            if g is True:
                keep.append(c)
                continue
            if g is False:
                continue
            inst = E.insts(self.st, pc0 + [g], rounds=2)
            r, _ = E._check(pc0 + inst + [Not(g)], 2000)
            if r == z3.unsat:
                keep.append(c)
        if DBG: print('BASE', [c[0] for c in cands], '->', [c[0] for c in keep])
        # step
        changed = True
        while changed and keep:
            changed = False
            inv = [ZB(c[1](self.n)) for c in keep]
            for b in backs:
                goals = [(c, self.cand_next(c[1], b)) for c in keep]
                goals = [(c, g) for c, g in goals if g is not True]
                hyp = [ZB(x) for x in b.st.pc] + inv
                inst = E.insts(b.st, hyp + [ZB(g) for _, g in goals], rounds=2, facts=b.st.facts + E.axioms + self.auxfacts)
                while goals:
                    r, s = E._check(hyp + inst + [Not(And(*[ZB(g) for _, g in goals]))], 5000)
                    if r == z3.unsat:
                        break
                    drop = []
                    if r == z3.sat:
                        m = s.model()
                        for c, g in goals:
                            if not z3.is_true(m.eval(ZB(g), model_completion=True)):
                                drop.append(c)
                    if not drop:
                        # unknown: test one by one
                        for c, g in goals:
                            r1, _ = E._check(hyp + inst + [Not(ZB(g))], 1500)
                            if r1 != z3.unsat:
                                drop.append(c)
                    if not drop:
                        break
                    keep = [c for c in keep if c not in drop]
                    goals = [(c, g) for c, g in goals if c not in drop]
                    changed = True
                if changed:
                    break
        return keep

    # ---- arrays
    def arr_forms(self, backs):
        ch = False
        E = self.E
        for v in self.vars.values():
            if v.key[0] != 'arr' or v.form != 'gen' or 'closed' in v.banned:
                continue
            ws = []
            ok = True
            for b in backs:
                for w in b.st.wlog[self.base[2]:]:
                    if w[1] is v.reg and w[2] == v.key[2]:
                        if w[0] != 'w':
                            ok = False
                            break
                        for lc, leaf in (leaves(w[3]) if E.ring else [(True, w[3])]):
                            bs = b.st
                            if lc is not True:
                                bs = b.st.copy()
                                bs.assume(lc)
                                if not E.feasible(b.st, lc):
                                    continue
                            a = self.semantic_affine(bs, leaf)
                            if a is None or a[0] == 0 or abs(a[0]) > 64:
                                ok = False
                                break
                            ws.append((And(b.info, lc), a[0], a[1], w[4]))
                        if not ok:
                            break
            if DBG: print('ARR', v, ok, [(w[0], str(w[3])[:300]) for b in backs for w in b.st.wlog[self.base[2]:]  if w[1] is v.reg and w[2] == v.key[2]], [(str(w[0])[:900], w[1], str(w[2]), str(w[3])[:200]) for w in ws])
            if not ok:
                self.append_form(v, backs)
                continue
            v.writes = ws
            selfref = False
            d = v.decl
            for c, s, e0, val in ws:
                for x in (c, val):
                    if not isinstance(x, (K, bool)) and (d is not None and uses_decl(x, [d])):
                        selfref = True
            # other gen arrays of this loop referenced: fine (their own facts)
            form = self.closed_form(v, ws)
            if selfref:
                v.form = 'gen'
                v.fact = form
                v.banned.add('closed')
            else:
                v.closed = lambda k, form=form: form(self.n, k)
                v.form = 'closed'
                ch = True
        return ch

    def append_form(self, v, backs):
        """Append lemma. If every iteration writes v at most once, at position pos(n), and pos(n+1) = pos(n)+1 when it writes and pos(n)
        otherwise, and reallocations keep at least pos(n) elements, then (induction on n):
        for all j < n with a write at j: v(n, pos(j)) = value written at j;  and slots below pos(0) are unchanged."""
        E = self.E
        if getattr(v, 'app', None) is not None:
            return
        pos = None
        per = []
        n = self.n
        for b in backs:
            w1 = None
            keeps = []
            for w in b.st.wlog[self.base[2]:]:
                if w[1] is v.reg and w[2] == v.key[2]:
                    if w[0] == 'w':
                        if w1 is not None:
                            return
                        w1 = w
                    elif w[0] == 'realloc' and w1 is None:
                        keeps.append(w[3])
                    else:
                        return
            per.append((b, w1, keeps))
        for b, w1, keeps in per:
            if w1 is None:
                continue
            idx = w1[3]
            if pos is None:
                a = self.semantic_affine(b.st, idx)
                if a is not None and a[0] == 1:
                    pos = ('aff', a[1])
                else:
                    for u in self.vars.values():
                        if u.form != 'gen' or u.key[0] in ('arr', 'ver') or u.w not in (32, 64) or u.ptr == 'opq':
                            continue
                        d = simp(sub(idx, zext(self.scalar(u, n), 64)))
                        if isinstance(d, K) or not (contains(d, {Z(n).get_id()}) or uses_decl(d, [u.decl])):
                            pos = ('gen', u, d)
                            break
                        # narrow arithmetic: try the initial offset
                        for base in (K(0, 64),):
                            if E.prove(b.st, eq(idx, add(base, zext(self.scalar(u, n), 64))), 2000) is True:
                                pos = ('gen', u, base)
                                break
                        if pos:
                            break
            if pos is None:
                return
        if pos is None:
            return
        if pos[0] == 'aff':
            P = lambda m: add(pos[1], m)
        else:
            P = lambda m: add(pos[2], zext(self.scalar(pos[1], m), 64))
        val = None
        W = False
        d = v.decl
        for b, w1, keeps in per:
            for k in keeps:
                if E.prove(b.st, ule(P(n), k), 4000) is not True:
                    self.notes.append('append: keep')
                    return
            if pos[0] == 'aff':
                if w1 is None:
                    return
            else:
                nx = zext(self.next_scalar(pos[1], b), 64)
                cur = zext(self.scalar(pos[1], n), 64)
                if E.prove(b.st, eq(nx, add(cur, K(1, 64)) if w1 is not None else cur), 4000) is not True:
                    self.notes.append('append: position')
                    return
            if w1 is not None:
                if E.prove(b.st, eq(w1[3], P(n)), 4000) is not True:
                    self.notes.append('append: index')
                    return
                x = w1[4]
                if not isinstance(x, K) and uses_decl(x, [d]):
                    return
                val = x if val is None else ite(b.info, x, val)
                W = Or(W, b.info)
        v.app = (P, W, val, any(k for _, _, k in per))

    def semantic_affine(self, bst, t):
        """(coef, base) with t == base + coef*n on path b: syntactically, or after proving that narrow arithmetic does not wrap"""
        if isinstance(t, K):
            return None
        for x in (simp(t), t):
            a = affine(x, self.n) if not isinstance(x, K) else None
            if a is not None:
                return a
        a = widen(t, Z(self.n))
        if a is None:
            return None
        g = eq(t, add(a[1], mul(self.n, K(a[0], 64))))
        return a if self.E.prove(bst, g, 3000) is True else None

    def closed_form(self, v, ws):
        n = self.n
        init = v.init
        grouped = []
        # writes with the same index expression on different paths
        for w in ws:
            grouped.append(w)

        def form(N, k):
            val = init(k)
            bact, bj = False, K(0, 64)
            for c, s, e0, x in grouped:
                d = sub(k, e0) if s > 0 else sub(e0, k)
                j = d if abs(s) == 1 else udiv(d, K(abs(s), 64))
                act = ult(j, N)
                if abs(s) != 1:
                    act = And(act, eq(mul(j, K(abs(s), 64)), d))
                pr = [(Z(n), Z(j))]
                act = And(act, subst(c, pr) if not isinstance(c, bool) else c)
                xv = subst(x, pr)
                if bact is False:
                    better = act
                else:
                    better = And(act, Or(Not(bact), ule(bj, j)))
                val = ite(better, xv, val)
                bact, bj = Or(bact, act), ite(better, j, bj)
            return val
        return form

    def at0(self, P):
        """position before the first iteration"""
        z = K(0, 64)
        t = P(z)
        pairs = []
        for v in self.vars.values():
            if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and v.decl is not None:
                pairs.append((v.decl(*self.ctx, Z(z)), ZB(v.i0()) if v.w == 1 else Z(v.i0())))
        return subst(t, pairs) if pairs and not isinstance(t, K) else t

    def triggers_of(self, terms):
        return triggers_of(terms, Z(self.n))

    # ---- facts
    def mkfacts(self, backs):
        E, n = self.E, self.n
        facts = []
        bc = Or(*[b.info for b in backs])
        self.backcond = bc
        zn = Z(n)
        trig = self.triggers_of([bc])
        # dedupe triggers by (decl,pos,base)
        facts.append(Fact(lambda j: Implies(ult(j, n), subst(bc, [(zn, Z(j))]) if not isinstance(bc, bool) else bc), dedupe(trig), 'history'))
        for v in self.vars.values():
            if v.key[0] == 'ver' or v.form != 'gen' or v.decl is None:
                continue
            pos = len(self.ctx)
            if v.key[0] == 'arr':
                if getattr(v, 'app', None) is not None:
                    P, W, val, re = v.app
                    C_ = lambda k, v=v: v.decl(*self.ctx, zn, Z(k))

                    def body(j, P=P, W=W, val=val, C_=C_):
                        pr = [(zn, Z(j))]
                        w = W if isinstance(W, bool) else subst(W, pr)
                        return Implies(And(ult(j, n), w), eq(C_(P(j)), subst(val, pr)))
                    trg = self.triggers_of([W, val, P(n)])
                    a = affine_any(P(n), zn) if not isinstance(P(n), K) else None
                    if a is not None and a[0] == 1:
                        trg = trg + [(v.decl, pos + 1, lambda t, e0=a[1]: sub(t, e0))]
                    facts.append(Fact(body, dedupe(trg), 'append ' + str(v.key)))
                    p0 = self.at0(P)
                    if re:
                        facts.append(Fact(lambda k, v=v, p0=p0, C_=C_: Implies(ult(k, p0), eq(C_(k), v.init(k))), [(v.decl, pos + 1, lambda t: t)], 'append keeps'))
                    else:
                        facts.append(Fact(lambda k, v=v, p0=p0, P=P, C_=C_: Implies(Or(ult(k, p0), ule(P(n), k)), eq(C_(k), v.init(k))), [(v.decl, pos + 1, lambda t: t)], 'append keeps'))
                elif getattr(v, 'fact', None) is not None:
                    form = v.fact
                    facts.append(Fact(lambda j, k, v=v, form=form: Implies(ule(j, n), eq(v.decl(*self.ctx, Z(j), Z(k)), form(j, k))),
                                      [(v.decl, (pos, pos + 1), lambda j, k: (j, k))], 'array ' + str(v.key), 2))
                else:
                    kk = z3.BitVec('kk!' + self.tag, 64)
                    t = None
                    for b in reversed(backs):
                        x = b.st.mem[v.key[1]].arrs[v.key[2]][1](kk)
                        t = x if t is None else ite(b.info, x, t)

                    def body(j, k, v=v, t=t, kk=kk):
                        me = v.decl(*self.ctx, Z(j), Z(k))
                        nx = subst(t, [(zn, Z(sub(j, K(1, 64)))), (kk, Z(k))])
                        return And(Implies(eq(j, K(0, 64)), eq(me, v.init(k))), Implies(And(ne(j, K(0, 64)), ule(j, n)), eq(me, nx)))
                    facts.append(Fact(body, [(v.decl, (pos, pos + 1), lambda j, k: (j, k))], 'array step ' + str(v.key), 2))
            else:
                t = self.merged(v, backs)

                def body(j, v=v, t=t):
                    me = self.scalar(v, j)
                    nx = subst(t, [(zn, Z(sub(j, K(1, 64))))])
                    i0 = v.i0()
                    return And(Implies(eq(j, K(0, 64)), eq(me, i0)), Implies(And(ne(j, K(0, 64)), ule(j, n)), eq(me, nx)))
                facts.append(Fact(body, [(v.decl, pos, lambda j: j)], 'recurrence ' + str(v.key)))
        return facts

    def instances(self, backs):
        """useful instances of the history fact, put in the path condition: the previous iteration and the roots of equality exits"""
        bc = self.backcond
        if isinstance(bc, bool):
            return []
        n = self.n
        zn = Z(n)
        out = [Implies(ne(n, K(0, 64)), subst(bc, [(zn, Z(sub(n, K(1, 64))))]))]
        acc = []
        for b in backs:
            for c in b.st.pc[self.base[0]:]:
                self.atoms(c, acc)
        roots = []
        for a, b in acc:
            a, b = norm(a), norm(b)
            if width(a) not in (64, 32):
                continue
            fa, fb = affine_any(a, zn), affine_any(b, zn)
            if fa is None or fb is None:
                continue
            c = fa[0] - fb[0]
            if c in (1, -1):
                # fa1 + ca n == fb1 + cb n
                d = sub(fb[1], fa[1]) if c == 1 else sub(fa[1], fb[1])
                if width(d) == 32:
                    d = zext(d, 64)
                if not any(same(d, r) for r in roots):
                    roots.append(d)
        for r in roots[:4]:
            out.append(Implies(ult(r, n), subst(bc, [(zn, Z(r))])))
        return [o for o in out if o is not True]

    # ---- everything
    def go(self):
        E = self.E
        self.auxfacts = []
        for d, init, ty in self.vals:
            self.mkvar(('phi', d), init)
        self.vers = {}
        backs = None
        stage = 0
        for it in range(24 if not E.ring else 48):
            try:
                backs = self.trial()
            except TooManyPaths:
                raise
            except Unsupported:
                if self.peel < 2 and any(v.ptr == 'opq' and v.form == 'gen' and isinstance(v.init, Null) and not self.is_exc(v) for v in self.vars.values()):
                    raise NeedPeel()
                raise
            if not backs:
                break
            if self.discover(backs):
                continue
            if self.classify(backs):
                continue
            if E.ring and self.try_ring(backs):
                continue
            if self.classify_prev(backs):
                continue
            if self.peel < 2 and any(v.ptr == 'opq' and v.form == 'gen' and isinstance(v.init, Null) and not self.is_exc(v) for v in self.vars.values()):
                raise NeedPeel()
            if stage == 0:
                keep = self.houdini(backs)
                stage = 1
                self.kept = keep
                new = False
                for c in keep:
                    if len(c) == 3 and not c[2].nowrap:
                        c[2].nowrap = True
                        v = c[2]
                        t = add(zext(v.i0(), 64), mul(self.n, K(v.c, 64)))
                        T.NOWRAP = self.st.nowrap = dict(self.st.nowrap)
                        T.NOWRAP[Z(t).get_id()] = (Z(t), v.w)
                        new = True
                self.invs = [x for x in (c[1](self.n) for c in keep) if x is not True]
                continue
            if E.ring and self.ring_modes(backs):
                continue
            if self.arr_forms(backs):
                continue
            break
        else:
            raise Unsupported('loop summary did not converge')
        if not backs:
            # the body never reaches the back edge
            return run_once(E, self.st, self.Df, self.loop, self.vals)
        # validate closed arrays: the writes of the last pass are those of the closed form
        for v in self.vars.values():
            if v.key[0] == 'arr' and v.form == 'closed':
                v.form2 = True
        facts = self.mkfacts(backs)
        insts = self.instances(backs)
        evs = []
        for b in backs:
            for e in b.st.ev[self.base[1]:]:
                evs.append((b.info, e))
        s = self.header_state()
        s.pc = s.pc + [ZB(c) for c in self.invs] + [ZB(i) for i in insts]
        s.facts = s.facts + facts
        for c in getattr(self, 'kept', []):
            # invariant at every earlier iteration
            decls = [v.decl for v in self.vars.values() if v.form == 'gen' and v.decl is not None and v.key[0] not in ('arr', 'ver')]
            t = c[1](self.n)
            if not isinstance(t, bool):
                tr = [(d, len(self.ctx), lambda j: j) for d in decls if uses_decl(t, [d])]
                if tr:
                    s.facts.append(Fact(lambda j, f=c[1]: Implies(ule(j, self.n), f(j)), tr, 'invariant ' + c[0]))
        for v in self.vars.values():
            # a pending exception stays pending: none at n means none at any earlier iteration (induction)
            if self.is_exc(v) and v.form == 'gen' and v.decl is not None:
                step = True
                for b in backs:
                    s2 = b.st.copy()
                    s2.assume(ne(self.scalar(v, self.n), K(0, 64)))
                    step = step and E.prove(s2, ne(self.next_scalar(v, b), K(0, 64)), 3000) is True
                if step:
                    s.facts = s.facts + [Fact(lambda j, v=v: Implies(And(ule(j, self.n), eq(self.scalar(v, self.n), K(0, 64))), eq(self.scalar(v, j), K(0, 64))), [(v.decl, len(self.ctx), lambda j: j)], 'exceptions stay pending')]
        if evs:
            s.ev = s.ev + [('bulk', Bulk(self.n, self.n, evs))]
        for v in self.vars.values():
            if v.key[0] == 'arr':
                s.wlog.append(('loop', v.reg, v.key[2], None, None, True))
        E.loop_cases.append((E.where(self.st), self.notes, [repr(v) for v in self.vars.values()], [c[0] for c in getattr(self, 'kept', [])]))
        E.loopctx = self.ctx + [self.n]
        saved = E.cur
        try:
            outs = E.explore(s, self.Df, self.loop)
        finally:
            E.loopctx = list(self.ctx)
            E.cur = saved
        res = [o for o in outs if o.kind != 'back']
        m = max([o.st.seq for o in outs] + [self.maxseq])
        m = (m // 1000 + 1) * 1000
        for o in res:
            o.st.seq = m
        return res


def same_opt(a, b):
    if a is None or b is None:
        return a is b
    return same(a, b)


def widen(t, n):
    """candidate affine form of a 64-bit term, pretending that narrow additions do not wrap"""
    if isinstance(t, K):
        return 0, zext(t, 64)
    if t.eq(n):
        return 1, K(0, 64)
    if not contains(t, {n.get_id()}):
        return 0, zext(norm(t), 64)
    k = t.decl().kind()
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        c, b = 0, K(0, 64)
        for i, x in enumerate(t.children()):
            x = norm(x)
            if isinstance(x, K) and x.w < 64:
                x = K(sgn(x.v, x.w), 64)
                r = (0, x)
            else:
                r = widen(x, n)
            if r is None:
                return None
            if k == z3.Z3_OP_BSUB and i:
                c, b = c - r[0], sub(b, r[1])
            else:
                c, b = c + r[0], add(b, r[1])
        return c, b
    if k == z3.Z3_OP_BMUL and t.num_args() == 2:
        for i in (0, 1):
            c = t.arg(i)
            if z3.is_bv_value(c):
                r = widen(norm(t.arg(1 - i)), n)
                if r is None:
                    return None
                cv = sgn(c.as_long(), c.size())
                return r[0] * cv, mul(r[1], K(cv, 64))
    if k == z3.Z3_OP_BNEG:
        r = widen(norm(t.arg(0)), n)
        return None if r is None else (-r[0], neg(r[1]))
    if k == z3.Z3_OP_EXTRACT and t.params()[1] == 0 or k == z3.Z3_OP_ZERO_EXT or k == z3.Z3_OP_SIGN_EXT:
        return widen(norm(t.arg(0)), n)
    if k == z3.Z3_OP_CONCAT and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0:
        return widen(norm(t.arg(1)), n)
    return None


def affine_any(t, n):
    if not isinstance(t, K):
        k = t.decl().kind()
        if k == z3.Z3_OP_EXTRACT and t.params()[1] == 0:
            a = affine(norm(t.arg(0)), n)
            if a is not None:
                return a[0], trunc(a[1], t.size())
    return affine(t, n)


def uses_decl(t, decls):
    ids = {d.get_id() for d in decls}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() and x.decl().get_id() in ids:
            return True
        st.extend(x.children())
    return False


def triggers_of(terms, zn):
    """uninterpreted applications in terms with an argument of the form +-zn + c"""
    trig = []
    seen = set()
    stack = [t for t in terms if not isinstance(t, (bool, K))]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for pos in range(x.num_args()):
                a = norm(x.arg(pos))
                if isinstance(a, K) or not z3.is_bv(a) or a.size() != 64:
                    continue
                af = affine(a, zn)
                if af is None:
                    af = affine(simp(a), zn) if not isinstance(simp(a), K) else None
                if af is None or af[0] not in (1, -1):
                    continue
                s, e0 = af
                trig.append((x.decl(), pos, lambda t, s=s, e0=e0: sub(t, e0) if s == 1 else sub(e0, t)))
    return trig


def dedupe(trig):
    out, seen = [], set()
    for d, pos, inv in trig:
        probe = z3.BitVec('probe', 64)
        k = (d.get_id(), pos, Z(inv(probe)).get_id())
        if k in seen:
            continue
        seen.add(k)
        out.append((d, pos, inv))
    return out
