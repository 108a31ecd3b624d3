"""Symbolic execution of LLVM IR functions and the loop rule (exact loop summaries, inductive invariants)."""
import time
import z3
from .terms import *
from . import terms as T
from . import ir as IR
from .sym import *
from .sym import mkupd


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'info')

    def __init__(self, kind, st, val=None, info=None):
        self.kind, self.st, self.val, self.info = kind, st, val, info

    def __repr__(self):
        return 'Outcome(%s,%r)' % (self.kind, self.val)


class TooManyPaths(Unsupported):
    pass


def ev_subst(ev, pairs):
    return tuple(x_subst(x, pairs) for x in ev)


def x_subst(x, pairs):
    if isinstance(x, (str, int, type(None))) and not isinstance(x, bool):
        return x
    if isinstance(x, (K, bool)) or z3.is_expr(x):
        return subst(x, pairs)
    if isinstance(x, tuple):
        return tuple(x_subst(y, pairs) for y in x)
    if isinstance(x, list):
        return [x_subst(y, pairs) for y in x]
    if isinstance(x, Bulk):
        return Bulk(x.n, x_subst(x.N, pairs), [(x_subst(c, pairs), ev_subst(e, pairs)) for c, e in x.evs])
    if isinstance(x, Ptr):
        return Ptr(x.reg, x_subst(x.idx, pairs), x.off, x.ver)
    if isinstance(x, Opaque):
        return Opaque(x_subst(x.bv, pairs), x.tag)
    if isinstance(x, PtrIte):
        return PtrIte(x_subst(x.c, pairs), x_subst(x.a, pairs), x_subst(x.b, pairs))
    return x


class Bulk:
    """events of a loop: for every iteration j < N the events whose condition holds, terms over the counter n"""
    __slots__ = ('n', 'N', 'evs')

    def __init__(self, n, N, evs):
        self.n, self.N, self.evs = n, N, evs

    def __repr__(self):
        return 'Bulk(%s<%s:%s)' % (self.n, self.N, self.evs)


def affine(t, n):
    """(coef, base) with t = base + coef*n syntactically (machine arithmetic), coef python int; None otherwise"""
    if isinstance(t, K):
        return 0, t
    if t.eq(n):
        return 1, K(0, t.size())
    if not contains(t, {n.get_id()}):
        return 0, t
    k = t.decl().kind()
    if k == z3.Z3_OP_BADD:
        c, b = 0, K(0, t.size())
        for x in t.children():
            r = affine(norm(x), n)
            if r is None:
                return None
            c += r[0]
            b = add(b, r[1])
        return c, b
    if k == z3.Z3_OP_BSUB:
        r = affine(norm(t.arg(0)), n)
        q = affine(norm(t.arg(1)), n)
        if r is None or q is None:
            return None
        return r[0] - q[0], sub(r[1], q[1])
    if k == z3.Z3_OP_BNEG:
        r = affine(norm(t.arg(0)), n)
        return None if r is None else (-r[0], neg(r[1]))
    if k == z3.Z3_OP_BMUL and t.num_args() == 2:
        for i in (0, 1):
            c = t.arg(i)
            if z3.is_bv_value(c):
                r = affine(norm(t.arg(1 - i)), n)
                if r is None:
                    return None
                cv = sgn(c.as_long(), c.size())
                return r[0] * cv, mul(r[1], K(cv, t.size()))
    if k == z3.Z3_OP_EXTRACT and t.params()[1] == 0 and t.params()[0] == 31 and t.arg(0).eq(n):
        return 1, K(0, 32)
    return None


class Exec(Engine):
    MAXUNROLL = 70
    fork_unroll = 0

    def __init__(self, prog, models, timeout_ms=15000):
        super().__init__(prog, models, timeout_ms)
        self.contracts = {}
        self.max_depth = 30
        self.fatals = []
        self.verbose = False
        self.loop_cases = []       # (where, kind) log of summarised loops
        self.indirect = None
        self.nsteps = 0
        self.unroll_calls = False

    # ------------------------------------------------------------ running a function
    def start(self, st, fn, args, dst=None):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.ip, f.dst, f.allocas = fn, fn.entry, 0, dst, []
        f.env = {}
        for (ty, name), a in zip(fn.params, args):
            f.env[name] = a
        st.frames = st.frames + [f]
        return st

    def run(self, st, fname, args, mod=None):
        """all outcomes of calling the function from st"""
        fn = self.prog.find(fname, mod)
        if fn is None:
            raise Unsupported('no body for %s' % fname)
        self.fname = fname
        d = len(st.frames)
        st = st.copy()
        self.start(st, fn, args)
        return self.explore(st, d + 1, None)

    def explore(self, st, D, loop):
        """execute until the frame at depth D returns, or (loop=(header,blocks)) control reaches the header again or leaves the loop"""
        work = [st]
        outs = []
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            s = work.pop()
            saved = self.cur
            self.cur = s
            T.NOWRAP = s.nowrap
            try:
                rs = self.step_path(s, D, loop)
            finally:
                self.cur = saved
            for r in rs:
                if isinstance(r, Outcome):
                    outs.append(r)
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise TooManyPaths('more than %d paths' % self.max_paths)
                else:
                    work.append(r)
        return outs

    def step_path(self, st, D, loop):
        """run st until it forks or ends; returns list of states/outcomes"""
        while True:
            f = st.frames[-1]
            ins = f.fn.blocks[f.block][f.ip]
            self.nsteps += 1
            op = ins.op
            try:
                if op == 'br':
                    r = self.goto(st, ins.a[0], D, loop)
                elif op == 'cbr':
                    c = self.val(st, IR.I(1), ins.a[0])
                    r = self.branch(st, [(c, ins.a[1]), (None, ins.a[2])], D, loop)
                elif op == 'switch':
                    v, dflt, cases = ins.a
                    r = self.do_switch(st, ins, D, loop)
                elif op == 'ret':
                    v = self.val(st, ins.ty, ins.a) if ins.a is not None else None
                    if len(st.frames) == D:
                        st.frames = st.frames[:-1]
                        for a in f.allocas:
                            st.mem.pop(a.id, None)
                        return [Outcome('ret', st, v)]
                    self.pop_frame(st, v)
                    continue
                elif op == 'unreachable':
                    self.check(st, False, 'unreachable', 'unreachable code is not reached')
                    return []
                elif op == 'call':
                    r = self.do_call(st, ins)
                else:
                    self.simple(st, ins)
                    f.ip += 1
                    continue
            except ForkOn as e:
                return self.fork(st, e.c)
            except Dead:
                return []
            if r is None:
                continue
            return r

    def fork(self, st, c):
        out = []
        a = self.feasible(st, c)
        b = self.feasible(st, Not(c))
        if a and b:
            s2 = st.copy()
            s2.assume(Not(c))
            out.append(s2)
            st.assume(c)
            out.append(st)
        elif a:
            st.assume(c)
            out.append(st)
        elif b:
            st.assume(Not(c))
            out.append(st)
        return out

    def pop_frame(self, st, v):
        f = st.frames[-1]
        st.frames = st.frames[:-1]
        for a in f.allocas:
            st.mem.pop(a.id, None)
        g = st.frames[-1].copy()
        st.frames = st.frames[:-1] + [g]
        if f.dst is not None:
            g.env[f.dst] = v
        g.ip += 1

    def branch(self, st, alts, D, loop):
        (c, t), (_, fl) = alts
        if c is UNDEF:
            c = self.fresh('undefcond', 1)
        if not isinstance(c, bool):
            c = simp(c)
        if isinstance(c, bool):
            return self.goto(st, t if c else fl, D, loop)
        if t == fl:
            return self.goto(st, t, D, loop)
        a = self.feasible(st, c)
        b = self.feasible(st, Not(c))
        out = []
        if a and b:
            s2 = st.copy()
            s2.assume(Not(c))
            st.assume(c)
            for s, tgt in ((st, t), (s2, fl)):
                self.cur = s
                r = self.goto(s, tgt, D, loop)
                out.extend(r if r is not None else [s])
            return out
        if a:
            st.assume(c)
            return self.goto(st, t, D, loop)
        if b:
            st.assume(Not(c))
            return self.goto(st, fl, D, loop)
        return []

    def do_switch(self, st, ins, D, loop):
        v, dflt, cases = ins.a
        x = self.val(st, ins.ty, v)
        if not isinstance(x, K):
            x = simp(x)
        if isinstance(x, K):
            for c, lab in cases:
                cv = c.v if isinstance(c, K) else c[1] if isinstance(c, tuple) else c
                if (cv & ((1 << x.w) - 1)) == x.v:
                    return self.goto(st, lab, D, loop)
            return self.goto(st, dflt, D, loop)
        groups = {}
        conds = []
        for c, lab in cases:
            cv = c.v if isinstance(c, K) else c[1] if isinstance(c, tuple) else c
            e = eq(x, K(cv, width(x)))
            conds.append(e)
            groups.setdefault(lab, []).append(e)
        alts = [(Or(*es), lab) for lab, es in groups.items() if lab != dflt]
        dc = And(*[Not(e) for e in conds])
        if dflt in groups:
            dc = Or(dc, *groups[dflt])
        alts.append((dc, dflt))
        out = []
        for c, lab in alts:
            if self.feasible(st, c):
                s = st.copy()
                s.assume(c)
                self.cur = s
                r = self.goto(s, lab, D, loop)
                out.extend(r if r is not None else [s])
        return out

    # ------------------------------------------------------------ control transfer
    def phi_values(self, st, target):
        f = st.frames[-1]
        blk = f.fn.blocks[target]
        vals = []
        for ins in blk:
            if ins.op != 'phi':
                break
            for v, lab in ins.a:
                if lab == f.block:
                    vals.append((ins.dst, self.val(st, ins.ty, v), ins.ty))
                    break
            else:
                raise Unsupported('phi without edge')
        return vals

    def enter(self, st, target, vals):
        f = st.frames[-1]
        if f.__class__ is not Frame:
            raise AssertionError
        for d, v, _ in vals:
            f.env[d] = v
        f.block = target
        f.ip = len(vals)

    def goto(self, st, target, D, loop):
        f = st.frames[-1]
        vals = self.phi_values(st, target)
        if loop is not None and len(st.frames) == D:
            if target == loop[0]:
                return [Outcome('back', st, dict((d, v) for d, v, _ in vals))]
            if target not in loop[1]:
                return [Outcome('exit', st, None, target)]
        loops = f.fn.cfg().loops
        if target in loops and f.block not in loops[target]:
            return self.loop_entry(st, target, loops[target], vals, D, loop)
        if target in loops and self.unroll:
            key = '%%it:' + target
            c = f.env.get(key, 0) + 1
            if c > self.unroll:
                self.bounded_hit = True
                return []
            f.env[key] = c
        self.enter(st, target, vals)
        return None

    # ------------------------------------------------------------ instructions
    def simple(self, st, ins):
        f = st.frames[-1]
        op = ins.op
        mod = f.fn.mod
        if op == 'load':
            p = self.val(st, IR.PTR, ins.a)
            t = mod.resolve(ins.ty)
            if t.k in ('struct', 'arr'):
                raise Unsupported('aggregate load')
            v = self.load(st, p, mod.size(t), t.k == 'ptr')
            if t.k == 'int' and t.a == 1:
                v = ne(v, K(0, width(v)))
            f.env[ins.dst] = v
        elif op == 'store':
            v, p = ins.a
            t = mod.resolve(ins.ty)
            if t.k in ('struct', 'arr'):
                raise Unsupported('aggregate store')
            x = self.val(st, ins.ty, v)
            if isinstance(x, PtrInt):
                x = x.p
            self.store(st, self.val(st, IR.PTR, p), mod.size(t), x)
        elif op == 'gep':
            base, idx = ins.a
            b = self.val(st, IR.PTR, base)
            f.env[ins.dst] = self.gep(st, mod, ins.ty, b, [(t, self.ival(st, t, v)) for t, v in idx])
        elif op == 'icmp':
            pred, a, b = ins.a
            x, y = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
            f.env[ins.dst] = self.icmp(st, pred, x, y, ins.ty)
        elif op == 'fcmp':
            pred, a, b = ins.a
            f.env[ins.dst] = self.fcmp(pred, self.val(st, ins.ty, a), self.val(st, ins.ty, b))
        elif op == 'bin':
            o, a, b = ins.a[0], ins.a[1], ins.a[2]
            x, y = self.val(st, ins.ty, a), self.val(st, ins.ty, b)
            f.env[ins.dst] = self.binop(st, o, x, y, ins.ty.a if ins.ty.k == 'int' else 64)
        elif op == 'cast':
            o, sty, v = ins.a
            f.env[ins.dst] = self.cast(st, o, sty, self.val(st, sty, v), ins.ty)
        elif op == 'select':
            c, x, y = ins.a
            c = self.val(st, IR.I(1), c)
            x, y = self.val(st, ins.ty, x), self.val(st, ins.ty, y)
            f.env[ins.dst] = self.select(c, x, y)
        elif op == 'alloca':
            n = ins.a
            sz = mod.size(ins.ty)
            r = self.new_region(st, 'stack:%s' % (ins.dst.lstrip('%')), 'alloca', nbytes=K(sz, 64))
            f.allocas = f.allocas + [r]
            f.env[ins.dst] = Ptr(r)
        elif op == 'extractvalue':
            v = self.val(st, None, ins.a[0]) if ins.a[0][0] == 'loc' else None
            if not isinstance(v, tuple):
                raise Unsupported('extractvalue of %r' % (v,))
            for i in ins.a[1]:
                v = v[i]
            f.env[ins.dst] = v
        elif op == 'insertvalue':
            agg, x, idx = self.val(st, ins.ty, ins.a[0]), ins.a[1], ins.a[2]
            xv = self.val(st, x[0], x[1])
            if agg is UNDEF:
                u = mod.resolve(ins.ty)
                agg = tuple(UNDEF for _ in u.a)
            l = list(agg)
            l[idx[0]] = xv
            f.env[ins.dst] = tuple(l)
        elif op == 'freeze':
            v = self.val(st, ins.ty, ins.a)
            if v is UNDEF:
                v = self.fresh('freeze', 1)
            f.env[ins.dst] = v
        elif op == 'fneg':
            v = self.val(st, ins.ty, ins.a)
            f.env[ins.dst] = xor(v, K(1 << 63, 64))
        elif op == 'phi':
            raise Unsupported('phi out of place')
        else:
            raise Unsupported('instruction %s' % op)

    def ival(self, st, t, v):
        x = self.val(st, t, v)
        if isinstance(x, PtrInt):
            x = self.enc(x.p)
        return x

    def select(self, c, x, y):
        if isinstance(c, bool):
            return x if c else y
        if c is UNDEF:
            return x
        if x is UNDEF:
            return y
        if y is UNDEF:
            return x
        if isptr(x) or isptr(y):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.reg is y.reg and x.ver == y.ver and x.off == y.off:
                return Ptr(x.reg, ite(c, x.idx, y.idx), x.off, x.ver)
            if isinstance(x, Null) and isinstance(y, Null):
                return x
            if isinstance(x, Opaque) and isinstance(y, Opaque):
                return Opaque(ite(c, x.bv, y.bv), x.tag if x.tag == y.tag else None)
            return PtrIte(c, x, y)
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            px = x.p if isinstance(x, PtrInt) else self.dec(x)
            py = y.p if isinstance(y, PtrInt) else self.dec(y)
            return PtrInt(self.select(c, px, py))
        return ite(c, x, y)

    def icmp(self, st, pred, x, y, ty):
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            px = x.p if isinstance(x, PtrInt) else self.dec(x)
            py = y.p if isinstance(y, PtrInt) else self.dec(y)
            return self.ptr_cmp(st, pred, px, py)
        if isptr(x) or isptr(y):
            x = Opaque(self.fresh('undefp')) if x is UNDEF else x
            y = Opaque(self.fresh('undefp')) if y is UNDEF else y
            return self.ptr_cmp(st, pred, x, y)
        if x is UNDEF or y is UNDEF:
            return self.fresh('undefcmp', 1)
        if ty.k == 'int' and ty.a == 1:
            if pred in ('eq', 'ne'):
                return ICMP[pred](x, y)
            raise Unsupported('i1 compare')
        return ICMP[pred](x, y)

    # ------------------------------------------------------------ calls
    def do_call(self, st, ins):
        fnv, args = ins.a
        f = st.frames[-1]
        if fnv[0] == 'glob':
            name = fnv[1][1:]
        else:
            p = self.val(st, IR.PTR, fnv)
            if isinstance(p, PtrIte):
                d = self.decide(st, p.c)
                if d is None:
                    raise ForkOn(p.c)
                p = p.a if d else p.b
            if isinstance(p, Fn):
                name = p.name
            elif isinstance(p, Null):
                self.check(st, False, 'memory', 'call through NULL function pointer')
                return []
            else:
                if self.indirect is None:
                    raise Unsupported('indirect call through %r' % (p,))
                vals = [self.val(st, t, v) for t, v in args]
                return self.finish_call(st, ins, lambda s: self.indirect(self, s, p, vals, ins))
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental.noalias'):
            f.ip += 1
            return None
        m = self.models.get(name)
        c = self.contracts.get(name)
        if m is None and c is None and name.startswith('llvm.'):
            m = self.intrinsic(name)
        vals = [self.val(st, t, v) for t, v in args]
        if c is not None:
            r = self.finish_call(st, ins, lambda s: c(self, s, vals, ins), may_decline=True)
            if r is not NotImplemented:
                return r
        if m is not None:
            self.assumed.add(name)
            return self.finish_call(st, ins, lambda s: m(self, s, vals, ins))
        fn = self.prog.find(name, f.fn.mod)
        if fn is None:
            raise Unsupported('call of unmodelled external %s' % name)
        if len(st.frames) > self.max_depth:
            raise Unsupported('inlining depth')
        rec = sum(1 for fr in st.frames if fr.fn is fn)
        if rec:
            if self.unroll:
                if rec > self.unroll:
                    self.bounded_hit = True
                    return []
            else:
                raise Unsupported('recursive function %s needs a contract' % name)
        self.inlined.add(name)
        self.start(st, fn, vals, ins.dst)
        return None

    def finish_call(self, st, ins, go, may_decline=False):
        s0 = st.copy()
        self.cur = s0
        r = go(s0)
        if r is NotImplemented:
            self.cur = st
            return NotImplemented
        if r is None or not isinstance(r, list):
            r = [(s0, r)]
        out = []
        for x in r:
            if isinstance(x, Outcome):
                out.append(x)
                continue
            s, v = x
            g = s.frames[-1].copy()
            s.frames = s.frames[:-1] + [g]
            if ins.dst is not None:
                g.env[ins.dst] = v
            g.ip += 1
            out.append(s)
        return out

    def intrinsic(self, name):
        b = name.split('.')[1]
        full = name[5:]
        if b == 'assume':
            def f(E, st, a, ins):
                c = a[0]
                if c is UNDEF:
                    c = False
                E.check(st, c, 'assert', 'ZEND_ASSERT/assumption of the code holds')
                if c is False:
                    return []
            return f
        if b == 'memcpy' or b == 'memmove':
            return lambda E, st, a, ins: E.memcpy(st, a[0], a[1], a[2], b)
        if b == 'memset':
            return lambda E, st, a, ins: E.memset(st, a[0], a[1], a[2])
        if b == 'expect':
            return lambda E, st, a, ins: a[0]
        if b in ('umax', 'umin', 'smax', 'smin'):
            lt = ult if b[0] == 'u' else slt
            return lambda E, st, a, ins: ite(lt(a[0], a[1]), a[1], a[0]) if b.endswith('max') else ite(lt(a[0], a[1]), a[0], a[1])
        if b == 'abs':
            return lambda E, st, a, ins: ite(slt(a[0], K(0, width(a[0]))), neg(a[0]), a[0])
        if b in ('ctlz', 'cttz'):
            def f(E, st, a, ins):
                x = a[0]
                w = width(x)
                r = K(w, w)
                rng = range(w) if b == 'ctlz' else range(w - 1, -1, -1)
                for i in rng:
                    bit = extract(x, i, i)
                    r = ite(eq(bit, K(1, 1)), K(w - 1 - i if b == 'ctlz' else i, w), r)
                if a[1] is True or (isinstance(a[1], K) and a[1].v):
                    E.check(st, ne(x, K(0, w)), 'arith', 'count-zeros argument is not 0')
                return r
            return f
        if b == 'bswap':
            def f(E, st, a, ins):
                x = a[0]
                w = width(x)
                r = None
                for i in range(0, w, 8):
                    p = extract(x, i + 7, i)
                    r = p if r is None else concat(r, p)
                return r
            return f
        if full.startswith('umul.with') or full.startswith('uadd.with') or full.startswith('usub.with') or full.startswith('smul.with') or full.startswith('sadd.with') or full.startswith('ssub.with'):
            def f(E, st, a, ins):
                x, y = a
                w = width(x)
                ext = zext if full[0] == 'u' else sext
                o = {'mul': mul, 'add': add, 'sub': sub}[full[1:4]]
                r = o(ext(x, 2 * w), ext(y, 2 * w))
                lo = trunc(r, w)
                return (lo, ne(ext(lo, 2 * w), r))
            return f
        if b in ('fshl', 'fshr'):
            def f(E, st, a, ins):
                w = width(a[0])
                x = concat(a[0], a[1])
                s = zext(urem(a[2], K(w, w)), 2 * w)
                return extract(shl(x, s), 2 * w - 1, w) if b == 'fshl' else extract(lshr(x, s), w - 1, 0)
            return f
        if b in ('stacksave', 'stackrestore'):
            return lambda E, st, a, ins: NULL
        if b == 'is':   # is.fpclass
            def f(E, st, a, ins):
                if full.startswith('is.fpclass'):
                    fp = tofp(a[0])
                    mask = a[1].v
                    cs = []
                    if mask & 3:
                        cs.append(z3.fpIsNaN(fp))
                    if mask & 0x204 == 0x204:
                        cs.append(z3.fpIsInf(fp))
                    if mask & ~0x207:
                        raise Unsupported('fpclass mask')
                    return simp(z3.Or(*cs))
                raise Unsupported(full)
            return f
        if b in ('fabs', 'floor', 'ceil', 'trunc', 'rint'):
            if b == 'fabs':
                return lambda E, st, a, ins: and_(a[0], K((1 << 63) - 1, 64))
            return None
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ block memory operations
    LAYOUTS = {16: {0: 8, 8: 4, 12: 4}, 8: {0: 8}, 4: {0: 4}, 2: {0: 2}, 1: {0: 1}, 32: {0: 8, 8: 4, 12: 4, 16: 8, 24: 4, 28: 4}}

    def region_len(self, st, r):
        s = st.mem[r.id]
        if s.len is None and s.bytes is not None and r.stride:
            b = s.bytes
            if r.header:
                b = sub(b, K(r.header, 64))
            d = div_exact(b, r.stride)
            if d is None:
                d = div_exact(simp(b), r.stride)
            if d is None:
                d = udiv(b, K(r.stride, 64))
            else:
                # the byte count must not have wrapped
                if not isinstance(d, K):
                    self.check(st, ule(d, K((1 << 64) // r.stride - 1, 64)), 'arith', 'size computation for %s does not overflow' % r.base)
            s2 = st.rsw(r)
            s2.len = d
            return d
        return s.len

    def check_access(self, st, p, size, what):
        if p.reg.stride and st.mem.get(p.reg.id) is not None:
            self.region_len(st, p.reg)
        return super().check_access(st, p, size, what)

    def rptr(self, st, p, what):
        if isinstance(p, PtrIte):
            d = self.decide(st, p.c)
            if d is None:
                raise ForkOn(p.c)
            return self.rptr(st, p.a if d else p.b, what)
        if isinstance(p, Opaque):
            q = self.opaque_region(st, p)
            if q is not None:
                return q
        if isinstance(p, Ptr):
            return self.norm_ptr(p)
        return p

    def memcpy(self, st, d, s, ln, kind='memcpy'):
        d, s = self.rptr(st, d, kind), self.rptr(st, s, kind)
        if not isinstance(ln, K):
            ln = simp(ln)
        if isinstance(ln, K) and ln.v == 0:
            return d
        if not isinstance(ln, K) and not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            # allowed only when the length is zero
            self.check(st, eq(ln, K(0, 64)), 'memory', '%s with NULL/untracked pointer only for zero length' % kind)
            return d
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            if isinstance(d, Null) or isinstance(s, Null):
                self.check(st, False, 'memory', '%s through NULL' % kind)
                raise Dead()
            raise Unsupported('%s %r <- %r' % (kind, d, s))
        if isinstance(ln, K) and ln.v <= 256 and not ((d.reg.stride or 0) > 0 and ln.v % (d.reg.stride or 1) == 0 and ln.v // d.reg.stride > 8):
            n = ln.v
            # word-wise through temporaries
            parts = []
            pos = 0
            while pos < n:
                w = 8 if n - pos >= 8 and self.wordable(st, s, pos, 8) else 4 if n - pos >= 4 else 1
                parts.append((pos, w, self.load(st, self.ptr_add(st, s, pos), w, False, kind)))
                pos += w
            for pos, w, v in parts:
                self.store(st, self.ptr_add(st, d, pos), w, v, kind)
            return d
        r1, r2 = d.reg, s.reg
        stride = r1.stride or r2.stride
        if stride is None:
            if self.prove(st, eq(ln, K(0, 64)), 3000) is True:
                return d
            stride = 1
        if (r1.stride or stride) != (r2.stride or stride):
            raise Unsupported('%s between strides %s and %s' % (kind, r1.stride, r2.stride))
        if r1.stride is None:
            r1.stride = stride
        if r2.stride is None:
            r2.stride = stride
        if d.off or s.off:
            raise Unsupported('%s at element offset' % kind)
        cnt = div_exact(ln, stride)
        if cnt is None:
            cnt = div_exact(simp(ln), stride)
        if cnt is None:
            raise Unsupported('%s length %s not a multiple of %d' % (kind, ln, stride))
        if stride > 1 and not isinstance(cnt, K):
            self.check(st, ule(cnt, K((1 << 64) // stride - 1, 64)), 'arith', '%s length does not overflow' % kind)
        di = d.idx if not r1.header else sub(d.idx, K(r1.header // stride, 64))
        si = s.idx if not r2.header else sub(s.idx, K(r2.header // stride, 64))
        self.block_access(st, d, di, cnt, kind + ' destination')
        self.block_access(st, s, si, cnt, kind + ' source')
        if r1 is r2 and kind == 'memcpy':
            self.check(st, Or(eq(cnt, K(0, 64)), ule(add(di, cnt), si), ule(add(si, cnt), di)), 'memory', 'memcpy ranges do not overlap')
        lay = r1.layout or r2.layout or self.LAYOUTS.get(stride)
        if lay is None:
            raise Unsupported('%s layout for stride %d' % (kind, stride))
        news = []
        for fo, fs in lay.items():
            a = self.arr_field(st, r1, fo, fs)
            b = self.arr_field(st, r2, fo, fs)
            if a is None or b is None or a[1] != fs or b[1] != fs:
                raise Unsupported('%s field mismatch' % kind)
            cd, cs = a[2], b[2]
            delta = sub(si, di)
            news.append((fo, fs, lambda k, cd=cd, cs=cs, di=di, cnt=cnt, delta=delta: ite(ult(sub(k, di), cnt), cs(add(k, delta)), cd(k))))
        for fo, fs, clo in news:
            self.bulk(st, r1, fo, fs, clo, ('copy', di, cnt))
        return d

    def wordable(self, st, p, pos, w):
        return True

    def block_access(self, st, p, i, cnt, what):
        r = p.reg
        s = st.mem[r.id]
        if s.alive is not True:
            self.check(st, False if s.alive is False else s.alive, 'memory', '%s of freed memory %s' % (what, r.base))
        if p.ver != s.ver:
            self.check(st, False, 'memory', '%s through a stale pointer into %s' % (what, r.base))
        ln = self.region_len(st, r)
        if ln is not None:
            self.check(st, Or(eq(cnt, K(0, 64)), And(ule(i, ln), ule(cnt, sub(ln, i)))), 'memory', '%s within bounds of %s' % (what, r.base))
        if r.readonly and 'destination' in what:
            self.check(st, False, 'frame', '%s writes read-only %s' % (what, r.base))

    def memset(self, st, d, c, ln):
        d = self.rptr(st, d, 'memset')
        if not isinstance(ln, K):
            ln = simp(ln)
        if isinstance(ln, K) and ln.v == 0:
            return d
        if not isinstance(d, Ptr):
            if not isinstance(ln, K):
                self.check(st, eq(ln, K(0, 64)), 'memory', 'memset of NULL only for zero length')
                return d
            self.check(st, False, 'memory', 'memset through NULL')
            raise Dead()
        if isinstance(ln, K) and ln.v <= 256 and not (d.reg.stride and ln.v // d.reg.stride > 8):
            pos = 0
            while pos < ln.v:
                w = 8 if ln.v - pos >= 8 and (d.off + pos) % 8 == 0 else 4 if ln.v - pos >= 4 and (d.off + pos) % 4 == 0 else 1
                self.store(st, self.ptr_add(st, d, pos), w, self.rep(c, w), 'memset')
                pos += w
            return d
        r = d.reg
        if r.stride is None:
            r.stride = 1
        if d.off:
            raise Unsupported('memset at element offset')
        cnt = div_exact(ln, r.stride)
        if cnt is None:
            cnt = div_exact(simp(ln), r.stride)
        if cnt is None:
            raise Unsupported('memset length')
        if r.stride > 1 and not isinstance(cnt, K):
            self.check(st, ule(cnt, K((1 << 64) // r.stride - 1, 64)), 'arith', 'memset length does not overflow')
        di = d.idx if not r.header else sub(d.idx, K(r.header // r.stride, 64))
        self.block_access(st, d, di, cnt, 'memset destination')
        lay = r.layout or self.LAYOUTS.get(r.stride)
        for fo, fs in lay.items():
            a = self.arr_field(st, r, fo, fs)
            if a is None or a[1] != fs:
                raise Unsupported('memset field mismatch')
            cd = a[2]
            v = self.rep(c, fs)
            self.bulk(st, r, fo, fs, lambda k, cd=cd, v=v, di=di, cnt=cnt: ite(ult(sub(k, di), cnt), v, cd(k)), ('set', di, cnt))
        return d

    def rep(self, c, n):
        c = trunc(c, 8)
        if isinstance(c, K):
            return K(int.from_bytes(bytes([c.v]) * n, 'little'), 8 * n)
        v = c
        for _ in range(n - 1):
            v = concat(c, v)
        return v

    # ------------------------------------------------------------ loops
    def loop_entry(self, st, header, blocks, vals, D, loop):
        f = st.frames[-1]
        if self.unroll:
            self.enter(st, header, vals)
            f.env['%%it:' + header] = 0
            return None
        from .loops import summarize
        return summarize(self, st, header, blocks, vals, D, loop)
