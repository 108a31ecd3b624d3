"""Building blocks for contracts: entry states, abstract views, event (ownership) accounting."""
import time
import z3
from .terms import *
from . import terms as T
from .sym import *
from .execu import Outcome, Bulk, ev_subst, x_subst
from .models import identical, NumStr, NumIdx, D2L, SlowLong, Zend, zload, tbyte, refcounted, exception, set_exception, eg, HT, IsTrue, Identical
from .loops import affine

MAXC = 0x40000000
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)


def zeq(v1, t1, v2, t2):
    """same PHP value (the payload of null/false/true/undef is irrelevant)"""
    return And(eq(t1, t2), Or(ule(tbyte(t1), K(3, 8)), eq(v1, v2)))


def same_elem(a, b):
    """elements are one PHP value (v, t) or several (key and value)"""
    return And(*[zeq(a[i], a[i + 1], b[i], b[i + 1]) for i in range(0, len(a), 2)])


def deref(v, t):
    """value after ZVAL_DEREF (references are engine memory)"""
    e8 = z3.Function('ext8', B64, B64)
    e4 = z3.Function('ext4', B64, B32)
    isr = eq(tbyte(t), K(10, 8))
    return ite(isr, e8(Z(add(v, K(8, 64)))), v), ite(isr, e4(Z(add(v, K(16, 64)))), t)


def merge(c, a, b):
    if isinstance(a, tuple):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    return ite(c, a, b)


class View:
    """abstract sequence: size (64-bit term), at(k) -> (value, type_info)"""

    def __init__(self, size, at):
        self.size, self.at = size, at


LEAVES = {}


def leaves(x):
    """names of the uninterpreted symbols of a term"""
    if x.get_id() in LEAVES and LEAVES[x.get_id()][0].eq(x):
        return LEAVES[x.get_id()][1]
    out, seen, stack = set(), set(), [x]
    while stack:
        y = stack.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        stack.extend(y.children())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(y.decl().name())
    LEAVES[x.get_id()] = (x, out)
    return out


class Case:
    """one entry state of one function"""

    def __init__(self, prog, mod, label, budget=120, unroll=0, timeout=15000):
        self.E = Zend(prog, timeout)
        self.E.deadline = time.time() + budget
        self.E.unroll = unroll
        self.prog, self.mod, self.label = prog, mod, label
        self.st = State()
        self.watch = {}
        self.st.ghost['watch'] = self.watch
        set_exception(self.E, self.st, False)
        self.undecided = []

    # ---- symbols
    def sym(self, name, w=64):
        return z3.Bool(name) if w == 1 else z3.BitVec(name, w)

    def assume(self, c):
        self.st.assume(c)

    # ---- entry frame
    def frame(self, nargs=None, this=None):
        """execute_data + return_value; nargs: int or None (arbitrary)"""
        E, st = self.E, self.st
        x = E.new_region(st, 'execute_data', 'ext', stride=16, header=80)
        n = K(nargs, 32) if nargs is not None else self.sym('argc', 32)
        s = st.mem[x.id]
        s.len = zext(n, 64)
        s.cells[44] = (4, n)
        if this is not None:
            s.cells[32] = (8, this)
            s.cells[40] = (4, K(0x308, 32))
        A = z3.Function('arg_value', B64, B64)
        T = z3.Function('arg_type', B64, B32)
        s.arrs[0] = (8, lambda k: A(Z(k)))
        s.arrs[8] = (4, lambda k: T(Z(k)))
        self.argc = n
        self.arg = lambda k: (A(Z(k if not isinstance(k, int) else K(k, 64))), T(Z(k if not isinstance(k, int) else K(k, 64))))
        if nargs is None:
            st.facts.append(Fact(lambda j: Implies(ult(j, zext(n, 64)), E.valid_zval(T(Z(j)))), [(T, 0, lambda j: j)], 'args are PHP values'))
            st.assume(ule(n, K(0x10000000, 32)))
            self.watch['argc'] = n
        else:
            for i in range(nargs):
                st.assume(E.valid_zval(T(Z(K(i, 64)))))
                self.watch['arg%d.value' % i] = A(Z(K(i, 64)))
                self.watch['arg%d.type' % i] = T(Z(K(i, 64)))
        r = E.new_region(st, 'return_value', 'ext', nbytes=K(16, 64))
        st.mem[r.id].cells[8] = (4, K(1, 32))
        st.mem[r.id].cells[0] = (8, self.sym('rv_junk'))
        self.x, self.rv = x, r
        st.ghost['exec'] = x
        return [Ptr(x), Ptr(r)]

    def retval(self, st):
        s = st.mem[self.rv.id]
        return self.E.cell_load(st, self.rv, 0, 8, False), self.E.cell_load(st, self.rv, 8, 4, False)

    # ---- checks on outcomes
    def check(self, st, g, kind, msg):
        self.E.fname = self.label
        T.NOWRAP = st.nowrap
        return self.E.check(st, g, kind, '%s: %s' % (self.label, msg))

    def skolem(self, name='k'):
        return z3.BitVec('sk_%s_%d' % (name, next(self.E.cnt)), 64)

    def check_list(self, st, view, size, at, msg):
        """view equals the expected list (size, at)"""
        ok = self.check(st, eq(view.size, size), 'post', msg + ': number of elements')
        k = self.skolem()
        s = st.copy()
        s.assume(ult(k, view.size))
        got = view.at(s, k) if view.at.__code__.co_argcount == 2 else view.at(k)
        s.ghost['watch'] = dict(s.ghost['watch'], k=k)
        return self.check(s, same_elem(got, at(k)), 'post', msg + ': every element') and ok

    def unchanged(self, st, view, old, msg):
        return self.check_list(st, view, old.size, old.at, msg)

    def exc(self, st):
        return exception(self.E, st)

    def throws(self, st):
        return [e for e in st.ev if e[0] == 'throw']

    def fork_exc(self, st):
        """(normal states, exceptional states)"""
        e = self.exc(st)
        if e is True:
            return None, st
        if e is False:
            return st, None
        a, b = st.copy(), st.copy()
        a.assume(Not(e))
        b.assume(e)
        return (a if self.E.feasible(st, Not(e)) else None), (b if self.E.feasible(st, e) else None)

    # ---- ownership accounting
    def ownership(self, st, adds, dtors, msg, moved=()):
        """events of the path are exactly: one addref per refcounted value in adds, one dtor per value in dtors.
        items: ('one', v, t) or ('many', N, f) with f(j)->(v,t)"""
        E = self.E
        evs = [e for e in st.ev if e[0] in ('addref', 'dtor', 'bulk', 'delref', 'rcfree', 'arrfree')]
        left = []
        for e in evs:
            if e[0] == 'bulk':
                sub_ = [(c, x) for c, x in e[1].evs if x[0] in ('addref', 'dtor', 'delref', 'rcfree', 'arrfree')]
                if sub_:
                    left.append(('bulk', Bulk(e[1].n, e[1].N, sub_)))
            else:
                left.append(e)
        for kind, items in (('addref', adds), ('dtor', dtors)):
            for it in items:
                if it[0] == 'many_if':
                    it = ('many', it[1], lambda j, it=it: (it[3](j)[0], ite(it[2](j), it[3](j)[1], K(1, 32))))
                if it[0] == 'one':
                    v, t = it[1], it[2]
                    rc = self.settle(st, refcounted(t))
                    if rc is False:
                        # a dtor of a non-refcounted value is harmless; drop a matching one
                        if kind == 'dtor':
                            for e in left:
                                if e[0] == 'dtor' and self.prov(st, zeq(e[1], e[2], v, t)):
                                    left.remove(e)
                                    break
                        continue
                    found = None
                    for e in left:
                        if e[0] == kind and self.prov(st, eq(e[1], v)):
                            found = e
                            break
                    if found is None:
                        self.check(st, Not(refcounted(t)), 'ownership', '%s: missing %s' % (msg, kind))
                        continue
                    left.remove(found)
                    if rc is None and kind == 'addref':
                        self.check(st, refcounted(t), 'ownership', '%s: addref only of refcounted values' % msg)
                else:
                    self.match_many(st, kind, it[1], it[2], left, msg)
        # leftovers
        for e in left:
            if e[0] == 'bulk':
                b = e[1]
                j = self.skolem('j')
                s = st.copy()
                s.assume(ult(j, b.N))
                pr = [(Z(b.n), Z(j))]
                for c, x in b.evs:
                    s2 = s.copy()
                    s2.assume(x_subst(c, pr))
                    y = ev_subst(x, pr)
                    if y[0] == 'dtor':
                        self.check(s2, Not(refcounted(y[2])), 'ownership', '%s: unexpected destruction (loop)' % msg)
                    else:
                        self.check(s2, False, 'ownership', '%s: unexpected %s (loop)' % (msg, y[0]))
            elif e[0] == 'dtor':
                self.check(st, Not(refcounted(e[2])), 'ownership', '%s: unexpected destruction' % msg)
            else:
                self.check(st, False, 'ownership', '%s: unexpected %s' % (msg, e[0]))

    def no_leak(self, st, *held):
        """every block of memory that is still allocated can be reached: from a struct field, an array slot, the returned value or an engine event"""
        E = self.E
        live = {rid: rs for rid, rs in st.mem.items() if rs.alive and rid in E.regs}
        blocks = {rid: E.regs[rid] for rid in live if E.regs[rid].kind == 'heap' and E.regs[rid] is not getattr(self, 'obj_reg', None)}
        newobjs = st.ghost.get('newobjs', ())
        blocks = {i: r for i, r in blocks.items() if r not in newobjs and not r.ctx}
        if not blocks:
            return
        names = {r.addr.decl().name(): i for i, r in blocks.items()}
        refs = {}

        def scan(x, out):
            if isinstance(x, Ptr):
                out.add(x.reg.id)
                return
            if isinstance(x, PtrIte):
                scan(x.a, out)
                scan(x.b, out)
                return
            if isinstance(x, (tuple, list)):
                for y in x:
                    scan(y, out)
                return
            if isinstance(x, Bulk):
                scan(x.evs, out)
                return
            if isinstance(x, Opaque):
                x = x.bv
            if not z3.is_expr(x):
                return
            seen, stack = set(), [x]
            while stack:
                y = stack.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                stack.extend(y.children())
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().name() in names:
                    out.add(names[y.decl().name()])
        probe = z3.BitVec('leak_probe', 64)
        roots = set()
        scan(st.ev, roots)
        scan(held, roots)
        for rid, rs in live.items():
            r = E.regs[rid]
            if r.kind == 'alloca':
                continue
            out = refs[rid] = set()
            for _, v in rs.cells.values():
                scan(v, out)
            for _, clo in rs.arrs.values():
                scan(clo(probe), out)
            if rid not in blocks:
                roots |= out
        work, ok = list(roots), set()
        while work:
            i = work.pop()
            if i in ok:
                continue
            ok.add(i)
            work.extend(refs.get(i, ()))
        for i, r in blocks.items():
            if i not in ok:
                self.check(st, False, 'memory', 'no memory is leaked (%s)' % r.base)

    def settle(self, st, c):
        if isinstance(c, bool):
            return c
        # most often a branch of the path decides it: ask with only the conjuncts about the same symbols
        if not isinstance(c, bool):
            names = leaves(c)
            near = [x for x in st.pc if leaves(x) <= names]
            if near:
                for r, g in ((True, c), (False, Not(c))):
                    q = z3.Solver()
                    q.set('timeout', 500)
                    if q.check(near + [z3.Not(Z(g) if not isinstance(g, z3.BoolRef) else g)]) == z3.unsat:
                        return r
        s = st.copy()
        if self.prov(s, c):
            return True
        if self.prov(s, Not(c)):
            return False
        return None

    def prov(self, st, g):
        return self.E.prove(st, g, 3000) is True

    def witness(self, st, f, more=(), shift=None):
        """disjunction of f over the loop counters (the iteration at which a search stopped)"""
        cands, seen = {}, set()
        stack = list(st.pc)
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            stack.extend(x.children())
            if z3.is_const(x) and z3.is_bv(x) and x.size() == 64 and str(x).startswith(('n!', 'slot!', 'memchr!')):
                cands[str(x)] = x
        out = [f(c) for c in cands.values()] + [f(K(i, 64)) for i in range(2)] + [f(c) for c in more]
        if shift is not None:
            out += [f(shift(c)) for c in cands.values()]
        return Or(*out)

    def calls(self, st):
        """(number of user callback calls, k -> (args, result value, result type))"""
        parts = []
        for e in st.ev:
            if e[0] == 'call':
                parts.append((K(1, 64), lambda k, e=e: e[1:]))
            elif e[0] == 'bulk':
                cs = [(c, x) for c, x in e[1].evs if x[0] == 'call']
                if cs:
                    def f(k, b=e[1], cs=cs):
                        pr = [(Z(b.n), Z(k))]
                        r = None
                        for c, x in cs:
                            y = ev_subst(x, pr)
                            r = y[1:] if r is None else merge(x_subst(c, pr), y[1:], r)
                        return r
                    parts.append((e[1].N, f))
        cnt = K(0, 64)
        for n, _ in parts:
            cnt = add(cnt, n)
        if not parts:
            return cnt, None

        def call(k):
            r = None
            start = K(0, 64)
            sel = []
            for n, f in parts:
                end = add(start, n)
                sel.append((ult(k, end), f(sub(k, start))))
                start = end
            r = sel[-1][1]
            for c, x in reversed(sel[:-1]):
                r = merge(c, x, r)
            return r
        return cnt, call

    def match_many(self, st, kind, N, f, left, msg):
        E = self.E
        lo = K(0, 64)       # already matched prefix
        hi = N              # and suffix
        for _ in range(4):
            if self.prov(st, eq(lo, hi)):
                return
            # single events matching the first or last element
            done = False
            for e in list(left):
                if e[0] == kind:
                    if self.prov(st, And(ult(lo, hi), eq(e[1], f(lo)[0]))) and (kind == 'addref' or True):
                        left.remove(e)
                        lo = add(lo, K(1, 64))
                        done = True
                        break
                    last = sub(hi, K(1, 64))
                    if self.prov(st, And(ult(lo, hi), eq(e[1], f(last)[0]))):
                        left.remove(e)
                        hi = last
                        done = True
                        break
                elif e[0] == 'bulk':
                    b = e[1]
                    mine = [(c, x) for c, x in b.evs if x[0] == kind]
                    if not mine or not self.prov(st, eq(b.N, sub(hi, lo))):
                        continue
                    for mp in (lambda j: add(lo, j), lambda j: sub(sub(hi, K(1, 64)), j)):
                        hit = self.bulk_matches(st, b, mine, mp, f, kind)
                        if hit:
                            rest = [(c, x) for c, x in b.evs if not any(x is y for y in hit)]
                            left.remove(e)
                            if rest:
                                left.append(('bulk', Bulk(b.n, b.N, rest)))
                            lo = hi
                            done = True
                            break
                    if done:
                        break
            if done:
                continue
            # elements that own nothing need no event: first element not refcounted (peeled iteration)
            if self.prov(st, And(ult(lo, hi), Not(refcounted(f(lo)[1])))):
                lo = add(lo, K(1, 64))
                continue
            last = sub(hi, K(1, 64))
            if self.prov(st, And(ult(lo, hi), Not(refcounted(f(last)[1])))):
                hi = last
                continue
            break
        if self.prov(st, eq(lo, hi)):
            return
        j = self.skolem('j')
        s = st.copy()
        s.assume(And(ule(lo, j), ult(j, hi)))
        self.check(s, Not(refcounted(f(j)[1])), 'ownership', '%s: %s of every element' % (msg, kind))

    def bulk_matches(self, st, b, mine, mp, f, kind):
        j = self.skolem('j')
        s = st.copy()
        s.assume(ult(j, b.N))
        pr = [(Z(b.n), Z(j))]
        v, t = f(mp(j))
        conds, hit = [], []
        for c, x in mine:
            cj = x_subst(c, pr)
            y = ev_subst(x, pr)
            s2 = s.copy()
            s2.assume(cj)
            if not self.prov(s2, eq(y[1], v)):
                continue
            if kind == 'addref' and not self.prov(s2, refcounted(t)):
                continue
            conds.append(cj)
            hit.append(x)
        if not hit:
            return None
        # every refcounted element has its event, and at most one
        if len(conds) > 1:
            for i in range(len(conds)):
                for q in range(i):
                    if not self.prov(s, Not(And(conds[i], conds[q]))):
                        return None
        return hit if self.prov(s, Or(Not(refcounted(t)), *conds)) else None


# ---------------------------------------------------------------- inputs
def _setarg(C, i, term):
    s = C.st.mem[C.x.id]
    fs, clo = s.arrs[0]
    s.arrs[0] = (fs, lambda k, clo=clo: term if isinstance(k, K) and k.v == i else clo(k))


def array_arg(C, i, kind):
    """argument i is a PHP array; kind: 'packed', 'hash', 'empty'. Ghost: rank/defined. Returns View-like object."""
    E, st = C.E, C.st
    h = array_value(C, kind, 'in')
    C.assume(Or(eq(C.arg(i)[1], K(0x307, 32)), eq(C.arg(i)[1], K(7, 32))))
    _setarg(C, i, E.enc(Ptr(h.reg)))
    return h


class ArrayIn:
    pass


def array_value(C, kind, name, n=None):
    """a PHP array: h.used slots, slot i defined iff type != UNDEF; the elements in order are those of the defined slots.
    rank(i) = number of defined slots before i (ghost)"""
    E, st = C.E, C.st
    h = ArrayIn()
    r = E.new_region(st, name + '_array', 'ext', nbytes=K(56, 64))
    s = st.mem[r.id]
    used, num = C.sym(name + '_used', 32), C.sym(name + '_num', 32)
    packed = kind.startswith('packed')
    full = kind.endswith('full')
    stride = 16 if packed else 32
    d = E.new_region(st, name + '_slots', 'ext', stride=stride, length=zext(used, 64))
    V = z3.Function(name + '_slot_value', B64, B64)
    T_ = z3.Function(name + '_slot_type', B64, B32)
    S = z3.Function(name + '_slot_key', B64, B64)
    N = z3.Function(name + '_slot_h', B64, B64)
    ds = st.mem[d.id]
    ds.arrs[0] = (8, lambda k: V(Z(k)))
    ds.arrs[8] = (4, lambda k: T_(Z(k)))
    if not packed:
        ds.arrs[16] = (8, lambda k: N(Z(k)))
        ds.arrs[24] = (8, lambda k: S(Z(k)))
    s.cells[8] = (4, K(4, 32) if packed else K(0, 32))
    s.cells[16] = (8, Ptr(d))
    s.cells[24] = (4, used)
    s.cells[28] = (4, num)
    u64 = zext(used, 64)
    R = z3.Function(name + '_rank', B64, B64)
    st.assume(And(ule(num, used), ule(used, K(MAXC, 32))))
    C.watch[name + '.nNumUsed'] = used
    C.watch[name + '.nNumOfElements'] = num
    VT = E.VALID_T + (0x10a,)
    if full:
        st.assume(eq(num, used))
        rank = lambda i: i
        st.facts.append(Fact(lambda j: Implies(ult(j, u64), Or(*[eq(T_(Z(j)), K(x, 32)) for x in VT])), [(T_, 0, lambda j: j)], 'array elements are PHP values'))
        defined = lambda i: True
    else:
        rank = lambda i: R(Z(i))
        defined = lambda i: ne(tbyte(T_(Z(i))), K(0, 8))
        st.facts.append(Fact(lambda j: Implies(ult(j, u64), Or(eq(T_(Z(j)), K(0, 32)), *[eq(T_(Z(j)), K(x, 32)) for x in VT])), [(T_, 0, lambda j: j)], 'array elements are PHP values'))
        n64 = zext(num, 64)
        # definition of rank, and its consequence rank <= nNumOfElements (induction, both directions)
        st.facts.append(Fact(lambda j: And(ule(R(Z(j)), j), Implies(ule(j, u64), ule(R(Z(j)), n64)), Implies(ult(j, u64), eq(R(Z(add(j, K(1, 64)))), add(R(Z(j)), ite(defined(j), K(1, 64), K(0, 64))))), Implies(And(ult(j, u64), defined(j)), ult(R(Z(j)), n64))),
                             [(R, 0, lambda j: j), (T_, 0, lambda j: j)], 'rank'))
        st.assume(And(eq(R(Z(K(0, 64))), K(0, 64)), eq(R(Z(u64)), n64)))
        E.hints.append(lambda E_, L, R=R: [('%s-init=rank(n)' % v, lambda m, v=v: eq(sub(zext(L.scalar(v, m), 64), zext(v.i0(), 64)), R(Z(m))))
                                          for v in L.vars.values() if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and v.w in (32, 64)])
    # references inside the array point to engine memory holding a plain value
    e4 = z3.Function('ext4', B64, B32)
    st.facts.append(Fact(lambda j: Implies(And(ult(j, u64), eq(T_(Z(j)), K(0x10a, 32))), E.valid_zval(e4(Z(add(V(Z(j)), K(16, 64)))))), [(T_, 0, lambda j: j), (V, 0, lambda j: j)], 'reference targets'))
    h.reg, h.slots, h.used, h.num, h.rank, h.defined = r, d, u64, zext(num, 64), rank, defined
    h.tfun = T_
    E.__dict__.setdefault('arrays_in', {})[r.id] = h
    h.val = lambda i: deref(V(Z(i)), T_(Z(i)))
    h.raw = lambda i: (V(Z(i)), T_(Z(i)))
    h.key, h.h, h.full = (lambda i: S(Z(i))), (lambda i: N(Z(i))), full
    if not packed:
        # a slot has either a string key or an integer key
        pass
    return h


def trav_arg(C, i):
    """argument i is a Traversable yielding C.trav.n (key, value) pairs; any step may throw"""
    E, st = C.E, C.st
    from .models import di
    fo = di(E, '_zend_class_entry')[1]['get_iterator'][0]
    o = E.new_region(st, 'traversable', 'ext', nbytes=K(56, 64))
    ce = E.new_region(st, 'trav_ce', 'ext', nbytes=K(1024, 64))
    it = E.new_region(st, 'trav_it', 'ext', nbytes=K(128, 64))
    fn = E.new_region(st, 'trav_funcs', 'ext', nbytes=K(64, 64))
    st.mem[o.id].cells[16] = (8, Ptr(ce))
    st.mem[ce.id].cells[fo] = (8, Fn('$get_iterator'))
    d = di(E, '_zend_object_iterator')[1]
    st.mem[it.id].cells[d['funcs'][0]] = (8, Ptr(fn))
    st.mem[it.id].cells[d['index'][0]] = (8, K(0, 64))
    for k, name in enumerate(('$it_dtor', '$it_valid', '$it_current', '$it_key', '$it_next', '$it_rewind')):
        st.mem[fn.id].cells[8 * k] = (8, Fn(name))
    g = E.new_region(st, 'trav_pos', 'ext', nbytes=K(8, 64))
    st.mem[g.id].cells[0] = (8, K(0, 64))
    n = C.sym('trav_n')
    st.assume(ule(n, K(MAXC, 64)))
    C.watch['traversable.length'] = n
    V, T_ = z3.Function('trav_value', B64, B64), z3.Function('trav_type', B64, B32)
    KV, KT = z3.Function('trav_kvalue', B64, B64), z3.Function('trav_ktype', B64, B32)
    vals = E.new_region(st, 'trav_vals', 'ext', stride=16, length=n)
    keys = E.new_region(st, 'trav_keys', 'ext', stride=16, length=n)
    st.mem[vals.id].arrs.update({0: (8, lambda k: V(Z(k))), 8: (4, lambda k: T_(Z(k)))})
    st.mem[keys.id].arrs.update({0: (8, lambda k: KV(Z(k))), 8: (4, lambda k: KT(Z(k)))})
    e4 = z3.Function('ext4', B64, B32)
    st.facts.append(Fact(lambda j: Implies(ult(j, n), And(E.valid_zval(T_(Z(j)), (0x10a,)), Implies(eq(T_(Z(j)), K(0x10a, 32)), E.valid_zval(e4(Z(add(V(Z(j)), K(16, 64)))))))), [(T_, 0, lambda j: j)], 'yielded values'))
    st.facts.append(Fact(lambda j: Implies(ult(j, n), E.valid_zval(KT(Z(j)))), [(KT, 0, lambda j: j)], 'yielded keys'))
    st.ghost['trav'] = {'iter': it, 'ghost': g, 'n': n, 'vals': vals, 'keys': keys}
    C.trav = View(n, lambda k: deref(V(Z(k)), T_(Z(k))))
    C.trav.key = lambda k: (KV(Z(k)), KT(Z(k)))
    if i is not None:
        st.assume(eq(C.arg(i)[1], K(0x308, 32)))
        _setarg(C, i, E.enc(Ptr(o)))
    st.assume(z3.Function('is_traversable', B64, z3.BoolSort())(Z(E.enc(Ptr(o)))))
    C.trav_obj = o
    return o


# ---------------------------------------------------------------- outputs
def array_out(C, st, v, t, msg):
    """View of a freshly returned PHP array that is a list 0..n-1; checks that it is well formed"""
    E = C.E
    if isinstance(v, Ptr) and v.reg.kind == 'global' and v.reg.base == '@zend_empty_array':
        C.check(st, Or(eq(t, K(7, 32)), eq(t, K(0x307, 32))), 'post', msg + ': returns an array')
        return View(K(0, 64), lambda k: (K(0, 64), K(0, 32)))
    if not (isinstance(v, Ptr) and v.reg.base == 'newarray'):
        C.check(st, False, 'post', msg + ': returns a new array (%r)' % (v,))
        return None
    C.check(st, eq(t, K(0x307, 32)), 'post', msg + ': returns an array')
    r = v.reg
    used = E.cell_load(st, r, HT['used'], 4, False)
    num = E.cell_load(st, r, HT['num'], 4, False)
    nxt = E.cell_load(st, r, HT['next'], 8, False)
    data = E.cell_load(st, r, HT['data'], 8, True)
    C.check(st, eq(used, num), 'post', msg + ': array has no holes')
    C.check(st, Or(eq(nxt, zext(used, 64)), And(eq(used, K(0, 32)), eq(nxt, K(1 << 63, 64)))), 'post', msg + ': next free index')
    if not isinstance(data, Ptr) or data.reg.base != 'packed':
        C.check(st, eq(used, K(0, 32)), 'post', msg + ': array storage')
        return View(zext(used, 64), lambda k: (K(0, 64), K(0, 32)))
    ln = E.region_len(st, data.reg)
    C.check(st, ule(zext(used, 64), ln), 'post', msg + ': array storage is large enough')
    a0 = E.arr_field(st, data.reg, 0, 8)[2]
    a8 = E.arr_field(st, data.reg, 8, 4)[2]
    return View(zext(used, 64), lambda k: (a0(k), a8(k)))


def rv_ptr(C, st):
    return C.E.cell_load(st, C.rv, 0, 8, True), C.E.cell_load(st, C.rv, 8, 4, False)
