"""Teds\\IntVector: a list of integers stored with the smallest of four element widths.

Entry cases fix the width (i8..i64), so the storage is an ordinary buffer of that width; 'abs' is a list of integers in any
representation: code run on it may only reach the representation through the functions whose contracts are proved per width (FN)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from .seq import ListAdaptor, SeqSpec
from .handlers import HandlerSpec, IterSpec, run_case

W = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}
TAG = {1: 1, 2: 2, 4: 3, 8: 4}
WID = {1: 1, 2: 2, 3: 4, 4: 8}
INT = K(4, 32)


def fits(v, w):
    return True if w == 8 else eq(sext(extract(v, 8 * w - 1, 0), 64), v)


class IntAdaptor(ListAdaptor):
    struct = '_teds_intvector'
    cls = 'IntVector'
    module = 'teds_intvector'
    # 'emptyN': no elements, but the width N left behind by earlier ones
    cases = ('empty', 'empty1', 'empty2', 'empty3', 'empty4', 'i8', 'i16', 'i32', 'i64')
    ctor_cases = ('null', 'empty', 'empty1', 'i8', 'i64')
    elem = 'int'

    def iters_case(self, m):
        return 'absiters' if m in ('push', 'pushInts') else 'iters'

    def offs(self, C):
        d = self.layout(C)
        pre = self.pre
        return {k: d[pre + k][0] for k in ('size', 'capacity', 'type_tag', 'is_string_backed', 'active_iterators.first')} | {'entries': 0}

    def make(self, C, case, name='this'):
        E, st = C.E, C.st
        d = self.layout(C)
        o = self.offs(C)
        r = E.new_region(st, name, 'heap', nbytes=K(d['__size__'][1], 64))
        s = st.mem[r.id]
        C.initialised = case != 'null'
        C.obj_reg = r
        E.fork_unroll = 4
        if case == 'iters':
            w = 8
        else:
            w = W.get(case)
        size, cap, tag, ent = K(0, 64), K(0, 64), K(0, 8), NULL
        old = lambda k: (K(0, 64), INT)
        if w:
            size, cap = C.sym(name + '_size'), C.sym(name + '_capacity')
            st.assume(And(ule(size, cap), ult(K(0, 64), cap), ule(cap, K((1 << 44) // w, 64))))
            A = z3.Function(name + '_value', B64, z3.BitVecSort(8 * w))
            e = E.new_region(st, name + '_entries', 'heap', stride=w, length=cap)
            st.mem[e.id].arrs[0] = (w, lambda k: A(Z(k)))
            ent, tag = Ptr(e), K(TAG[w], 8)
            old = lambda k: (sext(A(Z(k)), 64), INT)
            C.watch[name + '.size'], C.watch[name + '.capacity'] = size, cap
        elif case.startswith('empty'):
            tag = K(int(case[5:] or 0), 8)
            ent = E.global_ptr(st, 'teds_empty_entry_list', C.mod)
        elif case in ('abs', 'absiters'):
            size, cap = C.sym(name + '_size'), C.sym(name + '_capacity')
            st.assume(And(ule(size, cap), ule(cap, K(1 << 41, 64))))
            A = z3.Function(name + '_value', B64, B64)
            old = lambda k: (A(Z(k)), INT)
            self.ghost(C, st, r, A)
            st.ghost['abs'] = True
        if case in ('null', 'abs', 'absiters'):
            self.abstract(C, r)
        s.cells[o['entries']] = (8, ent)
        s.cells[o['size']] = (8, size)
        s.cells[o['capacity']] = (8, cap)
        s.cells[o['type_tag']] = (1, tag)
        s.cells[o['is_string_backed']] = (1, K(0, 8))
        s.cells[o['active_iterators.first']] = (8, NULL)
        if case in ('iters', 'absiters'):
            from .handlers import iterator_list
            s.cells[o['active_iterators.first']] = (8, iterator_list(C, self, r))
        s.cells[d['std'][0] + 32] = (8, NULL)
        C.old = View(size, old)
        C.size, C.cap = size, cap
        return Ptr(r, off=d['std'][0])

    # ---- any representation: a ghost list of 64-bit integers
    def ghost(self, C, st, reg, A=None):
        E = C.E
        g = E.new_region(st, 'contents', 'ext', stride=8, length=None)
        if A is None:
            f, _ = E.fresh_fn('contents0', 64, 64)
            A = f
        st.mem[g.id].arrs[0] = (8, lambda k: A(Z(k)))
        reg.contents = g
        return g

    def abstract(self, C, r):
        """in the abstract state the representation fields are not read or written directly"""
        o = self.offs(C)

        def ld(E, st, p, size, isp):
            if st.ghost.get('abs'):
                raise Unsupported('direct access to the representation of an abstract IntVector')
            return None

        def sto(E, st, p, size, v):
            if st.ghost.get('abs'):
                raise Unsupported('direct access to the representation of an abstract IntVector')
            return False
        for f in ('entries', 'capacity', 'type_tag'):
            r.hooks[o[f]] = ld
            r.shooks[o[f]] = sto
        self.install(C, r)

    def install(self, C, r):
        o = self.offs(C)
        ad = self

        def mine(p):
            return isinstance(p, Ptr) and p.off == 0 and getattr(p.reg, 'contents', None) is not None

        def become(E, st, reg):
            if getattr(reg, 'contents', None) is None:
                ad.ghost(C, st, reg)
                if not reg.hooks:
                    ad.abstract(C, reg)
            st.ghost['abs'] = True

        def set_empty(E, st, a, ins):
            p = a[0]
            if not (isinstance(p, Ptr) and p.off == 0):
                return NotImplemented
            become(E, st, p.reg)
            s = st.rsw(p.reg)
            s.cells[o['size']] = (8, K(0, 64))
            s.cells[o['capacity']] = (8, K(0, 64))
            return None

        def init_tag(E, st, a, ins):
            return None if mine(a[0]) and st.ghost.get('abs') else NotImplemented

        def raise_cap(E, st, a, ins):
            if not (mine(a[0]) and st.ghost.get('abs')):
                return NotImplemented
            s = st.rsw(a[0].reg)
            # requires: more than the capacity (known here as a lower bound; from an empty list it is exactly 0)
            E.check(st, eq(E.cell_load(st, a[0].reg, o['capacity'], 8, False), K(0, 64)), 'pre', 'raise_capacity raises the capacity')
            E.check(st, ult(K(0, 64), a[1]), 'pre', 'raise_capacity raises the capacity')
            s.cells[o['capacity']] = (8, a[1])
            return None

        def push(E, st, a, ins):
            if not (mine(a[0]) and st.ghost.get('abs')):
                return NotImplemented
            reg = a[0].reg
            size = E.cell_load(st, reg, o['size'], 8, False)
            chk = a[2]
            if chk is not True and not (isinstance(chk, K) and chk.v == 1):
                E.check(st, ult(size, E.cell_load(st, reg, o['capacity'], 8, False)), 'pre', 'entries_push without capacity check: capacity is left')
            E.arr_store(st, reg.contents, size, 0, 8, a[1])
            E.cell_store(st, reg, o['size'], 8, add(size, K(1, 64)))
            return None
        C.E.contracts.update({'teds_intvector_entries_set_empty_list': set_empty, 'teds_intvector_entries_init_type_tag': init_tag,
                              'teds_intvector_entries_raise_capacity': raise_cap, 'teds_intvector_entries_push': push})

    def prepare(self, C, name):
        if name == '__set_state':
            self.install(C, None)

    def storage(self, C, st, reg=None):
        return C.E.cell_load(st, reg or C.obj_reg, 0, 8, True)

    def gc(self, C, st, t, n):
        C.check(st, eq(C.E.cell_load(st, n, 0, 4, False), K(0, 32)), 'post', 'get_gc: integers need no collection')

    def view(self, C, st, reg=None):
        E = C.E
        r = reg or C.obj_reg
        o = self.offs(C)
        size = E.cell_load(st, r, o['size'], 8, False)
        if st.ghost.get('abs') and getattr(r, 'contents', None) is not None:
            a = E.arr_field(st, r.contents, 0, 8)[2]
            return View(size, lambda k: (a(k), INT))
        cap = E.cell_load(st, r, o['capacity'], 8, False)
        ent = E.cell_load(st, r, o['entries'], 8, True)
        tag = E.cell_load(st, r, o['type_tag'], 1, False)
        nothing = View(size, lambda k: (K(0, 64), INT))
        C.check(st, ule(tag, K(4, 8)), 'invariant', 'known element width')
        if isinstance(ent, Null):
            C.check(st, And(eq(size, K(0, 64)), eq(cap, K(0, 64)), eq(tag, K(0, 8))), 'invariant', 'NULL storage only before construction')
            return nothing
        if not isinstance(ent, Ptr):
            C.check(st, False, 'invariant', 'storage pointer is valid (%r)' % (ent,))
            return nothing
        if ent.reg.kind == 'global':
            C.check(st, And(eq(size, K(0, 64)), eq(cap, K(0, 64)), ent.reg.base == '@teds_empty_entry_list'), 'invariant', 'shared empty storage only with size and capacity 0')
            return nothing
        if not isinstance(tag, K) or tag.v not in WID:
            C.check(st, False, 'invariant', 'element width is set (%s)' % (tag,))
            return nothing
        w = WID[tag.v]
        if ent.reg.stride is None:
            ent.reg.stride = w
        es = st.mem[ent.reg.id]
        C.check(st, And(es.alive, ent.ver == es.ver, ent.off == 0, eq(ent.idx, K(0, 64)), ent.reg.kind == 'heap'), 'invariant', 'storage is a live heap block')
        C.check(st, And(ule(size, cap), ne(cap, K(0, 64))), 'invariant', 'size <= capacity')
        C.check(st, ent.reg.stride == w, 'invariant', 'element width of the storage')
        if ent.reg.stride != w:
            return nothing
        C.check(st, ule(cap, E.region_len(st, ent.reg)), 'invariant', 'capacity is allocated')
        a = E.arr_field(st, ent.reg, 0, w)[2]
        return View(size, lambda k: (sext(a(k), 64), INT))


def isint(z):
    return eq(tbyte(z[1]), K(4, 8))


class IntSpec(SeqSpec):
    def bad_args(self, C, st, lo):
        """some argument from lo on is not an integer"""
        argc = zext(C.argc, 64)
        return C.witness(st, lambda k: And(ule(K(lo, 64), k), ult(k, argc), Not(isint(C.arg(k)))), [K(i, 64) for i in range(5)], lambda k: add(k, K(lo, 64)))

    def good_args(self, C, st, lo, name):
        k = C.skolem()
        s = st.copy()
        s.assume(And(ule(K(lo, 64), k), ult(k, zext(C.argc, 64))))
        C.check(s, isint(C.arg(k)), 'post', name + ': a value that is not an integer throws')

    def m_push(self, C, o):
        """appends the arguments up to the first that is not an integer, which raises TypeError"""
        st = o.st
        argc = zext(C.argc, 64)
        n, e = C.fork_exc(st)
        v = self.ad.view(C, st)
        if n is not None:
            C.check_list(n, self.ad.view(C, n), *self.ins(C, C.old.size, argc, C.arg), 'push appends the arguments')
            C.ownership(n, [], [], 'push')
            self.rv_void(C, n)
        if e is not None:
            C.check(e, any('TypeError' in str(t) for t in self.tags(C, e)), 'post', 'push throws only TypeError')
            v = self.ad.view(C, e)
            m = sub(v.size, C.old.size)
            C.check(e, And(ule(C.old.size, v.size), ult(m, argc), Not(isint(C.arg(m)))), 'post', 'push: TypeError only for an argument that is not an integer')
            C.check_list(e, v, *self.ins(C, C.old.size, m, C.arg), 'push: the arguments before it are appended')
            C.ownership(e, [], [], 'push')
    m_push.args = (None,)
    m_push.cases = ('abs',)
    m_pushInts = m_push

    def m_pushFront(self, C, o):
        argc = zext(C.argc, 64)
        st = self.split(C, o, 'pushFront', (), {'TypeError': self.bad_args(C, o.st, 0)})
        if st is None:
            return
        self.good_args(C, st, 0, 'pushFront')
        C.check_list(st, self.ad.view(C, st), *self.ins(C, K(0, 64), argc, lambda j: C.arg(sub(sub(argc, K(1, 64)), j))), 'pushFront inserts the arguments')
        C.ownership(st, [], [], 'pushFront')
    m_pushFront.args = (0, 1, 2)
    m_pushFront.args_for = {'i64': (None,), 'empty4': (None,)}
    m_unshift = m_pushFront

    def m_insert(self, C, o):
        i = self.index(C, 0)
        argc = sub(zext(C.argc, 64), K(1, 64))
        st = self.split(C, o, 'insert', ('ArgumentError',), {'InvalidIndex': ult(C.old.size, i), 'OutOfBounds': ult(C.old.size, i), 'TypeError': self.bad_args(C, o.st, 1)})
        if st is None:
            return
        self.good_args(C, st, 1, 'insert')
        C.check(st, ule(i, C.old.size), 'post', 'insert: position is within the list')
        C.check_list(st, self.ad.view(C, st), *self.ins(C, i, argc, lambda j: C.arg(add(j, K(1, 64)))), 'insert inserts the arguments')
        C.ownership(st, [], [], 'insert')
    m_insert.args = (1, 2, 3)
    m_insert.args_for = {'i64': (None,), 'empty4': (None,)}

    def setter(self, C, o, name, ok, i, val, isi=None):
        isi = isint(val) if isi is None else isi
        n = self.split(C, o, name, ('ArgumentError',) if ok is True else (), {'InvalidIndex': ule(C.old.size, i), 'OutOfBounds': ule(C.old.size, i), 'TypeError': Or(Not(ok), Not(isi))})
        if n is None:
            return
        C.check(n, And(ok, isi, ult(i, C.old.size)), 'post', name + ' of a bad index or value throws')
        C.check_list(n, self.ad.view(C, n), C.old.size, lambda k: (ite(eq(k, i), val[0], C.old.at(k)[0]), INT), name + ' replaces exactly one element')
        C.ownership(n, [], [], name)
        self.rv_void(C, n)

    def m___construct(self, C, o):
        if C.setup == 'none':
            return super().m___construct(C, o)
        n, e = C.fork_exc(o.st)
        tg = [str(t) for t in self.tags(C, e)] if e is not None else []
        if e is not None and 'TypeError' in tg and not C.initialised:
            # an element that is not an integer: the object stays usable
            h = getattr(C, 'inarr', None)
            if C.setup == 'trav':
                bad = lambda k: And(ult(k, C.trav.size), Not(isint(C.trav.at(k))))
            else:
                bad = lambda k: And(ult(k, h.used), h.defined(k), Not(isint(h.val(k))))
            C.check(e, C.witness(e, bad), 'post', '__construct: TypeError only for a value that is not an integer')
            self.ad.view(C, e)
            C.ownership(e, [], [], '__construct')
            if n is None:
                return
            o.st = n
        super().m___construct(C, o)
        if n is None or C.initialised:
            return
        k = C.skolem()
        s = n.copy()
        if C.setup == 'trav':
            s.assume(ult(k, C.trav.size))
            C.check(s, isint(C.trav.at(k)), 'post', '__construct: a value that is not an integer throws')
        else:
            s.assume(And(ult(k, C.inarr.used), C.inarr.defined(k)))
            C.check(s, isint(C.inarr.val(k)), 'post', '__construct: a value that is not an integer throws')
    m___construct.args = (0, 1)
    m___construct.setups = ('none', 'packedfull', 'packed', 'hash', 'trav')

    def m_setInt(self, C, o):
        self.setter(C, o, 'setInt', True, self.index(C, 0), (self.index(C, 1), INT), True)
    m_setInt.args = (2,)

    def m_indexOf(self, C, o):
        n = self.split(C, o, 'indexOf', ('ArgumentError',), {})
        if n is None:
            return
        v, t = C.retval(n)
        x = self.index(C, 0)
        same = lambda k: eq(C.old.at(k)[0], x)
        found = eq(t, INT)
        C.check(n, Or(found, eq(t, K(1, 32))), 'post', 'indexOf returns int or null')
        C.check(n, Implies(found, And(ult(v, C.old.size), same(v))), 'post', 'indexOf: the element at the returned index is the value')
        k = C.skolem()
        s = n.copy()
        s.assume(And(ult(k, C.old.size), Or(Not(found), ult(k, v))))
        C.check(s, Not(same(k)), 'post', 'indexOf: no earlier element is the value')
        self.same_list(C, n)
        C.ownership(n, [], [], 'indexOf')
    m_indexOf.args = (1,)

    # ---- serialization: [] for no elements, else [type tag, the elements as little-endian integers of that width]
    def m___serialize(self, C, o):
        n = self.split(C, o, '__serialize', (), {})
        if n is None:
            return
        E = C.E
        p, t = rv_ptr(C, n)
        self.same_list(C, n)
        C.ownership(n, [], [], '__serialize')
        if isinstance(p, Ptr) and p.reg.kind == 'global':
            C.check(n, And(eq(C.old.size, K(0, 64)), p.reg.base == '@zend_empty_array', Or(eq(t, K(7, 32)), eq(t, K(0x307, 32)))), 'post', '__serialize: the empty array only for an empty list')
            return
        pr = n.ghost.get('pair')
        if pr is None or not isinstance(p, Ptr) or p.reg is not pr[0]:
            C.check(n, False, 'post', '__serialize returns a pair (%r)' % (p,))
            return
        self.check_pair(C, n, pr, t, C.old, '__serialize')

    def check_pair(self, C, n, pr, t, old, name):
        E = C.E
        _, (v1, t1), (v2, t2) = pr
        C.check(n, And(eq(t, K(0x307, 32)), ne(old.size, K(0, 64)), eq(t1, INT), eq(t2, K(0x106, 32))), 'post', name + ': [int, string]')
        w = WID.get(v1.v) if isinstance(v1, K) else None
        if w is None or not isinstance(v2, Ptr) or v2.reg.base != 'string':
            C.check(n, False, 'post', name + ': [type tag, bytes] (%r, %r)' % (v1, v2))
            return
        C.check(n, And(v2.reg.stride == w, eq(E.cell_load(n, v2.reg, 16, 8, False), mul(old.size, K(w, 64)))), 'post', name + ': number of bytes')
        if v2.reg.stride != w:
            return
        a = E.arr_field(n, v2.reg, 0, w)[2]
        C.check_list(n, View(old.size, lambda k: (sext(a(k), 64), INT)), old.size, old.at, name + ': the bytes of the elements')
    m___serialize.args = (0,)

    def setup_arg(self, C, name, su):
        if name == '__serialize':
            C.E.contracts.update({'zend_string_init': string_init, 'zend_new_pair': new_pair})
        if name != '__unserialize':
            return name == '__serialize'
        for f in FN:
            C.E.contracts.pop(f, None)
        pair_arg(C, su)
        return True

    def m___unserialize(self, C, o):
        st = o.st
        n, e = C.fork_exc(st)
        P = C.pair
        none = eq(P.num, K(0, 32))
        good = And(eq(P.num, K(2, 32)), P.has[0], P.has[1], isint(P.el[0]), eq(tbyte(P.el[1][1]), K(6, 8)), P.tagok)
        if e is not None:
            C.check(e, any('RuntimeException' in str(t) for t in self.tags(C, e)), 'post', '__unserialize throws RuntimeException')
            C.check(e, Or(C.initialised, Not(Or(none, And(good, P.lenok)))), 'post', '__unserialize throws only for bad data')
            if C.initialised:
                self.same_list(C, e)
            C.ownership(e, [], [], '__unserialize')
        if n is not None:
            C.check(n, And(not C.initialised, Or(none, And(good, P.lenok))), 'post', '__unserialize of bad data, or a second one, throws')
            v = self.ad.view(C, n)
            C.check_list(n, v, ite(none, K(0, 64), P.n), lambda k: (sext(P.at(k), 64), INT), '__unserialize restores the elements')
            C.ownership(n, [], [], '__unserialize')
    m___unserialize.args = (1,)
    m___unserialize.setups = ('tag1', 'tag2', 'tag3', 'tag4', 'odd2', 'odd3', 'odd4', 'other')

    def m___set_state(self, C, o):
        h = C.inarr
        n, e = C.fork_exc(o.st)
        if e is not None:
            tg = [str(t) for t in self.tags(C, e)]
            C.check(e, any(t in ('TypeError', 'ArgumentError', 'from-error-handler') for t in tg), 'post', '__set_state throws only TypeError')
            if 'TypeError' in tg:
                C.check(e, C.witness(e, lambda k: And(ult(k, h.used), h.defined(k), Not(isint(h.val(k))))), 'post', '__set_state: TypeError only for a value that is not an integer')
        if n is not None:
            v = self.new_object(C, n, '__set_state')
            if v is not None:
                self.from_array(C, n, h, v, '__set_state')
            k = C.skolem()
            s = n.copy()
            s.assume(And(ult(k, h.used), h.defined(k)))
            C.check(s, isint(h.val(k)), 'post', '__set_state: a value that is not an integer throws')
            C.ownership(n, [], [], '__set_state')
    m___set_state.args = (1,)
    m___set_state.static = True
    m___set_state.setups = ('packedfull', 'packed', 'hash')

    def table(self):
        return {k: v for k, v in super().table().items() if v is not None}


def string_init(E, st, a, ins):
    """zend_string_init (engine header, assumed): a new string with a copy of len bytes"""
    p, ln = E.rptr(st, a[0], 'zend_string_init'), a[1]
    if not isinstance(p, Ptr) or not p.reg.stride or p.off or p.reg.header:
        raise Unsupported('zend_string_init from %r' % (p,))
    w = p.reg.stride
    cnt = div_exact(ln, w)
    if cnt is None:
        cnt = div_exact(simp(ln), w)
    if cnt is None:
        raise Unsupported('zend_string_init: length')
    E.block_access(st, p, p.idx, cnt, 'zend_string_init')
    src = E.arr_field(st, p.reg, 0, w)[2]
    r = E.new_region(st, 'string', 'heap', stride=w, length=cnt, header=24)
    s = st.mem[r.id]
    s.cells[0] = (4, K(1, 32))
    s.cells[4] = (4, K(0x16, 32))
    s.cells[16] = (8, ln)
    s.arrs[0] = (w, lambda k: src(add(p.idx, k)))
    return Ptr(r)


def new_pair(E, st, a, ins):
    """zend_new_pair (engine, assumed): a new array of the two values (moved)"""
    r = E.new_region(st, 'pair', 'heap', nbytes=K(56, 64))
    el = []
    for i in (0, 1):
        q = E.rptr(st, a[i], 'zend_new_pair')
        el.append((E.load(st, q, 8, True), E.load(st, E.ptr_add(st, q, 8), 4, False)))
    if isinstance(el[0][0], Opaque):
        el[0] = (el[0][0].bv, el[0][1])
    if isinstance(el[0][0], Null):
        el[0] = (K(0, 64), el[0][1])
    st.mem[r.id].cells[64] = (8, el[0][0])
    st.mem[r.id].cells[80] = (8, el[1][0])
    st.ghost['pair'] = (r, el[0], el[1])
    return Ptr(r)


class Pair:
    pass


def pair_arg(C, su):
    """argument 0 is an array with any number of elements; the values under the keys 0 and 1 are arbitrary (setup tagN: the tag N, and the string is read
    as integers of its width)"""
    E, st = C.E, C.st
    P = C.pair = Pair()
    r = E.new_region(st, 'data', 'ext', nbytes=K(56, 64))
    P.num = C.sym('data_num', 32)
    st.mem[r.id].cells[28] = (4, P.num)
    tag = int(su[3:]) if su != 'other' else None
    w = WID[tag] if tag else 1
    P.has = [C.sym('data_has%d' % i, 1) for i in (0, 1)]
    P.el, regs = [], []
    for i in (0, 1):
        v, t = C.sym('data%d_value' % i), C.sym('data%d_type' % i, 32)
        st.assume(E.valid_zval(t, (0x10a,)))
        z = E.new_region(st, 'data%d' % i, 'ext', nbytes=K(16, 64))
        regs.append(z)
        if i == 0 and tag:
            st.assume(eq(t, INT))
            v = K(tag, 64)
        elif i == 0:
            st.assume(Or(ne(t, INT), eq(v, K(0, 64)), ult(K(4, 64), v)))
        if i == 1:
            cnt = C.sym('string_n')
            st.assume(ule(cnt, K(1 << 40, 64)))
            ln = mul(cnt, K(w, 64))
            if su.startswith('odd'):
                ln = C.sym('string_len')
                st.assume(And(ule(ln, K(1 << 40, 64)), ne(and_(ln, K(w - 1, 64)), K(0, 64))))
            s = E.new_region(st, 'string', 'ext', stride=w, length=cnt, header=24)
            A = z3.Function('string_value', B64, z3.BitVecSort(8 * w))
            ss = st.mem[s.id]
            ss.cells[16] = (8, ln)
            ss.arrs[0] = (w, lambda k: A(Z(k)))
            P.n, P.at = cnt, lambda k: A(Z(k))
            P.lenok = not su.startswith('odd')
            v = Ptr(s)
            C.watch['string length'] = ln
        st.mem[z.id].cells[0] = (8, v)
        st.mem[z.id].cells[8] = (4, t)
        P.el.append((v, t))
    P.tagok = tag is not None
    C.watch['data elements'] = P.num

    def find(E, st, a, ins):
        q = E.rptr(st, a[0], 'zend_hash_index_find')
        if not (isinstance(q, Ptr) and q.reg is r and isinstance(a[1], K) and a[1].v in (0, 1)):
            return NotImplemented
        i = a[1].v
        out = []
        for g, v in ((P.has[i], Ptr(regs[i])), (Not(P.has[i]), NULL)):
            if E.feasible(st, g):
                s2 = st.copy()
                s2.assume(g)
                out.append((s2, v))
        return out
    E.contracts['zend_hash_index_find'] = find
    from ..specbase import _setarg
    C.assume(Or(eq(C.arg(0)[1], K(0x307, 32)), eq(C.arg(0)[1], K(7, 32))))
    _setarg(C, 0, E.enc(Ptr(r)))


class IntHandlers(HandlerSpec):
    def it_tasks(self):
        return [('it:' + f, c, None) for f in self.ITFUNCS for c in self.ad.cases if not (c.startswith('empty') and f in ('current', 'key', 'next'))]

    def h_write_dimension(self, C, obj):
        from .handlers import zval_in
        p, z = zval_in(C, 'offset', refs=True)
        if C.setup == 'append':
            p = NULL
        q, w = zval_in(C, 'value')
        ok, i = self.offset(*z)

        def post(o):
            st = o.st
            n, e = C.fork_exc(st)
            bad = Or(Not(ok), ule(C.old.size, i)) if C.setup is None else False
            bad = Or(bad, Not(isint(w)))
            if e is not None:
                C.check(e, Or(bad, 'from-error-handler' in map(str, self.sp.tags(C, e))), 'post', '$x[i] = v: throws only for a bad offset or value')
                self.sp.same_list(C, e)
                C.ownership(e, [], [], 'write_dimension')
            if n is not None:
                C.check(n, Not(bad), 'post', '$x[i] = v: a bad offset or value throws')
                v = self.ad.view(C, n)
                if C.setup == 'append':
                    C.check_list(n, v, add(C.old.size, K(1, 64)), lambda k: (ite(eq(k, C.old.size), w[0], C.old.at(k)[0]), INT), '$x[] = v appends')
                else:
                    C.check_list(n, v, C.old.size, lambda k: (ite(eq(k, i), w[0], C.old.at(k)[0]), INT), '$x[i] = v replaces exactly one element')
                C.ownership(n, [], [], 'write_dimension')
        return [obj, p, q], post
    h_write_dimension.setups = (None, 'append')

    def h_has_dimension(self, C, obj):
        from .handlers import zval_in
        p, z = zval_in(C, 'offset', refs=True)
        ce = C.sym('check_empty', 32)
        ok, i = self.offset(*z)

        def post(o):
            st = o.st
            n, e = C.fork_exc(st)
            if e is not None:
                C.check(e, Or(Not(ok), 'from-error-handler' in map(str, self.sp.tags(C, e))), 'post', 'isset($x[i]): throws only for an offset of a bad type')
                self.sp.same_list(C, e)
            if n is not None:
                v, t = C.old.at(i)
                want = And(ok, ult(i, C.old.size), Or(eq(ce, K(0, 32)), ne(v, K(0, 64))))
                C.check(n, self.truth(C, n, ne(o.val, K(0, 32)), want, v, t), 'post', 'isset/empty($x[i]): in range and not null / truthy')
                self.sp.same_list(C, n)
                C.ownership(n, [], [], 'has_dimension')
        return [obj, p, ce], post


IntAdaptor.spec = IntSpec
IntAdaptor.hspec = IntHandlers


# ---- contracts used on lists in any representation, proved for every width
FN = ('teds_intvector_entries_push', 'teds_intvector_entries_set_empty_list', 'teds_intvector_entries_init_type_tag', 'teds_intvector_entries_raise_capacity')


def fn_tasks(mod, ad):
    out = []
    for f in FN:
        if f not in mod._bodies:
            continue
        if f.endswith('_push'):
            out += [('fn', f, c, chk) for c in ad.cases for chk in (1, 0) if not (c.startswith('empty') and not chk)]
        elif f.endswith('raise_capacity'):
            out += [('fn', f, c, None) for c in ad.cases if c != 'empty']
        elif f.endswith('init_type_tag'):
            out += [('fn', f, 'empty', None)]
        else:
            out += [('fn', f, c, None) for c in ('null', 'empty', 'empty1')]
    return out


def run_fn(prog, mods, ad, task, budget, unroll):
    _, f, case, chk = task
    mod = mods[ad.module]
    label = '%s[%s%s]' % (f, case, '' if chk is None else ',check_capacity=%d' % chk)

    def body(C):
        ad.make(C, case)
        C.E.contracts.clear()
        o = ad.offs(C)
        v = C.sym('value')
        p = Ptr(C.obj_reg)
        if f.endswith('_push'):
            if not chk:
                C.assume(ult(C.size, C.cap))

            def post(out):
                st = out.st
                C.check(st, Not(C.exc(st)), 'post', 'entries_push does not throw')
                C.check_list(st, ad.view(C, st), add(C.old.size, K(1, 64)), lambda k: (ite(eq(k, C.old.size), v, C.old.at(k)[0]), INT), 'entries_push appends the value')
                if not chk:
                    C.check(st, ule(C.cap, C.E.cell_load(st, C.obj_reg, o['capacity'], 8, False)), 'post', 'entries_push does not lower the capacity')
                C.ownership(st, [], [], 'entries_push')
            return f, [p, v, K(chk, 1) if False else (chk == 1)], post
        if f.endswith('init_type_tag'):
            def post(out):
                t = C.E.cell_load(out.st, C.obj_reg, o['type_tag'], 1, False)
                C.check(out.st, And(ule(K(1, 8), t), ule(t, K(4, 8)), isinstance(t, K) and fits(v, WID[t.v])), 'post', 'the chosen width holds the value')
                C.check_list(out.st, ad.view(C, out.st), K(0, 64), C.old.at, 'contents')
            return f, [p, v], post
        if f.endswith('raise_capacity'):
            nc = C.sym('new_capacity')
            C.assume(And(ult(C.cap, nc)))

            def post(out):
                C.check_list(out.st, ad.view(C, out.st), C.old.size, C.old.at, 'raise_capacity keeps the contents')
                C.check(out.st, eq(C.E.cell_load(out.st, C.obj_reg, o['capacity'], 8, False), nc), 'post', 'the capacity is the one asked for')
            return f, [p, nc], post

        def post(out):
            C.check_list(out.st, ad.view(C, out.st), K(0, 64), C.old.at, 'set_empty_list')
        return f, [p], post
    return run_case(prog, mod, label, task, body, budget, unroll)
