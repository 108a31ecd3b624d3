"""Contracts of the classes that keep (key, value) pairs in a vector: Teds\\MutableIterable, Teds\\ImmutableIterable, Teds\\StrictSortedVectorMap.

The abstract list has elements (key value, key type, value value, value type)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from ..models import PairOf
from ..execu import Bulk
from .seq import ListAdaptor, SeqSpec
from .handlers import HandlerSpec, out_cell

MAXP = MAXC // 2


def keyof(x):
    return tuple(x[:2])


def valof(x):
    return tuple(x[2:])


# ---------------------------------------------------------------- contracts of helpers that see the pairs as a flat list of values
def flat_count(E, st, p, n):
    """n consecutive values from pair p on are n/2 whole pairs"""
    m = div_exact(n, 2)
    if m is None:
        m = div_exact(simp(n), 2)
    if m is None:
        m = lshr(n, K(1, 64))
    E.check(st, And(eq(add(m, m), n), ule(m, K(MAXP, 64))), 'pre', 'a range of whole pairs')
    E.block_access(st, p, p.idx, m, 'pairs')
    return m


def fields(E, st, p):
    return [E.arr_field(st, p.reg, o, s)[2] for o, s in ((0, 8), (8, 4), (16, 8), (24, 4))]


def dtor_range(E, st, a, ins):
    """teds_zval_dtor_range(it, n): destroys each of the n values once, in order"""
    p = E.rptr(st, a[0], 'teds_zval_dtor_range')
    if not isinstance(p, Ptr) or p.reg.stride != 32 or p.off:
        return NotImplemented
    m = flat_count(E, st, p, a[1])
    f = fields(E, st, p)
    j = E.fresh('j')
    at = add(p.idx, j)
    st.ev.append(('bulk', Bulk(j, m, [(True, ('dtor', f[0](at), f[1](at))), (True, ('dtor', f[2](at), f[3](at)))])))
    return None


def copy_range(E, st, a, ins):
    """teds_zval_copy_range(original, n): a new block with the same n values"""
    p = E.rptr(st, a[0], 'teds_zval_copy_range')
    if not isinstance(p, Ptr) or p.reg.stride != 32 or p.off:
        return NotImplemented
    m = flat_count(E, st, p, a[1])
    r = E.new_region(st, 'copy', 'heap', stride=32, length=m)
    st.assume(ne(r.addr, K(0, 64)))
    for (o, s), g in zip(((0, 8), (8, 4), (16, 8), (24, 4)), fields(E, st, p)):
        st.mem[r.id].arrs[o] = (s, lambda k, g=g: g(add(p.idx, k)))
    return Ptr(r)


class PairAdaptor(ListAdaptor):
    struct = '_teds_mutableiterable'
    cls = 'MutableIterable'
    module = 'teds_mutableiterable'
    also = ('teds_immutableiterable',)
    max = MAXP

    def make(self, C, case, name='this'):
        E, st = C.E, C.st
        E.contracts.update({'teds_zval_dtor_range': dtor_range, 'teds_zval_copy_range': copy_range})
        d = self.layout(C)
        r = E.new_region(st, name, 'heap', nbytes=K(d['__size__'][1], 64))
        s = st.mem[r.id]
        off = lambda f: d[self.pre + f][0]
        F = [z3.Function(name + '_' + x, B64, b) for x, b in (('key', B64), ('keytype', B32), ('value', B64), ('type', B32))]
        if case in ('heap', 'iters'):
            size = C.sym(name + '_size', 32)
            cap = C.sym(name + '_capacity', 32) if self.has_cap else size
            st.assume(And(ule(size, cap), ult(K(0, 32), cap), ule(cap, K(self.max, 32))))
            e = E.new_region(st, name + '_entries', 'heap', stride=32, length=zext(cap, 64))
            es = st.mem[e.id]
            for (o, w), g in zip(((0, 8), (8, 4), (16, 8), (24, 4)), F):
                es.arrs[o] = (w, lambda k, g=g: g(Z(k)))
            for T in (F[1], F[3]):
                st.facts.append(Fact(lambda j, T=T: Implies(ult(j, zext(size, 64)), E.valid_zval(T(Z(j)))), [(T, 0, lambda j: j)], 'keys and values are PHP values'))
            ent = Ptr(e)
            C.watch[name + '.size'] = size
            C.watch[name + '.capacity'] = cap
        else:
            size, cap = K(0, 32), K(0, 32)
            ent = E.global_ptr(st, 'teds_empty_entry_list', C.mod) if case == 'empty' else NULL
        s.cells[off('entries')] = (8, ent)
        s.cells[off('size')] = (4, size)
        if self.has_cap:
            s.cells[off('capacity')] = (4, cap)
        if self.has_iters:
            s.cells[off('active_iterators.first')] = (8, NULL)
            if case == 'iters':
                from .handlers import iterator_list
                s.cells[off('active_iterators.first')] = (8, iterator_list(C, self, r))
        s.cells[d['std'][0] + 32] = (8, NULL)
        C.obj_reg = r
        C.old = View(zext(size, 64), lambda k: tuple(g(Z(k)) for g in F))
        C.size, C.cap = size, cap
        C.initialised = case != 'null'
        return Ptr(r, off=d['std'][0])

    def view(self, C, st, reg=None):
        E = C.E
        d = self.layout(C)
        r = reg or C.obj_reg
        off = lambda f: d[self.pre + f][0]
        size = E.cell_load(st, r, off('size'), 4, False)
        ent = E.cell_load(st, r, off('entries'), 8, True)
        size64 = zext(size, 64)
        cap = E.cell_load(st, r, off('capacity'), 4, False) if self.has_cap else size
        none = View(size64, lambda k: (K(0, 64), K(0, 32), K(0, 64), K(0, 32)))
        if isinstance(ent, Null):
            C.check(st, And(eq(size, K(0, 32)), eq(cap, K(0, 32))), 'invariant', 'NULL storage only for an empty list')
            return none
        if not isinstance(ent, Ptr):
            C.check(st, False, 'invariant', 'storage pointer is valid (%r)' % (ent,))
            return none
        if ent.reg.kind == 'global':
            C.check(st, And(eq(size, K(0, 32)), eq(cap, K(0, 32)), ent.reg.base == '@teds_empty_entry_list'), 'invariant', 'shared empty storage only with size and capacity 0')
            return none
        if ent.reg.stride is None:
            ent.reg.stride = 32
        if ent.reg.stride != 32:
            raise Unsupported('pair storage with stride %s' % ent.reg.stride)
        ln = E.region_len(st, ent.reg)
        es = st.mem[ent.reg.id]
        C.check(st, And(es.alive, ent.ver == es.ver, ent.off == 0, eq(ent.idx, K(0, 64)), ent.reg.kind == 'heap'), 'invariant', 'storage is a live heap block')
        C.check(st, And(ule(size, cap), ne(cap, K(0, 32)), ule(cap, K(self.max, 32)), ule(zext(cap, 64), ln)), 'invariant', 'size <= capacity <= allocated slots <= maximum')
        fs = fields(E, st, ent)
        return View(size64, lambda k: tuple(g(k) for g in fs))

    def gc(self, C, st, t, n):
        p = C.E.cell_load(st, t, 0, 8, True)
        cnt = C.E.cell_load(st, n, 0, 4, False)
        C.check(st, eq(zext(cnt, 64), add(C.old.size, C.old.size)), 'post', 'get_gc reports every key and value')
        e = self.storage(C, st)
        C.check(st, Or(eq(C.old.size, K(0, 64)), isinstance(p, Ptr) and isinstance(e, Ptr) and p.reg is e.reg and p.off == e.off and eq(p.idx, e.idx)), 'post', 'get_gc reports the pairs')


def keyz(h, i):
    """PHP key of array slot i as a value"""
    e4 = z3.Function('ext4', B64, B32)
    if h.key is None:
        return i, K(4, 32)
    s = h.key(i)
    return ite(eq(s, K(0, 64)), h.h(i), s), ite(eq(s, K(0, 64)), K(4, 32), ite(ne(and_(e4(Z(add(s, K(4, 64)))), K(0x40, 32)), K(0, 32)), K(6, 32), K(0x106, 32)))


class PairSpec(SeqSpec):
    def both(self, n, f):
        """ownership items for n pairs"""
        return [('many', n, lambda j: keyof(f(j))), ('many', n, lambda j: valof(f(j)))]

    def one(self, x):
        return [('one',) + keyof(x), ('one',) + valof(x)]

    def lookup(self, C, o, name, part, index):
        n = self.split(C, o, name, (), {})
        if n is None:
            return
        v, t = C.retval(n)
        a = C.arg(0)
        same = lambda k: identical(*part(C.old.at(k)), *a)
        k = C.skolem()
        s = n.copy()
        if index:
            found = eq(t, K(4, 32))
            C.check(n, Or(found, eq(t, K(1, 32))), 'post', name + ' returns int or null')
            C.check(n, Implies(found, And(ult(v, C.old.size), same(v))), 'post', name + ': the pair at the returned index matches')
            s.assume(And(ult(k, C.old.size), Or(Not(found), ult(k, v))))
            C.check(s, Not(same(k)), 'post', name + ': no earlier pair matches')
        else:
            C.check(n, Or(eq(t, K(3, 32)), eq(t, K(2, 32))), 'post', name + ' returns bool')
            s.assume(And(ult(k, C.old.size), eq(t, K(2, 32))))
            C.check(s, Not(same(k)), 'post', name + ': false only when no pair matches')
            s = n.copy()
            s.assume(eq(t, K(3, 32)))
            if C.E.feasible(s, True if not s.pc else s.pc[-1]):
                C.check(s, C.witness(s, lambda k: And(ult(k, C.old.size), same(k))), 'post', name + ': true only when some pair matches')
        self.same_list(C, n)
        C.ownership(n, [], [], name)

    def m_indexOfKey(self, C, o):
        self.lookup(C, o, 'indexOfKey', keyof, True)
    m_indexOfKey.args = (1,)

    def m_indexOfValue(self, C, o):
        self.lookup(C, o, 'indexOfValue', valof, True)
    m_indexOfValue.args = (1,)

    def m_containsKey(self, C, o):
        self.lookup(C, o, 'containsKey', keyof, False)
    m_containsKey.args = (1,)

    def m_contains(self, C, o):
        self.lookup(C, o, 'contains', valof, False)
    m_contains.args = (1,)
    m_containsValue = m_contains

    def getter_of(self, C, o, name, part):
        i = self.index(C, 0)
        n = self.split(C, o, name, ('ArgumentError',), {'InvalidIndex': ule(C.old.size, i), 'OutOfBounds': ule(C.old.size, i)})
        if n is None:
            return
        C.check(n, ult(i, C.old.size), 'post', name + ' of a bad index throws')
        x = part(C.old.at(i))
        self.rv_zval(C, n, *x, name + ' returns the part of the pair at the index')
        self.same_list(C, n)
        C.ownership(n, [('one',) + x], [], name)

    def m_keyAt(self, C, o):
        self.getter_of(C, o, 'keyAt', keyof)
    m_keyAt.args = (1,)

    def m_valueAt(self, C, o):
        self.getter_of(C, o, 'valueAt', valof)
    m_valueAt.args = (1,)

    def setter_of(self, C, o, name, key):
        i = self.index(C, 0)
        n = self.split(C, o, name, ('ArgumentError',), {'InvalidIndex': ule(C.old.size, i), 'OutOfBounds': ule(C.old.size, i)})
        if n is None:
            return
        C.check(n, ult(i, C.old.size), 'post', name + ' of a bad index throws')
        a = C.arg(1)
        new = lambda x: (tuple(a) + valof(x)) if key else keyof(x) + tuple(a)
        C.check_list(n, self.ad.view(C, n), C.old.size, lambda k: tuple(ite(eq(k, i), y, x) for x, y in zip(C.old.at(k), new(C.old.at(k)))), name + ' replaces exactly that part of one pair')
        C.ownership(n, [('one',) + tuple(a)], [('one',) + (keyof if key else valof)(C.old.at(i))], name)

    def m_setKeyAt(self, C, o):
        self.setter_of(C, o, 'setKeyAt', True)
    m_setKeyAt.args = (2,)

    def m_setValueAt(self, C, o):
        self.setter_of(C, o, 'setValueAt', False)
    m_setValueAt.args = (2,)

    def m_push(self, C, o):
        n = self.split(C, o, 'push', (), {})
        if n is None:
            return
        new = tuple(C.arg(0)) + tuple(C.arg(1))
        C.check_list(n, self.ad.view(C, n), add(C.old.size, K(1, 64)), lambda k: tuple(ite(eq(k, C.old.size), y, x) for x, y in zip(C.old.at(k), new)), 'push appends the pair')
        C.ownership(n, self.one(new), [], 'push')
    m_push.args = (2,)

    def rv_pair(self, C, st, x, msg):
        v, t = C.retval(st)
        C.check(st, And(eq(t, K(0x307, 32)), eq(v, PairOf(*[Z(y) for y in x]))), 'post', msg)

    def m_pop(self, C, o):
        n = self.split(C, o, 'pop', (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is None:
            return
        C.check(n, ne(C.old.size, K(0, 64)), 'post', 'pop of an empty collection throws')
        last = sub(C.old.size, K(1, 64))
        self.rv_pair(C, n, C.old.at(last), 'pop returns [key, value] of the last pair')
        C.check_list(n, self.ad.view(C, n), last, C.old.at, 'pop removes only the last pair')
        C.ownership(n, [], [], 'pop')
    m_pop.args = (0,)

    def listing(self, C, o, name, at, own):
        n = self.split(C, o, name, (), {})
        if n is None:
            return
        v = array_out(C, n, *rv_ptr(C, n), name)
        if v is not None:
            C.check_list(n, v, C.old.size, at, name + ' in order')
        self.same_list(C, n)
        C.ownership(n, own, [], name)

    def m_keys(self, C, o):
        self.listing(C, o, 'keys', lambda k: keyof(C.old.at(k)), [('many', C.old.size, lambda j: keyof(C.old.at(j)))])
    m_keys.args = (0,)

    def m_values(self, C, o):
        self.listing(C, o, 'values', lambda k: valof(C.old.at(k)), [('many', C.old.size, lambda j: valof(C.old.at(j)))])
    m_values.args = (0,)

    def m_toPairs(self, C, o):
        self.listing(C, o, 'toPairs', lambda k: (PairOf(*[Z(y) for y in C.old.at(k)]), K(0x307, 32)), self.both(C.old.size, C.old.at))
    m_toPairs.args = (0,)
    m_jsonSerialize = m_toPairs

    def m_clear(self, C, o):
        st = o.st
        v = self.ad.view(C, st)
        C.check(st, eq(v.size, K(0, 64)), 'post', 'clear leaves an empty collection')
        C.ownership(st, [], self.both(C.old.size, C.old.at), 'clear')
    m_clear.args = (0,)

    def m_setSize(self, C, o):
        i = self.index(C, 0)
        n = self.split(C, o, 'setSize', ('ArgumentError',), {'ValueError': slt(i, K(0, 64)), 'UnexpectedValue': ule(K(MAXP, 64), i)})
        if n is None:
            return
        C.check(n, sle(K(0, 64), i), 'post', 'setSize of a negative size throws')
        nul = (K(0, 64), K(1, 32), K(0, 64), K(1, 32))
        C.check_list(n, self.ad.view(C, n), i, lambda k: tuple(ite(ult(k, C.old.size), x, y) for x, y in zip(C.old.at(k), nul)), 'setSize keeps the prefix and pads with null => null')
        c = ult(i, C.old.size)
        for cond, dt in ((Not(c), []), (c, self.both(sub(C.old.size, i), lambda j: C.old.at(add(i, j))))):
            if C.E.feasible(n, cond):
                s = n.copy()
                s.assume(cond)
                C.ownership(s, [], dt, 'setSize')
    m_setSize.args = (1,)

    def from_array(self, C, st, h, view, name):
        C.check(st, eq(view.size, h.num), 'post', name + ': number of pairs')
        i = C.skolem('i')
        s = st.copy()
        s.assume(And(ult(i, h.used), h.defined(i)))
        s.ghost['watch'] = dict(s.ghost['watch'], slot=i)
        kz = lambda i: (i, K(4, 32)) if C.setup.startswith('packed') else keyz(h, i)
        C.check(s, same_elem(view.at(h.rank(i)), kz(i) + tuple(h.val(i))), 'post', name + ': every key and value, in order')
        C.ownership(st, [('many_if', h.used, h.defined, kz), ('many_if', h.used, h.defined, h.val)], [], name)

    def m___construct(self, C, o):
        n = self.split(C, o, '__construct', ('from-iterator',) if C.setup == 'trav' else (), {'RuntimeException': C.initialised}, keep=C.initialised)
        if n is None:
            return
        C.check(n, not C.initialised, 'post', 'second __construct throws')
        v = self.ad.view(C, n)
        if C.setup == 'none':
            C.check(n, eq(v.size, K(0, 64)), 'post', '__construct without argument: empty')
            C.ownership(n, [], [], '__construct')
        elif C.setup == 'trav':
            C.check_list(n, v, C.trav.size, lambda k: tuple(C.trav.key(k)) + tuple(C.trav.at(k)), '__construct from a Traversable')
            C.ownership(n, [('many', C.trav.size, C.trav.at)], [], '__construct')
        else:
            self.from_array(C, n, C.inarr, v, '__construct')
    m___construct.args = (0, 1)
    m___construct.setups = ('none', 'packedfull', 'packed', 'hash', 'trav')

    def setup_arg(self, C, name, su):
        if su in (None, 'none'):
            return False
        # more pairs than the collection may hold do not fit into memory
        if su == 'trav':
            trav_arg(C, 0)
            C.assume(ule(C.trav.size, K(MAXP, 64)))
        else:
            C.inarr = array_arg(C, 0, su)
            C.assume(ule(C.inarr.num, K(MAXP, 64)))
        return True

    def table(self):
        t = super().table()
        return {k: t[k] for k in ('count', 'isEmpty', 'capacity', 'clear', 'setSize', 'shrinkToFit', 'push', 'pop', 'keys', 'values', 'toPairs', 'jsonSerialize', 'keyAt', 'valueAt', 'setKeyAt', 'setValueAt',
                                  'indexOfKey', 'indexOfValue', 'containsKey', 'contains', 'containsValue', '__construct')}


class PairHandlers(HandlerSpec):
    def both(self, C):
        return self.sp.both(C.old.size, C.old.at)

    def h_free_obj(self, C, obj):
        def post(o):
            st = o.st
            C.ownership(st, [], self.both(C), 'free_obj')
            self.ad.freed(C, st)
            ev = [e[0] for e in st.ev if e[0] in ('std_dtor', 'dtor', 'bulk')]
            C.check(st, ev.count('std_dtor') == 1 and ev[0] == 'std_dtor', 'post', 'free_obj: the engine part of the object (properties, WeakReferences) is released once and before any element')
        return [obj], post
    h_free_obj.cases = 'all'

    def h_clone_obj(self, C, obj):
        self.class_entry(C, obj)

        def post(o):
            st = o.st
            p = o.val
            d = self.ad.layout(C)
            if not (isinstance(p, Ptr) and p.reg in st.ghost.get('newobjs', ()) and p.off == d['std'][0]):
                C.check(st, False, 'post', 'clone returns a new object (%r)' % (p,))
                return
            h = C.E.cell_load(st, p.reg, d['std'][0] + 24, 8, True)
            C.check(st, isinstance(h, Ptr) and h.reg.base == '@teds_handler_' + self.ad.cls, 'post', 'clone: object handlers are set')
            C.check_list(st, self.ad.view(C, st, p.reg), C.old.size, C.old.at, 'clone has the same pairs')
            self.sp.same_list(C, st, 'the original is unchanged')
            C.ownership(st, self.both(C), [], 'clone')
            self.ad.separate(C, st, p.reg)
        return [obj], post

    def h_get_properties_for(self, C, obj):
        pu = C.sym('purpose', 32)
        C.assume(ule(pu, K(3, 32)))

        def post(o):
            st = o.st
            p = o.val
            if isinstance(p, Null):
                C.check(st, eq(C.old.size, K(0, 64)), 'post', 'properties are NULL only for an empty collection')
                C.ownership(st, [], [], 'get_properties_for')
                return
            v = array_out(C, st, p, K(0x307, 32), 'get_properties_for')
            if v is not None:
                C.check_list(st, v, C.old.size, lambda k: (PairOf(*[Z(y) for y in C.old.at(k)]), K(0x307, 32)), 'array cast / var_dump / var_export show the pairs in order')
            self.sp.same_list(C, st)
            C.ownership(st, self.both(C), [], 'get_properties_for')
        return [obj, pu], post

    def i_current(self, C, it):
        C.assume(ult(C.pos, C.old.size))

        def post(o):
            st = o.st
            C.check(st, Not(C.exc(st)), 'post', 'current() does not throw at a valid position')
            q = C.E.rptr(st, o.val, 'result')
            v, t = C.E.load(st, q, 8, False), C.E.load(st, C.E.ptr_add(st, q, 8), 4, False)
            C.check(st, zeq(v, t, *valof(C.old.at(C.pos))), 'post', 'current() is the value at the position')
            self.it_same(C, st, it)
        return [it], post

    def i_key(self, C, it):
        C.assume(ult(C.pos, C.old.size))
        k = out_cell(C, 'key', 16)

        def post(o):
            st = o.st
            v, t = C.E.cell_load(st, k.reg, 0, 8, False), C.E.cell_load(st, k.reg, 8, 4, False)
            x = keyof(C.old.at(C.pos))
            C.check(st, zeq(v, t, *x), 'post', 'key() is the key at the position')
            C.check(st, Not(C.exc(st)), 'post', 'key() does not throw')
            C.check(st, eq(self.it_pos(C, st, it.reg), C.pos), 'post', 'iterator position')
            self.sp.same_list(C, st)
            C.ownership(st, [('one',) + x], [], 'key')
        return [it, k], post


class ImmutablePairSpec(PairSpec):
    def table(self):
        t = super().table()
        t = {k: f for k, f in t.items() if k not in ('setSize', 'push', 'pop', 'setKeyAt', 'setValueAt', 'capacity', 'shrinkToFit')}

        def clear(C, o, self=self):
            n, e = C.fork_exc(o.st)
            if n is not None:
                C.check(n, False, 'post', 'clear of an ImmutableIterable throws')
            if e is not None:
                C.check(e, any('UnsupportedOperation' in str(x) for x in self.tags(C, e)), 'post', 'clear throws UnsupportedOperationException')
                self.same_list(C, e)
                C.ownership(e, [], [], 'clear')
        clear.args = (0,)
        t['clear'] = clear

        def construct(C, o, self=self):
            self.m___construct(C, o)
        construct.args, construct.setups = (1,), self.m___construct.setups[1:]
        t['__construct'] = construct
        return t


PairAdaptor.spec = PairSpec
PairAdaptor.hspec = PairHandlers


class ImmPairAdaptor(PairAdaptor):
    struct = '_teds_immutableiterable'
    cls = 'ImmutableIterable'
    module = 'teds_immutableiterable'
    also = ()
    has_cap = False
    has_iters = False
    spec = ImmutablePairSpec
    immutable = True
