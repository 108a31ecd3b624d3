"""Contracts of the Sequence classes, written once over the abstract list; each class supplies its representation (adaptor)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *


def methods_of(mod, cls):
    """PHP method name -> C function, from the class's method table"""
    t, v, c = mod.ginit('class_Teds_%s_methods' % cls)
    out = {}
    for _, e in v[1]:
        if e[0] != 'agg':
            continue
        (_, nm), (_, fn) = e[1][0], e[1][1]
        if nm[0] != 'glob' or fn[0] != 'glob':
            continue
        _, sv, _ = mod.ginit(nm[1][1:])
        out[bytes(sv[1]).rstrip(b'\0').decode()] = fn[1][1:]
    return out


class ListAdaptor:
    """zval list with entries/size/capacity (Vector, ImmutableSequence-like)"""
    struct = '_teds_vector'
    cls = 'Vector'
    module = 'teds_vector'
    also = ()
    pre = 'array.'
    has_cap = True
    has_iters = True
    cases = ('heap', 'empty')
    ctor_cases = ('null', 'heap', 'empty')
    max = MAXC
    elem = 'zval'
    containskey = 'int'
    spec = None
    util = False

    def layout(self, C):
        return C.mod.di_struct(self.struct)

    def make(self, C, case, name='this'):
        E, st = C.E, C.st
        d = self.layout(C)
        r = E.new_region(st, name, 'heap', nbytes=K(d['__size__'][1], 64))
        s = st.mem[r.id]
        off = lambda f: d[self.pre + f][0]
        A = z3.Function(name + '_value', B64, B64)
        T = z3.Function(name + '_type', B64, B32)
        if case in ('heap', 'iters'):
            size = C.sym(name + '_size', 32)
            cap = C.sym(name + '_capacity', 32) if self.has_cap else size
            st.assume(And(ule(size, cap), ult(K(0, 32), cap), ule(cap, K(self.max, 32))))
            e = E.new_region(st, name + '_entries', 'heap', stride=16, length=zext(cap, 64))
            es = st.mem[e.id]
            es.arrs[0] = (8, lambda k: A(Z(k)))
            es.arrs[8] = (4, lambda k: T(Z(k)))
            st.facts.append(Fact(lambda j: Implies(ult(j, zext(size, 64)), E.valid_zval(T(Z(j)), self.extra_types)), [(T, 0, lambda j: j)], 'elements are PHP values'))
            ent = Ptr(e)
            C.watch[name + '.size'] = size
            C.watch[name + '.capacity'] = cap
        else:
            size, cap = K(0, 32), K(0, 32)
            ent = E.global_ptr(st, 'teds_empty_entry_list', C.mod) if case == 'empty' else NULL
        s.cells[off('entries')] = (8, ent)
        s.cells[off('size')] = (4, size)
        if self.has_cap:
            s.cells[off('capacity')] = (4, cap)
        if self.has_iters:
            s.cells[off('active_iterators.first')] = (8, NULL)
            if case == 'iters':
                from .handlers import iterator_list
                s.cells[off('active_iterators.first')] = (8, iterator_list(C, self, r))
        s.cells[d['std'][0] + 32] = (8, NULL)
        obj = Ptr(r, off=d['std'][0])
        C.obj_reg = r
        C.old = View(zext(size, 64), lambda k: (A(Z(k)), T(Z(k))))
        C.size, C.cap = size, cap
        C.initialised = case != 'null'
        return obj
    extra_types = ()

    def conv(self, f):
        """stored form of an argument"""
        return f

    def prepare(self, C, name):
        pass

    def default(self, C):
        return K(0, 64), K(1, 32)

    it_pos = 'current'

    def iters_case(self, m):
        return 'iters'

    immutable = False

    @property
    def it_struct(self):
        return self.struct + '_it'

    def storage(self, C, st, reg=None):
        d = self.layout(C)
        return C.E.cell_load(st, reg or C.obj_reg, d[self.pre + 'entries'][0], 8, True)

    def freed(self, C, st):
        """after free_obj the storage of the list is released"""
        for rid, rs in st.mem.items():
            r = C.E.regs.get(rid)
            if r is not None and r.kind == 'heap' and r is not C.obj_reg:
                C.check(st, not rs.alive, 'memory', 'free_obj releases the storage (%s)' % r.base)

    def separate(self, C, st, reg):
        a, b = self.storage(C, st), self.storage(C, st, reg)
        C.check(st, not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.reg.kind == 'heap'), 'memory', 'two objects do not share storage')

    def pre_gc(self, C):
        pass

    def gc(self, C, st, t, n):
        """the cycle collector sees exactly the elements"""
        p = C.E.cell_load(st, t, 0, 8, True)
        cnt = C.E.cell_load(st, n, 0, 4, False)
        C.check(st, eq(zext(cnt, 64), C.old.size), 'post', 'get_gc reports every element')
        e = self.storage(C, st)
        C.check(st, Or(eq(C.old.size, K(0, 64)), isinstance(p, Ptr) and isinstance(e, Ptr) and p.reg is e.reg and p.off == e.off and eq(p.idx, e.idx)), 'post', 'get_gc reports the element table')

    def view(self, C, st, reg=None):
        """abstract list after the call; also checks the representation invariant"""
        E = C.E
        d = self.layout(C)
        r = reg or C.obj_reg
        off = lambda f: d[self.pre + f][0]
        size = E.cell_load(st, r, off('size'), 4, False)
        ent = E.cell_load(st, r, off('entries'), 8, True)
        size64 = zext(size, 64)
        cap = E.cell_load(st, r, off('capacity'), 4, False) if self.has_cap else size
        if isinstance(ent, Null):
            C.check(st, And(eq(size, K(0, 32)), eq(cap, K(0, 32))), 'invariant', 'NULL storage only for an empty list')
            return View(size64, lambda k: (K(0, 64), K(0, 32)))
        if not isinstance(ent, Ptr):
            C.check(st, False, 'invariant', 'storage pointer is valid (%r)' % (ent,))
            return View(size64, lambda k: (K(0, 64), K(0, 32)))
        if ent.reg.kind == 'global':
            C.check(st, And(eq(size, K(0, 32)), eq(cap, K(0, 32)), ent.reg.base == '@teds_empty_entry_list'), 'invariant', 'shared empty storage only with size and capacity 0')
            return View(size64, lambda k: (K(0, 64), K(0, 32)))
        es = st.mem[ent.reg.id]
        if ent.reg.stride is None:
            ent.reg.stride = 16
        ln = E.region_len(st, ent.reg)
        es = st.mem[ent.reg.id]
        C.check(st, And(es.alive, ent.ver == es.ver, ent.off == 0, eq(ent.idx, K(0, 64)), ent.reg.kind == 'heap'), 'invariant', 'storage is a live heap block')
        C.check(st, And(ule(size, cap), ne(cap, K(0, 32)), ule(cap, K(self.max, 32)), ule(zext(cap, 64), ln)), 'invariant', 'size <= capacity <= allocated slots <= maximum')
        a0 = E.arr_field(st, ent.reg, 0, 8)[2]
        a8 = E.arr_field(st, ent.reg, 8, 4)[2]
        return View(size64, lambda k: (a0(k), a8(k)))


class SeqSpec:
    """method contracts; C: Case, ad: adaptor"""

    def __init__(self, ad):
        self.ad = ad

    # -- helpers
    def invalid_index(self, C, st):
        th = C.throws(st)
        return th and any('OutOfBounds' in str(t[1]) for t in th)

    def same_list(self, C, st, msg='list unchanged'):
        v = self.ad.view(C, st)
        C.unchanged(st, v, C.old, msg)

    def check_exc(self, C, st, allowed, cond_for):
        pass

    def rv_long(self, C, st, x, msg):
        v, t = C.retval(st)
        C.check(st, And(eq(t, K(4, 32)), eq(v, x)), 'post', msg)

    def rv_bool(self, C, st, b, msg):
        v, t = C.retval(st)
        C.check(st, eq(t, ite(b, K(3, 32), K(2, 32))), 'post', msg)

    def rv_zval(self, C, st, v1, t1, msg):
        v, t = C.retval(st)
        C.check(st, zeq(v, t, v1, t1), 'post', msg)

    def rv_void(self, C, st):
        v, t = C.retval(st)
        C.check(st, eq(t, K(1, 32)), 'post', 'returns null')

    def argerr(self, C, st):
        """argument errors are raised by the parameter parser only"""
        return any(t[1] in ('ArgumentError', 'from-error-handler', 'TypeError') for t in C.throws(st))

    def index(self, C, i):
        """integer parameter"""
        v, t = C.arg(i)
        return ite(eq(tbyte(t), K(4, 8)), v, SlowLong(Z(v), Z(t)))

    def offset(self, C, i):
        """array offset as the engine converts it: (defined, index)"""
        v, t = C.arg(i)
        b = tbyte(t)
        e8 = z3.Function('ext8', B64, B64)
        ok = Or(eq(b, K(2, 8)), eq(b, K(3, 8)), eq(b, K(4, 8)), eq(b, K(5, 8)), And(eq(b, K(6, 8)), NumStr(Z(v))), eq(b, K(9, 8)))
        x = ite(eq(b, K(4, 8)), v, ite(eq(b, K(2, 8)), K(0, 64), ite(eq(b, K(3, 8)), K(1, 64), ite(eq(b, K(5, 8)), D2L(Z(v)),
            ite(eq(b, K(6, 8)), NumIdx(Z(v)), e8(Z(add(v, K(8, 64)))))))))
        return ok, x

    def tags(self, C, st):
        return [t[1] for t in C.throws(st)]

    def split(self, C, o, name, may=(), when=None, keep=True):
        """separate exceptional outcomes. may: tags that are always allowed (argument parsing, user code);
        when: {tag substring: condition under which it must be/is allowed}. On an exception the list is unchanged."""
        st = o.st
        n, e = C.fork_exc(st)
        if e is not None:
            tg = self.tags(C, e)
            ok = False
            for t in tg:
                t = str(t)
                if t in ('from-error-handler',) or t in may:
                    ok = True
                for k, c in (when or {}).items():
                    if k in t:
                        ok = Or(ok, c)
            C.check(e, ok, 'post', '%s: throws only when the contract says so (%s)' % (name, ','.join(map(str, tg))))
            if keep:
                v = self.ad.view(C, e)
                C.unchanged(e, v, C.old, name + ': list unchanged when it throws')
                C.ownership(e, [], [], name + ' (exception)')
        return n

    # ---- contracts
    def m_count(self, C, o):
        st = o.st
        self.rv_long(C, st, C.old.size, 'returns the number of elements')
        self.same_list(C, st)
        C.ownership(st, [], [], 'count')
    m_count.args = (0,)

    def m_isEmpty(self, C, o):
        self.rv_bool(C, o.st, eq(C.old.size, K(0, 64)), 'returns size == 0')
        self.same_list(C, o.st)
        C.ownership(o.st, [], [], 'isEmpty')
    m_isEmpty.args = (0,)

    def m_capacity(self, C, o):
        v, t = C.retval(o.st)
        C.check(o.st, And(eq(t, K(4, 32)), ule(C.old.size, v)), 'post', 'capacity is at least the size')
        self.same_list(C, o.st)
    m_capacity.args = (0,)

    def ins(self, C, pos, cnt, new):
        """expected list after inserting cnt elements new(j) at pos"""
        old = C.old
        return add(old.size, cnt), lambda k: tuple(ite(ult(k, pos), x, ite(ult(k, add(pos, cnt)), y, z)) for x, y, z in
                                                  zip(old.at(k), new(sub(k, pos)), old.at(sub(k, cnt))))

    def variadic(self, C, o, name, pos, cnt, new, argf, may=()):
        """insertion of the arguments; element types restricted by ad.accepts"""
        st = self.split(C, o, name, may, {})
        if st is None:
            return
        v = self.ad.view(C, st)
        C.check_list(st, v, *self.ins(C, pos, cnt, new), name + ' inserts the arguments')
        C.ownership(st, [('many', cnt, argf)] if self.ad.elem == 'zval' else [], [], name)
        self.rv_void(C, st)

    def m_push(self, C, o):
        argc = zext(C.argc, 64)
        self.variadic(C, o, 'push', C.old.size, argc, self.ad.conv(C.arg), C.arg)
    m_push.args = (None,)

    def m_pushFront(self, C, o):
        argc = zext(C.argc, 64)
        self.variadic(C, o, 'pushFront', K(0, 64), argc, lambda j: self.ad.conv(C.arg)(sub(sub(argc, K(1, 64)), j)), C.arg)
    m_pushFront.args = (None,)
    m_unshift = m_pushFront

    def m_insert(self, C, o):
        i = self.index(C, 0)
        argc = sub(zext(C.argc, 64), K(1, 64))
        st = self.split(C, o, 'insert', ('ArgumentError',), {'InvalidIndex': ult(C.old.size, i), 'OutOfBounds': ult(C.old.size, i)})
        if st is None:
            return
        C.check(st, ule(i, C.old.size), 'post', 'insert: position is within the list')
        argf = lambda j: C.arg(add(j, K(1, 64)))
        v = self.ad.view(C, st)
        C.check_list(st, v, *self.ins(C, i, argc, self.ad.conv(argf)), 'insert inserts the arguments')
        C.ownership(st, [('many', argc, argf)] if self.ad.elem == 'zval' else [], [], 'insert')
    m_insert.args = (None,)

    def removal(self, C, o, name, i, rv):
        pass

    def m_pop(self, C, o):
        n = self.split(C, o, 'pop', (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is not None:
            C.check(n, ne(C.old.size, K(0, 64)), 'post', 'pop of an empty list throws')
            last = sub(C.old.size, K(1, 64))
            self.rv_zval(C, n, *C.old.at(last), 'returns the last element')
            C.check_list(n, self.ad.view(C, n), last, C.old.at, 'pop removes only the last element')
            C.ownership(n, [], [], 'pop')
    m_pop.args = (0,)

    def m_popFront(self, C, o):
        n = self.split(C, o, 'popFront', (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is not None:
            C.check(n, ne(C.old.size, K(0, 64)), 'post', 'popFront of an empty list throws')
            self.rv_zval(C, n, *C.old.at(K(0, 64)), 'returns the first element')
            C.check_list(n, self.ad.view(C, n), sub(C.old.size, K(1, 64)), lambda k: C.old.at(add(k, K(1, 64))), 'popFront removes only the first element')
            C.ownership(n, [], [], 'popFront')
    m_popFront.args = (0,)
    m_shift = m_popFront

    def m_first(self, C, o):
        n = self.split(C, o, 'first', (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is not None:
            C.check(n, ne(C.old.size, K(0, 64)), 'post', 'first of an empty list throws')
            x = C.old.at(K(0, 64))
            self.rv_zval(C, n, *x, 'returns the first element')
            self.same_list(C, n)
            C.ownership(n, [('one',) + tuple(x)] if self.ad.elem == 'zval' else [], [], 'first')
    m_first.args = (0,)
    m_bottom = m_first

    def m_last(self, C, o):
        n = self.split(C, o, 'last', (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is not None:
            C.check(n, ne(C.old.size, K(0, 64)), 'post', 'last of an empty list throws')
            x = C.old.at(sub(C.old.size, K(1, 64)))
            self.rv_zval(C, n, *x, 'returns the last element')
            self.same_list(C, n)
            C.ownership(n, [('one',) + tuple(x)] if self.ad.elem == 'zval' else [], [], 'last')
    m_last.args = (0,)
    m_top = m_last

    def getter(self, C, o, name, ok, i):
        oob = Or(Not(ok), ule(C.old.size, i))
        n = self.split(C, o, name, ('ArgumentError',) if ok is True else (), {'InvalidIndex': ule(C.old.size, i), 'OutOfBounds': ule(C.old.size, i), 'TypeError': Not(ok)})
        if n is not None:
            C.check(n, And(ok, ult(i, C.old.size)), 'post', name + ' of a bad index throws')
            x = C.old.at(i)
            self.rv_zval(C, n, *x, 'returns the element at the index')
            self.same_list(C, n)
            C.ownership(n, [('one',) + tuple(x)] if self.ad.elem == 'zval' else [], [], name)

    def m_get(self, C, o):
        self.getter(C, o, 'get', True, self.index(C, 0))
    m_get.args = (1,)

    def m_offsetGet(self, C, o):
        self.getter(C, o, 'offsetGet', *self.offset(C, 0))
    m_offsetGet.args = (1,)

    def m_offsetExists(self, C, o):
        ok, i = self.offset(C, 0)
        n = self.split(C, o, 'offsetExists', (), {'TypeError': Not(ok)})
        if n is not None:
            x, t = C.old.at(i)
            self.rv_bool(C, n, And(ok, ult(i, C.old.size), ne(t, K(1, 32))), 'offsetExists: index in range and element not null')
            self.same_list(C, n)
            C.ownership(n, [], [], 'offsetExists')
    m_offsetExists.args = (1,)

    def m_containsKey(self, C, o):
        v, t = C.arg(0)
        if self.ad.containskey == 'offset':
            ok, i = self.offset(C, 0)
        else:
            ok, i = eq(tbyte(t), K(4, 8)), v
        n = self.split(C, o, 'containsKey', (), {'TypeError': Not(ok)} if self.ad.containskey == 'offset' else {})
        if n is not None:
            self.rv_bool(C, n, And(ok, ult(i, C.old.size)), 'containsKey: integer in range')
            self.same_list(C, n)
            C.ownership(n, [], [], 'containsKey')
    m_containsKey.args = (1,)

    def m_indexOf(self, C, o):
        n = self.split(C, o, 'indexOf', (), {})
        if n is None:
            return
        v, t = C.retval(n)
        a = C.arg(0)
        same = lambda k: identical(*C.old.at(k), *a)
        found = eq(t, K(4, 32))
        C.check(n, Or(found, eq(t, K(1, 32))), 'post', 'indexOf returns int or null')
        C.check(n, Implies(found, And(ult(v, C.old.size), same(v))), 'post', 'indexOf: the element at the returned index is identical')
        k = C.skolem()
        s = n.copy()
        s.assume(And(ult(k, C.old.size), Or(Not(found), ult(k, v))))
        C.check(s, Not(same(k)), 'post', 'indexOf: no earlier element is identical')
        self.same_list(C, n)
        C.ownership(n, [], [], 'indexOf')
    m_indexOf.args = (1,)

    def m_contains(self, C, o):
        n = self.split(C, o, 'contains', (), {})
        if n is None:
            return
        v, t = C.retval(n)
        a = C.arg(0)
        same = lambda k: identical(*C.old.at(k), *a)
        C.check(n, Or(eq(t, K(3, 32)), eq(t, K(2, 32))), 'post', 'contains returns bool')
        k = C.skolem()
        s = n.copy()
        s.assume(And(ult(k, C.old.size), eq(t, K(2, 32))))
        C.check(s, Not(same(k)), 'post', 'contains: false only when no element is identical')
        # true: witness is the last loop iteration
        s = n.copy()
        s.assume(eq(t, K(3, 32)))
        if C.E.feasible(s, True if not s.pc else s.pc[-1]):
            wit = C.witness(s, lambda k: And(ult(k, C.old.size), same(k)))
            C.check(s, wit, 'post', 'contains: true only when some element is identical')
        self.same_list(C, n)
        C.ownership(n, [], [], 'contains')
    m_contains.args = (1,)

    def setter(self, C, o, name, ok, i, val):
        n = self.split(C, o, name, ('ArgumentError',) if ok is True else (), {'InvalidIndex': ule(C.old.size, i), 'OutOfBounds': ule(C.old.size, i), 'TypeError': Not(ok)})
        if n is None:
            return
        C.check(n, And(ok, ult(i, C.old.size)), 'post', name + ' of a bad index throws')
        C.check_list(n, self.ad.view(C, n), C.old.size, lambda k: tuple(ite(eq(k, i), y, x) for x, y in zip(C.old.at(k), self.ad.conv(lambda j: val)(k))), name + ' replaces exactly one element')
        if self.ad.elem == 'zval':
            C.ownership(n, [('one',) + tuple(val)], [('one',) + tuple(C.old.at(i))], name)
        self.rv_void(C, n)

    def m_set(self, C, o):
        self.setter(C, o, 'set', True, self.index(C, 0), C.arg(1))
    m_set.args = (2,)

    def m_offsetSet(self, C, o):
        self.setter(C, o, 'offsetSet', *self.offset(C, 0), C.arg(1))
    m_offsetSet.args = (2,)

    def m_offsetUnset(self, C, o):
        ok, i = self.offset(C, 0)
        n = self.split(C, o, 'offsetUnset', (), {'InvalidIndex': ule(C.old.size, i), 'OutOfBounds': ule(C.old.size, i), 'TypeError': Not(ok)})
        if n is None:
            return
        C.check(n, And(ok, ult(i, C.old.size)), 'post', 'offsetUnset of a bad index throws')
        C.check_list(n, self.ad.view(C, n), sub(C.old.size, K(1, 64)), lambda k: tuple(ite(ult(k, i), x, y) for x, y in zip(C.old.at(k), C.old.at(add(k, K(1, 64))))), 'offsetUnset removes exactly one element')
        C.ownership(n, [], [('one',) + tuple(C.old.at(i))] if self.ad.elem == 'zval' else [], 'offsetUnset')
    m_offsetUnset.args = (1,)

    def m_clear(self, C, o):
        st = o.st
        v = self.ad.view(C, st)
        C.check(st, eq(v.size, K(0, 64)), 'post', 'clear leaves an empty list')
        C.ownership(st, [], [('many', C.old.size, C.old.at)] if self.ad.elem == 'zval' else [], 'clear')
    m_clear.args = (0,)

    def m_toArray(self, C, o):
        n = self.split(C, o, 'toArray', (), {})
        if n is None:
            return
        v = array_out(C, n, *rv_ptr(C, n), 'toArray')
        if v is not None:
            C.check_list(n, v, C.old.size, C.old.at, 'toArray returns the elements in order')
        self.same_list(C, n)
        C.ownership(n, [('many', C.old.size, C.old.at)] if self.ad.elem == 'zval' else [], [], 'toArray')
    m_toArray.args = (0,)
    m_values = m_toArray
    m_jsonSerialize = m_toArray
    m___serialize = m_toArray

    def m_reserve(self, C, o):
        n = self.split(C, o, 'reserve', ('ArgumentError',), {})
        if n is None:
            return
        self.same_list(C, n)
        C.ownership(n, [], [], 'reserve')
    m_reserve.args = (1,)

    def m_shrinkToFit(self, C, o):
        self.same_list(C, o.st)
        C.ownership(o.st, [], [], 'shrinkToFit')
    m_shrinkToFit.args = (0,)

    def m_setSize(self, C, o):
        i = self.index(C, 0)
        n = self.split(C, o, 'setSize', ('ArgumentError',), {'ValueError': slt(i, K(0, 64))})
        if n is None:
            return
        nargs = C.argc.v
        d = C.arg(1) if nargs > 1 else self.ad.default(C)
        C.check(n, sle(K(0, 64), i), 'post', 'setSize of a negative size throws')
        C.check_list(n, self.ad.view(C, n), i, lambda k: tuple(ite(ult(k, C.old.size), x, y) for x, y in zip(C.old.at(k), self.ad.conv(lambda j: d)(k))), 'setSize keeps the prefix and pads')
        if self.ad.elem == 'zval':
            for cond, adds, dt in ((ult(C.old.size, i), [('many', sub(i, C.old.size), lambda j: d)], []), (Not(ult(C.old.size, i)), [], [('many', sub(C.old.size, i), lambda j: C.old.at(add(i, j)))])):
                s = n.copy()
                s.assume(cond)
                if C.E.feasible(n, cond):
                    C.ownership(s, adds, dt, 'setSize')
    m_setSize.args = (1, 2)

    # ---- construction
    def from_array(self, C, st, h, view, name):
        """view holds the elements of the PHP array h in order"""
        C.check(st, eq(view.size, h.num), 'post', name + ': number of elements')
        i = C.skolem('i')
        s = st.copy()
        s.assume(And(ult(i, h.used), h.defined(i)))
        s.ghost['watch'] = dict(s.ghost['watch'], slot=i)
        v, t = view.at(h.rank(i))
        C.check(s, zeq(v, t, *self.ad.conv(h.val)(i)), 'post', name + ': every element, in order')
        if self.ad.elem == 'zval':
            C.ownership(st, [('many_if', h.used, h.defined, h.val)], [], name)

    def m___construct(self, C, o):
        if C.setup in ('none', None):
            n = self.split(C, o, '__construct', (), {'RuntimeException': C.initialised}, keep=C.initialised)
        elif C.setup == 'trav':
            n = self.split(C, o, '__construct', ('from-iterator',), {'RuntimeException': C.initialised}, keep=C.initialised)
        else:
            n = self.split(C, o, '__construct', (), {'RuntimeException': C.initialised}, keep=C.initialised)
        if n is None:
            return
        C.check(n, not C.initialised, 'post', 'second __construct throws')
        v = self.ad.view(C, n)
        if C.setup == 'none':
            C.check(n, eq(v.size, K(0, 64)), 'post', '__construct without argument: empty')
            C.ownership(n, [], [], '__construct')
        elif C.setup == 'trav':
            C.check_list(n, v, C.trav.size, self.ad.conv(C.trav.at), '__construct from a Traversable')
            if self.ad.elem == 'zval':
                C.ownership(n, [('many', C.trav.size, C.trav.at)], [], '__construct')
        else:
            self.from_array(C, n, C.inarr, v, '__construct')
    m___construct.args = (0, 1)
    m___construct.setups = ('none', 'packedfull', 'packed', 'hash', 'trav')

    def m___unserialize(self, C, o):
        self_h = C.inarr
        st = o.st
        i = C.skolem('i')
        n = self.split(C, o, '__unserialize', (), {'RuntimeException': C.initialised, 'UnexpectedValue': True}, keep=C.initialised)
        if n is None:
            return
        C.check(n, not C.initialised, 'post', 'second __unserialize throws')
        self.from_array(C, n, C.inarr, self.ad.view(C, n), '__unserialize')
        if C.setup == 'hash':
            s = n.copy()
            s.assume(And(ult(i, self_h.used), self_h.defined(i)))
            C.check(s, eq(self_h.key(i), K(0, 64)), 'post', '__unserialize rejects string keys')
    m___unserialize.args = (1,)
    m___unserialize.setups = ('packedfull', 'packed', 'hash')

    def new_object(self, C, st, name):
        p, t = rv_ptr(C, st)
        C.check(st, eq(t, K(0x308, 32)), 'post', name + ': returns an object')
        if not (isinstance(p, Ptr) and p.reg in st.ghost.get('newobjs', ())):
            C.check(st, False, 'post', name + ': returns a new object (%r)' % (p,))
            return None
        d = self.ad.layout(C)
        C.check(st, p.off == d['std'][0], 'post', name + ': object pointer')
        return self.ad.view(C, st, p.reg)

    def m___set_state(self, C, o):
        n = self.split(C, o, '__set_state', ('ArgumentError',), {}, keep=False)
        if n is None:
            return
        v = self.new_object(C, n, '__set_state')
        if v is not None:
            self.from_array(C, n, C.inarr, v, '__set_state')
    m___set_state.args = (1,)
    m___set_state.static = True
    m___set_state.setups = ('packedfull', 'packed', 'hash')

    def m_map(self, C, o):
        n = self.split(C, o, 'map', ('ArgumentError', 'TypeError', 'from-callback'), {}, keep=False)
        if n is None:
            return
        v = self.new_object(C, n, 'map')
        if v is None:
            return
        cnt, call = C.calls(n)
        C.check(n, eq(cnt, C.old.size), 'post', 'map calls the callback once per element')
        if call is not None:
            C.check_list(n, v, C.old.size, lambda k: call(k)[1:], 'map returns the callback results in order')
            k = C.skolem()
            s = n.copy()
            s.assume(ult(k, C.old.size))
            C.check(s, zeq(*call(k)[0][0], *C.old.at(k)), 'post', 'map passes the elements in order')
        self.same_list(C, n)
    m_map.args = (1,)

    def table(self):
        have = {k[2:]: getattr(self, k) for k in dir(self) if k.startswith('m_')}
        return have


class ImmutableSpec(SeqSpec):
    """every mutator throws UnsupportedOperationException and changes nothing"""

    def unsupported(self, C, o):
        st = o.st
        n, e = C.fork_exc(st)
        if n is not None:
            C.check(n, False, 'post', 'a mutating method of an immutable sequence throws')
        if e is not None:
            tg = [str(t) for t in self.tags(C, e)]
            C.check(e, any('UnsupportedOperation' in t or t in ('ArgumentError', 'from-error-handler') for t in tg), 'post', 'throws UnsupportedOperationException (%s)' % ','.join(tg))
            self.same_list(C, e)
            C.ownership(e, [], [], 'unsupported')

    def table(self):
        t = super().table()
        for k in ('push', 'pushFront', 'unshift', 'insert', 'pop', 'popFront', 'shift', 'set', 'offsetSet', 'offsetUnset', 'clear', 'setSize'):
            def f(C, o, self=self):
                self.unsupported(C, o)
            f.args = t[k].args
            t[k] = f
        return t
