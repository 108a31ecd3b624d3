"""Representations of the sequence classes (see ListAdaptor in seq.py for Teds\\Vector)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from .util import UTIL
from .seq import ListAdaptor, SeqSpec, ImmutableSpec


class ImmSeq(ListAdaptor):
    struct = '_teds_immutablesequence'
    cls = 'ImmutableSequence'
    module = 'teds_immutablesequence'
    has_cap = False
    has_iters = False
    spec = ImmutableSpec
    containskey = 'offset'
    immutable = True


class DequeAdaptor(ListAdaptor):
    """circular buffer: element k at (offset + k) & mask"""
    struct = '_teds_deque'
    cls = 'Deque'
    containskey = 'offset'
    module = 'teds_deque'
    util = True
    max = 0x40000000

    def make(self, C, case, name='this'):
        E, st = C.E, C.st
        d = self.layout(C)
        r = E.new_region(st, name, 'heap', nbytes=K(d['__size__'][1], 64))
        s = st.mem[r.id]
        off = lambda f: d[self.pre + f][0]
        E.ring = True
        E.contracts.update(UTIL)
        A = z3.Function(name + '_slot_v', B64, B64)
        T = z3.Function(name + '_slot_t', B64, B32)
        if case in ('heap', 'iters'):
            size, mask, start = C.sym(name + '_size', 32), C.sym(name + '_mask', 32), C.sym(name + '_offset', 32)
            cap = add(zext(mask, 64), K(1, 64))
            st.assume(And(ule(zext(size, 64), cap), ule(start, mask), eq(and_(add(mask, K(1, 32)), mask), K(0, 32)), ule(K(3, 32), mask), ule(mask, K(self.max - 1, 32))))
            e = E.new_region(st, name + '_buffer', 'heap', stride=16, length=cap)
            es = st.mem[e.id]
            es.arrs[0] = (8, lambda k: A(Z(k)))
            es.arrs[8] = (4, lambda k: T(Z(k)))
            m64 = zext(mask, 64)
            st.ghost['pow2'] = (m64,)
            pos = lambda k: E.ring_val(None, add(zext(start, 64), k), m64, '+')
            # slot j holds element (j - offset) & mask
            st.facts.append(Fact(lambda j: Implies(And(ule(j, zext(mask, 64)), ult(E.ring_val(None, sub(j, zext(start, 64)), m64, '-'), zext(size, 64))), E.valid_zval(T(Z(j)))), [(T, 0, lambda j: j)], 'elements are PHP values'))
            ent = Ptr(e)
            C.watch[name + '.size'] = size
            C.watch[name + '.mask'] = mask
            C.watch[name + '.offset'] = start
        else:
            size, mask, start = K(0, 32), K(0, 32), K(0, 32)
            pos = lambda k: k
            ent = E.global_ptr(st, 'teds_empty_entry_list', C.mod) if case == 'empty' else NULL
        s.cells[off('circular_buffer')] = (8, ent)
        s.cells[off('size')] = (4, size)
        s.cells[off('mask')] = (4, mask)
        s.cells[off('offset')] = (4, start)
        s.cells[off('active_iterators.first')] = (8, NULL)
        if case == 'iters':
            from .handlers import iterator_list
            s.cells[off('active_iterators.first')] = (8, iterator_list(C, self, r))
        s.cells[d['std'][0] + 32] = (8, NULL)
        C.obj_reg = r
        C.start, C.mask = start, mask
        C.old = View(zext(size, 64), lambda k: (at_leaves(lambda j: A(Z(j)), pos(k)), at_leaves(lambda j: T(Z(j)), pos(k))))
        C.size = size
        C.initialised = case != 'null'
        return Ptr(r, off=d['std'][0])

    def view(self, C, st, reg=None):
        E = C.E
        d = self.layout(C)
        r = reg or C.obj_reg
        off = lambda f: d[self.pre + f][0]
        size = E.cell_load(st, r, off('size'), 4, False)
        mask = E.cell_load(st, r, off('mask'), 4, False)
        start = E.cell_load(st, r, off('offset'), 4, False)
        ent = E.cell_load(st, r, off('circular_buffer'), 8, True)
        size64 = zext(size, 64)
        nothing = View(size64, lambda k: (K(0, 64), K(0, 32)))
        if isinstance(ent, Null):
            C.check(st, eq(size, K(0, 32)), 'invariant', 'NULL storage only for an empty deque')
            return nothing
        if not isinstance(ent, Ptr):
            C.check(st, False, 'invariant', 'storage pointer is valid (%r)' % (ent,))
            return nothing
        if ent.reg.kind == 'global':
            C.check(st, And(eq(size, K(0, 32)), eq(mask, K(0, 32)), ent.reg.base == '@teds_empty_entry_list'), 'invariant', 'shared empty storage only with size and mask 0')
            return nothing
        if ent.reg.stride is None:
            ent.reg.stride = 16
        ln = E.region_len(st, ent.reg)
        es = st.mem[ent.reg.id]
        C.check(st, And(es.alive, ent.ver == es.ver, ent.off == 0, eq(ent.idx, K(0, 64)), ent.reg.kind == 'heap'), 'invariant', 'storage is a live heap block')
        m64 = zext(mask, 64)
        C.check(st, And(ult(m64, ln), eq(and_(add(mask, K(1, 32)), mask), K(0, 32)), ule(mask, K(self.max - 1, 32))), 'invariant', 'capacity is a power of two that is allocated')
        C.check(st, And(ule(size64, add(m64, K(1, 64))), ule(start, mask)), 'invariant', 'size <= capacity, offset within the buffer')
        a0 = E.arr_field(st, ent.reg, 0, 8)[2]
        a8 = E.arr_field(st, ent.reg, 8, 4)[2]
        pos = lambda k: E.ring_val(None, add(zext(start, 64), k), m64, '+')
        return View(size64, lambda k: (at_leaves(a0, pos(k)), at_leaves(a8, pos(k))))

    def storage(self, C, st, reg=None):
        return C.E.cell_load(st, reg or C.obj_reg, self.layout(C)[self.pre + 'circular_buffer'][0], 8, True)

    def pre_gc(self, C):
        # the wrapped case (an engine buffer is filled) is covered by the bounded stand-in
        C.assume(ule(add(zext(C.start, 64), zext(C.size, 64)), add(zext(C.mask, 64), K(1, 64))))

    def gc(self, C, st, t, n):
        p = C.E.cell_load(st, t, 0, 8, True)
        cnt = C.E.cell_load(st, n, 0, 4, False)
        C.check(st, eq(zext(cnt, 64), C.old.size), 'post', 'get_gc reports every element')
        e = self.storage(C, st)
        C.check(st, Or(eq(C.old.size, K(0, 64)), isinstance(p, Ptr) and isinstance(e, Ptr) and p.reg is e.reg and p.off == e.off and eq(p.idx, zext(C.start, 64))), 'post', 'get_gc reports the elements')
