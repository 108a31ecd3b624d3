"""Contracts of Teds\\StrictSortedVectorSet: a Vector whose elements are strictly increasing in the order of stable_compare.

stable_compare is used through its contract (proved by the suite order/all: it returns the sign of a total order): it is the
comparison of an uninterpreted rank. Sortedness of the entry state is given as two consequences of it:
neighbours increase, and around the rank of each argument the list splits at one position p (elements before p are smaller,
elements from p on are not). The exit state is checked by neighbours."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from .seq import ListAdaptor, SeqSpec
from .util import UTIL
from .handlers import HandlerSpec, out_cell

Rank = z3.Function('rank_in_the_total_order', B64, B32, B64)


def rank(z):
    return Rank(Z(z[0]), Z(z[1]))


def zload(E, st, p):
    p = E.rptr(st, p, 'compared value')
    return E.load(st, p, 8, False), E.load(st, E.ptr_add(st, p, 8), 4, False)


def stable_compare(E, st, a, ins):
    x, y = rank(deref(*zload(E, st, a[0]))), rank(deref(*zload(E, st, a[1])))
    return ite(ult(x, y), K(2 ** 64 - 1, 64), ite(eq(x, y), K(0, 64), K(1, 64)))


class SortedSet(ListAdaptor):
    cls = 'StrictSortedVectorSet'
    module = 'teds_strictsortedvectorset'
    also = ('teds_vector',)
    util = True

    def make(self, C, case, name='this'):
        obj = super().make(C, case, name)
        E, st = C.E, C.st
        E.contracts['teds_stable_compare'] = stable_compare
        E.contracts.update(UTIL)
        C.cut = {}
        if case in ('heap', 'iters'):
            old = C.old
            C.tfun = old.at(K(0, 64))[1].decl()
            st.facts.append(Fact(lambda j: Implies(ult(add(j, K(1, 64)), old.size), ult(rank(old.at(j)), rank(old.at(add(j, K(1, 64)))))),
                                 [(C.tfun, 0, lambda j: j), (C.tfun, 0, lambda j: sub(j, K(1, 64)))], 'elements increase'))
        return obj

    def split_at(self, C, z, name):
        """p: the position of z in the order"""
        p = C.sym('position_of_' + name)
        old, r = C.old, rank(z)
        C.assume(ule(p, old.size))
        found = And(ult(p, old.size), eq(rank(old.at(p)), r))
        if hasattr(C, 'tfun'):
            C.st.facts.append(Fact(lambda j: Implies(ult(j, old.size), And(eq(ult(j, p), ult(rank(old.at(j)), r)), Implies(eq(rank(old.at(j)), r), eq(j, p)))), [(C.tfun, 0, lambda j: j)], 'position of the argument'))
            gens = lambda L: [v for v in L.vars.values() if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and v.w in (32, 64)]
            val = lambda L, v, m: zext(L.scalar(v, m), 64)
            C.E.hints.append(lambda E_, L: [('%s<=p' % v, lambda m, v=v: ule(val(L, v, m), p)) for v in gens(L)] + [('p<=%s' % v, lambda m, v=v: And(ule(p, val(L, v, m)), Implies(found, ult(p, val(L, v, m))))) for v in gens(L)])
        C.watch['position of ' + name] = p
        return p, found

    iter_methods = {'add': 1, 'remove': 1}

    def iter_expected(self, C, m, p):
        at = And(ult(p, C.old.size), ule(C.p, p))
        return ite(And(at, Not(C.found)), add(p, K(1, 64)), p) if m == 'add' else ite(And(at, C.found), sub(p, K(1, 64)), p)

    def prepare(self, C, name):
        if name in ('add', 'remove', 'contains'):
            C.p, C.found = self.split_at(C, C.arg(0), 'the argument')

    def view(self, C, st, reg=None):
        v = super().view(C, st, reg)
        k = C.skolem('i')
        s = st.copy()
        s.assume(ult(add(k, K(1, 64)), v.size))
        s.assume(ult(k, v.size))
        if C.E.feasible(st, ult(K(1, 64), v.size)):
            C.check(s, ult(rank(v.at(k)), rank(v.at(add(k, K(1, 64))))), 'invariant', 'the elements are strictly increasing')
        return v


class SortedSetSpec(SeqSpec):
    """lookup by the order instead of identity"""

    def m_contains(self, C, o):
        n = self.split(C, o, 'contains', (), {})
        if n is not None:
            self.rv_bool(C, n, C.found, 'contains: some element is equal in the order')
            self.same_list(C, n)
            C.ownership(n, [], [], 'contains')
    m_contains.args = (1,)

    def m_add(self, C, o):
        n = self.split(C, o, 'add', (), {})
        if n is None:
            return
        self.rv_bool(C, n, Not(C.found), 'add returns whether the value was new')
        for c, new in ((C.found, False), (Not(C.found), True)):
            if not C.E.feasible(n, c):
                continue
            s = n.copy()
            s.assume(c)
            v = self.ad.view(C, s)
            if new:
                C.check_list(s, v, *self.ins(C, C.p, K(1, 64), lambda j: C.arg(0)), 'add inserts the value at its place')
                C.ownership(s, [('one',) + tuple(C.arg(0))], [], 'add')
            else:
                C.unchanged(s, v, C.old, 'add of a value that is present changes nothing')
                C.ownership(s, [], [], 'add')
    m_add.args = (1,)

    def m_remove(self, C, o):
        n = self.split(C, o, 'remove', (), {})
        if n is None:
            return
        self.rv_bool(C, n, C.found, 'remove returns whether the value was there')
        for c, rem in ((C.found, True), (Not(C.found), False)):
            if not C.E.feasible(n, c):
                continue
            s = n.copy()
            s.assume(c)
            v = self.ad.view(C, s)
            if rem:
                C.check_list(s, v, sub(C.old.size, K(1, 64)), lambda k: tuple(ite(ult(k, C.p), x, y) for x, y in zip(C.old.at(k), C.old.at(add(k, K(1, 64))))), 'remove removes exactly the value')
                C.ownership(s, [], [('one',) + tuple(C.old.at(C.p))], 'remove')
            else:
                C.unchanged(s, v, C.old, 'remove of a value that is absent changes nothing')
                C.ownership(s, [], [], 'remove')
    m_remove.args = (1,)

    def table(self):
        t = super().table()
        return {k: f for k, f in t.items() if k in ('count', 'isEmpty', 'clear', 'first', 'last', 'bottom', 'top', 'pop', 'popFront', 'shift', 'contains', 'add', 'remove', 'values', '__serialize', 'jsonSerialize')}


class ValueAsKey(HandlerSpec):
    """the elements are also the keys"""

    def i_key(self, C, it):
        C.assume(ult(C.pos, C.old.size))
        k = out_cell(C, 'key', 16)

        def post(o):
            st = o.st
            v, t = C.E.cell_load(st, k.reg, 0, 8, False), C.E.cell_load(st, k.reg, 8, 4, False)
            C.check(st, zeq(v, t, *C.old.at(C.pos)), 'post', 'key() is the element at the position')
            C.check(st, Not(C.exc(st)), 'post', 'key() does not throw')
            C.check(st, eq(self.it_pos(C, st, it.reg), C.pos), 'post', 'iterator position')
            self.sp.same_list(C, st)
            C.ownership(st, [('one',) + tuple(C.old.at(C.pos))], [], 'key')
        return [it, k], post


SortedSet.spec = SortedSetSpec
SortedSet.hspec = ValueAsKey
