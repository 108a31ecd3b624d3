"""Contracts of Teds\\StrictSortedVectorMap: a vector of (key, value) pairs whose keys are strictly increasing in the order of stable_compare.

Ordering of the keys as in sorted.py (stable_compare by its contract, the entry list splits at one position p around the key given)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from .pairs import PairAdaptor, PairSpec, PairHandlers, keyof, valof
from .sorted import rank, stable_compare
from .handlers import zval_in, out_cell
from ..models import IsTrue

KEYED = ('offsetSet', 'offsetGet', 'offsetExists', 'offsetUnset', 'get', 'containsKey')


class SortedMap(PairAdaptor):
    cls = 'StrictSortedVectorMap'
    module = 'teds_strictsortedvectormap'
    also = ('teds_mutableiterable', 'teds_immutableiterable')

    def make(self, C, case, name='this'):
        obj = super().make(C, case, name)
        E, st = C.E, C.st
        E.contracts['teds_stable_compare'] = stable_compare
        if case in ('heap', 'iters'):
            old = C.old
            C.tfun = old.at(K(0, 64))[1].decl()
            st.facts.append(Fact(lambda j: Implies(ult(add(j, K(1, 64)), old.size), ult(rank(keyof(old.at(j))), rank(keyof(old.at(add(j, K(1, 64))))))),
                                 [(C.tfun, 0, lambda j: j), (C.tfun, 0, lambda j: sub(j, K(1, 64)))], 'keys increase'))
        return obj

    def split_at(self, C, z, name):
        """p: the position of the key z in the order"""
        p = C.sym('position_of_' + name)
        old, r = C.old, rank(z)
        kr = lambda j: rank(keyof(old.at(j)))
        C.assume(ule(p, old.size))
        found = And(ult(p, old.size), eq(kr(p), r))
        if hasattr(C, 'tfun'):
            C.st.facts.append(Fact(lambda j: Implies(ult(j, old.size), And(eq(ult(j, p), ult(kr(j), r)), Implies(eq(kr(j), r), eq(j, p)))), [(C.tfun, 0, lambda j: j)], 'position of the key'))
            gens = lambda L: [v for v in L.vars.values() if v.form == 'gen' and v.key[0] not in ('arr', 'ver') and v.w in (32, 64)]
            val = lambda L, v, m: zext(L.scalar(v, m), 64)
            C.E.hints.append(lambda E_, L: [('%s<=p' % v, lambda m, v=v: ule(val(L, v, m), p)) for v in gens(L)] + [('p<=%s' % v, lambda m, v=v: And(ule(p, val(L, v, m)), Implies(found, ult(p, val(L, v, m))))) for v in gens(L)])
        C.watch['position of ' + name] = p
        C.p, C.found = p, found
        return p, found

    iter_methods = {'offsetSet': 2, 'offsetUnset': 1}

    def iter_expected(self, C, m, p):
        at = And(ult(p, C.old.size), ule(C.p, p))
        return ite(And(at, Not(C.found)), add(p, K(1, 64)), p) if m == 'offsetSet' else ite(And(at, C.found), sub(p, K(1, 64)), p)

    def prepare(self, C, name):
        if name in KEYED:
            self.split_at(C, C.arg(0), 'the key')

    def view(self, C, st, reg=None):
        v = super().view(C, st, reg)
        k = C.skolem('i')
        s = st.copy()
        s.assume(ult(add(k, K(1, 64)), v.size))
        s.assume(ult(k, v.size))
        if C.E.feasible(st, ult(K(1, 64), v.size)):
            C.check(s, ult(rank(keyof(v.at(k))), rank(keyof(v.at(add(k, K(1, 64)))))), 'invariant', 'the keys are strictly increasing')
        return v


class SortedMapSpec(PairSpec):
    def by_found(self, C, n):
        for c, f in ((C.found, True), (Not(C.found), False)):
            if C.E.feasible(n, c):
                s = n.copy()
                s.assume(c)
                yield s, f

    def check_set(self, C, n, z, w, name):
        for s, f in self.by_found(C, n):
            v = self.ad.view(C, s)
            if f:
                C.check_list(s, v, C.old.size, lambda k: tuple(ite(eq(k, C.p), y, x) for x, y in zip(C.old.at(k), keyof(C.old.at(k)) + tuple(w))), name + ' of a key that is present replaces exactly its value')
                C.ownership(s, [('one',) + tuple(w)], [('one',) + valof(C.old.at(C.p))], name)
            else:
                C.check_list(s, v, *self.ins(C, C.p, K(1, 64), lambda j: tuple(z) + tuple(w)), name + ' inserts the pair at its place')
                C.ownership(s, self.one(tuple(z) + tuple(w)), [], name)

    def check_unset(self, C, n, name):
        for s, f in self.by_found(C, n):
            v = self.ad.view(C, s)
            if f:
                C.check_list(s, v, sub(C.old.size, K(1, 64)), lambda k: tuple(ite(ult(k, C.p), x, y) for x, y in zip(C.old.at(k), C.old.at(add(k, K(1, 64))))), name + ' removes exactly that pair')
                C.ownership(s, [], self.one(C.old.at(C.p)), name)
            else:
                C.unchanged(s, v, C.old, name + ' of an absent key changes nothing')
                C.ownership(s, [], [], name)

    def m_offsetSet(self, C, o):
        n = self.split(C, o, 'offsetSet', (), {})
        if n is not None:
            self.check_set(C, n, C.arg(0), C.arg(1), 'offsetSet')
    m_offsetSet.args = (2,)

    def m_offsetUnset(self, C, o):
        n = self.split(C, o, 'offsetUnset', (), {})
        if n is not None:
            self.check_unset(C, n, 'offsetUnset')
    m_offsetUnset.args = (1,)

    def m_get(self, C, o, name='get'):
        dflt = name == 'get' and C.prov(o.st, eq(C.argc, K(2, 32)))
        n = self.split(C, o, name, (), {} if dflt else {'OutOfBounds': Not(C.found)})
        if n is None:
            return
        if not dflt:
            C.check(n, C.found, 'post', name + ' of an absent key throws')
        for s, f in self.by_found(C, n):
            x = valof(C.old.at(C.p)) if f else tuple(C.arg(1)) if dflt else None
            if x is None:
                continue
            self.rv_zval(C, s, *x, name + ' returns the value of the key or the default')
            self.same_list(C, s)
            C.ownership(s, [('one',) + x], [], name)
    m_get.args = (1, 2)

    def m_offsetGet(self, C, o):
        self.m_get(C, o, 'offsetGet')
    m_offsetGet.args = (1,)

    def m_containsKey(self, C, o):
        n = self.split(C, o, 'containsKey', (), {})
        if n is not None:
            self.rv_bool(C, n, C.found, 'containsKey: some key is equal in the order')
            self.same_list(C, n)
            C.ownership(n, [], [], 'containsKey')
    m_containsKey.args = (1,)

    def m_offsetExists(self, C, o):
        n = self.split(C, o, 'offsetExists', (), {})
        if n is not None:
            self.rv_bool(C, n, And(C.found, ne(tbyte(valof(C.old.at(C.p))[1]), K(1, 8))), 'offsetExists: the key is there and its value is not null')
            self.same_list(C, n)
            C.ownership(n, [], [], 'offsetExists')
    m_offsetExists.args = (1,)

    def end(self, C, o, name, i, part):
        n = self.split(C, o, name, (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is None:
            return
        C.check(n, ne(C.old.size, K(0, 64)), 'post', name + ' of an empty map throws')
        x = part(C.old.at(i))
        self.rv_zval(C, n, *x, name)
        self.same_list(C, n)
        C.ownership(n, [('one',) + x], [], name)

    def m_first(self, C, o):
        self.end(C, o, 'first', K(0, 64), valof)

    def m_firstKey(self, C, o):
        self.end(C, o, 'firstKey', K(0, 64), keyof)

    def m_last(self, C, o):
        self.end(C, o, 'last', sub(C.old.size, K(1, 64)), valof)

    def m_lastKey(self, C, o):
        self.end(C, o, 'lastKey', sub(C.old.size, K(1, 64)), keyof)
    for _f in (m_first, m_firstKey, m_last, m_lastKey):
        _f.args = (0,)

    def m_popFront(self, C, o):
        n = self.split(C, o, 'popFront', (), {'Underflow': eq(C.old.size, K(0, 64))})
        if n is None:
            return
        C.check(n, ne(C.old.size, K(0, 64)), 'post', 'popFront of an empty map throws')
        self.rv_pair(C, n, C.old.at(K(0, 64)), 'popFront returns [key, value] of the first pair')
        C.check_list(n, self.ad.view(C, n), sub(C.old.size, K(1, 64)), lambda k: C.old.at(add(k, K(1, 64))), 'popFront removes only the first pair')
        C.ownership(n, [], [], 'popFront')
    m_popFront.args = (0,)
    m_shift, m_bottom, m_top = m_popFront, m_first, m_last

    def table(self):
        t = SeqTable(self)
        return {k: t[k] for k in ('count', 'isEmpty', 'clear', 'pop', 'popFront', 'shift', 'keys', 'values', 'toPairs', 'jsonSerialize', 'contains', 'containsKey', 'offsetSet', 'offsetGet', 'offsetExists', 'offsetUnset',
                                  'get', 'first', 'firstKey', 'last', 'lastKey', 'top', 'bottom') if k in t}


def SeqTable(sp):
    return super(PairSpec, sp).table()


class SortedMapHandlers(PairHandlers):
    def key_arg(self, C):
        p, z = zval_in(C, 'offset', refs=True)
        self.ad.split_at(C, deref(*z), 'the key')
        return p, deref(*z)

    def h_read_dimension(self, C, obj):
        p, z = self.key_arg(C)
        if C.setup == 'append':
            p = NULL
        ty = C.sym('type', 32)
        rv = out_cell(C, 'rv', 16)

        def post(o):
            st = o.st
            E = C.E
            q = E.rptr(st, o.val, 'result') if not isinstance(o.val, Null) else o.val
            found = C.found if C.setup is None else False
            n, e = C.fork_exc(st)
            if e is not None:
                C.check(e, And(Not(found), ne(ty, K(3, 32))), 'post', '$map[key] throws only for an absent key')
                self.sp.same_list(C, e)
                C.ownership(e, [], [], 'read_dimension')
            if n is not None:
                C.check(n, not isinstance(q, Null), 'post', '$map[key]: NULL is returned only with an exception')
                if isinstance(q, Null):
                    return
                v, t = E.load(n, q, 8, False), E.load(n, E.ptr_add(n, q, 8), 4, False)
                C.check(n, Or(found, eq(ty, K(3, 32))), 'post', '$map[key] of an absent key throws unless in isset/??')
                if E.feasible(n, found):
                    a = n.copy()
                    a.assume(found)
                    C.check(a, zeq(v, t, *valof(C.old.at(C.p))), 'post', '$map[key] is the value of the key')
                if E.feasible(n, Not(found)):
                    a = n.copy()
                    a.assume(Not(found))
                    C.check(a, self.is_uninit(C, a, q), 'post', '$map[key] ?? of an absent key is null')
                self.sp.same_list(C, n)
                C.ownership(n, [], [], 'read_dimension')
        return [obj, p, ty, rv], post
    h_read_dimension.setups = (None, 'append')

    def h_has_dimension(self, C, obj):
        p, z = self.key_arg(C)
        ce = C.sym('check_empty', 32)

        def post(o):
            n, e = C.fork_exc(o.st)
            if e is not None:
                C.check(e, False, 'post', 'isset($map[key]) does not throw')
            if n is not None:
                v, t = valof(C.old.at(C.p))
                want = And(C.found, Or(And(eq(ce, K(0, 32)), ne(tbyte(t), K(1, 8))), And(ne(ce, K(0, 32)), IsTrue(Z(v), Z(t)))))
                C.check(n, self.truth(C, n, ne(o.val, K(0, 32)), want, v, t), 'post', 'isset/empty($map[key]): present and not null / truthy')
                self.sp.same_list(C, n)
                C.ownership(n, [], [], 'has_dimension')
        return [obj, p, ce], post

    def h_write_dimension(self, C, obj):
        p, z = self.key_arg(C)
        if C.setup == 'append':
            p = NULL
        q, w = zval_in(C, 'value')

        def post(o):
            n, e = C.fork_exc(o.st)
            if e is not None:
                C.check(e, C.setup == 'append', 'post', '$map[key] = v does not throw')
                self.sp.same_list(C, e)
                C.ownership(e, [], [], 'write_dimension')
            if n is not None:
                C.check(n, C.setup != 'append', 'post', '$map[] = v throws')
                if C.setup != 'append':
                    self.sp.check_set(C, n, z, w, '$map[key] = v')
        return [obj, p, q], post
    h_write_dimension.setups = (None, 'append')

    def h_unset_dimension(self, C, obj):
        p, z = self.key_arg(C)

        def post(o):
            n, e = C.fork_exc(o.st)
            if e is not None:
                C.check(e, False, 'post', 'unset($map[key]) does not throw')
            if n is not None:
                self.sp.check_unset(C, n, 'unset($map[key])')
        return [obj, p], post


SortedMap.spec = SortedMapSpec
SortedMap.hspec = SortedMapHandlers
