"""Teds\\LowMemoryVector: a list of PHP values stored in the smallest of seven representations.

Entry cases fix the representation; 'abs' is a list in any representation: code run on it may only reach the representation through the functions whose
contracts are proved for each representation (FN)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from .seq import ListAdaptor, SeqSpec
from .handlers import HandlerSpec, run_case, zval_in
from .intvec import string_init, new_pair, Pair

TAGS = {'bn': 1, 'i8': 2, 'i16': 3, 'i32': 4, 'i64': 5, 'dbl': 6, 'zv': 7}
WIDTH = {1: 1, 2: 1, 3: 2, 4: 4, 5: 8, 6: 8, 7: 16}
INT, DBL = K(4, 32), K(5, 32)
PRE = 'teds_lowmemoryvector_entries_'


class LMVAdaptor(ListAdaptor):
    struct = '_teds_lowmemoryvector'
    cls = 'LowMemoryVector'
    module = 'teds_lowmemoryvector'
    # 'emptyN': no storage, but the representation N chosen by an earlier call
    cases = ('empty',) + tuple('empty%d' % i for i in range(1, 8)) + tuple(TAGS)
    ctor_cases = ('null', 'empty', 'empty1', 'bn', 'zv')
    elem = 'zval'

    def iters_case(self, m):
        return 'absiters' if m == 'push' else 'iters'

    def offs(self, C):
        d = self.layout(C)
        return {k: d[self.pre + k][0] for k in ('size', 'capacity', 'type_tag', 'active_iterators.first')} | {'entries': 0}

    def at(self, tag, a0, a8=None):
        """k -> PHP value, given the stored fields"""
        if tag == 1:
            return lambda k: (K(0, 64), zext(a0(k), 32))
        if tag == 6:
            return lambda k: (a0(k), DBL)
        if tag == 7:
            return lambda k: (a0(k), a8(k))
        return lambda k: (sext(a0(k), 64), INT)

    def make(self, C, case, name='this'):
        E, st = C.E, C.st
        d = self.layout(C)
        o = self.offs(C)
        r = E.new_region(st, name, 'heap', nbytes=K(d['__size__'][1], 64))
        s = st.mem[r.id]
        C.initialised = case != 'null'
        C.obj_reg = r
        E.fork_unroll = 4
        C.lcase = case
        tag = TAGS.get('zv' if case == 'iters' else case)
        size, cap, ent, tg = K(0, 32), K(0, 32), NULL, K(0, 8)
        old = lambda k: (K(0, 64), K(0, 32))
        A = z3.Function(name + '_value', B64, z3.BitVecSort(8 * min(WIDTH.get(tag, 8), 8)))
        Ty = z3.Function(name + '_type', B64, B32)
        if tag or case in ('abs', 'absiters'):
            size, cap = C.sym(name + '_size', 32), C.sym(name + '_capacity', 32)
            st.assume(And(ule(size, cap), ule(cap, K(self.max, 32))))
            C.watch[name + '.size'], C.watch[name + '.capacity'] = size, cap
        s64 = zext(size, 64)
        if tag:
            st.assume(ult(K(0, 32), cap))
            w = WIDTH[tag]
            e = E.new_region(st, name + '_entries', 'heap', stride=w, length=zext(cap, 64))
            st.mem[e.id].arrs[0] = (min(w, 8), lambda k: A(Z(k)))
            if tag == 7:
                st.mem[e.id].arrs[8] = (4, lambda k: Ty(Z(k)))
                st.facts.append(Fact(lambda j: Implies(ult(j, s64), E.valid_zval(Ty(Z(j)))), [(Ty, 0, lambda j: j)], 'elements are PHP values'))
            if tag == 1:
                st.facts.append(Fact(lambda j: Implies(ult(j, s64), And(ule(K(1, 8), A(Z(j))), ule(A(Z(j)), K(3, 8)))), [(A, 0, lambda j: j)], 'elements are null, false or true'))
                st.facts.append(Fact(lambda x: And(Not(IsTrue(Z(x), Z(K(1, 32)))), Not(IsTrue(Z(x), Z(K(2, 32)))), IsTrue(Z(x), Z(K(3, 32)))), [(IsTrue, 0, lambda x: x)], '(bool) of null, false, true'))
            ent, tg = Ptr(e), K(tag, 8)
            old = self.at(tag, lambda k: A(Z(k)), lambda k: Ty(Z(k)))
        elif case.startswith('empty'):
            tg = K(int(case[5:] or 0), 8)
            ent = E.global_ptr(st, 'teds_empty_entry_list', C.mod)
        elif case in ('abs', 'absiters'):
            old = lambda k: (A(Z(k)), Ty(Z(k)))
            self.ghost(C, st, r, A, Ty)
            st.facts.append(Fact(lambda j: Implies(ult(j, s64), E.valid_zval(Ty(Z(j)))), [(Ty, 0, lambda j: j)], 'elements are PHP values'))
            st.ghost['abs'] = True
        if case in ('null', 'abs', 'absiters'):
            self.abstract(C, r)
        s.cells[o['entries']] = (8, ent)
        s.cells[o['size']] = (4, size)
        s.cells[o['capacity']] = (4, cap)
        s.cells[o['type_tag']] = (1, tg)
        s.cells[o['active_iterators.first']] = (8, NULL)
        if case in ('iters', 'absiters'):
            from .handlers import iterator_list
            s.cells[o['active_iterators.first']] = (8, iterator_list(C, self, r))
        s.cells[d['std'][0] + 32] = (8, NULL)
        C.old = View(s64, old)
        C.size, C.cap = size, cap
        return Ptr(r, off=d['std'][0])

    # ---- any representation: a ghost list of PHP values
    def ghost(self, C, st, reg, A=None, Ty=None):
        E = C.E
        g = E.new_region(st, 'contents', 'ext', stride=16, length=None)
        if A is None:
            A, _ = E.fresh_fn('contents0', 64, 64)
            Ty, _ = E.fresh_fn('contents8', 64, 32)
        st.mem[g.id].arrs[0] = (8, lambda k: A(Z(k)))
        st.mem[g.id].arrs[8] = (4, lambda k: Ty(Z(k)))
        reg.contents = g
        return g

    def abstract(self, C, r):
        o = self.offs(C)

        def no(st):
            if st.ghost.get('abs'):
                raise Unsupported('direct access to the representation of an abstract LowMemoryVector')

        def ld(E, st, p, size, isp):
            no(st)

        def sto(E, st, p, size, v):
            no(st)
            return False
        for f in ('entries', 'capacity', 'type_tag'):
            r.hooks[o[f]] = ld
            r.shooks[o[f]] = sto
        self.install(C, r)

    def install(self, C, r):
        o = self.offs(C)
        ad = self

        def set_empty(E, st, a, ins):
            p = a[0]
            if not (isinstance(p, Ptr) and p.off == 0):
                return NotImplemented
            if getattr(p.reg, 'contents', None) is None:
                ad.ghost(C, st, p.reg)
                if not p.reg.hooks:
                    ad.abstract(C, p.reg)
            st.ghost['abs'] = True
            s = st.rsw(p.reg)
            s.cells[o['size']] = (4, K(0, 32))
            return None

        def push(E, st, a, ins):
            p = a[0]
            if not (isinstance(p, Ptr) and p.off == 0 and getattr(p.reg, 'contents', None) is not None and st.ghost.get('abs')):
                return NotImplemented
            if not (a[2] is True or isinstance(a[2], K) and a[2].v == 1):
                raise Unsupported('entries_push without capacity check')
            q = E.rptr(st, a[1], 'entries_push')
            v, t = E.load(st, q, 8, False), E.load(st, E.ptr_add(st, q, 8), 4, False)
            E.check(st, E.valid_zval(t), 'pre', 'entries_push: the value is a PHP value')
            out = []
            for rc in (True, False):
                g = refcounted(t) if rc else Not(refcounted(t))
                if not E.feasible(st, g):
                    continue
                s2 = st.copy()
                s2.assume(g)
                size = E.cell_load(s2, p.reg, o['size'], 4, False)
                s2.assume(ult(size, K(ad.max, 32)))      # the list never has more than the maximum: the engine stops otherwise
                if rc:
                    s2.ev.append(('addref', v))
                E.arr_store(s2, p.reg.contents, zext(size, 64), 0, 8, v)
                E.arr_store(s2, p.reg.contents, zext(size, 64), 8, 4, t)
                E.cell_store(s2, p.reg, o['size'], 4, add(size, K(1, 32)))
                out.append((s2, None))
            return out
        C.E.contracts.update({PRE + 'set_empty_list': set_empty, PRE + 'push': push})

    def prepare(self, C, name):
        if name == '__set_state':
            self.install(C, None)

    def storage(self, C, st, reg=None):
        return C.E.cell_load(st, reg or C.obj_reg, 0, 8, True)

    def gc(self, C, st, t, n):
        if C.lcase == 'zv':
            return super().gc(C, st, t, n)
        C.check(st, eq(C.E.cell_load(st, n, 0, 4, False), K(0, 32)), 'post', 'get_gc: these elements need no collection')

    def view(self, C, st, reg=None):
        E = C.E
        r = reg or C.obj_reg
        o = self.offs(C)
        size = E.cell_load(st, r, o['size'], 4, False)
        s64 = zext(size, 64)
        if st.ghost.get('abs') and getattr(r, 'contents', None) is not None:
            a, b = E.arr_field(st, r.contents, 0, 8)[2], E.arr_field(st, r.contents, 8, 4)[2]
            return View(s64, lambda k: (a(k), b(k)))
        cap = E.cell_load(st, r, o['capacity'], 4, False)
        ent = E.cell_load(st, r, o['entries'], 8, True)
        tag = E.cell_load(st, r, o['type_tag'], 1, False)
        nothing = View(s64, lambda k: (K(0, 64), K(0, 32)))
        C.check(st, ule(tag, K(7, 8)), 'invariant', 'known representation')
        if isinstance(ent, Null):
            C.check(st, And(eq(size, K(0, 32)), eq(cap, K(0, 32)), reg is not None or not C.initialised), 'invariant', 'NULL storage only before construction')
            return nothing
        if not isinstance(ent, Ptr):
            C.check(st, False, 'invariant', 'storage pointer is valid (%r)' % (ent,))
            return nothing
        if ent.reg.kind == 'global':
            C.check(st, And(eq(size, K(0, 32)), eq(cap, K(0, 32)), ent.reg.base == '@teds_empty_entry_list'), 'invariant', 'shared empty storage only with size and capacity 0')
            return nothing
        if not isinstance(tag, K) or tag.v not in WIDTH:
            C.check(st, False, 'invariant', 'the representation is set (%s)' % (tag,))
            return nothing
        w = WIDTH[tag.v]
        if ent.reg.stride is None:
            ent.reg.stride = w
        es = st.mem[ent.reg.id]
        C.check(st, And(es.alive, ent.ver == es.ver, ent.off == 0, eq(ent.idx, K(0, 64)), ent.reg.kind == 'heap'), 'invariant', 'storage is a live heap block')
        C.check(st, And(ule(size, cap), ne(cap, K(0, 32)), ule(cap, K(self.max, 32))), 'invariant', 'size <= capacity <= maximum')
        C.check(st, ent.reg.stride == w, 'invariant', 'element width of the storage')
        if ent.reg.stride != w:
            return nothing
        C.check(st, ule(zext(cap, 64), E.region_len(st, ent.reg)), 'invariant', 'capacity is allocated')
        a = E.arr_field(st, ent.reg, 0, min(w, 8))[2]
        b = E.arr_field(st, ent.reg, 8, 4)[2] if w == 16 else None
        if tag.v == 1:
            k = C.skolem()
            s = st.copy()
            s.assume(ult(k, s64))
            C.check(s, And(ule(K(1, 8), a(k)), ule(a(k), K(3, 8))), 'invariant', 'the elements are null, false or true')
        return View(s64, self.at(tag.v, a, b))


class LMVSpec(SeqSpec):
    def m_push(self, C, o):
        return super().m_push(C, o)
    m_push.args = (None,)
    m_push.cases = ('abs',)

    def m_pushFront(self, C, o):
        return super().m_pushFront(C, o)
    m_pushFront.args = (0, 1, 2)
    m_pushFront.args_for = {'zv': (None,), 'empty7': (None,)}
    m_unshift = m_pushFront

    def m_insert(self, C, o):
        return super().m_insert(C, o)
    m_insert.args = (1, 2, 3)
    m_insert.args_for = {'zv': (None,), 'empty7': (None,)}

    # ---- serialization: [] for no elements, else [representation, data]
    def m___serialize(self, C, o):
        n = self.split(C, o, '__serialize', (), {})
        if n is None:
            return
        E = C.E
        p, t = rv_ptr(C, n)
        self.same_list(C, n)
        if isinstance(p, Ptr) and p.reg.kind == 'global':
            C.check(n, And(eq(C.old.size, K(0, 64)), p.reg.base == '@zend_empty_array', Or(eq(t, K(7, 32)), eq(t, K(0x307, 32)))), 'post', '__serialize: the empty array only for an empty list')
            C.ownership(n, [], [], '__serialize')
            return
        pr = n.ghost.get('pair')
        if pr is None or not isinstance(p, Ptr) or p.reg is not pr[0]:
            C.check(n, False, 'post', '__serialize returns a pair (%r)' % (p,))
            return
        _, (v1, t1), (v2, t2) = pr
        C.check(n, And(eq(t, K(0x307, 32)), ne(C.old.size, K(0, 64)), eq(t1, INT)), 'post', '__serialize: [int, data]')
        tag = v1.v if isinstance(v1, K) else None
        if tag == 7:
            v = array_out(C, n, v2, t2, '__serialize')
            if v is not None:
                C.check_list(n, v, C.old.size, C.old.at, '__serialize: the elements in order')
            C.ownership(n, [('many', C.old.size, C.old.at)], [], '__serialize')
            return
        C.ownership(n, [], [], '__serialize')
        if tag not in (2, 3, 4, 5, 6) or not isinstance(v2, Ptr) or v2.reg.base != 'string':
            C.check(n, False, 'post', '__serialize: [representation, bytes] (%r, %r)' % (v1, v2))
            return
        w = WIDTH[tag]
        C.check(n, And(eq(t2, K(0x106, 32)), v2.reg.stride == w, eq(E.cell_load(n, v2.reg, 16, 8, False), mul(C.old.size, K(w, 64)))), 'post', '__serialize: number of bytes')
        if v2.reg.stride == w:
            a = E.arr_field(n, v2.reg, 0, w)[2]
            C.check_list(n, View(C.old.size, self.ad.at(tag, a)), C.old.size, C.old.at, '__serialize: the bytes of the elements')
    m___serialize.args = (0,)
    m___serialize.cases = ('empty', 'empty1', 'i8', 'i16', 'i32', 'i64', 'dbl', 'zv')

    def setup_arg(self, C, name, su):
        if name == '__serialize':
            C.E.contracts.update({'zend_string_init': string_init, 'zend_new_pair': new_pair})
            return True
        if name != '__unserialize':
            return False
        for f in FN:
            C.E.contracts.pop(f, None)
        data_arg(C, su)
        return True

    def m___unserialize(self, C, o):
        st = o.st
        n, e = C.fork_exc(st)
        P = C.pair
        none = eq(P.num, K(0, 32))
        good = And(eq(P.num, K(2, 32)), P.has[0], P.has[1], eq(tbyte(P.el[0][1]), K(4, 8)), eq(tbyte(P.el[1][1]), K(7 if P.tag == 7 else 6, 8)), P.tag is not None, P.lenok)
        if e is not None:
            C.check(e, any('RuntimeException' in str(t) for t in self.tags(C, e)), 'post', '__unserialize throws RuntimeException')
            C.check(e, Or(C.initialised, Not(Or(none, good))), 'post', '__unserialize throws only for bad data')
            if C.initialised:
                self.same_list(C, e)
            C.ownership(e, [], [], '__unserialize')
        if n is not None:
            C.check(n, And(not C.initialised, Or(none, good)), 'post', '__unserialize of bad data, or a second one, throws')
            v = self.ad.view(C, n)
            s = n.copy()
            s.assume(none)
            if C.E.feasible(n, none):
                C.check(s, eq(v.size, K(0, 64)), 'post', '__unserialize([]) is empty')
                C.ownership(s, [], [], '__unserialize')
            s = n.copy()
            s.assume(Not(none))
            if C.E.feasible(n, Not(none)):
                if P.tag == 7:
                    self.from_array(C, s, P.arr, v, '__unserialize')
                else:
                    C.check_list(s, v, P.n, self.ad.at(P.tag, P.at), '__unserialize restores the elements')
                    C.ownership(s, [], [], '__unserialize')
    m___unserialize.args = (1,)
    m___unserialize.setups = ('tag1',) + tuple('tag%d' % i for i in range(2, 7)) + ('odd3', 'odd4', 'odd5', 'odd6', 'arrpackedfull', 'arrpacked', 'arrhash', 'other')
    m___unserialize.skip = ('tag1',)


def data_arg(C, su):
    """argument 0 is an array with any number of elements; the values under the keys 0 and 1 are arbitrary (tagN: the representation N with a string,
    read as values of its width; arr*: the representation 7 with an array; other: no known representation)"""
    E, st = C.E, C.st
    P = C.pair = Pair()
    r = E.new_region(st, 'data', 'ext', nbytes=K(56, 64))
    P.num = C.sym('data_num', 32)
    st.mem[r.id].cells[28] = (4, P.num)
    tag = P.tag = 7 if su.startswith('arr') else int(su[3:]) if su != 'other' else None
    w = WIDTH[tag] if tag not in (None, 7) else 1
    P.has = [C.sym('data_has%d' % i, 1) for i in (0, 1)]
    P.el, regs = [], []
    P.lenok = True
    for i in (0, 1):
        v, t = C.sym('data%d_value' % i), C.sym('data%d_type' % i, 32)
        st.assume(E.valid_zval(t, (0x10a,)))
        z = E.new_region(st, 'data%d' % i, 'ext', nbytes=K(16, 64))
        regs.append(z)
        if i == 0 and tag is not None:
            st.assume(eq(t, INT))
            v = K(tag, 64)
        elif i == 0:
            st.assume(Or(ne(t, INT), ult(K(7, 64), v)))
        elif tag == 7:
            P.arr = array_value(C, su[3:], 'in')
            v = Ptr(P.arr.reg)
        else:
            cnt = C.sym('string_n')
            st.assume(ult(cnt, K(MAXC, 64)))
            ln = mul(cnt, K(w, 64))
            if su.startswith('odd'):
                ln = C.sym('string_len')
                st.assume(And(ult(ln, K(MAXC, 64)), ne(and_(ln, K(w - 1, 64)), K(0, 64))))
                P.lenok = False
            s = E.new_region(st, 'string', 'ext', stride=w, length=cnt, header=24)
            A = z3.Function('string_value', B64, z3.BitVecSort(8 * w))
            ss = st.mem[s.id]
            ss.cells[16] = (8, ln)
            ss.arrs[0] = (w, lambda k: A(Z(k)))
            P.n, P.at = cnt, lambda k: A(Z(k))
            v = Ptr(s)
            C.watch['string length'] = ln
        st.mem[z.id].cells[0] = (8, v)
        st.mem[z.id].cells[8] = (4, t)
        P.el.append((v, t))
    C.watch['data elements'] = P.num

    def find(E, st, a, ins):
        q = E.rptr(st, a[0], 'zend_hash_index_find')
        if not (isinstance(q, Ptr) and q.reg is r and isinstance(a[1], K) and a[1].v in (0, 1)):
            return NotImplemented
        i = a[1].v
        out = []
        for g, v in ((P.has[i], Ptr(regs[i])), (Not(P.has[i]), NULL)):
            if E.feasible(st, g):
                s2 = st.copy()
                s2.assume(g)
                out.append((s2, v))
        return out
    E.contracts['zend_hash_index_find'] = find
    from ..specbase import _setarg
    C.assume(Or(eq(C.arg(0)[1], K(0x307, 32)), eq(C.arg(0)[1], K(7, 32))))
    _setarg(C, 0, E.enc(Ptr(r)))


class LMVHandlers(HandlerSpec):
    def h_get_properties_for(self, C, obj):
        args, post0 = super().h_get_properties_for(C, obj)

        def post(o):
            if isinstance(o.val, Null):
                # var_dump and var_export deliberately show no elements
                C.check(o.st, Or(eq(C.old.size, K(0, 64)), eq(args[1], K(0, 32)), eq(args[1], K(3, 32))), 'post', 'properties are NULL only for an empty collection or for var_dump/var_export')
                C.ownership(o.st, [], [], 'get_properties_for')
                return
            post0(o)
        return args, post

    def it_tasks(self):
        return [('it:' + f, c, None) for f in self.ITFUNCS for c in self.ad.cases if not (c.startswith('empty') and f in ('current', 'key', 'next'))]


LMVAdaptor.spec = LMVSpec
LMVAdaptor.hspec = LMVHandlers

# ---- contracts used on lists in any representation, proved for every representation
FN = (PRE + 'push', PRE + 'set_empty_list')


def fn_tasks(mod, ad):
    out = []
    for f in FN:
        if f in mod._bodies:
            out += [('fn', f, c, None) for c in (ad.cases if f.endswith('push') else ('null', 'empty', 'empty1'))]
    return out


def run_fn(prog, mods, ad, task, budget, unroll):
    _, f, case, _ = task

    def body(C):
        ad.make(C, case)
        C.E.contracts.clear()
        p = Ptr(C.obj_reg)
        if f.endswith('push'):
            q, z = zval_in(C, 'value')

            def post(out):
                st = out.st
                C.check(st, Not(C.exc(st)), 'post', 'entries_push does not throw')
                C.check_list(st, ad.view(C, st), add(C.old.size, K(1, 64)), lambda k: tuple(ite(eq(k, C.old.size), y, x) for x, y in zip(C.old.at(k), z)), 'entries_push appends the value')
                C.ownership(st, [('one',) + z], [], 'entries_push')
            return f, [p, q, True], post

        def post(out):
            C.check_list(out.st, ad.view(C, out.st), K(0, 64), C.old.at, 'set_empty_list')
        return f, [p], post
    return run_case(prog, mods[ad.module], '%s[%s]' % (f, case), task, body, budget, unroll)
