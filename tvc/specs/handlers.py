"""Contracts of the object handlers (free, clone, get_gc, dimensions, ...) and of the iterators, over the abstract list of the class's adaptor.

The functions are found from what the class registers at startup (stores into the handler table and the class entry), not by name."""
import time, traceback
import z3
from ..terms import *
from .. import terms as T
from ..sym import *
from ..specbase import *
from ..models import di, eg, HT, IsTrue
from ..tasks import Result
from ..sym import ForkOn

E8 = z3.Function('ext8', B64, B64)


def handlers_of(mod, cls):
    """{handler name: C function} from the module's startup function"""
    out = {}
    for fn in [n for n in mod._bodies if n.startswith('zm_startup_')]:
        f = mod.func(fn)
        loc = {}
        ce = None
        for blk in f.blocks.values():
            for i in blk:
                if i.op == 'gep':
                    loc[i.dst] = (i.ty, i.a[0], i.a[1])
                elif i.op == 'call' and i.a[0][0] == 'glob' and any(isinstance(x, tuple) and ('glob', '@teds_handler_' + cls) in x for x in i.a[1]) and i.a[0][1][1:] in mod._bodies:
                    k = [n for n, x in enumerate(i.a[1]) if isinstance(x, tuple) and ('glob', '@teds_handler_' + cls) in x][0]
                    for h, fn2 in handler_stores(mod, mod.func(i.a[0][1][1:]), k).items():
                        out[h] = fn2
                elif i.op == 'call' and i.dst:
                    loc[i.dst] = ('call', i.a[0][1] if i.a[0][0] == 'glob' else None)
                elif i.op == 'load':
                    loc[i.dst] = ('load', i.a)
                elif i.op == 'store' and i.a[0][0] == 'glob':
                    v, p = i.a
                    if p[0] == 'gep':
                        ty, base, idx = p[1], p[2], p[3]
                    elif p[0] == 'loc' and isinstance(loc.get(p[1]), tuple) and len(loc[p[1]]) == 3:
                        ty, base, idx = loc[p[1]]
                    else:
                        continue
                    name = getattr(ty, 'a', None)
                    if ty.k != 'named':
                        continue
                    st = name.replace('%', '').replace('struct.', '')
                    if len(idx) != 2:
                        continue
                    off, _ = mod.field_off(ty, idx[1][1][1])
                    if st == '_zend_object_handlers':
                        if base != ('glob', '@teds_handler_' + cls):
                            continue
                    elif st == '_zend_class_entry':
                        src = loc.get(base[1]) if base[0] == 'loc' else None
                        nm = (src[1][1] if src and src[0] == 'load' and isinstance(src[1], tuple) else src[1] if src else '') or ''
                        if not nm.endswith('_' + cls):
                            continue
                    else:
                        continue
                    d = mod.di_struct(st)
                    for k, (o, s) in d.items():
                        if o == off and k != '__size__' and s == 8 and '.' not in k:
                            out[k] = v[1][1:]
                            break
                    else:
                        if st == '_zend_class_entry':
                            out.setdefault('create_object', v[1][1:])
    return out


def handler_stores(mod, f, k):
    """handler table entries stored by a startup helper through its k-th parameter"""
    out, loc = {}, {}
    pn = f.params[k]
    pn = pn[1] if isinstance(pn, tuple) else pn
    d = mod.di_struct('_zend_object_handlers')
    for blk in f.blocks.values():
        for i in blk:
            if i.op == 'gep':
                loc[i.dst] = (i.ty, i.a[0], i.a[1])
            elif i.op == 'store' and i.a[0][0] == 'glob' and i.a[1][0] == 'loc' and isinstance(loc.get(i.a[1][1]), tuple):
                ty, base, idx = loc[i.a[1][1]]
                if ty.k == 'named' and '_zend_object_handlers' in ty.a and base == ('loc', pn) and len(idx) == 2:
                    off, _ = mod.field_off(ty, idx[1][1][1])
                    for h, (o, s) in d.items():
                        if o == off and s == 8 and h != '__size__' and '.' not in h:
                            out[h] = i.a[0][1][1:]
    return out


def zval_in(C, name, types=None, refs=False):
    """a zval in memory owned by the caller"""
    E, st = C.E, C.st
    r = E.new_region(st, name, 'ext', nbytes=K(16, 64))
    v, t = C.sym(name + '_v'), C.sym(name + '_t', 32)
    st.mem[r.id].cells[0] = (8, v)
    st.mem[r.id].cells[8] = (4, t)
    st.assume(E.valid_zval(t, (0x10a,) if refs else ()))
    if refs:
        e4 = z3.Function('ext4', B64, B32)
        st.assume(Implies(eq(t, K(0x10a, 32)), E.valid_zval(e4(Z(add(v, K(16, 64)))))))
    C.watch[name + '.value'] = v
    C.watch[name + '.type'] = t
    return Ptr(r), (v, t)


def out_cell(C, name, n):
    r = C.E.new_region(C.st, name, 'ext', nbytes=K(n, 64))
    return Ptr(r)


class HandlerSpec:
    """ad: representation; sp: the SeqSpec (offset conversion etc.)"""

    def __init__(self, ad, sp):
        self.ad, self.sp = ad, sp

    def cases(self):
        return self.ad.ctor_cases

    def tasks(self, hs):
        out = []
        for h in sorted(hs):
            f = getattr(self, 'h_' + h, None)
            if f is None:
                continue
            cs = getattr(f, 'cases', None) or self.ad.cases
            if cs == 'all':
                cs = self.ad.ctor_cases
            for c in cs:
                for su in getattr(f, 'setups', (None,)):
                    out.append((h, c, su))
        return out

    # each: yields (args, post)
    def h_free_obj(self, C, obj):
        def post(o):
            st = o.st
            C.ownership(st, [], [('many', C.old.size, C.old.at)] if self.ad.elem == 'zval' else [], 'free_obj')
            self.ad.freed(C, st)
            ev = [e[0] for e in st.ev if e[0] in ('std_dtor', 'dtor', 'bulk')]
            C.check(st, ev.count('std_dtor') == 1 and ev[0] == 'std_dtor', 'post', 'free_obj: the engine part of the object (properties, WeakReferences) is released once and before any element')
        return [obj], post
    h_free_obj.cases = 'all'

    def class_entry(self, C, obj):
        """the class entry registered for the class"""
        ce = C.E.new_region(C.st, 'class_entry', 'ext', nbytes=K(1024, 64))
        g = C.E.global_ptr(C.st, 'teds_ce_' + self.ad.cls, C.mod)
        C.st.mem[g.reg.id].cells[0] = (8, Ptr(ce))
        if obj is not None:
            C.st.mem[obj.reg.id].cells[obj.off + 16] = (8, Ptr(ce))
        return ce

    def h_clone_obj(self, C, obj):
        self.class_entry(C, obj)

        def post(o):
            st = o.st
            p = o.val
            d = self.ad.layout(C)
            if not (isinstance(p, Ptr) and p.reg in st.ghost.get('newobjs', ()) and p.off == d['std'][0]):
                C.check(st, False, 'post', 'clone returns a new object (%r)' % (p,))
                return
            h = C.E.cell_load(st, p.reg, d['std'][0] + 24, 8, True)
            C.check(st, isinstance(h, Ptr) and h.reg.base == '@teds_handler_' + self.ad.cls, 'post', 'clone: object handlers are set')
            C.check_list(st, self.ad.view(C, st, p.reg), C.old.size, C.old.at, 'clone has the same elements')
            self.sp.same_list(C, st, 'the original is unchanged')
            C.ownership(st, [('many', C.old.size, C.old.at)] if self.ad.elem == 'zval' else [], [], 'clone')
            self.ad.separate(C, st, p.reg)
        return [obj], post

    def h_count_elements(self, C, obj):
        p = out_cell(C, 'count', 8)

        def post(o):
            st = o.st
            v = C.E.cell_load(st, p.reg, 0, 8, False)
            C.check(st, And(eq(o.val, K(0, 32)), eq(v, C.old.size)), 'post', 'count() is the number of elements')
            self.sp.same_list(C, st)
            C.ownership(st, [], [], 'count_elements')
        return [obj, p], post

    def h_get_gc(self, C, obj):
        t, n = out_cell(C, 'gc_table', 8), out_cell(C, 'gc_n', 4)
        self.ad.pre_gc(C)

        def post(o):
            st = o.st
            self.ad.gc(C, st, t.reg, n.reg)
            self.sp.same_list(C, st) if C.initialised else None
            C.ownership(st, [], [], 'get_gc')
        return [obj, t, n], post
    h_get_gc.cases = 'all'

    def h_get_properties_for(self, C, obj):
        pu = C.sym('purpose', 32)
        C.assume(ule(pu, K(3, 32)))

        def post(o):
            st = o.st
            p = o.val
            if isinstance(p, Null):
                C.check(st, eq(C.old.size, K(0, 64)), 'post', 'properties are NULL only for an empty collection')
                C.ownership(st, [], [], 'get_properties_for')
                return
            v = array_out(C, st, p, K(0x307, 32), 'get_properties_for')
            if v is not None:
                C.check_list(st, v, C.old.size, C.old.at, 'array cast / var_dump / var_export show the elements in order')
            self.sp.same_list(C, st)
            C.ownership(st, [('many', C.old.size, C.old.at)] if self.ad.elem == 'zval' else [], [], 'get_properties_for')
        return [obj, pu], post

    def offset(self, v, t):
        """array offset as the engine converts it: (defined, index)"""
        v, t = deref(v, t)
        b = tbyte(t)
        ok = Or(eq(b, K(2, 8)), eq(b, K(3, 8)), eq(b, K(4, 8)), eq(b, K(5, 8)), And(eq(b, K(6, 8)), NumStr(Z(v))), eq(b, K(9, 8)))
        x = ite(eq(b, K(4, 8)), v, ite(eq(b, K(2, 8)), K(0, 64), ite(eq(b, K(3, 8)), K(1, 64), ite(eq(b, K(5, 8)), D2L(Z(v)),
            ite(eq(b, K(6, 8)), NumIdx(Z(v)), E8(Z(add(v, K(8, 64)))))))))
        return ok, x

    def h_read_dimension(self, C, obj):
        p, z = zval_in(C, 'offset', refs=True)
        if C.setup == 'append':
            p = NULL
        ty = C.sym('type', 32)
        rv = out_cell(C, 'rv', 16)
        ok, i = self.offset(*z)

        def post(o):
            st = o.st
            E = C.E
            q = E.rptr(st, o.val, 'result') if not isinstance(o.val, Null) else o.val
            inr = And(ok, ult(i, C.old.size)) if C.setup is None else False
            n, e = C.fork_exc(st)
            if e is not None:
                wr = And(ne(ty, K(0, 32)), ne(ty, K(3, 32))) if self.ad.immutable else False
                C.check(e, Or(Not(inr), wr, 'from-error-handler' in map(str, self.sp.tags(C, e))), 'post', '$x[i]: throws only for a bad offset')
                self.sp.same_list(C, e)
                C.ownership(e, [], [], 'read_dimension')
            if n is not None:
                isnull = isinstance(q, Null)
                C.check(n, not isnull, 'post', '$x[i]: NULL is returned only with an exception')
                if isnull:
                    return
                v, t = E.load(n, q, 8, False), E.load(n, E.ptr_add(n, q, 8), 4, False)
                if self.ad.immutable:
                    C.check(n, Or(eq(ty, K(0, 32)), eq(ty, K(3, 32))), 'post', '$x[i] for writing throws (immutable)')
                C.check(n, Or(inr, eq(ty, K(3, 32))), 'post', '$x[i] of a bad offset throws unless in isset/??')
                a = n.copy()
                a.assume(inr)
                if E.feasible(n, inr):
                    C.check(a, zeq(v, t, *C.old.at(i)), 'post', '$x[i] is the element at the offset')
                a = n.copy()
                a.assume(Not(inr))
                if E.feasible(n, Not(inr)):
                    C.check(a, self.is_uninit(C, a, q), 'post', '$x[i] ?? of a bad offset is null')
                self.sp.same_list(C, n)
                C.ownership(n, self.read_adds(C, q, i), [], 'read_dimension')
        return [obj, p, ty, rv], post
    h_read_dimension.setups = (None, 'append')

    def read_adds(self, C, q, i):
        return []

    def is_uninit(self, C, st, q):
        if isinstance(q, Ptr) and q.reg.base == '@executor_globals':
            return q.off == eg(C.E, st, 'uninitialized_zval')[0].off
        v, t = C.E.load(st, q, 8, False), C.E.load(st, C.E.ptr_add(st, q, 8), 4, False)
        return eq(t, K(1, 32))

    def h_has_dimension(self, C, obj):
        p, z = zval_in(C, 'offset', refs=True)
        ce = C.sym('check_empty', 32)
        ok, i = self.offset(*z)

        def post(o):
            st = o.st
            n, e = C.fork_exc(st)
            if e is not None:
                C.check(e, Or(Not(ok), 'from-error-handler' in map(str, self.sp.tags(C, e))), 'post', 'isset($x[i]): throws only for an offset of a bad type')
                self.sp.same_list(C, e)
                C.ownership(e, [], [], 'has_dimension')
            if n is not None:
                v, t = C.old.at(i)
                want = And(ok, ult(i, C.old.size), Or(And(eq(ce, K(0, 32)), ne(tbyte(t), K(1, 8))), And(ne(ce, K(0, 32)), IsTrue(Z(v), Z(t)))))
                C.check(n, self.truth(C, n, ne(o.val, K(0, 32)), want, v, t), 'post', 'isset/empty($x[i]): in range and not null / truthy')
                self.sp.same_list(C, n)
                C.ownership(n, [], [], 'has_dimension')
        return [obj, p, ce], post

    def truth(self, C, st, got, want, v, t):
        return eq(zext(got, 8), zext(want, 8))

    def h_write_dimension(self, C, obj):
        p, z = zval_in(C, 'offset', refs=True)
        if C.setup == 'append':
            p = NULL
        q, w = zval_in(C, 'value')      # the VM passes dereferenced values
        ok, i = self.offset(*z)

        def post(o):
            st = o.st
            n, e = C.fork_exc(st)
            bad = Or(Not(ok), ule(C.old.size, i)) if C.setup is None else False
            if e is not None:
                C.check(e, Or(bad, 'from-error-handler' in map(str, self.sp.tags(C, e))), 'post', '$x[i] = v: throws only for a bad offset')
                self.sp.same_list(C, e)
                C.ownership(e, [], [], 'write_dimension')
            if n is not None:
                C.check(n, Not(bad), 'post', '$x[i] = v: a bad offset throws')
                v = self.ad.view(C, n)
                new = self.ad.conv(lambda j: w)(K(0, 64))
                if C.setup == 'append':
                    C.check_list(n, v, add(C.old.size, K(1, 64)), lambda k: tuple(ite(eq(k, C.old.size), y, x) for x, y in zip(C.old.at(k), new)), '$x[] = v appends')
                    C.ownership(n, [('one',) + tuple(w)] if self.ad.elem == 'zval' else [], [], 'write_dimension')
                else:
                    C.check_list(n, v, C.old.size, lambda k: tuple(ite(eq(k, i), y, x) for x, y in zip(C.old.at(k), new)), '$x[i] = v replaces exactly one element')
                    C.ownership(n, [('one',) + tuple(w)] if self.ad.elem == 'zval' else [], [('one',) + tuple(C.old.at(i))] if self.ad.elem == 'zval' else [], 'write_dimension')
        return [obj, p, q], post
    h_write_dimension.setups = (None, 'append')

    def h_create_object(self, C, obj):
        ce = self.class_entry(C, None)

        def post(o):
            st = o.st
            p = o.val
            d = self.ad.layout(C)
            if not (isinstance(p, Ptr) and p.reg in st.ghost.get('newobjs', ()) and p.off == d['std'][0]):
                C.check(st, False, 'post', 'create_object returns a new object (%r)' % (p,))
                return
            h = C.E.cell_load(st, p.reg, d['std'][0] + 24, 8, True)
            C.check(st, isinstance(h, Ptr) and h.reg.base == '@teds_handler_' + self.ad.cls, 'post', 'create_object: object handlers are set')
            v = self.ad.view(C, st, p.reg)
            C.check(st, eq(v.size, K(0, 64)), 'post', 'a new object is empty')
            C.ownership(st, [], [], 'create_object')
        return [Ptr(ce)], post
    h_create_object.cases = ('static',)

    # ---- iterators
    def h_get_iterator(self, C, obj):
        zv = C.E.new_region(C.st, 'object_zval', 'ext', nbytes=K(16, 64))
        C.st.mem[zv.id].cells[0] = (8, obj)
        C.st.mem[zv.id].cells[8] = (4, K(0x308, 32))
        br = C.sym('by_ref', 32)

        def post(o):
            st = o.st
            E = C.E
            n, e = C.fork_exc(st)
            if e is not None:
                C.check(e, ne(br, K(0, 32)), 'post', 'getIterator: only iteration by reference is refused')
                C.ownership(e, [], [], 'get_iterator')
            if n is not None:
                C.check(n, eq(br, K(0, 32)), 'post', 'getIterator: iteration by reference is refused')
                p = o.val
                if not (isinstance(p, Ptr) and p.reg.kind == 'heap'):
                    C.check(n, False, 'post', 'getIterator returns a new iterator')
                    return
                d = C.mod.di_struct(self.ad.it_struct)
                x = E.cell_load(n, p.reg, d['intern.data'][0] if 'intern.data' in d else 56, 8, True)
                C.check(n, isinstance(x, Ptr) and x.reg is C.obj_reg, 'post', 'the iterator holds the object')
                adds = [e for e in n.ev if e[0] == 'addref']
                C.check(n, len(adds) == 1 and C.prov(n, eq(adds[0][1], E.enc(obj))), 'ownership', 'the iterator owns one reference to the object')
                self.sp.same_list(C, n)
                if self.ad.has_iters:
                    f = E.cell_load(n, C.obj_reg, self.ad.layout(C)[self.ad.pre + 'active_iterators.first'][0], 8, True)
                    no = d['dllist_node.next'][0]
                    C.check(n, isinstance(f, Ptr) and f.reg is p.reg and f.off == d['dllist_node.prev'][0], 'post', 'the iterator is linked into the object\'s list of active iterators')
                    nx = E.cell_load(n, p.reg, no, 8, True)
                    pv = E.cell_load(n, p.reg, d['dllist_node.prev'][0], 8, True)
                    C.check(n, isinstance(pv, Null), 'post', 'it is the first of the list')
                    if C.itn is None:
                        C.check(n, isinstance(nx, Null), 'post', 'the rest of the list follows it')
                    else:
                        C.check(n, isinstance(nx, Ptr) and nx.reg is C.its and eq(nx.idx, K(0, 64)), 'post', 'the rest of the list follows it')
        return [Ptr(self.class_entry(C, obj)), Ptr(zv), br], post

    def it_pos(self, C, st, reg):
        d = C.mod.di_struct(self.ad.it_struct)
        o, s = d[self.ad.it_pos]
        return zext(C.E.cell_load(st, reg, o, s, False), 64)

    def make_it(self, C, obj):
        E, st = C.E, C.st
        d = C.mod.di_struct(self.ad.it_struct)
        r = E.new_region(st, 'iterator', 'heap', nbytes=K(d['__size__'][1], 64))
        s = st.mem[r.id]
        dat = d['intern.data'][0]
        s.cells[dat] = (8, obj)
        s.cells[dat + 8] = (4, K(0x308, 32))
        o, sz = d[self.ad.it_pos]
        p = C.sym('position', sz * 8)
        s.cells[o] = (sz, p)
        C.watch['position'] = p
        C.pos = zext(p, 64)
        if self.ad.has_iters:
            # it is the first, or has a predecessor; it is the last, or has a successor
            for f in ('prev', 'next'):
                s.cells[d['dllist_node.' + f][0]] = (8, NULL)
            C.st.mem[C.obj_reg.id].cells[self.ad.layout(C)[self.ad.pre + 'active_iterators.first'][0]] = (8, Ptr(r, off=d['dllist_node.prev'][0]))
        return Ptr(r)

    def i_valid(self, C, it):
        def post(o):
            C.check(o.st, eq(eq(o.val, K(0, 32)), ult(C.pos, C.old.size)), 'post', 'valid() iff the position is inside the list')
            self.it_same(C, o.st, it)
        return [it], post

    def it_same(self, C, st, it, pos=None):
        C.check(st, eq(self.it_pos(C, st, it.reg), C.pos if pos is None else pos), 'post', 'iterator position')
        self.sp.same_list(C, st)
        C.ownership(st, [], [], 'iterator')

    def i_current(self, C, it):
        C.assume(ult(C.pos, C.old.size))

        def post(o):
            st = o.st
            C.check(st, Not(C.exc(st)), 'post', 'current() does not throw at a valid position')
            q = C.E.rptr(st, o.val, 'result')
            v, t = C.E.load(st, q, 8, False), C.E.load(st, C.E.ptr_add(st, q, 8), 4, False)
            C.check(st, zeq(v, t, *C.old.at(C.pos)), 'post', 'current() is the element at the position')
            self.it_same(C, st, it)
        return [it], post

    def i_key(self, C, it):
        C.assume(ult(C.pos, C.old.size))
        k = out_cell(C, 'key', 16)

        def post(o):
            st = o.st
            v, t = C.E.cell_load(st, k.reg, 0, 8, False), C.E.cell_load(st, k.reg, 8, 4, False)
            C.check(st, And(eq(t, K(4, 32)), eq(v, C.pos)), 'post', 'key() is the position')
            C.check(st, Not(C.exc(st)), 'post', 'key() does not throw')
            self.it_same(C, st, it)
        return [it, k], post

    def i_next(self, C, it):
        C.assume(ult(C.pos, C.old.size))

        def post(o):
            self.it_same(C, o.st, it, add(C.pos, K(1, 64)))
        return [it], post

    def i_rewind(self, C, it):
        def post(o):
            self.it_same(C, o.st, it, K(0, 64))
        return [it], post

    def i_dtor(self, C, it):
        def post(o):
            st = o.st
            ds = [e for e in st.ev if e[0] in ('dtor', 'delref', 'rcfree')]
            C.check(st, len(ds) == 1 and ds[0][0] == 'dtor' and C.prov(st, eq(ds[0][1], C.E.enc(C.obj))), 'ownership', 'destroying an iterator releases its object once')
            if self.ad.has_iters:
                f = C.E.cell_load(st, C.obj_reg, self.ad.layout(C)[self.ad.pre + 'active_iterators.first'][0], 8, True)
                C.check(st, isinstance(f, Null), 'post', 'a destroyed iterator is unlinked from the list of active iterators')
        return [it], post

    ITFUNCS = ('dtor', 'valid', 'current', 'key', 'next', 'rewind')

    def it_tasks(self):
        cs = [c for c in self.ad.cases]
        return [('it:' + f, c, None) for f in self.ITFUNCS for c in cs if not (c != 'heap' and f in ('current', 'key', 'next'))]


def it_funcs(mod, prog, getit):
    """functions of the iterator table stored by the class's get_iterator"""
    f = prog.find(getit, mod)
    for g in [f] + [prog.find(i.a[0][1][1:], f.mod) for b in f.blocks.values() for i in b if i.op == 'call' and i.a[0][0] == 'glob' and i.a[0][1][1:] in prog.by_name]:
        for b in g.blocks.values():
            for i in b:
                if i.op == 'store' and i.a[0][0] == 'glob' and i.a[0][1][1:] in g.mod.globals:
                    t, v, c = g.mod.ginit(i.a[0][1][1:])
                    if v and v[0] == 'agg' and len(v[1]) >= 6:
                        return [x[1][1][1:] if x[1][0] == 'glob' else None for x in v[1]]
    return None


def run_case(prog, mod, label, task, body, budget=60, unroll=0, timeout=15000):
    """body(C) -> (C function name, arguments, post)"""
    t0 = time.time()
    C = Case(prog, mod, label, budget, unroll, timeout)
    C.setup = C.itn = None
    r = Result(label=label, task=task, error=None)
    outs = []
    try:
        fn, args, post = body(C)
        C.E.fname = fn
        outs = C.E.run(C.st, fn, args, mod)
        for o in outs:
            if o.kind == 'ret':
                C.E.cur = o.st
                T.NOWRAP = o.st.nowrap
                post(o)
                C.no_leak(o.st, o.val, args)
    except Unsupported as ex:
        r['error'] = '%s @ %s' % (ex, C.E.where(C.E.cur) if C.E.cur and C.E.cur.frames else '')
        r['tb'] = traceback.format_exc()
    except RecursionError:
        r['error'] = 'recursion limit'
    except Exception as ex:
        r['error'] = 'internal: %r' % (ex,)
        r['tb'] = traceback.format_exc()
    return finish(r, C, outs, t0)


def run_handler(prog, mods, spec, hs, task, budget=60, unroll=0, timeout=15000):
    h, case, su = task
    ad = spec.ad
    label = '%s handler %s[%s%s]' % (ad.cls, h, case, ',' + su if su else '')
    mod = mods[ad.module]
    t0 = time.time()
    C = Case(prog, mod, label, budget, unroll, timeout)
    C.setup = su
    C.itn = None
    r = Result(label=label, task=task, error=None)
    outs = []
    try:
        obj = None if case == 'static' else ad.make(C, case)
        C.obj = obj
        ad.prepare(C, h)
        if h.startswith('it:'):
            fs = it_funcs(mod, prog, hs['get_iterator'])
            if fs is None:
                raise Unsupported('iterator function table not found')
            fn = fs[HandlerSpec.ITFUNCS.index(h[3:])]
            args, post = getattr(spec, 'i_' + h[3:])(C, spec.make_it(C, obj))
        else:
            fn = hs[h]
            args, post = getattr(spec, 'h_' + h)(C, obj)
        if case == 'static':
            C.old = None
        C.E.fname = fn
        outs = C.E.run(C.st, fn, args, mod)
        for o in outs:
            if o.kind == 'ret':
                C.E.cur = o.st
                T.NOWRAP = o.st.nowrap
                post(o)
                C.no_leak(o.st, o.val, args)
    except Unsupported as ex:
        r['error'] = '%s @ %s' % (ex, C.E.where(C.E.cur) if C.E.cur and C.E.cur.frames else '')
        r['tb'] = traceback.format_exc()
    except RecursionError:
        r['error'] = 'recursion limit'
    except Exception as ex:
        r['error'] = 'internal: %r' % (ex,)
        r['tb'] = traceback.format_exc()
    return finish(r, C, outs, t0)


def finish(r, C, outs, t0):
    r['paths'] = len(outs)
    r['obs'] = [o.as_dict() for o in C.E.obs]
    r['queries'] = C.E.nqueries
    r['solver_time'] = C.E.solver_time
    r['time'] = time.time() - t0
    r['assumed'] = sorted(C.E.assumed)
    r['inlined'] = sorted(C.E.inlined)
    r['loops'] = C.E.loop_cases
    r['bounded'] = C.E.bounded_hit
    return r


# ---------------------------------------------------------------- mutators and the positions of active iterators
class IterSpec:
    """how mutators move the positions of the object's active iterators (any number of them)"""
    # method -> (position p, C) -> new position, as 32-bit term; old size s; only the abstract effect matters
    METHODS = {'push': None, 'pushFront': 1, 'unshift': 1, 'insert': None, 'pop': 0, 'popFront': 0, 'shift': 0, 'offsetUnset': 1, 'set': 2, 'offsetSet': 2, 'reserve': 1, 'shrinkToFit': 0}

    def __init__(self, ad, sp):
        self.ad, self.sp = ad, sp

    def tasks(self, ms):
        extra = getattr(self.ad, 'iter_methods', {})
        return [('iters', m, a) for m, a in sorted({**self.METHODS, **extra}.items()) for m, a in [(m, None if m in ('push', 'pushFront', 'unshift', 'insert') else a)] if m in ms]

    def expected(self, C, m, p):
        """p: 64-bit term of the position before; result: 64-bit term of the new position mod 2^32"""
        size = C.old.size
        inside = ult(p, size)
        if m in getattr(self.ad, 'iter_methods', {}):
            return self.ad.iter_expected(C, m, p)
        argc = zext(C.argc, 64)
        if m in ('pushFront', 'unshift'):
            return ite(inside, add(p, argc), p)
        if m == 'insert':
            i = self.sp.index(C, 0)
            return ite(And(inside, ule(i, p)), add(p, sub(argc, K(1, 64))), p)
        if m in ('popFront', 'shift'):
            return ite(inside, sub(p, K(1, 64)), p)
        if m == 'offsetUnset':
            ok, i = self.sp.offset(C, 0)
            return ite(And(inside, ule(i, p)), sub(p, K(1, 64)), p)
        if m == 'pop':
            # removing the last element: an iterator on it goes back by one (its next element is past the end) or stays past the end
            return None
        return p

    def post(self, C, m, o):
        st = o.st
        n, e = C.fork_exc(st)
        E = C.E
        d = C.mod.di_struct(self.ad.it_struct)
        off, sz = d[self.ad.it_pos]
        for s, ex in ((n, False), (e, True)):
            if s is None:
                continue
            f = E.cell_load(s, C.obj_reg, self.ad.layout(C)[self.ad.pre + 'active_iterators.first'][0], 8, True)
            C.check(s, isinstance(f, Ptr) and f.reg is C.its and eq(f.idx, K(0, 64)), 'post', m + ': the list of active iterators is unchanged')
            k = C.skolem('iterator')
            s = s.copy()
            s.assume(ult(k, C.itn))
            old = C.itpos(k)
            new = E.arr_field(s, C.its, off, sz)[2](k)
            s.ghost['watch'] = dict(s.ghost['watch'], iterator=k, old_position=old, new_position=new)
            p = zext(old, 64)
            if ex:
                C.check(s, eq(new, old), 'post', m + ': iterators do not move when it throws')
                continue
            w = self.expected(C, m, p)
            if w is None:
                last = sub(C.old.size, K(1, 64))
                s1 = s.copy()
                s1.assume(ult(p, last))
                C.check(s1, eq(new, old), 'post', m + ': iterators before the removed element do not move')
                s2 = s.copy()
                s2.assume(Not(ult(p, last)))
                C.check(s2, Or(eq(new, old), And(eq(p, last), eq(add(new, K(1, sz * 8)), old))), 'post', m + ': an iterator at the end stays at the end')
            else:
                C.check(s, eq(new, trunc(w, sz * 8)), 'post', m + ': every active iterator still denotes the same remaining elements')

    def run(self, prog, mods, ms, task, budget, unroll, timeout=15000):
        _, m, na = task
        ad = self.ad
        mod = mods[ad.module]
        label = '%s::%s[active iterators]' % (ad.cls, m)
        t0 = time.time()
        C = Case(prog, mod, label, budget, unroll, timeout)
        C.setup = None
        r = Result(label=label, task=task, error=None)
        outs = []
        try:
            obj = ad.make(C, ad.iters_case(m))
            args = C.frame(na, obj)
            ad.prepare(C, m)
            C.E.fname = ms[m]
            outs = C.E.run(C.st, ms[m], args, mod)
            for o in outs:
                if o.kind == 'ret':
                    C.E.cur = o.st
                    T.NOWRAP = o.st.nowrap
                    self.post(C, m, o)
        except Unsupported as ex:
            r['error'] = '%s @ %s' % (ex, C.E.where(C.E.cur) if C.E.cur and C.E.cur.frames else '')
            r['tb'] = traceback.format_exc()
        except RecursionError:
            r['error'] = 'recursion limit'
        except Exception as ex:
            r['error'] = 'internal: %r' % (ex,)
            r['tb'] = traceback.format_exc()
        return finish(r, C, outs, t0)


def iterator_list(C, ad, obj_cells_reg):
    """n >= 1 active iterators of the object, linked through their dllist nodes in list order"""
    E, st = C.E, C.st
    d = C.mod.di_struct(ad.it_struct)
    n = C.sym('iterators')
    st.assume(And(ule(K(1, 64), n), ule(n, K(0x1000000, 64))))
    its = E.new_region(st, 'active_its', 'ext', stride=d['__size__'][1], length=n)
    s = st.mem[its.id]
    off, sz = d[ad.it_pos]
    P = z3.Function('iterator_position', B64, z3.BitVecSort(sz * 8))
    s.arrs[off] = (sz, lambda k: P(Z(k)))
    node = d['dllist_node.prev'][0]
    dat = d['intern.data'][0]
    oo = ad.layout(C)['std'][0]

    def nxt(E, st, p, size, isp):
        c = ult(add(p.idx, K(1, 64)), n)
        dd = E.decide(st, c)
        if dd is None:
            raise ForkOn(c)
        r = Ptr(its, add(p.idx, K(1, 64)), node, p.ver) if dd else NULL
        return r if isp else E.enc(r)

    def prv(E, st, p, size, isp):
        c = eq(p.idx, K(0, 64))
        dd = E.decide(st, c)
        if dd is None:
            raise ForkOn(c)
        r = NULL if dd else Ptr(its, sub(p.idx, K(1, 64)), node, p.ver)
        return r if isp else E.enc(r)
    its.hooks[d['dllist_node.next'][0]] = nxt
    its.hooks[d['dllist_node.prev'][0]] = prv

    def data(E, st, p, size, isp):
        r = Ptr(obj_cells_reg, off=oo)
        return r if isp else E.enc(r)
    its.hooks[dat] = data

    def nostore(E, st, p, size, v):
        E.check(st, False, 'post', 'the links of active iterators are not written')
    its.shooks[d['dllist_node.next'][0]] = nostore
    its.shooks[d['dllist_node.prev'][0]] = nostore
    C.its, C.itn, C.itpos = its, n, (lambda k: P(Z(k)))
    C.watch['iterators'] = n
    return Ptr(its, K(0, 64), node)
