"""Contracts of EmptySequence, EmptySet and EmptyMap: the collection without elements, which no method can change."""
from ..terms import *
from ..sym import *
from ..specbase import *
from .seq import methods_of
from .handlers import handlers_of, it_funcs, run_case, zval_in, out_cell, HandlerSpec

ANY = (0, 1, 2, 3)
UNSUP = ('set', 'insert', 'push', 'pushFront', 'unshift', 'pop', 'popFront', 'shift', 'offsetSet', 'add')
FAIL = ('get', 'offsetGet', 'first', 'last', 'current', 'key')
ARGC = {'set': 2, 'offsetSet': 2, 'get': 1, 'offsetGet': 1, 'insert': None, 'push': None, 'pushFront': None, 'unshift': None, 'add': 1, 'offsetUnset': 1,
        'offsetExists': 1, 'containsKey': 1, 'contains': 1, 'indexOf': 1, 'remove': 1, 'map': 1}


class EmptySuite:
    module = 'teds_emptycollection'
    also = ('teds_strictheap',)

    def __init__(self, cls, mods, prog):
        self.cls, self.mods, self.prog = cls, mods, prog
        self.mod = mods[self.module]
        self.ms = methods_of(self.mod, cls)
        self.hs = handlers_of(self.mod, cls)

    def tasks(self, part):
        if part == 'methods':
            out = []
            for m in sorted(self.ms):
                if self.cls == 'EmptyMap' and m == 'get':
                    out += [(m, 1), (m, 2)]
                elif m == 'filter':
                    out += [(m, 0), (m, 1)]
                else:
                    out.append((m, ARGC.get(m, 0)))
            return out
        if part == 'dim':
            return [(h, None) for h in ('count_elements', 'read_dimension', 'has_dimension', 'get_properties_for') if h in self.hs] + [('read_dimension', 'append')] * ('read_dimension' in self.hs)
        if part == 'mem':
            return [(h, None) for h in ('create_object', 'get_gc') if h in self.hs]
        return [('get_iterator', None)] + [('it:' + f, None) for f in ('dtor', 'valid', 'next')]

    def obj(self, C):
        E, st = C.E, C.st
        r = E.new_region(st, 'this', 'heap', nbytes=K(40, 64))
        C.obj_reg = r
        return Ptr(r)

    def nothing(self, C, st, msg, adds=()):
        """no effect on anything"""
        C.ownership(st, list(adds), [], msg)

    def run(self, part, t, budget, unroll):
        n, a = t
        label = '%s%s%s[%s]' % (self.cls, '::' if part == 'methods' else ' ', n, 'argc=%s' % ('any' if a is None else a) if part == 'methods' else a or '')
        return run_case(self.prog, self.mod, label, t, lambda C: self.method(C, n, a) if part == 'methods' else self.handler(C, n, a), budget, unroll)

    # ---- methods
    def method(self, C, n, a):
        obj = self.obj(C)
        args = C.frame(a, obj)
        seq = self.cls == 'EmptySequence'

        def post(o):
            st = o.st
            ok, e = C.fork_exc(st)
            tags = [str(x[1]) for x in C.throws(st)]
            if e is not None:
                self.nothing(C, e, n)
                arg = any(x in ('ArgumentError', 'from-error-handler') for x in tags)
                if n in UNSUP or n == 'offsetUnset' and seq:
                    C.check(e, arg or any('UnsupportedOperation' in x for x in tags), 'post', '%s throws UnsupportedOperationException (%s)' % (n, tags))
                elif n in FAIL and not (n == 'get' and self.cls == 'EmptyMap' and a == 2):
                    C.check(e, arg or any(y in x for x in tags for y in ('OutOfBounds', 'Underflow', 'InvalidIndex', 'MissingKey', 'TypeError')), 'post', '%s throws because there is no element (%s)' % (n, tags))
                elif n in ('offsetExists', 'containsKey') and seq:
                    v, t = C.arg(0)
                    b = tbyte(t)
                    bad = Not(Or(eq(b, K(2, 8)), eq(b, K(3, 8)), eq(b, K(4, 8)), eq(b, K(5, 8)), And(eq(b, K(6, 8)), NumStr(Z(v))), eq(b, K(9, 8))))
                    C.check(e, Or(arg, bad), 'post', '%s throws only for an offset of a bad type' % n)
                elif n in ('map', 'filter'):
                    C.check(e, arg or 'TypeError' in tags, 'post', '%s throws only for a bad callback (%s)' % (n, tags))
                else:
                    C.check(e, arg, 'post', '%s does not throw (%s)' % (n, tags))
            if ok is None:
                return
            if n in UNSUP or (n == 'offsetUnset' and seq) or (n in FAIL and not (n == 'get' and self.cls == 'EmptyMap' and a == 2)):
                C.check(ok, False, 'post', n + ' on an empty collection throws')
                return
            v, t = C.retval(ok)
            adds = ()
            if n == 'count':
                C.check(ok, And(eq(t, K(4, 32)), eq(v, K(0, 64))), 'post', 'count() is 0')
            elif n == 'isEmpty':
                C.check(ok, eq(t, K(3, 32)), 'post', 'isEmpty() is true')
            elif n in ('valid', 'contains', 'containsKey', 'offsetExists', 'remove'):
                C.check(ok, eq(t, K(2, 32)), 'post', n + '() is false')
            elif n in ('toArray', 'values', 'keys', 'jsonSerialize'):
                w = array_out(C, ok, *rv_ptr(C, ok), n)
                if w is not None:
                    C.check(ok, eq(w.size, K(0, 64)), 'post', n + '() is []')
            elif n in ('map', 'filter'):
                p, t = rv_ptr(C, ok)
                C.check(ok, And(eq(t, K(0x308, 32)), isinstance(p, Ptr) and p.reg is C.obj_reg), 'post', n + '() is the same empty collection')
                adds = [('one', C.E.enc(Ptr(C.obj_reg)), K(0x308, 32))]
                cnt, _ = C.calls(ok)
                C.check(ok, eq(cnt, K(0, 64)), 'post', n + ' calls no callback')
            elif n == 'get':
                C.check(ok, zeq(v, t, *C.arg(1)), 'post', 'get(key, default) is the default')
                adds = [('one',) + tuple(C.arg(1))]
            elif n in ('indexOf', 'clear', 'next', 'rewind', 'offsetUnset'):
                C.check(ok, eq(t, K(1, 32)), 'post', n + '() returns null')
            else:
                raise Unsupported('no contract for method ' + n)
            self.nothing(C, ok, n, adds)
        return self.ms[n], args, post

    # ---- handlers
    def handler(self, C, h, su):
        E = C.E
        obj = self.obj(C)
        C.old = View(K(0, 64), lambda k: (K(0, 64), K(0, 32)))
        fs = it_funcs(self.mod, self.prog, self.hs['get_iterator'])
        if h.startswith('it:'):
            fn = fs[HandlerSpec.ITFUNCS.index(h[3:])]
            it = Ptr(E.new_region(C.st, 'iterator', 'heap', nbytes=K(C.mod.di_struct('_zend_object_iterator')['__size__'][1], 64)))

            def post(o):
                if h == 'it:valid':
                    C.check(o.st, ne(o.val, K(0, 32)), 'post', 'iteration yields nothing')
                C.check(o.st, Not(C.exc(o.st)), 'post', h + ' does not throw')
                self.nothing(C, o.st, h)
            return fn, [it], post
        fn = self.hs[h]
        if h == 'count_elements':
            p = out_cell(C, 'count', 8)

            def post(o):
                C.check(o.st, And(eq(o.val, K(0, 32)), eq(E.cell_load(o.st, p.reg, 0, 8, False), K(0, 64))), 'post', 'count() is 0')
                self.nothing(C, o.st, h)
            return fn, [obj, p], post
        if h == 'get_properties_for':
            def post(o):
                C.check(o.st, isinstance(o.val, Null), 'post', 'no properties')
                self.nothing(C, o.st, h)
            return fn, [obj, C.sym('purpose', 32)], post
        if h == 'get_gc':
            t, n = out_cell(C, 'gc_table', 8), out_cell(C, 'gc_n', 4)

            def post(o):
                C.check(o.st, And(eq(E.cell_load(o.st, n.reg, 0, 4, False), K(0, 32)), isinstance(o.val, Null)), 'post', 'get_gc reports nothing')
                self.nothing(C, o.st, h)
            return fn, [obj, t, n], post
        if h == 'create_object':
            ce = E.new_region(C.st, 'class_entry', 'ext', nbytes=K(1024, 64))
            g = E.global_ptr(C.st, 'teds_ce_' + self.cls, C.mod)
            C.st.mem[g.reg.id].cells[0] = (8, Ptr(ce))

            def post(o):
                p = o.val
                ok = isinstance(p, Ptr) and p.reg in o.st.ghost.get('newobjs', ())
                C.check(o.st, ok, 'post', 'create_object returns a new object')
                if ok:
                    x = E.cell_load(o.st, p.reg, p.off + 24, 8, True)
                    C.check(o.st, isinstance(x, Ptr) and x.reg.base == '@teds_handler_' + self.cls, 'post', 'object handlers are set')
            return fn, [Ptr(ce)], post
        if h in ('read_dimension', 'has_dimension'):
            p, z = zval_in(C, 'offset', refs=True)
            if su == 'append':
                p = NULL
            v, t = deref(*z)
            b = tbyte(t)
            good = Or(eq(b, K(2, 8)), eq(b, K(3, 8)), eq(b, K(4, 8)), eq(b, K(5, 8)), And(eq(b, K(6, 8)), NumStr(Z(v))), eq(b, K(9, 8))) if self.cls == 'EmptySequence' else True
            ty = C.sym('type', 32)
            if h == 'has_dimension':
                def post(o):
                    ok, e = C.fork_exc(o.st)
                    if e is not None:
                        C.check(e, Or(Not(good), 'from-error-handler' in [str(x[1]) for x in C.throws(e)]), 'post', 'isset throws only for an offset of a bad type')
                    C.check(o.st, eq(o.val, K(0, 32)), 'post', 'isset($x[i]) is false')
                    self.nothing(C, o.st, h)
                return fn, [obj, p, ty], post

            def post(o):
                ok, e = C.fork_exc(o.st)
                if e is not None:
                    C.check(e, Or(ne(ty, K(3, 32)), False if su else Not(good), 'from-error-handler' in [str(x[1]) for x in C.throws(e)]), 'post', '$x[i] ?? does not throw')
                    self.nothing(C, e, h)
                if ok is not None:
                    C.check(ok, eq(ty, K(3, 32)), 'post', '$x[i] of an empty collection throws unless in isset/??')
                    C.check(ok, isinstance(o.val, Ptr) and HandlerSpec.is_uninit(None, C, ok, o.val), 'post', '$x[i] ?? is null')
                    self.nothing(C, ok, h)
            return fn, [obj, p, ty, out_cell(C, 'rv', 16)], post
        if h == 'get_iterator':
            zv = E.new_region(C.st, 'object_zval', 'ext', nbytes=K(16, 64))
            C.st.mem[zv.id].cells[0] = (8, obj)
            C.st.mem[zv.id].cells[8] = (4, K(0x308, 32))
            br = C.sym('by_ref', 32)
            ce = E.new_region(C.st, 'class_entry', 'ext', nbytes=K(1024, 64))

            def post(o):
                ok, e = C.fork_exc(o.st)
                if e is not None:
                    C.check(e, ne(br, K(0, 32)), 'post', 'only iteration by reference is refused')
                    self.nothing(C, e, h)
                if ok is not None:
                    C.check(ok, And(eq(br, K(0, 32)), isinstance(o.val, Ptr) and o.val.reg.kind == 'heap' and o.val.reg is not C.obj_reg), 'post', 'getIterator returns a new iterator')
                    ds = [x for x in ok.ev if x[0] in ('dtor', 'delref', 'rcfree')]
                    C.check(ok, not ds, 'ownership', 'getIterator destroys nothing')
            return fn, [Ptr(ce), Ptr(zv), br], post
        raise Unsupported('no contract for handler ' + h)
