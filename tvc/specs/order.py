"""Contracts of stable_compare, strict_equals and strict_hash (teds.c, teds.h), and the lemmas that make them a total order, an equivalence and a compatible hash."""
import time
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from ..models import symm, StrEq, ArrIdentNan
from .handlers import run_case
from .funcs import functions_of

StrRank = z3.Function('string_rank', B64, B64)
ArrRank = z3.Function('array_rank', B64, B64)
StrHash = z3.Function('string_hash', B64, B64)
Mix = z3.Function('mix', B64, B64)
ArrHash = z3.Function('array_hash', B64, B64)
e8 = z3.Function('ext8', B64, B64)
e4 = z3.Function('ext4', B64, B32)
ONE, MINUS, ZERO = K(1, 64), K((1 << 64) - 1, 64), K(0, 64)


def before(i, d):
    """integer i <= double d in the reals (NAN is above every integer)"""
    # the least double not below i is not above d
    d = tofp(d)
    return z3.Or(z3.fpIsNaN(d), z3.fpLEQ(z3.fpSignedToFP(z3.RTP(), Z(i), z3.Float64()), d))


def sgn(lt, e):
    return z3.If(Z(lt), Z(MINUS), z3.If(Z(e), Z(ZERO), Z(ONE)))


def rank(b):
    return z3.If(Z(b) == 5, z3.BitVecVal(4, 8), Z(b))


def spec(v1, t1, v2, t2, kinds=None):
    """the total order: -1, 0 or 1 (kinds: what is known about the types, to keep the formula small)"""
    if kinds == ('int', 'float'):
        return sgn(before(v1, v2), False)
    if kinds == ('float', 'int'):
        return sgn(z3.Not(before(v2, v1)), False)
    b1, b2 = Z(tbyte(t1)), Z(tbyte(t2))
    v1, v2 = Z(v1), Z(v2)
    d1, d2 = tofp(v1), tofp(v2)
    n1, n2 = z3.fpIsNaN(d1), z3.fpIsNaN(d2)
    num = z3.If(b1 == 4,
                z3.If(b2 == 4, sgn(v1 < v2, v1 == v2), sgn(before(v1, v2), False)),
                z3.If(b2 == 4, sgn(z3.Not(before(v2, v1)), False),
                      sgn(z3.Or(z3.fpLT(d1, d2), z3.And(n2, z3.Not(n1))), z3.Or(z3.fpEQ(d1, d2), z3.And(n1, n2)))))
    by = lambda f: sgn(z3.ULT(f(v1), f(v2)), f(v1) == f(v2))
    cls = lambda v: e8(v + 16)
    name = lambda v: StrRank(e8(cls(v) + 8))
    hand = lambda v: e4(v + 8)
    hres = lambda v: e8(v + 8)
    obj = z3.If(v1 == v2, Z(ZERO), sgn(z3.Or(z3.ULT(name(v1), name(v2)), z3.And(name(v1) == name(v2), z3.ULT(hand(v1), hand(v2)))), False))
    same = z3.If(z3.ULE(b1, 3), Z(ZERO), z3.If(b1 == 4, num, z3.If(b1 == 5, num, z3.If(b1 == 6, by(StrRank), z3.If(b1 == 7, by(ArrRank), z3.If(b1 == 8, obj, sgn(hres(v1) < hres(v2), hres(v1) == hres(v2))))))))
    return z3.If(rank(b1) == rank(b2), same, z3.If(z3.ULT(rank(b1), rank(b2)), Z(MINUS), Z(ONE)))


def cmp_result(E, st, x, y):
    r = E.fresh('cmp', 32)
    st.assume(And(eq(slt(r, K(0, 32)), ult(x, y)), eq(eq(r, K(0, 32)), eq(x, y))))
    return r


class OrderSuite:
    module = 'teds'
    also = ()

    def __init__(self, cls, mods, prog):
        self.mods, self.prog = mods, prog
        self.mod = mods[self.module]
        self.fs = functions_of(self.mod)

    TYPES = {'int': (4,), 'float': (5,), 'rest': (1, 2, 3, 6, 0x106, 7, 0x307, 0x308, 0x109)}

    HASH = {'null': (1,), 'bool': (2, 3), 'int': (4,), 'float': (5,), 'string': (6, 0x106), 'array': (7, 0x307), 'object': (0x308,), 'resource': (0x109,)}

    def tasks(self, part):
        return [('stable_compare', a, b) for a in self.TYPES for b in self.TYPES] + \
               [('wrap', 'any', None), ('mix', 'any', None)] + \
               [('strict_equals', 'any', None),  ('equals_cb', 'any', None)] + \
               [('strict_hash', x, None) for x in self.HASH] + [('strict_hash_array', x, None) for x in ('packedfull', 'packed', 'hash')] + \
               [('lemma', x, None) for x in ('order:int', 'order:float', 'order:mixed-lfl', 'order:mixed-flf', 'order:mixed-llf', 'order:mixed-lff', 'order:mixed-ffl', 'order:mixed-fll', 'order:rest', 'equals')]

    def run(self, part, t, budget, unroll):
        f = getattr(self, 't_' + t[0])
        return run_case(self.prog, self.mod, 'Teds\\%s[%s]' % (t[0], ','.join(x for x in t[1:] if x)), t, lambda C: f(C, *t[1:]), budget, unroll, timeout=60000)

    # ---- engine functions
    def engine(self, C):
        E = C.E

        def strcmp_zval(E, st, a, ins):
            return cmp_result(E, st, StrRank(Z(zload(E, st, a[0])[0])), StrRank(Z(zload(E, st, a[1])[0])))

        def strcmp_(E, st, a, ins):
            # (value, length) of two whole strings
            s1, s2 = sub(E.enc(a[0]), K(24, 64)), sub(E.enc(a[2]), K(24, 64))
            for s, l in ((s1, a[1]), (s2, a[3])):
                C.check(st, eq(l, e8(Z(add(s, K(16, 64))))), 'call', 'zend_binary_strcmp gets the length of the string')
            return cmp_result(E, st, StrRank(Z(s1)), StrRank(Z(s2)))

        def hcmp(E, st, a, ins):
            f = a[2].name if isinstance(a[2], Fn) else '?'
            C.check(st, eq(a[3], True) if not isinstance(a[3], bool) else a[3], 'call', 'arrays are compared in order, entry by entry')
            x, y = E.enc(a[0]), E.enc(a[1])
            if f == 'teds_stable_compare_wrap':
                return cmp_result(E, st, ArrRank(Z(x)), ArrRank(Z(y)))
            r = E.fresh('cmp', 32)
            C.check(st, f in ('teds_hash_zval_identical_or_both_nan_function',), 'call', 'elements of arrays are compared with strict_equals (%s)' % f)
            st.assume(eq(eq(r, K(0, 32)), Or(eq(x, y), symm(ArrIdentNan, x, y))))
            return r

        def shash(E, st, a, ins):
            return StrHash(Z(E.enc(a[0])))
        E.contracts.update({'zend_binary_zval_strcmp': strcmp_zval, 'zend_binary_strcmp': strcmp_, 'zend_hash_compare': hcmp, 'zend_string_hash_func': shash})

    def entry(self, C, n, types=None):
        self.engine(C)
        args = C.frame(n)
        for i in range(n):
            v, t = C.arg(i)
            if types:
                C.assume(Or(*[eq(t, K(x, 32)) for x in self.TYPES[types[i]]]))
        # two objects (strings, resources) with the same handle are the same one
        return args

    def live(self, C, vals):
        """engine facts about live values: a handle identifies an object, interned and equal strings have equal rank and hash, a stored hash is the hash"""
        for v, t in vals:
            C.assume(Implies(eq(tbyte(t), K(6, 8)), Or(eq(e8(Z(add(v, K(8, 64)))), K(0, 64)), eq(e8(Z(add(v, K(8, 64)))), StrHash(Z(v))))))
        for i, (v, t) in enumerate(vals):
            for w, u in vals[:i]:
                both = lambda x: And(eq(tbyte(t), K(x, 8)), eq(tbyte(u), K(x, 8)))
                C.assume(Implies(both(8), eq(eq(e4(Z(add(v, K(8, 64)))), e4(Z(add(w, K(8, 64))))), eq(v, w))))
                C.assume(Implies(both(9), eq(eq(e8(Z(add(v, K(8, 64)))), e8(Z(add(w, K(8, 64))))), eq(v, w))))
                l = lambda x: e8(Z(add(x, K(16, 64))))
                seq_ = Or(eq(v, w), And(eq(l(v), l(w)), symm(StrEq, v, w)))
                C.assume(Implies(both(6), And(eq(seq_, eq(StrRank(Z(v)), StrRank(Z(w)))), Implies(seq_, eq(StrHash(Z(v)), StrHash(Z(w)))))))
                C.assume(Implies(And(both(7), Or(eq(v, w), symm(ArrIdentNan, v, w))), eq(ArrHash(Z(v)), ArrHash(Z(w)))))

    # ---- contracts
    def t_stable_compare(self, C, a, b):
        args = self.entry(C, 2, (a, b))
        x, y = C.arg(0), C.arg(1)
        self.live(C, [x, y])

        def post(o):
            v, t = C.retval(o.st)
            C.check(o.st, eq(t, K(4, 32)), 'post', 'stable_compare returns an int')
            C.check(o.st, Z(v) == spec(*x, *y, kinds=(a, b)), 'post', 'stable_compare is the order of the documentation')
            C.check(o.st, C.exc(o.st) is False, 'post', 'stable_compare does not throw')
        return self.fs['stable_compare'], args, post

    def zvals(self, C, refs=True):
        """two zvals in engine memory, possibly references"""
        out = []
        for i in range(2):
            r = C.E.new_region(C.st, 'zval%d' % i, 'ext', nbytes=K(16, 64))
            v, t = C.sym('value%d' % i), C.sym('type%d' % i, 32)
            C.st.mem[r.id].cells[0] = (8, v)
            C.st.mem[r.id].cells[8] = (4, t)
            dv, dt = deref(v, t)
            C.assume(Or(C.E.valid_zval(t), And(eq(t, K(0x10a, 32)), C.E.valid_zval(dt))))
            out.append((Ptr(r), (dv, dt)))
        return out

    def t_wrap(self, C, a, _):
        self.engine(C)
        (p, x), (q, y) = self.zvals(C)
        self.live(C, [x, y])
        F = z3.Function('contract_of_stable_compare', B64, B32, B64, B32, B64)
        seen = []

        def sc(E, st, a, ins):
            v, t = deref(*zload(E, st, a[0]))
            w, u = deref(*zload(E, st, a[1]))
            r = F(Z(v), Z(t), Z(w), Z(u))
            st.assume(Or(eq(r, MINUS), eq(r, ZERO), eq(r, ONE)))
            return r
        C.E.contracts['teds_stable_compare'] = sc

        def post(o):
            C.check(o.st, eq(sext(o.val, 64), F(Z(x[0]), Z(x[1]), Z(y[0]), Z(y[1]))), 'post', 'the comparison given to zend_hash_compare is stable_compare')
        return 'teds_stable_compare_wrap', [p, q], post

    def t_equals_cb(self, C, a, _):
        self.engine(C)
        (p, x), (q, y) = self.zvals(C)
        self.live(C, [x, y])

        def post(o):
            C.check(o.st, eq(eq(o.val, K(0, 32)), identical(*x, *y, nan=True)), 'post', 'the comparison of array elements is 0 exactly for strictly equal values')
        return 'teds_hash_zval_identical_or_both_nan_function', [p, q], post

    def t_strict_equals(self, C, a, _):
        args = self.entry(C, 2)
        x, y = C.arg(0), C.arg(1)
        self.live(C, [x, y])

        def post(o):
            v, t = C.retval(o.st)
            C.check(o.st, Or(eq(t, K(2, 32)), eq(t, K(3, 32))), 'post', 'strict_equals returns a bool')
            C.check(o.st, eq(eq(t, K(3, 32)), identical(*x, *y, nan=True)), 'post', 'strict_equals is === with NAN equal to NAN')
        return self.fs['strict_equals'], args, post

    def t_strict_hash(self, C, a, _):
        args = self.entry(C, 1)
        E = C.E
        fn = self.fs['strict_hash']

        def harr(E, st, a, ins):
            # contract: no cycle, the hash of the contents (lemma on arrays: bounded)
            return ArrHash(Z(E.enc(a[0])))
        E.contracts['teds_strict_hash_array'] = harr
        E.contracts['teds_inline_hash_of_uint64'] = lambda E, st, a, ins: Mix(Z(a[0]))
        w, u = C.sym('other_value'), C.sym('other_type', 32)
        C.assume(Or(*[eq(C.arg(0)[1], K(x, 32)) for x in self.HASH[a]]))
        C.assume(Or(*[eq(u, K(x, 32)) for x in self.HASH[a]]))
        C.assume(E.valid_zval(u))
        x = C.arg(0)
        self.live(C, [x, (w, u)])
        C.assume(identical(*x, w, u, nan=True))

        def post(o):
            v, t = C.retval(o.st)
            C.check(o.st, eq(t, K(4, 32)), 'post', 'strict_hash returns an int')
            st = o.st
            r2 = E.new_region(st, 'return_value2', 'ext', nbytes=K(16, 64))
            x2 = E.new_region(st, 'execute_data2', 'ext', stride=16, header=80)
            s = st.mem[x2.id]
            s.len = K(1, 64)
            s.cells[44] = (4, K(1, 32))
            s.arrs[0] = (8, lambda k: w)
            s.arrs[8] = (4, lambda k: u)
            st.mem[r2.id].cells[8] = (4, K(1, 32))
            st.mem[r2.id].cells[0] = (8, C.sym('rv_junk2'))
            for o2 in E.run(st, fn, [Ptr(x2), Ptr(r2)], self.mod):
                if o2.kind != 'ret':
                    continue
                v2 = E.cell_load(o2.st, r2, 0, 8, False)
                C.check(o2.st, eq(v, v2), 'post', 'strictly equal values have equal strict_hash')
        return fn, args, post

    def t_mix(self, C, a, _):
        x = C.sym('x')

        def post(o):
            todo, names, seen = [Z(o.val)], set(), set()
            while todo:
                y = todo.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(y.decl().name())
                todo.extend(y.children())
            C.check(o.st, names <= {'x'} and not o.st.ev, 'post', 'the mixing step of the hash depends on its argument only')
        return 'teds_inline_hash_of_uint64', [x], post

    def t_strict_hash_array(self, C, kind, _):
        """an array hashes like the compact array with the same keys and values (so two strictly equal arrays hash alike, whatever their layouts)"""
        E = C.E
        E.contracts['teds_inline_hash_of_uint64'] = lambda E, st, a, ins: Mix(Z(a[0]))
        EH = z3.Function('element_hash', B64, B32, B64)

        def inner(E, st, a, ins):
            v, t = deref(*zload(E, st, a[0]))
            return EH(Z(v), Z(t))
        E.contracts['teds_strict_hash_inner'] = inner
        A = array_value(C, kind, 'a')
        B = array_value(C, 'hashfull', 'b')
        st = C.st
        C.assume(eq(A.num, B.num))
        out = E.new_region(st, 'has_cycle', 'ext', nbytes=K(1, 64))
        st.mem[out.id].cells[0] = (1, K(0, 8))
        for h in (A, B):
            # B: immutable (the flags only decide about recursion protection)
            st.mem[h.reg.id].cells[4] = (4, C.sym('gc_flags', 32) if h is A and kind.endswith('full') else K(0x47, 32))
        packed = kind.startswith('packed')
        num = lambda h, i: i if h is A and packed else h.h(i)
        strk = lambda h, i: K(0, 64) if h is A and packed else h.key(i)
        # k-th elements: same key, strictly equal value (the hash of the value is the same by induction on the nesting depth)
        keyhash = lambda h, i: ite(eq(strk(h, i), K(0, 64)), num(h, i), StrHash(Z(strk(h, i))))
        for h in (A, B):
            if not (h is A and packed):
                st.facts.append(Fact(lambda j, h=h: Implies(And(ult(j, h.used), ne(h.key(j), K(0, 64))), And(eq(h.h(j), StrHash(Z(h.key(j)))), eq(e8(Z(add(h.key(j), K(8, 64)))), StrHash(Z(h.key(j)))))), [(h.tfun, 0, lambda j: j)], 'a string key has its hash computed'))
        st.facts.append(Fact(lambda j: Implies(And(ult(j, A.used), A.defined(j)), And(eq(keyhash(A, j), keyhash(B, A.rank(j))), eq(EH(*map(Z, A.val(j))), EH(*map(Z, B.val(A.rank(j))))))), [(A.tfun, 0, lambda j: j)], 'strictly equal arrays'))

        def gens(v):
            todo, outd, seen = [Z(v)], [], set()
            while todo:
                y = todo.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                if z3.is_app(y) and y.decl().name().startswith('H:') and y.num_args() == 1 and y.sort() == B64:
                    outd.append(y)
                todo.extend(y.children())
            return outd

        def post(o):
            r1 = o.val
            C.check(o.st, eq(E.cell_load(o.st, out, 0, 1, False), K(0, 8)), 'post', 'no cycle is reported')
            for o2 in E.run(o.st, 'teds_strict_hash_array', [Ptr(B.reg), NULL, Ptr(out)], self.mod):
                if o2.kind != 'ret':
                    continue
                s = o2.st
                g1, g2 = gens(r1), gens(o2.val)
                if len(g1) == 1 and len(g2) == 1:
                    (x, y) = g1[0], g2[0]
                    H1, H2 = x.decl(), y.decl()
                    C.check(s, And(eq(x.arg(0), A.used), eq(y.arg(0), B.used)), 'post', 'every slot is hashed')
                    C.check(s, H1(Z(K(0, 64))) == H2(Z(K(0, 64))), 'post', 'induction: base')
                    k = C.skolem()
                    s2 = s.copy()
                    s2.assume(And(ult(k, A.used), H1(Z(k)) == H2(Z(A.rank(k)))))
                    C.check(s2, H1(Z(add(k, K(1, 64)))) == H2(Z(A.rank(add(k, K(1, 64))))), 'post', 'induction: equal elements keep the hashes equal')
                    # by induction; a loop that ran over all slots ends with the value for all slots
                    s.assume(H1(Z(A.used)) == H2(Z(A.num)))
                    C.check(s, eq(A.rank(A.used), A.num), 'post', 'all elements are counted')
                    C.check(s, And(eq(r1, x), eq(o2.val, y)), 'post', 'the result is that of the last step')
                    continue
                C.check(s, eq(r1, o2.val), 'post', 'strictly equal arrays have equal strict_hash')
        return 'teds_strict_hash_array', [Ptr(A.reg), NULL, Ptr(out)], post

    # ---- lemmas
    def t_lemma(self, C, which, _):
        self.engine(C)
        st = C.st
        vs = [(C.sym('v%d' % i), C.sym('t%d' % i, 32)) for i in range(3)]
        for v, t in vs:
            st.assume(C.E.valid_zval(t))
        self.live(C, vs)
        st = C.st
        kn = [None] * 3
        S = lambda i, j: spec(*vs[i], *vs[j], kinds=(kn[i], kn[j]))
        isn = lambda i, x: eq(tbyte(vs[i][1]), K(x, 8))

        def post(o):
            if which == 'equals':
                I = lambda i, j: identical(*vs[i], *vs[j], nan=True)
                C.check(st, I(0, 0), 'lemma', 'strict_equals is reflexive')
                C.check(st, eq(I(0, 1), I(1, 0)), 'lemma', 'strict_equals is symmetric')
                s = st.copy()
                e = lambda i, j: symm(StrEq, vs[i][0], vs[j][0])
                n = lambda i, j: symm(ArrIdentNan, vs[i][0], vs[j][0])
                s.assume(Implies(And(e(0, 1), e(1, 2)), Or(eq(vs[0][0], vs[2][0]), e(0, 2))))
                s.assume(Implies(And(n(0, 1), n(1, 2)), Or(eq(vs[0][0], vs[2][0]), n(0, 2))))
                s.assume(And(I(0, 1), I(1, 2)))
                C.check(s, I(0, 2), 'lemma', 'strict_equals is transitive')
                s = st.copy()
                s.assume(And(ne(tbyte(vs[0][1]), K(7, 8)), eq(Z(S(0, 1)), ZERO)))
                C.check(s, I(0, 1), 'lemma', 'stable_compare is 0 only for strictly equal values')
                s = st.copy()
                s.assume(And(ne(tbyte(vs[0][1]), K(7, 8)), I(0, 1)))
                C.check(s, eq(Z(S(0, 1)), ZERO), 'lemma', 'strictly equal values compare as 0')
                return
            kind = which.split(':')[1]
            s = st.copy()
            if kind == 'rest':
                s.assume(Not(And(*[Or(isn(i, 4), isn(i, 5)) for i in range(3)])))
            else:
                code = {'int': 'lll', 'float': 'fff'}.get(kind, kind[-3:])
                for i, c in enumerate(code):
                    s.assume(isn(i, 4 if c == 'l' else 5))
                    kn[i] = 'int' if c == 'l' else 'float'
            C.check(s, Z(S(0, 0)) == 0, 'lemma', 'stable_compare is reflexive (%s)' % kind)
            C.check(s, Z(S(0, 1)) == -Z(S(1, 0)), 'lemma', 'stable_compare is antisymmetric (%s)' % kind)
            s2 = s.copy()
            s2.assume(And(Z(S(0, 1)) <= 0, Z(S(1, 2)) <= 0))
            C.check(s2, Z(S(0, 2)) <= 0, 'lemma', 'stable_compare is transitive (%s)' % kind)
        # run any function without loops to get an outcome: the lemma is about the contract only
        args = C.frame(2)
        return self.fs['is_same_array_handle'], args, lambda o: None if C.__dict__.get('done') else (setattr(C, 'done', 1), post(o))
