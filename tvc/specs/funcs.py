"""Contracts of the functions of teds.c over arrays and Traversables (any, all, none, find, fold, includes_value, array_value_first/last)."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from ..execu import Bulk, ev_subst, x_subst
from ..models import IsTrue
from .handlers import run_case

ARR = ('packedfull', 'packed', 'hash')


def functions_of(mod):
    t, v, c = mod.ginit('ext_functions')
    out = {}
    for _, e in v[1]:
        if e[0] != 'agg':
            continue
        (_, nm), (_, fn) = e[1][0], e[1][1]
        if nm[0] != 'glob' or fn[0] != 'glob':
            continue
        _, sv, _ = mod.ginit(nm[1][1:])
        out[bytes(sv[1]).rstrip(b'\0').decode().replace('Teds\\', '').lower()] = fn[1][1:]
    return out


class Src:
    """the values of the input in order: slot i < n counts when defined(i)"""

    def __init__(self, n, defined, val, num, tfun=None):
        self.n, self.defined, self.val, self.num, self.tfun = n, defined, val, num, tfun


def source(C, su):
    if su == 'trav':
        trav_arg(C, 0)
        return Src(C.trav.size, lambda i: True, C.trav.at, C.trav.size)
    h = array_arg(C, 0, su)
    return Src(h.used, h.defined, h.val, h.num, None if h.full else h.tfun)


def trace(C, st):
    """events of the path as parts: (first slot, number of slots, slot -> [(condition, event)]) for loops, (None, 1, [(True, event)]) for single events"""
    return [('loop', e[1]) if e[0] == 'bulk' else ('one', e) for e in st.ev]


def cancel(C, st):
    """drop matching addref/dtor pairs: every dtor of a refcounted value is paired with exactly one earlier addref of it"""
    out = []

    def reduce(s, evs):
        """evs: [(cond, event)] in order"""
        evs = list(evs)
        for d in list(evs):
            if d[1][0] != 'dtor':
                continue
            cd, (_, vd, td) = d[0], d[1][:3]
            i = next(n for n, x in enumerate(evs) if x is d)
            cand = []
            for a in evs[:i]:
                if a[1][0] == 'addref':
                    s2 = s.copy()
                    s2.assume(And(cd, a[0]))
                    if not C.E.feasible(s, And(cd, a[0])):
                        continue
                    if C.prov(s2, eq(a[1][1], vd)):
                        cand.append(a)
            conds = [a[0] for a in cand]
            if not cand:
                continue
            s2 = s.copy()
            s2.assume(cd)
            if all(C.prov(s2, Not(And(conds[x], conds[y]))) for x in range(len(conds)) for y in range(x)) and C.prov(s2, eq(Or(*conds), refcounted(td)) if not isinstance(Or(*conds), bool) and not isinstance(refcounted(td), bool) else And(Implies(Or(*conds), refcounted(td)), Implies(refcounted(td), Or(*conds)))):
                # conditions outside cd: the addref may also happen when the dtor does not
                rest = []
                for x in evs:
                    if x is d:
                        continue
                    if any(x is a for a in cand):
                        c = And(x[0], Not(cd))
                        if C.E.feasible(s, c):
                            rest.append((c, x[1]))
                        continue
                    rest.append(x)
                evs = rest
        return evs
    evs = []
    for e in st.ev:
        if e[0] == 'bulk':
            b = e[1]
            j = C.skolem('j')
            s = st.copy()
            s.assume(ult(j, b.N))
            pr = [(Z(b.n), Z(j))]
            back = [(Z(j), Z(b.n))]
            lst = reduce(s, [(x_subst(c, pr), ev_subst(x, pr)) for c, x in b.evs])
            evs.append((True, ('bulk', Bulk(b.n, b.N, [(x_subst(c, back), ev_subst(x, back)) for c, x in lst]))))
        else:
            evs.append((True, e))
    evs = reduce(st, evs)
    s = st.copy()
    s.ev = [e for c, e in evs]
    return s


class FuncSuite:
    module = 'teds'
    also = ('teds_stricthashset',)

    def __init__(self, cls, mods, prog):
        self.mods, self.prog = mods, prog
        self.mod = mods[self.module]
        self.fs = functions_of(self.mod)

    def tasks(self, part):
        out = []
        for f in ('all', 'any', 'none'):
            out += [(f, a, su) for a in (1, 2) for su in ARR + ('trav',)]
        out += [('includes_value', 2, su) for su in ARR + ('trav',)]
        out += [('find', a, su) for a in (2, 3) for su in ARR + ('trav',)]
        out += [('fold', 3, su) for su in ARR + ('trav',)]
        out += [(f, 1, su) for f in ('array_value_first', 'array_value_last') for su in ARR]
        return [t for t in out if t[0] in self.fs]

    def run(self, part, t, budget, unroll):
        f, a, su = t
        return run_case(self.prog, self.mod, 'Teds\\%s[argc=%d,%s]' % t, t, lambda C: self.body(C, f, a, su), budget, unroll)

    def body(self, C, f, a, su):
        args = C.frame(a)
        S = source(C, su)
        if f.startswith('array_value') and S.tfun is not None:
            # an array with an element has a slot with an element
            W = C.sym('some_slot')
            C.assume(Implies(ne(S.num, K(0, 64)), And(ult(W, S.n), S.defined(W))))
        g = getattr(self, 'f_' + f)

        def post(o):
            n, e = C.fork_exc(o.st)
            if e is not None:
                tg = [str(x[1]) for x in C.throws(e)] + [str(x[1]) for b in e.ev if b[0] == 'bulk' for _, x in b[1].evs if x[0] == 'throw']
                ok = any(x in ('ArgumentError', 'TypeError', 'from-error-handler', 'from-callback', 'from-iterator', 'from-destructor') for x in tg)
                C.check(e, ok, 'post', '%s throws only what its callback, iterator or argument parsing throws (%s)' % (f, ','.join(tg)))
                self.calls_ok(C, e, S, f, None, exc=True, arg=1 if f == 'fold' else 0)
            if n is not None:
                g(C, n, S, a)
        return self.fs[f], args, post

    # ---- the calls of the callback
    def calls(self, C, st):
        """[(number of slots covered, slot offset -> [(condition, args, rv, rt)])]"""
        out = []
        for e in st.ev:
            if e[0] == 'call':
                out.append((None, lambda k, e=e: [(True,) + e[1:]]))
            elif e[0] == 'bulk' and any(x[0] == 'call' for _, x in e[1].evs):
                def f(k, b=e[1]):
                    pr = [(Z(b.n), Z(k))]
                    return [(x_subst(c, pr),) + ev_subst(x, pr)[1:] for c, x in b.evs if x[0] == 'call']
                out.append((e[1].N, f))
        return out

    def calls_ok(self, C, st, S, name, stop, exc=False, arg=0, each=None):
        """the callback is called with the elements in order, once each, from the first one on; returns the slot after the last call.
        each(state, slot, args, rv, rt, last) is checked for every call"""
        pos = K(0, 64)
        parts = self.calls(C, st)
        for i, (N, f) in enumerate(parts):
            if N is None:
                (c, a, rv, rt), = f(K(0, 64))
                # skip slots without element
                for _ in range(2):
                    if C.prov(st, And(ult(pos, S.n), S.defined(pos))):
                        break
                    pos = add(pos, K(1, 64))
                C.check(st, And(ult(pos, S.n), S.defined(pos), zeq(*deref(*a[arg]), *S.val(pos))), 'post', name + ': calls the callback with the next element')
                if each and rv is not None:
                    each(st, pos, a, rv, rt, i == len(parts) - 1)
                pos = add(pos, K(1, 64))
                continue
            j = C.skolem('j')
            s = st.copy()
            s.assume(ult(j, N))
            slot = add(pos, j)
            cs = f(j)
            got = Or(*[c for c, *_ in cs])
            C.check(s, And(ult(slot, S.n), exc or Implies(S.defined(slot), got), Implies(got, S.defined(slot))), 'post', name + ': one call per element')
            for x in range(len(cs)):
                for y in range(x):
                    C.check(s, Not(And(cs[x][0], cs[y][0])), 'post', name + ': at most one call per element')
                s2 = s.copy()
                s2.assume(cs[x][0])
                C.check(s2, zeq(*deref(*cs[x][1][arg]), *S.val(slot)), 'post', name + ': calls in order with the elements')
                if each and cs[x][2] is not None:
                    each(s2, slot, cs[x][1], cs[x][2], cs[x][3], False)
            pos = add(pos, N)
        return pos, len(parts)

    def own(self, C, st, S, name, adds, results=True):
        """balanced references; the result of every call is released once"""
        s = cancel(C, st)
        s = s.copy()
        # a call result is owned by the function
        ev = []
        for e in s.ev:
            if e[0] == 'call' and e[2] is not None and results:
                ev.append(('addref', e[2], e[3]))
            elif e[0] == 'bulk':
                b = e[1]
                ev.append(('bulk', Bulk(b.n, b.N, [(c if x[0] != 'call' or x[2] is None else And(c, refcounted(x[3])), ('addref', x[2], x[3]) if x[0] == 'call' and x[2] is not None and results else x) for c, x in b.evs])))
            else:
                ev.append(e)
        out = []
        for e in ev:
            if e[0] == 'addref' and e in [x for x in ev if x[0] == 'addref'] and e not in st.ev:
                # owned result: refcounted or not is decided by its type
                rc = C.settle(s, refcounted(e[2]))
                if rc is False:
                    continue
                if rc is None:
                    hit = [d for d in ev if d[0] == 'dtor' and C.prov(s, eq(d[1], e[1]))]
                    if hit:
                        ev = [d for d in ev if d is not hit[0]]
                        out = [d for d in out if d is not hit[0]]
                        s.ev = [d for d in s.ev if d is not hit[0]]
                        s.ghost.setdefault('x', None)
                        out.append(('drop', hit[0]))
                        continue
            out.append(e)
        drops = [d[1] for d in out if d[0] == 'drop']
        s.ev = [e for e in out if e[0] != 'drop' and not any(e is d for d in drops)]
        s = cancel(C, s)
        C.ownership(s, adds, [], name)

    # ---- contracts
    def until(self, C, st, S, a, name, stop, negate):
        v, t = C.retval(st)
        C.check(st, Or(eq(t, K(3, 32)), eq(t, K(2, 32))), 'post', name + ' returns bool')
        hit = eq(t, K(3 if stop ^ negate else 2, 32))
        called = any(e[0] == 'call' or e[0] == 'bulk' and any(x[0] == 'call' for _, x in e[1].evs) for e in st.ev)
        truth = lambda v, t: IsTrue(Z(v), Z(t)) if stop else Not(IsTrue(Z(v), Z(t)))
        null_cb = True if a == 1 else eq(tbyte(C.arg(1)[1]), K(1, 8))
        if called:
            last = []

            def each(s, slot, args, rv, rt, final):
                if final:
                    last.append(truth(rv, rt))
                    # a later call only if the answer was still open
                else:
                    C.check(s, Not(truth(rv, rt)), 'post', name + ': goes on only while the answer is open')
            pos, np_ = self.calls_ok(C, st, S, name, stop, each=each)
            final = last[-1] if last else False
            s = st.copy()
            s.assume(hit)
            if C.E.feasible(st, hit):
                C.check(s, final, 'post', name + ': stops because the last result decided')
            s = st.copy()
            s.assume(Not(hit))
            if C.E.feasible(st, Not(hit)):
                C.check(s, Not(final), 'post', name + ': no result decided')
                self.exhausted(C, s, S, pos, name)
        else:
            k = C.skolem()
            s = st.copy()
            s.assume(And(ult(k, S.n), S.defined(k), Not(hit)))
            cb = Not(null_cb)
            C.check(s, And(Or(null_cb, False), Not(truth(*S.val(k)))), 'post', name + ': the other answer only when no element decides')
            s = st.copy()
            s.assume(hit)
            if C.E.feasible(st, hit):
                wit = C.witness(s, lambda k: And(ult(k, S.n), S.defined(k), truth(*S.val(k))))
                C.check(s, And(null_cb, wit), 'post', name + ': some element decides')
        self.own(C, st, S, name, [])

    def exhausted(self, C, s, S, pos, name):
        """no element at or after pos"""
        k = C.skolem()
        s = s.copy()
        s.assume(And(ule(pos, k), ult(k, S.n)))
        C.check(s, Not(S.defined(k)), 'post', name + ': every element was looked at')

    def f_all(self, C, st, S, a):
        self.until(C, st, S, a, 'all', 0, 0)

    def f_any(self, C, st, S, a):
        self.until(C, st, S, a, 'any', 1, 0)

    def f_none(self, C, st, S, a):
        self.until(C, st, S, a, 'none', 1, 1)

    def f_includes_value(self, C, st, S, a):
        v, t = C.retval(st)
        C.check(st, Or(eq(t, K(3, 32)), eq(t, K(2, 32))), 'post', 'includes_value returns bool')
        same = lambda k: identical(*C.arg(1), *S.val(k))
        k = C.skolem()
        s = st.copy()
        s.assume(And(ult(k, S.n), S.defined(k), eq(t, K(2, 32))))
        C.check(s, Not(same(k)), 'post', 'includes_value: false only when no element is identical')
        s = st.copy()
        s.assume(eq(t, K(3, 32)))
        if C.E.feasible(st, eq(t, K(3, 32))):
            C.check(s, C.witness(s, lambda k: And(ult(k, S.n), S.defined(k), same(k))), 'post', 'includes_value: true only when some element is identical')
        self.own(C, st, S, 'includes_value', [])

    def f_find(self, C, st, S, a):
        rv = C.retval(st)
        last = []

        def each(s, slot, args, r, rt, final):
            if final:
                last.append((slot, IsTrue(Z(r), Z(rt))))
            else:
                C.check(s, Not(IsTrue(Z(r), Z(rt))), 'post', 'find: goes on only while nothing is found')
        pos, _ = self.calls_ok(C, st, S, 'find', 1, each=each)
        dflt = C.arg(2) if a == 3 else (K(0, 64), K(1, 32))
        fin = last[-1][1] if last else False
        for c, want in ((fin, lambda: S.val(last[-1][0])), (Not(fin), lambda: dflt)):
            if isinstance(c, bool):
                if not c:
                    continue
                s = st
            else:
                if not C.E.feasible(st, c):
                    continue
                s = st.copy()
                s.assume(c)
            w = want()
            C.check(s, zeq(*rv, *w), 'post', 'find returns the first element for which the callback holds, or the default')
            if c is not fin:
                self.exhausted(C, s, S, pos, 'find')
            self.own(C, s, S, 'find', [('one',) + tuple(w)])

    def f_fold(self, C, st, S, a):
        rv = C.retval(st)
        res = []
        carry = [C.arg(2)]

        def each(s, slot, args, r, rt, final):
            if final:
                res.append((r, rt))
        pos, n = self.calls_ok(C, st, S, 'fold', None, arg=1, each=each)
        self.exhausted(C, st, S, pos, 'fold')
        parts = self.calls(C, st)
        if not parts:
            C.check(st, zeq(*rv, *C.arg(2)), 'post', 'fold of nothing is the initial value')
            self.own(C, st, S, 'fold', [('one',) + tuple(C.arg(2))])
            return
        # the first argument of each call is the result of the previous one (the initial value at first)
        carry = C.arg(2)
        for N, f in parts:
            if N is None:
                (c, a_, r, rt), = f(K(0, 64))
                C.check(st, zeq(*a_[0], *carry), 'post', 'fold: carries the last result')
                carry = (r, rt)
                continue
            k = C.skolem('j')
            s = st.copy()
            s.assume(ult(k, N))
            for c, a_, r, rt in f(k):
                s2 = s.copy()
                s2.assume(And(c, eq(k, K(0, 64))))
                if C.E.feasible(s2, True):
                    C.check(s2, zeq(*a_[0], *carry), 'post', 'fold: the first call gets the initial value')
                for c1, a1, r1, rt1 in f(sub(k, K(1, 64))):
                    s3 = s.copy()
                    s3.assume(And(c1, ult(K(0, 64), k)))
                    if C.E.feasible(s3, True):
                        C.check(s3, zeq(*a_[0], r1, rt1), 'post', 'fold: carries the last result')
            # slots without an element leave the carried value alone: what the call in slot k gets (or would get) is what the one in slot k-1 got
            gap = S.tfun is not None
            if gap:
                a_, a1 = f(k)[0][1], f(sub(k, K(1, 64)))[0][1]
                s3 = s.copy()
                s3.assume(And(Not(Or(*[x[0] for x in f(sub(k, K(1, 64)))])), ult(K(0, 64), k)))
                C.check(s3, zeq(*a_[0], *a1[0]), 'post', 'fold: a slot without an element changes nothing')
            l = sub(N, K(1, 64))
            cs = f(l)
            if not C.prov(st, ult(K(0, 64), N)):
                cs = [(And(c, ult(K(0, 64), N)), a_, r, rt) for c, a_, r, rt in cs] + [(eq(N, K(0, 64)), None) + tuple(carry)]
            v, t = cs[0][2:]
            if gap:
                v, t = cs[0][1][0]
            for c, _, r, rt in cs[0 if gap else 1:]:
                v, t = ite(c, r, v), ite(c, rt, t)
            carry = (v, t)
        C.check(st, zeq(*rv, *carry), 'post', 'fold returns the last result')

    def end(self, C, st, S, name, first):
        v, t = C.retval(st)
        if C.E.feasible(st, eq(S.num, K(0, 64))):
            s = st.copy()
            s.assume(eq(S.num, K(0, 64)))
            C.check(s, eq(t, K(1, 32)), 'post', name + ' of an empty array is null')
        # F: the first (last) slot with an element, a ghost of the input
        F = C.skolem('F')
        s = st.copy()
        s.assume(And(ne(S.num, K(0, 64)), ult(F, S.n), S.defined(F)))
        if C.E.feasible(s, True):
            if S.tfun is not None:
                s.facts.append(Fact(lambda j: Implies(And(ult(j, S.n), ult(j, F) if first else ult(F, j)), Not(S.defined(j))), [(S.tfun, 0, lambda j: j)], 'F is the first slot' if first else 'F is the last slot'))
            else:
                s.assume(eq(F, K(0, 64) if first else sub(S.n, K(1, 64))))
            C.check(s, zeq(v, t, *S.val(F)), 'post', name + ' returns the ' + ('first' if first else 'last') + ' element')
            self.own(C, s, S, name, [('one',) + tuple(S.val(F))])

    def f_array_value_first(self, C, st, S, a):
        self.end(C, st, S, 'array_value_first', True)

    def f_array_value_last(self, C, st, S, a):
        self.end(C, st, S, 'array_value_last', False)
