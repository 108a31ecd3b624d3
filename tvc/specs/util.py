"""Contracts of the shared helpers (teds_util.h). Callers use the contract; run_util proves it against the body."""
import z3
from ..terms import *
from ..sym import *
from ..specbase import *
from .handlers import run_case

POW2_MAX = 1 << 31


def pow2_post(n, mn, r):
    """r is the least power of two that is at least n, or mn when n is smaller than mn"""
    return And(ne(r, K(0, 64)), eq(and_(r, sub(r, K(1, 64))), K(0, 64)), ule(n, r), ule(mn, r), ule(r, K(POW2_MAX, 64)),
               Or(eq(r, mn), ult(r, add(n, n))))


def pow2_pre(n, mn):
    return And(ule(n, K(POW2_MAX, 64)), ult(K(1, 64), mn), ule(mn, K(POW2_MAX, 64)), eq(and_(mn, sub(mn, K(1, 64))), K(0, 64)))


def c_pow2(E, st, a, ins):
    n, mn = a
    if isinstance(n, K) and isinstance(mn, K):
        return NotImplemented
    E.check(st, pow2_pre(n, mn), 'pre', 'teds_next_pow2_capacity: size within range, minimum a power of two')
    r = E.fresh('pow2cap', 64)
    st.assume(pow2_post(n, mn, r))
    if E.ring:
        st.ghost['pow2'] = E.ring_masks(st) + (sub(r, K(1, 64)),)
    return r


UTIL = {'teds_next_pow2_capacity': c_pow2}


def util_tasks(mod):
    return [('util', f, None) for f in UTIL if f in mod._bodies]


def run_util(prog, mod, t, budget, unroll):
    def body(C):
        n, mn = C.sym('nSize'), C.sym('min')
        C.assume(pow2_pre(n, mn))
        C.watch.update(nSize=n, min=mn)
        return t[1], [n, mn], lambda o: C.check(o.st, pow2_post(n, mn, o.val), 'post', 'least power of two that fits')
    return run_case(prog, mod, 'contract of %s' % t[1], t, body, budget, unroll)
