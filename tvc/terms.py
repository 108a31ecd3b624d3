"""Machine-integer terms: constants K(v,w) folded in Python, everything else z3 bit-vectors; booleans are bool or z3 Bool."""
import z3


NOWRAP = {}   # id -> (64-bit term proved to fit in w bits on the loop iterations where it is used, w)


class K:
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v = v & ((1 << w) - 1)
        self.w = w

    def __repr__(self):
        return '%d:i%d' % (self.v, self.w)

    def __eq__(self, o):
        return isinstance(o, K) and o.v == self.v and o.w == self.w

    def __hash__(self):
        return hash((self.v, self.w))


def k64(v):
    return K(v, 64)


def isbv(a):
    return isinstance(a, K) or (z3.is_expr(a) and z3.is_bv(a))


def width(a):
    return a.w if isinstance(a, K) else a.size()


def Z(a):
    if isinstance(a, K):
        return z3.BitVecVal(a.v, a.w)
    return a


def ZB(a):
    if isinstance(a, bool):
        return z3.BoolVal(a)
    return a


def norm(a):
    if not isinstance(a, K) and z3.is_bv_value(a):
        return K(a.as_long(), a.size())
    return a


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def same(a, b):
    if isinstance(a, K) or isinstance(b, K):
        return a == b if isinstance(a, K) and isinstance(b, K) else False
    return a.eq(b)


def add(a, b):
    if isinstance(a, K):
        if isinstance(b, K):
            return K(a.v + b.v, a.w)
        if a.v == 0:
            return b
        a, b = b, a
    if isinstance(b, K):
        if b.v == 0:
            return a
        # (x + c1) + c2
        if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            return add(a.arg(0), K(a.arg(1).as_long() + b.v, b.w))
        return a + Z(b)
    # x + (y - x)
    if z3.is_app_of(b, z3.Z3_OP_BSUB) and b.num_args() == 2 and b.arg(1).eq(a):
        return norm(b.arg(0))
    return a + b


def neg(a):
    if isinstance(a, K):
        return K(-a.v, a.w)
    return -a


def sub(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return K(a.v - b.v, a.w)
    if isinstance(b, K):
        return add(a, K(-b.v, b.w))
    if not isinstance(a, K):
        if a.eq(b):
            return K(0, a.size())
        if z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2:
            if a.arg(0).eq(b):
                return norm(a.arg(1))
            if a.arg(1).eq(b):
                return norm(a.arg(0))
    return Z(a) - Z(b)


def mul(a, b):
    if isinstance(a, K):
        if isinstance(b, K):
            return K(a.v * b.v, a.w)
        a, b = b, a
    if isinstance(b, K):
        if b.v == 0:
            return b
        if b.v == 1:
            return a
    return Z(a) * Z(b)


def and_(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return K(a.v & b.v, a.w)
    if isinstance(a, K):
        a, b = b, a
    if isinstance(b, K):
        if b.v == 0:
            return b
        if b.v == (1 << b.w) - 1:
            return a
    return Z(a) & Z(b)


def or_(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return K(a.v | b.v, a.w)
    if isinstance(a, K):
        a, b = b, a
    if isinstance(b, K) and b.v == 0:
        return a
    return Z(a) | Z(b)


def xor(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return K(a.v ^ b.v, a.w)
    if isinstance(b, K) and b.v == 0:
        return a
    return Z(a) ^ Z(b)


def shl(a, b):
    if isinstance(b, K):
        if b.v >= b.w:
            return K(0, b.w)
        if isinstance(a, K):
            return K(a.v << b.v, a.w)
        if b.v == 0:
            return a
    return Z(a) << Z(b)


def lshr(a, b):
    if isinstance(b, K):
        if b.v >= b.w:
            return K(0, b.w)
        if isinstance(a, K):
            return K(a.v >> b.v, a.w)
        if b.v == 0:
            return a
    return z3.LShR(Z(a), Z(b))


def ashr(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return K(sgn(a.v, a.w) >> min(b.v, b.w - 1), a.w)
    return Z(a) >> Z(b)


def udiv(a, b):
    if isinstance(a, K) and isinstance(b, K) and b.v:
        return K(a.v // b.v, a.w)
    if isinstance(b, K) and b.v and b.v & (b.v - 1) == 0:
        return lshr(a, K(b.v.bit_length() - 1, b.w))
    return z3.UDiv(Z(a), Z(b))


def urem(a, b):
    if isinstance(a, K) and isinstance(b, K) and b.v:
        return K(a.v % b.v, a.w)
    if isinstance(b, K) and b.v and b.v & (b.v - 1) == 0:
        return and_(a, K(b.v - 1, b.w))
    return z3.URem(Z(a), Z(b))


def sdiv(a, b):
    if isinstance(a, K) and isinstance(b, K) and b.v:
        x, y = sgn(a.v, a.w), sgn(b.v, b.w)
        q = abs(x) // abs(y)
        return K(q if (x < 0) == (y < 0) else -q, a.w)
    return Z(a) / Z(b)


def srem(a, b):
    if isinstance(a, K) and isinstance(b, K) and b.v:
        x, y = sgn(a.v, a.w), sgn(b.v, b.w)
        r = abs(x) % abs(y)
        return K(-r if x < 0 else r, a.w)
    return z3.SRem(Z(a), Z(b))


def zext(a, w):
    if isinstance(a, bool):
        return K(int(a), w)
    if isinstance(a, K):
        return K(a.v, w)
    if z3.is_bool(a):
        return z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if a.size() == w:
        return a
    if NOWRAP and a.decl().kind() == z3.Z3_OP_EXTRACT and a.params()[1] == 0:
        x = a.arg(0)
        nw = NOWRAP.get(x.get_id())
        if nw is not None and nw[1] <= a.size() and w <= x.size():
            return trunc(x, w)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
        return z3.If(a.arg(0), z3.BitVecVal(a.arg(1).as_long(), w), z3.BitVecVal(a.arg(2).as_long(), w))
    return z3.ZeroExt(w - a.size(), a)


def sext(a, w):
    if isinstance(a, bool):
        return K(-int(a), w)
    if isinstance(a, K):
        return K(sgn(a.v, a.w), w)
    if z3.is_bool(a):
        return z3.If(a, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
    if a.size() == w:
        return a
    return z3.SignExt(w - a.size(), a)


def trunc(a, w):
    if isinstance(a, K):
        return K(a.v, w)
    if a.size() == w:
        return a
    k = a.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        x = a.arg(0)
        if x.size() == w:
            return norm(x)
        if x.size() > w:
            return trunc(x, w)
        return zext(x, w) if k == z3.Z3_OP_ZERO_EXT else sext(x, w)
    if k == z3.Z3_OP_ITE and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
        return z3.If(a.arg(0), z3.BitVecVal(a.arg(1).as_long(), w), z3.BitVecVal(a.arg(2).as_long(), w))
    return z3.Extract(w - 1, 0, a)


def extract(a, hi, lo):
    if isinstance(a, K):
        return K(a.v >> lo, hi - lo + 1)
    if lo == 0:
        return trunc(a, hi + 1)
    if a.decl().kind() == z3.Z3_OP_CONCAT:
        pos = a.size()
        for x in a.children():
            pos -= x.size()
            if pos <= lo and hi < pos + x.size():
                return extract(norm(x), hi - pos, lo - pos) if x.size() != hi - lo + 1 else norm(x)
    return z3.Extract(hi, lo, a)


def concat(hi, lo):
    if isinstance(hi, K) and isinstance(lo, K):
        return K(hi.v << lo.w | lo.v, hi.w + lo.w)
    return z3.Concat(Z(hi), Z(lo))


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    """c bool; a,b bv or bool"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        if not isinstance(a, bool) and not isinstance(b, bool) and a.eq(b):
            return a
        return z3.If(c, ZB(a), ZB(b))
    if same(a, b):
        return a
    if isinstance(a, K) and z3.is_expr(b) and z3.is_eq(c) and z3.is_bv(c.arg(0)):
        # if x == k then a else b[x], with b[k] == a, is b
        x, k = c.arg(0), c.arg(1)
        if z3.is_bv_value(x):
            x, k = k, x
        if z3.is_bv_value(k) and z3.is_const(x):
            r = z3.simplify(z3.substitute(b, (x, k)))
            if z3.is_bv_value(r) and r.as_long() == a.v:
                return b
    return z3.If(c, Z(a), Z(b))


def eq(a, b):
    if isinstance(a, (bool,)) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            if isinstance(a, bool):
                return a == b
            return a if b else Not(a)
        return True if a.eq(b) else a == b
    if isinstance(a, K):
        if isinstance(b, K):
            return a.v == b.v
        a, b = b, a
    if isinstance(b, K):
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = norm(a.arg(1)), norm(a.arg(2))
            if isinstance(x, K) and isinstance(y, K):
                ex, ey = x.v == b.v, y.v == b.v
                if ex and ey:
                    return True
                if not ex and not ey:
                    return False
                return a.arg(0) if ex else Not(a.arg(0))
        if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT):
            x = a.arg(0)
            if b.v >> x.size():
                return False
            return eq(x, K(b.v, x.size()))
        return a == Z(b)
    if a.eq(b):
        return True
    return a == b


def ne(a, b):
    return Not(eq(a, b))


def ult(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return a.v < b.v
    if isinstance(b, K) and b.v == 0:
        return False
    if same(a, b):
        return False
    return z3.ULT(Z(a), Z(b))


def ule(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return a.v <= b.v
    if isinstance(a, K) and a.v == 0:
        return True
    if same(a, b):
        return True
    return z3.ULE(Z(a), Z(b))


def slt(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return sgn(a.v, a.w) < sgn(b.v, b.w)
    if same(a, b):
        return False
    return Z(a) < Z(b)


def sle(a, b):
    if isinstance(a, K) and isinstance(b, K):
        return sgn(a.v, a.w) <= sgn(b.v, b.w)
    if same(a, b):
        return True
    return Z(a) <= Z(b)


ICMP = {
    'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'ugt': lambda a, b: ult(b, a), 'uge': lambda a, b: ule(b, a),
    'slt': slt, 'sle': sle, 'sgt': lambda a, b: slt(b, a), 'sge': lambda a, b: sle(b, a),
}


def simp(a):
    if isinstance(a, (K, bool)):
        return a
    r = z3.simplify(a)
    if z3.is_bv(r):
        return norm(r)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def div_exact(t, c):
    """t / c when t is syntactically a multiple of c, else None"""
    if isinstance(t, K):
        return K(sgn(t.v, t.w) // c, t.w) if t.v % c == 0 else None
    k = t.decl().kind()
    if c == 1:
        return t
    if k == z3.Z3_OP_BMUL and t.num_args() == 2:
        for i in (0, 1):
            x = t.arg(i)
            if z3.is_bv_value(x) and x.as_long() % c == 0:
                return mul(norm(t.arg(1 - i)), K(sgn(x.as_long(), x.size()) // c, t.size()))
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
        xs = [div_exact(norm(x), c) for x in t.children()]
        if all(x is not None for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = add(r, x) if k == z3.Z3_OP_BADD else sub(r, x)
            return r
    if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
        s = 1 << t.arg(1).as_long()
        if s % c == 0:
            return mul(t.arg(0), K(s // c, t.size()))
    if k == z3.Z3_OP_ITE:
        x, y = div_exact(norm(t.arg(1)), c), div_exact(norm(t.arg(2)), c)
        if x is not None and y is not None:
            return ite(t.arg(0), x, y)
    return None


def subst(t, pairs):
    """substitute z3 constants in a term/bool (pairs of z3 exprs)"""
    if isinstance(t, (K, bool)):
        return t
    r = z3.substitute(t, *pairs)
    if z3.is_bv(r):
        return norm(r)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r


def contains(t, consts):
    """does the term mention one of the z3 expressions (set of ids)?"""
    if isinstance(t, (K, bool)):
        return False
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in consts:
            return True
        st.extend(x.children())
    return False


def leaves(t, out=None, cond=True, lim=8):
    """[(condition, term)] of nested ites (additions are pushed into them)"""
    if out is None:
        out = []
    if not isinstance(t, K) and z3.is_bv(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE and len(out) < lim:
            leaves(norm(t.arg(1)), out, And(cond, t.arg(0)), lim)
            leaves(norm(t.arg(2)), out, And(cond, Not(t.arg(0))), lim)
            return out
        if k == z3.Z3_OP_BADD and len(out) < lim:
            for i, c in enumerate(t.children()):
                if z3.is_app_of(c, z3.Z3_OP_ITE):
                    rest = K(0, t.size())
                    for q, d in enumerate(t.children()):
                        if q != i:
                            rest = add(rest, norm(d))
                    leaves(add(norm(c.arg(1)), rest), out, And(cond, c.arg(0)), lim)
                    leaves(add(norm(c.arg(2)), rest), out, And(cond, Not(c.arg(0))), lim)
                    return out
    out.append((cond, t))
    return out


def at_leaves(clo, idx):
    ls = leaves(idx)
    r = clo(ls[-1][1])
    for c, t in reversed(ls[:-1]):
        r = ite(c, clo(t), r)
    return r
