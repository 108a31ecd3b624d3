"""Second back end: linear integer arithmetic.

A bit-vector goal is translated to integers so that every bit-vector model of the assertions yields an integer model of the translation
(each term is represented by an integer congruent to its value, with an interval that is tracked; terms outside the fragment become
unconstrained integers of their range). So `unsat' carries over; `sat' and `unknown' mean nothing."""
import z3

Z0 = z3.IntVal(0)


class Lia:
    def __init__(self):
        self.cache, self.bcache = {}, {}
        self.side = []
        self.nf = 0
        self.bounds = {}      # term id -> (lo, hi) signed/unsigned-agnostic bound of the unsigned value
        self.keep = []
        self.fns = {}
        self.ucache, self.scache = {}, {}

    def fresh(self, lo, hi):
        self.nf += 1
        v = z3.Int('li!%d' % self.nf)
        self.side += [v >= lo, v <= hi]
        return v

    # ---- bounds known from unit assertions
    def scan(self, a):
        neg = False
        while z3.is_not(a):
            a, neg = a.arg(0), not neg
        k = a.decl().kind()
        if k == z3.Z3_OP_AND and not neg:
            for c in a.children():
                self.scan(c)
            return
        if k == z3.Z3_OP_OR and neg:
            for c in a.children():
                self.scan(z3.Not(c))
            return
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            x, y = a.arg(0), a.arg(1)
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                x, y = y, x
            strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
            if neg:
                x, y, strict = y, x, not strict
            if z3.is_bv_value(y):
                self.upper(x, y.as_long() - (1 if strict else 0))
        if k == z3.Z3_OP_EQ and not neg and z3.is_bv(a.arg(0)):
            for x, y in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
                if z3.is_bv_value(y):
                    if y.as_long() == 0 and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[0] == x.arg(0).size() - 1:
                        self.upper(x.arg(0), (1 << x.params()[1]) - 1)
                    self.upper(x, y.as_long())

    def upper(self, x, hi):
        if hi < 0:
            return
        i = x.get_id()
        self.keep.append(x)
        self.bounds[i] = min(hi, self.bounds.get(i, hi))
        if x.decl().kind() in (z3.Z3_OP_ZERO_EXT,):
            self.upper(x.arg(0), hi)

    # ---- terms: (int expression congruent to the value mod 2^w, lo, hi)
    def t(self, x):
        i = x.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self.t0(x)
            b = self.bounds.get(i)
            if b is not None and not (0 <= r[1] and r[2] <= b):
                # the unsigned value is at most b
                w = x.size()
                u, lo, hi = self.uns_of(r, w)
                if lo == 0 and hi == 0:
                    r = (u, 0, 0)
                else:
                    r = (u, max(lo, 0), min(hi, b))
            self.keep.append(x)
            self.cache[i] = r
        return r

    def norm_to(self, r, w, base):
        """value in [base, base + 2^w)"""
        e, lo, hi = r
        W = 1 << w
        if base <= lo and hi < base + W:
            return r
        qlo, qhi = (lo - base) // W, (hi - base) // W
        if qhi - qlo <= 2:
            out = e - qhi * W if qhi else e
            for q in range(qhi - 1, qlo - 1, -1):
                out = z3.If(e < base + (q + 1) * W, e - q * W if q else e, out)
            return (out, base if qhi > qlo else lo - qlo * W, base + W - 1 if qhi > qlo else hi - qlo * W)
        q = self.fresh(qlo, qhi)
        v = self.fresh(base, base + W - 1)
        self.side.append(e == W * q + v)
        return (v, base, base + W - 1)

    def uns_of(self, r, w):
        return self.norm_to(r, w, 0)

    def uns(self, x):
        i = x.get_id()
        r = self.ucache.get(i)
        if r is None:
            r = self.ucache[i] = self.uns_of(self.t(x), x.size())
        return r

    def sig(self, x):
        i = x.get_id()
        r = self.scache.get(i)
        if r is None:
            r = self.scache[i] = self.norm_to(self.t(x), x.size(), -(1 << (x.size() - 1)))
        return r

    def canon(self, x):
        return self.sig(x) if x.size() == 64 else self.uns(x)

    def opaque(self, w):
        v = self.fresh(0, (1 << w) - 1)
        return (v, 0, (1 << w) - 1)

    def t0(self, x):
        w = x.size()
        if z3.is_bv_value(x):
            v = x.as_long()
            if w >= 32 and v >> (w - 1):
                v -= 1 << w
            return (z3.IntVal(v), v, v)
        k = x.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            key = x.decl().get_id()
            self.keep.append(x.decl())
            lo, hi = (-(1 << 63), (1 << 63) - 1) if w == 64 else (0, (1 << w) - 1)
            b = self.bounds.get(x.get_id())
            if b is not None and (w != 64 or b < 1 << 63):
                lo, hi = 0, min(b, hi)
            if x.num_args() == 0:
                return (self.fresh(lo, hi), lo, hi)
            f = self.fn(x.decl())
            e = f(*self.args(x))
            v = self.fresh(lo, hi)
            self.side.append(v == e)
            return (v, lo, hi)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            rs = [self.t(c) for c in x.children()]
            e, lo, hi = rs[0]
            for f, l, h in rs[1:]:
                if k == z3.Z3_OP_BADD:
                    e, lo, hi = e + f, lo + l, hi + h
                else:
                    e, lo, hi = e - f, lo - h, hi - l
            return self.tame((e, lo, hi), w)
        if k == z3.Z3_OP_BNEG:
            e, lo, hi = self.t(x.arg(0))
            return (-e, -hi, -lo)
        if k == z3.Z3_OP_BNOT:
            e, lo, hi = self.t(x.arg(0))
            return (-e - 1, -hi - 1, -lo - 1)
        if k == z3.Z3_OP_BMUL and x.num_args() == 2:
            a, b = x.arg(0), x.arg(1)
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                c = a.as_long()
                if c >> (w - 1):
                    c -= 1 << w
                e, lo, hi = self.t(b)
                return self.tame((e * c, min(lo * c, hi * c), max(lo * c, hi * c)), w)
        if k == z3.Z3_OP_ITE:
            c = self.b(x.arg(0))
            a, l1, h1 = self.t(x.arg(1))
            b, l2, h2 = self.t(x.arg(2))
            return (z3.If(c, a, b), min(l1, l2), max(h1, h2))
        if k == z3.Z3_OP_ZERO_EXT:
            return self.uns(x.arg(0))
        if k == z3.Z3_OP_SIGN_EXT:
            return self.sig(x.arg(0))
        if k == z3.Z3_OP_CONCAT:
            r = self.uns(x.arg(0))
            for c in list(x.children())[1:]:
                e, lo, hi = self.uns(c)
                s = 1 << c.size()
                r = (r[0] * s + e, r[1] * s + lo, r[2] * s + hi) if not z3.is_bv_value(x.arg(0)) or r[2] != 0 or r[1] != 0 else (e, lo, hi)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi_, lo_ = x.params()
            if lo_ == 0:
                return self.t(x.arg(0))
            return self.shr(self.uns(x.arg(0)), lo_)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(x.arg(1)):
            return self.shr(self.uns(x.arg(0)), min(x.arg(1).as_long(), w))
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() < w:
            s = 1 << x.arg(1).as_long()
            e, lo, hi = self.t(x.arg(0))
            return self.tame((e * s, lo * s, hi * s), w)
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() > 0:
            return self.div(self.uns(x.arg(0)), x.arg(1).as_long())
        if k == z3.Z3_OP_BAND:
            his = [self.uns(c) for c in x.children()]
            v, lo, hi = self.opaque(w)
            for e, l, h in his:
                self.side.append(v <= e)
                hi = min(hi, h)
            return (v, 0, hi)
        if k == z3.Z3_OP_BOR:
            v, lo, hi = self.opaque(w)
            for c in x.children():
                self.side.append(v >= self.uns(c)[0])
            return (v, lo, hi)
        return self.opaque(w)

    def tame(self, r, w):
        if r[1] < -(1 << (w + 8)) or r[2] > 1 << (w + 8):
            return self.uns_of(r, w)
        return r

    def shr(self, r, s):
        return self.div(r, 1 << s)

    def div(self, r, d):
        e, lo, hi = r
        if hi < d and lo >= 0:
            return (Z0, 0, 0)
        q = self.fresh(lo // d, hi // d)
        m = self.fresh(0, d - 1)
        self.side.append(e == d * q + m)
        return (q, lo // d, hi // d)

    def fn(self, d):
        key = d.get_id()
        if key not in self.fns:
            dom = [z3.IntSort() if d.domain(i).kind() == z3.Z3_BV_SORT else z3.BoolSort() if d.domain(i).kind() == z3.Z3_BOOL_SORT else d.domain(i)
                   for i in range(d.arity())]
            rg = d.range()
            self.fns[key] = z3.Function('lf!%d' % len(self.fns), *dom, z3.IntSort() if rg.kind() == z3.Z3_BV_SORT else rg)
            self.keep.append(d)
        return self.fns[key]

    def args(self, x):
        return [self.canon(c)[0] if z3.is_bv(c) else self.b(c) if z3.is_bool(c) else c for c in x.children()]

    # ---- formulas
    def b(self, x):
        i = x.get_id()
        r = self.bcache.get(i)
        if r is None:
            r = self.b0(x)
            self.keep.append(x)
            self.bcache[i] = r
        return r

    def b0(self, x):
        if z3.is_true(x) or z3.is_false(x):
            return x
        k = x.decl().kind()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(x.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(c) for c in x.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(c) for c in x.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(x.arg(0)), self.b(x.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(x.arg(0)), self.b(x.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(x.arg(0)), self.b(x.arg(1)), self.b(x.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            a, b = x.arg(0), x.arg(1)
            if z3.is_bool(a):
                return self.b(a) == self.b(b)
            if z3.is_bv(a):
                r, s = self.t(a), self.t(b)
                if max(r[2], s[2]) - min(r[1], s[1]) < 1 << a.size():
                    return r[0] == s[0]
                return self.canon(a)[0] == self.canon(b)[0]
        if k == z3.Z3_OP_DISTINCT and x.num_args() == 2 and z3.is_bv(x.arg(0)):
            return z3.Not(self.b(x.arg(0) == x.arg(1)))
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.uns(x.arg(0))[0], self.uns(x.arg(1))[0]
            return a <= b if k == z3.Z3_OP_ULEQ else a < b if k == z3.Z3_OP_ULT else a >= b if k == z3.Z3_OP_UGEQ else a > b
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = self.sig(x.arg(0))[0], self.sig(x.arg(1))[0]
            return a <= b if k == z3.Z3_OP_SLEQ else a < b if k == z3.Z3_OP_SLT else a >= b if k == z3.Z3_OP_SGEQ else a > b
        if k == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() == 0:
                return x
            return self.fn(x.decl())(*self.args(x))
        self.nf += 1
        return z3.Bool('lb!%d' % self.nf)


def unsat(asserts, tmo):
    """True if the assertions are shown unsatisfiable over the integers"""
    L = Lia()
    for a in asserts:
        L.scan(a)
    out = []
    # bounds used for intervals are themselves asserted: they come from unit assertions translated below
    L2 = [L.b(a) for a in asserts]
    s = z3.Solver()
    s.set('timeout', tmo)
    s.add(*L.side)
    s.add(*L2)
    return s.check() == z3.unsat
