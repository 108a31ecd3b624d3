"""Assumed contracts of the Zend API (everything outside /repo that the code calls). Each entry is listed as an assumption in the evidence."""
import z3
from .terms import *
from .sym import *
from .execu import Exec, Outcome, Bulk

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def nop(*names):
    for n in names:
        M[n] = lambda E, st, a, ins: None


# ---------------------------------------------------------------- helpers
EXC_OFF = None


def di(E, name):
    c = E.prog.__dict__.setdefault('_di', {})
    if name not in c:
        for m in E.prog.modules:
            d = m.di_struct(name)
            if d is not None:
                c[name] = (m, d)
                break
        else:
            raise Unsupported('no debug information for struct ' + name)
    return c[name]


def eg(E, st, field):
    m, d = di(E, '_zend_executor_globals')
    off, size = d[field]
    p = E.global_ptr(st, 'executor_globals', m)
    return Ptr(p.reg, off=off), size


def set_exception(E, st, on=True):
    p, _ = eg(E, st, 'exception')
    E.cell_store(st, p.reg, p.off, 8, Opaque(z3.BitVec('the_exception', 64), 'exception') if on else NULL)
    if on:
        st.assume(ne(z3.BitVec('the_exception', 64), K(0, 64)))


def exception(E, st):
    """bool: is an exception pending"""
    p, _ = eg(E, st, 'exception')
    v = E.cell_load(st, p.reg, p.off, 8, True)
    if isinstance(v, Null):
        return False
    if isinstance(v, Opaque) and v.tag == 'exception':
        return True
    return ne(E.enc(v), K(0, 64))


def cstr(E, st, p):
    """text of a constant C string, if p points to one"""
    if isinstance(p, Ptr):
        s = st.mem.get(p.reg.id)
        if s is not None and p.reg.stride == 1 and 0 in s.arrs and isinstance(p.idx, K):
            out = []
            i = p.idx.v + p.off
            for k in range(400):
                c = s.arrs[0][1](K(i + k, 64))
                if not isinstance(c, K) or c.v == 0:
                    break
                out.append(chr(c.v))
            return ''.join(out)
    return None


def ptag(p):
    if isinstance(p, Opaque):
        return p.tag or '?'
    if isinstance(p, Ptr):
        return p.reg.base
    return repr(p)


def zload(E, st, p):
    """(value, type_info) of the zval at p"""
    v = E.load(st, p, 8, False, 'zval read')
    t = E.load(st, E.ptr_add(st, p, 8), 4, False, 'zval read')
    return v, t


def zstore(E, st, p, v, t):
    E.store(st, p, 8, v, 'zval write')
    E.store(st, E.ptr_add(st, p, 8), 4, t, 'zval write')


def tbyte(t):
    return extract(t, 7, 0)


def refcounted(t):
    return ne(and_(t, K(0xff00, 32)), K(0, 32))


def throw(E, st, cls, msg=None):
    set_exception(E, st)
    st.ev.append(('throw', cls, msg))


# ---------------------------------------------------------------- allocation
def alloc(E, st, n, size, name='heap', zero=False):
    """region of n elements of `size` bytes"""
    if isinstance(n, K) and n.v == 1:
        r = E.new_region(st, name, 'heap', nbytes=size if not isinstance(size, int) else K(size, 64))
    else:
        if isinstance(size, int):
            size = K(size, 64)
        if isinstance(size, K):
            r = E.new_region(st, name, 'heap', stride=size.v, length=n, nbytes=mul(n, size))
        else:
            r = E.new_region(st, name, 'heap', nbytes=mul(n, size))
    st.assume(ne(r.addr, K(0, 64)))
    return Ptr(r)


@model('_emalloc', '_emalloc_large', '_emalloc_huge', '__zend_malloc', 'malloc', '_femalloc')
def m_emalloc(E, st, a, ins):
    n = a[0]
    cnt = None if isinstance(n, K) else div_exact(n, 16)
    if cnt is not None:
        # n * sizeof(zval)
        return alloc(E, st, cnt, 16)
    r = E.new_region(st, 'heap', 'heap', nbytes=n)
    st.assume(ne(r.addr, K(0, 64)))
    return Ptr(r)


for _n in (8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384, 448, 512, 640, 768, 896, 1024, 1280, 1536, 1792, 2048, 2560, 3072):
    M['_emalloc_%d' % _n] = lambda E, st, a, ins, n=_n: m_emalloc(E, st, [K(n, 64)], ins)
    M['_efree_%d' % _n] = lambda E, st, a, ins: m_efree(E, st, a, ins)


@model('_safe_emalloc', '_safe_malloc')
def m_safe_emalloc(E, st, a, ins):
    n, size, off = a
    if isinstance(off, K) and off.v == 0 and isinstance(size, K):
        if isinstance(n, K):
            return m_emalloc(E, st, [K(n.v * size.v, 64)], ins)
        # overflow is a fatal error raised by the allocator
        st.assume(ule(n, K((1 << 64) // size.v - 1, 64)))
        return alloc(E, st, n, size)
    w = add(mul(zext(n, 128), zext(size, 128)), zext(off, 128))
    st.assume(ult(w, K(1 << 64, 128)))
    return m_emalloc(E, st, [trunc(w, 64)], ins)


@model('memchr')
def memchr(E, st, a, ins):
    """C library: the first of n bytes that equals c, or NULL"""
    from .loops import triggers_of
    p, c, n = E.rptr(st, a[0], 'memchr'), trunc(a[1], 8), a[2]
    if not isinstance(p, Ptr) or p.reg.stride != 1 or p.off or p.reg.header:
        raise Unsupported('memchr in %r' % (p,))
    E.block_access(st, p, p.idx, n, 'memchr')
    arr = E.arr_field(st, p.reg, 0, 1)[2]
    at = lambda k: arr(add(p.idx, k))
    j = E.fresh('memchr')
    found = ult(j, n)
    st.assume(And(ule(j, n), Or(Not(found), eq(at(j), c))))
    probe = z3.BitVec('memchr_probe', 64)
    trg = triggers_of([at(probe)], probe)
    if not trg:
        raise Unsupported('memchr: contents')
    st.facts.append(Fact(lambda i: Implies(ult(i, j), ne(at(i), c)), trg, 'memchr: no earlier byte'))
    return PtrIte(found, Ptr(p.reg, add(p.idx, j), 0, p.ver), NULL)


@model('_ecalloc', 'calloc', '__zend_calloc')
def m_ecalloc(E, st, a, ins):
    p = m_safe_emalloc(E, st, [a[0], a[1], K(0, 64)], ins)
    s = st.rsw(p.reg)
    if p.reg.stride:
        for fo, fs in E.LAYOUTS.get(p.reg.stride, {}).items():
            s.arrs[fo] = (fs, lambda k, w=fs * 8: K(0, w))
    elif isinstance(s.bytes, K):
        for o in range(0, s.bytes.v, 8):
            s.cells[o] = (8, K(0, 64))
    return p


def do_realloc(E, st, p, nbytes, n=None, size=None, copy=None):
    p = E.rptr(st, p, 'realloc')
    if isinstance(p, Null):
        if n is not None:
            return alloc(E, st, n, size)
        return m_emalloc(E, st, [nbytes], None)
    if not isinstance(p, Ptr):
        raise Unsupported('realloc of %r' % (p,))
    r = p.reg
    s = st.mem[r.id]
    E.check(st, And(r.kind == 'heap', s.alive, p.ver == s.ver, p.off == 0, eq(p.idx, K(0, 64))), 'memory', 'realloc of a live heap block (%s)' % r.base)
    if r.stride is None and size is not None and isinstance(size, K) and not s.cells:
        r.stride = size.v
    oldlen = E.region_len(st, r) if r.stride else None
    s = st.rsw(r)
    s.ver = ('r', st.seq, E.uid())
    if r.stride:
        if n is not None and size is not None and size.v == r.stride:
            newlen = n
        else:
            b = nbytes if nbytes is not None else mul(n, size)
            if r.header:
                b = sub(b, K(r.header, 64))
            newlen = div_exact(b, r.stride)
            if newlen is None:
                newlen = div_exact(simp(b), r.stride)
            if newlen is None:
                newlen = udiv(b, K(r.stride, 64))
            elif not isinstance(newlen, K):
                E.check(st, ule(newlen, K((1 << 64) // r.stride - 1, 64)), 'arith', 'realloc size does not overflow')
        keep = oldlen
        if copy is not None:
            c = div_exact(copy, r.stride)
            if c is None:
                c = div_exact(simp(copy), r.stride)
            if c is None:
                c = udiv(copy, K(r.stride, 64))
            elif not isinstance(c, K):
                E.check(st, ule(c, K((1 << 64) // r.stride - 1, 64)), 'arith', 'realloc copy size does not overflow')
            keep = c if keep is None else ite(ult(c, keep), c, keep)
        s.len = newlen
        s.bytes = None
        for fo, (fs, clo) in list(s.arrs.items()):
            g, _ = E.fresh_fn('junk', 64, fs * 8)
            s.arrs[fo] = (fs, lambda k, clo=clo, keep=keep, g=g: ite(ult(k, keep), clo(k), g(k)))
            st.wlog.append(('realloc', r, fo, keep, None, True))
    else:
        s.bytes = nbytes if nbytes is not None else mul(n, size)
    return Ptr(r, K(0, 64), 0, s.ver)


@model('_erealloc', 'realloc', '__zend_realloc')
def m_erealloc(E, st, a, ins):
    return do_realloc(E, st, a[0], a[1])


@model('_erealloc2')
def m_erealloc2(E, st, a, ins):
    return do_realloc(E, st, a[0], a[1], copy=a[2])


@model('_safe_erealloc', '_safe_realloc')
def m_safe_erealloc(E, st, a, ins):
    p, n, size, off = a
    if isinstance(off, K) and off.v == 0 and isinstance(size, K):
        if not isinstance(n, K):
            st.assume(ule(n, K((1 << 64) // size.v - 1, 64)))
        return do_realloc(E, st, p, None, n, size)
    w = add(mul(zext(n, 128), zext(size, 128)), zext(off, 128))
    st.assume(ult(w, K(1 << 64, 128)))
    return do_realloc(E, st, p, trunc(w, 64))


@model('_efree', 'free', '_efree_large', '_efree_huge')
def m_efree(E, st, a, ins):
    p = E.rptr(st, a[0], 'free')
    if isinstance(p, Null):
        return None
    if isinstance(p, Opaque):
        st.ev.append(('free', p.bv))
        return None
    r = p.reg
    s = st.mem[r.id]
    E.check(st, And(r.kind == 'heap', s.alive, p.ver == s.ver, p.off == 0, eq(p.idx, K(0, 64))), 'memory', 'free of a live heap block (%s)' % r.base)
    s = st.rsw(r)
    s.alive = False
    return None


# ---------------------------------------------------------------- reference counts
@model('zend_gc_addref')
def m_addref(E, st, a, ins):
    st.ev.append(('addref', E.enc(a[0])))
    return E.fresh('rc', 32)


@model('zend_gc_try_addref')
def m_try_addref(E, st, a, ins):
    st.ev.append(('addref', E.enc(a[0])))
    return None


@model('zval_addref_p')
def m_zval_addref(E, st, a, ins):
    st.ev.append(('addref', E.load(st, a[0], 8, False)))
    return E.fresh('rc', 32)


@model('zend_string_addref')
def m_str_addref(E, st, a, ins):
    st.ev.append(('straddref', E.enc(a[0])))
    return a[0]


@model('zend_gc_delref')
def m_delref(E, st, a, ins):
    st.ev.append(('delref', E.enc(a[0])))
    r = E.fresh('rc', 32)
    return r


@model('zend_gc_refcount')
def m_refcount(E, st, a, ins):
    r = E.fresh('rc', 32)
    st.assume(ne(r, K(0, 32)))
    return r


nop('zend_gc_set_refcount')


@model('zval_refcount_p')
def m_zrc(E, st, a, ins):
    return E.fresh('rc', 32)


@model('zend_string_release', 'zend_string_release_ex')
def m_str_release(E, st, a, ins):
    st.ev.append(('strrelease', E.enc(a[0])))
    return None


@model('zval_ptr_dtor', 'zval_ptr_dtor_nogc')
def m_dtor(E, st, a, ins):
    v, t = zload(E, st, a[0])
    st.ev.append(('dtor', v, t))
    return E.reenter(st, 'destructor')


@model('rc_dtor_func')
def m_rc_dtor(E, st, a, ins):
    st.ev.append(('rcfree', E.enc(a[0])))
    return E.reenter(st, 'destructor')


@model('zend_array_destroy')
def m_array_destroy(E, st, a, ins):
    st.ev.append(('arrfree', E.enc(a[0])))
    return E.reenter(st, 'destructor')


# ---------------------------------------------------------------- errors
@model('zend_throw_exception')
def m_throw(E, st, a, ins):
    throw(E, st, ptag(a[0]), cstr(E, st, a[1]))
    return Opaque(z3.BitVec('the_exception', 64), 'exception')


@model('zend_throw_exception_ex')
def m_throw_ex(E, st, a, ins):
    throw(E, st, ptag(a[0]), cstr(E, st, a[2]))
    return Opaque(z3.BitVec('the_exception', 64), 'exception')


@model('zend_throw_error')
def m_throw_error(E, st, a, ins):
    throw(E, st, 'Error' if isinstance(a[0], Null) else ptag(a[0]), cstr(E, st, a[1]))


@model('zend_type_error', 'zend_argument_type_error')
def m_type_error(E, st, a, ins):
    throw(E, st, 'TypeError')


@model('zend_value_error', 'zend_argument_value_error')
def m_value_error(E, st, a, ins):
    throw(E, st, 'ValueError')


@model('zend_wrong_parameter_error', 'zend_wrong_parameters_count_error', 'zend_wrong_parameters_none_error')
def m_param_error(E, st, a, ins):
    throw(E, st, 'ArgumentError')
    return K(0, 32)


@model('zend_error_noreturn')
def m_fatal(E, st, a, ins):
    st.ev.append(('fatal', cstr(E, st, a[1])))
    E.fatals.append(st)
    return [Outcome('fatal', st, None)]


@model('zend_error')
def m_error(E, st, a, ins):
    # a notice/deprecation: a user error handler may run (and may throw)
    s2 = st.copy()
    throw(E, s2, 'from-error-handler')
    return [(st, None), (s2, None)]


@model('zend_incompatible_double_to_long_error', 'zend_incompatible_string_to_long_error')
def m_incompat(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-error-handler')
    return [(st, None), (s2, None)]


# ---------------------------------------------------------------- values
IsTrue = z3.Function('is_true', z3.BitVecSort(64), z3.BitVecSort(32), z3.BoolSort())
Identical = z3.Function('identical', z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(32), z3.BoolSort())
StrEq = z3.Function('str_content_equal', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())


def symm(f, a, b):
    """a symmetric relation"""
    return ite(ule(a, b), f(Z(a), Z(b)), f(Z(b), Z(a)))


SlowLong = z3.Function('coerce_long', z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64))


@model('zend_is_true')
def m_is_true(E, st, a, ins):
    v, t = zload(E, st, a[0])
    # references are followed
    isr = eq(tbyte(t), K(10, 8))
    e8 = z3.Function('ext8', z3.BitVecSort(64), z3.BitVecSort(64))
    e4 = z3.Function('ext4', z3.BitVecSort(64), z3.BitVecSort(32))
    v, t = ite(isr, e8(Z(add(v, K(8, 64)))), v), ite(isr, e4(Z(add(v, K(16, 64)))), t)
    return zext(IsTrue(Z(v), Z(t)), 32)


@model('zend_is_identical')
def m_identical(E, st, a, ins):
    v, t = zload(E, st, a[0])
    w, u = zload(E, st, a[1])
    return Identical(Z(v), Z(t), Z(w), Z(u))


@model('zend_string_equal_val')
def m_streqval(E, st, a, ins):
    return symm(StrEq, E.enc(a[0]), E.enc(a[1]))


@model('zend_parse_arg_long_slow')
def m_arg_long_slow(E, st, a, ins):
    v, t = zload(E, st, a[0])
    s2 = st.copy()
    # refused: no exception yet, the caller raises the argument error (a deprecation handler may have thrown already)
    E.store(st, a[1], 8, SlowLong(Z(v), Z(t)))
    s3 = st.copy()
    throw(E, s3, 'from-error-handler')
    return [(st, True), (s2, False)]


@model('zend_parse_arg_bool_slow')
def m_arg_bool_slow(E, st, a, ins):
    s2 = st.copy()
    b = E.fresh('boolarg', 1)
    E.store(st, a[1], 1, zext(b, 8))
    return [(st, True), (s2, False)]


@model('zend_parse_arg_str_slow')
def m_arg_str_slow(E, st, a, ins):
    s2 = st.copy()
    b = E.fresh('strarg', 64)
    st.assume(ne(b, K(0, 64)))
    E.store(st, a[1], 8, Opaque(b, 'zstr'))
    return [(st, True), (s2, False)]


@model('zend_is_iterable')
def m_is_iterable(E, st, a, ins):
    v, t = zload(E, st, a[0])
    b = tbyte(t)
    f = z3.Function('is_traversable', z3.BitVecSort(64), z3.BoolSort())
    return Or(eq(b, K(7, 8)), And(eq(b, K(8, 8)), f(Z(v))))


@model('zend_zval_type_name', 'zend_zval_value_name')
def m_type_name(E, st, a, ins):
    return Opaque(E.fresh('typename'), 'cstring')


@model('zval_get_long_func', 'zend_dval_to_lval_slow')
def m_get_long(E, st, a, ins):
    return E.fresh('lval', 64)


# callback argument: zend_parse_arg_func is defined in the headers (zend_fcall_info_init underneath)
@model('zend_fcall_info_init')
def m_fci_init(E, st, a, ins):
    # contract: on success fills *fci (size != 0) and *fcc
    zv, flags, fci, fcc, cn, err = a
    s2 = st.copy()
    E.store(st, fci, 8, K(64, 64), 'fci.size')
    return [(st, K(0, 32)), (s2, K(0xffffffff, 32))]


nop('zend_release_fcall_info_cache', 'zend_fcall_info_args_clear')


@model('zend_call_function')
def m_call_function(E, st, a, ins):
    d = di(E, '_zend_fcall_info')[1]
    fci = a[0]
    params = E.load(st, E.ptr_add(st, fci, d['params'][0]), 8, True)
    retval = E.load(st, E.ptr_add(st, fci, d['retval'][0]), 8, True)
    cnt = E.load(st, E.ptr_add(st, fci, d['param_count'][0]), 4, False)
    args = []
    if isinstance(cnt, K):
        for i in range(cnt.v):
            args.append(zload(E, st, E.ptr_add(st, params, 16 * i)))
    pend = exception(E, st)
    out = []
    if pend is not False:
        # with a pending exception nothing is called
        s0 = st.copy()
        s0.assume(pend)
        if pend is True or E.feasible(st, pend):
            E.store(s0, E.ptr_add(s0, retval, 8), 4, K(0, 32))
            out.append((s0, K(0, 32)))
        if pend is True or not E.feasible(st, Not(pend)):
            return out
        st.assume(Not(pend))
    rv, rt = E.fresh('cbval', 64), E.fresh('cbtype', 32)
    ex = st.copy()
    oracle = E.fresh('cbthrows', 1)
    ex.assume(oracle)
    st.assume(Not(oracle))
    # failure: exception, the result slot is set to UNDEF
    zs = E.load(ex, retval, 8, False)
    E.store(ex, E.ptr_add(ex, retval, 8), 4, K(0, 32))
    throw(E, ex, 'from-callback')
    ex.ev.append(('call', tuple(args), None, None))
    zstore(E, st, retval, rv, rt)
    st.assume(E.valid_zval(rt))
    st.ev.append(('call', tuple(args), rv, rt))
    E.reenter(st, 'callback')
    E.reenter(ex, 'callback')
    f = ex.copy()
    o2 = E.fresh('cbfails', 1)
    f.assume(o2)
    ex.assume(Not(o2))
    return out + [(st, K(0, 32)), (ex, K(0, 32)), (f, K(0xffffffff, 32))]


# ---------------------------------------------------------------- objects
@model('zend_object_alloc')
def m_object_alloc(E, st, a, ins):
    size, ce = a
    r = E.new_region(st, 'newobj', 'heap', nbytes=size)
    s = st.mem[r.id]
    # everything up to the zend_object is zero-initialised
    if isinstance(size, K):
        for o in range(0, size.v - 56, 8):
            s.cells[o] = (8, K(0, 64))
    st.assume(ne(r.addr, K(0, 64)))
    st.ghost['newobjs'] = st.ghost.get('newobjs', ()) + (r,)
    return Ptr(r)


@model('zend_object_std_init')
def m_std_init(E, st, a, ins):
    p, ce = a
    E.store(st, E.ptr_add(st, p, 16), 8, ce, 'object init')
    E.store(st, E.ptr_add(st, p, 32), 8, NULL, 'object init')
    E.store(st, E.ptr_add(st, p, 0), 4, K(1, 32), 'object init')
    return None


@model('zend_object_std_dtor')
def m_std_dtor(E, st, a, ins):
    st.ev.append(('std_dtor',))


nop('object_properties_init', 'teds_assert_object_has_empty_member_list', 'zend_hash_clean')


@model('zend_iterator_init', 'zend_iterator_dtor')
def m_iter(E, st, a, ins):
    return None


@model('zend_create_internal_iterator_zval')
def m_create_iter(E, st, a, ins):
    st.ev.append(('create_iterator',))
    E.store(st, E.ptr_add(st, a[0], 8), 4, K(0x308, 32))
    return K(0, 32)


# ---------------------------------------------------------------- traversables
@model('$get_iterator')
def m_get_iterator(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-iterator')
    t = st.ghost['trav']
    return [(st, Ptr(t['iter'])), (s2, NULL)]


def trav_pos(E, st):
    t = st.ghost['trav']
    return E.cell_load(st, t['ghost'], 0, 8, False)


@model('$it_rewind')
def m_it_rewind(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-iterator')
    E.cell_store(st, st.ghost['trav']['ghost'], 0, 8, K(0, 64))
    return [(st, None), (s2, None)]


@model('$it_valid')
def m_it_valid(E, st, a, ins):
    s2, s3 = st.copy(), st.copy()
    p = trav_pos(E, st)
    n = st.ghost['trav']['n']
    st.assume(ult(p, n))
    s2.assume(Not(ult(p, n)))
    throw(E, s3, 'from-iterator')
    r = []
    if E.feasible(st, True if not st.pc else st.pc[-1]):
        r.append((st, K(0, 32)))
    if E.feasible(s2, s2.pc[-1]):
        r.append((s2, K(0xffffffff, 32)))
    s4 = s3.copy()
    r.append((s3, K(0, 32)))
    r.append((s4, K(0xffffffff, 32)))
    return r


@model('$it_current')
def m_it_current(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-iterator')
    p = trav_pos(E, st)
    return [(st, Ptr(st.ghost['trav']['vals'], p)), (s2, NULL)]


@model('$it_key')
def m_it_key(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-iterator')
    E.store(s2, E.ptr_add(s2, a[1], 8), 4, K(0, 32))
    p = trav_pos(E, st)
    k = st.ghost['trav']['keys']
    zstore(E, st, a[1], E.arr_load(st, k, p, 0, 8), E.arr_load(st, k, p, 8, 4))
    # the key is returned with a reference of its own
    st.ev.append(('ownkey', E.arr_load(st, k, p, 0, 8), E.arr_load(st, k, p, 8, 4)))
    return [(st, None), (s2, None)]


@model('$it_next')
def m_it_next(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-iterator')
    p = trav_pos(E, st)
    E.cell_store(st, st.ghost['trav']['ghost'], 0, 8, add(p, K(1, 64)))
    return [(st, None), (s2, None)]


# ---------------------------------------------------------------- arrays (HashTable)
HT = {'flags': 8, 'mask': 12, 'data': 16, 'used': 24, 'num': 28, 'size': 32, 'iptr': 36, 'next': 40, 'dtor': 48}


@model('_zend_new_array', '_zend_new_array_0')
def m_new_array(E, st, a, ins):
    n = a[0] if a else K(8, 32)
    r = E.new_region(st, 'newarray', 'heap', nbytes=K(56, 64))
    s = st.mem[r.id]
    c = s.cells
    c[0] = (4, K(1, 32))
    c[4] = (4, K(7, 32))
    c[8] = (4, K(8, 32))
    c[24] = (4, K(0, 32))
    c[28] = (4, K(0, 32))
    c[32] = (4, ite(ult(n, K(8, 32)), K(8, 32), n))   # at least the requested size (rounded up to a power of two)
    c[36] = (4, K(0, 32))
    c[40] = (8, K(1 << 63, 64))
    st.ghost['arrays'] = st.ghost.get('arrays', ()) + (r,)
    st.assume(ne(r.addr, K(0, 64)))
    return Ptr(r)


@model('zend_hash_real_init_packed')
def m_real_init_packed(E, st, a, ins):
    p = E.rptr(st, a[0], 'array')
    s = st.mem[p.reg.id]
    E.check(st, p.reg.base == 'newarray', 'api', 'zend_hash_real_init_packed on a fresh array')
    n = zext(E.cell_load(st, p.reg, HT['size'], 4, False), 64)
    d = E.new_region(st, 'packed', 'heap', stride=16, length=n)
    s = st.rsw(p.reg)
    s.cells[HT['data']] = (8, Ptr(d))
    s.cells[8] = (4, K(4, 32))
    return None


def ht_region(E, st, p):
    q = E.rptr(st, p, 'array')
    return q.reg if isinstance(q, Ptr) else None


PairOf = z3.Function('pair_array', z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64))


@model('zend_new_pair')
def m_new_pair(E, st, a, ins):
    v1, t1 = zload(E, st, a[0])
    v2, t2 = zload(E, st, a[1])
    # the array is determined by its two values; its identity does not matter
    addr = PairOf(Z(v1), Z(t1), Z(v2), Z(t2))
    st.assume(ne(addr, K(0, 64)))
    st.ev.append(('pair', addr, v1, t1, v2, t2))
    return Opaque(addr, 'pair')


@model('zend_hash_next_index_insert')
def m_next_insert(E, st, a, ins):
    v, t = zload(E, st, a[1])
    st.ev.append(('append', E.enc(a[0]), v, t))
    return Opaque(E.fresh('slot'), 'slot')


nop('php_info_print_table_start', 'php_info_print_table_row', 'php_info_print_table_header', 'php_info_print_table_end')


@model('zend_get_gc_buffer_create')
def m_gcb(E, st, a, ins):
    r = E.new_region(st, 'gcbuf', 'heap', nbytes=K(24, 64))
    return Ptr(r)


@model('zend_get_gc_buffer_add_zval')
def m_gcadd(E, st, a, ins):
    v, t = zload(E, st, a[1])
    st.ev.append(('gcadd', v, t))


@model('zend_get_gc_buffer_add_obj')
def m_gcaddo(E, st, a, ins):
    st.ev.append(('gcaddobj', E.enc(a[1])))


@model('zend_get_gc_buffer_use')
def m_gcuse(E, st, a, ins):
    st.ev.append(('gcuse',))


@model('zend_parse_parameters')
def m_zpp(E, st, a, ins):
    """zend_parse_parameters(num_args, spec, ...): 'h' array, 'z' zval, 'l' long — as used by the extension"""
    spec = cstr(E, st, a[1])
    x = st.ghost['exec']
    s2 = st.copy()
    throw(E, s2, 'ArgumentError')
    if spec in ('h',):
        v = E.load(st, Ptr(x, K(5, 64), 0), 8, True, chk=False)
        t = E.load(st, Ptr(x, K(5, 64), 8), 4, False, chk=False)
        n = E.cell_load(st, x, 44, 4, False)
        st.assume(And(eq(n, K(1, 32)), eq(tbyte(t), K(7, 8))))
        E.store(st, a[2], 8, v)
        out = []
        if E.feasible(st, st.pc[-1]):
            out.append((st, K(0, 32)))
        s2.assume(Not(And(eq(n, K(1, 32)), eq(tbyte(t), K(7, 8)))))
        if E.feasible(s2, s2.pc[-1]):
            out.append((s2, K(0xffffffff, 32)))
        return out
    if spec == '':
        n = E.cell_load(st, x, 44, 4, False)
        c = eq(n, K(0, 32))
        out = []
        if E.feasible(st, c):
            st.assume(c)
            out.append((st, K(0, 32)))
        if E.feasible(s2, Not(c)):
            s2.assume(Not(c))
            out.append((s2, K(0xffffffff, 32)))
        return out
    if all(c in 'zl*' for c in spec) and '*' not in spec[:-1]:
        fixed = len(spec.rstrip('*'))
        n = E.cell_load(st, x, 44, 4, False)
        c = ule(K(fixed, 32), n) if spec.endswith('*') else eq(n, K(fixed, 32))
        k = 2
        for i, ch in enumerate(spec):
            if ch == 'z':
                E.store(st, a[k], 8, Ptr(x, K(5 + i, 64), 0))
                k += 1
            elif ch == 'l':
                v = E.load(st, Ptr(x, K(5 + i, 64), 0), 8, False, chk=False)
                t = E.load(st, Ptr(x, K(5 + i, 64), 8), 4, False, chk=False)
                E.store(st, a[k], 8, ite(eq(tbyte(t), K(4, 8)), v, SlowLong(Z(v), Z(t))))
                k += 1
            else:
                E.store(st, a[k], 8, Ptr(x, K(5 + i, 64), 0))
                E.store(st, a[k + 1], 4, sub(n, K(fixed, 32)))
                k += 2
        out = []
        if E.feasible(st, c):
            st.assume(c)
            out.append((st, K(0, 32)))
        if 'l' in spec:
            out.append((s2, K(0xffffffff, 32)))      # an argument that is not an integer
        elif E.feasible(s2, Not(c)):
            s2.assume(Not(c))
            out.append((s2, K(0xffffffff, 32)))
        return out
    raise Unsupported('zend_parse_parameters spec %r' % spec)


class Zend(Exec):
    """Executor with the Zend contracts"""

    def __init__(self, prog, timeout_ms=15000):
        super().__init__(prog, M, timeout_ms)
        self.reenter_hook = None

    def reenter(self, st, what):
        if self.reenter_hook:
            return self.reenter_hook(self, st, what)
        return None

    VALID_T = (1, 2, 3, 4, 5, 6, 0x106, 7, 0x307, 0x308, 0x109)

    def valid_zval(self, t, extra=()):
        return Or(*[eq(t, K(x, 32)) for x in self.VALID_T + tuple(extra)])


# ---------------------------------------------------------------- engine header functions with a contract of their own
NumStr = z3.Function('numeric_string', z3.BitVecSort(64), z3.BoolSort())
NumIdx = z3.Function('numeric_string_value', z3.BitVecSort(64), z3.BitVecSort(64))
D2L = z3.Function('double_to_long', z3.BitVecSort(64), z3.BitVecSort(64))
ArrIdent = z3.Function('arrays_identical', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
ArrIdentNan = z3.Function('arrays_identical_nan', z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())


@model('_zend_handle_numeric_str')
def m_handle_numeric(E, st, a, ins):
    # called with ZSTR_VAL(s), ZSTR_LEN(s): key the result by the string
    s = sub(E.enc(a[0]), K(24, 64))
    ok = NumStr(Z(s))
    s2 = st.copy()
    s2.assume(Not(ok))
    st.assume(ok)
    E.store(st, a[2], 8, NumIdx(Z(s)))
    return [(st, True), (s2, False)]


@model('zend_dval_to_lval')
def m_d2l(E, st, a, ins):
    return D2L(Z(a[0]))


@model('zend_dval_to_lval_safe')
def m_d2l_safe(E, st, a, ins):
    s2 = st.copy()
    throw(E, s2, 'from-error-handler')
    return [(st, D2L(Z(a[0]))), (s2, D2L(Z(a[0])))]


@model('zend_hash_compare')
def m_hash_compare(E, st, a, ins):
    f = a[2].name if isinstance(a[2], Fn) else '?'
    g = ArrIdentNan if 'nan' in f else ArrIdent
    r = E.fresh('cmp', 32)
    st.assume(eq(eq(r, K(0, 32)), symm(g, E.enc(a[0]), E.enc(a[1]))))
    return r


def identical(v1, t1, v2, t2, nan=False):
    """=== as a formula (is_identical of the manual); nan: NAN counts as identical to NAN"""
    e8 = z3.Function('ext8', z3.BitVecSort(64), z3.BitVecSort(64))
    b = tbyte(t1)
    d1, d2 = z3.fpBVToFP(Z(v1), z3.Float64()), z3.fpBVToFP(Z(v2), z3.Float64())
    deq = z3.fpEQ(d1, d2)
    if nan:
        deq = z3.Or(deq, z3.And(z3.fpIsNaN(d1), z3.fpIsNaN(d2)))
    return And(eq(b, tbyte(t2)), Or(ule(b, K(3, 8)),
               And(Or(eq(b, K(4, 8)), eq(b, K(8, 8)), eq(b, K(9, 8))), eq(v1, v2)),
               And(eq(b, K(5, 8)), deq),
               And(eq(b, K(6, 8)), Or(eq(v1, v2), And(eq(e8(Z(add(v1, K(16, 64)))), e8(Z(add(v2, K(16, 64))))), symm(StrEq, v1, v2)))),
               And(eq(b, K(7, 8)), Or(eq(v1, v2), symm(ArrIdentNan if nan else ArrIdent, v1, v2)))))


@model('zend_is_identical')
def m_identical(E, st, a, ins):
    v, t = zload(E, st, a[0])
    w, u = zload(E, st, a[1])
    return identical(v, t, w, u)


def _array_in(E, p):
    h = getattr(E, 'arrays_in', {}).get(p.reg.id) if isinstance(p, Ptr) else None
    if h is None:
        raise Unsupported('position in an array not passed in')
    return h


@model('zend_hash_get_current_data_ex')
def _(E, st, a, ins):
    """the value in the first defined slot at or after *pos, NULL when there is none"""
    h = _array_in(E, a[0])
    pos = zext(E.load(st, a[1], 4, False), 64)
    q = E.fresh('slot', 64)
    st.assume(And(ule(pos, q), ule(q, h.used), Or(eq(q, h.used), h.defined(q))))
    if not h.full:
        st.facts.append(Fact(lambda j: Implies(And(ule(pos, j), ult(j, q)), Not(h.defined(j))), [(h.tfun, 0, lambda j: j)], 'first defined slot'))
        st.assume(Implies(ule(pos, h.used), eq(h.rank(q), h.rank(pos))))
    else:
        st.assume(eq(q, ite(ult(pos, h.used), pos, h.used)))
    some = ult(q, h.used)
    out = []
    for c in (True, False):
        g = some if c else Not(some)
        if E.feasible(st, g):
            s2 = st.copy()
            s2.assume(g)
            out.append((s2, Ptr(h.slots, q) if c else NULL))
    return out


@model('zend_hash_internal_pointer_end_ex')
def _(E, st, a, ins):
    """*pos becomes the last defined slot, nNumUsed when there is none"""
    h = _array_in(E, a[0])
    q = E.fresh('slot', 64)
    st.assume(And(ule(q, h.used), Or(eq(q, h.used), h.defined(q))))
    if h.full:
        st.assume(eq(q, ite(eq(h.used, K(0, 64)), K(0, 64), sub(h.used, K(1, 64)))))
    else:
        st.facts.append(Fact(lambda j: Implies(And(ult(j, h.used), Or(eq(q, h.used), ult(q, j))), Not(h.defined(j))), [(h.tfun, 0, lambda j: j)], 'last defined slot'))
    E.store(st, a[1], 4, trunc(q, 32))
