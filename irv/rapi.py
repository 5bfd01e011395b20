"""Contracts of the R C API (trusted: this is the boundary of the verified code) and of a few
rlang/vctrs functions whose bodies are outside the verified set."""
import z3
from engine import *
from ir import Ty

T_NIL, T_SYM, T_LGL, T_INT, T_DBL, T_CPLX, T_CHR, T_LIST, T_RAW, T_CHARSXP = 0, 1, 10, 13, 14, 15, 16, 19, 24, 9
VSIZE = z3.Function('vec_size', Ref, I)
VTYPE = z3.Function('vec_proxy_typeof', Ref, I)
CSTR = z3.Function('cstr', Ref, I)        # identity of the C string behind a pointer
SLICE = z3.Function('vec_slice', Ref, Ref, Ref)
NILREF = z3.Const('R_NilValue', Ref)
NASTR = z3.Const('NA_STRING', Ref)
KEYOF = {T_LGL: 'i32', T_INT: 'i32', T_DBL: 'f64', T_CPLX: 'f64', T_CHR: 'ref', T_LIST: 'ref', T_RAW: 'i8'}
ESIZE = {T_LGL: 4, T_INT: 4, T_DBL: 8, T_CPLX: 16, T_CHR: 8, T_LIST: 8, T_RAW: 1}
VT = dict(null=0, unspecified=1, logical=2, integer=3, double=4, complex=5, character=6, raw=7, list=8, dataframe=9, scalar=10, s3=255)
MAXSIZE = 2**31 - 1

def new_obj(ex, st, typ, n, base='new_obj'):
    r = mk(Ref, base)
    ex.set_stamp(st, r, stamp_of_name(r.decl().name()))
    if typ is not None:
        st.assume(TYPE(r) == typ)
        tv = z3.simplify(typ if z3.is_expr(typ) else z3.IntVal(typ))
        if z3.is_int_value(tv): set_dtype(st, r, tv.as_long(), n)
    if n is not None: st.assume(LEN(r) == n)
    st.assume(r != NULLREF, r != NILREF)
    return r
def set_dtype(st, r, typ, n=None):
    if typ in KEYOF:
        st.g[('dtype', r.get_id())] = (KEYOF[typ], r)
        es = 8 if typ == T_CPLX else ESIZE[typ]
        nn = LEN(r) if n is None else n
        st.g[('dlen', r.get_id())] = (es, (2 * nn if typ == T_CPLX else nn), r)

def old_obj(ex, st, name, typ=None, n=None, vsize=None, vtype=None):
    """an object that exists before the call"""
    r = z3.Const(name, Ref)
    ex.set_stamp(st, r, 0)
    st.assume(r != NULLREF, LEN(r) >= 0)
    if typ is not None: st.assume(TYPE(r) == typ); set_dtype(st, r, typ)
    if n is not None: st.assume(LEN(r) == n)
    return r

def asref(a): return a.ref() if isinstance(a, P) else a

def c_data(typ):
    def f(ex, st, a):
        r = asref(a[0])
        if ('dtype', r.get_id()) not in st.g:
            set_dtype(st, r, typ)
        if ex.check_types: ex.oblige(st, z3.Or(*[TYPE(r) == t for t in ((T_LGL, T_INT) if typ in (T_LGL, T_INT) else (typ,))]), 'type', 'data accessor applied to a vector of its type')
        st.assume(LEN(r) >= 0)
        return P('data', r)
    f.__name__ = 'data%d' % typ
    return f
def c_rawdata(ex, st, a):
    """data of a raw vector; a raw vector allocated here with a small constant length backs a C struct"""
    r = asref(a[0])
    dl = st.g.get(('dlen', r.get_id()))
    if dl is not None and dl[0] == 1 and (ex.stamp(st, r) or 0) > 0:
        n = simp(dl[1])
        if z3.is_int_value(n) and 8 <= n.as_long() <= 4096: return P('cell', 'rawstruct_' + r.sexpr())
    return c_data(T_RAW)(ex, st, a)
def c_dataptr(ex, st, a):
    return P('data', asref(a[0]))
def c_id(ex, st, a): return a[0]
def c_none(ex, st, a): return None
def ghost_get(st, k, default=None):
    return st.g.get(('glob', '$ghost', k), default)
def ghost_set(ex, st, k, v):
    st.g[('glob', '$ghost', k)] = v
    if ex.writes is not None: ex.writes.append(('G', '$ghost', k, v.sort()))
def c_protect(ex, st, a):
    p = ghost_get(st, 'prot')
    if p is not None: ghost_set(ex, st, 'prot', simp(p + 1))
    return a[0]
def c_unprotect(ex, st, a):
    p = ghost_get(st, 'prot')
    if p is not None: ghost_set(ex, st, 'prot', simp(p - a[0]))
    return None
def c_protect_idx(ex, st, a):
    ex.store(st, a[1], mk(I, 'pi'), Ty('i', 32), ex.mods[0])
    return c_protect(ex, st, a)
def c_length(ex, st, a):
    r = asref(a[0])
    st.assume(LEN(r) >= 0, LEN(r) <= 2**52)
    return LEN(r)
def c_length32(ex, st, a):
    r = asref(a[0]); st.assume(LEN(r) >= 0, LEN(r) <= MAXSIZE); return LEN(r)
def c_typeof(ex, st, a):
    r = asref(a[0]); st.assume(TYPE(r) >= 0, TYPE(r) <= 25); return TYPE(r)
def c_alloc(ex, st, a):
    t, n = a
    ex.oblige(st, n >= 0, 'alloc', 'allocated length is not negative')
    return sx(new_obj(ex, st, t, n, 'new_vec'))
def c_alloc_t(t):
    def f(ex, st, a):
        ex.oblige(st, a[0] >= 0, 'alloc', 'allocated length is not negative')
        return sx(new_obj(ex, st, t, a[0], 'new_vec'))
    f.__name__ = f'alloc{t}'
    return f
def c_scalar(t, key):
    def f(ex, st, a):
        r = new_obj(ex, st, t, z3.IntVal(1), 'new_scalar')
        arr = mk(z3.ArraySort(I, sort_of(key)), 'scal')
        v = a[0]
        if z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, P): v = v.ref()
        st.assume(z3.Select(arr, 0) == v)
        ex.set_content(st, key, r, arr)
        return sx(r)
    f.__name__ = f'scalar{t}'
    return f
def c_elt(ex, st, a):
    r = asref(a[0])
    if ex.check_bounds: ex.oblige(st, z3.And(a[1] >= 0, a[1] < LEN(r)), 'bounds', 'element access within its vector')
    return ex.loaded(st, z3.Select(ex.content(st, 'ref', r), a[1]), Ty('ptr'), P('data', r))
def c_setelt(ex, st, a):
    r = asref(a[0])
    if ex.check_bounds: ex.oblige(st, z3.And(a[1] >= 0, a[1] < LEN(r)), 'bounds', 'element store within its vector')
    ex.write_guard(st, r)
    ex.set_content(st, 'ref', r, z3.Store(ex.content(st, 'ref', r), a[1], asref(a[2])))
    return a[2]
def c_fresh_ref(name='opaque', stamp=False, notnull=True):
    def f(ex, st, a):
        r = mk(Ref, name)
        if notnull: st.assume(r != NULLREF)
        return sx(r)
    f.__name__ = 'fresh_' + name
    return f
def c_newobj(name='new_obj', typ=None):
    def f(ex, st, a):
        return sx(new_obj(ex, st, typ, None, name))
    f.__name__ = 'newobj_' + name
    return f
def c_bool_of(fn):
    def f(ex, st, a): return fn(*[asref(x) if isinstance(x, P) else x for x in a])
    return f
def c_err(ex, st, a): return [('err', st, 'error')]
def c_memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], a[2], ex.mods[0]); return a[0]
def c_memset(ex, st, a):
    dst, v, n = a[0], a[1], a[2]
    if dst.k == 'cell' and z3.is_int_value(simp(n)):
        # zero initialisation of a local struct: word cells
        nn = simp(n).as_long(); rk = ex.regkey(dst.b)
        cells = dict(st.cells.get(rk, {}))
        for o in list(cells):
            if o < dst.c + nn and dst.c < o + cells[o][0]: del cells[o]
        st.cells[rk] = cells
        st.g[('zeroed', rk)] = (dst.c, nn)
        return None
    if dst.k == 'data':
        kt = ex.data_type(st, dst.b)
        if kt is None: raise ToolLimit('memset of untyped data')
        size = {'i32': 4, 'f64': 8, 'i8': 1, 'ref': 8, 'i64': 8}[kt]
        _, di = ex.elem_index(dst, size, kt)
        vv = simp(v)
        if not z3.is_int_value(vv): raise ToolLimit('memset value')
        b = vv.as_long() & 255
        word = int.from_bytes(bytes([b]) * size, 'little')
        if kt == 'f64': val = d_const(word)
        elif kt == 'ref': raise ToolLimit('memset of pointers')
        else: val = z3.IntVal(word - (1 << (8 * size)) if word >> (8 * size - 1) else word)
        ex.oblige(st, n % size == 0, 'memset', 'whole elements')
        cnt = simp(n / size)
        dl = ex.data_len(st, dst.b, kt, size)
        ex.oblige(st, z3.Or(cnt <= 0, z3.And(di >= 0, di + cnt <= dl)), 'bounds', 'memset within its object')
        ex.write_guard(st, dst.b)
        old = ex.content(st, kt, dst.b)
        new = mk(z3.ArraySort(I, sort_of(kt)), 'set')
        st.assume(QF(lambda k: z3.Select(new, k) == z3.If(z3.And(k >= di, k < di + cnt), val, z3.Select(old, k)), doc='memset'))
        ex.set_content(st, kt, dst.b, new)
        return None
    raise ToolLimit('memset ' + dst.k)

def c_floor(ex, st, a):
    """floor(x) (infinities are represented by +-2^1024, which is whole)"""
    x = a[0]
    if ex.is_i2d(x): return x
    r = mk(BV64, 'floor')
    vx = ex.real(st, x); vr = ex.real(st, r)
    st.assume(d_isnan(x) == d_isnan(r), z3.Implies(z3.Not(d_isnan(x)), z3.And(vr == z3.ToReal(z3.ToInt(vx)), (vx == vr) == d_eq(x, r))))
    return r
def c_refcnt(ex, st, a):
    """REFCNT(x): unknown; an object that nothing refers to may be written in place"""
    x = asref(a[0])
    s2 = st.fork(); r = mk(I, 'refcnt'); st.assume(r >= 1, r <= 65535)
    s2.g[('writable',)] = tuple(s2.g.get(('writable',), ())) + (x,)
    return [('ret', st, r), ('ret', s2, z3.IntVal(0))]
LIT = {}
def lit_code(s): return LIT.setdefault(s, len(LIT) + 1)
def cstr_of(ex, p):
    """code of a C string: literal globals get fixed codes"""
    if p.k == 'glob' and p.c == 0:
        nm = p.b.split('@')[0]
        for m in ex.mods:
            if p.b.endswith('@' + m.path) or p.b == nm:
                g = m.globals.get(nm)
                if g and g['init'] and g['init'][0] == 'str' and (p.b == nm or p.b.endswith('@' + m.path)):
                    return z3.IntVal(lit_code(g['init'][1]))
                if g and g['init'] and g['init'][0] == 'zero': return z3.IntVal(lit_code('c""'))
    if p.k == 'sexp': return CSTR(p.b)
    if p.k == 'data' and not p.t and p.c == 0: return CSTR(p.b)
    raise ToolLimit('string ' + repr(p))
def c_strcmp(ex, st, a):
    x, y = cstr_of(ex, a[0]), cstr_of(ex, a[1])
    r = mk(I, 'strcmp'); ex.rng(st, r, 32)
    st.assume((r == 0) == (x == y))
    return r
def c_R_CHAR(ex, st, a):
    return sx(z3.Function('R_CHAR', Ref, Ref)(asref(a[0])))
def c_vec_size(ex, st, a):
    r = asref(a[0]); st.assume(VSIZE(r) >= 0, VSIZE(r) <= MAXSIZE); return VSIZE(r)
def c_isnan_class(ex, st, a):
    m = simp(a[1]).as_long()
    x = a[0]
    if m == 3: return simp(d_isnan(x))
    if m == 0x3fc: return simp(z3.Not(d_isnan(x)))
    raise ToolLimit('is.fpclass mask')
def c_isnan(ex, st, a): return simp(z3.If(d_isnan(a[0]), z3.IntVal(1), z3.IntVal(0)))
def c_fabs(ex, st, a): return a[0] & d_const(0x7fffffffffffffff)
def c_smax(ex, st, a): return z3.If(a[0] >= a[1], a[0], a[1])
def c_smin(ex, st, a): return z3.If(a[0] <= a[1], a[0], a[1])
def c_abs(ex, st, a):
    x = a[0]
    if z3.is_bv(x): return z3.If(x < 0, -x, x)
    ex.oblige(st, x != INTMIN[32], 'overflow', 'abs argument is not INT_MIN')
    return z3.If(x >= 0, x, -x)

def c_setattr(ex, st, a):
    """attributes are recorded per (object, symbol); data is not affected"""
    st.g[('attr', asref(a[0]).get_id(), asref(a[1]).get_id())] = (asref(a[2]), asref(a[0]), asref(a[1]))
    return a[2]
ATTRIBF = z3.Function('ATTRIB', Ref, Ref)
def c_set_attrib(ex, st, a):
    """SET_ATTRIB(x, attributes) on a new object: its attributes from now on"""
    r = asref(a[0])
    if (ex.stamp(st, r) or 0) <= 0 or ('attrib', r.get_id()) in st.g: raise ToolLimit('SET_ATTRIB on an old object')
    st.g[('attrib', r.get_id())] = True
    st.assume(ATTRIBF(r) == asref(a[1]))
    return None
GETATTR = z3.Function('Rf_getAttrib', Ref, Ref, Ref)
def c_getattr(ex, st, a):
    r = GETATTR(asref(a[0]), asref(a[1]))
    st.assume(r != NULLREF)
    return sx(r)
def uf1(name, rng=None):
    F = z3.Function(name, Ref, Ref)
    def f(ex, st, a):
        r = F(asref(a[0])); st.assume(r != NULLREF); return sx(r)
    f.__name__ = name
    return f
def ufb(name):
    F = z3.Function(name, Ref, B)
    def f(ex, st, a): return F(asref(a[0]))
    f.__name__ = name
    return f

ERRS = ["r_abort", "r_abort_call", "Rf_errorcall", "Rf_error", "r_stop_internal", "r_stop_unreachable", "stop_internal", "stop_scalar_type",
        "stop_unimplemented_type", "stop_unimplemented_vctrs_type", "r_no_return", "never_reached", "stop_recycle_incompatible_size",
        "stop_incompatible_size", "stop_incompatible_type", "stop_corrupt_factor_levels", "stop_corrupt_ordered_levels",
        "stop_subscript_oob_location", "stop_subscript_oob_name", "stop_location_negative_missing", "stop_location_negative_positive",
        "stop_location_negative", "stop_location_zero", "stop_location_missing", "stop_subscript_missing", "stop_indicator_size", "stop_location_oob_non_consecutive",
        "r_stop_unimplemented_type", "stop_assert_size", "stop_recycle_incompatible_size"]

def base_contracts():
    C = {}
    for n, t in (("INTEGER", T_INT), ("INTEGER_RO", T_INT), ("LOGICAL", T_LGL), ("LOGICAL_RO", T_LGL), ("REAL", T_DBL), ("REAL_RO", T_DBL),
                 ("COMPLEX", T_CPLX), ("COMPLEX_RO", T_CPLX), ("RAW", T_RAW), ("RAW_RO", T_RAW), ("STRING_PTR", T_CHR), ("STRING_PTR_RO", T_CHR),
                 ("VECTOR_PTR_RO", T_LIST), ("r_int_begin", T_INT), ("r_int_cbegin", T_INT), ("r_lgl_begin", T_LGL), ("r_lgl_cbegin", T_LGL), ("r_dbl_begin", T_DBL),
                 ("r_dbl_cbegin", T_DBL), ("r_cpl_begin", T_CPLX), ("r_cpl_cbegin", T_CPLX), ("r_chr_cbegin", T_CHR)):
        C[n] = c_data(t)
    C["RAW"] = C["RAW_RO"] = C["r_raw_begin"] = C["r_raw_cbegin"] = c_rawdata
    C["DATAPTR_RO"] = C["DATAPTR"] = C["r_list_cbegin"] = c_dataptr
    C["Rf_protect"] = c_protect; C["Rf_unprotect"] = c_unprotect
    C["R_ProtectWithIndex"] = c_protect_idx; C["R_Reprotect"] = c_none
    C["R_PreserveObject"] = c_none; C["R_ReleaseObject"] = c_none; C["R_CheckUserInterrupt"] = c_none
    C["Rf_xlength"] = c_length; C["XLENGTH"] = c_length; C["r_length"] = c_length; C["Rf_length"] = c_length32; C["LENGTH"] = c_length32
    C["TYPEOF"] = c_typeof; C["r_typeof"] = c_typeof
    C["Rf_allocVector"] = c_alloc
    for n, t in (("r_alloc_integer", T_INT), ("r_new_integer", T_INT), ("r_alloc_logical", T_LGL), ("r_new_logical", T_LGL), ("r_alloc_double", T_DBL), ("r_alloc_character", T_CHR),
                 ("r_alloc_list", T_LIST), ("r_new_list", T_LIST), ("r_alloc_complex", T_CPLX), ("r_alloc_raw", T_RAW)):
        C[n] = c_alloc_t(t)
    C["Rf_ScalarInteger"] = C["r_int"] = c_scalar(T_INT, 'i32')
    C["Rf_ScalarLogical"] = C["r_lgl"] = c_scalar(T_LGL, 'i32')
    C["Rf_ScalarReal"] = c_scalar(T_DBL, 'f64')
    C["Rf_ScalarString"] = c_scalar(T_CHR, 'ref')
    C["VECTOR_ELT"] = C["STRING_ELT"] = C["r_list_get"] = C["r_chr_get"] = c_elt
    C["SET_VECTOR_ELT"] = C["SET_STRING_ELT"] = C["r_list_poke"] = C["r_chr_poke"] = c_setelt
    C["R_CHAR"] = c_R_CHAR; C["strcmp"] = c_strcmp
    C["llvm.is.fpclass.f64"] = c_isnan_class; C["R_IsNA"] = None; C["R_isnancpp"] = c_isnan; C["__isnan"] = c_isnan
    C["llvm.fabs.f64"] = c_fabs; C["abs"] = c_abs; C["llvm.abs.i32"] = lambda ex, st, a: c_abs(ex, st, a[:1])
    C["llvm.smax.i32"] = C["llvm.smax.i64"] = c_smax; C["llvm.smin.i32"] = C["llvm.smin.i64"] = c_smin
    C["llvm.memcpy.p0.p0.i64"] = c_memcpy; C["memcpy"] = c_memcpy
    C["llvm.memset.p0.i64"] = c_memset; C["memset"] = c_memset
    C["vec_size"] = c_vec_size
    C["r_peek_frame"] = c_fresh_ref('frame'); C["r_lazy_eval"] = c_fresh_ref('lazy')
    C["Rf_getAttrib"] = c_getattr; C["r_attrib_get"] = c_getattr
    C["Rf_setAttrib"] = C["r_attrib_poke"] = c_setattr
    C["ATTRIB"] = C["r_attrib"] = uf1('ATTRIB')
    C["SET_ATTRIB"] = c_set_attrib
    C["Rf_mkChar"] = C["Rf_mkCharCE"] = C["Rf_mkCharLenCE"] = c_fresh_ref("mkchar")
    C["llvm.floor.f64"] = C["floor"] = c_floor
    C["REFCNT"] = c_refcnt
    C["Rf_type2char"] = c_fresh_ref('typename')
    C["Rf_install"] = c_fresh_ref('sym')
    for e in ERRS: C[e] = c_err
    del C["R_IsNA"]
    return C

def base_globals():
    from engine import d_const
    return {
        'R_NilValue': sx(NILREF), 'R_NaInt': z3.IntVal(-2**31), 'R_NaReal': d_const(NA_REAL_BITS),
        'R_NaString': sx(NASTR),
        ('r_globals', 0): None,
    }
