"""C08: slicing."""
from speclib import *
from slicelib import *
def t_slice(ex, t, X, m, loc, na=None, name='sl'):
    """the part of the result already written is the slice"""
    if t.name != 'complex': return t_pointwise(ex, t.key, lambda e, k: sliced_el(t, X, e, loc(k), na), name)
    def tmpl(lc):
        cs = []
        for ky, ref in lc.arrays:
            if ky != 'f64': continue
            for v, (g, v0) in lc.ints.items():
                cs.append((f'{name}:{ref.sexpr()[:20]}:{v}', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), g(ls), lambda k: cplx(X, A, k, loc(k))))(ls.arr('f64', ref))))
        return cs
    ex.templates.append(tmpl)
def cplx(X, A, k, l):
    na = d_const(NA_REAL_BITS)
    return z3.And(*[z3.Select(A, 2 * k + p) == z3.If(l == NA, na, z3.Select(X, 2 * (l - 1) + p)) for p in (0, 1)])
def is_slice(ex, s, t, r, X, m, loc, na=None, text='element k is the element at location k, or the missing value'):
    A = ex.content(s, t.key, r)
    ex.oblige(s, LEN(r) == m, 'post', 'as many elements as locations')
    if t.name == 'complex': g = lambda k: cplx(X, A, k, loc(k))
    else: g = lambda k: sliced_el(t, X, z3.Select(A, k), loc(k), na)
    ex.oblige(s, QF(lambda k: z3.Implies(inr(k, m), g(k))), 'post', text)
DIMSYM, NAMESYM = z3.Const('glob_R_DimSymbol_0', Ref), z3.Const('glob_R_NamesSymbol_0', Ref)
def base(P, proxied=False):
    ex, st = P.engine({'OBJECT': lambda ex, st, a: z3.If(OBJ(asref(a[0])), z3.IntVal(1), z3.IntVal(0)), 'is_integer64': lambda ex, st, a: z3.BoolVal(False)})
    st.g[('nowrite',)] = True
    x, p = old_obj(ex, st, 'x'), old_obj(ex, st, 'proxy')
    meth = z3.Const('proxy_method', Ref); st.assume(meth != NULLREF, (meth != NILREF) == z3.BoolVal(proxied), x != NILREF, p != NILREF)
    if proxied: st.assume(OBJ(x))
    def method(ex, st, a):
        """vec_proxy_method(x): R_NilValue when x has no proxy method"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'the proxy method of x'); return sx(meth)
    def invoke(ex, st, a):
        """vec_proxy_invoke(x, method): the proxy of x, of the same size"""
        ex.oblige(st, z3.And(asref(a[0]) == x, asref(a[1]) == meth), 'arg', 'the proxy of x'); return sx(p)
    def btype(ex, st, a):
        """vec_base_typeof(x, proxied): the vctrs type of x (total function of its type and class)"""
        v = VTYPE(asref(a[0])); st.assume(v >= 0, v <= 255); return v
    def restore(ex, st, a):
        """vec_restore(out, x, owned): the same elements and names with the class and attributes of x"""
        ex.oblige(st, asref(a[1]) == x, 'arg', 'attributes are restored from x')
        st.g['restored'] = True
        return a[0]
    def altrep(ex, st, a):
        """ALTREP(x): unknown"""
        f = mk(B, 'altrep'); return z3.If(f, z3.IntVal(1), z3.IntVal(0))
    ex.contracts.update({'vec_proxy_method': method, 'vec_proxy_invoke': invoke, 'vec_base_typeof': btype, 'vec_restore': restore, 'ALTREP': altrep,
                         'MAYBE_REFERENCED': lambda ex, st, a: mk(I, 'referenced'), 'NO_REFERENCES': lambda ex, st, a: mk(I, 'unreferenced')})
    d = p if proxied else x
    return ex, st, x, d
def alt_contract(ex, t, X, m, loc):
    def alt(ex, st, a):
        """the extract method of an ALTREP class: no answer, or the elements at plain 1-based locations (NA missing)"""
        sub = asref(a[1]); A = ex.content(st, 'i32', sub)
        ex.oblige(st, z3.And(LEN(sub) == m, QF(lambda k: z3.Implies(inr(k, m), z3.Select(A, k) == loc(k))).inst(mk(I, 'k'))), 'arg', 'the method is given the locations themselves')
        s2 = st.fork()
        r = new_obj(ex, s2, t.rtype, m, 'new_alt'); R = ex.content(s2, t.key, r)
        s2.assume(QF(lambda k: z3.Implies(inr(k, m), cplx(X, R, k, loc(k)) if t.name == 'complex' else sliced_el(t, X, z3.Select(R, k), loc(k)))))
        return [('ret', st, NULL), ('ret', s2, sx(r))]
    return alt
def slice_case(P, t, kind, proxied):
    ex, st, x, d = base(P, proxied)
    set_dtype(st, d, t.rtype)
    st.assume(TYPE(d) == t.rtype, VTYPE(d) == t.vtype, LEN(d) <= MAXSIZE, z3.Or(ATTRIBF(x) == NILREF, GETATTR(x, sym_ref('dim')) == NILREF))
    if not proxied: st.assume(z3.Not(OBJ(x)))
    n = LEN(d); X = ex.content(st, t.key, d)
    sub, m, loc = subscript(ex, st, kind, n)
    NM = sym_ref('names'); ex.set_stamp(st, NM, 0)
    nms = GETATTR(x, NM); ex.set_stamp(st, nms, 0); set_dtype(st, nms, T_CHR)
    st.assume(z3.Or(nms == NILREF, z3.And(TYPE(nms) == T_CHR, LEN(nms) == n)))
    N = ex.content(st, 'ref', nms); EMPTY = sym_ref('empty', 'r_globals_strs', 'r_strs')
    t_slice(ex, t, X, m, loc)
    if t.key != 'ref': t_pointwise(ex, 'ref', lambda e, k: sliced_el(TYP['character'], N, e, loc(k), EMPTY), 'names')
    else: t_pointwise(ex, 'ref', lambda e, k: sliced_el(TYP['character'], N, e, loc(k), EMPTY), 'names')
    for v in ('ALTVEC_EXTRACT_SUBSET_PROXY',): ex.contracts[v] = alt_contract(ex, t, X, m, loc)
    t_pointwise(ex, 'i32', lambda e, k: e == loc(k), 'mat')
    if kind == 'sequence':
        def tm(lc):
            return [(f'walk:{a}:{b}', lambda ls, ga=ga, gb=gb, a0=a0, b0=b0: ga(ls) - a0 == z3.If(z3.Select(ex.content(ls.st, 'i32', sub), 2) == 1, gb(ls) - b0, b0 - gb(ls))) for a, (ga, a0) in lc.ints.items() for b, (gb, b0) in lc.ints.items() if a != b]
        ex.templates.append(tm)
    def post(s, v):
        r = v.ref()
        ex.oblige(s, TYPE(r) == t.rtype, 'post', 'of the same type')
        is_slice(ex, s, t, r, X, m, loc)
        on = attr_set(ex, s, r, NM)
        s1 = s.fork(); s1.assume(nms != NILREF)
        if on is None: ex.oblige(s1, z3.BoolVal(False), 'post', 'names are set')
        else:
            ex.oblige(s1, z3.And(TYPE(on) == T_CHR, LEN(on) == m), 'post', 'as many names as locations')
            A = ex.content(s1, 'ref', on)
            ex.oblige(s1, QF(lambda k: z3.Implies(inr(k, m), sliced_el(TYP['character'], N, z3.Select(A, k), loc(k), EMPTY))), 'post', 'names travel with their elements')
            s2 = s.fork(); s2.assume(nms == NILREF); ex.oblige(s2, on == NILREF, 'post', 'no names without names')
        ex.oblige(s, z3.BoolVal(bool(s.g.get('restored'))), 'post', 'attributes are restored')
    P.run(ex, st, 'vec_slice_unsafe', [sx(x), sx(sub)], post, False)
for _t in ITYPES:
    for _k in KINDS:
        case('C08', f'slice {_t.name} by {_k}', 'vec_slice_unsafe')(lambda P, t=_t, k=_k: slice_case(P, t, k, False))
    case('C08', f'slice {_t.name} (proxy) by locations', 'vec_slice_unsafe')(lambda P, t=_t: slice_case(P, t, 'locations', True))
# ---------------------------------------------------------------- data frames
SLICEF = z3.Function('slice_of_column', Ref, Ref)
UNIQ = z3.Function('as_unique_names', Ref, Ref)
def df_case(P, kind, rn_chr, proxied):
    ex, st, x, d = base(P, proxied)
    ex.noterm = ex.noterm | {'slice_of_column'}
    st.assume(TYPE(d) == T_LIST, VTYPE(d) == VT['dataframe']); set_dtype(st, d, T_LIST)
    if not proxied: st.assume(OBJ(x))
    n = VSIZE(d); st.assume(n >= 0, n <= MAXSIZE, LEN(d) <= MAXSIZE)
    X = ex.content(st, 'ref', d)
    ex.defs.append(QF(lambda k: z3.Implies(inr(k, LEN(d)), z3.And(z3.Select(X, k) != NULLREF, VSIZE(z3.Select(X, k)) >= 0))))
    ex.defs.append(QF(lambda k: SLICEF(z3.Select(X, k)) != NULLREF))
    sub, m, loc = subscript(ex, st, kind, n)
    rn = z3.Const('row_names', Ref); ex.set_stamp(st, rn, 0); set_dtype(st, rn, T_CHR if rn_chr else T_INT)
    st.assume(rn != NULLREF, rn != NILREF, TYPE(rn) == (T_CHR if rn_chr else T_INT), LEN(rn) <= MAXSIZE)
    if rn_chr: st.assume(LEN(rn) == n)
    N = ex.content(st, 'ref', rn) if rn_chr else None
    def inner(ex, st, a):
        """vec_slice_unsafe(column, subscript) (this property, for the column)"""
        ex.oblige(st, asref(a[1]) == sub, 'arg', 'every column is sliced with the subscript'); return sx(SLICEF(asref(a[0])))
    def rows(ex, st, a):
        """df_rownames(x): the row names attribute"""
        ex.oblige(st, asref(a[0]) == d, 'arg', 'row names of the data frame'); return sx(rn)
    def size(ex, st, a):
        """df_size(x): the number of rows (C13)"""
        ex.oblige(st, asref(a[0]) == d, 'arg', 'size of the data frame'); return n
    def uniq(ex, st, a):
        """vec_as_unique_names(names): repaired row names"""
        st.g['uniq'] = asref(a[0]); r = UNIQ(asref(a[0])); st.assume(r != NULLREF); return sx(r)
    ex.contracts.update({'vec_slice_unsafe': inner, 'df_rownames': rows, 'df_size': size, 'df_raw_size': size, 'vec_as_unique_names': uniq})
    t_pointwise(ex, 'ref', lambda e, k: e == SLICEF(z3.Select(X, k)), 'cols')
    def tsz(lc):
        return [(f'sizes:{v}', lambda ls, g=g: rngq(z3.IntVal(0), g(ls), lambda k: VSIZE(z3.Select(X, k)) == n)) for v, (g, v0) in lc.ints.items()]
    ex.templates.append(tsz)
    if rn_chr: t_slice(ex, TYP['character'], N, m, loc, None, 'rn')
    t_pointwise(ex, 'i32', lambda e, k: e == loc(k), 'mat')
    for v in ('ALTVEC_EXTRACT_SUBSET_PROXY',):
        if rn_chr: ex.contracts[v] = alt_contract(ex, TYP['character'], N, m, loc)
    if kind == 'sequence':
        def tm(lc):
            return [(f'walk:{a}:{b}', lambda ls, ga=ga, gb=gb, a0=a0, b0=b0: ga(ls) - a0 == z3.If(z3.Select(ex.content(ls.st, 'i32', sub), 2) == 1, gb(ls) - b0, b0 - gb(ls))) for a, (ga, a0) in lc.ints.items() for b, (gb, b0) in lc.ints.items() if a != b]
        ex.templates.append(tm)
    nms = GETATTR(d, sym_ref('names')); ex.set_stamp(st, nms, 0); set_dtype(st, nms, T_CHR)
    st.assume(nms != NILREF, nms != NULLREF, TYPE(nms) == T_CHR, LEN(nms) == LEN(d))
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'ref', r)
        ex.oblige(s, z3.And(TYPE(r) == T_LIST, LEN(r) == LEN(d)), 'post', 'the same columns')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, LEN(d)), z3.Select(R, k) == SLICEF(z3.Select(X, k)))), 'post', 'every column is the slice of the column')
        on = attr_set(ex, s, r, sym_ref('names'))
        if on is None: ex.oblige(s, z3.BoolVal(False), 'post', 'column names')
        else: ex.oblige(s, z3.Or(on == nms, LEN(d) == 0), 'post', 'column names are kept')
        w = attr_set(ex, s, r, sym_ref('row_names'))
        if w is None: ex.oblige(s, z3.BoolVal(False), 'post', 'row names')
        elif rn_chr:
            u = s.g.get('uniq')
            if u is None: ex.oblige(s, z3.BoolVal(False), 'post', 'row names are sliced')
            else:
                ex.oblige(s, z3.And(w == UNIQ(u), LEN(u) == m), 'post', 'row names are the repaired slice of the row names')
                A = ex.content(s, 'ref', u)
                ex.oblige(s, QF(lambda k: z3.Implies(inr(k, m), sliced_el(TYP['character'], N, z3.Select(A, k), loc(k)))), 'post', 'row names travel with their rows')
        else:
            W = ex.content(s, 'i32', w)
            s1 = s.fork(); s1.assume(m > 0); ex.oblige(s1, z3.And(LEN(w) == 2, z3.Select(W, 0) == NA, z3.Select(W, 1) == -m), 'post', 'as many rows as locations')
            s2 = s.fork(); s2.assume(m == 0); ex.oblige(s2, w == z3.Const(f'r_globals_empty_{T_INT}', Ref), 'post', 'no rows for no locations')
        ex.oblige(s, z3.BoolVal(bool(s.g.get('restored'))), 'post', 'attributes are restored')
    def err(s, why):
        k = z3.Int('k!bad')
        refute(ex, s, [QF(lambda k: z3.Implies(inr(k, LEN(d)), VSIZE(z3.Select(X, k)) == n))], 'a valid data frame is sliced without error')
    P.run(ex, st, 'vec_slice_unsafe', [sx(x), sx(sub)], post, err)
for _k in KINDS:
    for _c in (False, True):
        case('C08', f'slice data frame by {_k}{", character row names" if _c else ""}', 'vec_slice_unsafe')(lambda P, k=_k, c=_c: df_case(P, k, c, False))
case('C08', 'slice data frame (proxy) by locations', 'vec_slice_unsafe')(lambda P: df_case(P, 'locations', False, True))
# ---------------------------------------------------------------- classes sliced by their own `[`
def fallback(P, kind, dims):
    ex, st, x, d = base(P, False)
    n = VSIZE(x); st.assume(n >= 0, n <= MAXSIZE, OBJ(x), VTYPE(x) != VT['dataframe'], VTYPE(x) != VT['scalar'])
    dm = GETATTR(x, sym_ref('dim')); ex.set_stamp(st, dm, 0)
    if dims: st.assume(ATTRIBF(x) != NILREF, dm != NILREF)
    else: st.assume(dm == NILREF)
    sub, m, loc = subscript(ex, st, kind, n)
    t_pointwise(ex, 'i32', lambda e, k: e == loc(k), 'mat')
    if kind == 'sequence':
        def tm(lc):
            return [(f'walk:{a}:{b}', lambda ls, ga=ga, gb=gb, a0=a0, b0=b0: ga(ls) - a0 == z3.If(z3.Select(ex.content(ls.st, 'i32', sub), 2) == 1, gb(ls) - b0, b0 - gb(ls))) for a, (ga, a0) in lc.ints.items() for b, (gb, b0) in lc.ints.items() if a != b]
        ex.templates.append(tm)
    out = z3.Const('bracket_result', Ref); ex.set_stamp(st, out, 0); st.assume(out != NULLREF)
    DONE = z3.Bool('restored_by_method')
    def dispatch(name):
        def f(ex, st, a):
            s_ = asref(a[-1]); A = ex.content(st, 'i32', s_)
            ex.oblige(st, asref(a[0]) == x, 'arg', 'x is sliced')
            ex.oblige(st, z3.And(LEN(s_) == m), 'arg', 'a subscript of the same size')
            ex.oblige(st, QF(lambda k: z3.Implies(inr(k, m), z3.Select(A, k) == loc(k))), 'arg', 'the method is given the plain locations')
            st.g['bracket'] = name; return [('ret', st, sx(out)), ('err', st.fork(), 'method')]
        f.__doc__ = f"""{name}(x, i): the class's own `[` method (unknown), given plain locations"""
        return f
    def done(ex, st, a):
        """vec_is_restored(out, x): whether the `[` method restored the attributes itself"""
        return z3.If(DONE, z3.IntVal(1), z3.IntVal(0)) if False else DONE
    ex.contracts.update({'vec_slice_fallback': dispatch('vec_slice_fallback'), 'vec_slice_dispatch': dispatch('vec_slice_dispatch'), 'vec_is_restored': done})
    for nm in ('vctrs_dispatch2',):
        def g(ex, st, a):
            """R-level `[` (or the array fallback) called with x and i (unknown method)"""
            return dispatch('method')(ex, st, [a[3], a[5]])
        ex.contracts[nm] = g
    del ex.contracts['vec_slice_fallback'], ex.contracts['vec_slice_dispatch']
    def post(s, v):
        ex.oblige(s, v.ref() == out, 'post', 'what `[` returns')
        if not s.g.get('restored'): ex.oblige(s, DONE, 'post', 'attributes are restored unless the method did it')
        else: ex.oblige(s, z3.Not(DONE), 'post', 'attributes a method restored are left alone')
        if 'bracket' not in s.g: ex.oblige(s, z3.BoolVal(False), 'post', 'the `[` method is called')
    P.run(ex, st, 'vec_slice_unsafe', [sx(x), sx(sub)], post, lambda s, why: None)
for _k in KINDS:
    for _d in (False, True):
        case('C08', f'slice by the `[` method, {_k}{", array" if _d else ""}', 'vec_slice_unsafe', cost=2)(lambda P, k=_k, d=_d: fallback(P, k, d))
# ---------------------------------------------------------------- subscripts and entry points
def compact(P, what):
    ex, st = P.engine({})
    st.g[('nowrite',)] = True
    i, n = z3.Ints('start size'); up = z3.Bool('increasing')
    st.assume(SEQA != REPA)
    for v in (i, n): st.assume(v >= -2**31, v <= MAXSIZE)
    if what == 'seq': st.assume(i < MAXSIZE)
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'i32', r)
        if what == 'seq': ex.oblige(s, z3.And(ATTRIBF(r) == SEQA, TYPE(r) == T_INT, LEN(r) == 3, z3.Select(A, 0) == i, z3.Select(A, 1) == n, z3.Select(A, 2) == z3.If(up, z3.IntVal(1), z3.IntVal(-1)), n >= 0, i >= 0), 'post', 'a sequence of n locations from start')
        else: ex.oblige(s, z3.And(ATTRIBF(r) == REPA, TYPE(r) == T_INT, LEN(r) == 2, z3.Select(A, 0) == i, z3.Select(A, 1) == n, n >= 0), 'post', 'n copies of i')
    def err(s, why): ex.oblige(s, z3.Or(n < 0, i < 0, z3.And(z3.Not(up), n > i + 1)) if what == 'seq' else n < 0, 'post', 'only impossible subscripts are rejected')
    P.run(ex, st, 'compact_' + what, [i, n] + ([up] if what == 'seq' else []), post, err)
for _w in ('seq', 'rep'): case('C08', f'compact {_w}', 'compact_' + _w, cost=1)(lambda P, w=_w: compact(P, w))
def init_(P):
    ex, st = P.engine({'vec_slice_unsafe': c_slice_rec, 'obj_check_vector': lambda ex, st, a: [('ret', st, None), ('err', st.fork(), 'not a vector')]})
    st.g[('nowrite',)] = True
    ex.contracts['r_c_str_format_error_arg'] = c_none
    x = old_obj(ex, st, 'x'); n = z3.Int('n'); st.assume(n >= -2**31, n <= MAXSIZE)
    def post(s, v):
        sl = slice_of(s, v.ref())
        if sl is None: ex.oblige(s, z3.BoolVal(False), 'post', 'a slice of x'); return
        A = ex.content(s, 'i32', sl[1])
        ex.oblige(s, z3.And(sl[0] == x, ATTRIBF(sl[1]) == REPA, LEN(sl[1]) == 2, z3.Select(A, 0) == NA, z3.Select(A, 1) == n, n >= 0), 'post', 'the slice of x at n missing locations')
    P.run(ex, st, 'vec_init', [sx(x), n], post, lambda s, why: (why == 'not a vector') or ex.oblige(s, n < 0, 'post', 'only negative sizes are rejected'))
case('C08', 'vec_init', 'vec_init', cost=1)(init_)
def entry(P, fn):
    ex, st = P.engine({'vec_slice_unsafe': c_slice_rec, 'obj_check_vector': lambda ex, st, a: [('ret', st, None), ('err', st.fork(), 'not a vector')]})
    st.g[('nowrite',)] = True
    x, i, frame = old_obj(ex, st, 'x'), old_obj(ex, st, 'i'), old_obj(ex, st, 'frame')
    NMS = z3.Const('names_of_x', Ref); ex.set_stamp(st, NMS, 0); LOC = z3.Const('locations', Ref); ex.set_stamp(st, LOC, 0); st.assume(LOC != NULLREF, NMS != NULLREF)
    def names(ex, st, a):
        """vec_names(x): the names of x"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'names of x'); return sx(NMS)
    def aloc(ex, st, a):
        """vec_as_location(i, n, names): locations of i in a vector of size n with these names (C10), or an error"""
        ex.oblige(st, z3.And(asref(a[0]) == i, a[1] == VSIZE(x), asref(a[2]) == NMS), 'arg', 'i is resolved against the size and names of x')
        return [('ret', st, sx(LOC)), ('err', st.fork(), 'subscript')]
    ex.contracts.update({'vec_names': names, 'vec_as_location_ctxt': aloc, 'vec_as_location': aloc, 'vec_as_location_opts': aloc})
    def post(s, v):
        sl = slice_of(s, v.ref())
        ex.oblige(s, z3.And(sl[0] == x, sl[1] == LOC) if sl else z3.BoolVal(False), 'post', 'the slice of x at the locations of i')
    P.run(ex, st, 'ffi_slice', [sx(x), sx(i), sx(frame)], post, lambda s, why: ex.oblige(s, z3.BoolVal(why in ('not a vector', 'subscript')), 'post', 'errors come from the checks of x and i'))
case('C08', 'vec_slice', 'ffi_slice', cost=1)(lambda P: entry(P, 'ffi_slice'))
