"""C01: equality.

vctrs_equal() is proved per storage type, and for data frames over a column contract proved per type
(both missing-value modes).  equal_object() is proved per kind of object; recursive calls are replaced
by the contract of the function itself, an equivalence relation on the parts."""
from speclib import *
COLS = ('vec_equal_col_na_equal', 'vec_equal_col_na_propagate')
NA_LGL = -2**31

def miss(t, A, k):
    return z3.Select(A, k) == NILREF if t.name == 'list' else t.miss(A, k)
def result(t, A, i, Bv, j, na_equal):
    """the documented value of x[[i]] == y[[j]]"""
    return z3.If(z3.And(z3.Not(na_equal), z3.Or(miss(t, A, i), miss(t, Bv, j))), z3.IntVal(NA_LGL), b2i(eq_el(t, A, i, Bv, j)))

def base(P, size=True):
    ex, st = P.engine({'vec_proxy_typeof': c_vec_proxy_typeof, 'obj_check_vector': c_none, 'equal_object_normalized': c_equal_object,
                       'vec_normalize_encoding': c_same('vec_normalize_encoding')})
    st.g[('nowrite',)] = True
    na = z3.Bool('na_equal')
    ex.contracts['r_bool_as_int'] = lambda ex, st, a: b2i(na)
    ex.contracts['r_arg_as_bool'] = lambda ex, st, a: na
    x, y = old_obj(ex, st, 'x'), old_obj(ex, st, 'y')
    return ex, st, x, y, na
def proxies(ex, st, x, y, px, py):
    def proxy(ex, st, a):
        """vec_proxy_equal(x): assumed to be the value that equality is defined on (dispatch on R classes)"""
        r = asref(a[0])
        if r.eq(x): return sx(px)
        if r.eq(y): return sx(py)
        raise ToolLimit('proxy of something else')
    ex.contracts['vec_proxy_equal'] = proxy
    # the proxies are distinct from what they stand for

def vec_case(P, t):
    ex, st, x, y, na = base(P)
    px, py = typed_vec(ex, st, 'px', t), typed_vec(ex, st, 'py', t)
    proxies(ex, st, x, y, px, py)
    A, Bv = ex.content(st, t.key, px), ex.content(st, t.key, py); n = LEN(px)
    want = lambda k: result(t, A, k, Bv, k, na)
    t_pointwise(ex, 'i32', lambda e, k: e == want(k), 'eq')
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, LEN(px) == LEN(py), 'post', 'only vectors of one size are compared')
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == n), 'post', 'a logical vector of the common size')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == want(k))), 'post', 'element-wise equality, or missing when asked to propagate')
    def err(s, why):
        ex.oblige(s, LEN(px) != LEN(py), 'error', 'vectors of one type and size are always comparable')
    P.run(ex, st, 'vctrs_equal', [sx(x), sx(y), sx(old_obj(ex, st, 'na'))], post, err)
def mismatch_case(P):
    ex, st, x, y, na = base(P)
    px, py = old_obj(ex, st, 'px'), old_obj(ex, st, 'py')
    st.assume(z3.Or(VTYPE(px) != VTYPE(py), VSIZE(px) != VSIZE(py)), VTYPE(px) >= 0, VTYPE(py) >= 0, VTYPE(px) <= 255, VTYPE(py) <= 255)
    proxies(ex, st, x, y, px, py)
    P.need_reach = False
    def post(s, v): ex.oblige(s, z3.BoolVal(False), 'post', 'types or sizes that differ are an error')
    def err(s, why): ex.oblige(s, z3.Or(VTYPE(px) != VTYPE(py), VSIZE(px) != VSIZE(py)), 'error', 'an error only on a mismatch')
    P.run(ex, st, 'vctrs_equal', [sx(x), sx(y), sx(old_obj(ex, st, 'na'))], post, err)

# ------------------------------------------------------------------ data frames
COLRES = z3.Function('column_result', I, I, I)        # column, row -> 1, 0 or NA
RES = z3.Function('rows_result', I, I, I)             # the first c columns -> 1, or the first value that is not 1
UC = z3.Function('count_undecided', I, I, I)          # among rows [0, k), after c columns

def col_case(P, t, prop):
    fn = COLS[1 if prop else 0]
    if not has_func(P, fn): return skip(P, fn + ' no longer exists')
    ex, st, x, y, na = base(P)
    n = z3.Int('size'); st.assume(n >= 0, n <= MAXSIZE)
    px, py = typed_vec(ex, st, 'colx', t, n), typed_vec(ex, st, 'coly', t, n)
    A, Bv = ex.content(st, t.key, px), ex.content(st, t.key, py)
    res = lambda k: result(t, A, k, Bv, k, z3.BoolVal(not prop))
    out = new_obj(ex, st, T_LGL, n, 'new_out'); O0 = mk(z3.ArraySort(I, I), 'out0'); ex.set_content(st, 'i32', out, O0)
    kn = new_obj(ex, st, T_RAW, n, 'new_known'); K0 = mk(z3.ArraySort(I, I), 'known0'); ex.set_content(st, 'i8', kn, K0)
    knv = new_obj(ex, st, T_RAW, n, 'new_knv')
    st.assume(QF(lambda k: z3.And(z3.Select(K0, k) >= 0, z3.Select(K0, k) <= 1)))
    U0 = z3.Function('undecided_before', I, I); CN = z3.Function('decided_now', I, I)
    RESF, NEWLY = z3.Function('element_result', I, I), z3.Function('newly_decided', I, B)
    el = res
    ex.defs.append(QF(lambda k: z3.And(RESF(k) == el(k), NEWLY(k) == z3.And(z3.Select(K0, k) == 0, RESF(k) <= 0))))
    res, newly = lambda k: RESF(k), lambda k: NEWLY(k)
    count_def(ex, P, U0, lambda k: z3.Select(K0, k) == 0, n, 'undecided')
    count_def(ex, P, CN, newly, n, 'decided')
    k = z3.Int('kk')
    P.lemma(ex, 'decided now were undecided, step', [k >= 0, CN(k) <= U0(k)], CN(k + 1) <= U0(k + 1))
    ex.defs.append(QF(lambda k: z3.Implies(k >= 0, CN(k) <= U0(k))))
    info = new_info(ex, st, knv, kn, U0(n), n)
    ex.max_multi = 60
    t_pointwise(ex, 'i32', lambda e, k: e == z3.If(newly(k), res(k), z3.Select(O0, k)), 'out')
    t_pointwise(ex, 'i8', lambda e, k: e == z3.If(newly(k), 1, z3.Select(K0, k)), 'known')
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key not in ('i32', 'i8'): continue
            old = O0 if key == 'i32' else K0
            for v, (g, v0) in lc.ints.items():
                cs.append((f'rest:{key}:{v}', lambda ls, g=g, key=key, ref=ref, old=old: (lambda Z: QF(lambda k: z3.Implies(k >= g(ls), z3.Select(Z, k) == z3.Select(old, k))))(ls.arr(key, ref))))
        for a, (ga, a0) in lc.ints.items():
            for b, (gb, b0) in lc.ints.items():
                if a != b: cs.append((f'rem:{a}:{b}', lambda ls, ga=ga, gb=gb: ga(ls) == U0(n) - CN(gb(ls))))
        return cs
    ex.templates.append(tmpl)
    st.assume(U0(n) >= 0)
    def post(s, v):
        O1, K1 = ex.content(s, 'i32', out), ex.content(s, 'i8', kn)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(O1, k) == z3.If(newly(k), res(k), z3.Select(O0, k)))), 'post', 'rows decided by this column get its result')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(K1, k) == z3.If(newly(k), 1, z3.Select(K0, k)))), 'post', 'exactly those rows become known')
        ex.oblige(s, info_remaining(ex, s, info) == U0(n) - CN(n), 'post', 'the remaining count drops by their number')
    P.run(ex, st, fn, [sx(px), sx(py), P_('data', out), info], post, False)


def df_case(P):
    if not all(has_func(P, f) for f in COLS): return skip(P, 'restructured')
    ex, st, x, y, na = base(P)
    px, py = old_obj(ex, st, 'px', T_LIST), old_obj(ex, st, 'py', T_LIST)
    n, nc = VSIZE(px), LEN(px)
    st.assume(VTYPE(px) == VT['dataframe'], VTYPE(py) == VT['dataframe'], VSIZE(px) >= 0, VSIZE(py) >= 0, n <= MAXSIZE, VSIZE(py) <= MAXSIZE, nc <= MAXSIZE, LEN(py) <= MAXSIZE)
    proxies(ex, st, x, y, px, py)
    X, Y = ex.content(st, 'ref', px), ex.content(st, 'ref', py)
    ex.defs.append(QF(lambda c, k: RES(c, k) == z3.If(c <= 0, 1, z3.If(RES(c - 1, k) <= 0, RES(c - 1, k), COLRES(c - 1, k))), n=2))
    ex.defs.append(QF(lambda c, k: z3.Implies(c >= 0, RES(c + 1, k) == z3.If(RES(c, k) <= 0, RES(c, k), COLRES(c, k))), n=2))
    ex.defs.append(QF(lambda c, k: COLRES(c, k) <= 1, n=2))
    c, d, k, m = z3.Ints('c d k m')
    P.lemma(ex, 'a decided row stays decided', [c >= 0, d >= c, RES(c, k) <= 0, RES(d, k) == RES(c, k)], RES(d + 1, k) == RES(c, k))
    ex.defs.append(QF(lambda c, d, k: z3.Implies(z3.And(c >= 0, d >= c, RES(c, k) <= 0), RES(d, k) == RES(c, k)), n=3))
    ex.defs.append(QF(lambda c, k: z3.Implies(k >= 0, UC(c, k + 1) == UC(c, k) + z3.If(RES(c, k) <= 0, 0, 1)), n=2))
    ex.defs.append(QF(lambda c, k: UC(c, 0) == 0, n=2))
    P.lemma(ex, 'count is not negative, step', [k >= 0, UC(c, k) >= 0], UC(c, k + 1) >= 0)
    ex.defs.append(QF(lambda c, k: z3.Implies(k >= 0, UC(c, k) >= 0), n=2))
    P.lemma(ex, 'no undecided row is left when the count is zero, step', [k >= 0, m > k, z3.Implies(RES(c, k) > 0, UC(c, m) > 0), m >= 0], z3.Implies(RES(c, k) > 0, UC(c, m + 1) > 0))
    P.lemma(ex, 'no undecided row is left when the count is zero, base', [k >= 0, RES(c, k) > 0], UC(c, k + 1) > 0)
    ex.defs.append(QF(lambda c, k: z3.Implies(z3.And(k >= 0, k < n, RES(c, k) > 0), UC(c, n) > 0), n=2))
    P.lemma(ex, 'initially every row is undecided, step', [k >= 0, UC(0, k) == k], UC(0, k + 1) == k + 1)
    ex.defs.append(QF(lambda k: z3.Implies(k >= 0, UC(0, k) == k)))
    ghost_set(ex, st, 'ncols', z3.IntVal(0))
    def col(mode):
        def f(ex, st, a):
            """vec_equal_col_*(x, y, p_out, p_info): decides the undecided rows by one column (proved per type)"""
            g = ghost_get(st, 'ncols'); kn = ex.load(st, a[3].add(INFO['p_row_known']), Ty('ptr'), ex.mods[0])
            ex.oblige(st, na == z3.BoolVal(mode), 'arg', 'the column function of the asked mode')
            ex.oblige(st, z3.And(asref(a[0]) == z3.Select(X, g), asref(a[1]) == z3.Select(Y, g), g < nc), 'arg', 'columns are compared in order, with their counterpart')
            sz = ex.load(st, a[3].add(INFO['size']), Ty('i', 32), ex.mods[0])
            ex.oblige(st, z3.And(sz == n, info_remaining(ex, st, a[3]) == UC(g, n)), 'arg', 'size and number of undecided rows')
            K, O = ex.content(st, 'i8', kn.b), ex.content(st, 'i32', a[2].b)
            ex.oblige(st, QF(lambda k: z3.Implies(inr(k, n), z3.Select(K, k) == b2i(RES(g, k) <= 0))), 'arg', 'the known rows are those decided so far')
            ex.oblige(st, QF(lambda k: z3.Implies(inr(k, n), z3.Select(O, k) == RES(g, k))), 'arg', 'the results so far')
            ex.oblige(st, z3.And(LEN(kn.b) == n, LEN(a[2].b) == n), 'arg', 'one entry per row')
            K1, O1 = mk(z3.ArraySort(I, I), 'K1'), mk(z3.ArraySort(I, I), 'O1')
            ex.write_guard(st, a[2].b); ex.write_guard(st, kn.b)
            st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.And(z3.Select(K1, k) == b2i(RES(g + 1, k) <= 0), z3.Select(O1, k) == RES(g + 1, k)))))
            ex.set_content(st, 'i8', kn.b, K1); ex.set_content(st, 'i32', a[2].b, O1)
            ex.store(st, a[3].add(INFO['remaining']), UC(g + 1, n), Ty('i', 32), ex.mods[0])
            ghost_set(ex, st, 'ncols', g + 1)
            return None
        return f
    ex.contracts[COLS[0]], ex.contracts[COLS[1]] = col(True), col(False)
    t_pointwise(ex, 'i32', lambda e, k: e == 1, 'init')
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key == 'i32': cs.append((f'res:{ref}', lambda ls, ref=ref: (lambda A, g: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == RES(g, k)))(ls.arr(key, ref), ls.ghost('ncols'))))
            if key == 'i8': cs.append((f'known:{ref}', lambda ls, ref=ref: (lambda A, g: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == b2i(RES(g, k) <= 0)))(ls.arr('i8', ref), ls.ghost('ncols'))))
        for a, (ga, _) in lc.ints.items():
            cs.append((f'col:{a}', lambda ls, ga=ga: ga(ls) == ls.ghost('ncols')))
            cs.append((f'rem:{a}', lambda ls, ga=ga: ga(ls) == UC(ls.ghost('ncols'), n)))
        return cs
    ex.templates.append(tmpl)
    ex.max_multi = 60
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(LEN(px) == LEN(py), VSIZE(px) == VSIZE(py)), 'post', 'only data frames of one shape are compared')
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == n), 'post', 'one result per row')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == RES(nc, k))), 'post', 'the first column result that is not TRUE, else TRUE')
    def err(s, why): ex.oblige(s, z3.Or(LEN(px) != LEN(py), VSIZE(px) != VSIZE(py)), 'error', 'data frames of one shape are always comparable')
    P.run(ex, st, 'vctrs_equal', [sx(x), sx(y), sx(old_obj(ex, st, 'na'))], post, err)

for _t in ITYPES:
    case('C01', f'vec_equal {_t.name}', 'vctrs_equal', cost=5)(lambda P, t=_t: vec_case(P, t))
    for _p in (0, 1):
        case('C01', f'{COLS[_p]} {_t.name}', COLS[_p], cost=10)(lambda P, t=_t, p=_p: col_case(P, t, bool(p)))
case('C01', 'vec_equal data frame', 'vctrs_equal', cost=10)(lambda P: df_case(P))
case('C01', 'vec_equal mismatch', 'vctrs_equal', cost=1)(lambda P: mismatch_case(P))

# ------------------------------------------------------------------ equality of objects
ATTEQ = z3.Function('attributes_equal', Ref, Ref, B)
CARF, CDRF, TAGF = (z3.Function(f, Ref, Ref) for f in ('CAR', 'CDR', 'TAG'))
def obj_base(P):
    ex, st = P.engine({'equal_object_normalized': c_equal_object, 'vec_normalize_encoding': c_same('vec_normalize_encoding')})
    st.g[('nowrite',)] = True
    for f, F in (('CAR', CARF), ('CDR', CDRF), ('TAG', TAGF)):
        ex.contracts[f] = ex.contracts['r_node_' + f.lower()] = uf1(f)
    for f in ('BODY', 'CLOENV', 'FORMALS'): ex.contracts[f] = uf1(f)
    ex.unfold['attributes_equal'] = lambda a, b: ATTEQ(a, b) == z3.If(a == NILREF, b == NILREF, z3.And(b != NILREF, TAGF(a) == TAGF(b), EQOBJ(CARF(a), CARF(b)), ATTEQ(CDRF(a), CDRF(b))))
    ex.unfold['equal_object'] = lambda a, b: z3.And(EQOBJ(a, b) == EQOBJ(b, a), z3.Implies(a == b, EQOBJ(a, b)))
    x, y = old_obj(ex, st, 'x'), old_obj(ex, st, 'y')
    return ex, st, x, y
def t_atteq(ex, a0, b0):
    def tmpl(lc):
        cs = []
        for a, (ga, _) in lc.ptrs.items():
            for b, (gb, _) in lc.ptrs.items():
                if a == b: continue
                def c(ls, ga=ga, gb=gb):
                    va, vb = ga(ls), gb(ls)
                    if not all(isinstance(v, P_) and v.k == 'sexp' for v in (va, vb)): return None
                    return ATTEQ(a0, b0) == ATTEQ(va.b, vb.b)
                cs.append((f'att:{a}:{b}', c))
        return cs
    ex.templates.append(tmpl)
VEC = {T_LGL: 'logical', T_INT: 'integer', T_DBL: 'double', T_CPLX: 'complex', T_CHR: 'character', T_RAW: 'raw', T_LIST: 'list', 20: 'list'}
def obj_vec(P, rt):
    ex, st, x, y = obj_base(P)
    t = TYP[VEC[rt]]
    st.assume(TYPE(x) == rt, TYPE(y) == rt); set_dtype(st, x, t.rtype); set_dtype(st, y, t.rtype)
    ex.check_types = rt != 20
    A, Bv = ex.content(st, t.key, x), ex.content(st, t.key, y)
    t_atteq(ex, ATTRIBF(x), ATTRIBF(y))
    t_prefix(ex, lambda k: eq_el(t, A, k, Bv, k), 'eqpre')
    # the reverse: an object equals itself element by element
    parts = [LEN(x) == LEN(y), ATTEQ(ATTRIBF(x), ATTRIBF(y))]
    alleq = QF(lambda k: z3.Implies(inr(k, LEN(x)), eq_el(t, A, k, Bv, k)))
    def post(s, v):
        r = v if z3.is_bool(v) else v != 0
        for_true, for_false = s.fork(), s.fork()
        for_true.assume(r, x != y); for_false.assume(z3.Not(r))
        for p, tx in zip(parts, ('equal objects have one length', 'equal objects have equal attributes')): ex.oblige(for_true, p, 'post', tx)
        ex.oblige(for_true, alleq, 'post', 'equal objects are equal element by element')
        refute(ex, for_false, parts + [alleq], 'objects of equal type, length, attributes and elements are equal')
        refute(ex, for_false, [x == y], 'an object equals itself')
    P.run(ex, st, 'equal_object_normalized', [sx(x), sx(y)], post, False)
def obj_ptr(P):
    ex, st, x, y = obj_base(P)
    st.assume(z3.Or(*[TYPE(x) == k for k in (0, 1, 4, 7, 8, 9, 22)]))
    def post(s, v): ex.oblige(s, (v if z3.is_bool(v) else v != 0) == (x == y), 'post', 'reference objects are equal when identical')
    st.assume(TYPE(x) == TYPE(y))
    P.run(ex, st, 'equal_object_normalized', [sx(x), sx(y)], post, False)
def obj_types(P):
    ex, st, x, y = obj_base(P)
    st.assume(TYPE(x) != TYPE(y))
    def post(s, v): ex.oblige(s, z3.Not(v if z3.is_bool(v) else v != 0), 'post', 'objects of different types differ')
    P.run(ex, st, 'equal_object_normalized', [sx(x), sx(y)], post, False)
def obj_node(P, rt, parts):
    ex, st, x, y = obj_base(P)
    st.assume(TYPE(x) == rt, TYPE(y) == rt)
    F = lambda n: z3.Function(n, Ref, Ref)
    same = z3.And(*[(F(p)(x) == F(p)(y)) if p == 'TAG' else EQOBJ(F(p)(x), F(p)(y)) for p in parts])
    def post(s, v):
        r = v if z3.is_bool(v) else v != 0
        ex.oblige(s, r == z3.Or(x == y, same), 'post', 'equal exactly when every part is equal')
    P.run(ex, st, 'equal_object_normalized', [sx(x), sx(y)], post, False)
def obj_outer(P):
    ex, st, x, y = obj_base(P)
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == 1, z3.Select(R, 0) == b2i(EQOBJ(x, y))), 'post', 'the equality of the two objects')
    P.run(ex, st, 'vctrs_equal_object', [sx(x), sx(y)], post, False)
for _rt, _nm in VEC.items():
    case('C01', f'equal_object type {_rt} ({_nm})', 'equal_object_normalized', cost=4)(lambda P, rt=_rt: obj_vec(P, rt))
case('C01', 'equal_object reference types', 'equal_object_normalized', cost=2)(obj_ptr)
case('C01', 'equal_object differing types', 'equal_object_normalized', cost=2)(obj_types)
for _rt, _nm in ((2, 'pairlist'), (6, 'call'), (17, 'dots'), (21, 'bytecode')):
    case('C01', f'equal_object {_nm}', 'equal_object_normalized', cost=2)(lambda P, rt=_rt: obj_node(P, rt, ('ATTRIB', 'TAG', 'CAR', 'CDR')))
case('C01', 'equal_object closure', 'equal_object_normalized', cost=2)(lambda P: obj_node(P, 3, ('ATTRIB', 'BODY', 'CLOENV', 'FORMALS')))
case('C01', 'vctrs_equal_object', 'vctrs_equal_object', cost=1)(obj_outer)
