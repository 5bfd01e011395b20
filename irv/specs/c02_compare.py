"""C02: three-way comparison.

vec_compare() is proved per comparable storage type; the column functions and df_compare_impl() are
proved for arbitrary already-decided rows, and vec_compare() of data frames over the column contract.
Total preorder facts about the element order itself are lemmas."""
from speclib import *
NA_INT = -2**31
SGN = z3.Function('string_order', Ref, Ref, I)        # sign of strcmp() on the translated contents
CTYPES = [TYP[n] for n in ('logical', 'integer', 'double', 'character')]

def d_cls(x): return z3.If(z3.Not(d_isnan(x)), z3.IntVal(2), z3.If(d_isna(x), z3.IntVal(1), z3.IntVal(0)))     # NaN < NA < numbers
def order(t, a, b):
    """-1, 0 or 1: missing values are smallest"""
    if t.key == 'i32': return z3.If(a < b, z3.IntVal(-1), b2i(a > b))
    if t.key == 'f64': return z3.If(d_cls(a) != d_cls(b), z3.If(d_cls(a) < d_cls(b), z3.IntVal(-1), z3.IntVal(1)),
                                    z3.If(d_isnan(a), z3.IntVal(0), z3.If(d_lt(a, b), z3.IntVal(-1), b2i(d_lt(b, a)))))
    return z3.If(a == b, z3.IntVal(0), z3.If(a == NASTR, z3.IntVal(-1), z3.If(b == NASTR, z3.IntVal(1), SGN(a, b))))
def value(t, A, i, Bv, j, na):
    a, b = z3.Select(A, i), z3.Select(Bv, j)
    return z3.If(z3.And(z3.Not(na), z3.Or(t.miss(A, i), t.miss(Bv, j))), z3.IntVal(NA_INT), order(t, a, b))

RCHAR = z3.Function('R_CHAR', Ref, Ref)
def c_strcmp_ord(ex, st, a):
    """strcmp(): its sign is a strict total order on distinct translated strings (assumed)"""
    x, y = a[0].b, a[1].b
    if not (x.decl().name() == 'R_CHAR' and y.decl().name() == 'R_CHAR'): raise ToolLimit('strcmp of other strings')
    x, y = x.arg(0), y.arg(0)
    r = mk(I, 'strcmp'); ex.rng(st, r, 32)
    st.assume(r != NA_INT, (r > 0) == (SGN(x, y) == 1), (r < 0) == (SGN(x, y) == -1), (r == 0) == (SGN(x, y) == 0), z3.Implies(x != y, r != 0))
    return r
def base(P):
    ex, st = P.engine({'vec_proxy_typeof': c_vec_proxy_typeof, 'vec_normalize_encoding': c_same('vec_normalize_encoding'), 'strcmp': c_strcmp_ord,
                       'r_str_c_string': lambda ex, st, a: sx(RCHAR(asref(a[0])))})
    st.g[('nowrite',)] = True
    na = z3.Bool('na_equal')
    ex.contracts['r_bool_as_int'] = lambda ex, st, a: b2i(na)
    ex.contracts['r_arg_as_bool'] = lambda ex, st, a: na
    ex.unfold['string_order'] = lambda a, b: z3.And(SGN(a, b) >= -1, SGN(a, b) <= 1, SGN(a, b) == -SGN(b, a), z3.Implies(SGN(a, b) == 0, a == b))
    return ex, st, na

def vec_case(P, t):
    ex, st, na = base(P)
    x, y = typed_vec(ex, st, 'x', t), typed_vec(ex, st, 'y', t)
    A, Bv = ex.content(st, t.key, x), ex.content(st, t.key, y); n = LEN(x)
    want = lambda k: value(t, A, k, Bv, k, na)
    t_pointwise(ex, 'i32', lambda e, k: e == want(k), 'cmp')
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, LEN(x) == LEN(y), 'post', 'only vectors of one size are compared')
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == n), 'post', 'an integer vector of the common size')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == want(k))), 'post', 'element-wise order, or missing when asked to propagate')
    def err(s, why): ex.oblige(s, LEN(x) != LEN(y), 'error', 'vectors of one type and size are always comparable')
    P.run(ex, st, 'ffi_vec_compare', [sx(x), sx(y), sx(old_obj(ex, st, 'na'))], post, err)
def mismatch_case(P):
    ex, st, na = base(P)
    x, y = old_obj(ex, st, 'x'), old_obj(ex, st, 'y')
    st.assume(z3.Or(VTYPE(x) != VTYPE(y), VSIZE(x) != VSIZE(y)), VTYPE(x) >= 0, VTYPE(y) >= 0, VTYPE(x) <= 255, VTYPE(y) <= 255)
    P.need_reach = False
    def post(s, v): ex.oblige(s, z3.BoolVal(False), 'post', 'types or sizes that differ are an error')
    def err(s, why): ex.oblige(s, z3.Or(VTYPE(x) != VTYPE(y), VSIZE(x) != VSIZE(y)), 'error', 'an error only on a mismatch')
    P.run(ex, st, 'ffi_vec_compare', [sx(x), sx(y), sx(old_obj(ex, st, 'na'))], post, err)
def order_lemmas(P, t):
    """the element order is a total preorder whose ties are exactly the equal elements"""
    ex, st, na = base(P)
    P.need_reach = False
    srt = {'i32': I, 'f64': BV64, 'ref': Ref}[t.key]
    a, b, c = (z3.Const(n, srt) for n in 'abc')
    eqv = {'i32': lambda x, y: x == y, 'f64': d_eqna, 'ref': lambda x, y: x == y}[t.key]
    o = lambda x, y: order(t, x, y)
    hyp = [z3.Implies(z3.And(SGN(a, b) == -1, SGN(b, c) == -1), SGN(a, c) == -1)] if t.key == 'ref' else []
    P.lemma(ex, 'antisymmetric', [], o(a, b) == -o(b, a))
    P.lemma(ex, 'ties are the equal elements', [], (o(a, b) == 0) == eqv(a, b))
    P.lemma(ex, 'transitive', hyp + [o(a, b) <= 0, o(b, c) <= 0], o(a, c) <= 0)
    P.lemma(ex, 'strictly transitive', hyp + [o(a, b) < 0, o(b, c) < 0], o(a, c) < 0)
    P.lemma(ex, 'range', [], z3.And(o(a, b) >= -1, o(a, b) <= 1))

COL, IMPL = 'vec_compare_col', 'df_compare_impl'
def col_case(P, t):
    if not has_func(P, COL): return skip(P, COL + ' no longer exists')
    ex, st, na = base(P)
    n = z3.Int('size'); st.assume(n >= 0, n <= MAXSIZE)
    px, py = typed_vec(ex, st, 'colx', t, n), typed_vec(ex, st, 'coly', t, n)
    A, Bv = ex.content(st, t.key, px), ex.content(st, t.key, py)
    out = new_obj(ex, st, T_INT, n, 'new_out'); O0 = mk(z3.ArraySort(I, I), 'out0'); ex.set_content(st, 'i32', out, O0)
    kn = new_obj(ex, st, T_RAW, n, 'new_known'); K0 = mk(z3.ArraySort(I, I), 'known0'); ex.set_content(st, 'i8', kn, K0)
    knv = new_obj(ex, st, T_RAW, n, 'new_knv')
    st.assume(QF(lambda k: z3.And(z3.Select(K0, k) >= 0, z3.Select(K0, k) <= 1)))
    RESF, NEWLY = z3.Function('element_result', I, I), z3.Function('newly_decided', I, B)
    ex.defs.append(QF(lambda k: z3.And(RESF(k) == value(t, A, k, Bv, k, na), NEWLY(k) == z3.And(z3.Select(K0, k) == 0, RESF(k) != 0))))
    U0 = z3.Function('undecided_before', I, I); CN = z3.Function('decided_now', I, I)
    count_def(ex, P, U0, lambda k: z3.Select(K0, k) == 0, n, 'undecided')
    count_def(ex, P, CN, lambda k: NEWLY(k), n, 'decided')
    k = z3.Int('kk')
    P.lemma(ex, 'decided now were undecided, step', [k >= 0, CN(k) <= U0(k)], CN(k + 1) <= U0(k + 1))
    ex.defs.append(QF(lambda k: z3.Implies(k >= 0, CN(k) <= U0(k))))
    info = new_info(ex, st, knv, kn, U0(n), n)
    o_ = lambda k: z3.If(NEWLY(k), RESF(k), z3.Select(O0, k))
    k_ = lambda k: z3.If(NEWLY(k), 1, z3.Select(K0, k))
    ex.max_multi = 60
    t_pointwise(ex, 'i32', lambda e, k: e == o_(k), 'out')
    t_pointwise(ex, 'i8', lambda e, k: e == k_(k), 'known')
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key not in ('i32', 'i8'): continue
            old = O0 if key == 'i32' else K0
            for v, (g, v0) in lc.ints.items():
                cs.append((f'rest:{key}:{v}', lambda ls, g=g, key=key, ref=ref, old=old: (lambda Z: QF(lambda k: z3.Implies(k >= g(ls), z3.Select(Z, k) == z3.Select(old, k))))(ls.arr(key, ref))))
        for a, (ga, a0) in lc.ints.items():
            for b, (gb, b0) in lc.ints.items():
                if a != b: cs.append((f'rem:{a}:{b}', lambda ls, ga=ga, gb=gb: ga(ls) == U0(n) - CN(gb(ls))))
        return cs
    ex.templates.append(tmpl)
    st.assume(U0(n) >= 0)
    def post(s, v):
        O1, K1 = ex.content(s, 'i32', out), ex.content(s, 'i8', kn)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(O1, k) == o_(k))), 'post', 'rows decided by this column get its result')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(K1, k) == k_(k))), 'post', 'exactly those rows become known')
        ex.oblige(s, info_remaining(ex, s, info) == U0(n) - CN(n), 'post', 'the remaining count drops by their number')
    P.run(ex, st, COL, [P_('data', out), info, sx(px), sx(py), na], post, False)

COLRES = z3.Function('column_result', I, I, I)        # column, row -> -1, 0, 1 or NA
RES = z3.Function('rows_result', I, I, I)             # the first non-zero result of the first c columns
UC = z3.Function('count_undecided', I, I, I)          # among rows [0, k), after c columns
KN0 = z3.Function('known_before', I, B)
def df_setup(P, ex, st, px, py, n, na, fresh):
    """definitions and the column contract; fresh: no row is known before"""
    nc = LEN(px)
    X, Y = ex.content(st, 'ref', px), ex.content(st, 'ref', py)
    kn = lambda c, k: z3.Or(KN0(k), RES(c, k) != 0)
    if fresh: ex.unfold['known_before'] = lambda k: z3.Not(KN0(k))
    ex.defs.append(QF(lambda c, k: RES(c, k) == z3.If(c <= 0, 0, z3.If(RES(c - 1, k) != 0, RES(c - 1, k), COLRES(c - 1, k))), n=2))
    ex.defs.append(QF(lambda c, k: z3.Implies(c >= 0, RES(c + 1, k) == z3.If(RES(c, k) != 0, RES(c, k), COLRES(c, k))), n=2))
    c, d, k, m = z3.Ints('c d k m')
    P.lemma(ex, 'a decided row stays decided', [c >= 0, d >= c, RES(c, k) != 0, RES(d, k) == RES(c, k)], RES(d + 1, k) == RES(c, k))
    ex.defs.append(QF(lambda c, d, k: z3.Implies(z3.And(c >= 0, d >= c, RES(c, k) != 0), RES(d, k) == RES(c, k)), n=3))
    ex.defs.append(QF(lambda c, k: z3.Implies(k >= 0, UC(c, k + 1) == UC(c, k) + z3.If(kn(c, k), 0, 1)), n=2))
    ex.defs.append(QF(lambda c, k: UC(c, 0) == 0, n=2))
    P.lemma(ex, 'count is not negative, step', [k >= 0, UC(c, k) >= 0], UC(c, k + 1) >= 0)
    ex.defs.append(QF(lambda c, k: z3.Implies(k >= 0, UC(c, k) >= 0), n=2))
    P.lemma(ex, 'no undecided row is left when the count is zero, step', [k >= 0, m > k, z3.Implies(z3.Not(kn(c, k)), UC(c, m) > 0), m >= 0], z3.Implies(z3.Not(kn(c, k)), UC(c, m + 1) > 0))
    P.lemma(ex, 'no undecided row is left when the count is zero, base', [k >= 0, z3.Not(kn(c, k))], UC(c, k + 1) > 0)
    ex.defs.append(QF(lambda c, k: z3.Implies(z3.And(k >= 0, k < n, z3.Not(kn(c, k))), UC(c, n) > 0), n=2))
    if fresh:
        P.lemma(ex, 'initially every row is undecided, step', [k >= 0, UC(0, k) == k], UC(0, k + 1) == k + 1)
        ex.defs.append(QF(lambda k: z3.Implies(k >= 0, UC(0, k) == k)))
    ghost_set(ex, st, 'ncols', z3.IntVal(0))
    def col(ex, st, a):
        """vec_compare_col(v_out, p_info, x, y, na_equal): decides the undecided rows by one column (proved per type, and for nested data frames by df_compare_impl)"""
        g = ghost_get(st, 'ncols'); out = a[0].b; K = ex.load(st, a[1].add(INFO['p_row_known']), Ty('ptr'), ex.mods[0]).b
        nav = a[4] if z3.is_bool(a[4]) else a[4] != 0
        ex.oblige(st, nav == na, 'arg', 'the asked mode')
        ex.oblige(st, z3.And(asref(a[2]) == z3.Select(X, g), asref(a[3]) == z3.Select(Y, g), g < nc), 'arg', 'columns are compared in order, with their counterpart')
        sz = ex.load(st, a[1].add(INFO['size']), Ty('i', 32), ex.mods[0])
        ex.oblige(st, z3.And(sz == n, info_remaining(ex, st, a[1]) == UC(g, n)), 'arg', 'size and number of undecided rows')
        Ka, O = ex.content(st, 'i8', K), ex.content(st, 'i32', out)
        ex.oblige(st, QF(lambda k: z3.Implies(inr(k, n), z3.Select(Ka, k) == b2i(kn(g, k)))), 'arg', 'the known rows are those decided so far')
        ex.oblige(st, z3.And(LEN(K) == n, LEN(out) == n), 'arg', 'one entry per row')
        ex.write_guard(st, out); ex.write_guard(st, K)
        K1, O1 = mk(z3.ArraySort(I, I), 'K1'), mk(z3.ArraySort(I, I), 'O1')
        st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.And(z3.Select(K1, k) == b2i(kn(g + 1, k)),
                                                          z3.Select(O1, k) == z3.If(z3.And(z3.Not(kn(g, k)), COLRES(g, k) != 0), COLRES(g, k), z3.Select(O, k))))))
        ex.set_content(st, 'i8', K, K1); ex.set_content(st, 'i32', out, O1)
        ex.store(st, a[1].add(INFO['remaining']), UC(g + 1, n), Ty('i', 32), ex.mods[0])
        ghost_set(ex, st, 'ncols', g + 1)
        return None
    ex.contracts[COL] = col
    ex.max_multi = 60
    return nc, kn
def df_tmpl(ex, n, kn, out_of):
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key == 'i32': cs.append((f'res:{ref}', lambda ls, ref=ref: (lambda A, g: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == out_of(g, k)))(ls.arr(key, ref), ls.ghost('ncols'))))
            if key == 'i8': cs.append((f'known:{ref}', lambda ls, ref=ref: (lambda A, g: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == b2i(kn(g, k))))(ls.arr('i8', ref), ls.ghost('ncols'))))
        for a, (ga, _) in lc.ints.items():
            cs.append((f'col:{a}', lambda ls, ga=ga: ga(ls) == ls.ghost('ncols')))
            cs.append((f'rem:{a}', lambda ls, ga=ga: ga(ls) == UC(ls.ghost('ncols'), n)))
        return cs
    ex.templates.append(tmpl)
def df_pair(ex, st):
    px, py = old_obj(ex, st, 'px', T_LIST), old_obj(ex, st, 'py', T_LIST)
    st.assume(VTYPE(px) == VT['dataframe'], VTYPE(py) == VT['dataframe'], VSIZE(px) >= 0, VSIZE(py) >= 0, VSIZE(px) <= MAXSIZE, VSIZE(py) <= MAXSIZE, LEN(px) <= MAXSIZE, LEN(py) <= MAXSIZE)
    return px, py
def df_case(P):
    if not has_func(P, COL): return skip(P, 'restructured')
    ex, st, na = base(P)
    px, py = df_pair(ex, st); n = VSIZE(px)
    nc, kn = df_setup(P, ex, st, px, py, n, na, True)
    df_tmpl(ex, n, kn, lambda g, k: RES(g, k))
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(LEN(px) == LEN(py), VSIZE(px) == VSIZE(py)), 'post', 'only data frames of one shape are compared')
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == n), 'post', 'one result per row')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == RES(nc, k))), 'post', 'the first non-zero column result: lexicographic order')
    def err(s, why): ex.oblige(s, z3.Or(LEN(px) != LEN(py), VSIZE(px) != VSIZE(py)), 'error', 'data frames of one shape are always comparable')
    P.run(ex, st, 'ffi_vec_compare', [sx(px), sx(py), sx(old_obj(ex, st, 'na'))], post, err)
def nested_case(P):
    if not has_func(P, COL) or not has_func(P, IMPL): return skip(P, 'restructured')
    ex, st, na = base(P)
    px, py = df_pair(ex, st); n = VSIZE(px)
    nc, kn = df_setup(P, ex, st, px, py, n, na, False)
    out = new_obj(ex, st, T_INT, n, 'new_out'); O0 = mk(z3.ArraySort(I, I), 'out0'); ex.set_content(st, 'i32', out, O0)
    kv = new_obj(ex, st, T_RAW, n, 'new_known'); K0 = mk(z3.ArraySort(I, I), 'known0'); ex.set_content(st, 'i8', kv, K0)
    knv = new_obj(ex, st, T_RAW, n, 'new_knv')
    st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.Select(K0, k) == b2i(KN0(k)))))
    info = new_info(ex, st, knv, kv, UC(0, n), n)
    # with every row already known the caller has stopped
    oo = lambda g, k: z3.If(z3.And(z3.Not(KN0(k)), RES(g, k) != 0), RES(g, k), z3.Select(O0, k))
    df_tmpl(ex, n, kn, oo)
    st.assume(LEN(px) == LEN(py))
    def post(s, v):
        O1, K1 = ex.content(s, 'i32', out), ex.content(s, 'i8', kv)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(O1, k) == oo(nc, k))), 'post', 'undecided rows get the first non-zero column result')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(K1, k) == b2i(kn(nc, k)))), 'post', 'exactly those rows become known')
        ex.oblige(s, z3.Or(info_remaining(ex, s, info) == UC(nc, n), z3.And(info_remaining(ex, s, info) == 0, UC(ghost_get(s, 'ncols'), n) == 0)), 'post', 'the remaining count')
    P.run(ex, st, IMPL, [P_('data', out), info, sx(px), sx(py), na], post, False)
def delegate_case(P):
    """a data frame column is decided by df_compare_impl() on it"""
    if not has_func(P, COL) or not has_func(P, IMPL): return skip(P, 'restructured')
    ex, st, na = base(P)
    px, py = df_pair(ex, st)
    out = new_obj(ex, st, T_INT, z3.IntVal(3), 'new_out')
    info = new_info(ex, st, new_obj(ex, st, T_RAW, z3.IntVal(3), 'new_k'), new_obj(ex, st, T_RAW, z3.IntVal(3), 'new_k2'), z3.Int('rem'), z3.Int('size'))
    ghost_set(ex, st, 'delegated', z3.IntVal(0))
    def impl(ex, st, a):
        """df_compare_impl(): proved for nested data frames"""
        nav = a[4] if z3.is_bool(a[4]) else a[4] != 0
        ex.oblige(st, z3.And(asref(a[2]) == px, asref(a[3]) == py, nav == na, a[0].b == out), 'arg', 'the same columns, mode and output')
        ghost_set(ex, st, 'delegated', ghost_get(st, 'delegated') + 1)
        return None
    ex.contracts[IMPL] = impl
    def post(s, v): ex.oblige(s, ghost_get(s, 'delegated') == 1, 'post', 'decided by its columns')
    P.run(ex, st, COL, [P_('data', out), info, sx(px), sx(py), na], post, False)

for _t in CTYPES:
    case('C02', f'vec_compare {_t.name}', 'ffi_vec_compare', cost=5)(lambda P, t=_t: vec_case(P, t))
    case('C02', f'{COL} {_t.name}', COL, cost=10)(lambda P, t=_t: col_case(P, t))
    case('C02', f'order of {_t.name} elements', (), cost=2)(lambda P, t=_t: order_lemmas(P, t))
case('C02', 'vec_compare mismatch', 'ffi_vec_compare', cost=1)(mismatch_case)
case('C02', 'vec_compare data frame', 'ffi_vec_compare', cost=10)(df_case)
case('C02', f'{IMPL} with decided rows', IMPL, cost=10)(nested_case)
case('C02', f'{COL} data frame column', COL, cost=1)(delegate_case)
