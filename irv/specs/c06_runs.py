"""C06: run boundaries, locations, identifiers and sizes.

vec_detect_run_bounds_bool() is proved for every storage type and for data frames (column functions
under a contract proved per type); the four exported functions are then proved over its contract.
When that internal function no longer exists the exported functions are proved per type through it."""
from speclib import *
INNER, COL = 'vec_detect_run_bounds_bool', 'col_detect_run_bounds_bool'

def base(P):
    ex, st = P.engine({'vec_proxy_typeof': c_vec_proxy_typeof, 'obj_check_vector': c_none, 'equal_object_normalized': c_equal_object, 'r_str': c_fresh_ref('str'),
                       'vec_normalize_encoding': c_same('vec_normalize_encoding')})
    x = old_obj(ex, st, 'x')
    which = z3.Int('which')
    def arg_match(ex, st, a):
        """r_arg_match(arg, values): position of arg in values (0 = start, 1 = end), or an error"""
        s2 = st.fork()
        st.assume(which >= 0, which <= 1)
        return [('ret', st, which), ('err', s2, 'no match')]
    ex.contracts['r_arg_match'] = arg_match
    st.g[('nowrite',)] = True
    st.assume(VSIZE(x) >= 0, VSIZE(x) <= MAXSIZE)
    return ex, st, x, VSIZE(x), which
def typed(ex, st, x, t):
    p = typed_vec(ex, st, 'proxy', t)
    st.assume(VSIZE(x) == VSIZE(p))
    def proxy(ex, st, a):
        """vec_proxy_equal(x): a proxy of the same size (assumed: dispatch on R classes)"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'the proxy is taken of the input')
        return sx(p)
    ex.contracts['vec_proxy_equal'] = proxy
    A = ex.content(st, t.key, p); n = VSIZE(x)
    start = lambda k: z3.Or(k == 0, z3.Not(eq_el(t, A, k, A, k - 1)))
    end = lambda k: z3.Or(k == n - 1, z3.Not(eq_el(t, A, k + 1, A, k)))
    if t.name == 'list': ex.defs.append(QF(lambda k: EQOBJ(z3.Select(A, k), z3.Select(A, k - 1)) == EQOBJ(z3.Select(A, k - 1), z3.Select(A, k))))
    t_elem(ex, t.key, p)
    t_pointwise(ex, 'i8', lambda e, k: e == b2i(start(k)), 'start', n=n)
    t_pointwise(ex, 'i8', lambda e, k: e == b2i(end(k)), 'end', n=n)
    return start, end
ROWEQ = z3.Function('row_equals_next', I, B)          # rows k and k + 1 of the input are equal
def abstract(ex, st, x):
    """the contract of vec_detect_run_bounds_bool(), with row equality as an uninterpreted relation"""
    n = VSIZE(x)
    start = lambda k: z3.Or(k == 0, z3.Not(ROWEQ(k - 1)))
    end = lambda k: z3.Or(k == n - 1, z3.Not(ROWEQ(k)))
    def inner(ex, st, a):
        """vec_detect_run_bounds_bool(x, which): a new boolean vector of x's size, true at the run bounds"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'run bounds are taken of the input')
        out = ex.call_named('r_new_vector_bool', [n], st, None, next(m for m in ex.mods if 'r_new_vector_bool' in m.funcs and INNER in m.funcs))
        assert len(out) == 1
        s, pv = out[0][1], out[0][2]
        d = s.cells[pv.b][16][1]                      # v_data
        arr = mk(z3.ArraySort(I, I), 'where')
        w = a[1]
        s.assume(QF(lambda k: z3.Implies(inr(k, n), z3.Select(arr, k) == b2i(z3.If(w == 0, start(k), end(k))))))
        ex.set_content(s, 'i8', d.b, arr)
        return [('ret', s, pv)]
    ex.contracts[INNER] = inner
    return start, end
FRAME = lambda ex, st: sx(old_obj(ex, st, 'frame'))

def inner_case(P, t):
    if not has_func(P, INNER): return skip(P, INNER + ' no longer exists')
    ex, st, x, n, which = base(P)
    start, end = typed(ex, st, x, t)
    st.assume(which >= 0, which <= 1)
    inner_run(P, ex, st, x, n, which, start, end)
def inner_run(P, ex, st, x, n, which, start, end):
    def post(s, v):
        c = s.cells[v.b]
        d = c[16][1]; R = ex.content(s, 'i8', d.b)
        ex.oblige(s, c[24][1] == n, 'post', 'as long as the input')
        ex.oblige(s, LEN(d.b) == n, 'post', 'storage as long as the input')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == b2i(z3.If(which == 0, start(k), end(k))))), 'post', 'true exactly at the run bounds')
    ec = P_error_call(ex, st)
    P.run(ex, st, INNER, [sx(x), which, *ec], post, balance=True)
def P_error_call(ex, st):
    return [sx(old_obj(ex, st, 'error_call_x')), sx(old_obj(ex, st, 'error_call_env'))]

def col_case(P, t):
    """one column: out[k] stays true only when the element also equals its predecessor in iteration order"""
    if not has_func(P, COL): return skip(P, COL + ' no longer exists')
    ex, st, x, n, which = base(P)
    c = typed_vec(ex, st, 'column', t)
    A = ex.content(st, t.key, c)
    st.assume(which >= 0, which <= 1, LEN(c) == n, n >= 1)
    out = new_obj(ex, st, T_RAW, n, 'new_out'); O0 = mk(z3.ArraySort(I, I), 'out0'); ex.set_content(st, 'i8', out, O0)
    st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.And(z3.Select(O0, k) >= 0, z3.Select(O0, k) <= 1))))
    eqp = lambda k: z3.If(which == 0, eq_el(t, A, k, A, k - 1), eq_el(t, A, k, A, k + 1))
    first = z3.If(which == 0, z3.IntVal(0), n - 1)
    if t.name == 'list': ex.defs.append(QF(lambda k: EQOBJ(z3.Select(A, k), z3.Select(A, k - 1)) == EQOBJ(z3.Select(A, k - 1), z3.Select(A, k))))
    want = lambda k: b2i(z3.And(z3.Select(O0, k) != 0, z3.Or(k == first, eqp(k))))
    t_elem(ex, t.key, c)
    t_pointwise(ex, 'i8', lambda e, k: e == want(k), 'col', n=n)
    def post(s, v):
        R = ex.content(s, 'i8', out)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == want(k))), 'post', 'cleared where the column differs from the previous row')
    P.run(ex, st, COL, [sx(c), n, which, P_('data', out)], post)
from engine import P as P_

COLEQ = z3.Function('column_equals_next', Ref, I, B)
ALLEQ = z3.Function('columns_equal_next', I, I, B)    # the first c columns agree on rows k and k + 1
def df_case(P):
    if not has_func(P, INNER) or not has_func(P, COL): return skip(P, 'restructured')
    ex, st, x, n, which = base(P)
    p = old_obj(ex, st, 'proxy', T_LIST); ncol = LEN(p)
    st.assume(VTYPE(p) == VT['dataframe'], VSIZE(p) == n, ncol <= MAXSIZE, which >= 0, which <= 1)
    ex.contracts['vec_proxy_equal'] = lambda ex, st, a: sx(p)
    cols = ex.content(st, 'ref', p)
    ex.defs.append(QF(lambda c, k: ALLEQ(c, k) == z3.If(c <= 0, True, z3.And(ALLEQ(c - 1, k), COLEQ(z3.Select(cols, c - 1), k))), n=2))
    roweq = lambda k: ALLEQ(ncol, k)
    start = lambda k: z3.Or(k == 0, z3.Not(roweq(k - 1)))
    end = lambda k: z3.Or(k == n - 1, z3.Not(roweq(k)))
    first = z3.If(which == 0, z3.IntVal(0), n - 1)
    prev = lambda k: z3.If(which == 0, k - 1, k)
    def col(ex, st, a):
        """col_detect_run_bounds_bool(column, size, which, v_out): clears v_out where the column differs (proved per type)"""
        c, sz, w, out = asref(a[0]), a[1], a[2], a[3]
        ex.oblige(st, z3.And(sz == n, w == which, n >= 1), 'arg', 'the column is compared over the whole size in the asked direction')
        ex.write_guard(st, out.b)
        O0 = ex.content(st, 'i8', out.b); O1 = mk(z3.ArraySort(I, I), 'colout')
        st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.Select(O1, k) == b2i(z3.And(z3.Select(O0, k) != 0, z3.Or(k == first, COLEQ(c, prev(k))))))))
        ex.set_content(st, 'i8', out.b, O1)
        return None
    ex.contracts[COL] = col
    cont = lambda c, k: b2i(z3.And(k != first, ALLEQ(c, prev(k))))
    t_pointwise(ex, 'i8', lambda e, k: e == cont(z3.IntVal(0), k), 'init', n=n)
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key != 'i8': continue
            for v, (g, v0) in lc.ints.items():
                cs.append((f'cols:{v}', lambda ls, g=g, ref=ref: (lambda A, c: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == cont(c, k)))(ls.arr(key, ref), g(ls))))
                cs.append((f'inv:{v}', lambda ls, g=g, ref=ref: (lambda A, c: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == z3.If(k < c, 1 - cont(ncol, k), cont(ncol, k))))(ls.arr(key, ref), g(ls))))
        return cs
    ex.templates.append(tmpl)
    ex.max_multi = 60
    inner_run(P, ex, st, x, n, which, start, end)

def setup(P, t):
    ex, st, x, n, which = base(P)
    ex.max_multi = 48
    start, end = abstract(ex, st, x) if t is None else typed(ex, st, x, t)
    bound = lambda k: z3.If(which == 0, start(k), end(k))
    return ex, st, x, n, which, start, end, bound
def outer(fn):
    def f(P, t):
        if (t is None) != has_func(P, INNER): return skip(P, 'proved ' + ('per type' if t is None else 'over the contract of ' + INNER))
        fn(P, *setup(P, t))
    return f
@outer
def detect(P, ex, st, x, n, which, start, end, bound):
    s_ = old_obj(ex, st, 'start')
    t_pointwise(ex, 'i32', lambda e, k: e == b2i(bound(k)), 'out')
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == n), 'post', 'a logical vector of the input size')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == b2i(bound(k)))), 'post', 'true exactly at the run bounds')
    P.run(ex, st, 'ffi_vec_detect_run_bounds', [sx(x), sx(s_), FRAME(ex, st)], post)
@outer
def locate(P, ex, st, x, n, which, start, end, bound):
    s_ = old_obj(ex, st, 'start')
    CNT = z3.Function('count_bounds', I, I)
    count_def(ex, P, CNT, bound, n)
    t_fn(ex, CNT, 'cnt')
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key != 'i32': continue
            for v, (g, v0) in lc.ints.items():
                cs.append((f'loc:{v}:up', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), g(ls), lambda k: z3.Implies(bound(k), z3.Select(A, CNT(k)) == k + 1)))(ls.arr(key, ref))))
                cs.append((f'loc:{v}:down', lambda ls, g=g, ref=ref: (lambda A: rngq(g(ls) + 1, n, lambda k: z3.Implies(bound(k), z3.Select(A, CNT(k)) == k + 1)))(ls.arr(key, ref))))
        return cs
    ex.templates.append(tmpl)
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == CNT(n)), 'post', 'one location per bound')
        ex.oblige(s, QF(lambda k: z3.Implies(z3.And(inr(k, n), bound(k)), z3.Select(R, CNT(k)) == k + 1)), 'post', 'the locations are the bounds, in order')
    P.run(ex, st, 'ffi_vec_locate_run_bounds', [sx(x), sx(s_), FRAME(ex, st)], post)
@outer
def identify(P, ex, st, x, n, which, start, end, bound):
    CNT = z3.Function('count_starts', I, I)
    count_def(ex, P, CNT, start, n)
    t_fn(ex, CNT, 'cnt')
    t_pointwise(ex, 'i32', lambda e, k: e == CNT(k + 1), 'id')
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == n), 'post', 'an integer vector of the input size')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == CNT(k + 1))), 'post', 'the identifier is the number of runs started so far')
        ex.oblige(s, z3.Select(ex.content(s, 'i32', attr_of(s, r)), 0) == CNT(n), 'post', 'the attribute n is the number of runs')
    P.run(ex, st, 'ffi_vec_identify_runs', [sx(x), FRAME(ex, st)], post)
@outer
def sizes(P, ex, st, x, n, which, start, end, bound):
    CNT = z3.Function('count_ends', I, I)
    LST = z3.Function('run_start', I, I)
    count_def(ex, P, CNT, end, n)
    ex.defs.append(QF(lambda k: LST(k) == z3.If(z3.Or(k <= 0, end(k - 1)), k, LST(k - 1))))
    t_fn(ex, CNT, 'cnt')
    t_fn(ex, lambda k: k - LST(k), 'run')
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key != 'i32': continue
            for v, (g, v0) in lc.ints.items():
                cs.append((f'size:{v}:up', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), g(ls), lambda k: z3.Implies(end(k), z3.Select(A, CNT(k)) == k - LST(k) + 1)))(ls.arr(key, ref))))
        for v, (g, v0) in lc.ints.items():
            cs.append((f'lst:{v}', lambda ls, g=g: z3.And(LST(g(ls)) >= 0, LST(g(ls)) <= g(ls))))
        return cs
    ex.templates.append(tmpl)
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == CNT(n)), 'post', 'one size per run')
        ex.oblige(s, QF(lambda k: z3.Implies(z3.And(inr(k, n), end(k)), z3.Select(R, CNT(k)) == k - LST(k) + 1)), 'post', 'each size is the number of elements of its run')
    P.run(ex, st, 'ffi_vec_run_sizes', [sx(x), FRAME(ex, st)], post)
for _t in [None] + ITYPES:
    _n = 'any type' if _t is None else _t.name
    case('C06', f'vec_detect_run_bounds {_n}', 'ffi_vec_detect_run_bounds', cost=4)(lambda P, t=_t: detect(P, t))
    case('C06', f'vec_locate_run_bounds {_n}', 'ffi_vec_locate_run_bounds', cost=8)(lambda P, t=_t: locate(P, t))
    case('C06', f'vec_identify_runs {_n}', 'ffi_vec_identify_runs', cost=6)(lambda P, t=_t: identify(P, t))
    case('C06', f'vec_run_sizes {_n}', 'ffi_vec_run_sizes', cost=8)(lambda P, t=_t: sizes(P, t))
    if _t is not None:
        case('C06', f'{INNER} {_n}', INNER, cost=10)(lambda P, t=_t: inner_case(P, t))
        case('C06', f'{COL} {_n}', COL, cost=10)(lambda P, t=_t: col_case(P, t))
case('C06', f'{INNER} data frame', INNER, cost=20)(lambda P: df_case(P))
