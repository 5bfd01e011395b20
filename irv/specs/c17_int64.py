"""C17: 64-bit integers and their two-column proxy."""
from speclib import *
TWO32, TWO63 = 2**32, 2**63
def real_of(d): return VAL(d)
def proxy(P):
    ex, st = P.engine({'r_chr_n': c_newobj('new_names', T_CHR), 'is_data_frame': None})
    st.g[('nowrite',)] = True
    x = old_obj(ex, st, 'x', T_DBL); n = LEN(x); X = ex.content(st, 'i64', x)
    st.assume(n <= MAXSIZE)
    def alloc_df(ex, st, a):
        """r_alloc_df_list(n, names, types, k): a list of k new vectors of length n of the given types"""
        k = simp(a[3])
        if not z3.is_int_value(k): raise ToolLimit('number of columns')
        out = new_obj(ex, st, T_LIST, k, 'new_df'); arr = ex.content(st, 'ref', out)
        for i in range(k.as_long()):
            t = ex.load(st, a[2].add(4 * i), Ty('i', 32), ex.mods[0])
            c = new_obj(ex, st, simp(t), a[0], 'new_col')
            arr = z3.Store(arr, i, c)
        ex.set_content(st, 'ref', out, arr)
        return sx(out)
    def init_df(ex, st, a):
        """r_init_data_frame(x, n): makes x a data frame with n rows; its columns are unaffected"""
        ex.oblige(st, a[1] == n, 'arg', 'as many rows as elements')
    ex.contracts.update({'r_alloc_df_list': alloc_df, 'r_init_data_frame': init_df})
    na = d_const(NA_REAL_BITS)
    LH, RH = z3.Function('left_half', I, I), z3.Function('right_half', I, I)
    ex.noterm = ex.noterm | {'left_half', 'right_half'}
    ex.defs.append(QF(lambda k: z3.And(z3.Select(X, k) + TWO63 == TWO32 * LH(k) + RH(k), LH(k) >= 0, LH(k) < TWO32, RH(k) >= 0, RH(k) < TWO32)))
    v = z3.Int('v')
    P.lemma(ex, 'the halves exist', [v >= -TWO63, v < TWO63], z3.And(v + TWO63 == TWO32 * ((v + TWO63) / TWO32) + (v + TWO63) % TWO32, (v + TWO63) / TWO32 >= 0, (v + TWO63) / TWO32 < TWO32))
    def halves(k, l=None, r=None):
        if l is not None: yield z3.If(z3.Select(X, k) == -TWO63, l == na, z3.And(z3.Not(d_isnan(l)), VAL(l) == z3.ToReal(LH(k))))
        if r is not None: yield z3.If(z3.Select(X, k) == -TWO63, r == na, z3.And(z3.Not(d_isnan(r)), VAL(r) == z3.ToReal(RH(k))))
    ex.defs.append(QF(lambda k: z3.And(z3.Select(X, k) >= -TWO63, z3.Select(X, k) < TWO63)))
    t_pointwise(ex, 'f64', lambda e, k: list(halves(k, l=e))[0], 'left')
    t_pointwise(ex, 'f64', lambda e, k: list(halves(k, r=e))[0], 'right')
    def post(s, v):
        o = ex.content(s, 'ref', v.ref())
        l, r = simp(z3.Select(o, 0)), simp(z3.Select(o, 1))
        ex.oblige(s, z3.And(LEN(v.ref()) == 2, LEN(l) == n, LEN(r) == n, TYPE(l) == T_DBL, TYPE(r) == T_DBL), 'post', 'two double columns of the size of the input')
        L, R = ex.content(s, 'f64', l), ex.content(s, 'f64', r)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.And(*halves(k, z3.Select(L, k), z3.Select(R, k))))), 'post', 'the halves of the value moved up by 2^63, or missing twice')
    def err(s, why):
        s2 = s.fork(); s2.assume(GETATTR(x, sym_dim) == NILREF)
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only for arrays')
    sym_dim = z3.Const('R_DimSymbol', Ref)
    P.run(ex, st, 'vctrs_integer64_proxy', [sx(x)], post, None)
    # the pair orders and identifies values exactly
    a, b, l1, l2, r1, r2 = z3.Ints('a b l1 l2 r1 r2')
    def split(v, l, r): return z3.And(v >= -TWO63, v < TWO63, v + TWO63 == TWO32 * l + r, r >= 0, r < TWO32)
    h = [split(a, l1, r1), split(b, l2, r2)]
    P.lemma(ex, 'equal values have equal halves and conversely', h, (a == b) == z3.And(l1 == l2, r1 == r2))
    P.lemma(ex, 'values order as their halves lexicographically', h, (a < b) == z3.Or(l1 < l2, z3.And(l1 == l2, r1 < r2)))
    P.lemma(ex, 'halves fit 32 bits', h, z3.And(l1 >= 0, l1 < TWO32, r1 >= 0, r1 < TWO32))
    P.lemma(ex, 'the value is recovered from its halves', h, l1 * TWO32 + r1 - TWO63 == a)
case('C17', 'proxy', ['vctrs_integer64_proxy', 'int64_unpack'])(proxy)

@case('C17', 'restore', ['vctrs_integer64_restore', 'int64_pack'])
def restore(P):
    ex, st = P.engine({'Rf_mkString': c_newobj('new_chr', T_CHR)})
    st.g[('nowrite',)] = True
    x = old_obj(ex, st, 'x', T_LIST); xc = ex.content(st, 'ref', x)
    l, r = z3.Select(xc, 0), z3.Select(xc, 1)
    def is_df(ex, st, a):
        """is_data_frame(x)"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'the proxy'); return z3.Bool('x_is_df')
    ex.contracts['is_data_frame'] = is_df
    ex.f2i_checked = True
    n = LEN(l)
    st.assume(LEN(x) >= 0, LEN(l) == LEN(r), n >= 0, n <= MAXSIZE, TYPE(l) == T_DBL, TYPE(r) == T_DBL)
    for c in (l, r): ex.set_stamp(st, c, 0); set_dtype(st, c, T_DBL)
    L, R = ex.content(st, 'f64', l), ex.content(st, 'f64', r)
    whole = lambda d: z3.And(z3.Not(d_isnan(d)), VAL(d) >= 0, VAL(d) < TWO32, z3.IsInt(VAL(d)))
    # the columns hold halves, or are missing together
    ex.defs.append(QF(lambda k: z3.Implies(inr(k, n), z3.Or(z3.And(d_isnan(z3.Select(L, k)), d_isnan(z3.Select(R, k))), z3.And(whole(z3.Select(L, k)), whole(z3.Select(R, k)))))))
    val = lambda k: z3.If(d_isnan(z3.Select(L, k)), -TWO63, z3.ToInt(VAL(z3.Select(L, k))) * TWO32 + z3.ToInt(VAL(z3.Select(R, k))) - TWO63)
    t_pointwise(ex, 'i64', lambda e, k: e == val(k), 'value')
    def post(s, v):
        o = v.ref(); O = ex.content(s, 'i64', o)
        ex.oblige(s, z3.And(LEN(o) == n, TYPE(o) == T_DBL), 'post', 'as many elements as rows')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(O, k) == val(k))), 'post', 'the value whose halves are given')
    def err(s, why):
        s2 = s.fork(); s2.assume(z3.Bool('x_is_df'), LEN(x) == 2)
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only for something that is not a proxy')
    P.run(ex, st, 'vctrs_integer64_restore', [sx(x)], post, err)
