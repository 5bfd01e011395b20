"""C03: matching and membership, over the contract of the dictionary (proved in c03_dict.py)."""
from dictlib import *
def cast_env(ex, st, x, y):
    """both inputs cast to their common type: (cast x, cast y)"""
    ty = z3.Const('common_type', Ref); cx, cy = z3.Consts('cast_x cast_y', Ref)
    for r in (ty, cx, cy): ex.set_stamp(st, r, 0); st.assume(r != NULLREF, r != NILREF)
    st.assume(VSIZE(cx) == VSIZE(x), VSIZE(cy) == VSIZE(y), cx != cy)
    def ptype2(ex, st, a):
        """vec_ptype2_params(x, y): the common type of both inputs (C14), or an error"""
        p, q = asref(a[0]), asref(a[1])
        ex.oblige(st, z3.Or(z3.And(p == x, q == y), z3.And(p == y, q == x)), 'arg', 'the common type is that of the inputs')
        return [('ret', st, sx(ty)), ('err', st.fork(), 'incompatible types')]
    def cast(ex, st, a):
        """vec_cast_params(x, to): x cast to the type, of the same size (C15), or an error"""
        ex.oblige(st, asref(a[1]) == ty, 'arg', 'cast to the common type')
        ex.oblige(st, z3.Or(asref(a[0]) == x, asref(a[0]) == y), 'arg', 'an input is cast')
        return [('ret', st, sx(cx if z3.eq(z3.simplify(asref(a[0])), x) else cy)), ('err', st.fork(), 'incompatible types')]
    ex.contracts.update({'vec_ptype2_params': ptype2, 'vec_cast_params': cast})
    return cx, cy
def setup(P, na_equal, used=False):
    ex, st = P.engine({})
    x, y = old_obj(ex, st, 'needles'), old_obj(ex, st, 'haystack')
    n, m = VSIZE(x), VSIZE(y)
    st.assume(n >= 0, n <= MAXSIZE, m >= 0, m <= MAXSIZE, x != NILREF, y != NILREF, x != y)
    cx, cy = cast_env(ex, st, x, y)
    qx, qy = proxies(ex, st, [cx, cy])
    dict_env(P, ex, st, [(qx, n), (qy, m)], used=used)
    ne = old_obj(ex, st, 'na_equal', T_LGL)
    st.assume(LEN(ne) == 1, z3.Select(ex.content(st, 'i32', ne), 0) == int(na_equal))
    frame = old_obj(ex, st, 'frame')
    st.g[('nowrite',)] = True
    return ex, st, x, y, n, m, qx, qy, ne, frame
NAI = -2**31
def match_value(qx, qy, na_equal, k):
    v = z3.If(FST(qy, CLS(qx, k)) == -1, z3.IntVal(NAI), FST(qy, CLS(qx, k)) + 1)
    return v if na_equal else z3.If(INCOMPL(qx, k), z3.IntVal(NAI), v)
def in_value(qx, qy, na_equal, k):
    v = z3.If(FST(qy, CLS(qx, k)) == -1, z3.IntVal(0), z3.IntVal(1))
    return v if na_equal else z3.If(INCOMPL(qx, k), z3.IntVal(NAI), v)
def job(entry, na_equal, val, typ, what):
    def f(P):
        ex, st, x, y, n, m, qx, qy, ne, frame = setup(P, na_equal)
        t_arr(ex, 'i32', lambda A, k: z3.Select(A, k) == val(qx, qy, na_equal, k), 'val')
        def post(s, v):
            r = v.ref(); A = ex.content(s, 'i32', r)
            ex.oblige(s, z3.And(TYPE(r) == typ, LEN(r) == n), 'post', 'one result per needle')
            ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(A, k) == val(qx, qy, na_equal, k))), 'post', what)
        P.run(ex, st, entry, [sx(x), sx(y), sx(ne), sx(frame)], post)
    return f
for na in (True, False):
    s = '' if na else ', missing values unequal'
    case('C03', 'match' + s, 'vctrs_match')(job('vctrs_match', na, match_value, T_INT, 'the position of the first equal element, or missing'))
    case('C03', 'membership' + s, 'vctrs_in')(job('vctrs_in', na, in_value, T_LGL, 'whether an equal element exists'))
