"""C07: missing and complete detection, per storage type and for data frames."""
from speclib import *

def c_proxy_of(x, p):
    def f(ex, st, a):
        """vec_proxy_equal(x): a proxy of the same size (assumed: dispatch on R classes)"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'the proxy is taken of the input')
        return sx(p)
    return f
def setup(P, t):
    ex, st = P.engine({'vec_proxy_typeof': c_vec_proxy_typeof})
    x = old_obj(ex, st, 'x'); p = typed_vec(ex, st, 'proxy', t)
    st.assume(VSIZE(x) == VSIZE(p))
    ex.contracts['vec_proxy_equal'] = c_proxy_of(x, p)
    st.g[('nowrite',)] = True
    A = ex.content(st, t.key, p)
    return ex, st, x, p, A
def detect(P, t, fn, positive):
    ex, st, x, p, A = setup(P, t)
    n = VSIZE(x)
    val = lambda k: b2i(t.miss(A, k) if positive else z3.Not(t.miss(A, k)))
    t_pointwise(ex, 'i32', lambda e, k: e == val(k))
    t_pointwise(ex, 'i32', lambda e, k: e == 1, 'ones')
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == n), 'post', 'a logical vector of the input size')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(R, k) == val(k))), 'post', 'each element says whether the input element is ' + ('missing' if positive else 'complete'))
    P.run(ex, st, fn, [sx(x)], post, errors=False)
def first(P, t):
    ex, st, x, p, A = setup(P, t)
    n = VSIZE(x)
    t_prefix(ex, lambda k: z3.Not(t.miss(A, k)))
    w = z3.Int('w')          # an arbitrary missing position
    def post(s, v):
        s1 = s.fork(); s1.assume(inr(w, n), t.miss(A, w))
        ex.oblige(s1, v == 1 if not z3.is_bool(v) else v, 'post', 'true when some element is missing')
        s2 = s.fork(); s2.assume(v if z3.is_bool(v) else v == 1)
        # the answer is true only with a witness: the position where the search stopped
        s2.assume(rngq(z3.IntVal(0), n, lambda k: z3.Not(t.miss(A, k))))
        ex.oblige(s2, z3.BoolVal(False), 'post', 'not true when no element is missing')
    P.run(ex, st, 'vec_any_missing', [sx(x)], post, errors=False)
for _t in ITYPES:
    case('C07', f'vec_detect_missing {_t.name}', 'ffi_vec_detect_missing', cost=2)(lambda P, t=_t: detect(P, t, 'ffi_vec_detect_missing', True))
    case('C07', f'vec_detect_complete {_t.name}', 'vctrs_detect_complete', cost=2)(lambda P, t=_t: detect(P, t, 'vctrs_detect_complete', False))
    case('C07', f'vec_any_missing {_t.name}', 'vec_any_missing', cost=2)(lambda P, t=_t: first(P, t))
