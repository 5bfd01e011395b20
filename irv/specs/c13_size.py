"""C13: recycling, common size and the size of a vector."""
from speclib import *

def obj_check(ex, st, a):
    """obj_check_vector(x): returns when x is a vector, errors otherwise"""
    return [('ret', st, None), ('err', st.fork(), 'not a vector')]
# ---------------------------------------------------------------- common size
BOX = z3.Function('is_splice_box', Ref, B); UNBOX = z3.Function('unbox', Ref, Ref)
NONE = z3.Function('contributes_no_size', Ref, B)          # of an element of the list of inputs
FITS = z3.Function('sizes_are_one_or', Ref, I, B)          # every size in the element is 1 or the given one
PICK = z3.Function('is_an_input', Ref, B)                  # an element, or an element of a splice box among them
HAVE, S = z3.Bool('all_sizes_are_one_or_s'), z3.Int('s')
def common_base(P):
    ex, st = P.engine({'obj_check_vector': obj_check, 'counters_inc': c_none, 'counters_shift': c_none, 'r_names': c_fresh_ref('names'), 'init_next_box_counters': c_none,
                       'rlang_is_splice_box': lambda ex, st, a: BOX(asref(a[0])), 'rlang_unbox': lambda ex, st, a: sx(UNBOX(asref(a[0])))})
    def counters(ex, st, a):
        """new_counters(): argument counters, used in error messages only"""
        return P_('cell', 'counters')
    ex.contracts['new_counters'] = counters
    st.g[('nowrite',)] = True
    ex.unfold['contributes_no_size'] = lambda e: z3.Implies(z3.Not(BOX(e)), NONE(e) == (e == NILREF))
    ex.unfold['sizes_are_one_or'] = lambda e, n: z3.And(z3.Implies(z3.Not(BOX(e)), FITS(e, n) == z3.Or(e == NILREF, VSIZE(e) == 1, VSIZE(e) == n)), z3.Implies(NONE(e), FITS(e, n)), z3.Implies(FITS(e, 1), FITS(e, n)))
    ex.unfold['is_an_input'] = lambda r: z3.Implies(z3.And(PICK(r), HAVE), z3.Or(VSIZE(r) == 1, VSIZE(r) == S))
    st.assume(z3.Not(BOX(NILREF)))
    def splice(ex, st, a):
        """reduce_splice_box(current, contents, ...): the reduction with every element of the box (proved: 'splice box'), or an error"""
        cur, rest = asref(a[0]), asref(a[1])
        if not (z3.is_app(rest) and rest.decl().name() == 'unbox'): raise ToolLimit('not the contents of a box')
        r = mk(Ref, 'spliced'); e = rest.arg(0)
        st.assume(r != NULLREF, VSIZE(r) >= 0, VSIZE(r) <= MAXSIZE, (r == NILREF) == z3.And(cur == NILREF, NONE(e)), FITS(e, VSIZE(r)),
                  z3.Implies(cur != NILREF, z3.Or(VSIZE(cur) == 1, VSIZE(cur) == VSIZE(r))), z3.Implies(z3.And(z3.Or(cur == NILREF, PICK(cur)), r != NILREF), PICK(r)))
        return [('ret', st, sx(r)), ('err', st.fork(), 'splice box')]
    ex.contracts['reduce_splice_box'] = splice
    xs = old_obj(ex, st, 'inputs', T_LIST); n = LEN(xs); X = ex.content(st, 'ref', xs)
    st.assume(n <= MAXSIZE, xs != NILREF)
    el = lambda k: z3.Select(X, k)
    ex.defs.append(QF(lambda k: z3.Implies(inr(k, n), z3.And(el(k) != NULLREF, z3.Implies(z3.And(z3.Not(BOX(el(k))), el(k) != NILREF), PICK(el(k)))))))
    def tmpl(lc):
        cs = []
        for a, (ga, _) in lc.ptrs.items():
            def guard(f, ga=ga):
                def h(ls):
                    v = ga(ls)
                    return f(ls, v.b) if isinstance(v, P_) and v.k == 'sexp' and not v.t and v.c == 0 else None
                return h
            cs.append((f'picked:{a}', guard(lambda ls, c: z3.And(c != NULLREF, z3.Or(c == NILREF, PICK(c))))))
            cs.append((f'nothing:{a}', guard(lambda ls, c: z3.Implies(z3.And(NN, CUR0 == NILREF), c == NILREF))))
            cs.append((f'start:{a}', guard(lambda ls, c: z3.Implies(CUR0 != NILREF, z3.And(c != NILREF, z3.Or(VSIZE(CUR0) == 1, VSIZE(CUR0) == VSIZE(c)))))))
            for b, (gb, _) in lc.ints.items():
                cs.append((f'none:{a}:{b}', guard(lambda ls, c, gb=gb: QF(lambda k: z3.Implies(z3.And(inr(k, gb(ls)), c == NILREF), NONE(el(k)))))))
                cs.append((f'some:{a}:{b}', guard(lambda ls, c, gb=gb: z3.Or(c == NILREF, CUR0 != NILREF, gb(ls) > W, z3.Not(NN)))))
                cs.append((f'fits:{a}:{b}', guard(lambda ls, c, gb=gb: QF(lambda k: z3.Implies(inr(k, gb(ls)), FITS(el(k), VSIZE(c)))))))
        return cs
    ex.templates.append(tmpl)
    # W is an element that has a size, if there is one
    st.assume(z3.Or(NN, z3.And(inr(W, n), z3.Not(NONE(el(W))))))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(NN, inr(k, n)), NONE(el(k)))))
    return ex, st, xs, n, el
CUR0 = z3.Const('start', Ref); NN, W = z3.Bool('no_input_has_a_size'), z3.Int('input_with_size')
def size_refs(v):
    out, stack, seen = [], [v], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == 'vec_size': out.append(x.arg(0))
        stack.extend(x.children())
    return out
def conflict(ex, n, el):
    def err(s, why):
        if why in ('not a vector', 'splice box'): return
        s2 = s.fork(); s2.assume(HAVE, S >= 0, QF(lambda k: z3.Implies(inr(k, n), FITS(el(k), S))))
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only when two sizes differ and neither is one')
    return err

@case('C13', 'common size', 'vec_size_common_opts', cost=3)
def common(P):
    ex, st, xs, n, el = common_base(P)
    absent = z3.Int('absent'); st.assume(absent >= -1, absent <= MAXSIZE, CUR0 == NILREF)
    def post(s, v):
        s1 = s.fork(); s1.assume(NN)
        ex.oblige(s1, v == absent, 'post', 'the default when no input has a size')
        s2 = s.fork(); s2.assume(z3.Not(NN))
        ex.oblige(s2, QF(lambda k: z3.Implies(inr(k, n), FITS(el(k), v))), 'post', 'every input has the common size or size one')
        ex.oblige(s2, z3.Or(False, *[z3.And(PICK(t), t != NILREF) for t in size_refs(v)]), 'post', 'the common size is the size of an input')
    P.run(ex, st, 'vec_size_common_opts', [sx(xs), absent, P_('cell', 'opts')], post, conflict(ex, n, el))

@case('C13', 'common size, splice box', 'reduce_splice_box', cost=3)
def splice_box(P):
    if not has_func(P, 'reduce_splice_box'): return skip(P, 'reduce_splice_box no longer exists')
    ex, st, xs, n, el = common_base(P)
    del ex.contracts['reduce_splice_box']
    ex.defs.append(QF(lambda k: z3.Not(BOX(el(k)))))          # boxes are not nested
    ex.set_stamp(st, CUR0, 0); st.assume(z3.Or(CUR0 == NILREF, PICK(CUR0)), CUR0 != NULLREF)
    cp = P_('cell', 'counters_of_caller'); ex.store(st, cp.add(64), P_('cell', 'box_counters'), Ty('ptr'), ex.mods[0])
    def post(s, v):
        r = v.ref()
        ex.oblige(s, (r == NILREF) == z3.And(CUR0 == NILREF, NN), 'post', 'no size exactly when nothing contributed one')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), FITS(el(k), VSIZE(r)))), 'post', 'every element has the size of the result or size one')
        ex.oblige(s, z3.Implies(CUR0 != NILREF, z3.Or(VSIZE(CUR0) == 1, VSIZE(CUR0) == VSIZE(r))), 'post', 'so has the value so far')
        ex.oblige(s, z3.Implies(r != NILREF, PICK(r)), 'post', 'the result is an input')
    P.run(ex, st, 'reduce_splice_box', [sx(CUR0), sx(xs), P_('cell', 'parent_arg'), cp, P_('func', 'vctrs_size2_common'), P_('cell', 'opts')], post, conflict(ex, n, el))

# ---------------------------------------------------------------- recycling
def recycle_base(P):
    ex, st = P.engine({'vec_slice_unsafe': c_slice_rec, 'compact_rep': c_compact_rep, 'r_names': c_fresh_ref('names')})
    clone_contracts(ex)
    st.g[('nowrite',)] = True
    return ex, st
def recycled(ex, s, x, r, size, text=''):
    """r is x recycled to size"""
    sl = slice_of(s, r)
    if sl is None:
        ex.oblige(s, z3.And(r == x, z3.Or(x == NILREF, VSIZE(x) == size)), 'post', text + 'the input itself when it already has the size')
    else:
        ex.oblige(s, z3.And(sl[0] == x, x != NILREF, VSIZE(x) == 1, VSIZE(x) != size, LEN(sl[1]) == size), 'post', text + 'copies only of a single element')
        L = ex.content(s, 'i32', sl[1])
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, size), z3.Select(L, k) == 1)), 'post', text + 'every copy is of the only element')
def not_recyclable(ex, x, size):
    def err(s, why):
        s2 = s.fork(); s2.assume(z3.Or(x == NILREF, VSIZE(x) == size, VSIZE(x) == 1))
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only when the size is neither one nor the requested one')
    return err
@case('C13', 'recycle', 'vec_check_recycle')
def recycle(P):
    ex, st = recycle_base(P)
    x = old_obj(ex, st, 'x'); size = z3.Int('size')
    st.assume(size >= 0, size <= MAXSIZE, VSIZE(x) >= 0, VSIZE(x) <= MAXSIZE)
    P.run(ex, st, 'vec_check_recycle', [sx(x), size, P_('cell', 'arg'), sx(old_obj(ex, st, 'cx')), sx(old_obj(ex, st, 'ce'))],
          lambda s, v: recycled(ex, s, x, v.ref(), size), not_recyclable(ex, x, size))

RECYC = z3.Function('is_recycled_to', Ref, Ref, I, B)     # (result, input, size)
OK = z3.Function('recyclable', Ref, I, B)
def c_recycle(ex, st, a):
    """vec_check_recycle(x, size): x recycled to size, or an error when that is impossible (proved: 'recycle')"""
    x, size = asref(a[0]), a[1]
    r = mk(Ref, 'recycled')
    st.assume(r != NULLREF, RECYC(r, x, size), OK(x, size))
    s2 = st.fork(); s2.assume(z3.Not(OK(x, size)))
    return [('ret', st, sx(r)), ('err', s2, 'recycle')]
@case('C13', 'recycle common', 'vec_recycle_common_opts')
def recycle_common(P):
    ex, st = recycle_base(P)
    ex.contracts['vec_check_recycle'] = c_recycle
    xs = old_obj(ex, st, 'inputs', T_LIST); n = LEN(xs); X = ex.content(st, 'ref', xs)
    st.assume(n <= MAXSIZE, xs != NILREF, VSIZE(xs) == n)
    size = z3.Int('size'); st.assume(size >= -1, size <= MAXSIZE)
    t_pointwise(ex, 'ref', lambda e, k: RECYC(e, z3.Select(X, k), size), 'rec')
    t_prefix(ex, lambda k: OK(z3.Select(X, k), size), 'ok')
    def post(s, v):
        r = v.ref()
        if z3.eq(r, xs):
            s1 = s.fork(); s1.assume(size < 0)
            ex.oblige(s1, QF(lambda k: z3.Implies(inr(k, n), z3.Select(ex.content(s1, 'ref', xs), k) == z3.Select(X, k))), 'post', 'unchanged without a size')
        s2 = s.fork(); s2.assume(size >= 0)
        R = ex.content(s2, 'ref', r)
        ex.oblige(s2, LEN(r) == n, 'post', 'as many results as inputs')
        ex.oblige(s2, QF(lambda k: z3.Implies(inr(k, n), RECYC(z3.Select(R, k), z3.Select(X, k), size))), 'post', 'every element is the recycled input')
    def err(s, why):
        s2 = s.fork(); s2.assume(QF(lambda k: z3.Implies(inr(k, n), OK(z3.Select(X, k), size))))
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only when some input cannot be recycled')
    P.run(ex, st, 'vec_recycle_common_opts', [sx(xs), size, P_('cell', 'opts')], post, err)

@case('C13', 'size argument', 'vec_as_short_length')
def short_length(P):
    ex, st = P.engine({'r_lazy_eval': c_fresh_ref('l'), 'OBJECT': lambda ex, st, a: mk(I, 'OBJECT'), 'r_obj_type_friendly_length': c_fresh_ref('txt'), 'vec_arg_format': c_fresh_ref('txt')})
    ex.f2i_checked, ex.f2i_x86 = False, True
    n = old_obj(ex, st, 'n')
    D, A = ex.content(st, 'f64', n), ex.content(st, 'i32', n)
    def cast(ex, st, a):
        """vec_cast_e(n, double()): a double vector denoting the same values, or an error"""
        raise ToolLimit('classed sizes')
    def obj(ex, st, a): return z3.IntVal(0)
    ex.contracts['OBJECT'] = obj
    st.assume(z3.Or(TYPE(n) == T_INT, TYPE(n) == T_DBL, z3.And(TYPE(n) != T_INT, TYPE(n) != T_DBL)))
    def post(s, v):
        ex.oblige(s, z3.And(v >= 0, v <= MAXSIZE, LEN(n) == 1), 'post', 'a single size within the limits')
        for t, goal in ((T_INT, v == z3.Select(A, 0)), (T_DBL, z3.And(z3.Not(d_isnan(z3.Select(D, 0))), VAL(z3.Select(D, 0)) == z3.ToReal(v)))):
            s2 = s.fork(); s2.assume(TYPE(n) == t)
            ex.oblige(s2, goal, 'post', 'the value of the argument')
        s2 = s.fork(); s2.assume(TYPE(n) != T_INT, TYPE(n) != T_DBL)
        ex.oblige(s2, z3.BoolVal(False), 'post', 'no other type is accepted')
    def err(s, why):
        s2 = s.fork(); s2.assume(TYPE(n) == T_INT, LEN(n) == 1, z3.Select(A, 0) >= 0)
        ex.oblige(s2, z3.BoolVal(False), 'error', 'non-negative integers are accepted')
        s2 = s.fork(); d = z3.Select(D, 0)
        s2.assume(TYPE(n) == T_DBL, LEN(n) == 1, z3.Not(d_isnan(d)), VAL(d) >= 0, VAL(d) <= MAXSIZE, z3.IsInt(VAL(d)))
        ex.oblige(s2, z3.BoolVal(False), 'error', 'non-negative whole numbers are accepted')
    P.run(ex, st, 'vec_as_short_length', [sx(n), P_('cell', 'arg'), sx(old_obj(ex, st, 'cx')), sx(old_obj(ex, st, 'ce'))], post, err)

# ---------------------------------------------------------------- the size of a vector
DIM = z3.Const('sym_dim', Ref)
def size_case(P, nm):
    ex, st = P.engine({'OBJECT': lambda ex, st, a: z3.If(OBJ(asref(a[0])), z3.IntVal(1), z3.IntVal(0)), 'vec_proxy_method': None, 'vec_proxy_invoke': None})
    del ex.contracts['vec_size']
    pairlist_contracts(ex)
    x, p = old_obj(ex, st, 'x'), old_obj(ex, st, 'proxy')
    meth = z3.Const('proxy_method', Ref); st.assume(meth != NULLREF)
    has = z3.Bool('has_proxy_method'); st.assume(has == (meth != NILREF), z3.Implies(z3.Not(OBJ(x)), z3.Not(has)))
    data = z3.If(has, p, x)
    def method(ex, st, a):
        """vec_proxy_method(x): R_NilValue when x has no proxy method"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'the proxy method of x'); return sx(meth)
    def invoke(ex, st, a):
        """vec_proxy_invoke(x, method): the proxy of x"""
        ex.oblige(st, z3.And(asref(a[0]) == x, asref(a[1]) == meth), 'arg', 'the proxy of x'); return sx(p)
    ex.contracts.update({'vec_proxy_method': method, 'vec_proxy_invoke': invoke})
    def btype(ex, st, a):
        """vec_base_typeof(x, proxied): the vctrs type of x (total function of its type and class)"""
        v = VTYPE(asref(a[0])); st.assume(v >= 0, v <= 255); return v
    ex.contracts['vec_base_typeof'] = btype
    return ex, st, x, p, has
OBJ = z3.Function('OBJECT', Ref, B)
ROWN = z3.Function('row_names_in', Ref, Ref)       # the value of the row.names entry of a pairlist, or NULL
def size_of(P, kind, proxied):
    ex, st, x, p, has = size_case(P, kind)
    if kind == 'other': P.need_reach = False
    st.assume(has == z3.BoolVal(proxied))
    d = p if proxied else x
    if kind == 'data frame': st.assume(VTYPE(d) == VT['dataframe'])
    elif kind == 'vector': st.assume(z3.Or(*[VTYPE(d) == VT[k] for k in ('logical', 'integer', 'double', 'complex', 'character', 'raw', 'list')]), LEN(d) <= MAXSIZE)
    elif kind == 'NULL': st.assume(VTYPE(d) == VT['null'])
    else: st.assume(z3.Or(VTYPE(d) == VT['scalar'], VTYPE(d) == VT['unspecified'], VTYPE(d) == VT['s3']))
    dims = z3.Const('dims', Ref); ex.set_stamp(st, dims, 0); st.assume(dims != NULLREF)
    def attr(ex, st, a):
        """Rf_getAttrib(x, dim)"""
        ex.oblige(st, asref(a[0]) == d, 'arg', 'the dimensions of the data'); return sx(dims)
    ex.contracts['Rf_getAttrib'] = ex.contracts['r_attrib_get'] = attr
    ex.contracts['r_dim'] = attr
    D = ex.content(st, 'i32', dims)
    rn = z3.Const('rn', Ref)
    NA = -2**31
    if kind == 'data frame':
        RSYM = sym_ref('row_names')
        ex.set_stamp(st, RSYM, 0)
        ex.unfold['row_names_in'] = lambda a: ROWN(a) == z3.If(a == NILREF, NULLREF, z3.If(TAGF(a) == RSYM, CARF(a), ROWN(CDRF(a))))
        rn = ROWN(ATTRIBF(d))
        R = ex.content(st, 'i32', rn)
        def tmpl(lc):
            def c(ls, ga):
                v = ga(ls)
                return z3.And(v.b != NULLREF, ROWN(v.b) == rn) if isinstance(v, P_) and v.k == 'sexp' and not v.t and v.c == 0 else None
            return [(f'row_names:{a}', lambda ls, ga=ga: c(ls, ga)) for a, (ga, _) in lc.ptrs.items()]
        ex.templates.append(tmpl)
        st.assume(z3.Implies(z3.And(rn != NULLREF, TYPE(rn) == T_INT, LEN(rn) == 2, z3.Select(R, 0) == NA), z3.Select(R, 1) != NA), LEN(rn) <= MAXSIZE)
    def post(s, v):
        if kind == 'NULL': return ex.oblige(s, v == 0, 'post', 'NULL has size zero')
        if kind == 'other': return ex.oblige(s, z3.BoolVal(False), 'post', 'objects that are not vectors have no size')
        if kind == 'vector':
            return ex.oblige(s, v == z3.If(z3.Or(dims == NILREF, LEN(dims) == 0), LEN(d), z3.Select(D, 0)), 'post', 'the length, or the first dimension')
        R = ex.content(s, 'i32', rn)
        ex.oblige(s, z3.And(rn != NULLREF, z3.Or(TYPE(rn) == T_CHR, TYPE(rn) == T_INT), v == z3.If(z3.And(TYPE(rn) == T_INT, LEN(rn) == 2, z3.Select(R, 0) == NA), z3.If(z3.Select(R, 1) >= 0, z3.Select(R, 1), -z3.Select(R, 1)), LEN(rn))), 'post', 'the number of row names')
    def err(s, why):
        s2 = s.fork()
        if kind == 'vector': s2.assume(z3.Or(dims == NILREF, LEN(dims) == 0, TYPE(dims) == T_INT))
        elif kind == 'data frame': s2.assume(rn != NULLREF, z3.Or(TYPE(rn) == T_CHR, TYPE(rn) == T_INT))
        elif kind == 'other': return
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only for corrupt vectors')
    P.run(ex, st, 'vec_size', [sx(x)], post, err)
for _k in ('NULL', 'vector', 'data frame', 'other'):
    for _p in (False, True):
        case('C13', f'size of {_k}{" (proxy)" if _p else ""}', 'vec_size', cost=1)(lambda P, k=_k, p=_p: size_of(P, k, p))
