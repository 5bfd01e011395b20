"""C20: expansion of a grid."""
from speclib import *
from engine import MUL, DIV
import engine
MAX = 2**52          # R_XLEN_T_MAX
PRE = z3.Function('product_of_sizes_before', I, I); SUF = z3.Function('product_of_sizes_from', I, I)
EACH = z3.Function('repeated_each', Ref, I, Ref); REP = z3.Function('repeated_whole', Ref, I, Ref)
def grid(P, vary, empty, nulls):
    ex, st = P.engine({'obj_check_list': c_none, 'vec_names2': c_fresh_ref('names'), 'vec_as_names': c_fresh_ref('names')})
    st.g[('nowrite',)] = True
    ex.opaque_mul = True
    SZ = z3.Function('size_of_input', I, I)       # sizes of the inputs that are not NULL
    ex.unfold['product_of_sizes_before'] = lambda k: PRE(k) == z3.If(k <= 0, 1, ex.mul(PRE(k - 1), SZ(k - 1)))
    ex.noterm = ex.noterm | {'product', 'quotient'}
    xs0 = old_obj(ex, st, 'inputs', T_LIST); st.assume(xs0 != NILREF)
    ANYNULL = z3.BoolVal(nulls)
    def any_missing(ex, st, a):
        """vec_any_missing(list): some element is NULL (C07)"""
        ex.oblige(st, asref(a[0]) == xs0, 'arg', 'the inputs'); return ANYNULL
    def complete(ex, st, a):
        """vec_detect_complete(list): which elements are not NULL (C07)"""
        r = new_obj(ex, st, T_LGL, None, 'new_complete'); ex.oblige(st, asref(a[0]) == xs0, 'arg', 'the inputs'); st.g['complete'] = r; return sx(r)
    kept = z3.Const('inputs_kept', Ref)
    def slice_(ex, st, a):
        """vec_slice(list, complete): the elements that are not NULL, in order (C08)"""
        ex.oblige(st, z3.And(asref(a[0]) == xs0, asref(a[1]) == st.g['complete']), 'arg', 'NULL inputs are dropped'); set_dtype(st, kept, T_LIST); ex.set_stamp(st, kept, 0)
        st.assume(TYPE(kept) == T_LIST, LEN(kept) >= 0)
        return sx(kept)
    ex.set_stamp(st, kept, 0); st.assume(kept != NULLREF, kept != NILREF)
    xs = z3.Const('inputs_used', Ref); ex.set_stamp(st, xs, 0)
    st.assume(xs == z3.If(ANYNULL, kept, xs0))
    n = z3.Int('n_inputs'); X = z3.Const('elements', z3.ArraySort(I, Ref))
    for r in (kept, xs0):
        c = z3.BoolVal(True) if False else (ANYNULL if r is kept else z3.Not(ANYNULL))
        st.assume(z3.Implies(c, LEN(r) == n))
        ex.defs.append(QF(lambda k, r=r, c=c: z3.Implies(c, z3.Select(ex.content(st, 'ref', r), k) == z3.Select(X, k))))
    st.assume(n >= 0, n <= MAXSIZE)
    ex.defs.append(QF(lambda k: z3.Implies(inr(k, n), z3.And(z3.Select(X, k) != NULLREF, z3.Select(X, k) != NILREF, SZ(k) >= 0, SZ(k) <= MAXSIZE, VSIZE(z3.Select(X, k)) == SZ(k)))))
    def sizes(ex, st, a):
        """list_sizes(list): the size of every element (C13), or an error for an element that is not a vector"""
        ex.oblige(st, asref(a[0]) == xs, 'arg', 'sizes of the inputs used')
        r = new_obj(ex, st, T_INT, LEN(asref(a[0])), 'new_sizes'); arr = mk(z3.ArraySort(I, I), 'sizes'); ex.set_content(st, 'i32', r, arr)
        st.assume(LEN(r) == n, QF(lambda k: z3.Implies(inr(k, n), z3.Select(arr, k) == SZ(k))))
        return [('ret', st, sx(r)), ('err', st.fork(), 'sizes')]
    def rep_each(ex, st, a):
        """vec_rep_each(x, times): each element times times (C11); an error when the result is too large"""
        x, t = asref(a[0]), asref(a[1]); tv = simp(z3.Select(ex.content(st, 'i32', t), 0))
        ex.oblige(st, z3.And(LEN(t) == 1, tv >= 0), 'arg', 'a valid number of copies')
        s2 = st.fork(); pr = ex.mul(VSIZE(x), tv); s2.assume(pr > MAXSIZE)
        r = EACH(x, tv); st.assume(pr <= MAXSIZE, r != NULLREF, VSIZE(r) == pr)
        return [('ret', st, sx(r)), ('err', s2, 'repetition is too large')]
    def rep(ex, st, a):
        """vec_rep(x, times): the whole of x times times (C11); an error when the result is too large"""
        x, tv = asref(a[0]), simp(a[1])
        ex.oblige(st, tv >= 0, 'arg', 'a valid number of copies')
        s2 = st.fork(); pr = ex.mul(VSIZE(x), tv); s2.assume(pr > MAXSIZE)
        r = REP(x, tv); st.assume(pr <= MAXSIZE, r != NULLREF, VSIZE(r) == pr)
        return [('ret', st, sx(r)), ('err', s2, 'repetition is too large')]
    def repair_opts(ex, st, a):
        """new_name_repair_opts(): how names are repaired (not part of this property)"""
        return None
    def minimal(ex, st, a):
        """r_is_minimal_names(names): no missing and no empty name"""
        return z3.Bool('all_named')
    def arg_match(ex, st, a):
        return z3.IntVal(VARY[vary])
    VARY = dict(slowest=0, fastest=1)
    ex.contracts.update({'vec_any_missing': any_missing, 'vec_detect_complete': complete, 'vec_slice': slice_, 'list_sizes': sizes, 'vec_rep_each': rep_each, 'vec_rep': rep,
                         'new_name_repair_opts': repair_opts, 'r_is_minimal_names': minimal})
    # ---- products
    i, k, a, b, c, s = z3.Ints('i k a b c s')
    Z, SZV = z3.Bool('some_size_is_zero'), None
    W = z3.Int('input_of_size_zero')
    st.assume(z3.Implies(Z, z3.And(inr(W, n), SZ(W) == 0)))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(z3.Not(Z), inr(k, n)), SZ(k) >= 1)))
    st.assume(Z == z3.BoolVal(empty))
    TOT = z3.Int('rows'); st.assume(TOT == PRE(n))
    f = z3.Function('sz', I, I); pre = z3.Function('pre', I, I); suf = z3.Function('suf', I, I)
    step = lambda k: z3.And(pre(k + 1) == pre(k) * f(k), suf(k) == f(k) * suf(k + 1))
    # real multiplication is what the opaque symbols stand for; each fact is a lemma about it
    P.lemma(ex, 'a product of sizes is not negative', [k >= 0, step(k), pre(k) >= 0, f(k) >= 0], pre(k + 1) >= 0)
    P.lemma(ex, 'a product of positive sizes is positive', [k >= 0, step(k), pre(k) >= 1, f(k) >= 1], pre(k + 1) >= 1)
    P.lemma(ex, 'a product stays zero', [k >= 0, step(k), pre(k) == 0], pre(k + 1) == 0)
    P.lemma(ex, 'a zero size makes the product zero', [k >= 0, step(k), f(k) == 0], pre(k + 1) == 0)
    P.lemma(ex, 'before times after is the total, base', [suf(i) == 1, pre(i) == c], pre(i) * suf(i) == c)
    P.lemma(ex, 'before times after is the total, step (downwards)', [k >= 0, pre(k + 1) == a * s, suf(k) == s * b, a * s * b == c], a * (s * b) == c)
    P.lemma(ex, 'quotient of a product', [b > 0, a * b == c], c / b == a)
    P.lemma(ex, 'a factor of a positive product', [a >= 1, b >= 1, a * b == c], z3.And(b <= c, a <= c))
    P.lemma(ex, 'products of positive sizes grow', [a >= 1, s >= 1], a * s >= a)
    P.lemma(ex, 'the overflow test', [s > 0, a > 0], (a > z3.IntVal(MAX) / s) == (a * s > MAX))
    P.lemma(ex, 'zero times anything', [], z3.And(0 * a == 0, a * 0 == 0))
    mul = ex.mul
    ex.unfold['product'] = lambda x, y: [MUL(x, y) == MUL(y, x), z3.Implies(z3.Or(x == 0, y == 0), MUL(x, y) == 0), z3.Implies(x == 1, MUL(x, y) == y), z3.Implies(y == 1, MUL(x, y) == x)]
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(k >= 0, k <= n), PRE(k) >= 0)))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(Z, k > W, k <= n), PRE(k) == 0)))
    pos = lambda k: z3.And(z3.Not(Z), k >= 0, k < n)
    ex.defs.append(QF(lambda k: z3.Implies(pos(k), z3.And(PRE(k) >= 1, PRE(k + 1) >= PRE(k), PRE(k + 1) >= 1, PRE(k) <= TOT, PRE(k + 1) <= TOT, TOT >= 1, SUF(k + 1) >= 1, SUF(k + 1) <= TOT, SUF(k) <= TOT,
        SUF(k) == mul(SZ(k), SUF(k + 1)), mul(PRE(k), SUF(k)) == TOT, mul(PRE(k + 1), SUF(k + 1)) == TOT,
        DIV(TOT, PRE(k + 1)) == SUF(k + 1), DIV(PRE(k + 1), SZ(k)) == PRE(k)))))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(inr(k, n), SZ(k) > 0, PRE(k) > 0), (PRE(k) > DIV(z3.IntVal(MAX), SZ(k))) == (PRE(k + 1) > MAX))))
    # ---- invariants
    def tmpl(lc):
        cs = []
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a != b: cs.append((f'pre:{a}:{b}', lambda ls, ga=ga, gb=gb: ga(ls) == PRE(gb(ls))))
            cs.append((f'fit:{a}', lambda ls, ga=ga: PRE(ga(ls)) <= MAX))
        return cs
    ex.templates.append(tmpl)
    t_pointwise(ex, 'i64', lambda e, k: z3.And(e == PRE(k + 1), e <= MAX), 'cum')
    te = lambda k: z3.IntVal(0) if empty else (SUF(k + 1) if vary == 'slowest' else PRE(k))
    tt = lambda k: z3.IntVal(0) if empty else (PRE(k) if vary == 'slowest' else SUF(k + 1))
    col = lambda e, k: z3.And(e == REP(EACH(z3.Select(X, k), te(k)), tt(k)), VSIZE(e) == TOT)
    t_pointwise(ex, 'ref', col, 'col')
    def post(s, v):
        r = v.ref(); R = ex.content(s, 'ref', r)
        ex.oblige(s, z3.And(LEN(r) == n, TYPE(r) == T_LIST), 'post', 'one column per input')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), col(z3.Select(R, k), k))), 'post', 'a column repeats each element as often as the later inputs have combinations and the whole as often as the earlier ones have' if vary == 'slowest' else 'a column repeats each element as often as the earlier inputs have combinations and the whole as often as the later ones have')
        rows = [v for kk, v in s.g.items() if isinstance(kk, tuple) and kk[0] == 'attr' and kk[1] == r.get_id() and z3.eq(v[2], sym_ref('row_names'))]
        if len(rows) != 1: raise ToolLimit('row names')
        rn = rows[0][0]; A = ex.content(s, 'i32', rn)
        ex.oblige(s, z3.Or(z3.And(TOT == 0, LEN(rn) == 0), z3.And(TOT > 0, LEN(rn) == 2, z3.Select(A, 0) == -2**31, z3.Select(A, 1) == -TOT)), 'post', 'as many rows as the product of the sizes')
        ex.oblige(s, TOT <= MAXSIZE, 'post', 'the number of rows can be represented')
        cls = [v for kk, v in s.g.items() if isinstance(kk, tuple) and kk[0] == 'attr' and kk[1] == r.get_id() and z3.eq(v[2], sym_ref('class_'))]
        ex.oblige(s, z3.BoolVal(len(cls) == 1), 'post', 'a data frame')
    W2 = z3.Int('k_err')
    def err(s, why):
        if why == 'sizes': return
        s2 = s.fork(); s2.assume(z3.Bool('all_named'), QF(lambda k: z3.Implies(z3.And(k >= 0, k <= n), PRE(k) <= MAX)), TOT <= MAXSIZE)
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only for unnamed inputs or a product that is too large')
    vv = old_obj(ex, st, 'vary', T_CHR, z3.IntVal(1)); E = z3.Select(ex.content(st, 'ref', vv), 0)
    RC = z3.Function('R_CHAR', Ref, Ref)
    codes = {k: z3.IntVal(rapi.lit_code(f'c"{k}\\00"')) for k in VARY}
    st.assume(E != NASTR, CSTR(RC(E)) == codes[vary])
    P.run(ex, st, 'ffi_vec_expand_grid', [sx(xs0), sx(vv), sx(old_obj(ex, st, 'repair')), sx(old_obj(ex, st, 'frame'))], post, err)
import rapi
for _v in ('slowest', 'fastest'):
    for _e in (False, True):
        for _n in (False, True):
            case('C20', f'grid, {_v} first{", an empty input" if _e else ""}{", NULL inputs" if _n else ""}', 'ffi_vec_expand_grid', cost=3)(lambda P, v=_v, e=_e, n=_n: grid(P, v, e, n))
