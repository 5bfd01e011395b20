"""C10: subscripts."""
from slicelib import *
OPTS = dict(missing=('propagate', 'remove', 'error'), negative=('invert', 'error', 'ignore'), oob=('error', 'remove', 'extend'), zero=('remove', 'error', 'ignore'))
def base(P):
    ex, st = P.engine({'abs': lambda ex, st, a: z3.If(a[0] == NA, z3.IntVal(NA), z3.If(a[0] < 0, -a[0], a[0])), 'OBJECT': lambda ex, st, a: z3.If(OBJ(asref(a[0])), z3.IntVal(1), z3.IntVal(0))})
    ex.contracts['abs'].__doc__ = 'abs(x): the absolute value; that of INT_MIN is INT_MIN (as compiled: formally undefined, reached for a missing location when out-of-bounds locations are dropped)'
    ex.contracts['llvm.abs.i32'] = ex.contracts['abs']
    st.g[('nowrite',)] = True
    return ex, st
def named(ex, st, x, n):
    NM = sym_ref('names'); nms = GETATTR(x, NM); ex.set_stamp(st, nms, 0); set_dtype(st, nms, T_CHR); ex.set_stamp(st, NM, 0)
    st.assume(nms != NULLREF, z3.Or(nms == NILREF, z3.And(TYPE(nms) == T_CHR, LEN(nms) == n)), nms != x)
    return nms, ex.content(st, 'ref', nms)
def names_post(ex, s, r, nms, m, el, text='names travel with the locations'):
    on = attr_set(ex, s, r, sym_ref('names'))
    s1 = s.fork(); s1.assume(nms != NILREF)
    if on is None: ex.oblige(s1, z3.BoolVal(False), 'post', 'names are set'); return
    ex.oblige(s1, z3.And(TYPE(on) == T_CHR, LEN(on) == m), 'post', 'as many names as locations')
    A = ex.content(s1, 'ref', on)
    ex.oblige(s1, QF(lambda k: z3.Implies(inr(k, m), z3.Select(A, k) == el(k))), 'post', text)
# ---------------------------------------------------------------- positions of the true elements
def t_to_n(ex, key, fn, name):
    """a full-range statement, split at a loop counter: fn(ls.arr, j, counter)"""
    def tmpl(lc):
        cs = []
        for ky, ref in lc.arrays:
            if ky != key: continue
            for v, (g, v0) in lc.ints.items(): cs.append((f'{name}:{ref.sexpr()[:20]}:{v}', lambda ls, g=g, ref=ref: fn(ls.arr(key, ref), g(ls))))
        return cs
    ex.templates.append(tmpl)
def which(P, prop, hasnames):
    ex, st = base(P)
    x = old_obj(ex, st, 'x', T_LGL); n = LEN(x); X = ex.content(st, 'i32', x)
    st.assume(n < MAXSIZE, x != NILREF)
    ex.defs.append(QF(lambda k: z3.Implies(inr(k, n), z3.Or(z3.Select(X, k) == 0, z3.Select(X, k) == 1, z3.Select(X, k) == NA))))
    nms, N = named(ex, st, x, n)
    st.assume((nms != NILREF) == z3.BoolVal(hasnames))
    xe = lambda k: z3.Select(X, k)
    sel = (lambda k: z3.Or(xe(k) == 1, xe(k) == NA)) if prop else (lambda k: xe(k) == 1)
    CNT, SEL = enum_def(ex, P, sel, n, 'selected')
    t_fn(ex, CNT, 'cnt', (0,), (0,))
    val = lambda k: z3.If(xe(k) == NA, z3.IntVal(NA), k + 1)
    mark = (lambda k: z3.If(xe(k) == NA, -k - 1, k + 1)) if prop and hasnames else val
    T = CNT(n)
    t_to_n(ex, 'i32', lambda A, i: rngq(z3.IntVal(0), i, lambda j: z3.Select(A, j) == mark(SEL(j))), 'mark')
    t_to_n(ex, 'i32', lambda A, i: rngq(z3.IntVal(0), T, lambda j: z3.Select(A, j) == z3.If(j < i, val(SEL(j)), mark(SEL(j)))), 'final')
    t_to_n(ex, 'ref', lambda A, i: rngq(z3.IntVal(0), i, lambda j: z3.Select(A, j) == z3.Select(N, SEL(j))), 'nm')
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == T), 'post', 'one location per selected position')
        ex.oblige(s, QF(lambda j: z3.Implies(inr(j, T), z3.Select(A, j) == val(SEL(j)))), 'post', 'the selected positions in order, missing where x is missing')
        if hasnames: names_post(ex, s, r, nms, T, lambda j: z3.Select(N, SEL(j)))
        else: ex.oblige(s, z3.BoolVal(attr_set(ex, s, r, sym_ref('names')) is None), 'post', 'no names without names')
    P.run(ex, st, 'r_lgl_which', [sx(x), z3.BoolVal(prop)], post, False)
for _p in (True, False):
    for _n in (False, True): case('C10', f'positions of true elements, missing {"kept" if _p else "dropped"}{", names" if _n else ""}', 'r_lgl_which')(lambda P, p=_p, n=_n: which(P, p, n))
# ---------------------------------------------------------------- filters
def stops(P, ex):
    """functions that raise a classed error"""
    for m in P.mods:
        for f in m.funcs:
            if f.startswith('stop_'): ex.contracts[f] = lambda ex, st, a, f=f: [('err', st, f)]
def filter_case(P, fn, hasnames):
    ex, st = base(P)
    x = old_obj(ex, st, 'subscript', T_INT); m = LEN(x); X = ex.content(st, 'i32', x)
    nf, n, value = z3.Ints('n_filter n value')
    st.assume(m <= MAXSIZE, x != NILREF, n >= 0, n <= MAXSIZE, value >= -2**31, value <= MAXSIZE)
    nms, N = named(ex, st, x, m)
    st.assume((nms != NILREF) == z3.BoolVal(hasnames))
    xe = lambda k: z3.Select(X, k)
    keep = (lambda k: xe(k) != value) if fn == 'int_filter' else (lambda k: z3.Or(xe(k) == NA, z3.And(xe(k) <= n, xe(k) >= -n)))
    CNT, SEL = enum_def(ex, P, keep, m, 'kept')
    T = CNT(m); st.assume(nf == m - T)
    t_fn(ex, CNT, 'cnt', (0,), (0,))
    t_to_n(ex, 'i32', lambda A, i: rngq(z3.IntVal(0), i, lambda j: z3.Select(A, j) == xe(SEL(j))), 'el')
    t_to_n(ex, 'ref', lambda A, i: rngq(z3.IntVal(0), i, lambda j: z3.Select(A, j) == z3.Select(N, SEL(j))), 'nm')
    # a filter keeps how many elements of a kind there are, when it keeps all elements of the kind
    GOOD = z3.Function('of_a_kind', I, B); A, CI, CO, k = z3.Const('a', z3.ArraySort(I, I)), z3.Function('kind_in', I, I), z3.Function('kind_out', I, I), z3.Int('k')
    for kept in (True, False):
        P.lemma(ex, 'a filter keeps the number of elements of a kind it does not drop, step', [CO(CNT(k)) == CI(k), CI(k + 1) == CI(k) + z3.If(GOOD(xe(k)), 1, 0), CO(CNT(k) + 1) == CO(CNT(k)) + z3.If(GOOD(z3.Select(A, CNT(k))), 1, 0), CNT(k + 1) == CNT(k) + z3.If(keep(k), 1, 0),
            z3.Implies(GOOD(xe(k)), keep(k)), keep(k) == z3.BoolVal(kept), z3.Implies(keep(k), z3.Select(A, CNT(k)) == xe(k))], CO(CNT(k + 1)) == CI(k + 1))
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == T), 'post', 'one location per element kept')
        ex.oblige(s, QF(lambda j: z3.Implies(inr(j, T), z3.Select(A, j) == xe(SEL(j)))), 'post', 'the elements kept, in order')
        if hasnames: names_post(ex, s, r, nms, T, lambda j: z3.Select(N, SEL(j)))
        else: ex.oblige(s, z3.BoolVal(attr_set(ex, s, r, sym_ref('names')) is None), 'post', 'no names without names')
    P.run(ex, st, fn, [sx(x), nf, value] if fn == 'int_filter' else [sx(x), n, nf], post, False)
for _n in (False, True):
    case('C10', f'drop an element{", names" if _n else ""}', 'int_filter')(lambda P, n=_n: filter_case(P, 'int_filter', n))
    case('C10', f'drop out of bounds{", names" if _n else ""}', 'int_filter_oob')(lambda P, n=_n: filter_case(P, 'int_filter_oob', n))
# ---------------------------------------------------------------- numeric subscripts
ARR = z3.ArraySort(I, I)
CM, CZ, CO = (z3.Function(f, ARR, I, I, I) for f in ('missing_before', 'zeros_before', 'out_of_bounds_before'))   # content, n, k
def count_arr(ex, F, pred):
    ex.unfold[F.name()] = lambda A, n, k: z3.And(F(A, n, k) >= 0, z3.Implies(k >= 0, F(A, n, k) <= k), F(A, n, k) == z3.If(k <= 0, z3.IntVal(0), F(A, n, k - 1) + z3.If(pred(z3.Select(A, k - 1), n), 1, 0)))
    ex.noterm = ex.noterm | {F.name()}
ISM, ISZ, ISO = (lambda e, n: e == NA), (lambda e, n: e == 0), (lambda e, n: z3.And(e != NA, z3.Or(e > n, e < -n)))
def loc_opts(ex, st):
    """options, each one of its three values"""
    p = P_('cell', 'caller_opts'); m = ex.mods[0]; o = {}
    for off, k in ((40, 'negative'), (44, 'oob'), (48, 'zero'), (52, 'missing')):
        v = z3.Int('opt_' + k); st.assume(v >= 0, v <= 2); ex.store(st, p.add(off), v, Ty('i', 32), m)
        o[k] = lambda w, v=v, k=k: v == enum_val(k, w)
    for off in (0, 4, 8, 12): ex.store(st, p.add(off), z3.Int(f'opt_subscript_{off}'), Ty('i', 32), m)
    for off in (16, 24, 32): ex.store(st, p.add(off), sx(NILREF), Ty('ptr'), m)
    return p, o
def enum_val(k, w):
    pre = dict(missing='SUBSCRIPT_MISSING_', negative='LOC_NEGATIVE_', oob='LOC_OOB_', zero='LOC_ZERO_')[k]
    src = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'subscript-loc.h')).read()
    src = re.sub(r'//.*|/\*.*?\*/', '', src, flags=re.S if False else 0)
    body = next(b for b in re.findall(r'enum \w+ \{(.*?)\}', src, re.S) if pre in b)
    return [x.strip().split(' ')[0].split('=')[0].strip() for x in body.split(',') if x.strip()].index(pre + w.upper())
def resolved(ex, sub):
    def f(ex, st, a):
        """vec_as_subscript_opts(subscript): the subscript as a logical, integer, double or character vector, or an error"""
        ex.store(st, a[2], NULL, Ty('ptr'), ex.mods[0])
        s2 = st.fork(); e = new_obj(ex, s2, None, None, 'error'); ex.store(s2, a[2], sx(e), Ty('ptr'), ex.mods[0])
        return [('ret', st, sx(sub)), ('ret', s2, sx(NILREF))]
    return f
def numeric_base(P):
    ex, st = base(P); stops(P, ex)
    ex.contracts['r_cnd_signal'] = lambda ex, st, a: [('err', st, 'not a subscript')]
    for F, p in ((CM, ISM), (CZ, ISZ), (CO, ISO)): count_arr(ex, F, p)
    return ex, st
def numeric(P, what):
    ex, st = numeric_base(P)
    x = old_obj(ex, st, 'subscript', T_INT); m = LEN(x); S = ex.content(st, 'i32', x); n = z3.Int('n')
    st.assume(m <= MAXSIZE, x != NILREF, n >= 0, n <= MAXSIZE)
    opts, O = loc_opts(ex, st)
    ex.contracts['vec_as_subscript_opts'] = resolved(ex, x)
    e = lambda k: z3.Select(S, k)
    neg = lambda v: z3.And(v < 0, v != NA)
    bad = lambda v: z3.Or(z3.And(v == NA, O['missing']('error')), z3.And(v == 0, O['zero']('error')), z3.And(neg(v), O['negative']('error')),
                          z3.And(neg(v), O['negative']('ignore'), v < -n, z3.Not(O['oob']('remove'))), z3.And(v > n, O['oob']('error')))
    counts = ((CM, O['missing']('remove')), (CZ, O['zero']('remove')), (CO, z3.BoolVal(True)), (CO, z3.Not(O['oob']('error'))))
    def tmpl(lc):
        cs = []
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                for j, (F, c) in enumerate(counts): cs.append((f'{F.name()}:{j}:{a}:{b}', lambda ls, ga=ga, gb=gb, F=F, c=c: ga(ls) == z3.If(c, F(S, n, gb(ls)), z3.IntVal(0))))
            cs.append((f'fine:{a}', lambda ls, ga=ga: rngq(z3.IntVal(0), ga(ls), lambda k: z3.And(z3.Not(bad(e(k))), z3.Implies(O['negative']('invert'), z3.Not(neg(e(k))))))))
            for F, c in counts: cs.append((f'bnd:{F.name()}:{a}', lambda ls, ga=ga, F=F: F(S, n, ga(ls)) <= ga(ls)))
        return cs
    ex.templates.append(tmpl)
    def fil(kind):
        F = dict(missing=CM, zero=CZ, oob=CO)[kind]
        def f(ex, st, r, nf):
            A = ex.content(st, 'i32', r)
            ex.oblige(st, nf == F(A, n, LEN(r)), 'arg', f'{kind} elements are counted')
            o = new_obj(ex, st, T_INT, LEN(r) - nf, 'new_' + kind); R = ex.content(st, 'i32', o)
            st.assume(*[G(R, n, LEN(o)) == (z3.IntVal(0) if G is F else G(A, n, LEN(r))) for G in (CM, CZ, CO)])
            st.g[('filtered', o.get_id())] = (o, r, kind)
            return sx(o)
        return f
    def int_filter(ex, st, a):
        """int_filter(subscript, how many, value): the elements that are not value, in order, with their names (proved: 'drop an element'), so the number of elements of other kinds is unchanged (lemma there)"""
        v = simp(a[2])
        if not z3.is_int_value(v) or v.as_long() not in (0, NA): raise ToolLimit('filter of another value')
        return fil('zero' if v.as_long() == 0 else 'missing')(ex, st, asref(a[0]), a[1])
    def int_filter_oob(ex, st, a):
        """int_filter_oob(subscript, n, how many): the elements within bounds and the missing ones, in order, with their names (proved: 'drop out of bounds')"""
        ex.oblige(st, a[1] == n, 'arg', 'the bounds'); return fil('oob')(ex, st, asref(a[0]), a[2])
    def invert(ex, st, a):
        """int_invert_location(subscript, n, opts): the complement (proved: 'negative subscripts'), or an error"""
        ex.oblige(st, z3.And(asref(a[0]) == x, a[1] == n), 'arg', 'the subscript and the size'); st.g['inverted'] = True
        r = z3.Const('complement', Ref); st.assume(r != NULLREF); return [('ret', st, sx(r)), ('err', st.fork(), 'complement')]
    def consecutive(ex, st, a):
        """int_check_consecutive(subscript, n, how many beyond): an error unless the locations beyond n are n+1, ..., n+m, each once"""
        r = asref(a[0]); A = ex.content(st, 'i32', r)
        ex.oblige(st, z3.And(a[1] == n, a[2] == CO(A, n, LEN(r)), O['oob']('extend')), 'arg', 'locations beyond the end are counted'); st.g['consecutive'] = True
        return [('ret', st, None), ('err', st.fork(), 'gap')]
    ex.contracts.update({'int_filter': int_filter, 'int_filter_oob': int_filter_oob, 'int_invert_location': invert, 'int_check_consecutive': consecutive})
    def post(s, v):
        r = v.ref()
        if s.g.get('inverted'):
            ex.oblige(s, z3.And(r == z3.Const('complement', Ref), O['negative']('invert')), 'post', 'negative locations select the complement')
            refute(ex, s, [QF(lambda k: z3.Implies(inr(k, m), z3.Not(neg(e(k)))))], 'only negative locations select the complement')
            return
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, m), z3.And(z3.Not(bad(e(k))), z3.Implies(O['negative']('invert'), z3.Not(neg(e(k))))))), 'post', 'every rejected location is an error, every negative one is inverted, rejected or ignored as asked')
        done, cur = set(), r
        while ('filtered', cur.get_id()) in s.g:
            _, src, kind = s.g[('filtered', cur.get_id())]; done.add(kind); cur = src
        ex.oblige(s, cur == x, 'post', 'locations are elements of the subscript, in order')
        for kind, F, c in (('missing', CM, O['missing']('remove')), ('zero', CZ, O['zero']('remove')), ('oob', CO, O['oob']('remove'))):
            if kind in done: ex.oblige(s, c, 'post', f'{kind} elements are dropped only when asked')
            else: ex.oblige(s, z3.Implies(c, F(S, n, m) == 0), 'post', f'{kind} elements are dropped when asked')
        if not s.g.get('consecutive'): ex.oblige(s, z3.Implies(O['oob']('extend'), CO(S, n, m) == 0), 'post', 'an extension is checked')
    def err(s, why):
        if why in ('not a subscript', 'complement', 'gap'): return
        refute(ex, s, [QF(lambda k: z3.Implies(inr(k, m), z3.Not(bad(e(k)))))], 'only rejected locations are errors')
    P.run(ex, st, 'vec_as_location_opts', [sx(x), n, sx(old_obj(ex, st, 'names')), opts], post, err)
case('C10', 'positive, zero and missing locations', 'vec_as_location_opts')(lambda P: numeric(P, None))
HIT = z3.Function('excluded_before', I, I, B)
WHICH = z3.Function('positions_of_true', Ref, B, Ref)
def c_which(ex, st, a):
    """r_lgl_which(x, na_propagate): the positions of the true (and, when asked, missing) elements (proved: 'positions of true elements')"""
    p = a[1] if z3.is_bool(a[1]) else a[1] != 0
    r = WHICH(asref(a[0]), p); st.assume(r != NULLREF); st.g['which'] = (asref(a[0]), p); return sx(r)
def inverted(P):
    ex, st = numeric_base(P)
    x = old_obj(ex, st, 'subscript', T_INT); m = LEN(x); S = ex.content(st, 'i32', x); n = z3.Int('n')
    st.assume(m <= MAXSIZE, x != NILREF, n >= 0, n <= MAXSIZE)
    opts, O = loc_opts(ex, st)
    e = lambda k: z3.Select(S, k)
    ex.unfold['excluded_before'] = lambda p, k: HIT(p, k) == z3.And(k > 0, z3.Or(HIT(p, k - 1), e(k - 1) == -(p + 1)))
    ex.noterm = ex.noterm | {'excluded_before'}
    ex.contracts['r_lgl_which'] = c_which
    bad = lambda v: z3.Or(z3.And(v == NA, z3.Not(O['missing']('remove'))), z3.And(v == 0, O['zero']('error')), v > 0, z3.And(v < -n, v != NA, z3.Not(O['oob']('remove'))))
    def tmpl(lc):
        return [(f'fine:{a}', lambda ls, ga=ga: rngq(z3.IntVal(0), ga(ls), lambda k: z3.Not(bad(e(k))))) for a, (ga, _) in lc.ints.items()]
    ex.templates.append(tmpl)
    t_to_n(ex, 'i32', lambda A, i: rngq(z3.IntVal(0), n, lambda p: z3.Select(A, p) == z3.If(HIT(p, i), z3.IntVal(0), z3.IntVal(1))), 'sel')
    t_to_n(ex, 'i32', lambda A, i: rngq(z3.IntVal(0), i, lambda p: z3.Select(A, p) == 1), 'ones')
    def post(s, v):
        w = s.g.get('which')
        if w is None: ex.oblige(s, z3.BoolVal(False), 'post', 'the positions that are not excluded'); return
        A = ex.content(s, 'i32', w[0])
        ex.oblige(s, z3.And(v.ref() == WHICH(*w), LEN(w[0]) == n), 'post', 'the positions that are not excluded')
        ex.oblige(s, QF(lambda p: z3.Implies(inr(p, n), z3.Select(A, p) == z3.If(HIT(p, m), z3.IntVal(0), z3.IntVal(1)))), 'post', 'a position is excluded when some location is its negative')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, m), z3.Not(bad(e(k))))), 'post', 'every rejected location is an error')
    P.run(ex, st, 'int_invert_location', [sx(x), n, opts], post, lambda s, why: refute(ex, s, [QF(lambda k: z3.Implies(inr(k, m), z3.Not(bad(e(k)))))], 'only rejected locations are errors'))
case('C10', 'negative subscripts', 'int_invert_location')(inverted)
# ---------------------------------------------------------------- logical, double and character subscripts
def logical(P, hasnames):
    ex, st = numeric_base(P)
    x = old_obj(ex, st, 'subscript', T_LGL); m = LEN(x); S = ex.content(st, 'i32', x); n = z3.Int('n')
    st.assume(m <= MAXSIZE, x != NILREF, n >= 0, n < MAXSIZE)
    nms, N = named(ex, st, x, m); st.assume((nms != NILREF) == z3.BoolVal(hasnames))
    ex.defs.append(QF(lambda k: z3.Implies(inr(k, m), z3.Or(z3.Select(S, k) == 0, z3.Select(S, k) == 1, z3.Select(S, k) == NA))))
    opts, O = loc_opts(ex, st)
    ex.contracts.update({'vec_as_subscript_opts': resolved(ex, x), 'r_lgl_which': c_which})
    clone_contracts(ex); ex.contracts['Rf_duplicate'] = c_shallow_duplicate
    EMPTYI = z3.Const(f'r_globals_empty_{T_INT}', Ref); st.assume(LEN(EMPTYI) == 0, TYPE(EMPTYI) == T_INT)
    for v in ('na', 'seq'): t_to_n(ex, 'i32', lambda A, i, v=v: rngq(z3.IntVal(0), i, lambda j: z3.Select(A, j) == (z3.IntVal(NA) if v == 'na' else j + 1)), v)
    t_to_n(ex, 'ref', lambda A, i: rngq(z3.IntVal(0), i, lambda j: z3.Select(A, j) == z3.Select(N, 0)), 'nm')
    def tmpl(lc):
        return [(f'nona:{a}', lambda ls, ga=ga: rngq(z3.IntVal(0), ga(ls), lambda k: z3.Select(S, k) != NA)) for a, (ga, _) in lc.ints.items()]
    ex.templates.append(tmpl)
    x0 = z3.Select(S, 0)
    def post(s, v):
        r = v.ref(); w = s.g.get('which')
        ex.oblige(s, z3.Or(m == n, m == 1), 'post', 'the size is that of the data or 1')
        ex.oblige(s, QF(lambda k: z3.Implies(z3.And(O['missing']('error'), inr(k, m)), z3.Select(S, k) != NA)), 'post', 'missing elements are rejected when asked')
        if w is not None:
            ex.oblige(s, z3.And(m == n, w[0] == x, r == WHICH(*w)), 'post', 'the positions of the true elements')
            ex.oblige(s, w[1] == O['missing']('propagate'), 'post', 'missing elements are kept as missing when asked')
            return
        A = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(m == 1, n != 1, TYPE(r) == T_INT), 'post', 'a single element stands for every element')
        T = z3.If(z3.Or(x0 == 1, z3.And(x0 == NA, O['missing']('propagate'))), n, z3.IntVal(0))
        ex.oblige(s, LEN(r) == T, 'post', 'all or nothing')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, T), z3.Select(A, k) == z3.If(x0 == NA, z3.IntVal(NA), k + 1))), 'post', 'every position, or missing')
        if hasnames: names_post(ex, s, r, nms, T, lambda j: z3.Select(N, 0))
    def err(s, why):
        if why == 'not a subscript': return
        refute(ex, s, [z3.Or(m == n, m == 1), QF(lambda k: z3.Implies(z3.And(O['missing']('error'), inr(k, m)), z3.Select(S, k) != NA))], 'only a wrong size or rejected missing elements are errors')
    P.run(ex, st, 'vec_as_location_opts', [sx(x), n, sx(old_obj(ex, st, 'names')), opts], post, err)
for _n in (False, True): case('C10', f'logical subscripts{", names" if _n else ""}', 'vec_as_location_opts')(lambda P, n=_n: logical(P, n))
MATCH = z3.Function('first_match', Ref, I)      # position + 1 of the first name equal to the string, or missing
def character(P):
    ex, st = numeric_base(P)
    x = old_obj(ex, st, 'subscript', T_CHR); m = LEN(x); S = ex.content(st, 'ref', x); n = z3.Int('n'); nm = old_obj(ex, st, 'names', T_CHR)
    st.assume(m <= MAXSIZE, x != NILREF, n >= 0, n <= MAXSIZE)
    opts, O = loc_opts(ex, st)
    ex.noterm = ex.noterm | {'first_match'}
    EMPTY = sym_ref('empty', 'r_globals_strs', 'r_strs')
    st.assume(EMPTY != NASTR)
    e = lambda k: z3.Select(S, k)
    def match(ex, st, a):
        """Rf_match(table, x, nomatch): the position of the first equal string of the table, or nomatch"""
        ex.oblige(st, z3.And(asref(a[0]) == nm, asref(a[1]) == x, a[2] == NA), 'arg', 'the subscript is matched in the names')
        r = new_obj(ex, st, T_INT, m, 'new_matched'); R = mk(ARR, 'matched'); ex.set_content(st, 'i32', r, R)
        st.assume(QF(lambda k: z3.Implies(inr(k, m), z3.Select(R, k) == MATCH(e(k))))); return sx(r)
    def complete(ex, st, a):
        """vec_detect_complete(x): which elements are not missing (C07)"""
        r = new_obj(ex, st, T_LGL, None, 'new_complete'); st.g['complete'] = (r, asref(a[0])); return sx(r)
    def slice_(ex, st, a):
        """vec_slice(x, i): the selected elements (C08)"""
        r = new_obj(ex, st, T_INT, None, 'new_slice'); st.g['slice'] = (r, asref(a[0]), asref(a[1])); return sx(r)
    ex.contracts.update({'vec_as_subscript_opts': resolved(ex, x), 'Rf_match': match, 'vec_detect_complete': complete, 'vec_slice': slice_})
    loc = lambda k: z3.If(e(k) == NASTR, z3.IntVal(NA), MATCH(e(k)))
    bad = lambda k: z3.Or(e(k) == EMPTY, z3.And(e(k) == NASTR, O['missing']('error')), z3.And(e(k) != NASTR, MATCH(e(k)) == NA))
    t_to_n(ex, 'i32', lambda A, i: rngq(z3.IntVal(0), m, lambda k: z3.Select(A, k) == z3.If(k < i, loc(k), MATCH(e(k)))), 'loc')
    def tmpl(lc):
        cs = [(f'fine:{a}', lambda ls, ga=ga: rngq(z3.IntVal(0), ga(ls), lambda k: z3.Not(bad(k)))) for a, (ga, _) in lc.ints.items()]
        for b, gb in list(lc.bools.items()):
            gb = gb[0] if isinstance(gb, tuple) else gb
            for a, (ga, _) in lc.ints.items(): cs.append((f'nona:{b}:{a}', lambda ls, ga=ga, gb=gb: rngq(z3.IntVal(0), ga(ls), lambda k: z3.Implies(z3.And(z3.Not(gb(ls)), O['missing']('remove')), e(k) != NASTR))))
            cs.append((f'rm:{b}', lambda ls, gb=gb: z3.Implies(gb(ls), O['missing']('remove'))))
        for b, (gb, _) in list(lc.ints.items()):
            for a, (ga, _) in lc.ints.items():
                if a != b and ('cell' in b or b.startswith('r')): cs.append((f'nonai:{b}:{a}', lambda ls, ga=ga, gb=gb: rngq(z3.IntVal(0), ga(ls), lambda k: z3.Implies(z3.And(gb(ls) == 0, O['missing']('remove')), e(k) != NASTR)))); cs.append((f'rmi:{b}', lambda ls, gb=gb: z3.Implies(gb(ls) != 0, O['missing']('remove'))))
        return cs
    ex.templates.append(tmpl)
    def post(s, v):
        r = v.ref(); sl = s.g.get('slice')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, m), z3.Not(bad(k)))), 'post', 'every rejected name is an error')
        mt = r if sl is None else sl[1]
        A = ex.content(s, 'i32', mt)
        ex.oblige(s, z3.And(LEN(mt) == m, TYPE(mt) == T_INT), 'post', 'one location per name')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, m), z3.Select(A, k) == loc(k))), 'post', 'the first match of every name, missing for a missing name')
        if sl is None:
            s1 = s.fork(); s1.assume(O['missing']('remove'))
            ex.oblige(s1, QF(lambda k: z3.Implies(inr(k, m), e(k) != NASTR)), 'post', 'missing names are dropped when asked')
        else:
            c = s.g.get('complete')
            ex.oblige(s, z3.And(r == sl[0], sl[2] == c[0], c[1] == mt, O['missing']('remove')) if c else z3.BoolVal(False), 'post', 'only missing names are dropped, when asked')
        on = attr_set(ex, s, mt, sym_ref('names'))
        ex.oblige(s, on == GETATTR(x, sym_ref('names')) if on is not None else z3.BoolVal(False), 'post', 'names of the subscript are kept')
    def err(s, why):
        if why == 'not a subscript': return
        refute(ex, s, [nm != NILREF, TYPE(nm) == T_CHR, QF(lambda k: z3.Implies(inr(k, m), z3.Not(bad(k))))], 'only rejected names are errors')
    P.run(ex, st, 'vec_as_location_opts', [sx(x), n, sx(nm), opts], post, err)
case('C10', 'character subscripts', 'vec_as_location_opts')(character)
def double(P):
    ex, st = numeric_base(P)
    x = old_obj(ex, st, 'subscript', T_DBL); n = z3.Int('n'); st.assume(x != NILREF, n >= 0, n <= MAXSIZE)
    opts, O = loc_opts(ex, st)
    OUT = z3.Const('locations', Ref); st.assume(OUT != NULLREF)
    def int_loc(ex, st, a):
        """int_as_location(subscript, n, opts): (proved for integer subscripts)"""
        ex.oblige(st, z3.And(asref(a[0]) == st.g['cast'], a[1] == n), 'arg', 'the cast subscript is resolved'); st.g['resolved'] = True
        return [('ret', st, sx(OUT)), ('err', st.fork(), 'locations')]
    ex.contracts.update({'vec_as_subscript_opts': resolved(ex, x), 'vec_cast': lambda ex, st, a: (ex.oblige(st, asref(a[0]) == x, 'arg', 'the subscript is cast'), c_cast_int(ex, st, a))[1], 'int_as_location': int_loc})
    ex.contracts['vec_cast'].__doc__ = c_cast_int.__doc__
    P.run(ex, st, 'vec_as_location_opts', [sx(x), n, sx(old_obj(ex, st, 'names')), opts], lambda s, v: ex.oblige(s, z3.And(v.ref() == OUT, z3.BoolVal(bool(s.g.get('resolved')))), 'post', 'the locations of the lossless integer cast'), lambda s, why: ex.oblige(s, z3.BoolVal(why in ('cast', 'locations', 'not a subscript')), 'post', 'errors come from the cast or the locations'))
case('C10', 'double subscripts', 'vec_as_location_opts', cost=1)(double)
