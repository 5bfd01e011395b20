"""C04: unique locations, duplicates, identifiers and counts, over the contract of the dictionary (C03)."""
from dictlib import *
def setup(P, occ=False, back=False, used=True, counts=True):
    ex, st = P.engine({})
    x = old_obj(ex, st, 'x'); n = VSIZE(x)
    st.assume(n >= 0, n <= MAXSIZE, x != NILREF)
    q, = proxies(ex, st, [x])
    dict_env(P, ex, st, [(q, n)], occ, back, used)
    growable_contracts(ex)
    st.g[('nowrite',)] = True
    first = lambda k: isfirst(q, k)
    CNT = SEL = None
    if counts:
        CNT, SEL = enum_def(ex, P, first, n, 'first')
        t_fn(ex, CNT, 'cnt', (0,), (0,))
    return ex, st, x, n, q, CNT, SEL
def ids(q): return lambda k: FST(q, CLS(q, k))
@case('C04', 'unique locations', 'vctrs_unique_loc')
def _(P):
    ex, st, x, n, q, CNT, SEL = setup(P)
    t_arr(ex, 'i32', lambda A, k: z3.Select(A, k) == SEL(k) + 1, 'sel')
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'i32', r); T = CNT(n)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == T), 'post', 'one location per distinct element')
        ex.oblige(s, QF(lambda j: z3.Implies(inr(j, T), z3.Select(A, j) == SEL(j) + 1)), 'post', 'the positions of first elements, in order')
    P.run(ex, st, 'vctrs_unique_loc', [sx(x)], post)
@case('C04', 'number of distinct elements', 'vctrs_n_distinct')
def _(P):
    ex, st, x, n, q, CNT, SEL = setup(P)
    def post(s, v):
        r = v.ref()
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == 1, z3.Select(ex.content(s, 'i32', r), 0) == CNT(n)), 'post', 'the number of first elements')
    P.run(ex, st, 'vctrs_n_distinct', [sx(x)], post)
@case('C04', 'identifiers', 'vctrs_id')
def _(P):
    ex, st, x, n, q, CNT, SEL = setup(P, used=False, counts=False)
    t_arr(ex, 'i32', lambda A, k: z3.Select(A, k) == ids(q)(k) + 1, 'id')
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_INT, LEN(r) == n), 'post', 'one identifier per element')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(A, k) == ids(q)(k) + 1)), 'post', 'the first position holding an equal element')
    P.run(ex, st, 'vctrs_id', [sx(x)], post)
@case('C04', 'any duplicates', 'vctrs_duplicated_any')
def _(P):
    ex, st, x, n, q, CNT, SEL = setup(P, used=False, counts=False)
    t_prefix(ex, lambda k: isfirst(q, k), 'allfirst')
    def post(s, v):
        r = v.ref(); e = z3.Select(ex.content(s, 'i32', r), 0)
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == 1, z3.Or(e == 0, e == 1)), 'post', 'true or false')
        s0 = s.fork(); s0.assume(e == 0)
        ex.oblige(s0, QF(lambda k: z3.Implies(inr(k, n), isfirst(q, k))), 'post', 'false: every element is the first of its kind')
        refute(ex, s, [e == 1, QF(lambda k: z3.Implies(inr(k, n), isfirst(q, k)))], 'true: some element is not the first of its kind')
    P.run(ex, st, 'vctrs_duplicated_any', [sx(x)], post)

@case('C04', 'duplicates', 'vctrs_duplicated')
def _(P):
    ex, st, x, n, q, CNT, SEL = setup(P, back=True, used=False, counts=False)
    LST = z3.Function('last_of_class', LAB, I)        # greatest position with the label, or -1
    ex.defs.append(QF(lambda j: z3.Implies(inr(j, n), z3.And(LST(CLS(q, j)) >= j, LST(CLS(q, j)) < n))))
    ex.unfold['last_of_class'] = lambda c: z3.And(LST(c) >= -1, LST(c) < n, z3.Implies(LST(c) >= 0, CLS(q, LST(c)) == c))
    fst, lst = (lambda k: isfirst(q, k)), (lambda k: LST(CLS(q, k)) == k)
    # forward: out and the slot of every element so far
    t_arr(ex, 'i32', lambda A, k: z3.Select(A, k) == b2i(z3.Not(fst(k))), 'dup')
    def tmpl(lc):
        cs = []
        for ref in arrays(lc, 'i32'):
            for d in ex.dicts.values():
                for v, (g, v0) in lc.ints.items():
                    cs.append((f'slots:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, ref=ref, d=d: (lambda S, A: rngq(z3.IntVal(0), g(ls), lambda j: z3.And(inr(z3.Select(S, j), d.size), z3.Select(A, z3.Select(S, j)) == FST(q, CLS(q, j)))))(ls.arr('i32', ref), ls.arr('i32', d.key))))
                    # backward
                    cs.append((f'both:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), n, lambda j: z3.Select(A, j) == z3.If(j > g(ls), b2i(z3.Or(z3.Not(fst(j)), z3.Not(lst(j)))), b2i(z3.Not(fst(j))))))(ls.arr('i32', ref))))
        for d in ex.dicts.values():
            for v, (g, v0) in lc.ints.items():
                cs.append((f'clear:{v}', lambda ls, g=g, d=d: (lambda A: rngq(z3.IntVal(0), g(ls), lambda p: z3.Select(A, p) == -1))(ls.arr('i32', d.key))))
                cs.append((f'lasts:{v}', lambda ls, g=g, d=d: (lambda A: rngq(z3.IntVal(0), d.size, lambda p: z3.Or(z3.Select(A, p) == -1, z3.And(z3.Select(A, p) > g(ls), z3.Select(A, p) < n, lst(z3.Select(A, p))))))(ls.arr('i32', d.key))))
                for ref in bufs(ls_env):
                    S = ex.content(lc.entry, 'i32', ref)
                    cs.append((f'at:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, d=d, S=S: (lambda A: rngq(g(ls) + 1, n, lambda j: z3.Select(A, z3.Select(S, j)) == LST(CLS(q, j))))(ls.arr('i32', d.key))))
                    cs.append((f'of:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, d=d, S=S: (lambda A: rngq(z3.IntVal(0), d.size, lambda p: z3.Implies(z3.Select(A, p) != -1, z3.Select(S, z3.Select(A, p)) == p)))(ls.arr('i32', d.key))))
        return cs
    ls_env = []
    def bufs(_): return ls_env
    ra = ex.contracts['R_alloc']
    def alloc(ex, st, a):
        p = ra(ex, st, a); ls_env.append(p.b); return p
    alloc.__name__ = 'R_alloc'; alloc.__doc__ = ra.__doc__
    ex.contracts['R_alloc'] = alloc
    ex.templates.append(tmpl)
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'i32', r)
        ex.oblige(s, z3.And(TYPE(r) == T_LGL, LEN(r) == n), 'post', 'one flag per element')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(A, k) == b2i(z3.Or(z3.Not(fst(k)), z3.Not(lst(k)))))), 'post', 'flagged when not the first or not the last of its kind')
    P.run(ex, st, 'vctrs_duplicated', [sx(x)], post)
@case('C04', 'counts', 'vctrs_count')
def _(P):
    ex, st, x, n, q, CNT, SEL = setup(P, occ=True)
    NUM = z3.Function('number_before', LAB, I, I)
    ex.unfold['number_before'] = lambda c, i: z3.And(NUM(c, i) >= 0, z3.Implies(i >= 0, NUM(c, i) <= i), NUM(c, i) == z3.If(i <= 0, z3.IntVal(0), NUM(c, i - 1) + z3.If(CLS(q, i - 1) == c, 1, 0)))
    ex.noterm = ex.noterm | {'number_before'}
    ex.contracts['r_int_resize'] = ex.contracts['Rf_lengthgets'] = c_int_resize
    ex.contracts['init_data_frame'] = c_none
    st.g[('nowrite',)] = False
    c, i, k = z3.Const('c', LAB), *z3.Ints('i k')
    P.lemma(ex, 'an element has no equal before the first of its kind, step', [NUM(c, k) == 0, FST(q, c) == i, k < i, inr(k, n), CLS(q, k) == CLS(q, k)], NUM(c, k + 1) == 0)
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(inr(k, n), isfirst(q, k)), NUM(CLS(q, k), k) == 0)))
    d = lambda: next(iter(ex.dicts.values()))
    lab = lambda A, p: CLS(q, z3.Select(A, p))
    def tmpl(lc):
        cs = []
        D = next(iter(ex.dicts.values()), None)
        if D is None: return []
        K = ex.content(lc.entry, 'i32', D.key)
        for v, (g, v0) in lc.ints.items():
            for w, (h, w0) in lc.ints.items():
                if v != w: cs.append((f'rank:{v}:{w}', lambda ls, g=g, h=h: g(ls) == OCC(K, h(ls))))
        for ref in arrays(lc, 'i32'):
            C0 = ex.content(lc.entry, 'i32', ref)
            for v, (g, v0) in lc.ints.items():
                cs.append((f'num:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, ref=ref: (lambda C, A: rngq(z3.IntVal(0), D.size, lambda p: z3.Implies(z3.Select(A, p) != -1, z3.Select(C, p) == NUM(lab(A, p), g(ls)))))(ls.arr('i32', ref), ls.arr('i32', D.key))))
                cs.append((f'loc:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, ref=ref: (lambda C: rngq(z3.IntVal(0), g(ls), lambda r: z3.Select(C, r) == z3.Select(K, SLOT(K, r)) + 1))(ls.arr('i32', ref))))
                cs.append((f'cnt:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, ref=ref: (lambda C: rngq(z3.IntVal(0), g(ls), lambda r: z3.Select(C, r) == z3.Select(C0, SLOT(K, r))))(ls.arr('i32', ref))))
        return cs
    ex.templates.append(tmpl)
    def post(s, v):
        r = v.ref(); L = ex.content(s, 'ref', r); loc, cnt = (z3.simplify(z3.Select(L, k)) for k in (0, 1))
        T = CNT(n); A, C = ex.content(s, 'i32', loc), ex.content(s, 'i32', cnt); D = d(); W = ex.content(s, 'i32', D.where); K = ex.content(s, 'i32', D.key)
        row = lambda j: OCC(K, z3.Select(W, j))
        ex.oblige(s, z3.And(TYPE(r) == T_LIST, LEN(r) == 2, LEN(loc) == T, LEN(cnt) == T), 'post', 'one row per distinct element')
        ex.oblige(s, QF(lambda j: z3.Implies(z3.And(inr(j, n), isfirst(q, j)), z3.And(inr(row(j), T), z3.Select(A, row(j)) == j + 1, z3.Select(C, row(j)) == NUM(CLS(q, j), n)))), 'post', 'every distinct element has a row with its first position and the number of its occurrences')
    P.run(ex, st, 'vctrs_count', [sx(x)], post)
