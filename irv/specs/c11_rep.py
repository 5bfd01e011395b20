"""C11: repetition."""
from speclib import *
def base(P):
    ex, st = P.engine({'vec_slice_unsafe': c_slice_rec, 'vec_cast': c_cast_int, 'compact_rep': c_compact_rep, 'vec_arg_format': c_fresh_ref('fmt')})
    st.g[('nowrite',)] = True
    x = old_obj(ex, st, 'x'); n = VSIZE(x)
    st.assume(n >= 0, n <= MAXSIZE, x != NILREF)
    tm = old_obj(ex, st, 'times'); fr = old_obj(ex, st, 'frame')
    return ex, st, x, n, tm, fr
def loc_of(ex, s, v, x):
    """the locations a result selects from x"""
    r = v.ref()
    sl = slice_of(s, r)
    if sl is None: return None
    ex.oblige(s, sl[0] == x, 'post', 'the elements come from the input')
    return sl[1]

def rep(P):
    ex, st, x, n, tm, fr = base(P)
    MOD = z3.Function('mod_n', I, I)                    # k mod n, by its recursion
    ex.unfold['mod_n'] = lambda k: MOD(k) == z3.If(k <= 0, 0, z3.If(MOD(k - 1) + 1 >= n, 0, MOD(k - 1) + 1))
    k, i, t = z3.Ints('k i t')
    P.lemma(ex, 'everything is 0 mod 1, step', [k >= 0, z3.Implies(n == 1, MOD(k) == 0)], z3.Implies(n == 1, MOD(k + 1) == 0))
    ex.defs.append(QF(lambda k: z3.Implies(n == 1, MOD(k) == 0)))
    P.lemma(ex, 'mod_n is k mod n, step', [k >= 0, n >= 1, MOD(k) == k % n], MOD(k + 1) == (k + 1) % n)
    P.lemma(ex, 'i < t gives (i + 1) n <= t n', [i < t, n >= 0], i * n + n <= t * n)
    MULT = lambda i, t: z3.Implies(z3.And(i >= 0, i < t), i * n + n <= t * n)
    T = z3.Int('times_value')
    ex.defs.append(QF(lambda i: MULT(i, T)))
    t_pointwise(ex, 'i32', lambda e, k: e == MOD(k) + 1, 'mod')
    def tmpl(lc):
        cs = []
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                cs.append((f'prod:{a}:{b}', lambda ls, ga=ga, gb=gb: ga(ls) == gb(ls) * n))
                for d in (0, 1):
                    cs.append((f'mod:{a}:{b}:{d}', lambda ls, ga=ga, gb=gb, d=d: z3.Or(MOD(ga(ls)) == gb(ls) - d, z3.And(gb(ls) - d == n, MOD(ga(ls)) == 0))))
            cs.append((f'mod0:{a}', lambda ls, ga=ga: MOD(ga(ls)) == 0))
        return cs
    def outer_tmpl(lc):
        cs = []
        env = lc.outer_ints()
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                for o, ov in env.items():
                    for d in (0, 1): cs.append((f'prodo:{a}:{b}:{o}:{d}', lambda ls, ga=ga, gb=gb, ov=ov, d=d: ga(ls) == ov * n + gb(ls) - d))
        return cs
    ex.templates += [tmpl, outer_tmpl]
    def post(s, v):
        c = s.g['cast']; tv = z3.Select(ex.content(s, 'i32', c), 0)
        s.assume(T == tv)
        ex.oblige(s, z3.And(LEN(c) == 1, tv >= 0), 'post', 'times is a single non-negative number')
        loc = loc_of(ex, s, v, x)
        if loc is None: return ex.oblige(s, z3.And(v.ref() == x, tv == 1), 'post', 'the input itself, once')
        ex.oblige(s, LEN(loc) == n * tv, 'post', 'size times as many locations')
        R = ex.content(s, 'i32', loc)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, LEN(loc)), z3.Select(R, k) == MOD(k) + 1)), 'post', 'location k is k mod n')
    def err(s, why):
        c = s.g.get('cast')
        if c is None or why == 'cast': return
        tv = z3.Select(ex.content(s, 'i32', c), 0)
        ex.oblige(s, z3.Or(LEN(c) != 1, tv < 0, n * tv > MAXSIZE), 'error', 'an error only for invalid times or a result that is too large')
    # link the value of times early so that the multiplication lemma applies
    def cast(ex, st, a):
        outs = c_cast_int(ex, st, a)
        s = outs[0][1]; s.assume(T == z3.Select(ex.content(s, 'i32', s.g['cast']), 0))
        return outs
    cast.__doc__ = c_cast_int.__doc__
    ex.contracts['vec_cast'] = cast
    P.run(ex, st, 'ffi_vec_rep', [sx(x), sx(tm), sx(fr)], post, err)

def rep_each(P, uniform):
    ex, st, x, n, tm, fr = base(P)
    c = new_obj(ex, st, T_INT, None, 'new_cast'); TA = ex.content(st, 'i32', c); m = LEN(c)
    st.assume(m >= 0, m <= MAXSIZE, VSIZE(c) == m, (m == 1) if uniform else (m != 1))
    def cast(ex, st, a):
        """vec_cast(x, integer()): an integer vector (C15) or an error"""
        ex.oblige(st, asref(a[0]) == tm, 'arg', 'times is cast')
        st.g['cast'] = c
        return [('ret', st, sx(c)), ('err', st.fork(), 'cast')]
    ex.contracts['vec_cast'] = cast
    T = (lambda k: z3.Select(TA, 0)) if uniform else (lambda k: z3.Select(TA, k))
    CUM = z3.Function('sum_of_times', I, I)
    NN, W = z3.Bool('all_times_valid'), z3.Int('invalid_time')
    ex.unfold['sum_of_times'] = lambda k: CUM(k) == z3.If(k <= 0, 0, CUM(k - 1) + T(k - 1))
    st.assume(z3.Or(NN, z3.And(inr(W, m), T(W) < 0)))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(NN, inr(k, m)), T(k) >= 0)))
    a, b = z3.Ints('a b')
    M = lambda a, b: z3.Implies(z3.And(NN, a <= b, b <= n, n >= 0, z3.Or(z3.BoolVal(uniform), n == m)), CUM(a) <= CUM(b))
    P.lemma(ex, 'sums are monotone, base', [a == b], M(a, b))
    P.lemma(ex, 'sums are monotone, step', [b >= 0, z3.Implies(z3.BoolVal(uniform), m == 1), a <= b, z3.Implies(b <= n, M(a, b))], M(a, b + 1))
    P.lemma(ex, 'sums are monotone, below zero', [b <= 0, a <= b], M(a, b))
    ex.unfold['sum_of_times'] = lambda k: [CUM(k) == z3.If(k <= 0, 0, CUM(k - 1) + T(k - 1)), M(k, n), M(k + 1, n)]
    ex.udef.clear()
    ex.noterm = ex.noterm | {'sum_of_times'}
    ex.defs.append(QF(lambda a: z3.And(M(a, n), M(a + 1, n))))
    if uniform:
        P.lemma(ex, 'the sum of equal times is a product, step', [a >= 0, CUM(a) == a * T(a)], CUM(a + 1) == (a + 1) * T(a))
        ex.opaque_mul = True
        st.assume(CUM(n) == ex.mul(n, T(n)), z3.Implies(T(0) == 0, ex.mul(n, T(0)) == 0), z3.Implies(T(0) >= 0, ex.mul(n, T(0)) >= 0))
    own = lambda R, k: (lambda e: z3.And(inr(e, n), CUM(e) <= k, k < CUM(e + 1)))(z3.Select(R, k) - 1)
    def tmpl(lc):
        cs = []
        env = lc.outer_ints()
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                for d in (0, 1):
                    if not env: cs.append((f'cum:{a}:{b}:{d}', lambda ls, ga=ga, gb=gb, d=d: ga(ls) == CUM(gb(ls) - d)))
                    for o, ov in env.items(): cs.append((f'cumo:{a}:{b}:{o}:{d}', lambda ls, ga=ga, gb=gb, ov=ov, d=d: ga(ls) == CUM(ov - d) + gb(ls)))
            for key, ref in lc.arrays:
                if key != 'i32': continue
                # everything before position a is filled with its owner
                cs.append((f'own:{a}', lambda ls, ga=ga, ref=ref: (lambda R: QF(lambda k: z3.Implies(inr(k, ga(ls)), own(R, k))))(ls.arr('i32', ref))))
        return cs
    ex.templates.append(tmpl)
    if not uniform: t_prefix(ex, lambda k: T(k) >= 0, 'valid')
    def post(s, v):
        ex.oblige(s, z3.Or(n == m, m == 1), 'post', 'times has the size of the input or one')
        loc = loc_of(ex, s, v, x)
        if loc is None: return ex.oblige(s, z3.And(v.ref() == x, m == 1, T(0) == 1), 'post', 'the input itself, once')
        ex.oblige(s, z3.And(LEN(loc) == CUM(n), CUM(n) <= MAXSIZE), 'post', 'as many locations as the sum of times')
        ex.oblige(s, QF(lambda i: z3.Implies(inr(i, n), T(i) >= 0)), 'post', 'no negative or missing times')
        R = ex.content(s, 'i32', loc)
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, LEN(loc)), own(R, k))), 'post', 'element i is repeated times[i] consecutive times, in order')
    def err(s, why):
        if why == 'cast': return
        s2 = s.fork()
        s2.assume(z3.Or(n == m, m == 1), NN, CUM(n) <= MAXSIZE)
        ex.oblige(s2, z3.BoolVal(False), 'error', 'an error only for invalid times or a result that is too large')
    P.run(ex, st, 'ffi_vec_rep_each', [sx(x), sx(tm), sx(fr)], post, err)
case('C11', 'vec_rep', 'ffi_vec_rep', cost=5)(rep)
case('C11', 'vec_rep_each one time', 'ffi_vec_rep_each', cost=5)(lambda P: rep_each(P, True))
case('C11', 'vec_rep_each', 'ffi_vec_rep_each', cost=5)(lambda P: rep_each(P, False))
