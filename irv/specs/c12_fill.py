"""C12: vctrs_fill_missing() fills from the nearest observed element and from nothing else."""
from speclib import *

NA = z3.Function('is_missing_elt', Ref, I, B)
PREV = z3.Function('prev_observed', I, I)
NEXT = z3.Function('next_observed', I, I)

def c_detect(ex, st, a):
    """vec_detect_missing(x): a new logical vector of x's size, 1 where x is missing (decided by C07)"""
    x = asref(a[0])
    r = new_obj(ex, st, T_LGL, VSIZE(x), 'new_na')
    arr = mk(z3.ArraySort(I, I), 'na')
    ex.set_content(st, 'i32', r, arr)
    st.assume(QF(lambda k: z3.Implies(z3.And(k >= 0, k < VSIZE(x)), z3.Select(arr, k) == z3.If(NA(x, k), z3.IntVal(1), z3.IntVal(0)))))
    return sx(r)
def c_slice(ex, st, a):
    """vec_slice_unsafe(x, loc): recorded; its meaning is C08"""
    x, loc = asref(a[0]), asref(a[1])
    r = new_obj(ex, st, None, None, 'new_slice')
    st.g['result'] = (r, x, loc)
    return sx(r)
def c_cast(ex, st, a):
    """vec_cast(x, integer()): an integer vector (C15) or an error"""
    r = new_obj(ex, st, T_INT, None, 'new_cast')
    st.assume(LEN(r) >= 0, LEN(r) <= MAXSIZE)
    st.g['maxfill'] = r
    return sx(r)

def fill(P, word, has_max):
    ex, st = P.engine({'vec_detect_missing': c_detect, 'vec_slice_unsafe': c_slice, 'vec_cast': c_cast})
    x = old_obj(ex, st, 'x')
    dirn = old_obj(ex, st, 'direction', T_CHR)
    mfo = z3.Const('max_fill', Ref); ex.set_stamp(st, mfo, 0); st.assume(mfo != NULLREF)
    st.assume((mfo == NILREF) == z3.BoolVal(not has_max))
    elt = z3.Select(ex.content(st, 'ref', dirn), 0)
    st.assume(z3.Function('cstr', Ref, I)(z3.Function('R_CHAR', Ref, Ref)(elt)) == lit_code('c"%s\\00"' % word))
    n = VSIZE(x)
    down, both = word.startswith('down'), word in ('downup', 'updown')
    mf = z3.Int('mf')
    lim = (lambda d: d > mf) if has_max else (lambda d: z3.BoolVal(False))
    ex.defs.append(QF(lambda k: PREV(k) == z3.If(k < 0, -1, z3.If(z3.Not(NA(x, k)), k, PREV(k - 1)))))
    ex.defs.append(QF(lambda k: NEXT(k) == z3.If(k >= n, n, z3.If(z3.Not(NA(x, k)), k, NEXT(k + 1)))))
    # induction lemmas over the two recursive definitions
    a, k = z3.Ints('a k')
    n0 = [n >= 0]
    P.lemma(ex, 'prev in range, step', n0 + [k >= 0, PREV(k - 1) >= -1, PREV(k - 1) <= k - 1], z3.And(PREV(k) >= -1, PREV(k) <= k))
    P.lemma(ex, 'prev in range, base', n0 + [k < 0], PREV(k) == -1)
    P.lemma(ex, 'next in range, step', n0 + [k < n, NEXT(k + 1) <= n, NEXT(k + 1) >= k + 1], z3.And(NEXT(k) >= k, NEXT(k) <= n))
    P.lemma(ex, 'next in range, base', n0 + [k >= n], NEXT(k) == n)
    rngp = QF(lambda k: z3.And(PREV(k) <= z3.If(k < -1, -1, k), PREV(k) >= -1))
    rngn = QF(lambda k: z3.And(NEXT(k) >= z3.If(k > n, n, k), NEXT(k) <= n))
    ex.defs += [rngp, rngn]
    P.lemma(ex, 'prev is observed, step', n0 + [k >= 0, z3.Implies(PREV(k - 1) >= 0, z3.Not(NA(x, PREV(k - 1))))], z3.Implies(PREV(k) >= 0, z3.Not(NA(x, PREV(k)))))
    P.lemma(ex, 'next is observed, step', n0 + [k < n, z3.Implies(NEXT(k + 1) < n, z3.Not(NA(x, NEXT(k + 1))))], z3.Implies(NEXT(k) < n, z3.Not(NA(x, NEXT(k)))))
    ex.defs += [QF(lambda k: z3.Implies(PREV(k) >= 0, z3.Not(NA(x, PREV(k))))), QF(lambda k: z3.Implies(NEXT(k) < n, z3.Not(NA(x, NEXT(k)))))]
    # A(a,b): a <= b+1 /\ PREV(b) < a => PREV(b) = PREV(a-1) /\ NEXT(a) = NEXT(b+1)   (induction on b)
    A = lambda a, b: z3.Implies(z3.And(a >= 0, a <= b + 1, PREV(b) < a), z3.And(PREV(b) == PREV(a - 1), z3.Implies(b < n, NEXT(a) == NEXT(b + 1))))
    P.lemma(ex, 'no observation between: base', n0 + [a == k + 1], A(a, k))
    P.lemma(ex, 'no observation between: step', n0 + [A(a, k - 1), a <= k], A(a, k))
    M = lambda a, b: z3.Implies(a <= b, z3.And(PREV(a) <= PREV(b), NEXT(a) <= NEXT(b)))
    P.lemma(ex, 'monotone: base', n0 + [a == k], M(a, k))
    P.lemma(ex, 'monotone: step', n0 + [M(a, k - 1), a < k, M(k - 1, k - 1)], M(a, k))
    ex.defs += [QF(A, n=2), QF(M, n=2)]
    def valid(m, k):
        pd, pu = PREV(k), NEXT(k)
        fromp = z3.If(lim(k - pd), k, pd); fromn = z3.If(lim(pu - k), k, pu)
        if down: return m == z3.If(pd >= 0, fromp, z3.If(pu < n, fromn, k) if both else k)
        return m == z3.If(pu < n, fromn, z3.If(pd >= 0, fromp, k) if both else k)
    def tmpl(lc):
        cs = []
        for key, ref in lc.arrays:
            if key != 'i32': continue
            for nme, (g, v0) in lc.ints.items():
                for lo, hi, t in ((lambda ls, v0=v0: v0, lambda ls, g=g: g(ls) - 1, 'up'), (lambda ls, g=g: g(ls) + 1, lambda ls, v0=v0: v0, 'down'),
                                  (lambda ls: z3.IntVal(0), lambda ls, g=g: g(ls) - 1, '0up'), (lambda ls, g=g: g(ls) + 1, lambda ls: n - 1, 'ndown')):
                    cs.append((f"spec:{nme}:{t}", lambda ls, lo=lo, hi=hi, ref=ref: QF(lambda k, A=ls.arr('i32', ref), l=lo(ls), h=hi(ls): z3.Implies(z3.And(l <= k, k <= h), valid(z3.Select(A, k) - 1, k)))))
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                for d in (-1, 0, 1):
                    cs.append((f"prev:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: ga(ls) == PREV(gb(ls) + d)))
                    cs.append((f"prevno:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Or(ga(ls) == PREV(gb(ls) + d), z3.And(PREV(gb(ls) + d) == -1, ga(ls) >= 0, ga(ls) <= gb(ls), NA(x, ga(ls))))))
                    cs.append((f"prevnom:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Or(ga(ls) == PREV(gb(ls) + d), z3.And(PREV(gb(ls) + d) == -1, ga(ls) == 0))))
                    cs.append((f"previf:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Implies(PREV(gb(ls) + d) >= 0, ga(ls) == PREV(gb(ls) + d))))
                    cs.append((f"next:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: ga(ls) == NEXT(gb(ls) + d)))
                    cs.append((f"nextno:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Or(ga(ls) == NEXT(gb(ls) + d), z3.And(NEXT(gb(ls) + d) == n, ga(ls) < n, ga(ls) >= gb(ls), NA(x, ga(ls))))))
                    cs.append((f"nextnom:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Or(ga(ls) == NEXT(gb(ls) + d), z3.And(NEXT(gb(ls) + d) == n, ga(ls) == n - 1))))
                    cs.append((f"nextif:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Implies(NEXT(gb(ls) + d) < n, ga(ls) == NEXT(gb(ls) + d))))
                    if has_max:
                        cs.append((f"satp:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Implies(PREV(gb(ls) + d) >= 0, ga(ls) == z3.If(gb(ls) + d - PREV(gb(ls) + d) <= mf, gb(ls) + d - PREV(gb(ls) + d), mf))))
                        cs.append((f"satn:{a}:{b}:{d}", lambda ls, ga=ga, gb=gb, d=d: z3.Implies(NEXT(gb(ls) + d) < n, ga(ls) == z3.If(NEXT(gb(ls) + d) - gb(ls) - d <= mf, NEXT(gb(ls) + d) - gb(ls) - d, mf))))
            for d in (-1, 0, 1):
                cs.append((f"noprev:{a}:{d}", lambda ls, ga=ga, d=d: PREV(ga(ls) + d) == -1))
                cs.append((f"nonext:{a}:{d}", lambda ls, ga=ga, d=d: NEXT(ga(ls) + d) == n))
                cs.append((f"firstis:{a}:{d}", lambda ls, ga=ga, d=d: NEXT(0) == NEXT(ga(ls) + d)))
                cs.append((f"first:{a}:{d}", lambda ls, ga=ga, d=d: NEXT(0) == ga(ls) + d))
                cs.append((f"last:{a}:{d}", lambda ls, ga=ga, d=d: PREV(n - 1) == PREV(ga(ls) + d)))
        return cs
    ex.templates.append(tmpl)
    if has_max:
        # mf is the value that the cast of max_fill holds
        orig = ex.contracts['vec_cast']
        def c_cast2(ex, st, a):
            r = c_cast(ex, st, a)
            st.assume(z3.Select(ex.content(st, 'i32', r.b), 0) == mf)
            return r
        ex.contracts['vec_cast'] = c_cast2
    def post(s, v):
        r, xx, loc = s.g['result']
        ex.oblige(s, z3.And(v.ref() == r, xx == x), 'post', 'returns the slice of x')
        ex.oblige(s, LEN(loc) == n, 'post', 'one location per element')
        if has_max: ex.oblige(s, mf >= 1, 'post', 'max_fill was a positive number')
        A_ = ex.content(s, 'i32', loc)
        ex.oblige(s, QF(lambda k: z3.Implies(z3.And(k >= 0, k < n), valid(z3.Select(A_, k) - 1, k))), 'post', 'every location is the nearest observed element within reach, or the element itself')
    P.run(ex, st, 'vctrs_fill_missing', [sx(x), sx(dirn), sx(mfo)], post)

for _w in ('down', 'up', 'downup', 'updown'):
    for _m in (False, True):
        case('C12', f'vctrs_fill_missing direction={_w} max_fill={"given" if _m else "NULL"}', 'vctrs_fill_missing', cost=20 if _m else 10)(lambda P, w=_w, m=_m: fill(P, w, m))
