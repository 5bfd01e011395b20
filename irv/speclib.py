"""Library for the property specifications (irv/specs/*.py).

A case is a function registered with @case(property, name, entry...).  It receives a Proof and
builds engines, runs entry functions of /repo under contract and states postconditions."""
import time
from engine import *
import engine as _e
from rapi import *
from driver import make_engine, initial_state, find_func

CASES = []
class Case:
    def __init__(self, prop, name, fn, entry, cost=10, tier='quick'):
        self.prop, self.name, self.fn, self.entry, self.cost, self.tier = prop, name, fn, entry, cost, tier
def case(prop, name, entry=(), cost=10, tier='quick'):
    assert isinstance(cost, (int, float)) and tier in ('quick', 'thorough')
    def deco(fn):
        CASES.append(Case(prop, name, fn, [entry] if isinstance(entry, str) else list(entry), cost, tier))
        return fn
    return deco

class Proof:
    def __init__(self, mods, name, hints=None, budget=400, timeout_ms=8000):
        self.mods, self.name, self.hints, self.budget, self.timeout = mods, name, hints, budget, timeout_ms
        self.engines = []
        self.extra = []          # obligations without an engine
        self.reached = 0         # feasible return states seen (vacuity guard)
        self.t0 = time.time()
        self.deadline = self.t0 + budget
    def engine(self, contracts=None, **kw):
        ex = make_engine(self.mods, contracts, name=self.name, timeout_ms=self.timeout, **kw)
        ex.deadline = self.deadline
        ex.hints = self.hints
        self.engines.append(ex)
        st = initial_state(ex)
        ghost_set(ex, st, 'prot', z3.IntVal(0))
        return ex, st
    def lemma(self, ex, text, base_pc, goal, qfs=()):
        """discharge a closed lemma: base_pc |= goal (Bool), with ex.defs and qfs available"""
        st = State()
        st.assume(*base_pc); st.assume(*qfs)
        ex.callstack.append('lemma')
        ex.oblige(st, goal, 'lemma', text)
        ex.callstack.pop()
    def run(self, ex, st, fname, args, post=None, errors=None, balance=True):
        """run the function; post(state, value) for each normal return; errors(state, why): None = any
        error allowed, False = no error allowed, or a callback"""
        f = find_func(ex, fname)
        outs = ex.run_function(f, args, st)
        ex.callstack.append(fname)
        nret = 0
        for o in outs:
            if o[0] == 'ret':
                s = o[1]
                nret += 1
                if ex.feasible_full(s): self.reached += 1
                if balance: ex.oblige(s, ghost_get(s, 'prot') == 0, 'protect', 'protection stack is balanced on return')
                if post: post(s, o[2])
            else:
                if errors is False:
                    ex.oblige(o[1], z3.BoolVal(False), 'noerror', f'no error path ({o[2]})')
                elif errors is not None:
                    errors(o[1], o[2])
        ex.callstack.pop()
        return outs
    def result(self):
        ob = [o for e in self.engines for o in e.obligs] + self.extra
        loops = {}
        for e in self.engines:
            for k, v in e.loops_done.items(): loops.setdefault(k, set()).update(v)
        return dict(name=self.name, n=len(ob), ok=sum(1 for o in ob if o.ok),
                    failed=[dict(fn=o.fn, kind=o.kind, text=o.text, detail=o.detail[:3000]) for o in ob if not o.ok],
                    kinds={k: sum(1 for o in ob if o.kind == k) for k in sorted({o.kind for o in ob})},
                    inlined=sorted(set().union(*[e.inlined for e in self.engines]) if self.engines else []),
                    contracts=sorted(set().union(*[e.used_contracts for e in self.engines]) if self.engines else []),
                    solver_s=sum(e.solver_time for e in self.engines), queries=sum(e.queries for e in self.engines),
                    wall=time.time() - self.t0, reached=self.reached, loops={k: sorted(v) for k, v in loops.items()})

def run_case(c, mods, hints, budget, timeout_ms=8000):
    """-> result dict; never raises.  Hints are only a way to start Houdini from a smaller candidate
    set; when anything fails the case is redone from the full set."""
    def once(h, b):
        P = Proof(mods, c.name, h, b, timeout_ms)
        err = None
        try:
            c.fn(P)
        except ToolLimit as e: err = 'undecided: ' + str(e)
        except RecursionError as e: err = 'undecided: recursion limit'
        except Exception as e:
            import traceback
            err = 'undecided: ' + type(e).__name__ + ': ' + str(e) + ' ' + traceback.format_exc()[-1200:]
        r = P.result()
        r['error'] = err
        if getattr(P, 'skipped', None): r['skipped'] = P.skipped; P.need_reach = False
        elif err is None and r['n'] == 0: r['error'] = 'no obligations generated'
        if r['error'] is None and r['reached'] == 0 and any(e.callstack is not None and e.inlined is not None and e.paths is not None for e in P.engines) and getattr(P, 'need_reach', True):
            r['error'] = 'vacuous: no feasible return state'
        r['entry'] = c.entry
        return r
    t0 = time.time()
    if hints:
        r = once(hints, budget * 0.6)
        if r['error'] is None and not r['failed']: r['hinted'] = True; return r
    r = once(None, budget - (time.time() - t0))
    r['hinted'] = False
    return r

# ------------------------------------------------------------------ vector types
class VT_:
    """a storage type: R type code, vctrs type code, heap key, and what a missing element is"""
    def __init__(self, name, rtype, vtype, key, miss): self.name, self.rtype, self.vtype, self.key, self.miss = name, rtype, vtype, key, miss
    def at(self, A, k): return z3.Select(A, k)
ITYPES = [VT_('logical', T_LGL, 2, 'i32', lambda A, k: z3.Select(A, k) == -2**31),
          VT_('integer', T_INT, 3, 'i32', lambda A, k: z3.Select(A, k) == -2**31),
          VT_('double', T_DBL, 4, 'f64', lambda A, k: d_isnan(z3.Select(A, k))),
          VT_('complex', T_CPLX, 5, 'f64', lambda A, k: z3.Or(d_isnan(z3.Select(A, 2 * k)), d_isnan(z3.Select(A, 2 * k + 1)))),
          VT_('character', T_CHR, 6, 'ref', lambda A, k: z3.Select(A, k) == NASTR),
          VT_('raw', T_RAW, 7, 'i8', lambda A, k: z3.BoolVal(False)),
          VT_('list', T_LIST, 8, 'ref', lambda A, k: z3.Select(A, k) == NILREF)]
TYP = {t.name: t for t in ITYPES}

def typed_vec(ex, st, name, t, n=None):
    """an existing vector of storage type t whose length is its size"""
    r = old_obj(ex, st, name, t.rtype)
    st.assume(VTYPE(r) == t.vtype, VSIZE(r) == LEN(r), LEN(r) <= MAXSIZE, r != NILREF)
    if n is not None: st.assume(LEN(r) == n)
    return r
def c_vec_proxy_typeof(ex, st, a):
    r = asref(a[0]); v = VTYPE(r)
    st.assume(v >= 0, v <= 255)
    return v

# ------------------------------------------------------------------ invariant templates
def rngq(lo, hi, f): return QF(lambda k: z3.Implies(z3.And(lo <= k, k < hi), f(k)))
def t_pointwise(ex, key, fn, name='pw', refs=None, n=None):
    """forall k in the part already processed: fn(element k of the array being written, k)"""
    def tmpl(lc):
        cs = []
        for ky, ref in lc.arrays:
            if ky != key: continue
            if refs is not None and not refs(lc, ref): continue
            rn = ref.sexpr()[:30]
            for v, (g, v0) in lc.ints.items():
                cs.append((f'{name}:{rn}:{v}:up', lambda ls, g=g, v0=v0, ref=ref: (lambda A: rngq(v0, g(ls), lambda k: fn(z3.Select(A, k), k)))(ls.arr(key, ref))))
                cs.append((f'{name}:{rn}:{v}:0up', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), g(ls), lambda k: fn(z3.Select(A, k), k)))(ls.arr(key, ref))))
                cs.append((f'{name}:{rn}:{v}:down', lambda ls, g=g, v0=v0, ref=ref: (lambda A: rngq(g(ls) + 1, v0 + 1, lambda k: fn(z3.Select(A, k), k)))(ls.arr(key, ref))))
                if n is not None: cs.append((f'{name}:{rn}:{v}:ndown', lambda ls, g=g, ref=ref: (lambda A: rngq(g(ls) + 1, n, lambda k: fn(z3.Select(A, k), k)))(ls.arr(key, ref))))
        return cs
    ex.templates.append(tmpl)
def t_prefix(ex, fn, name='pf', los=()):
    """forall k in [0, i): fn(k)"""
    def tmpl(lc):
        cs = []
        for v, (g, v0) in lc.ints.items():
            cs.append((f'{name}:{v}:up', lambda ls, g=g, v0=v0: rngq(v0, g(ls), fn)))
            cs.append((f'{name}:{v}:0up', lambda ls, g=g: rngq(z3.IntVal(0), g(ls), fn)))
            cs.append((f'{name}:{v}:down', lambda ls, g=g, v0=v0: rngq(g(ls) + 1, v0 + 1, fn)))
            for j, lo in enumerate(los): cs.append((f'{name}:{v}:lo{j}', lambda ls, g=g, lo=lo: rngq(lo, g(ls), fn)))
        return cs
    ex.templates.append(tmpl)
def b2i(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))
def inr(k, n): return z3.And(k >= 0, k < n)

# ------------------------------------------------------------------ scalar equality and order (the property's own definitions)
EQOBJ = z3.Function('equal_object', Ref, Ref, B)
def d_isna(x): return z3.And(d_isnan(x), z3.Extract(31, 0, x) == 1954)
def d_eqna(x, y):
    """equal, with NA equal to NA and NaN equal to NaN only"""
    return z3.Or(d_eq(x, y), z3.And(d_isnan(x), d_isnan(y), d_isna(x) == d_isna(y)))
def eq_el(t, A, i, Bv, j):
    """element i of A equals element j of B, missing values compared as values"""
    if t.name == 'double': return d_eqna(z3.Select(A, i), z3.Select(Bv, j))
    if t.name == 'complex': return z3.And(d_eqna(z3.Select(A, 2 * i), z3.Select(Bv, 2 * j)), d_eqna(z3.Select(A, 2 * i + 1), z3.Select(Bv, 2 * j + 1)))
    if t.name == 'list': return EQOBJ(z3.Select(A, i), z3.Select(Bv, j))
    return z3.Select(A, i) == z3.Select(Bv, j)
def c_equal_object(ex, st, a):
    """equality of two R objects: an equivalence relation (decided by C01)"""
    x, y = asref(a[0]), asref(a[1])
    st.assume(EQOBJ(x, y) == EQOBJ(y, x), z3.Implies(x == y, EQOBJ(x, y)))
    return EQOBJ(x, y)
def c_same(name='identity'):
    def f(ex, st, a): return a[0]
    f.__name__ = name
    return f
def count_def(ex, P, CNT, pred, n, name='count'):
    """CNT(k) = number of j in [0, k) with pred(j); monotone"""
    ex.defs.append(QF(lambda k: CNT(k) == z3.If(k <= 0, 0, CNT(k - 1) + z3.If(pred(k - 1), 1, 0))))
    k, m = z3.Ints('k m')
    ex.defs.append(QF(lambda k: z3.Implies(k >= 0, CNT(k + 1) == CNT(k) + z3.If(pred(k), 1, 0))))
    P.lemma(ex, name + ' in range, step', [k > 0, CNT(k - 1) >= 0, CNT(k - 1) <= k - 1], z3.And(CNT(k) >= 0, CNT(k) <= k))
    ex.defs.append(QF(lambda k: z3.And(CNT(k) >= 0, z3.Implies(k >= 0, CNT(k) <= k))))
    M = lambda a, b: z3.Implies(a <= b, CNT(a) <= CNT(b))
    P.lemma(ex, name + ' monotone, base', [m == k], M(m, k))
    P.lemma(ex, name + ' monotone, step', [M(m, k - 1), m < k], M(m, k))
    ex.defs.append(QF(M, n=2))
def t_fn(ex, F, name, offs=(-1, 0, 1), cs=(-1, 0, 1), consts=()):
    """v == F(w + d) + c and v + w-linear variants, for every pair of integer loop variables"""
    def tmpl(lc):
        out = []
        for a, (ga, _) in lc.ints.items():
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                for d in offs:
                    for c in cs:
                        out.append((f'{name}:{a}:{b}:{d}:{c}', lambda ls, ga=ga, gb=gb, d=d, c=c: ga(ls) == F(gb(ls) + d) + c))
        return out
    ex.templates.append(tmpl)

def attr_of(st, r):
    """the value of the (only) attribute set on r during the call"""
    l = [v[0] for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'attr' and k[1] == r.get_id()]
    if len(l) != 1: raise ToolLimit(f'{len(l)} attributes set on the result')
    return l[0]

def t_elem(ex, key, ref, name='elem', offs=(-2, -1, 0, 1, 2)):
    """a loop-carried value is an element of an input array: v == ref[w + d]; complex: both parts"""
    def tmpl(lc):
        out = []
        vals = []
        if key in ('i32', 'i8', 'i64'): vals = [(a, g, False) for a, (g, _) in lc.ints.items()]
        elif key == 'f64': vals = [(a, g, False) for a, (g, _) in lc.dbls.items()]
        elif key == 'ref': vals = [(a, g, True) for a, (g, _) in lc.ptrs.items()]
        for a, ga, isp in vals:
            for b, (gb, _) in lc.ints.items():
                if a == b: continue
                for d in offs:
                    for m, r in (((1, 0),) if key != 'f64' else ((1, 0), (2, 0), (2, 1))):
                        def c(ls, ga=ga, gb=gb, d=d, m=m, r=r, isp=isp):
                            v = ga(ls)
                            if isp:
                                if not (isinstance(v, P) and v.k == 'sexp'): return None
                                v = v.b
                            return v == z3.Select(ls.arr(key, ref), m * (gb(ls) + d) + r)
                        out.append((f'{name}:{a}:{b}:{d}:{m}:{r}', c))
        return out
    ex.templates.append(tmpl)

def has_func(P, name):
    """is there still a function of this name in the sources?"""
    return any(name in m.funcs for m in P.mods)
def skip(P, why):
    P.skipped = why

# ------------------------------------------------------------------ row-wise short circuiting over data frame columns
from engine import P as P_
from ir import Ty
INFO = dict(row_known=0, p_row_known=8, remaining=20, size=24)      # struct df_short_circuit_info
def new_info(ex, st, vec, known, remaining, size):
    p = P_('cell', 'caller_info'); m = ex.mods[0]
    ex.store(st, p.add(INFO['row_known']), sx(vec), Ty('ptr'), m); ex.store(st, p.add(INFO['p_row_known']), P_('data', known), Ty('ptr'), m)
    ex.store(st, p.add(INFO['remaining']), remaining, Ty('i', 32), m); ex.store(st, p.add(INFO['size']), size, Ty('i', 32), m)
    return p
def info_remaining(ex, s, p): return ex.load(s, p.add(INFO['remaining']), Ty('i', 32), ex.mods[0])

def refute(ex, s, hyps, text):
    """no state of the path satisfies the hypotheses"""
    s2 = s.fork(); s2.assume(*hyps)
    ex.oblige(s2, z3.BoolVal(False), 'post', text)

# ------------------------------------------------------------------ contracts shared by several properties
def c_slice_rec(ex, st, a):
    """vec_slice_unsafe(x, loc): recorded; its meaning is C08"""
    x, loc = asref(a[0]), asref(a[1])
    r = new_obj(ex, st, None, None, 'new_slice')
    st.g[('slice', r.get_id())] = (r, x, loc)
    return sx(r)
def slice_of(st, r):
    """(x, loc) of a recorded slice, or None"""
    v = st.g.get(('slice', r.get_id()))
    return None if v is None else (v[1], v[2])
def c_cast_int(ex, st, a):
    """vec_cast(x, integer()): an integer vector (C15) or an error"""
    r = new_obj(ex, st, T_INT, None, 'new_cast')
    st.assume(LEN(r) >= 0, LEN(r) <= MAXSIZE, VSIZE(r) == LEN(r), VTYPE(r) == VT['integer'])
    st.g['cast'] = r
    s2 = st.fork()
    return [('ret', st, sx(r)), ('err', s2, 'cast')]
def c_compact_rep(ex, st, a):
    """compact_rep(i, n): a compact integer subscript standing for n copies of i (its expansion is C08)"""
    i, n = a
    ex.oblige(st, n >= 0, 'arg', 'compact subscript has no negative size')
    r = new_obj(ex, st, T_INT, n, 'new_compact')
    arr = mk(z3.ArraySort(I, I), 'rep')
    ex.set_content(st, 'i32', r, arr)
    st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.Select(arr, k) == i)))
    return sx(r)
def c_shallow_duplicate(ex, st, a):
    """Rf_shallow_duplicate(x): a new object with x's type, length, elements and attributes"""
    x = asref(a[0])
    if ('dtype', x.get_id()) in st.g:
        key, (es, dl, _) = st.g[('dtype', x.get_id())][0], st.g[('dlen', x.get_id())]
    else: key = None
    r = new_obj(ex, st, None, None, 'new_clone')
    st.assume(TYPE(r) == TYPE(x), LEN(r) == LEN(x), VSIZE(r) == VSIZE(x), VTYPE(r) == VTYPE(x))
    if key:
        st.g[('dtype', r.get_id())] = (key, r); st.g[('dlen', r.get_id())] = (es, dl, r)
        ex.set_content(st, key, r, ex.content(st, key, x))
    st.g[('clone', r.get_id())] = (r, x)
    return sx(r)
def c_maybe_referenced(ex, st, a):
    """MAYBE_REFERENCED(x) / MAYBE_SHARED(x): unknown; only an object that nothing refers to may be written in place"""
    x = asref(a[0])
    s2 = st.fork()
    s2.g[('writable',)] = tuple(s2.g.get(('writable',), ())) + (x,)
    return [('ret', st, z3.IntVal(1)), ('ret', s2, z3.IntVal(0))]
def clone_contracts(ex):
    ex.contracts.update({'Rf_shallow_duplicate': c_shallow_duplicate, 'MAYBE_REFERENCED': c_maybe_referenced, 'MAYBE_SHARED': c_maybe_referenced})

CARF, CDRF, TAGF = (z3.Function(f, Ref, Ref) for f in ('CAR', 'CDR', 'TAG'))
def pairlist_contracts(ex):
    def acc(F):
        def f(ex, st, a):
            r = F(asref(a[0])); st.assume(r != NULLREF)
            return sx(r)
        return f
    ex.contracts.update({'CAR': acc(CARF), 'CDR': acc(CDRF), 'TAG': acc(TAGF)})
import os, re
def sym_ref(name, struct='r_globals_syms', glob='r_syms', header='rlang/globals.h'):
    """the constant that stands for a symbol of the global table (all fields are pointers)"""
    src = open(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', header)).read()
    body = re.sub(r'//.*', '', re.search(r'struct ' + struct + r' \{(.*?)\n\};', src, re.S).group(1))
    names = re.findall(r'(\w+);', body)
    return z3.Const(f'glob_{glob}_{8 * names.index(name)}', Ref)
def enum_def(ex, P, pred, n, name):
    """(CNT, SEL): how many positions before k satisfy pred, and the j-th position of [0, n) that does.
    SEL exists because CNT grows by one at exactly the positions that satisfy pred."""
    CNT, SEL = z3.Function('count:' + name, I, I), z3.Function('select:' + name, I, I)
    count_def(ex, P, CNT, pred, n, name)
    ex.defs.append(QF(lambda j: z3.Implies(inr(j, CNT(n)), z3.And(inr(SEL(j), n), pred(SEL(j)), CNT(SEL(j)) == j))))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(inr(k, n), pred(k)), z3.And(SEL(CNT(k)) == k, CNT(k) < CNT(n)))))
    ex.defs.append(QF(lambda k: z3.Implies(z3.And(k >= 0, k <= n), CNT(k) <= CNT(n))))
    a, b, c, d = z3.Ints('a b c d')
    P.lemma(ex, name + ': the count identifies the position', [a < b, inr(a, n), pred(a), CNT(a + 1) == CNT(a) + 1, CNT(a + 1) <= CNT(b)], CNT(a) != CNT(b))
    P.lemma(ex, name + ': every number below the count is reached, step', [CNT(a + 1) == CNT(a) + z3.If(pred(a), 1, 0), c >= CNT(a), c < CNT(a + 1)], z3.And(pred(a), c == CNT(a)))
    P.lemma(ex, name + ': a selected position counts', [inr(a, n), pred(a), CNT(a + 1) == CNT(a) + 1, CNT(a + 1) <= CNT(n)], CNT(a) < CNT(n))
    return CNT, SEL
