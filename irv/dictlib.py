"""Dictionaries: the contract of the hash table of src/dictionary.c over an abstract equality, used by
matching, unique, grouping and set operations.

Equality of elements of proxies is an equivalence relation across vectors (C01), represented by a class
label CLS(proxy, i): elements are equal when their labels are.  The table maps slots to positions of its
own vector.  DINV is the table invariant; new_dictionary() establishes it, dict_put() keeps it, dict_hash_with()
needs it.  specs/c03_dict.py proves the three functions against these contracts for every hash function."""
from slicelib import *
from engine import P as P_
LAB = z3.DeclareSort('Label')
CLS = z3.Function('class_of', Ref, I, LAB)             # proxy, position -> label
FST = z3.Function('first_of_class', Ref, LAB, I)     # proxy, label -> least position of [0, size) with the label, or -1
ARR = z3.ArraySort(I, I)
DINV = z3.Function('table_invariant', I, ARR, B)     # table, keys
LOOK = z3.Function('probed_slot', I, ARR, Ref, I, I) # table, keys, proxy, position
OCC = z3.Function('occupied_before', ARR, I, I)        # keys, slot -> how many slots before it are occupied
SLOT = z3.Function('slot_of_rank', ARR, I, I)          # keys, r -> the occupied slot with r occupied slots before it
INCOMPL = z3.Function('incomplete', Ref, I, B)       # proxy, position
OFF = dict(protect=0, equal=8, incomplete=16, poly=24, hash=32, key=40, size=48, used=52)
class Dict: pass
def isfirst(x, k): return FST(x, CLS(x, k)) == k
def dict_defs(ex, x, n):
    """FST is defined by minimality (conservative: every nonempty set of positions has a least element)"""
    ex.defs.append(QF(lambda j: z3.Implies(inr(j, n), z3.And(FST(x, CLS(x, j)) >= 0, FST(x, CLS(x, j)) <= j))))
def unfold_fst(ex, xs):
    def u(x, c):
        out = [FST(x, c) >= -1]
        for y, n in xs:
            if z3.eq(x, y): out.append(z3.Or(FST(x, c) == -1, z3.And(FST(x, c) < n, CLS(x, FST(x, c)) == c)))
        return out
    ex.unfold['first_of_class'] = u
def dict_env(P, ex, st, xs, occ=False, back=False, used=True):
    """xs: proxies (ref, size) that dictionaries may be made of"""
    D = st.g.get('dicts') or {}
    st.g['dicts'] = D
    for x, n in xs: dict_defs(ex, x, n)
    unfold_fst(ex, xs)
    ex.noterm = ex.noterm | {'table_invariant'}
    size_of = lambda x: next(n for y, n in xs if z3.eq(x, y))
    reg = ex.dicts = {}
    ex.skip_frames = ('new_where', 'new_key')
    if not used: ex.skip_ints = ('cell:dict',)
    ex.use_occ = occ
    if occ:
        ex.unfold['occupied_before'] = lambda A, k: z3.And(*[z3.Implies(inr(k, d.size), OCC(A, k) + z3.If(z3.Select(A, k) != -1, 1, 0) <= OCC(A, d.size)) for d in reg.values() if not d.partial and not z3.eq(k, d.size)],
            *[z3.Implies(z3.And(inr(k, d.size), z3.Select(A, k) != -1), SLOT(A, OCC(A, k)) == k) for d in reg.values() if not d.partial and not z3.eq(k, d.size)],OCC(A, k) >= 0, z3.Implies(k >= 0, OCC(A, k) <= k), OCC(A, k) == z3.If(k <= 0, z3.IntVal(0), OCC(A, k - 1) + z3.If(z3.Select(A, k - 1) != -1, 1, 0)))
        ex.noterm = ex.noterm | {'occupied_before', 'slot_of_rank'}
        A, A2 = z3.Consts('keys keys2', ARR); h, k = z3.Ints('h k')
        P.lemma(ex, 'entering an element occupies one more slot, step', [k > 0, h >= 0, OCC(A2, k - 1) == OCC(A, k - 1) + z3.If(h < k - 1, 1, 0), z3.Select(A, h) == -1, z3.Select(A2, h) != -1, z3.Implies(h != k - 1, z3.Select(A2, k - 1) == z3.Select(A, k - 1))], OCC(A2, k) == OCC(A, k) + z3.If(h < k, 1, 0))
        P.lemma(ex, 'occupied slots before a slot, monotone, step', [k > h + 1, h >= 0, OCC(A, h) + z3.If(z3.Select(A, h) != -1, 1, 0) <= OCC(A, k - 1)], OCC(A, h) + z3.If(z3.Select(A, h) != -1, 1, 0) <= OCC(A, k))
        P.lemma(ex, 'occupied slots before a slot, monotone, base', [k == h + 1, h >= 0], OCC(A, h) + z3.If(z3.Select(A, h) != -1, 1, 0) <= OCC(A, k))
        P.lemma(ex, 'the rank of an occupied slot identifies it', [k > h, h >= 0, OCC(A, h) + z3.If(z3.Select(A, h) != -1, 1, 0) <= OCC(A, k), z3.Select(A, h) != -1], OCC(A, h) != OCC(A, k))
        P.lemma(ex, 'an empty table has no occupied slot, step', [k > 0, OCC(A, k - 1) == 0, z3.Select(A, k - 1) == -1], OCC(A, k) == 0)
    def new(ex, st, x, partial, na_equal):
        x = asref(x)
        if not any(z3.eq(x, y) for y, _ in xs): ex.oblige(st, z3.BoolVal(False), 'arg', 'a dictionary of the normalised equality proxy'); x = xs[0][0]
        d = Dict(); d.id = len(reg) + 1; d.x = x; d.n = size_of(x); d.partial = partial; d.na_equal = na_equal
        d.name = f'dict{d.id}_' + fresh_name('d'); reg[d.name] = d
        m = ex.mods[0]; p = P_('cell', d.name)
        sh = new_obj(ex, st, T_RAW, None, 'new_dict'); ps = new_obj(ex, st, T_LIST, None, 'new_poly')
        ex.store(st, p.add(OFF['protect']), sx(sh), Ty('ptr'), m)
        pv = P_('cell', 'poly_' + d.name)
        ex.store(st, pv, sx(ps), Ty('ptr'), m); ex.store(st, pv.add(8), sx(x), Ty('ptr'), m)
        d.pvec = P_('data', x)
        ex.store(st, pv.add(16), d.pvec, Ty('ptr'), m)
        ex.store(st, p.add(OFF['poly']), pv, Ty('ptr'), m)
        def equal(ex, st, a):
            """p_equal_na_equal(x, i, y, j): equality of elements (C01)"""
            return b2i(CLS(asref_data(a[0]), a[1]) == CLS(asref_data(a[2]), a[3]))
        ex.store(st, p.add(OFF['equal']), P_('func', equal), Ty('ptr'), m)
        ex.store(st, p.add(OFF['used']), z3.IntVal(0), Ty('i', 32), m)
        d.size = mk(I, 'dict_size')
        if not partial:
            st.assume(d.size >= 16, d.size <= MAXSIZE)          # 2^31 slots are reached from 2^30 elements on only
            k = new_obj(ex, st, None, None, 'new_key'); d.key = k
            st.g[('dtype', k.get_id())] = ('i32', k); st.g[('dlen', k.get_id())] = (4, d.size, k)
            A = mk(ARR, 'keys'); st.assume(QF(lambda q: z3.Implies(inr(q, d.size), z3.Select(A, q) == -1)), DINV(d.id, A))
            ex.set_content(st, 'i32', k, A)
            if ex.use_occ: st.assume(OCC(A, d.size) == 0)
            ex.store(st, p.add(OFF['key']), P_('data', k), Ty('ptr'), m)
            w = new_obj(ex, st, None, None, 'new_where'); d.where = w
            st.g[('dtype', w.get_id())] = ('i32', w); st.g[('dlen', w.get_id())] = (4, z3.IntVal(2**62), w)
            ex.set_content(st, 'i32', w, mk(ARR, 'where'))
            ex.store(st, p.add(OFF['size']), d.size, Ty('i', 32), m)
        else:
            d.size = z3.IntVal(0); ex.store(st, p.add(OFF['size']), z3.IntVal(0), Ty('i', 32), m)
        return p
    def new_dictionary(ex, st, a):
        """new_dictionary(x): an empty table over x, with at least as many slots as elements"""
        return new(ex, st, a[0], False, z3.BoolVal(True))
    def new_partial(ex, st, a):
        """new_dictionary_partial(x): the hashes of x, without a table"""
        return new(ex, st, a[0], True, z3.BoolVal(True))
    def new_params(ex, st, a):
        """new_dictionary_params(x, partial, na_equal)"""
        pt = z3.simplify(a[1] if z3.is_bool(a[1]) else a[1] != 0)
        return new(ex, st, a[0], z3.is_true(pt), a[2] if z3.is_bool(a[2]) else a[2] != 0)
    def dict_of(p):
        if p.k != 'cell' or p.c != 0 or p.b not in reg: raise ToolLimit('not a dictionary: ' + repr(p))
        return reg[p.b]
    def lookup(ex, st, d, y, i):
        ex.oblige(st, inr(i, y.n), 'arg', 'the element looked up exists')
        ex.oblige(st, z3.BoolVal(not d.partial), 'arg', 'the dictionary looked into has a table')
        ex.oblige(st, d.na_equal == y.na_equal, 'arg', 'both dictionaries hash alike')
        A = ex.content(st, 'i32', d.key)
        ex.oblige(st, DINV(d.id, A), 'arg', 'the table looked into is well formed')
        p = LOOK(d.id, A, y.x, i); c = CLS(y.x, i)
        e = z3.Select(A, p)
        st.assume(FST(d.x, c) >= -1, z3.Or(FST(d.x, c) == -1, CLS(d.x, FST(d.x, c)) == c))
        st.assume(p >= 0, p < d.size, e >= -1, e < d.n, z3.Implies(e != -1, CLS(d.x, e) == c))
        st.assume(QF(lambda q: z3.Implies(z3.And(e == -1, inr(q, d.size), z3.Select(A, q) != -1), CLS(d.x, z3.Select(A, q)) != c)))
        return p
    def hash_with(ex, st, a):
        """dict_hash_with(d, x, i): the slot of the element equal to element i of x, or the empty slot where it belongs"""
        return lookup(ex, st, dict_of(a[0]), dict_of(a[1]), a[2])
    def hash_scalar(ex, st, a):
        """dict_hash_scalar(d, i): dict_hash_with(d, d, i)"""
        return lookup(ex, st, dict_of(a[0]), dict_of(a[0]), a[1])
    def put(ex, st, a):
        """dict_put(d, hash, i): enters element i at an empty slot; the table stays well formed when that is where i was looked up"""
        d = dict_of(a[0]); h, i = a[1], a[2]
        A = ex.content(st, 'i32', d.key)
        ex.oblige(st, z3.And(inr(i, d.n), h >= 0, h < d.size), 'arg', 'the element entered exists')
        ex.oblige(st, z3.Select(A, h) == -1, 'arg', 'the element is entered at an empty slot')
        A2 = z3.Store(A, h, i)
        ex.set_content(st, 'i32', d.key, A2)
        st.assume(z3.Implies(z3.And(DINV(d.id, A), h == LOOK(d.id, A, d.x, i)), DINV(d.id, A2)))
        if ex.use_occ: st.assume(OCC(A2, d.size) == OCC(A, d.size) + 1)
        W = ex.content(st, 'i32', d.where)
        ex.set_content(st, 'i32', d.where, z3.Store(W, i, h))
        m = ex.mods[0]; p = P_('cell', d.name).add(OFF['used'])
        u = ex.load(st, p, Ty('i', 32), m)
        ex.store(st, p, simp(u + 1), Ty('i', 32), m)
        return None
    def incomplete(ex, st, a):
        """dict_is_incomplete(d, i): is element i missing, or a row with a missing value (asked with missing values unequal only)"""
        d = dict_of(a[0])
        ex.oblige(st, inr(a[1], d.n), 'arg', 'the element asked for exists')
        ex.oblige(st, z3.Not(d.na_equal), 'arg', 'missing values were hashed as such')
        return INCOMPL(d.x, a[1])
    ex.contracts.update({'new_dictionary': new_dictionary, 'new_dictionary_partial': new_partial, 'new_dictionary_params': new_params,
                         'dict_hash_with': hash_with, 'dict_hash_scalar': hash_scalar, 'dict_put': put, 'dict_is_incomplete': incomplete, 'R_alloc': c_R_alloc})
    def tmpl(lc):
        cs = []
        for d in list(reg.values()):
            if d.partial: continue
            cs.append((f'dinv:{d.id}', lambda ls, d=d: DINV(d.id, ls.arr('i32', d.key))))
            for v, (g, v0) in lc.ints.items():
                cs.append((f'keys:{d.id}:{v}', lambda ls, d=d, g=g: (lambda A: rngq(z3.IntVal(0), d.size, lambda q: z3.Or(z3.Select(A, q) == -1, z3.And(z3.Select(A, q) >= 0, z3.Select(A, q) < g(ls), isfirst(d.x, z3.Select(A, q))))))(ls.arr('i32', d.key))))
                if occ: cs.append((f'occ:{d.id}:{v}', lambda ls, d=d, g=g: g(ls) == OCC(ls.arr('i32', d.key), d.size)))
                if occ or back: cs.append((f'back:{d.id}:{v}', lambda ls, d=d, g=g: (lambda A, W: rngq(z3.IntVal(0), d.size, lambda q: z3.Implies(z3.Select(A, q) != -1, z3.Select(W, z3.Select(A, q)) == q)))(ls.arr('i32', d.key), ls.arr('i32', d.where)))) if v == next(iter(lc.ints)) else None
                cs.append((f'have:{d.id}:{v}', lambda ls, d=d, g=g: (lambda A, W: rngq(z3.IntVal(0), g(ls), lambda j: z3.Implies(isfirst(d.x, j), z3.And(inr(z3.Select(W, j), d.size), z3.Select(A, z3.Select(W, j)) == j))))(ls.arr('i32', d.key), ls.arr('i32', d.where))))
        return cs
    ex.templates.append(tmpl)
def asref_data(p):
    if p.k == 'data' and p.c == 0 and not p.t: return p.b
    raise ToolLimit('not the data of a vector: ' + repr(p))
def c_R_alloc(ex, st, a):
    """R_alloc(n, size): n * size bytes, reclaimed after the call"""
    sz = simp(a[1])
    if not z3.is_int_value(sz): raise ToolLimit('R_alloc size')
    k = {4: 'i32', 1: 'i8', 8: 'ref'}[sz.as_long()]
    ex.oblige(st, a[0] >= 0, 'alloc', 'allocated length is not negative')
    r = new_obj(ex, st, None, None, 'new_buffer')
    st.g[('dtype', r.get_id())] = (k, r); st.g[('dlen', r.get_id())] = (sz.as_long(), a[0], r)
    return P_('data', r)
c_R_alloc.__name__ = 'R_alloc'
def arrays(lc, key):
    """the arrays of a kind that the loop writes, tables excepted"""
    return [ref for ky, ref in lc.arrays if ky == key and not ref.decl().name().startswith(lc.ex.skip_frames or ('$',))]
def t_arr(ex, key, fn, name):
    """forall k in [0, v): fn(array, k) for every written array of the kind and every counter v"""
    def tmpl(lc):
        cs = []
        for ref in arrays(lc, key):
            for v, (g, v0) in lc.ints.items(): cs.append((f'{name}:{ref.sexpr()[:24]}:{v}', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), g(ls), lambda k: fn(A, k)))(ls.arr(key, ref))))
        return cs
    ex.templates.append(tmpl)
def proxies(ex, st, vecs):
    """vec_proxy_equal() and vec_normalize_encoding() of the given vectors, each of the vector's size"""
    m = {}
    for x in vecs:
        p, q = (z3.Const(f'{b}_{x.sexpr()}', Ref) for b in ('proxy', 'normalised'))
        for r in (p, q): ex.set_stamp(st, r, 0); st.assume(r != NULLREF, r != NILREF, VSIZE(r) == VSIZE(x))
        m[x.get_id()] = (x, p, q)
    def proxy(ex, st, a):
        """vec_proxy_equal(x): its equality proxy, of the same size (assumed: dispatch on R classes)"""
        h = next((v for v in m.values() if z3.eq(v[0], z3.simplify(asref(a[0])))), None)
        ex.oblige(st, z3.BoolVal(h is not None), 'arg', 'the proxy is taken of the input')
        return sx(h[1] if h else mk(Ref, 'wrong'))
    def norm(ex, st, a):
        """vec_normalize_encoding(x): the same elements, equal strings as equal objects (assumed)"""
        h = next((v for v in m.values() if z3.eq(v[1], z3.simplify(asref(a[0])))), None)
        ex.oblige(st, z3.BoolVal(h is not None), 'arg', 'the equality proxy is normalised')
        return sx(h[2] if h else mk(Ref, 'wrong'))
    ex.contracts.update({'vec_proxy_equal': proxy, 'vec_normalize_encoding': norm})
    return [m[x.get_id()][2] for x in vecs]
def c_int_resize(ex, st, a):
    """r_int_resize(x, size) / Rf_lengthgets(x, size): an integer vector of the size with the leading elements of x"""
    x, n = asref(a[0]), a[1]
    ex.oblige(st, n >= 0, 'alloc', 'resized to a size that is not negative')
    r = new_obj(ex, st, T_INT, n, 'new_resized')
    A, Bq = ex.content(st, 'i32', x), mk(ARR, 'resized')
    ex.set_content(st, 'i32', r, Bq)
    st.assume(QF(lambda k: z3.Implies(z3.And(inr(k, n), k < LEN(x)), z3.Select(Bq, k) == z3.Select(A, k))))
    return sx(r)
# ---------------------------------------------------------------- growable vectors
GR = dict(x=0, type=8, array=16, idx=24, n=28, capacity=32)
def growable_contracts(ex):
    def new(ex, st, a):
        """new_growable(type, capacity): an empty growable vector"""
        p, typ = a[0], a[1]
        t = simp(typ)
        r = new_obj(ex, st, t, z3.IntVal(2**40), 'new_growable'); m = ex.mods[0]
        ex.store(st, p.add(GR['x']), sx(r), Ty('ptr'), m); ex.store(st, p.add(GR['type']), typ, Ty('i', 32), m)
        ex.store(st, p.add(GR['n']), z3.IntVal(0), Ty('i', 32), m); ex.store(st, p.add(GR['idx']), mk(I, 'pi'), Ty('i', 32), m)
        ex.oblige(st, a[2] > 0, 'arg', 'the capacity is positive')
        return None
    def push(ex, st, a):
        """growable_push_int(g, i): appends i"""
        m = ex.mods[0]; p = a[0]
        r = ex.load(st, p.add(GR['x']), Ty('ptr'), m).ref(); n = ex.load(st, p.add(GR['n']), Ty('i', 32), m)
        A = ex.content(st, 'i32', r)
        ex.set_content(st, 'i32', r, z3.Store(A, n, a[1]))
        ex.oblige(st, n < MAXSIZE, 'overflow', 'the number of elements pushed fits')
        ex.store(st, p.add(GR['n']), simp(n + 1), Ty('i', 32), m)
        return None
    def values(ex, st, a):
        """growable_values(g): the elements pushed, as a vector"""
        m = ex.mods[0]; p = a[0]
        g = ex.load(st, p.add(GR['x']), Ty('ptr'), m).ref(); n = ex.load(st, p.add(GR['n']), Ty('i', 32), m)
        r = new_obj(ex, st, T_INT, n, 'new_values')
        A, Bq = ex.content(st, 'i32', g), mk(ARR, 'values')
        ex.set_content(st, 'i32', r, Bq)
        st.assume(QF(lambda k: z3.Implies(inr(k, n), z3.Select(Bq, k) == z3.Select(A, k))))
        return sx(r)
    ex.contracts.update({'new_growable': new, 'growable_push_int': push, 'growable_values': values})
