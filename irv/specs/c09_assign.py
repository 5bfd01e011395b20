"""C09: assignment."""
from speclib import *
from slicelib import *
KINDS = ('locations', 'sequence')
LAST = z3.Function('last_assignment_before', I, I, I)      # (position, k): the last of the first k locations that is this position, or -1
OWN = dict(false=0, true=1)
def last_def(ex, at):
    ex.unfold['last_assignment_before'] = lambda p, k: z3.And(LAST(p, k) >= -1, LAST(p, k) == z3.If(k <= 0, z3.IntVal(-1), z3.If(z3.And(at(k - 1) != NA, at(k - 1) - 1 == p), k - 1, LAST(p, k - 1))))
    ex.noterm = ex.noterm | {'last_assignment_before'}
def word(t): return 2 if t.name == 'complex' else 1
def seq_last(ex, st, sub):
    """locations of a sequence differ: the only one that is position p"""
    a0, sg = z3.Select(ex.content(st, 'i32', sub), 0), z3.Select(ex.content(st, 'i32', sub), 2)
    def f(p, k):
        j = z3.If(sg == 1, p - a0, a0 - p)
        return z3.If(inr(j, k), j, z3.IntVal(-1))
    return f
def el_now(t, A, X, V, p, k, last=LAST):
    """element p of the content A after the first k assignments of V to X"""
    l = last(p, k); w = word(t)
    return z3.And(*[z3.Select(A, w * p + c) == z3.If(l < 0, z3.Select(X, w * p + c), z3.Select(V, w * l + c)) for c in range(w)])
def t_assign(ex, t, X, V, n, last, name='as'):
    def tmpl(lc):
        cs = []
        for ky, ref in lc.arrays:
            if ky != t.key: continue
            for v, (g, v0) in lc.ints.items():
                cs.append((f'{name}:{ref.sexpr()[:20]}:{v}', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), n, lambda p: el_now(t, A, X, V, p, g(ls), last)))(ls.arr(t.key, ref))))
        return cs
    ex.templates.append(tmpl)
def t_walk(ex, sub):
    def tm(lc):
        return [(f'walk:{a}:{b}', lambda ls, ga=ga, gb=gb, a0=a0, b0=b0: ga(ls) - a0 == z3.If(z3.Select(ex.content(ls.st, 'i32', sub), 2) == 1, gb(ls) - b0, b0 - gb(ls))) for a, (ga, a0) in lc.ints.items() for b, (gb, b0) in lc.ints.items() if a != b]
    ex.templates.append(tm)
def options(ex, st, assign_names=False, ignore=False, recursive=False):
    p = P_('cell', 'caller_opts'); m = ex.mods[0]
    for o, v in ((0, assign_names), (1, ignore), (2, recursive)): ex.store(st, p.add(o), z3.IntVal(1 if v else 0) if not z3.is_expr(v) else v, Ty('i', 8), m)
    for o in (8, 16, 24, 32): ex.store(st, p.add(o), sx(NILREF), Ty('ptr'), m)
    return p
def base(P, owned):
    ex, st = P.engine({'OBJECT': lambda ex, st, a: z3.If(OBJ(asref(a[0])), z3.IntVal(1), z3.IntVal(0)), 'is_integer64': lambda ex, st, a: z3.BoolVal(False),
                       'vec_is_common_class_fallback': lambda ex, st, a: z3.BoolVal(False)})
    clone_contracts(ex)
    st.g[('nowrite',)] = True
    x, value, d = old_obj(ex, st, 'x'), old_obj(ex, st, 'value'), old_obj(ex, st, 'value_proxy')
    st.assume(x != NILREF, value != NILREF, d != NILREF, x != d, x != value)
    if owned == 'true': st.g[('writable',)] = (x,)
    meth = z3.Const('proxy_method', Ref); st.assume(meth != NULLREF, z3.Or(z3.And(meth != NILREF, OBJ(value)), z3.And(meth == NILREF, d == value)))
    def method(ex, st, a):
        """vec_proxy_method(value): R_NilValue when value has no proxy method"""
        ex.oblige(st, asref(a[0]) == value, 'arg', 'the proxy method of value'); return sx(meth)
    def invoke(ex, st, a):
        """vec_proxy_invoke(value, method): the proxy of value, of the same size"""
        ex.oblige(st, z3.And(asref(a[0]) == value, asref(a[1]) == meth), 'arg', 'the proxy of value'); return sx(d)
    def info(ex, st, a):
        """vec_proxy_info(value): the proxy of value, its type and its proxy method"""
        raise ToolLimit('vec_proxy_info')
    def btype(ex, st, a):
        """vec_base_typeof(x, proxied): the vctrs type of x (total function of its type and class)"""
        v = VTYPE(asref(a[0])); st.assume(v >= 0, v <= 255); return v
    ex.contracts.update({'vec_proxy_method': method, 'vec_proxy_invoke': invoke, 'vec_base_typeof': btype, 'vec_proxy_typeof': btype})
    return ex, st, x, value, d, meth
def simple(P, t, kind, owned):
    ex, st, x, value, d, meth = base(P, owned)
    for r in (x, value, d): set_dtype(st, r, t.rtype)
    st.assume(TYPE(x) == t.rtype, TYPE(d) == t.rtype, VTYPE(x) == t.vtype, VTYPE(d) == t.vtype, LEN(x) <= MAXSIZE, LEN(d) <= MAXSIZE, z3.Or(ATTRIBF(x) == NILREF, GETATTR(x, sym_ref('dim')) == NILREF))
    st.assume(z3.Or(z3.Not(OBJ(value)), meth != NILREF))
    st.assume(z3.Implies(d == value, VTYPE(value) == t.vtype))
    n = LEN(x); X = ex.content(st, t.key, x); V = ex.content(st, t.key, d)
    sub, m, loc = subscript(ex, st, kind, n)
    st.assume(LEN(d) == m, sub != x, sub != d)
    last = LAST if kind == 'locations' else seq_last(ex, st, sub)
    last_def(ex, loc); t_assign(ex, t, X, V, n, last)
    if kind == 'sequence': t_walk(ex, sub)
    opts = options(ex, st)
    def post(s, v):
        r = v.ref(); A = ex.content(s, t.key, r)
        ex.oblige(s, z3.And(LEN(r) == n, TYPE(r) == t.rtype), 'post', 'size and type are unchanged')
        ex.oblige(s, QF(lambda p: z3.Implies(inr(p, n), el_now(t, A, X, V, p, m, last))), 'post', 'every position holds the value last assigned to it, or what it held')
        if owned == 'false': 
            c = s.g.get(('clone', r.get_id()))
    P.run(ex, st, 'vec_proxy_assign_opts', [sx(x), sx(sub), sx(value), z3.IntVal(OWN[owned]), opts], post, False)
for _t in ITYPES:
    for _k in KINDS:
        for _o in OWN:
            case('C09', f'assign {_t.name} by {_k}, {"owned" if _o == "true" else "not owned"}', 'vec_proxy_assign_opts')(lambda P, t=_t, k=_k, o=_o: simple(P, t, k, o))
# ---------------------------------------------------------------- names, data frames, classes with their own `[<-`
ASG = z3.Function('assigned_column', Ref, Ref, Ref); PROXYF = z3.Function('proxy_of_column', Ref, Ref)
def names_case(P, kind, have, ignored):
    t = TYP['integer']
    ex, st, x, value, d, meth = base(P, 'false')
    for r in (x, value, d): set_dtype(st, r, t.rtype)
    st.assume(TYPE(x) == t.rtype, TYPE(d) == t.rtype, VTYPE(x) == t.vtype, VTYPE(d) == t.vtype, LEN(x) <= MAXSIZE, VSIZE(x) == LEN(x), LEN(d) <= MAXSIZE, z3.Or(ATTRIBF(x) == NILREF, GETATTR(x, sym_ref('dim')) == NILREF))
    st.assume(z3.Or(z3.Not(OBJ(value)), meth != NILREF))
    n = LEN(x); sub, m, loc = subscript(ex, st, kind, n)
    st.assume(LEN(d) == m, sub != x, sub != d)
    vn, pn = old_obj(ex, st, 'value_names', T_CHR), old_obj(ex, st, 'proxy_names', T_CHR)
    st.assume(LEN(vn) == m, LEN(pn) == n, pn != NILREF, vn != pn)
    NONM = z3.Bool('value_has_no_names')
    def vnames(ex, st, a):
        """vec_names(value): its names, or NULL"""
        ex.oblige(st, asref(a[0]) == d, 'arg', 'names of value')
        s2 = st.fork(); st.assume(NONM); s2.assume(z3.Not(NONM)); return [('ret', st, sx(NILREF)), ('ret', s2, sx(vn))]
    def pnames(ex, st, a):
        """vec_proxy_names(proxy): its names, or NULL"""
        return sx(pn if have else NILREF)
    res = z3.Const('elements_assigned', Ref); ex.set_stamp(st, res, 0); set_dtype(st, res, T_INT); st.assume(res != NULLREF, LEN(res) == n, VSIZE(res) == n)
    def switch(ex, st, a):
        """the elements assigned (proved for every type)"""
        ex.oblige(st, z3.And(asref(a[0]) == x, asref(a[1]) == sub, asref(a[2]) == d, a[3] == 0), 'arg', 'the elements are assigned'); return sx(res)
    def setn(ex, st, a):
        """vec_proxy_set_names(proxy, names, owned): the same elements with these names"""
        st.g['set_names'] = (asref(a[0]), asref(a[1])); return a[0]
    ex.contracts.update({'vec_names': vnames, 'vec_proxy_names': pnames, 'vec_assign_switch': switch, 'int_assign': lambda ex, st, a: switch(ex, st, a), 'vec_proxy_set_names': setn})
    if has_func(P, 'vec_assign_switch'): del ex.contracts['int_assign']
    N0 = ex.content(st, 'ref', pn) if have else None
    BL = z3.K(I, sym_ref('empty', 'r_globals_strs', 'r_strs')); BLANK = z3.Const('CHAR_BLANK', Ref)
    V = ex.content(st, 'ref', vn); tc = TYP['character']
    last = LAST if kind == 'locations' else seq_last(ex, st, sub)
    blank = z3.Const('blank_names', z3.ArraySort(I, Ref)); X0 = N0 if have else blank
    if not have:
        def alloc_chr(ex, st, a):
            """Rf_allocVector(STRSXP, n): n empty strings"""
            ex.oblige(st, z3.And(a[1] >= 0), 'alloc', 'allocation size not negative')
            r = new_obj(ex, st, T_CHR, a[1], 'new_names'); ex.set_content(st, 'ref', r, blank); return sx(r)
        old = ex.contracts.get('Rf_allocVector')
        ex.contracts['r_alloc_character'] = lambda ex, st, a: alloc_chr(ex, st, [None, a[0]])
    last_def(ex, loc); t_assign(ex, tc, X0, V, n, last)
    if kind == 'sequence': t_walk(ex, sub)
    opts = options(ex, st, True, ignored)
    def post(s, v):
        w = s.g.get('set_names')
        s1 = s.fork(); s1.assume(z3.Not(NONM))
        if ignored: ex.oblige(s, z3.BoolVal(w is None), 'post', 'outer names are left alone when asked'); return
        if w is None: ex.oblige(s1, z3.BoolVal(False), 'post', 'names are assigned'); return
        ex.oblige(s1, VSIZE(w[0]) == n, 'post', 'the vector itself gets the names')
        A = ex.content(s1, 'ref', w[1])
        ex.oblige(s1, z3.And(LEN(w[1]) == n, TYPE(w[1]) == T_CHR), 'post', 'as many names as elements')
        ex.oblige(s1, QF(lambda p: z3.Implies(inr(p, n), el_now(tc, A, X0, V, p, m, last))), 'post', 'names move with the assigned elements, other names are unchanged')
    P.run(ex, st, 'vec_proxy_assign_opts', [sx(x), sx(sub), sx(value), z3.IntVal(0), opts], post, False)
for _k in KINDS:
    for _h in (True, False): case('C09', f'names assigned by {_k}{", no names before" if not _h else ""}', 'vec_proxy_assign_opts')(lambda P, k=_k, h=_h: names_case(P, k, h, False))
case('C09', 'outer names ignored', 'vec_proxy_assign_opts')(lambda P: names_case(P, 'locations', True, True))
def df(P, owned, recursive):
    ex, st, x, value, d, meth = base(P, owned)
    ex.noterm = ex.noterm | {'assigned_column', 'proxy_of_column'}
    for r in (x, value, d): set_dtype(st, r, T_LIST)
    st.assume(TYPE(x) == T_LIST, TYPE(d) == T_LIST, VTYPE(x) == VT['dataframe'], VTYPE(d) == VT['dataframe'], VTYPE(value) == VT['dataframe'], LEN(x) <= MAXSIZE, z3.Or(ATTRIBF(x) == NILREF, GETATTR(x, sym_ref('dim')) == NILREF), LEN(d) == LEN(x))
    X, V = ex.content(st, 'ref', x), ex.content(st, 'ref', d); n = LEN(x)
    sub, m, loc = subscript(ex, st, 'locations', VSIZE(x))
    for A in (X, V): ex.defs.append(QF(lambda k, A=A: z3.Select(A, k) != NULLREF))
    px = lambda e: e if recursive else PROXYF(e)
    RES = z3.Function('restored', Ref, Ref, Ref); ex.noterm = ex.noterm | {'restored'}
    rest = lambda a, o: a if recursive else RES(a, o)
    opts = options(ex, st, False, False, recursive)
    def inner(ex, st, a):
        """vec_proxy_assign_opts(column, index, value, owned, opts) (this property, for the column)"""
        c, i, v, o = asref(a[0]), asref(a[1]), asref(a[2]), a[3]
        ex.oblige(st, i == sub, 'arg', 'the same locations in every column')
        ex.oblige(st, z3.Implies(o == 1, z3.BoolVal(owned == 'true')), 'arg', 'a column is owned only when the data frame is')
        r = ASG(c, v); st.assume(r != NULLREF); return sx(r)
    def proxy(ex, st, a):
        """vec_proxy(column): the proxy of the column"""
        r = PROXYF(asref(a[0])); st.assume(r != NULLREF); return sx(r)
    def restore(ex, st, a):
        """vec_restore(assigned, column, owned): the class of the column back on the assigned elements"""
        r = RES(asref(a[0]), asref(a[1])); st.assume(r != NULLREF); return sx(r)
    ex.contracts.update({'vec_proxy_assign_opts': inner, 'vec_proxy': proxy, 'vec_restore': restore})
    col = lambda k: rest(ASG(px(z3.Select(X, k)), z3.Select(V, k)), z3.Select(X, k))
    def tmpl(lc):
        cs = []
        for ky, ref in lc.arrays:
            if ky != 'ref': continue
            for v, (g, v0) in lc.ints.items():
                cs.append((f'cols:{ref.sexpr()[:20]}:{v}', lambda ls, g=g, ref=ref: (lambda A: rngq(z3.IntVal(0), n, lambda k: z3.Select(A, k) == z3.If(k < g(ls), col(k), z3.Select(X, k))))(ls.arr('ref', ref))))
        return cs
    ex.templates.append(tmpl)
    def post(s, v):
        r = v.ref(); A = ex.content(s, 'ref', r)
        ex.oblige(s, z3.And(LEN(r) == n, TYPE(r) == T_LIST), 'post', 'the same columns')
        ex.oblige(s, QF(lambda k: z3.Implies(inr(k, n), z3.Select(A, k) == col(k))), 'post', 'every column is assigned the column of value at the locations')
    P.run(ex, st, 'vec_proxy_assign_opts', [sx(x), sx(sub), sx(value), z3.IntVal(OWN[owned]), opts], post, False)
for _o in OWN:
    for _r in (False, True): case('C09', f'data frame, {"owned" if _o == "true" else "not owned"}{", recursive proxy" if _r else ""}', 'vec_proxy_assign_opts')(lambda P, o=_o, r=_r: df(P, o, r))
def fallback(P, kind):
    ex, st, x, value, d, meth = base(P, 'false')
    n = VSIZE(x); st.assume(n >= 0, n <= MAXSIZE, OBJ(value), meth == NILREF, VTYPE(value) != VT['dataframe'], TYPE(x) == TYPE(d))
    sub, m, loc = subscript(ex, st, kind, n)
    t_pointwise(ex, 'i32', lambda e, k: e == loc(k), 'mat')
    if kind == 'sequence': t_walk(ex, sub)
    out = z3.Const('bracket_result', Ref); ex.set_stamp(st, out, 0); st.assume(out != NULLREF)
    def g(ex, st, a):
        """R-level `[<-` called with x, i and value (unknown method)"""
        s_ = asref(a[5]); A = ex.content(st, 'i32', s_)
        ex.oblige(st, z3.And(asref(a[3]) == x, LEN(s_) == m, asref(a[7]) == value), 'arg', 'value is assigned to x')
        ex.oblige(st, QF(lambda k: z3.Implies(inr(k, m), z3.Select(A, k) == loc(k))), 'arg', 'the method is given the plain locations')
        st.g['bracket'] = True; return [('ret', st, sx(out)), ('err', st.fork(), 'method')]
    ex.contracts['vctrs_dispatch3'] = g
    def post(s, v): ex.oblige(s, z3.And(v.ref() == out, z3.BoolVal(bool(s.g.get('bracket')))), 'post', 'what `[<-` returns')
    P.run(ex, st, 'vec_proxy_assign_opts', [sx(x), sx(sub), sx(value), z3.IntVal(0), options(ex, st)], post, lambda s, why: None)
for _k in ('locations', 'repetition', 'sequence'): case('C09', f'assign by the `[<-` method, {_k}', 'vec_proxy_assign_opts', cost=2)(lambda P, k=_k: fallback(P, k))
def entry(P):
    """vec_assign: checks, locations, cast, recycling, then the assignment to the proxy, never owned"""
    ex, st = P.engine({'obj_check_vector': lambda ex, st, a: [('ret', st, None), ('err', st.fork(), 'not a vector')]})
    st.g[('nowrite',)] = True
    x, i, value, frame = (old_obj(ex, st, k) for k in ('x', 'i', 'value', 'frame'))
    ref = lambda k: (lambda r: (ex.set_stamp(st, r, 0), st.assume(r != NULLREF), r)[-1])(z3.Const(k, Ref))
    NMS, LOC, CAST, REC, PX, ASGN, OUT = (ref(k) for k in ('names_of_x', 'locations', 'value_cast', 'value_recycled', 'proxy_of_x', 'assigned', 'restored'))
    st.assume(VSIZE(LOC) >= 0, VSIZE(LOC) <= MAXSIZE)
    def names(ex, st, a):
        """vec_names(x): the names of x"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'names of x'); return sx(NMS)
    def aloc(ex, st, a):
        """vec_as_location_opts(i, n, names, opts): locations (C10), or an error"""
        ex.oblige(st, z3.And(asref(a[0]) == i, a[1] == VSIZE(x), asref(a[2]) == NMS), 'arg', 'i is resolved against the size and names of x')
        return [('ret', st, sx(LOC)), ('err', st.fork(), 'subscript')]
    def cast(ex, st, a):
        """vec_cast(value, x): value with the type of x (C15), or an error"""
        ex.oblige(st, z3.And(asref(a[0]) == value, asref(a[1]) == x), 'arg', 'value is cast to x')
        return [('ret', st, sx(CAST)), ('err', st.fork(), 'cast')]
    def rec(ex, st, a):
        """vec_check_recycle(value, n): value with size n (C13), or an error"""
        ex.oblige(st, z3.And(asref(a[0]) == CAST, a[1] == VSIZE(LOC)), 'arg', 'value is recycled to the number of locations')
        return [('ret', st, sx(REC)), ('err', st.fork(), 'recycle')]
    def proxy(ex, st, a):
        """vec_proxy(x)"""
        ex.oblige(st, asref(a[0]) == x, 'arg', 'proxy of x'); return sx(PX)
    def assign(ex, st, a):
        """vec_proxy_assign_opts(proxy, locations, value, owned, opts): the elements assigned, in a copy unless owned (proved above)"""
        ex.oblige(st, z3.And(asref(a[0]) == PX, asref(a[1]) == LOC, asref(a[2]) == REC), 'arg', 'the recycled value is assigned to the proxy at the locations')
        ex.oblige(st, a[3] == 0, 'arg', 'what the caller may hold is not written')
        return sx(ASGN)
    def restore(ex, st, a):
        """vec_restore(proxy, x, owned)"""
        ex.oblige(st, z3.And(asref(a[0]) == ASGN, asref(a[1]) == x), 'arg', 'restored to x'); return sx(OUT)
    ex.contracts.update({'vec_names': names, 'vec_as_location_opts': aloc, 'vec_cast': cast, 'vec_check_recycle': rec, 'vec_recycle': rec, 'vec_proxy': proxy, 'vec_proxy_assign_opts': assign, 'vec_restore': restore,
                         'NO_REFERENCES': lambda ex, st, a: mk(I, 'unreferenced'), 'new_subscript_opts_assign': c_none, 'new_location_opts_assign': c_none, 'new_lazy_arg': c_none})
    def post(s, v): ex.oblige(s, z3.If(x == NILREF, v.ref() == NILREF, v.ref() == OUT), 'post', 'x with the recycled value assigned at the locations')
    P.run(ex, st, 'ffi_assign', [sx(x), sx(i), sx(value), sx(frame)], post, lambda s, why: ex.oblige(s, z3.BoolVal(why in ('not a vector', 'subscript', 'cast', 'recycle')), 'post', 'errors come from the checks'))
case('C09', 'vec_assign', 'ffi_assign', cost=1)(entry)
