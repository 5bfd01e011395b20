"""subscripts, shared by slicing and assignment"""
from speclib import *
NA = -2**31
SEQA, REPA = z3.Const('glob_compact_seq_attrib_0', Ref), z3.Const('glob_compact_rep_attrib_0', Ref)
OBJ = z3.Function('OBJECT', Ref, B)
def na_of(t):
    """the missing value of a storage type, per stored word"""
    return {'logical': z3.IntVal(NA), 'integer': z3.IntVal(NA), 'double': d_const(NA_REAL_BITS), 'complex': d_const(NA_REAL_BITS), 'character': NASTR, 'raw': z3.IntVal(0), 'list': NILREF}[t.name]
def subscript(ex, st, kind, n, name='i'):
    """a resolved subscript of size-n data: (ref, size, k -> location or NA); locations are in 1..n or NA (C10)"""
    s = old_obj(ex, st, name, T_INT); S = ex.content(st, 'i32', s)
    st.assume(SEQA != REPA, SEQA != NILREF, REPA != NILREF, SEQA != NULLREF, REPA != NULLREF, s != NILREF)
    for c in (SEQA, REPA): ex.set_stamp(st, c, 0)
    at = lambda k: z3.Select(S, k)
    if kind == 'locations':
        st.assume(ATTRIBF(s) != SEQA, ATTRIBF(s) != REPA, LEN(s) <= MAXSIZE, VSIZE(s) == LEN(s))
        ex.defs.append(QF(lambda k: z3.Implies(inr(k, LEN(s)), z3.Or(at(k) == NA, z3.And(at(k) >= 1, at(k) <= n)))))
        return s, LEN(s), at
    if kind == 'repetition':
        st.assume(ATTRIBF(s) == REPA, LEN(s) == 2, at(1) >= 0, at(1) <= MAXSIZE, z3.Or(at(0) == NA, z3.And(at(0) >= 1, at(0) <= n)))
        return s, at(1), lambda k: at(0)
    st.assume(n < MAXSIZE, ATTRIBF(s) == SEQA, LEN(s) == 3, at(1) >= 0, at(1) <= MAXSIZE, at(0) >= 0, at(0) <= n, z3.Or(at(2) == 1, at(2) == -1))
    st.assume(z3.Implies(at(1) > 0, z3.And(at(0) < n, z3.Implies(at(2) == 1, at(0) + at(1) <= n), z3.Implies(at(2) == -1, at(0) - at(1) + 1 >= 0))))
    return s, at(1), lambda k: at(0) + 1 + z3.If(at(2) == 1, k, -k)
KINDS = ('locations', 'repetition', 'sequence')
def sliced_el(t, A, e, l, na=None):
    """word e of the result at a location l of the input content A (complex: real part l, see words)"""
    return e == z3.If(l == NA, na_of(t) if na is None else na, z3.Select(A, l - 1))
def attr_set(ex, s, r, sym):
    l = [v[0] for k, v in s.g.items() if isinstance(k, tuple) and k[0] == 'attr' and k[1] == r.get_id() and z3.eq(v[2], sym)]
    return l[-1] if l else None
