"""irv: a small contract-based deductive verifier over LLVM IR.

  * path-wise symbolic execution of the compiled function, loops cut at their headers
  * loop invariants: templates + user templates, filtered by Houdini (initiation and
    consecution are both discharged by the solver); nothing is unrolled
  * calls: a contract (python function) if one is registered, otherwise the callee's body
    is inlined; a call with neither stops the proof with ToolLimit
  * quantified facts are instantiated explicitly; every solver query is ground

Every obligation is recorded with its verdict.
"""
import os, re, sys, time, itertools, hashlib
import z3
from ir import IRError, Ty

sys.setrecursionlimit(20000)

class ToolLimit(Exception):
    """The engine cannot continue (unsupported construct, missing contract, resource limit)."""

Ref = z3.DeclareSort('Ref')
I, B = z3.IntSort(), z3.BoolSort()
BV64 = z3.BitVecSort(64)
LEN = z3.Function('len', Ref, I)
TYPE = z3.Function('type', Ref, I)
STAMP = z3.Function('stamp', Ref, I)
ATTR = z3.Function('attrib', Ref, Ref)
I2D = z3.Function('i2d', I, BV64)
VAL = z3.Function('val', BV64, z3.RealSort())
NULLREF = z3.Const('NULL', Ref)

SORTS = {'ref': Ref, 'f64': BV64}
def sort_of(key):
    if key.startswith('ref'): return Ref
    if key.startswith('f64'): return BV64
    return I

INTMIN = {8: -2**7, 16: -2**15, 32: -2**31, 64: -2**63, 128: -2**127}
INTMAX = {k: -v-1 for k, v in INTMIN.items()}

_cnt = itertools.count(1)
def fresh_name(base):
    return f"{base}!{next(_cnt)}"
def mk(sort, base='v'):
    return z3.Const(fresh_name(base), sort)

def stamp_of_name(n):
    if '!' in n:
        try: return int(n.rsplit('!', 1)[1])
        except ValueError: return 0
    return 0

_consts_cache = {}
def consts_of(t):
    """names of 0-ary uninterpreted constants in a term"""
    k = t.get_id()
    if k in _consts_cache: return _consts_cache[k][1]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
    out = frozenset(out)
    _consts_cache[k] = (t, out)     # keep t alive so that ids are not reused
    return out
def max_stamp(t):
    return max([stamp_of_name(n) for n in consts_of(t)] or [0])

# ------------------------------------------------------------------ pointers
class P:
    """pointer value: base kind + byte offset const + sum(scale_i * term_i)"""
    __slots__ = ('k', 'b', 'c', 't')
    def __init__(self, k, b=None, c=0, t=()):
        self.k, self.b, self.c, self.t = k, b, c, t
    def __repr__(self): return f"P({self.k},{self.b},{self.c},{self.t})"
    def add(self, c, terms=()):
        ts = dict()
        for s, x in list(self.t) + list(terms):
            if s in ts: ts[s] = ts[s] + x
            else: ts[s] = x
        return P(self.k, self.b, self.c + c, tuple(sorted(ts.items(), key=lambda p: p[0])))
    def is_ref(self): return self.k == 'sexp'
    def ref(self):
        if self.k == 'null': return NULLREF
        if self.k == 'sexp' : return self.b
        if self.k == 'glob': return z3.Const('globptr_' + self.b, Ref)
        if self.k == 'func': return z3.Const('funcptr_' + str(self.b), Ref)
        if self.k == 'cell': return z3.Const('cellptr_' + str(self.b), Ref)
        raise ToolLimit("pointer used as a value: " + repr(self))
    def same_base(self, o):
        if self.k != o.k: return False
        if self.k in ('sexp', 'data'): return z3.eq(self.b, o.b)
        return self.b == o.b
NULL = P('null')
def sx(t): return P('sexp', t)

class QF:
    """universally quantified fact: forall v (Int,...) . fn(v...).  The body is built once over
    placeholder constants and instantiated by substitution."""
    __slots__ = ('n', 'fn', 'doc', '_body', '_ph', '_hv')
    def __init__(self, fn, n=1, doc=''):
        self.fn, self.n, self.doc, self._body, self._ph, self._hv = fn, n, doc, None, None, None
    PH = [z3.Int('$ph0'), z3.Int('$ph1'), z3.Int('$ph2')]
    def body(self):
        if self._body is None:
            b = self.fn(*self.PH[:self.n])
            if b is None or b is True: b = z3.BoolVal(True)
            self._body = z3.simplify(b)
        return self._body
    def hv(self, ex):
        """index terms of the body: (those without placeholders, those with)"""
        if self._hv is None:
            c, p = {}, {}
            for t in ex.terms_of([self.body()]).values():
                t = z3.simplify(t)
                if any(n.startswith('$ph') for n in consts_of(t)): p[t.get_id()] = t
                else: c[t.get_id()] = t
            self._hv = (c, [t for t in p.values()])
        return self._hv
    def inst(self, *ts):
        b = self.body()
        k = (b.get_id(),) + tuple(t.get_id() for t in ts)
        c = QF.IC.get(k)
        if c is None:
            if len(QF.IC) > 400000: QF.IC.clear()
            c = QF.IC[k] = (z3.substitute(b, *[(p, t) for p, t in zip(self.PH, ts)]), b, ts)
        return c[0]
    IC = {}

class State:
    __slots__ = ('pc', 'q', 'env', 'H', 'cells', 'g', 'trace', 'depth')
    def __init__(self):
        self.pc, self.q, self.env, self.H, self.cells, self.g, self.trace, self.depth = [], [], {}, {}, {}, {}, (), 0
    def fork(self):
        s = State()
        s.pc, s.q, s.env = list(self.pc), list(self.q), dict(self.env)
        s.H = dict(self.H); s.cells = dict(self.cells); s.g = dict(self.g); s.trace = self.trace; s.depth = self.depth
        return s
    def assume(self, *fs):
        for f in fs:
            if isinstance(f, QF):
                f.body()
                self.q.append(f)
            elif f is True or (z3.is_expr(f) and z3.is_true(f)): pass
            else:
                if f is False: f = z3.BoolVal(False)
                self.pc.append(f)

class Oblig:
    __slots__ = ('fn', 'kind', 'text', 'ok', 'detail', 't', 'assumed')
    def __init__(self, fn, kind, text, ok, detail='', t=0.0):
        self.fn, self.kind, self.text, self.ok, self.detail, self.t = fn, kind, text, ok, detail, t

def And(*a):
    a = [x for x in a if not (x is True)]
    return z3.And(*a) if a else z3.BoolVal(True)
def Not(a):
    if a is True: return z3.BoolVal(False)
    if a is False: return z3.BoolVal(True)
    return z3.Not(a)
def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return z3.If(c, a, b)

_simp_cache = {}
def simp(t):
    return z3.simplify(t)

# ------------------------------------------------------------------ double helpers on bit patterns
def d_isnan(b):
    return z3.UGT(b & z3.BitVecVal(0x7fffffffffffffff, 64), z3.BitVecVal(0x7ff0000000000000, 64))
def d_iszero(b):
    return (b & z3.BitVecVal(0x7fffffffffffffff, 64)) == 0
def d_eq(a, b):
    return z3.And(z3.Not(d_isnan(a)), z3.Not(d_isnan(b)), z3.Or(a == b, z3.And(d_iszero(a), d_iszero(b))))
def d_lt(a, b):
    # sign-magnitude comparison
    sa, sb = z3.Extract(63, 63, a) == 1, z3.Extract(63, 63, b) == 1
    ma, mb = a & z3.BitVecVal(0x7fffffffffffffff, 64), b & z3.BitVecVal(0x7fffffffffffffff, 64)
    lt = z3.If(sa, z3.If(sb, z3.UGT(ma, mb), z3.Not(z3.And(ma == 0, mb == 0))), z3.If(sb, False, z3.ULT(ma, mb)))
    return z3.And(z3.Not(d_isnan(a)), z3.Not(d_isnan(b)), lt)
def d_const(bits): return z3.BitVecVal(bits, 64)
NA_REAL_BITS = 0x7FF00000000007A2

def dbl_fraction(bits):
    import struct
    from fractions import Fraction
    v = struct.unpack('<d', struct.pack('<Q', bits))[0]
    if v != v: return None
    if v in (float('inf'), float('-inf')):
        return Fraction(2)**1024 * (1 if v > 0 else -1)
    return Fraction(v)

class Contract: pass

def debug_model(ex, st, goal, m):
    print('GOAL', goal.body() if isinstance(goal, QF) else goal)
    acc, todo, seen = [], list(st.pc) + [goal.body() if isinstance(goal, QF) else goal], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id()); todo.extend(x.children())
        if (z3.is_select(x) or (x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args())) and x.sort() in (I, B): acc.append(x)
    print(len(st.q), 'qfs'); A = [f for f in st.pc]
    for q in st.q: print('  Q', str(q.body()).replace(chr(10),' ')[:150])
    for x in acc: print('   ', str(x).replace(chr(10), ' ')[:120], '=', m.eval(x))

class Engine:
    def __init__(self, modules, contracts=None, timeout_ms=10000, max_paths=4000, name=''):
        self.mods = modules                 # list of ir.Module
        self.contracts = contracts or {}
        self.timeout = timeout_ms
        self.max_paths = max_paths
        self.name = name
        self.obligs = []
        self.quiet = 0
        self.writes = None                  # set while tracking modifications
        self.cmps = None                    # comparisons observed (for candidate bounds)
        self.templates = []                 # user templates: fn(ex, ctx) -> [(name, fn(state)->formula/QF)]
        self.solver_time = 0.0
        self.queries = 0
        self.inlined = set()
        self.used_contracts = set()
        self.global_facts = []              # z3 facts / QF always available
        self.defs = []                      # QF unfolding axioms for spec functions
        self.unfold = {}                    # name -> fn(*args): definition instantiated for occurring applications
        self.paths = 0
        self.deadline = None
        self.loop_memo = {}
        self.callstack = []
        self.mode_nosideobl = False
        self.loops_done = {}
        self.hints = None
        self.extglob = {}
        self.fns = {}
        for m in modules:
            for f in m.funcs.values():
                if not f.internal: self.fns.setdefault(f.name, f)
        self.stop_on_fail = False
        self.zero_terms = [z3.IntVal(0)]
        self.houdini_stats = [0, 0]
        self.check_overflow = True
        self.check_bounds = True
        self.extra_terms = []
        self.inst_rounds = 2
        self.max_inst = 6000
        self.bitmode = False
        self.hcache = {}
        self.ucache, self.udef = {}, {}
        self.max_multi = 24

    # ------------------------------------------------------------------ solving
    def terms_of(self, forms, seen=None, acc=None):
        """collect candidate instantiation terms: Int-sorted arguments of selects/uninterpreted apps"""
        if acc is None: acc = {}
        if seen is None: seen = set()
        st = list(forms)
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_app(x):
                k = x.decl().kind()
                ch = x.children()
                if k == z3.Z3_OP_SELECT:
                    ix = ch[1]
                    if ix.sort() == I: acc[ix.get_id()] = ix
                elif k == z3.Z3_OP_STORE:
                    if ch[1].sort() == I: acc[ch[1].get_id()] = ch[1]
                elif k == z3.Z3_OP_UNINTERPRETED and ch:
                    if x.decl().name() not in self.noterm:
                        for c in ch:
                            if c.sort() == I: acc[c.get_id()] = c
                st.extend(ch)
            elif z3.is_quantifier(x):
                raise ToolLimit("quantifier in ground query")
        return acc
    noterm = {'i2d'}
    unfold = {}

    def harvest(self, f):
        """(cached) Int-sorted select/application arguments occurring in a formula"""
        k = f.get_id()
        c = self.hcache.get(k)
        if c is None:
            acc = self.terms_of([f])
            out = {}
            for t in acc.values():
                t = z3.simplify(t)
                out[t.get_id()] = t
                for u in ([t] + t.children() if z3.is_add(t) else [t]):
                    if z3.is_mul(u) and u.num_args() == 2 and z3.is_int_value(u.arg(0)) and u.arg(0).as_long() > 1: out[u.arg(1).get_id()] = u.arg(1)
            c = (f, out)
            self.hcache[k] = c
        return c[1]

    def instantiate(self, ground, qfs, extra=()):
        """returns list of instances (ground formulas); deterministic, bounded rounds"""
        out, done = [], set()
        terms = {}
        for f in ground: terms.update(self.harvest(f))
        for t in list(extra) + list(self.extra_terms): terms[t.get_id()] = t
        qfs = sorted((q for q in qfs if not z3.is_true(q.body())), key=lambda q: q.n)
        for r in range(self.inst_rounds):
            new, newkeys = [], []
            tl = list(terms.values())
            for qi, q in enumerate(qfs):
                if q.n == 1:
                    for t in tl:
                        key = (qi, t.get_id())
                        if key in done: continue
                        done.add(key)
                        new.append(q.inst(t)); newkeys.append((qi, (t,)))
                else:
                    tl2 = tl if len(tl) <= self.max_multi else tl[:self.max_multi]
                    for tt in itertools.product(tl2, repeat=q.n):
                        key = (qi,) + tuple(t.get_id() for t in tt)
                        if key in done: continue
                        done.add(key)
                        new.append(q.inst(*tt)); newkeys.append((qi, tt))
                if len(out) + len(new) > self.max_inst: break
            if not new: break
            out += new
            if len(out) > self.max_inst: break
            if r + 1 < self.inst_rounds:
                for (qi, tt) in newkeys:
                    c, p = qfs[qi].hv(self)
                    terms.update(c)
                    sub = list(zip(QF.PH, tt))
                    for pt in p:
                        t = z3.simplify(z3.substitute(pt, *sub))
                        terms[t.get_id()] = t
        return out

    def insts(self, forms, q, extra=()):
        if not self.unfold: return self.instantiate(forms, q, extra) if q else []
        seen = {}
        unf = self.unfolds(forms, seen)
        inst = self.instantiate(forms + unf, q, extra) if q else []
        return unf + inst + self.unfolds(inst, seen)
    def unfold_apps(self, f):
        """(cached) applications of the unfolded functions in a formula"""
        c = self.ucache.get(f.get_id())
        if c is not None: return c[1]
        cache, unf, U, stack = self.ucache, self.unfold, z3.Z3_OP_UNINTERPRETED, [(f, None)]
        while stack:
            x, ch = stack.pop()
            i = x.get_id()
            if i in cache: continue
            if ch is None:
                if not z3.is_app(x) or x.num_args() == 0: cache[i] = (x, ()); continue
                ch = x.children()
                todo = [c for c in ch if c.get_id() not in cache]
                if todo:
                    stack.append((x, ch)); stack.extend((c, None) for c in todo); continue
            out = {}
            d = x.decl()
            if d.kind() == U and d.name() in unf: out[i] = x
            last = None
            for c in ch:
                l = cache[c.get_id()][1]
                if l:
                    last = l if last is None else False
                    for t in l: out[t.get_id()] = t
            cache[i] = (x, last if last and i not in out else tuple(out.values()))
        return cache[f.get_id()][1]
    def unfolds(self, forms, seen, rounds=2):
        """definitions of (recursive) functions, instantiated for the applications that occur"""
        out = []
        for r in range(rounds):
            new = []
            for f in forms:
                for x in self.unfold_apps(f):
                    i = x.get_id()
                    if i in seen: continue
                    seen[i] = x
                    d = self.udef.get(i)
                    if d is None:
                        d = self.unfold[x.decl().name()](*x.children())
                        d = [] if d is None else d if isinstance(d, list) else [d]
                        self.udef[i] = (x, d)
                    else: d = d[1]
                    new += d
            if not new: break
            out += new; forms = new
        return out

    def query(self, ground, qfs, want_model=False, timeout=None, extra=()):
        """satisfiability of ground /\\ instances; returns (res, model)"""
        if self.deadline and time.time() > self.deadline:
            raise ToolLimit("time budget exhausted")
        t0 = time.time()
        ground = [g for g in ground if not isinstance(g, bool)] + [z3.BoolVal(g) for g in ground if isinstance(g, bool)]
        gf = [f for f in self.global_facts if not isinstance(f, QF)]
        q = list(qfs) + [f for f in self.global_facts if isinstance(f, QF)] + self.defs
        inst = self.insts(ground + gf, q, extra)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.set('random_seed', 0)
        s.add(*gf, *ground, *inst)
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        self.last_solver = s
        return r, (s.model() if (r == z3.sat) else None)

    def feasible(self, st, cond=None):
        g = list(st.pc)
        if cond is not None:
            c = simp(cond)
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            g.append(c)
        # cheap check without instantiation first
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 2000)
        s.add(*[f for f in self.global_facts if not isinstance(f, QF)]); s.add(*g)
        r = s.check()
        self.solver_time += time.time() - t0; self.queries += 1
        if r == z3.unsat: return False
        return True
    def feasible_full(self, st):
        r, _ = self.query(list(st.pc), st.q, timeout=3000)
        return r != z3.unsat

    def valid(self, st, goal, timeout=None):
        """is goal (Bool or QF) implied by the state?"""
        extra = ()
        if isinstance(goal, QF):
            ks = [mk(I, 'k') for _ in range(goal.n)]
            extra = ks
            goal = goal.inst(*ks)
        goal = simp(goal) if z3.is_expr(goal) else z3.BoolVal(goal)
        if z3.is_true(goal): return True, None
        if st.q and self.quick_valid(st, goal): return True, None
        r, m = self.query(list(st.pc) + [z3.Not(goal)], st.q, timeout=timeout, extra=extra)
        return r == z3.unsat, (m if r == z3.sat else str(r))

    def quick_valid(self, st, goal):
        goal = simp(goal)
        if z3.is_true(goal): return True
        if z3.is_false(goal): return False
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 1000)
        s.add(*[f for f in self.global_facts if not isinstance(f, QF)])
        s.add(*st.pc); s.add(z3.Not(goal))
        r = s.check()
        self.solver_time += time.time() - t0; self.queries += 1
        return r == z3.unsat

    def oblige(self, st, goal, kind, text):
        if self.quiet:
            if isinstance(goal, QF): st.assume(goal)
            else: st.assume(goal)
            return True
        t0 = time.time()
        ok, info = self.valid(st, goal)
        o = Oblig(self.cur(), kind, text, ok, '', time.time() - t0)
        if not ok:
            o.detail = self.describe(st, goal, info)
            if os.environ.get('VERIF_DBGM') and isinstance(info, z3.ModelRef): debug_model(self, st, goal, info)
        self.obligs.append(o)
        st.assume(goal)
        return ok
    def cur(self):
        return self.callstack[-1] if self.callstack else '?'
    def describe(self, st, goal, info):
        if isinstance(info, z3.ModelRef):
            parts = []
            for d in info.decls():
                if d.arity() == 0 and d.range().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT, z3.Z3_BV_SORT):
                    parts.append(f"{d.name()}={info[d]}")
            return "solver: sat; counterexample state: " + ", ".join(sorted(parts)[:60]) + "\n path: " + " ".join(st.trace[-40:])
        return "solver: " + str(info) + "\n path: " + " ".join(st.trace[-40:])

    # ------------------------------------------------------------------ values
    def rng(self, st, v, bits):
        st.assume(z3.And(v >= INTMIN[bits], v <= INTMAX[bits]))
        return v
    def fresh(self, st, ty, base='v'):
        if ty.k == 'i':
            if ty.a == 1: return mk(B, base)
            return self.rng(st, mk(I, base), ty.a)
        if ty.k == 'double': return mk(BV64, base)
        if ty.k == 'ptr': return sx(mk(Ref, base))
        if ty.k in ('struct', 'named'):
            raise ToolLimit("fresh struct")
        raise ToolLimit("fresh of type " + repr(ty))
    def const(self, st, v, ty, mod):
        k = v[0]
        if k == 'loc': return st.env[v[1]]
        if k == 'int':
            if ty.k == 'i' and ty.a == 1: return z3.BoolVal(v[1] != 0)
            return z3.IntVal(v[1])
        if k == 'dbl': return d_const(v[1])
        if k == 'null': return NULL
        if k == 'undef':
            return self.undef(st, ty)
        if k == 'zero':
            if ty.k == 'ptr': return NULL
            if ty.k == 'double': return d_const(0)
            if ty.k == 'i': return z3.BoolVal(False) if ty.a == 1 else z3.IntVal(0)
            if ty.k in ('struct', 'named'):
                return tuple(self.const(st, ('zero',), f, mod) for f in mod.fields(ty))
            raise ToolLimit("zeroinitializer of " + repr(ty))
        if k == 'glob':
            if v[1] in mod.funcs or (v[1] in mod.declared): return P('func', v[1])
            return P('glob', self.globname(v[1], mod))
        if k == 'cgep':
            base = self.const(st, v[2], Ty('ptr'), mod)
            return self.gep(st, base, v[1], [(t, x) for t, x in v[3]], mod)
        if k == 'agg':
            return tuple(self.const(st, x, t, mod) for t, x in v[1])
        raise ToolLimit("constant " + repr(v)[:80])
    def globname(self, n, mod):
        g = mod.globals.get(n)
        if g is not None and g.get('internal'):
            return n + '@' + mod.path
        return n
    def undef(self, st, ty):
        if ty.k in ('struct', 'named'): return None
        return self.fresh(st, ty, 'undef')

    def val(self, st, v, ty, mod):
        return self.const(st, v, ty, mod)

    def gep(self, st, base, bty, idx, mod):
        c, terms = 0, []
        ty = bty
        for n, (ity, iv) in enumerate(idx):
            x = self.const(st, iv, ity, mod)
            if n == 0:
                sc = mod.size(ty)
                if z3.is_int_value(x): c += sc * x.as_long()
                else: terms.append((sc, x))
            else:
                if mod.is_struct(ty):
                    off, ty2 = mod.field_off(ty, x.as_long())
                    c += off; ty = ty2
                elif ty.k == 'arr':
                    sc = mod.size(ty.b)
                    if z3.is_int_value(x): c += sc * x.as_long()
                    else: terms.append((sc, x))
                    ty = ty.b
                else: raise ToolLimit("gep into " + repr(ty))
        if base.k == 'null' and not (c == 0 and not terms):
            raise ToolLimit("offset from NULL")
        return base.add(c, terms)

    # ------------------------------------------------------------------ memory
    def tykey(self, ty):
        if ty.k == 'ptr': return 'ref'
        if ty.k == 'double': return 'f64'
        if ty.k == 'i': return 'i%d' % ty.a
        raise ToolLimit("memory access of type " + repr(ty))
    def heap(self, st, key):
        if key not in st.H:
            st.H[key] = z3.Const('H0_' + key, z3.ArraySort(Ref, z3.ArraySort(I, sort_of(key))))
        return st.H[key]
    def known_distinct(self, st, a, b):
        sa, sb = self.stamp(st, a), self.stamp(st, b)
        return sa is not None and sb is not None and sa != sb
    def stamp(self, st, t):
        """0 = exists before the call, n = fresh allocation n, None = unknown"""
        return st.g.get(('stamp', t.get_id()), (None,))[0]
    def set_stamp(self, st, t, n):
        st.g[('stamp', t.get_id())] = (n, t)
        st.assume(STAMP(t) == n)
    def content(self, st, key, ref):
        """current content array of object ref (resolved through the store chain)"""
        h = self.heap(st, key)
        def walk(h):
            while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE:
                r = h.arg(1)
                if z3.eq(r, ref): return h.arg(2)
                if self.known_distinct(st, r, ref):
                    h = h.arg(0); continue
                return z3.Select(h, ref)
            return z3.Select(h, ref)
        return walk(h)
    def set_content(self, st, key, ref, arr):
        h = self.heap(st, key)
        # overwrite on top if same ref is the outermost store
        if z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE and z3.eq(h.arg(1), ref): h = h.arg(0)
        elif z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE:
            # remove an inner store to the same ref when everything above is known distinct
            chain, x, ok = [], h, False
            while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
                if z3.eq(x.arg(1), ref): ok = True; x = x.arg(0); break
                if not self.known_distinct(st, x.arg(1), ref): break
                chain.append((x.arg(1), x.arg(2))); x = x.arg(0)
            if ok:
                for r, a in reversed(chain): x = z3.Store(x, r, a)
                h = x
        st.H[key] = z3.Store(h, ref, arr)
        if self.writes is not None: self.writes.append(('H', key, ref))
    def elem_index(self, p, size, keybase):
        """(heap key, index term) of a typed access through a data pointer"""
        c, ts = p.c, p.t
        if not ts:
            if c % size == 0: return keybase, z3.IntVal(c // size)
            raise ToolLimit("misaligned constant access")
        if all(s % size == 0 for s, _ in ts) and c % size == 0:
            if len(ts) == 1 and ts[0][0] == size: x = ts[0][1]
            else: x = z3.Sum([ (s // size) * t for s, t in ts])
            if c: x = x + c // size
            return keybase, x
        if len(ts) == 1:
            s, t = ts[0]
            q, r = divmod(c, s)
            return f"{keybase}@{s}+{r}", (t + q if q else t)
        raise ToolLimit("access pattern")
    def load(self, st, p, ty, mod):
        if ty.k in ('struct', 'named'):
            raise ToolLimit("aggregate load")
        size = mod.size(ty)
        if p.k == 'data':
            key, ix = self.elem_index(p, size, self.tykey(ty))
            self.access_check(st, p, key, ix, size, 'read')
            v = z3.Select(self.content(st, key, p.b), ix)
            return self.loaded(st, v, ty, p)
        if p.k == 'sexp':
            p = P('cell', ('*', p.b), p.c, p.t)
        if p.k == 'glob':
            return self.load_global(st, p, ty, mod)
        if p.k == 'cell':
            if p.t:
                return self.load_cellarr(st, p, ty, mod)
            return self.load_cell(st, p.b, p.c, ty, size)
        if p.k == 'null':
            self.oblige(st, z3.BoolVal(False), 'null-deref', 'load through NULL')
            st.assume(z3.BoolVal(False))
            return self.fresh(st, ty)
        raise ToolLimit(f"load through {p.k} pointer")
    def loaded(self, st, v, ty, p=None):
        if ty.k == 'i':
            v = simp(v)
            if ty.a == 1: return v != 0
            if not z3.is_int_value(v): self.rng(st, v, ty.a)
            return v
        if ty.k == 'ptr':
            v = simp(v)
            if p is not None and p.k == 'data' and self.stamp(st, p.b) == 0 and self.stamp(st, v) is None:
                c = self.content(st, 'ref', p.b)
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT and c.arg(0).decl().name() == 'H0_ref':
                    self.set_stamp(st, v, 0)
            return sx(v)
        return simp(v)
    def access_check(self, st, p, key, ix, size, what):
        if not self.check_bounds: return
        n = self.data_len(st, p.b, key, size)
        if n is None: return
        self.oblige(st, z3.And(ix >= 0, ix < n), 'bounds', f"{what} of {key} within its object")
    def data_len(self, st, ref, key, size):
        g = st.g.get(('dlen', ref.get_id()))
        if g is not None: 
            es, n = g[0], g[1]
            stride = size
            if '@' in key: stride = int(key.split('@')[1].split('+')[0])
            if es == stride: return n
            if es == 1: return n / stride
            if stride % es == 0: return n / (stride // es)
            return None
        ty_sizes = {'i32': None}
        return LEN(ref)
    def load_cell(self, st, reg, off, ty, size):
        rk = self.regkey(reg)
        cells = st.cells.get(rk)
        if cells is None:
            cells = {}
            st.cells[rk] = cells
        if off in cells:
            s, v = cells[off]
            if s == size: return self.retype(st, v, ty)
            raise ToolLimit(f"punned cell access {reg} {off}")
        for o, (s, v) in cells.items():
            if o < off + size and off < o + s: raise ToolLimit("overlapping cell access")
        # lazily initialised
        v = self.lazy_cell(st, rk, off, ty)
        cells = dict(cells); cells[off] = (size, v); st.cells[rk] = cells
        return v
    def lazy_cell(self, st, rk, off, ty):
        nm = f"cell_{rk}_{off}"
        if ty.k == 'i':
            if ty.a == 1: return z3.Bool(nm)
            v = z3.Int(nm); self.rng(st, v, ty.a); return v
        if ty.k == 'double': return z3.Const(nm, BV64)
        if ty.k == 'ptr':
            r = z3.Const(nm, Ref)
            return sx(r)
        raise ToolLimit("lazy cell type")
    def retype(self, st, v, ty):
        if ty.k == 'ptr':
            if isinstance(v, P): return v
            raise ToolLimit("int cell read as pointer")
        if ty.k == 'i':
            if isinstance(v, P): raise ToolLimit("pointer cell read as int")
            if ty.a == 1:
                return v if z3.is_bool(v) else (v != 0)
            if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if z3.is_bv(v): raise ToolLimit("double cell read as int") if ty.a != 64 else None
            return v
        if ty.k == 'double':
            if z3.is_bv(v): return v
            raise ToolLimit("punned double")
        return v
    def regkey(self, reg):
        if isinstance(reg, tuple): return '*' + reg[1].sexpr().replace(' ', '_').replace('|', '')
        return reg
    def load_cellarr(self, st, p, ty, mod):
        raise ToolLimit("symbolic index into a local aggregate")
    def store(self, st, p, v, ty, mod):
        if ty.k in ('struct', 'named'):
            off = 0
            for i, f in enumerate(mod.fields(ty)):
                o, ft = mod.field_off(ty, i)
                self.store(st, p.add(o), v[i], ft, mod)
            return
        size = mod.size(ty)
        if p.k == 'data':
            key, ix = self.elem_index(p, size, self.tykey(ty))
            self.access_check(st, p, key, ix, size, 'write')
            self.write_guard(st, p.b)
            if isinstance(v, P): v = v.ref()
            elif z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            self.set_content(st, key, p.b, z3.Store(self.content(st, key, p.b), ix, v))
            return
        if p.k == 'sexp': p = P('cell', ('*', p.b), p.c, p.t)
        if p.k == 'cell':
            if p.t: raise ToolLimit("symbolic store into a local aggregate")
            rk = self.regkey(p.b)
            cells = dict(st.cells.get(rk, {}))
            for o in list(cells):
                s = cells[o][0]
                if o < p.c + size and p.c < o + s:
                    if o == p.c and s == size: continue
                    if o >= p.c and o + s <= p.c + size: del cells[o]
                    else: raise ToolLimit("partial overwrite of a cell")
            cells[p.c] = (size, v)
            st.cells[rk] = cells
            if self.writes is not None: self.writes.append(('C', rk, p.c, size, ty))
            return
        if p.k == 'glob':
            st.g[('glob', p.b, p.c)] = v
            if self.writes is not None: self.writes.append(('G', p.b, p.c, ty))
            return
        if p.k == 'null':
            self.oblige(st, z3.BoolVal(False), 'null-deref', 'store through NULL')
            st.assume(z3.BoolVal(False)); return
        raise ToolLimit(f"store through {p.k} pointer")
    def write_guard(self, st, ref):
        """frame obligation: only objects allocated by the call, or declared writable, may be written"""
        if ('nowrite',) in st.g:
            s = self.stamp(st, ref)
            if s is not None and s > 0: return
            allowed = st.g.get(('writable',), ())
            for r in allowed:
                if z3.eq(r, ref): return
            self.oblige(st, z3.Or(STAMP(ref) > 0, *[ref == r for r in allowed]), 'frame', 'only objects allocated here (or owned) are written')
    def load_global(self, st, p, ty, mod):
        if p.t: 
            return self.load_global_arr(st, p, ty, mod)
        k = ('glob', p.b, p.c)
        if k in st.g: return st.g[k]
        g = None
        for m in self.mods:
            if p.b.endswith('@' + m.path) and p.b.split('@')[0] in m.globals: g = m.globals[p.b.split('@')[0]]; break
        if g is None:
            for m in self.mods:
                gg = m.globals.get(p.b)
                if gg is not None and not gg['external']: g = gg; mod = m; break
        if g is not None and g['const'] and g['init'] is not None:
            v = self.init_at(st, g['init'], g['ty'], p.c, ty, mod)
            if v is not None: return v
        special = self.extglob.get((p.b, p.c), self.extglob.get(p.b) if p.c == 0 else None)
        if special is not None: v = special(self, st) if callable(special) else special
        else:
            nm = f"glob_{p.b}_{p.c}"
            if ty.k == 'ptr':
                r = z3.Const(nm, Ref); v = sx(r); self.set_stamp(st, r, 0)
            elif ty.k == 'i': 
                v = z3.Bool(nm) if ty.a == 1 else self.rng(st, z3.Int(nm), ty.a)
            else: v = z3.Const(nm, BV64)
        st.g[k] = v
        return v
    def load_global_arr(self, st, p, ty, mod):
        """constant table lookup with a symbolic index: build an ite over the initialiser"""
        for m in self.mods:
            nm = p.b.split('@')[0]
            g = m.globals.get(nm)
            if g is not None and g['init'] is not None and g['const']:
                break
        else: raise ToolLimit("symbolic global access " + p.b)
        gty, init = g['ty'], g['init']
        size = m.size(ty)
        total = m.size(gty) // size
        if total > 4096: raise ToolLimit("table too large")
        if not all(s % size == 0 for s, _ in p.t): raise ToolLimit("table stride")
        ix = z3.Sum([(s // size) * t for s, t in p.t]) + p.c // size
        self.oblige(st, z3.And(ix >= 0, ix < total), 'bounds', 'table index')
        out = None
        for j in range(total - 1, -1, -1):
            v = self.init_at(st, init, gty, j * size, ty, m)
            out = v if out is None else z3.If(ix == j, v, out)
        return out
    def init_at(self, st, init, gty, off, ty, mod):
        if init[0] == 'zero':
            return self.const(st, ('zero',), ty, mod)
        if gty.k == 'arr':
            es = mod.size(gty.b)
            if init[0] == 'str':
                raw = init[1][2:-1]; bs = []
                i = 0
                while i < len(raw):
                    if raw[i] == '\\': bs.append(int(raw[i+1:i+3], 16)); i += 3
                    else: bs.append(ord(raw[i])); i += 1
                if es == 1 and ty.k == 'i' and ty.a == 8: 
                    b = bs[off]; return z3.IntVal(b - 256 if b > 127 else b)
                return None
            if init[0] == 'agg':
                j, r = divmod(off, es)
                ety, ev = init[1][j]
                return self.init_at(st, ev, ety, r, ty, mod)
            return None
        if gty.k in ('struct', 'named'):
            if init[0] != 'agg': return None
            for j in range(len(init[1])):
                fo, ft = mod.field_off(gty, j)
                if fo <= off < fo + mod.size(ft): return self.init_at(st, init[1][j][1], ft, off - fo, ty, mod)
            return None
        if off != 0: return None
        if gty != ty: return None
        return self.const(st, init, ty, mod)

    def memcpy(self, st, dst, src, n, mod):
        if z3.is_expr(n): n = simp(n)
        if dst.k in ('cell', 'sexp') and src.k in ('cell', 'sexp', 'glob') and z3.is_int_value(n):
            n = n.as_long()
            db = dst.b if dst.k == 'cell' else ('*', dst.b)
            dk = self.regkey(db)
            dc = dict(st.cells.get(dk, {}))
            for o in list(dc):
                if o < dst.c + n and dst.c < o + dc[o][0]: del dc[o]
            if src.k == 'glob':
                for off in range(0, n, 8):
                    v = self.load_global(st, P('glob', src.b, src.c + off), Ty('ptr'), mod)
                    dc[dst.c + off] = (8, v)
            else:
                sb = src.b if src.k == 'cell' else ('*', src.b)
                sk = self.regkey(sb)
                sc = st.cells.get(sk, {})
                # make sure pointer-sized words exist: copy lazily by alias record
                for o, (s, v) in sc.items():
                    if src.c <= o and o + s <= src.c + n: dc[dst.c + o - src.c] = (s, v)
                st.g[('lazycopy', dk)] = (dst.c, n, sk, src.c)
            st.cells[dk] = dc
            if self.writes is not None:
                for o in range(dst.c, dst.c + n, 8): self.writes.append(('C', dk, o, 8, Ty('ptr')))
            return
        if z3.is_expr(n) and z3.is_int_value(n) and 0 < n.as_long() <= 64 and 'data' in (dst.k, src.k):
            kt = next((self.data_type(st, q.b) for q in (dst, src) if q.k == 'data' and self.data_type(st, q.b)), None)
            if kt in ('f64', 'ref') and n.as_long() % 8 == 0:
                ty = Ty('ptr') if kt == 'ref' else Ty('double')      # a small struct: word by word
                for v, off in [(self.load(st, src.add(off), ty, mod), off) for off in range(0, n.as_long(), 8)]: self.store(st, dst.add(off), v, ty, mod)
                return
        if dst.k == 'data' and src.k == 'data':
            self.memcpy_data(st, dst, src, n); return
        if z3.is_int_value(n) and n.as_long() == 0: return
        raise ToolLimit(f"memcpy {dst.k} <- {src.k}")
    def data_type(self, st, ref):
        g = st.g.get(('dtype', ref.get_id()))
        if g: return g[0]
        for key in ('i32', 'f64', 'ref', 'i64'):
            pass
        return None
    def memcpy_data(self, st, dst, src, n):
        kt = self.data_type(st, dst.b) or self.data_type(st, src.b)
        if kt is None: raise ToolLimit("memcpy of untyped data")
        size = {'i32': 4, 'f64': 8, 'i8': 1, 'ref': 8, 'i64': 8}[kt]
        _, di = self.elem_index(dst, size, kt); _, si = self.elem_index(src, size, kt)
        cnt = simp(n / size) if size > 1 else n
        # n is usually cnt*size syntactically
        self.oblige(st, n % size == 0, 'memcpy', 'whole elements')
        self.write_guard(st, dst.b)
        dl, sl = self.data_len(st, dst.b, kt, size), self.data_len(st, src.b, kt, size)
        self.oblige(st, z3.Or(cnt <= 0, z3.And(di >= 0, di + cnt <= dl, si >= 0, si + cnt <= sl)), 'bounds', 'memcpy within both objects')
        old, s = self.content(st, kt, dst.b), self.content(st, kt, src.b)
        new = mk(z3.ArraySort(I, sort_of(kt)), 'cpy')
        st.assume(QF(lambda k, new=new, old=old, s=s, di=di, si=si, cnt=cnt: z3.Select(new, k) == z3.If(z3.And(k >= di, k < di + cnt), z3.Select(s, k - di + si), z3.Select(old, k)), doc='memcpy'))
        self.set_content(st, kt, dst.b, new)

    # ------------------------------------------------------------------ integer ops
    def wrap(self, st, v, bits):
        v = simp(v)
        o = self.wrapped.get(v.get_id())
        if o is not None and o[2] >= bits: v = o[3]           # congruent, and simpler
        if z3.is_int_value(v):
            n = v.as_long(); m = n % (1 << bits)
            return z3.IntVal(m - (1 << bits) if m >= 1 << (bits - 1) else m)
        if self.quick_valid(st, z3.And(v >= INTMIN[bits], v <= INTMAX[bits])): return v
        h = 1 << (bits - 1)
        if self.quick_valid(st, z3.And(v >= -3 * h, v < 3 * h)): 
            w = simp(z3.If(v >= h, v - 2 * h, z3.If(v < -h, v + 2 * h, v)))
            self.wrapped[w.get_id()] = (w, None, bits, v)
            if self.quick_valid(st, z3.And(v >= 0, v < 2 * h)): st.g[('unsigned', w.get_id())] = (w, v, bits)
            return w
        m = v % (1 << bits)
        w = simp(z3.If(m >= h, m - 2 * h, m))
        self.wrapped[w.get_id()] = (w, simp(m), bits, v)       # its unsigned reading
        return w
    wrapped = {}
    def unsigned(self, st, v, bits):
        v = simp(v)
        o = st.g.get(('unsigned', v.get_id())) or self.wrapped.get(v.get_id())
        if o is not None and o[2] == bits and o[1] is not None: return o[1]
        if z3.is_int_value(v):
            return z3.IntVal(v.as_long() % (1 << bits))
        if self.quick_valid(st, v >= 0): return v
        return z3.If(v >= 0, v, v + (1 << bits))
    def tobv(self, v, bits):
        if z3.is_bv(v): 
            if v.size() == bits: return v
            raise ToolLimit("bv width")
        v = simp(v)
        if z3.is_int_value(v): return z3.BitVecVal(v.as_long(), bits)
        return z3.Int2BV(v, bits)
    def toint(self, st, v):
        if z3.is_bv(v): 
            return z3.BV2Int(v, is_signed=True)
        return v
    def binop(self, st, ins, mod):
        ty = ins.ty
        a = self.val(st, ins.a[0], ty, mod); b = self.val(st, ins.a[1], ty, mod)
        op = ins.op
        if ty.k == 'double':
            return self.fbin(st, op, a, b)
        bits = ty.a
        if bits == 1:
            a = a if z3.is_bool(a) else a != 0; b = b if z3.is_bool(b) else b != 0
            if op == 'and': return simp(z3.And(a, b))
            if op == 'or': return simp(z3.Or(a, b))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(a, b))
            raise ToolLimit("i1 " + op)
        if isinstance(a, P) or isinstance(b, P): raise ToolLimit("pointer arithmetic through integers")
        if self.bitmode or z3.is_bv(a) or z3.is_bv(b):
            return self.bvbin(st, ins, op, self.tobv(a, bits), self.tobv(b, bits), bits)
        if op in ('add', 'sub', 'mul'):
            r = simp({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: self.mul(a, b)}[op]())
            if z3.is_int_value(r): return self.wrap(st, r, bits)
            if 'nsw' in ins.flags:
                if self.check_overflow:
                    self.oblige(st, z3.And(r >= INTMIN[bits], r <= INTMAX[bits]), 'overflow', f"signed {op} does not overflow: {ins.text.strip()}")
                return r
            return self.wrap(st, r, bits)
        if op in ('sdiv', 'srem'):
            self.oblige(st, b != 0, 'div0', 'divisor is not zero')
            self.oblige(st, z3.Not(z3.And(a == INTMIN[bits], b == -1)), 'overflow', 'division does not overflow')
            if self.quick_valid(st, z3.And(a >= 0, b > 0)) or (self.opaque_mul and not z3.is_int_value(simp(b)) and self.valid(st, z3.And(a >= 0, b > 0))[0]):
                if self.opaque_mul and not z3.is_int_value(simp(b)) and op == 'sdiv': return DIV(simp(a), simp(b))
                return simp(a / b) if op == 'sdiv' else simp(a % b)
            ab, bb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
            q = ab / bb
            q = z3.If((a >= 0) == (b >= 0), q, -q)
            return q if op == 'sdiv' else a - q * b
        if op in ('udiv', 'urem'):
            self.oblige(st, b != 0, 'div0', 'divisor is not zero')
            ua, ub = self.unsigned(st, a, bits), self.unsigned(st, b, bits)
            return self.wrap(st, ua / ub if op == 'udiv' else ua % ub, bits)
        bc = simp(b)
        ac = simp(a)
        if z3.is_int_value(ac) and z3.is_int_value(bc):
            x, y = ac.as_long() % (1 << bits), bc.as_long() % (1 << bits)
            sx_ = ac.as_long()
            r = {'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sx_ >> y}[op]()
            return self.wrap(st, z3.IntVal(r), bits)
        if op == 'and' and z3.is_int_value(bc):
            m = bc.as_long()
            if m >= 0 and (m & (m + 1)) == 0: return a % (m + 1)
        if op == 'xor' and z3.is_int_value(bc) and bc.as_long() == -1: return -a - 1
        if op == 'shl' and z3.is_int_value(bc):
            r = a * (1 << bc.as_long())
            if 'nsw' in ins.flags:
                self.oblige(st, z3.And(r >= INTMIN[bits], r <= INTMAX[bits]), 'overflow', 'shl does not overflow'); return r
            return self.wrap(st, r, bits)
        if op == 'lshr' and z3.is_int_value(bc): return self.unsigned(st, a, bits) / (1 << bc.as_long())
        if op == 'ashr' and z3.is_int_value(bc): return a / (1 << bc.as_long())
        if op == 'or' and 'disjoint' in ins.flags: return self.wrap(st, a + b, bits)
        if op == 'or':
            # disjoint bits: a multiple of 2^k and a number below 2^k
            for p, q in ((a, b), (b, a)):
                o = self.wrapped.get(p.get_id())
                src = o[3] if o is not None and o[2] == bits else p
                if z3.is_mul(src) and z3.is_int_value(src.arg(0)) and src.arg(0).as_long() > 1:
                    c = src.arg(0).as_long()
                    if c & (c - 1) == 0 and self.quick_valid(st, z3.And(q >= 0, q < c)): return self.wrap(st, src + q, bits)
        if op in ('or', 'and', 'xor'):
            # 0/1 operands?
            if self.quick_valid(st, z3.And(a >= 0, a <= 1, b >= 0, b <= 1)):
                p, q = a == 1, b == 1
                r = {'or': z3.Or, 'and': z3.And, 'xor': z3.Xor}[op](p, q)
                return z3.If(r, z3.IntVal(1), z3.IntVal(0))
            if op == 'or' and z3.is_int_value(bc): pass
        A, Bv = self.tobv(a, bits), self.tobv(b, bits)
        r = self.bvbin(st, ins, op, A, Bv, bits)
        return z3.BV2Int(r, is_signed=True)
    def bvbin(self, st, ins, op, a, b, bits):
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            self.oblige(st, b != 0, 'div0', 'divisor is not zero')
        if op in ('sdiv', 'srem'):
            self.oblige(st, z3.Not(z3.And(a == z3.BitVecVal(1 << (bits-1), bits), b == z3.BitVecVal(-1, bits))), 'overflow', 'division does not overflow')
        if op in ('add', 'sub', 'mul') and 'nsw' in ins.flags and self.check_overflow:
            if op == 'add': ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            elif op == 'sub': ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            else: ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            self.oblige(st, ok, 'overflow', f"signed {op} does not overflow: {ins.text.strip()}")
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, z3.ULT(b, bits), 'shift', 'shift amount within width')
        return simp({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b,
                'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
                'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b)}[op]())
    FB = {}
    def fbin(self, st, op, a, b):
        if op not in self.FB: self.FB[op] = z3.Function(op, BV64, BV64, BV64)
        return self.FB[op](a, b)
    def icmp(self, st, ins, mod):
        ty, pred = ins.ty, ins.x
        a = self.val(st, ins.a[0], ty, mod); b = self.val(st, ins.a[1], ty, mod)
        if ty.k == 'ptr':
            e = self.ptr_eq(st, a, b)
            if pred == 'eq': return e
            if pred == 'ne': return simp(z3.Not(e))
            # ordering of data pointers on the same object
            if a.same_base(b):
                x = z3.Sum([s * t for s, t in a.t] + [z3.IntVal(a.c)]); y = z3.Sum([s * t for s, t in b.t] + [z3.IntVal(b.c)])
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
            raise ToolLimit("pointer ordering")
        if ty.a == 1:
            if pred == 'eq': return simp(a == b)
            if pred == 'ne': return simp(a != b)
        if isinstance(a, P) or isinstance(b, P): raise ToolLimit("pointer compared as integer")
        if z3.is_bv(a) or z3.is_bv(b):
            a, b = self.tobv(a, ty.a), self.tobv(b, ty.a)
            return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                    'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]())
        if pred[0] == 'u' :
            a, b = self.unsigned(st, a, ty.a), self.unsigned(st, b, ty.a)
        if self.cmps is not None: self.cmps.append((a, b))
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b,
                'ult': lambda: a < b, 'ule': lambda: a <= b, 'ugt': lambda: a > b, 'uge': lambda: a >= b}[pred]())
    def ptr_eq(self, st, a, b):
        if a.k == 'null' and b.k == 'null': return z3.BoolVal(True)
        for p, q in ((a, b), (b, a)):
            if q.k == 'null':
                if p.k in ('data', 'cell', 'glob', 'func'): return z3.BoolVal(False)
                if p.k == 'sexp':
                    if p.c or p.t: return z3.BoolVal(False)
                    return simp(p.b == NULLREF)
        if a.k == 'sexp' and b.k == 'sexp' and not (a.c or b.c or a.t or b.t):
            if self.known_distinct(st, a.b, b.b): return z3.BoolVal(False)
            return simp(a.b == b.b)
        if a.k == 'func' and b.k == 'func': return z3.BoolVal(a.b == b.b)
        if a.same_base(b):
            x = z3.Sum([s * t for s, t in a.t] + [z3.IntVal(a.c)]); y = z3.Sum([s * t for s, t in b.t] + [z3.IntVal(b.c)])
            return simp(x == y)
        if a.k == 'data' and b.k == 'data':
            if self.known_distinct(st, a.b, b.b): return z3.BoolVal(False)
            x = z3.Sum([s * t for s, t in a.t] + [z3.IntVal(a.c)]); y = z3.Sum([s * t for s, t in b.t] + [z3.IntVal(b.c)])
            if not a.t and not b.t and a.c == b.c: return simp(a.b == b.b)
            raise ToolLimit("data pointer equality")
        kinds = {a.k, b.k}
        if kinds in ({'cell', 'data'}, {'cell', 'sexp'}, {'cell', 'glob'}, {'data', 'glob'}, {'func', 'cell'}): return z3.BoolVal(False)
        if kinds == {'sexp', 'glob'} or kinds == {'sexp', 'func'} or kinds == {'sexp', 'data'}:
            return mk(B, 'peq')
        raise ToolLimit("pointer equality " + repr(a) + repr(b))
    def numeric_const(self, b):
        b = simp(b)
        if z3.is_bv_value(b): return b.as_long()
        return None
    def is_i2d(self, b): return z3.is_app(b) and b.decl().name() == 'i2d'
    def real(self, st, b):
        """real value of a double; constants and converted ints are exact"""
        n = self.numeric_const(b)
        if n is not None:
            f = dbl_fraction(n)
            if f is None: return {0x7ff0000000000000: z3.RealVal(2**1024), 0xfff0000000000000: -z3.RealVal(2**1024)}.get(n, z3.RealVal(0))
            return z3.Q(f.numerator, f.denominator)
        if self.is_i2d(b): return z3.ToReal(b.arg(0))
        # finite values are bounded by infinity; -0/+0 both have value 0
        st.assume(z3.Implies(d_iszero(b), VAL(b) == 0))
        st.assume(z3.And(VAL(b) <= z3.RealVal(2**1024), VAL(b) >= -z3.RealVal(2**1024)))
        st.assume((VAL(b) == z3.RealVal(2**1024)) == (b == d_const(0x7ff0000000000000)))
        st.assume((VAL(b) == -z3.RealVal(2**1024)) == (b == d_const(0xfff0000000000000)))
        st.assume(z3.Implies(z3.Not(d_isnan(b)), z3.And(z3.Implies(VAL(b) == 0, d_iszero(b)))))
        return VAL(b)
    def nan(self, b):
        if self.is_i2d(b): return z3.BoolVal(False)
        return simp(d_isnan(b))
    def fcmp(self, st, ins, mod):
        pred = ins.x
        a = self.val(st, ins.a[0], ins.ty, mod); b = self.val(st, ins.a[1], ins.ty, mod)
        em = self.exact_product_cmp(a, b)
        if em is not None:
            x, y = em
            return simp({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]) if pred not in ('uno', 'ord', 'true', 'false') else z3.BoolVal(pred in ('ord', 'true'))
        na, nb = self.nan(a), self.nan(b)
        uno = z3.Or(na, nb)
        if pred == 'uno': return simp(uno)
        if pred == 'ord': return simp(z3.Not(uno))
        if pred == 'true': return z3.BoolVal(True)
        if pred == 'false': return z3.BoolVal(False)
        numeric = self.is_i2d(a) or self.is_i2d(b) or (self.use_real and (self.numeric_const(a) is not None or self.numeric_const(b) is not None)) or self.is_fb(a) or self.is_fb(b)
        if numeric:
            x, y = self.real(st, a), self.real(st, b)
            eq, lt, gt = x == y, x < y, x > y
        else:
            eq, lt, gt = d_eq(a, b), d_lt(a, b), d_lt(b, a)
        base = {'eq': eq, 'ne': z3.Not(eq), 'lt': lt, 'le': z3.Or(lt, eq), 'gt': gt, 'ge': z3.Or(gt, eq)}[pred[1:]]
        if pred[0] == 'o': return simp(z3.And(z3.Not(uno), base))
        return simp(z3.Or(uno, base))
    def exact_product_cmp(self, a, b):
        """comparison of (double)i * (double)j with an integer constant C, |C| + 1 < 2^53: rounding is monotone and
        C and its neighbours are representable, so the outcome is that of the exact integer comparison"""
        def prod(x): return self.mul(x.arg(0).arg(0), x.arg(1).arg(0)) if z3.is_app(x) and x.decl().name() == 'fmul' and self.is_i2d(x.arg(0)) and self.is_i2d(x.arg(1)) else None
        def const(x):
            n = self.numeric_const(x)
            if n is None: return None
            f = dbl_fraction(n)
            return z3.IntVal(f.numerator) if f is not None and f.denominator == 1 and abs(f.numerator) + 1 < 2**53 else None
        pa, pb = prod(a), prod(b)
        if pa is not None and const(b) is not None: return pa, const(b)
        if pb is not None and const(a) is not None: return const(a), pb
        return None
    opaque_mul = False
    def mul(self, a, b):
        """product; with opaque_mul the product of two unknowns is the uninterpreted function `product`
        (whatever a spec assumes about it is proved about the real product as a lemma)"""
        a, b = simp(a), simp(b)
        if not self.opaque_mul or z3.is_int_value(a) or z3.is_int_value(b): return a * b
        if a.sexpr() > b.sexpr(): a, b = b, a
        return MUL(a, b)
    use_real = True
    skip_ints = ()      # loop variables no invariant candidate speaks about
    skip_frames = ()    # name prefixes of objects without frame candidates
    def is_fb(self, a): return z3.is_app(a) and a.decl().name() in ('fadd', 'fsub', 'fmul', 'fdiv')
    def cast(self, st, ins, mod):
        op, sty, dty = ins.op, ins.x, ins.ty
        a = self.val(st, ins.a[0], sty, mod)
        if op == 'bitcast':
            if sty.k == 'double' and dty.k == 'i': return a       # stays a bit-vector
            if sty.k == 'i' and dty.k == 'double':
                if z3.is_bv(a): return a
                return z3.Int2BV(a, 64)
            return a
        if op in ('zext', 'sext'):
            if sty.a == 1:
                a = a if z3.is_bool(a) else a != 0
                one = 1 if op == 'zext' else -1
                if self.bitmode: return simp(z3.If(a, z3.BitVecVal(one, dty.a), z3.BitVecVal(0, dty.a)))
                return simp(z3.If(a, z3.IntVal(one), z3.IntVal(0)))
            if z3.is_bv(a):
                d = dty.a - a.size()
                return simp(z3.ZeroExt(d, a) if op == 'zext' else z3.SignExt(d, a))
            if op == 'sext': return a
            return self.unsigned(st, a, sty.a)
        if op == 'trunc':
            if z3.is_bv(a):
                r = z3.Extract(dty.a - 1, 0, a)
                if dty.a == 1: return simp(r == 1)
                return simp(r)
            if dty.a == 1:
                a = simp(a)
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(a.arg(1)) and z3.is_int_value(a.arg(2)):
                    return simp(z3.If(a.arg(0), z3.BoolVal(a.arg(1).as_long() % 2 == 1), z3.BoolVal(a.arg(2).as_long() % 2 == 1)))
                if self.quick_valid(st, z3.And(a >= 0, a <= 1)): return simp(a == 1)
                return simp(a % 2 == 1)
            return self.wrap(st, a, dty.a)
        if op == 'sitofp':
            if z3.is_bv(a): 
                return z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), a, z3.Float64()))
            return self.i2d(st, a, sty.a)
        if op == 'uitofp':
            return self.i2d(st, self.unsigned(st, a, sty.a), sty.a)
        if op in ('fptosi', 'fptoui'):
            lo, hi = (INTMIN[dty.a], INTMAX[dty.a]) if op == 'fptosi' else (0, 2**dty.a - 1)
            if self.bitmode:
                fp = z3.fpBVToFP(a, z3.Float64())
                return z3.fpToSBV(z3.RTZ(), fp, z3.BitVecSort(dty.a))
            x = self.real(st, a)
            n = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            if self.f2i_checked:
                self.oblige(st, z3.And(z3.Not(self.nan(a)), n >= lo, n <= hi), 'f2i', 'conversion to integer is in range')
                return n if op == 'fptosi' else self.wrap(st, n, dty.a)
            if op == 'fptoui': raise ToolLimit('unchecked conversion to unsigned')
            if self.f2i_x86:
                # the conversion instruction yields the smallest integer when the value is out of range
                return z3.If(z3.And(z3.Not(self.nan(a)), n >= lo, n <= hi), n, z3.IntVal(INTMIN[dty.a]))
            r = mk(I, 'f2i'); self.rng(st, r, dty.a)
            st.assume(z3.Implies(z3.And(z3.Not(self.nan(a)), n >= lo, n <= hi), r == n))
            return r
        if op == 'ptrtoint':
            raise ToolLimit("ptrtoint")
        raise ToolLimit("cast " + op)
    f2i_checked, f2i_x86 = True, False
    def i2d(self, st, a, bits):
        a = simp(a)
        if z3.is_int_value(a):
            import struct
            v = a.as_long()
            if abs(v) <= 2**53: return d_const(struct.unpack('<Q', struct.pack('<d', float(v)))[0])
        if bits > 32:
            self.oblige(st, z3.And(a <= 2**53, a >= -2**53), 'i2d', 'integer is exactly representable as a double')
        r = I2D(a)
        st.assume(z3.Not(d_isnan(r)), VAL(r) == z3.ToReal(a))
        return r

    # ------------------------------------------------------------------ control
    def run_function(self, f, args, st):
        """-> list of outcomes ('ret', st, value) / ('err', st, why)"""
        f.mod.parse_body(f)
        if st.depth > 40: raise ToolLimit("call depth")
        saved = st.env
        env = {}
        for (ty, pn, bv), a in zip(f.params, args): env[pn if pn is not None else str(len(env))] = a
        n = 0
        for (ty, pn, bv) in f.params:
            pass
        st.env = env
        st.depth += 1
        self.callstack.append(f.name)
        st.trace = st.trace + (f"->{f.name}",)
        try:
            outs = self.exec_block(f, f.entry, None, st, None)
        finally:
            self.callstack.pop()
        res = []
        for o in outs:
            if o[0] == 'ret':
                o[1].env = dict(saved); o[1].depth = st.depth - 1 if False else o[1].depth - 1
            res.append(o)
        return res

    def exec_block(self, f, bname, prev, st, loopctx):
        """loopctx: list of active cut loops [(header, blocks, backlist, mode)] innermost last for this frame"""
        loopctx = loopctx or ()
        work = [(bname, prev, st)]
        outs = []
        while work:
            b, prev, st = work.pop()
            # leaving / closing the innermost cut loop
            if loopctx:
                hdr, blocks, back, mode = loopctx[-1]
                if b == hdr and prev is not None and prev != '$cut':
                    # back edge
                    self.eval_phis(f, b, prev, st, into=True)
                    back.append(st); continue
                if b not in blocks:
                    if mode == 'body':
                        continue
                    outs += self.exec_block(f, b, prev, st, loopctx[:-1]) if False else [('exit', b, prev, st)]
                    continue
            if b in f.loops and prev != '$cut':
                outs += self.exec_loop(f, b, prev, st, loopctx)
                continue
            if prev != '$cut': self.eval_phis(f, b, prev, st)
            for o in self.exec_instrs(f, b, 0, st):
                if o[0] == 'goto':
                    work.append((o[1], b, o[2]))
                else:
                    outs.append(o)
        # 'exit' outcomes continue in the caller of exec_block (exec_loop)
        return outs

    def eval_phis(self, f, b, prev, st, into=False):
        vals = {}
        for ins in f.blocks[b]:
            if ins.op != 'phi': break
            for v, pb in ins.a:
                if pb == prev:
                    vals[ins.res] = self.val(st, v, ins.ty, f.mod); break
            else: raise IRError(f"phi without edge {prev}->{b} in {f.name}")
        st.env.update(vals)

    def exec_instrs(self, f, b, i, st):
        """executes the block from instruction i; returns outcomes or ('goto', block, state)"""
        mod = f.mod
        ins_list = f.blocks[b]
        env = st.env
        n = len(ins_list)
        while i < n:
            ins = ins_list[i]
            op = ins.op
            if op == 'phi': i += 1; continue
            if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                st.env[ins.res] = self.binop(st, ins, mod)
            elif op == 'icmp': st.env[ins.res] = self.icmp(st, ins, mod)
            elif op == 'fcmp': st.env[ins.res] = self.fcmp(st, ins, mod)
            elif op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc'):
                st.env[ins.res] = self.cast(st, ins, mod)
            elif op == 'load':
                p = self.val(st, ins.a[0], Ty('ptr'), mod)
                st.env[ins.res] = self.load(st, p, ins.ty, mod)
            elif op == 'store':
                v = self.val(st, ins.a[0], ins.ty, mod); p = self.val(st, ins.a[1], Ty('ptr'), mod)
                self.store(st, p, v, ins.ty, mod)
            elif op == 'gep':
                base = self.val(st, ins.a[0], Ty('ptr'), mod)
                st.env[ins.res] = self.gep(st, base, ins.ty, ins.a[1], mod)
            elif op == 'alloca':
                st.env[ins.res] = P('cell', fresh_name('alloca_' + f.name + '_' + ins.res))
            elif op == 'select':
                c = self.val(st, ins.a[0], Ty('i', 1), mod)
                a = self.val(st, ins.a[1], ins.ty, mod); bb = self.val(st, ins.a[2], ins.ty, mod)
                c = simp(c)
                if z3.is_true(c): st.env[ins.res] = a
                elif z3.is_false(c): st.env[ins.res] = bb
                elif ins.ty.k == 'ptr':
                    if a.k == 'sexp' and bb.k == 'sexp' and not (a.t or bb.t or a.c or bb.c) :
                        st.env[ins.res] = sx(z3.If(c, a.b, bb.b))
                        if z3.eq(a.b, bb.b): st.env[ins.res] = a
                    elif a.k == bb.k and a.same_base(bb) and a.c == bb.c and not a.t and not bb.t:
                        st.env[ins.res] = a
                    else:
                        outs = []
                        for cond, v in ((c, a), (z3.Not(c), bb)):
                            if self.feasible(st, cond):
                                s2 = st.fork(); s2.assume(simp(cond)); s2.env[ins.res] = v
                                outs += self.exec_instrs(f, b, i + 1, s2)
                        return outs
                else:
                    if ins.ty.k == 'i' and ins.ty.a == 1:
                        st.env[ins.res] = simp(z3.If(c, a, bb))
                    else:
                        if z3.is_bv(a) != z3.is_bv(bb):
                            w = (a if z3.is_bv(a) else bb).size()
                            a, bb = self.tobv(a, w), self.tobv(bb, w)
                        st.env[ins.res] = z3.If(c, a, bb)
            elif op == 'freeze':
                st.env[ins.res] = self.val(st, ins.a[0], ins.ty, mod)
            elif op == 'extractvalue':
                v = self.val(st, ins.a[0], ins.ty, mod)
                for k in ins.a[1]: v = v[k]
                st.env[ins.res] = v
            elif op == 'insertvalue':
                agg = self.val(st, ins.a[0], ins.ty, mod)
                e = self.val(st, ins.a[1], ins.a[3], mod)
                k, = ins.a[2]
                nf = len(mod.fields(ins.ty))
                agg = list(agg) if agg is not None else [None] * nf
                agg[k] = e
                st.env[ins.res] = tuple(agg)
            elif op == 'call':
                res = self.call(f, ins, st)
                if res is None: i += 1; continue
                outs = []
                for r in res:
                    if r[0] == 'ret':
                        if ins.res is not None: r[1].env[ins.res] = r[2]
                    else:
                        outs.append(r); continue
                    if len(res) == 1:
                        st = r[1]
                    else:
                        outs += self.exec_instrs(f, b, i + 1, r[1])
                if len(res) == 1 and res[0][0] == 'ret':
                    i += 1; continue
                return outs
            elif op == 'br':
                return [('goto', ins.a[0], st)]
            elif op == 'condbr':
                c = simp(self.val(st, ins.a[0], Ty('i', 1), mod))
                if z3.is_true(c): return [('goto', ins.a[1], st)]
                if z3.is_false(c): return [('goto', ins.a[2], st)]
                outs = []
                ft, ff = self.feasible(st, c), None
                ff = self.feasible(st, z3.Not(c)) if ft else True
                if ft and ff:
                    self.paths += 1
                    if self.paths > self.max_paths: raise ToolLimit("too many paths")
                if ff:
                    s2 = st.fork() if ft else st
                    s2.assume(simp(z3.Not(c))); s2.trace = s2.trace + (ins.a[2],)
                    outs.append(('goto', ins.a[2], s2))
                if ft:
                    st.assume(c); st.trace = st.trace + (ins.a[1],)
                    outs.append(('goto', ins.a[1], st))
                return outs
            elif op == 'switch':
                v = self.val(st, ins.a[0], ins.ty, mod)
                groups = {}
                for cv, lb in ins.a[2]: groups.setdefault(lb, []).append(cv)
                outs = []
                neg = []
                isbv = z3.is_bv(v)
                K = (lambda x: z3.BitVecVal(x, ins.ty.a)) if isbv else (lambda x: z3.IntVal(x))
                allv = [cv for cv, _ in ins.a[2]]
                for lb, cvs in groups.items():
                    c = simp(z3.Or(*[v == K(x) for x in cvs]))
                    if lb == ins.a[1]: continue
                    if self.feasible(st, c):
                        s2 = st.fork(); s2.assume(c); s2.trace = s2.trace + (lb,)
                        outs.append(('goto', lb, s2))
                dflt_vals = groups.get(ins.a[1], [])
                c = simp(z3.And(*[v != K(x) for x in allv if x not in dflt_vals])) if len(allv) > len(dflt_vals) else z3.BoolVal(True)
                if self.feasible(st, c):
                    s2 = st.fork(); s2.assume(c); s2.trace = s2.trace + (ins.a[1],)
                    outs.append(('goto', ins.a[1], s2))
                self.paths += max(0, len(outs) - 1)
                if self.paths > self.max_paths: raise ToolLimit("too many paths")
                return outs
            elif op == 'ret':
                v = self.val(st, ins.a[0], ins.ty, mod) if ins.a else None
                return [('ret', st, v)]
            elif op == 'unreachable':
                return [('err', st, 'unreachable reached in ' + f.name)]
            else:
                raise ToolLimit("instruction " + op)
            i += 1
        raise IRError("block fell through")

    # ------------------------------------------------------------------ calls
    def call(self, f, ins, st):
        mod = f.mod
        cal, cargs = ins.a
        args = []
        for ty, v, bv in cargs:
            if ty.k == 'metadata': args.append(None); continue
            a = self.val(st, v, ty, mod)
            if bv is not None and bv[0] == 'byval':
                # pass a copy
                n = mod.size(bv[1])
                q = P('cell', fresh_name('byval'))
                self.memcpy(st, q, a, z3.IntVal(n), mod)
                a = q
            args.append(a)
        name = None
        if cal[0] == 'glob': name = cal[1]
        elif cal[0] == 'loc':
            fp = st.env[cal[1]]
            if fp.k == 'func': name = fp.b
            elif ins.x: 
                return [('err', st, 'noreturn call')]
            else:
                h = self.contracts.get('*indirect*')
                gn = fp.b.decl().name() if fp.k == 'sexp' and z3.is_app(fp.b) and fp.b.num_args() == 0 else ''
                gn = gn[5:-2] if gn.startswith('glob_') and gn.endswith('_0') else None
                if gn is not None and gn.split('@')[0] in self.contracts: name = gn.split('@')[0]     # a callable looked up at load time
                elif h is not None: return h(self, st, args, fp, ins, mod)
                else: raise ToolLimit("indirect call: " + ins.text.strip() + " through " + repr(fp))
        if callable(name):
            self.used_contracts.add(getattr(name, '__name__', 'abs'))
            return self.norm(name(self, st, args), st)
        return self.call_named(name, args, st, ins, mod)
    def norm(self, r, st):
        if isinstance(r, list): return r
        return [('ret', st, r)]
    def call_named(self, name, args, st, ins=None, mod=None):
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            return self.norm(c(self, st, args), st)
        if ins is not None and ins.x: return [('err', st, name)]
        fn = None
        if mod is not None and name in mod.funcs: fn = mod.funcs[name]
        elif name in self.fns: fn = self.fns[name]
        else:
            # a static function of another file, reached through a function pointer
            c = [m.funcs[name] for m in self.mods if name in m.funcs]
            if len(c) == 1: fn = c[0]
        if fn is not None:
            if name in self.callstack and self.callstack.count(name) > 3: raise ToolLimit("recursion in " + name)
            self.inlined.add(name)
            return self.run_function(fn, args, st)
        if mod is not None and name in mod.declared and mod.declared[name].noreturn: return [('err', st, name)]
        raise ToolLimit(f"no contract and no body for {name}")

    # ------------------------------------------------------------------ loops
    def exec_loop(self, f, hdr, prev, st, loopctx):
        blocks = f.loops[hdr]
        mod = f.mod
        self.eval_phis(f, hdr, prev, st)
        phis = [ins for ins in f.blocks[hdr] if ins.op == 'phi']
        entry = st
        key = (tuple(self.callstack), hdr)
        # ---- 1. modification set
        cut = next(_cnt)
        mods = []
        cmps = []
        def run_body(assume_cands, mode, track):
            s = self.havoc(entry, f, phis, mods, ptr_info)
            hs = s.fork()
            for nm, c in assume_cands:
                x = c(LS(self, s))
                if x is None: continue
                for y in (x if isinstance(x, list) else [x]): s.assume(y)
            back = []
            ctx = loopctx + ((hdr, blocks, back, mode),)
            outs = self.exec_block(f, hdr, '$cut', s, ctx)
            return hs, back, outs
        ptr_info = {}
        # survivors of inner loops are remembered only between the rounds of one Houdini run of this
        # loop, during which the assumptions can only get weaker
        memo_out, self.loop_memo = self.loop_memo, {}
        for rnd in range(6):
            osv = (self.writes, self.cmps)
            self.writes, self.cmps = [], []
            self.quiet += 1
            try:
                hs, back, _ = run_body([], 'body', True)
            finally:
                self.quiet -= 1
                w, cm = self.writes, self.cmps
                self.writes, self.cmps = osv
            if osv[0] is not None: osv[0].extend(w)
            new = self.merge_mods(mods, w, cut)
            # pointer phi bases
            ch = False
            for ins in phis:
                if ins.ty.k == 'ptr':
                    v0 = entry.env[ins.res]
                    for bs in back:
                        v1 = bs.env[ins.res]
                        hv = hs.env[ins.res]
                        kind = self.ptr_kind(v0, v1, hv)
                        if ptr_info.get(ins.res, 'same') != kind and self.rank(kind) > self.rank(ptr_info.get(ins.res, 'same')):
                            ptr_info[ins.res] = kind; ch = True
            cmps = cm
            if not new and not ch: break
        else:
            raise ToolLimit("modification set of loop did not stabilise in " + f.name)
        # ---- 2. candidates
        lc = LoopCtx(self, f, hdr, phis, entry, mods, cmps, back, hs, cut)
        cands = lc.candidates()
        memo = memo_out.get(key)
        self.loop_memo = {}
        if memo is not None and self.quiet: 
            cands = [c for c in cands if c[0] in memo]
        hint = self.hints.get(f.name + ':' + hdr) if self.hints is not None else None
        if hint is not None: cands = [c for c in cands if c[0] in hint]
        self.houdini_stats[0] += len(cands)
        cands = self.filter_cands(cands, [entry])
        # ---- 3. Houdini
        rounds = 0
        while True:
            rounds += 1
            self.quiet += 1
            osv = (self.writes, self.cmps); self.writes, self.cmps = None, None
            try:
                hs, back, _ = run_body(cands, 'body', False)
            finally:
                self.quiet -= 1
                self.writes, self.cmps = osv
            keep = self.filter_cands(cands, back)
            if len(keep) == len(cands): break
            cands = keep
            if rounds > 25: raise ToolLimit("Houdini did not converge")
        self.loop_memo = memo_out
        self.loop_memo[key] = {c[0] for c in cands}
        self.houdini_stats[1] += len(cands)
        self.loops_done.setdefault(f.name + ':' + hdr, set()).update(c[0] for c in cands)
        nback = len(back)
        # ---- 4. final pass: obligations in the body, continue at the exits.  The candidates were
        # just shown to hold on entry and (last round above) to be preserved on every back edge.
        hs, back, outs = run_body(cands, 'full', False)
        if not self.quiet:
            self.obligs.append(Oblig(f.name, 'invariant', f"loop {hdr}: {len(cands)} invariants hold initially", True))
            self.obligs.append(Oblig(f.name, 'invariant', f"loop {hdr}: {len(cands)} invariants preserved on {nback} back edges", True))
        res = []
        for o in outs:
            if o[0] == 'exit':
                _, b, pv, s = o
                res += self.exec_block(f, b, pv, s, loopctx)
            else: res.append(o)
        return res
    def rank(self, k): return {'same': 0, 'off': 1, 'ref': 2, 'dataref': 2}[k]
    def ptr_kind(self, v0, v1, hv):
        if v0.k == 'sexp' or v1.k == 'sexp' or v0.k == 'null' or v1.k == 'null':
            if v0.k == v1.k and v0.same_base(v1): return 'same'
            if v0.k in ('data', 'cell') or v1.k in ('data', 'cell'): raise ToolLimit("pointer phi mixes kinds")
            if v1.k == 'sexp' and hv.k == 'sexp' and v1.same_base(hv) and v0.same_base(hv): return 'same'
            return 'ref'
        if v0.k == v1.k and v0.same_base(v1):
            if v0.c == v1.c and len(v0.t) == len(v1.t) and all(s == s2 and z3.eq(simp(a), simp(b)) for (s, a), (s2, b) in zip(v0.t, v1.t)): return 'same'
            return 'off'
        if v0.k == 'data' and v1.k == 'data': return 'dataref'
        raise ToolLimit("pointer phi bases " + repr(v0) + repr(v1))

    def merge_mods(self, mods, w, cut):
        changed = False
        have = {self.mkey(m) for m in mods}
        for e in w:
            if e[0] == 'H':
                ref = e[2]
                if max_stamp(ref) > cut:
                    # object not fixed before the loop: either allocated inside (no frame needed) or unknown
                    e = ('Hany', e[1])
                    # allocated inside the loop body itself?
                    nm = ref.decl().name() if z3.is_app(ref) and ref.num_args() == 0 else ''
                    if nm.startswith('new_'): continue
            k = self.mkey(e)
            if k not in have:
                if e[0] == 'C':
                    # cell regions created inside the loop are dead at the header
                    if isinstance(e[1], str) and stamp_of_name(e[1]) > cut: continue
                have.add(k); mods.append(e); changed = True
        return changed
    def mkey(self, e):
        if e[0] == 'H': return ('H', e[1], e[2].get_id())
        if e[0] == 'Hany': return e
        if e[0] == 'C': return ('C', e[1], e[2])
        return e[:3]

    def havoc(self, entry, f, phis, mods, ptr_info):
        s = entry.fork()
        for ins in phis:
            if ins.ty.k == 'ptr':
                v0 = entry.env[ins.res]
                kind = ptr_info.get(ins.res, 'same')
                if kind == 'same': continue
                if kind == 'off':
                    sc = self.ptr_scale(f, ins, v0)
                    d = self.rng(s, mk(I, 'off_' + ins.res), 64)
                    s.env[ins.res] = P(v0.k, v0.b, v0.c, v0.t).add(0, ((sc, d),))
                    s.env['$off_' + ins.res] = d
                elif kind == 'ref': s.env[ins.res] = sx(mk(Ref, ins.res))
                elif kind == 'dataref':
                    d = self.rng(s, mk(I, 'off_' + ins.res), 64)
                    s.env[ins.res] = P('data', mk(Ref, ins.res)).add(0, ((self.ptr_scale(f, ins, v0), d),))
            else:
                s.env[ins.res] = self.fresh(s, ins.ty, ins.res)
        for m in mods:
            if m[0] == 'H':
                self.set_content_quiet(s, m[1], m[2], mk(z3.ArraySort(I, sort_of(m[1])), 'A'))
            elif m[0] == 'Hany':
                s.H[m[1]] = mk(z3.ArraySort(Ref, z3.ArraySort(I, sort_of(m[1]))), 'H')
            elif m[0] == 'C':
                _, rk, off, size, ty = m
                cells = dict(s.cells.get(rk, {}))
                old = cells.get(off)
                if old is not None and isinstance(old[1], P) and old[1].k in ('data',):
                    # pointer cell: keep the base if the loop keeps it (checked as an obligation at back edges by ptr candidates)
                    cells[off] = (size, self.fresh(s, Ty('ptr'), 'cellp'))
                else:
                    cells[off] = (size, self.fresh(s, ty, f'cell{off}'))
                s.cells[rk] = cells
            elif m[0] == 'G':
                if m[1] == '$ghost':
                    s.g[('glob', m[1], m[2])] = mk(m[3], 'ghost')
                else: s.g[('glob', m[1], m[2])] = self.fresh(s, m[3], 'glob')
        return s
    def ptr_scale(self, f, ins, v0):
        # element size from the gep that advances it
        for b in f.blocks.values():
            for x in b:
                if x.op == 'gep' and x.a[0] == ('loc', ins.res): return f.mod.size(x.ty)
        return 1
    def set_content_quiet(self, s, key, ref, arr):
        w, self.writes = self.writes, None
        self.set_content(s, key, ref, arr)
        self.writes = w

    def filter_cands(self, cands, states):
        """drop every candidate that is not implied by all the given states"""
        cur = list(cands)
        for st in states:
            cur = self.filter_one(cur, st)
        return cur
    def filter_one(self, cands, st):
        ls = LS(self, st)
        k1, k2 = mk(I, 'k'), mk(I, 'k')
        items = []
        for nm, c in cands:
            x = c(ls)
            if x is None: continue
            xs = x if isinstance(x, list) else [x]
            fs, terms = [], []
            for y in xs:
                if isinstance(y, QF):
                    fs.append(y.inst(*[k1, k2][:y.n]))
                else: fs.append(y if z3.is_expr(y) else z3.BoolVal(y))
            if not fs: items.append(((nm, c), None)); continue
            g = simp(z3.And(*fs) if len(fs) > 1 else fs[0])
            if z3.is_true(g): items.append(((nm, c), None)); continue
            items.append(((nm, c), g))
        live = [i for i in range(len(items)) if items[i][1] is not None]
        dead = set()
        if not live: return [it[0] for it in items]
        # one solver with instances for the conjunction of all goals
        goals = [items[i][1] for i in live]
        ground = list(st.pc)
        gf = [x for x in self.global_facts if not isinstance(x, QF)]
        qf = st.q + [x for x in self.global_facts if isinstance(x, QF)] + self.defs
        t0 = time.time()
        if self.deadline and t0 > self.deadline: raise ToolLimit("time budget exhausted")
        inst = self.insts(ground + goals + gf, qf, (k1, k2))
        s = z3.Solver(); s.set('timeout', self.timeout)
        s.add(*gf, *ground, *inst)
        acts = {}
        while live:
            s.push()
            s.add(z3.Or(*[z3.Not(items[i][1]) for i in live]))
            r = s.check()
            self.queries += 1
            if r == z3.unsat: s.pop(); break
            if r == z3.sat:
                m = s.model()
                drop = [i for i in live if z3.is_false(m.eval(items[i][1], model_completion=True))]
                if not drop: drop = list(live)
                if DBG:
                    for i in drop:
                        if DBG in items[i][0][0]: print('DROP', self.cur(), items[i][0][0], {str(d): str(m[d]) for d in m.decls() if d.arity() == 0 and d.range() == I}, items[i][1], ' '.join(st.trace[-6:]))
                s.pop()
            else:
                s.pop()
                # undecided together: decide one by one, each with its own instances
                drop = []
                for i in live:
                    r1, _ = self.query(ground + [z3.Not(items[i][1])], st.q, timeout=3000, extra=(k1, k2))
                    if r1 != z3.unsat:
                        drop.append(i)
                        if DBG and DBG in items[i][0][0]: print('UNDECIDED', self.cur(), items[i][0][0], r1, items[i][1])
                dead |= set(drop); live = []
                break
            dead |= set(drop)
            live = [i for i in live if i not in set(drop)]
        self.solver_time += time.time() - t0
        return [it[0] for i, it in enumerate(items) if i not in dead]

STAMP_RE = re.compile(r'!\d+')
DBG = os.environ.get('VERIF_DBG', '')
MUL = z3.Function('product', I, I, I)
DIV = z3.Function('quotient', I, I, I)      # of a non-negative by a positive number, rounded down
class LS:
    """view of a state for invariant candidates"""
    def __init__(self, ex, st): self.ex, self.st = ex, st
    def v(self, name): return self.st.env.get(name)
    def arr(self, key, ref): return self.ex.content(self.st, key, ref)
    def cell(self, rk, off):
        c = self.st.cells.get(rk, {}).get(off)
        return None if c is None else c[1]
    def ghost(self, k): return self.st.g.get(('glob', '$ghost', k))

def same_val(a, b):
    if isinstance(a, P) or isinstance(b, P): return False
    return z3.eq(a, b)

class LoopCtx:
    def __init__(self, ex, f, hdr, phis, entry, mods, cmps, back, hs, cut):
        self.ex, self.f, self.hdr, self.phis, self.entry, self.mods, self.cmps, self.back, self.hs, self.cut = ex, f, hdr, phis, entry, mods, cmps, back, hs, cut
        self.ints = {}      # name -> (getter(LS) -> Int term, entry value, bits)
        self.bools = {}
        self.ptrs = {}
        self.dbls = {}
        for ins in phis:
            v0 = entry.env[ins.res]
            if ins.ty.k == 'i' and ins.ty.a > 1 and not z3.is_bv(v0):
                self.ints[ins.res] = (lambda ls, n=ins.res: ls.v(n), v0)
            elif ins.ty.k == 'i' and ins.ty.a == 1: self.bools[ins.res] = (lambda ls, n=ins.res: ls.v(n), v0)
            elif ins.ty.k == 'ptr':
                if '$off_' + ins.res in hs.env:
                    sc = ex.ptr_scale(f, ins, v0)
                    def off(ls, n=ins.res, sc=sc, v0=v0):
                        p = ls.v(n)
                        t = z3.Sum([ (s // sc) * x for s, x in p.t] + [z3.IntVal(p.c // sc)]) if all(s % sc == 0 for s, _ in p.t) and p.c % sc == 0 else None
                        return t
                    e0 = off(LS(ex, entry))
                    if e0 is not None: self.ints['off:' + ins.res] = (off, e0)
                else:
                    self.ptrs[ins.res] = (lambda ls, n=ins.res: ls.v(n), v0)
            elif ins.ty.k == 'double':
                self.dbls[ins.res] = (lambda ls, n=ins.res: ls.v(n), v0)
        for m in mods:
            if m[0] == 'C' and m[4].k == 'double':
                rk, o = m[1], m[2]
                e = entry.cells.get(rk, {}).get(o)
                if e is not None: self.dbls[f'cell:{rk.split("!")[0]}:{o}'] = (lambda ls, rk=rk, o=o: ls.cell(rk, o), e[1])
            if m[0] == 'C' and m[4].k == 'i':
                rk, o = m[1], m[2]
                e = entry.cells.get(rk, {}).get(o)
                if e is not None and not z3.is_bv(e[1]) and not isinstance(e[1], P):
                    if z3.is_bool(e[1]): self.bools[f'cell:{rk.split("!")[0]}:{o}'] = (lambda ls, rk=rk, o=o: ls.cell(rk, o), e[1])
                    else: self.ints[f'cell:{rk.split("!")[0]}:{o}'] = (lambda ls, rk=rk, o=o: ls.cell(rk, o), e[1])
            if m[0] == 'G' and m[1] == '$ghost' and m[3] == I:
                self.ints[f'ghost:{m[2]}'] = (lambda ls, k=m[2]: ls.ghost(k), entry.g[('glob', '$ghost', m[2])])
        for k in [k for k in self.ints if k.startswith(tuple(ex.skip_ints))]: del self.ints[k]
        self.arrays = [(m[1], m[2]) for m in mods if m[0] == 'H']
    def outer_ints(self):
        """integer variables of the enclosing loops: constants of this loop"""
        out = {}
        for h, bl in self.f.loops.items():
            if h == self.hdr or self.hdr not in bl: continue
            for ins in self.f.blocks[h]:
                if ins.op != 'phi': continue
                v = self.entry.env.get(ins.res)
                if v is not None and not isinstance(v, P) and z3.is_expr(v) and v.sort() == I and not z3.is_int_value(v): out[ins.res] = v
        return out
    def invariant_terms(self):
        """Int terms available before the loop that the loop compares against"""
        out = {}
        for a, b in self.cmps:
            for t in (a, b):
                if t.sort() == I and max_stamp(t) <= self.cut: out[z3.simplify(t).sexpr()] = t
        return list(out.values())
    def candidates(self):
        ex, cs = self.ex, []
        inv = self.invariant_terms()
        inv = [t for t in inv if not z3.is_int_value(t)] + [z3.IntVal(0)] if len(inv) < 12 else inv[:12]
        LSe = LS(ex, self.entry)
        lin = []
        for n, (g, v0) in self.ints.items():
            cs.append((f"{n}=init", lambda ls, g=g, v0=v0: g(ls) == v0))
            cs.append((f"{n}>=init", lambda ls, g=g, v0=v0: g(ls) >= v0))
            cs.append((f"{n}<=init", lambda ls, g=g, v0=v0: g(ls) <= v0))
            cs.append((f"{n}>=0", lambda ls, g=g: g(ls) >= 0))
            cs.append((f"{n}>=-1", lambda ls, g=g: g(ls) >= -1))
            cs.append((f"{n}in01", lambda ls, g=g: z3.And(g(ls) >= 0, g(ls) <= 1)))
            cs.append((f"{n}<=R_LEN_T_MAX", lambda ls, g=g: g(ls) <= 2147483647))
            cs.append((f"{n}>=1", lambda ls, g=g: g(ls) >= 1))
            for i, t in enumerate(inv):
                tn = t.sexpr()[:240]
                cs.append((f"{n}<={tn}", lambda ls, g=g, t=t: g(ls) <= t))
                cs.append((f"{n}<={tn}+1", lambda ls, g=g, t=t: g(ls) <= t + 1))
                cs.append((f"{n}<{tn}", lambda ls, g=g, t=t: g(ls) < t))
                cs.append((f"{n}>={tn}", lambda ls, g=g, t=t: g(ls) >= t))
                cs.append((f"{n}>={tn}-1", lambda ls, g=g, t=t: g(ls) >= t - 1))
                # guarded upper bound: loops that start past their bound
                cs.append((f"{n}<=max(init,{tn})", lambda ls, g=g, t=t, v0=v0: z3.Or(g(ls) <= t, g(ls) <= v0)))
        names = list(self.ints)
        for a, b in itertools.combinations(names, 2):
            ga, a0 = self.ints[a]; gb, b0 = self.ints[b]
            cs.append((f"{a}-{b}=const", lambda ls, ga=ga, gb=gb, a0=a0, b0=b0: ga(ls) - gb(ls) == a0 - b0))
            cs.append((f"{a}+{b}=const", lambda ls, ga=ga, gb=gb, a0=a0, b0=b0: ga(ls) + gb(ls) == a0 + b0))
            cs.append((f"{a}<={b}", lambda ls, ga=ga, gb=gb: ga(ls) <= gb(ls)))
            cs.append((f"{b}<={a}", lambda ls, ga=ga, gb=gb: gb(ls) <= ga(ls)))
            cs.append((f"{a}<{b}", lambda ls, ga=ga, gb=gb: ga(ls) < gb(ls)))
            cs.append((f"{b}<{a}", lambda ls, ga=ga, gb=gb: gb(ls) < ga(ls)))
            # products with loop-invariant steps: a - a0 == t * (b - b0)
            steps = self.steps()
            for t in steps:
                tn = t.sexpr()[:240]
                cs.append((f"{a}-init={tn}*({b}-init)", lambda ls, ga=ga, gb=gb, a0=a0, b0=b0, t=t: ga(ls) - a0 == t * (gb(ls) - b0)))
                cs.append((f"{b}-init={tn}*({a}-init)", lambda ls, ga=ga, gb=gb, a0=a0, b0=b0, t=t: gb(ls) - b0 == t * (ga(ls) - a0)))
        for n, (g, v0) in self.bools.items():
            cs.append((f"{n}=init", lambda ls, g=g, v0=v0: g(ls) == v0))
        for n, (g, v0) in self.ptrs.items():
            if v0.k == 'sexp':
                cs.append((f"{n}=init", lambda ls, g=g, v0=v0: ex.ptr_eq(ls.st, g(ls), v0)))
                cs.append((f"{n}!=NULL", lambda ls, g=g: z3.Not(ex.ptr_eq(ls.st, g(ls), NULL))))
        # array frames
        for key, ref in self.arrays:
            A0 = ex.content(self.entry, key, ref)
            rn = ref.sexpr()[:240]
            if ex.skip_frames and ref.decl().name().startswith(ex.skip_frames): continue
            cs.append((f"frame:{key}:{rn}", lambda ls, key=key, ref=ref, A0=A0: QF(lambda k: z3.Select(ls.arr(key, ref), k) == z3.Select(A0, k))))
            for n, (g, v0) in self.ints.items():
                cs.append((f"frame:{key}:{rn}>={n}", lambda ls, key=key, ref=ref, A0=A0, g=g: QF(lambda k, gv=g(ls): z3.Implies(k >= gv, z3.Select(ls.arr(key, ref), k) == z3.Select(A0, k)))))
                cs.append((f"frame:{key}:{rn}<={n}", lambda ls, key=key, ref=ref, A0=A0, g=g: QF(lambda k, gv=g(ls): z3.Implies(k <= gv, z3.Select(ls.arr(key, ref), k) == z3.Select(A0, k)))))
                cs.append((f"frame:{key}:{rn}<init{n}", lambda ls, key=key, ref=ref, A0=A0, v0=v0: QF(lambda k: z3.Implies(k < v0, z3.Select(ls.arr(key, ref), k) == z3.Select(A0, k)))))
                cs.append((f"frame:{key}:{rn}>init{n}", lambda ls, key=key, ref=ref, A0=A0, v0=v0: QF(lambda k: z3.Implies(k > v0, z3.Select(ls.arr(key, ref), k) == z3.Select(A0, k)))))
        for t in ex.templates:
            cs += t(self)
        # names are kept free of the counters of fresh symbols, so that the candidates of an inner
        # loop are recognised again when the outer loop is executed once more
        seen, out, base = set(), [], {}
        for n, c in cs:
            if n in seen: continue
            seen.add(n)
            b = STAMP_RE.sub('', n)
            k = base[b] = base.get(b, -1) + 1
            out.append((b if k == 0 else f"{b}~{k}", c))
        return out
    def steps(self):
        out = {}
        for bs in self.back:
            for n, (g, v0) in self.ints.items():
                try:
                    d = z3.simplify(g(LS(self.ex, bs)) - g(LS(self.ex, self.hs)))
                except Exception: continue
                if max_stamp(d) <= self.cut: out[d.sexpr()] = d
        r = [t for k, t in out.items() if not (z3.is_int_value(t) and t.as_long() in (0,))]
        return [t for t in r if not z3.is_int_value(t) or abs(t.as_long()) > 1][:6]
