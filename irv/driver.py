"""Extraction of the IR from /repo's current sources, and the function-verification driver."""
import os, subprocess, tempfile, shutil, time, hashlib, concurrent.futures as cf
import z3
import ir
from engine import *
import rapi

CLANG, OPT = 'clang-18', '/usr/lib/llvm-18/bin/opt'
PASSES = 'sroa,early-cse,simplifycfg,loop-simplify'

def extract(repo, outdir, files=None, jobs=8):
    """clang -> IR -> light normalisation; returns list of .ll paths (raises on a compile error)"""
    src = os.path.join(repo, 'src')
    files = files or sorted(f for f in os.listdir(src) if f.endswith('.c'))
    os.makedirs(outdir, exist_ok=True)
    def one(f):
        out = os.path.join(outdir, f + '.ll')
        p1 = subprocess.run([CLANG, '-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names',
                             '-I/usr/share/R/include', '-I' + os.path.join(src, 'rlang'), '-I' + src, os.path.join(src, f), '-o', '-'],
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p1.returncode: raise RuntimeError('clang failed on ' + f + ': ' + p1.stderr.decode()[-500:])
        p2 = subprocess.run([OPT, '-S', '-passes=' + PASSES, '-o', out], input=p1.stdout, stderr=subprocess.PIPE)
        if p2.returncode: raise RuntimeError('opt failed on ' + f + ': ' + p2.stderr.decode()[-500:])
        return out
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, files))

def load(paths):
    mods = []
    for p in paths:
        with open(p) as fh: mods.append(ir.Module(os.path.basename(p), fh.read()))
    return mods

def make_engine(mods, contracts=None, name='', timeout_ms=8000, budget=240, **kw):
    C = rapi.base_contracts()
    C.update(contracts or {})
    ex = Engine(mods, C, timeout_ms=timeout_ms, name=name)
    ex.check_types = kw.get('check_types', True)
    ex.deadline = time.time() + budget
    G = {'R_NilValue': sx(rapi.NILREF), 'R_NaInt': z3.IntVal(-2**31), 'R_NaReal': d_const(NA_REAL_BITS), 'R_NaString': sx(rapi.NASTR),
         ('r_globals', 56): z3.IntVal(-2**31), ('r_globals', 60): z3.IntVal(-2**31), ('r_globals', 64): d_const(NA_REAL_BITS), ('r_globals', 88): sx(rapi.NASTR)}
    for k in (('r_globals', 72), ('r_globals', 80), ('vctrs_shared_na_cpl', 0), ('vctrs_shared_na_cpl', 8)): G[k] = d_const(NA_REAL_BITS)
    for off, t in ((0, rapi.T_LGL), (8, rapi.T_INT), (16, rapi.T_DBL), (24, rapi.T_CPLX), (32, rapi.T_RAW), (40, rapi.T_CHR), (48, rapi.T_LIST)):
        def mkg(ex, st, off=off, t=t):
            r = z3.Const(f'r_globals_empty_{t}', Ref)
            ex.set_stamp(st, r, 0); st.assume(TYPE(r) == t, LEN(r) == 0, rapi.VSIZE(r) == 0, r != NULLREF, r != rapi.NILREF)
            rapi.set_dtype(st, r, t)
            return sx(r)
        G[('r_globals', off)] = mkg
    ex.extglob = G
    return ex

def initial_state(ex):
    st = State()
    ex.set_stamp(st, rapi.NILREF, 0); ex.set_stamp(st, NULLREF, 0); ex.set_stamp(st, rapi.NASTR, 0)
    st.assume(rapi.NILREF != NULLREF, rapi.NASTR != NULLREF, rapi.NASTR != rapi.NILREF, TYPE(rapi.NILREF) == 0, LEN(rapi.NILREF) == 0)
    return st

def find_func(ex, name):
    f = ex.fns.get(name)
    if f is None:
        for m in ex.mods:
            if name in m.funcs: return m.funcs[name]
        raise ToolLimit(f"function {name} not found in the sources")
    return f
