#!/opt/veriftools/pyvenv/bin/python -O
"""check.py <property> : decides one property on /repo's current working tree.

 1. compiles every src/*.c of /repo to LLVM IR and, in parallel, builds the package privately
 2. discharges every proof case of the property (irv/specs) over that IR
 3. evaluates the exported functions' contracts on concrete inputs (rcheck/<id>.R): the bounded stand-in
    for what has no proof, and the search for a failing input when an obligation is not discharged
Exit 0: everything discharged and no failing input. Exit 1: VIOLATION line."""
import sys, os, json, time, tempfile, shutil, subprocess, threading, multiprocessing as mp, glob, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'irv'))
REPO = os.environ.get('VERIF_REPO', '/repo')
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
QUICK = TIER == 'quick'
PROOF_BUDGET = 420 if QUICK else 3600
RBUDGET = 45 if QUICK else 600
RHARD = 330 if QUICK else 1500

def load_specs():
    import speclib
    for p in sorted(glob.glob(os.path.join(HERE, 'irv', 'specs', '*.py'))):
        spec = importlib.util.spec_from_file_location('specs_' + os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(spec); sys.modules[spec.name] = m
        spec.loader.exec_module(m)
    return speclib.CASES

MODS = None
HINTS = {}
ALLC = []
def worker(i):
    import speclib
    c = ALLC[i]
    return speclib.run_case(c, MODS, HINTS.get(c.prop + '|' + c.name), PROOF_BUDGET)

def run_r(lib, tmp, rfile, info, seed, budget, hard):
    out = os.path.join(tmp, 'r_' + os.path.basename(rfile) + '.out')
    env = dict(os.environ, R_LIBS=lib, R_LIBS_USER='/nonexistent', R_PROFILE_USER='/nonexistent', R_ENVIRON_USER='/nonexistent',
               LC_ALL='C.UTF-8', TZ='UTC', TMPDIR=tmp, HOME=tmp, RCHECK=os.path.join(HERE, 'rcheck'), VERIF_SRC=os.path.join(REPO, 'src'))
    t = time.time()
    try:
        p = subprocess.run(['Rscript', '--no-init-file', '--no-environ', rfile, PID, str(seed), TIER, out, str(budget)], env=env, cwd=tmp,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=hard)
        rc, log = p.returncode, p.stdout.decode(errors='replace')[-3000:]
    except subprocess.TimeoutExpired as e:
        rc, log = 'timeout', (e.stdout or b'').decode(errors='replace')[-2000:]
    cur = open(out + '.cur').read().strip() if os.path.exists(out + '.cur') else ''
    info.update(rc=rc, log=log, cur=cur, text=open(out, errors='replace').read() if os.path.exists(out) else None, wall=time.time() - t)

def main():
    global MODS, ALLC
    from driver import extract, load
    import build as bld
    specs = [c for c in load_specs() if c.prop == PID and (c.tier == 'quick' or not QUICK)]
    specs.sort(key=lambda c: -c.cost)
    ALLC = specs
    hp = os.path.join(HERE, 'irv', 'hints.json')
    if os.path.exists(hp): HINTS.update(json.load(open(hp)))
    tmp = tempfile.mkdtemp(prefix='vctrs_check_')
    try:
        return go(tmp, specs, extract, load, bld)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def go(tmp, specs, extract, load, bld):
    global MODS
    rinfo, berr = {}, []
    rfile = os.path.join(HERE, 'rcheck', PID + '.R')
    has_r = os.path.exists(rfile)
    def rthread():
        try:
            lib = bld.build(REPO, os.path.join(tmp, 'b')); rinfo['lib'] = lib
        except Exception as e:
            berr.append(str(e)); return
        if has_r: run_r(lib, tmp, rfile, rinfo, SEED, RBUDGET, RHARD)
    th = threading.Thread(target=rthread)
    results, exerr = [], None
    try:
        paths = extract(REPO, os.path.join(tmp, 'll'))
        MODS = load(paths)
    except Exception as e:
        exerr = str(e); MODS = []
    if specs and not exerr:
        # fork the pool before any thread is started
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(7 if has_r else 8, len(specs)), maxtasksperchild=1)
        th.start()
        asy = [pool.apply_async(worker, (i,)) for i in range(len(specs))]
        for c, a in zip(specs, asy):
            left = max(1, PROOF_BUDGET + 60 - (time.time() - T0)) if QUICK else 4000
            try: results.append(a.get(left))
            except Exception as e:
                results.append(dict(name=c.name, n=0, ok=0, failed=[], kinds={}, inlined=[], contracts=[], solver_s=0, queries=0, wall=0, reached=0, loops={}, entry=c.entry,
                                    error='undecided: ' + type(e).__name__ + ' ' + str(e)[:300]))
        pool.terminate()
    else: th.start()
    th.join()
    undone = [r['name'] for r in results if r['failed'] or r['error']]
    if undone and has_r and rinfo.get('lib') and rinfo.get('rc') == 0 and rinfo.get('text') and '\nFAIL\n' not in rinfo['text'] and QUICK:
        # an obligation is not discharged: look longer, in parallel and with other seeds, for an input that fails
        left = 820 - (time.time() - T0)
        if left > 60:
            infos = [dict() for _ in range(6)]
            def one(k):
                d = os.path.join(tmp, f'deep{k}'); os.makedirs(d)
                run_r(rinfo['lib'], d, rfile, infos[k], SEED * 1000 + 17 + k, min(240, left * 0.6), left - 20)
            ts = [threading.Thread(target=one, args=(k,)) for k in range(len(infos))]
            for t in ts: t.start()
            for t in ts: t.join()
            for i in infos:
                if i.get('rc') == 0 and i.get('text') and '\nFAIL\n' in i['text']:
                    i['lib'] = rinfo['lib']; rinfo = i; break
    return report(tmp, specs, results, exerr, berr, rinfo, has_r)

def known():
    p = os.path.join(HERE, 'known_findings.json')
    return [k for k in json.load(open(p)) if k['property'] == PID] if os.path.exists(p) else []

def report(tmp, specs, results, exerr, berr, rinfo, has_r):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    failed, undec = [], []
    if exerr: undec.append(dict(case='extraction', why=exerr))
    for r in results:
        for f in r['failed']: failed.append(dict(case=r['name'], **f))
        if r['error']: undec.append(dict(case=r['name'], why=r['error']))
    n_ob = sum(r['n'] for r in results) + len(undec); n_ok = sum(r['ok'] for r in results)
    # ---- bounded contract evaluation
    rn, rfails, rsk, crash, rdist, rsamp = 0, [], '', None, 0, []
    if berr: undec.append(dict(case='package build', why=berr[0][-1500:]))
    elif has_r:
        t = rinfo.get('text')
        if t is None or rinfo['rc'] != 0:
            if rinfo['cur'] or rinfo['rc'] == 'timeout':
                crash = f"process ended with {rinfo['rc']} in section '{rinfo['cur']}'\n{rinfo['log']}"
            else: undec.append(dict(case='bounded checker', why=f"rc={rinfo['rc']} {rinfo['log']}"))
        if t:
            cur = None
            for l in t.splitlines():
                if l.startswith('N '): rn = int(l[2:])
                elif l.startswith('SKIPPED '): rsk = l[8:]
                elif l.startswith('DISTINCT '): rdist = int(l[9:])
                elif l.startswith('SAMPLE '): rsamp.append(l[7:])
                elif l == 'FAIL': cur = []; rfails.append(cur)
                elif cur is not None: cur.append(l)
    kn = known()
    kn_seen = []
    def is_known(block):
        for k in kn:
            if k.get('match') and all(m in block for m in k['match']): kn_seen.append(k['id']); return True
        return False
    fblocks = ['\n'.join(b) for b in rfails]
    new = [b for b in fblocks if not is_known(b)]
    if crash and not is_known(crash): new.append(crash)
    for k in kn:
        if k.get('match') is not None: print(f"KNOWN-FINDING: property={PID} {k['what']}")
    viol = bool(new) or bool(failed) or bool(undec)
    entry = sorted({e for c in specs for e in c.entry})
    inl = sorted({x for r in results for x in r['inlined']})
    con = sorted({x for r in results for x in r['contracts']})
    ev = dict(property=PID, tier=TIER, seed=SEED, level='proof' if specs else 'exploration', wall_s=round(time.time() - T0, 2), violations=int(viol),
              assumptions=ASSUME + [f"contract assumed at the boundary: {c}" for c in con],
              coverage=dict(obligations=n_ob, discharged=n_ok, checker_cmd=f"python3-vt -O check.py {PID} (irv engine, z3 back end)",
                            trusted_base=TRUSTED, functions_under_contract=entry, functions_verified_inline=inl,
                            cases=[dict(name=r['name'], obligations=r['n'], discharged=r['ok'], kinds=r['kinds'], solver_s=round(r['solver_s'], 2), queries=r['queries'], wall_s=round(r['wall'], 2),
                                        return_states=r['reached'], hinted=r.get('hinted')) for r in results],
                            solver_s=round(sum(r['solver_s'] for r in results), 2),
                            bounded=dict(label='bounded, not counted as proved', evaluations=rn, failing=len(new), skipped_sections=rsk, distinct_nontrivial=rdist, samples=rsamp, wall_s=round(rinfo.get('wall', 0), 1)),
                            skipped_cases=[dict(name=r['name'], why=r['skipped']) for r in results if r.get('skipped')], known_findings=[k['id'] for k in kn]))
    if not specs: ev['coverage'] = dict(evaluations=rn, distinct_nontrivial=rdist, samples=rsamp, rule=RULE, skipped_sections=rsk)
    json.dump(ev, open(os.path.join(HERE, 'evidence', PID + '.json'), 'w'), indent=1)
    if os.environ.get('VERIF_HINTS_OUT'):
        json.dump({PID + '|' + r['name']: r['loops'] for r in results if not r['error'] and not r['failed']}, open(os.environ['VERIF_HINTS_OUT'], 'w'))
    print(f"{PID} tier={TIER}: {n_ok}/{n_ob} obligations discharged in {len(results)} cases; bounded evaluations {rn}, failing {len(new)}{' skipped: ' + rsk if rsk else ''}; {time.time() - T0:.0f} s")
    if os.environ.get('VERIF_VERBOSE'):
        for r in results: print(f"   {r['wall']:7.1f}s {r['ok']}/{r['n']} {r['name']} {r['error'] or ''}")
        print('   R', rinfo.get('wall'))
    if not viol: return 0
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, PID + '.txt')
    with open(rp, 'w') as fh:
        fh.write(f"property {PID}\n")
        for f in new: fh.write("\nFAILING INPUT (evaluated against the package built from the current tree)\n" + f + "\n")
        for f in failed: fh.write(f"\nOBLIGATION NOT DISCHARGED case={f['case']} function={f['fn']} kind={f['kind']}: {f['text']}\n{f['detail']}\n")
        for u in undec: fh.write(f"\nNOT DECIDED {u['case']}: {u['why']}\n")
    for f in new[:3]: print('  failing input:', f[:600].replace('\n', '\n    '))
    for f in failed[:6]: print(f"  obligation not discharged: [{f['case']}] {f['fn']}: {f['kind']}: {f['text']}")
    for u in undec[:6]: print(f"  not decided: [{u['case']}] {u['why'][:600]}")
    print(f"VIOLATION property={PID} replay={rp}" + ('' if new else ' no-failing-input-found'))
    return 1

RULE = ("contracts of the exported functions evaluated on the package built from the current tree: inputs enumerated over small pools and sizes and drawn at random per vector type; "
        "an input is non-trivial when it has at least one element, distinct by hash of the input list")
TRUSTED = ["clang-18 front end and the opt passes sroa, early-cse, simplifycfg, loop-simplify (source to IR)", "irv verifier (/verif/irv: IR semantics, memory model, Houdini, quantifier instantiation)", "z3 (unsat answers)",
           "contracts of the R C API in irv/rapi.py and of the functions listed under assumptions"]
ASSUME = ["the compiled package and the IR come from the same sources; gcc and clang agree on their meaning",
          "different R vectors have disjoint data; a freshly allocated vector is distinct from every older object",
          "an R error (longjmp) ends the call; nothing is claimed about values after it",
          "termination is not proved", "long vectors are outside the domain (sizes up to 2^31-1)"]

if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:
        traceback.print_exc(file=sys.stdout)
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        rp = os.path.join(HERE, 'evidence', 'replay', PID + '.txt')
        open(rp, 'w').write(traceback.format_exc())
        print(f'VIOLATION property={PID} replay={rp} no-failing-input-found')
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
