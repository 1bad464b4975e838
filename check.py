#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

Decides one property on /repo's current working tree:
  1. extracts the AST of /repo (clang front end) and discharges every obligation of
     the property's contracts (dwv/goals) -- the deciding step;
  2. builds the real code with ASan+UBSan and runs the property's concrete oracle
     (drivers/) -- replays failed obligations, and stands in (bounded) where the
     verifier cannot take the code.
exit 0: held; exit 1: VIOLATION line; exit 2: no answer."""
import sys, os, json, time, subprocess, glob, hashlib, multiprocessing as mp, traceback, re, threading, queue
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from dwv import frontend as FE
REPO, BUILD = FE.REPO, FE.BUILD
T0 = time.time()
BUDGET = float(os.environ.get('DW_BUDGET', '780'))
def left(): return BUDGET - (time.time() - T0)

DRIVERS = json.load(open(os.path.join(VERIF, 'drivers/index.json')))    # property -> driver source

# properties whose main statement is decided within a stated bound only
BOUNDED_ONLY = ('C24',)
# ------------------------------------------------------------------ driver
CXX = ['g++', '-std=c++17', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fopenmp', '-w',
       '-include', 'array', '-include', 'limits', '-include', 'cstdint', '-D_GLIBCXX_USE_CXX11_ABI=0', '-DHAVE_PNG', '-DHAVE_JPEG']
def cxx(): return CXX + ['-I%s/include' % REPO, '-I%s/src' % REPO, '-I/usr/include/eigen3', '-I%s/stubs/ade_include' % VERIF]
NOADE = ('src/model/model.cpp', 'src/model/graphbuilder.cpp', 'src/runtime/cpu/cpubackend.cpp', 'src/serialization.cpp')

def build_driver(src):
    """-> path of the driver binary or (None, reason)"""
    key = FE.sha(FE.tree_hash(), ' '.join(cxx()))
    odir = os.path.join(BUILD, 'obj-' + key)
    os.makedirs(odir, exist_ok=True)
    dsrc = os.path.join(VERIF, 'drivers', src)
    dkey = FE.sha(key, *[open(f, 'rb').read() for f in sorted(glob.glob(VERIF + '/drivers/*pp'))])
    exe = os.path.join(odir, 'drv-%s-%s' % (os.path.splitext(src)[0], dkey))
    if os.path.exists(exe): return exe, ''
    need_ade = src.startswith('model')
    files = [f for f in FE.source_files() if need_ade or os.path.relpath(f, REPO) not in NOADE]
    procs, objs, errs = [], [], []
    jobs = [(f, os.path.join(odir, os.path.relpath(f, REPO).replace('/', '__') + '.o')) for f in files]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    dobj = exe + '.o'
    jobs.insert(0, (dsrc, dobj))
    def one(j):
        f, o = j
        if os.path.exists(o): return f, o, 0, ''
        tmp = o + '.%d.tmp' % os.getpid()
        p = subprocess.run(cxx() + ['-c', f, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0: os.replace(tmp, o)
        return f, o, p.returncode, p.stdout.decode(errors='replace')
    from concurrent.futures import ThreadPoolExecutor
    ok = []
    with ThreadPoolExecutor(8) as ex:
        for f, o, rc, out in ex.map(one, jobs):
            if rc == 0: ok.append(o)
            else: errs.append(os.path.relpath(f, REPO) + ': ' + out[:600])
    if dobj not in ok: return None, 'driver does not compile: ' + '\n'.join(errs)[:1500]
    p = subprocess.run(['g++', '-fsanitize=address,undefined', '-fopenmp'] + ok + ['-lpng', '-ljpeg', '-o', exe + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: return None, 'driver does not link: ' + (p.stdout.decode(errors='replace') + '\n'.join(errs))[-1500:]
    os.replace(exe + '.tmp', exe)
    return exe, '; '.join(errs)

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:exitcode=77:halt_on_error=1', OMP_NUM_THREADS='4')
import tempfile
def scratch():
    return tempfile.mkdtemp(prefix='dwdrv-')
def drv(exe, args, timeout, consts=''):
    d = scratch()
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, DRV_TMP=d, DRV_CONSTS=consts), cwd=d)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode(errors='replace'), (e.stderr or b'').decode(errors='replace')
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)

def audit(exe, prop, seed, count, timeout, consts=''):
    """-> (cases run, failure text or None, replay command)"""
    rc, out, err = drv(exe, [prop, str(seed), str(count)], timeout, consts)
    m = re.search(r'RAN (\d+) cases', out)
    ran = int(m.group(1)) if m else 0
    fails = [l for l in out.splitlines() if l.startswith('FAIL ')]
    if fails:
        t = re.search(r'test=(.*?) seed=(\d+)', fails[0])
        return ran, '\n'.join(fails), ['--case', t.group(1), t.group(2)]
    if rc == 0: return ran, None, None
    last = [l for l in err.splitlines() if l.startswith('CASE ')]
    if rc == 'timeout':
        # a single case that never ends is a violation only if it reproduces on its own
        if not last: return ran, None, None
        t = re.search(r'test=(.*?) seed=(\d+)', last[-1])
        n = len(last)
        c = ['--case', t.group(1), t.group(2)]
        rc2, o2, e2 = drv(exe, [prop] + c, 60, consts)
        if rc2 == 'timeout': return n, 'the call does not terminate: %s' % last[-1], c
        return n, None, None
    msg = '\n'.join(l for l in err.splitlines() if not l.startswith('CASE '))[:3000]
    if last:
        t = re.search(r'test=(.*?) seed=(\d+)', last[-1])
        return len(last), 'crash (exit %s) in %s\n%s' % (rc, last[-1], msg), ['--case', t.group(1), t.group(2)]
    return ran, 'driver exit %s\n%s' % (rc, msg), [str(seed), str(count)]

# ------------------------------------------------------------------- proof
def run_goal(prog, prop, name, f, conn, want_neg):
    sys.setrecursionlimit(20000)
    from dwv.harness import H
    from dwv.prove import STATS
    t0 = time.time()
    h = H(prog)
    err = ''
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        f(h)
    except Exception as e:
        err = '%s: %s @ %s:%s' % (type(e).__name__, str(e)[:500], [q['q'] for q in h.ex.fn_stack][-3:], h.ex.line)
        if os.environ.get('DW_TRACE'): traceback.print_exc()
    obl = [dict(kind=o.kind, where=o.where, text=o.text, status=o.status, detail=o.detail[:2500], refuted=repr(o.refuted) if o.refuted else None) for o in h.ex.obligs]
    conn.send(dict(goal=name, obligations=obl, error=err, wall=time.time() - t0, paths=[r[0] for r in getattr(h, 'results', [])],
                   functions={q: h.ex.fn_where.get(q, '') for q in h.ex.funcs_used}, assumed=sorted(h.ex.assumed) if hasattr(h.ex, 'assumed') else [],
                   pre_sat=h.pre_sat, bounded=h.bounded,
                   stats=dict(normal_form=STATS.norm, z3_queries=STATS.z3_calls, z3_s=round(STATS.z3_s, 3), z3_discharged=STATS.z3_ok, lp=STATS.lp, positivity=STATS.slack, radix=STATS.digits)))
    conn.close()

def prove(prop, tier):
    prog = FE.load_program()
    from dwv import goals
    from dwv.goals import prepare
    G = goals.load().get(prop, [])
    prepare(prog)
    todo = list(G); running = []; results = []
    per_goal = 240 if tier == 'quick' else 420
    while todo or running:
        while todo and len(running) < 7:
            name, f = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=run_goal, args=(prog, prop, name, f, b, False))
            p.start(); b.close()
            running.append((name, p, a, time.time()))
        still = []
        for name, p, a, t in running:
            if a.poll(0):
                try: results.append(a.recv())
                except EOFError: results.append(dict(goal=name, obligations=[], error='verifier process died', wall=time.time() - t, paths=[], functions={}, assumed=[], stats={}, pre_sat=None, bounded=[]))
                p.join()
            elif time.time() - t > per_goal or left() < 60:
                p.kill(); p.join()
                results.append(dict(goal=name, obligations=[], error='verifier out of time', wall=time.time() - t, paths=[], functions={}, assumed=[], stats={}, pre_sat=None, bounded=[]))
            else: still.append((name, p, a, t))
        running = still
        time.sleep(0.02)
    return prog, results

def harvest(prog, results):
    """numeric literals of the functions under contract (thresholds worth trying in the replay)"""
    fs = set()
    for r in results: fs |= set(r['functions'])
    nums = set()
    def go(n):
        if isinstance(n, dict):
            if n.get('k') == 'throw': return
            if n.get('k') in ('int', 'flt') and 'v' in n:
                try:
                    x = float(n['v'])
                    if abs(x) > 2 and abs(x) < 1e6: nums.add(x)
                except Exception: pass
            for v in n.values(): go(v)
        elif isinstance(n, list):
            for v in n: go(v)
    for q in fs:
        for f in prog.by_q.get(q, []): go(f.get('body'))
    return ','.join('%g' % x for x in sorted(nums)[:40])

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prebuilt = bool(glob.glob(BUILD + '/dwx-*'))
    os.makedirs(BUILD, exist_ok=True)
    out_dir = os.environ.get('DW_OUT', VERIF)       # tools/refs.py keeps its runs apart
    edir = os.path.join(out_dir, 'evidence'); os.makedirs(edir, exist_ok=True)
    rdir = os.path.join(out_dir, 'replays'); os.makedirs(rdir, exist_ok=True)
    src = DRIVERS.get(prop)
    box = {}
    def bd():
        try: box['drv'] = build_driver(src) if src else (None, 'no concrete oracle for this property')
        except Exception as e: box['drv'] = (None, 'driver build: %s' % e)
        box['drv_s'] = time.time() - T0
    FE.extractor()
    th = threading.Thread(target=bd); th.start()
    perr = ''
    try: prog, results = prove(prop, tier)
    except Exception as e:
        perr = '%s: %s' % (type(e).__name__, str(e)[:800])
        if os.environ.get('DW_TRACE'): traceback.print_exc()
        prog, results = None, []
    proof_s = time.time() - T0
    th.join()
    exe, derr = box['drv']

    obl = [dict(o, goal=r['goal']) for r in results for o in r['obligations']]
    failed = [o for o in obl if o['status'] != 'discharged']
    refuted = [o for o in failed if o['refuted']]
    unreached = [dict(goal=r['goal'], reason=r['error']) for r in results if r['error']]
    vac = [r['goal'] for r in results if not r['error'] and (not r['obligations'] or r['pre_sat'] is False or not any(o['kind'] == 'postcondition' for o in r['obligations']))]
    for g in vac: unreached.append(dict(goal=g, reason='vacuous: no postcondition reached or the precondition is not satisfiable'))
    consts = harvest(prog, results) if prog is not None else ''
    count = 400 if tier == 'quick' else 12000
    cases = 0; fail = None; cmd = None
    if exe:
        n, fail, cmd = audit(exe, prop, seed, count, max(30, min(left() - 60, 300 if tier == 'quick' else 500)), '')
        cases += n
        if not fail and consts and left() > 60:
            n, fail, cmd2 = audit(exe, prop, seed + 50, 150 if tier == 'quick' else 1500, max(20, min(left() - 30, 100)), consts); cases += n
            if fail: cmd = cmd2
        if not fail and (failed or unreached or perr):
            # a proof that did not go through: search harder for a failing input
            for k in range(1, 4):
                if left() < 90: break
                n, fail, cmd = audit(exe, prop, seed + 1000 * k, count * 3, max(20, min(left() - 40, 90)), consts if k % 2 else '')
                cases += n
                if fail: break
    viol = 0; line = None
    hdr = 'property %s, tree %s\n' % (prop, FE.tree_hash())
    def obl_text(os_):
        return '\n'.join('obligation [%s] %s at %s (goal %s): %s\n   verifier output: %s\n   counterexample: %s' % (o['kind'], o['text'], o['where'], o['goal'], o['status'], o['detail'], o['refuted']) for o in os_)
    path = os.path.join(rdir, '%s.txt' % prop)
    if fail:
        viol = 1
        with open(path, 'w') as g:
            g.write(hdr + 'failing input on the real code:\n%s\nreplay: build the driver with `python3-vt /verif/check.py %s` and run:\n  %s %s %s\n\n' % (fail, prop, exe, prop, ' '.join(cmd)))
            g.write('failed obligations:\n' + obl_text(failed) + '\n' + json.dumps(unreached, indent=1))
        line = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif refuted:
        viol = 1
        with open(path, 'w') as g:
            g.write(hdr + 'failed obligations (refuted on the verifier\'s own term semantics; %d concrete runs of the real code found no failing input):\n' % cases + obl_text(refuted) + '\n')
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    proved = not perr and not failed and not unreached and obl
    bnd = {r['goal'] for r in results if r['bounded']}
    wide = [o for o in obl if o['goal'] not in bnd]
    level = 'proof' if proved and wide and not any(p in BOUNDED_ONLY for p in [prop]) else 'other'
    disc = len(obl) - len(failed)
    nb, db = len(obl) - len(wide), sum(o['goal'] in bnd for o in failed)
    funcs = {}
    for r in results: funcs.update(r['functions'])
    from dwv.trust import TRUSTED, ASSUMPTIONS
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(obligations=len(wide), discharged=disc - (nb - db), bounded_obligations=nb, bounded_discharged=nb - db,
            bounded_rule=sorted({b for r in results for b in r['bounded']}) or None,
            checker_cmd='python3-vt /verif/check.py %s %s' % (prop, tier), trusted_base=TRUSTED,
            explanation=(('every obligation generated from the current source was discharged for all inputs' if not bnd else
                          '%d obligations were discharged for all inputs; %d more (bounded_obligations) hold for all extents and values but only for the listed wirings and orders, and are not counted as proved' % (len(wide), nb)) if proved else
                         'BOUNDED: the verifier did not decide every obligation; %d concrete cases of the real code stand in for %s' % (cases, json.dumps(unreached + [dict(goal=o['goal'], reason='undecided: ' + o['text']) for o in failed])[:3000])),
            goals=[dict(name=r['goal'], obligations=len(r['obligations']), discharged=sum(o['status'] == 'discharged' for o in r['obligations']), paths=r['paths'], wall_s=round(r['wall'], 2), error=r['error'], bounded=r['bounded'], backends=r['stats']) for r in results],
            obligations_by_kind={k: sum(o['kind'] == k for o in obl) for k in sorted({o['kind'] for o in obl})},
            postconditions=sorted({o['text'] for o in obl if o['kind'] == 'postcondition'}),
            functions_under_contract=['%s (%s)' % (q, w) for q, w in sorted(funcs.items())],
            verifier_s=round(sum(r['wall'] for r in results), 2), z3_s=round(sum(r['stats'].get('z3_s', 0) for r in results), 2),
            undecided=[dict(goal=o['goal'], obligation=o['text'], where=o['where']) for o in failed], not_reached=unreached, verifier_error=perr,
            bounded_audit=dict(role='replay of failed obligations / bounded stand-in, not part of the proof', driver=src, cases=cases, note=derr[:500], constants=consts),
            toolchain_prebuilt=prebuilt, proof_wall_s=round(proof_s, 1), driver_wall_s=round(box.get('drv_s', 0), 1)),
        assumptions=ASSUMPTIONS + sorted({a for r in results for a in r['assumed']}), wall_s=round(time.time() - T0, 2), violations=viol)
    json.dump(ev, open(os.path.join(edir, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d refuted, %d goals not reached; %d concrete cases; %.1fs' % (prop, len(obl), disc, len(refuted), len(unreached), cases, time.time() - T0))
    for o in failed: print('  undischarged [%s] %s (%s)%s' % (o['kind'], o['text'], o['goal'], ' REFUTED ' + o['refuted'] if o['refuted'] else ''))
    for u in unreached: print('  not reached: %s: %s' % (u['goal'], u['reason']))
    if perr: print('  verifier: ' + perr)
    if derr: print('  driver: ' + derr[:400])
    if line:
        if fail: print('  ' + fail.splitlines()[0])
        print(line); return 1
    if proved: return 0
    if exe and cases > 0:
        print('  BOUNDED: %d concrete cases stand in for what the verifier did not decide' % cases)
        return 0
    return 2
if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
