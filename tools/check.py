#!/usr/bin/env python3
"""check.py ID: decides one property of /repo's current tree by symbolic execution.

Exit 0: held on everything explored.  Exit 1: a counterexample that replays
against the real code (line VIOLATION property=ID replay=PATH).  Exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
REPO = os.environ.get('SX_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LL = '/usr/lib/llvm-18/bin/'
B = os.path.join(V, 'build')
REDEF = []
for s in 'lock unlock trylock init destroy'.split(): REDEF.append(f'pthread_mutex_{s}=sxn_mutex_{s}')
for s in 'init settype destroy'.split(): REDEF.append(f'pthread_mutexattr_{s}=sxn_mutexattr_{s}')
REDEF += ['_Znwm=sxn_new', '_Znam=sxn_newa', '_ZdlPv=sxn_delete', '_ZdaPv=sxn_deletea', '_ZdlPvm=sxn_delete_sz', '_ZdaPvm=sxn_delete_sza',
          '_ZnwmSt11align_val_t=sxn_new_al', '_ZdlPvmSt11align_val_t=sxn_delete_sz_al', '_ZnwmRKSt9nothrow_t=sxn_new_nt', '_ZdlPvRKSt9nothrow_t=sxn_delete_nt',
          'malloc=sxn_malloc', 'free=sxn_free']
CXX = ['-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-g1', '-DBOOST_ENABLE_ASSERT_HANDLER', '-w',
       '-I' + V + '/engine', '-I' + V + '/harness', '-I' + V + '/shim', '-I' + REPO + '/include']


class NoAnswer(Exception): pass


def run(cmd, timeout=600, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)
    if p.returncode: raise NoAnswer(f"{' '.join(cmd)[:300]}\n{p.stdout[-6000:]}")
    return p.stdout


def newer(out, *src): return os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in src)


def setup():
    os.makedirs(B, exist_ok=True)
    E = V + '/engine/'
    if not newer(B + '/sx', E + 'sx.cpp'): run(['bash', E + 'build.sh'])
    if not newer(B + '/rt.bc', E + 'runtime.cpp'): run([LL + 'clang++', '-std=c++17', '-O1', '-fno-builtin', '-g1', '-w', '-emit-llvm', '-c', E + 'runtime.cpp', '-o', B + '/rt.bc'])
    if not newer(B + '/nrt.o', E + 'native_rt.cpp'): run(['g++', '-std=c++17', '-O1', '-w', '-c', E + 'native_rt.cpp', '-o', B + '/nrt.o'])


class TU:
    def __init__(self, src, run_dir, defs=()):
        self.src, self.defs = src, list(defs)
        self.name = re.sub(r'\W', '_', src + ''.join(self.defs)); self.d = os.path.join(run_dir, self.name); os.makedirs(self.d, exist_ok=True)
        self.err = None; self.bc_ready = threading.Event(); self.rep_ready = threading.Event(); self.lock = threading.Lock(); self.rep_started = False

    def build(self):
        try:
            t0 = time.time()
            run([LL + 'clang++'] + CXX + self.defs + ['-emit-llvm', '-c', f'{V}/harness/{self.src}', '-o', self.d + '/h.bc'])
            run([LL + 'llvm-link', self.d + '/h.bc', B + '/rt.bc', '-o', self.d + '/full.bc'])
            self.t = time.time() - t0
        except NoAnswer as e: self.err = 'harness does not build: ' + str(e)
        except Exception as e: self.err = repr(e)
        self.bc_ready.set()

    def replay_bin(self):
        with self.lock:
            if not self.rep_started:
                self.rep_started = True; d = self.d
                try:
                    run([LL + 'opt', '-passes=forceattrs,tsan-module,function(tsan)', '-force-attribute=sanitize_thread', d + '/h.bc', '-o', d + '/rep.bc'])
                    run([LL + 'clang++', '-c', '-O0', '-fPIC', '-w', d + '/rep.bc', '-o', d + '/rep.o'])
                    run(['objcopy'] + ['--redefine-sym=' + r for r in REDEF] + [d + '/rep.o'])
                    run(['g++', '-rdynamic', d + '/rep.o', B + '/nrt.o', '-o', d + '/rep', '-ldl'])
                except Exception as e: self.rep_err = 'replay build: ' + str(e)
                else: self.rep_err = None
        if self.rep_err: raise NoAnswer(self.rep_err)
        return self.d + '/rep'


def replay(binp, case, fill=0xBE):
    try: p = subprocess.run([binp, case], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60, env=dict(os.environ, SX_FILL=str(fill)))
    except subprocess.TimeoutExpired: return 'VIOLATION', 'no termination', []
    tr = [l for l in p.stdout.splitlines() if l.startswith('t ')]
    m = re.search(r'REPLAY (OK|VIOLATION|DIVERGED) ?(.*)', p.stdout)
    if not m: return 'CRASH', p.stdout[-300:] + f' rc={p.returncode}', tr
    return m.group(1), m.group(2), tr


def demangle(names):
    try: return subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=30).stdout.splitlines()
    except Exception: return names


def main():
    if len(sys.argv) == 2 and sys.argv[1] == '--setup': setup(); print('engine ready'); return 0
    pid = sys.argv[1]; prop = PROPS[pid]; only = sys.argv[2:]
    t0 = time.time(); total = prop.get('budget', {}).get(TIER, 780 if TIER == 'quick' else 3 * 3600)
    rd = os.path.join(B, 'run-' + pid + ('' if not only else '-x')); shutil.rmtree(rd, ignore_errors=True); os.makedirs(rd)
    setup()
    jobs = [dict(j) for j in prop['jobs'] if TIER in j.get('tiers', ('quick', 'thorough')) and (not only or j['entry'] in only)]
    tus = {}
    for j in jobs:
        k = (j['tu'], tuple(j.get('defs', ())))
        if k not in tus: tus[k] = TU(j['tu'], rd, k[1])
        j['TU'] = tus[k]
    bsem = threading.Semaphore(8)
    def b(t):
        with bsem: t.build()
    for t in tus.values(): threading.Thread(target=b, args=(t,), daemon=True).start()
    cond = threading.Condition(); avail = [8]; stop = threading.Event(); results = []; problems = []; notes = []; viols = []; lock = threading.Lock()
    validated = [0]; sample_cases = []
    known = []
    kf = V + '/known-findings.txt'
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) entry=(\S+) msg=(.*)', l.strip())
            if m: known.append(m.groups())

    def job(i, j):
        tu = j['TU']; tu.bc_ready.wait()
        if tu.err:
            with lock:
                if j.get('optional'): notes.append(f"{j['entry']}: not run, the internal interface it drives has changed: {tu.err[:300]}")
                else: problems.append(tu.err)
            return
        tier = j.get(TIER) or {}; w = tier.get('workers', j.get('workers', 2))
        with cond:
            while avail[0] < w and avail[0] < 8 and not stop.is_set(): cond.wait(1)
            avail[0] -= w
        try:
            if stop.is_set(): return
            out = os.path.join(rd, f"{i:02d}-{j['entry']}"); os.makedirs(out, exist_ok=True)
            dl = max(5, min(tier.get('deadline', 1e9), total - (time.time() - t0) - 30))
            cmd = [B + '/sx', tu.d + '/full.bc', '--entry', j['entry'], '--out', out, '--workers', str(w), '--deadline', str(dl), '--seed', str(SEED), '--samples', str(j.get('samples', 3))]
            if 'preempt' in tier or 'preempt' in j: cmd += ['--preempt', str(tier.get('preempt', j.get('preempt')))]
            ms = tier.get('maxsteps', j.get('maxsteps'));
            if ms: cmd += ['--maxsteps', str(ms)]
            for k, v in tier.get('params', {}).items(): cmd += ['--param', f'{k}={v}']
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
            try: so, _ = p.communicate(timeout=dl + 60)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9); p.communicate()
                with lock: problems.append(f"{j['entry']}: executor hung");
                return
            try: r = json.load(open(out + '/result.json'))
            except Exception:
                with lock: problems.append(f"{j['entry']}: executor failed: {so[-800:]}")
                return
            print(so.strip().splitlines()[-1] if so.strip() else j['entry'], flush=True)
            r['params'] = tier.get('params', {}); r['job'] = j
            cases = sorted(f for f in os.listdir(out) if f.startswith('viol_'))
            ok_viol = False
            for c in cases:
                cp = os.path.join(out, c); txt = open(cp).read(); msg = (re.search(r'^msg (.*)$', txt, re.M) or [0, '?'])[1]
                got = None; rb = tu.replay_bin()
                for fill in (0xBE, 0, 1, 0xFF):
                    st, m, tr = replay(rb, cp, fill)
                    if st in ('VIOLATION', 'CRASH'): got = (m, fill); break
                if got:
                    with lock: viols.append((j['entry'], msg, cp, got[0], tu, j)); 
                    ok_viol = True
                else:
                    with lock: problems.append(f"{j['entry']}: counterexample '{msg}' does not replay ({st} {m}) case {cp}")
            if ok_viol:
                if not all(any(k[0] == pid and k[1] == v[0] and k[2] in v[1] for k in known) for v in viols): stop.set()
            else:
                for flag, txt in ((r['timeout'], 'exploration did not finish within the time budget'), (r['unknown'], 'solver answered unknown'), (r['crashed'], 'executor crashed: ' + so[-300:]), (r['incomplete'], 'not encodable: ' + r['incomplete_msg'])):
                    if flag and not (stop.is_set()):
                        with lock: problems.append(f"{j['entry']}: {txt}")
                if not cases and r['missing_labels'] and not r['timeout']:
                    with lock: problems.append(f"{j['entry']}: vacuity witness not reached: {r['missing_labels']}")
                if not cases and r['paths'] == 0:
                    with lock: problems.append(f"{j['entry']}: no path completed")
                for s in sorted(f for f in os.listdir(out) if f.startswith('sample_')):
                    sp = os.path.join(out, s); txt = open(sp).read(); want = re.findall(r'^t .*$', txt, re.M); st, m, tr = replay(tu.replay_bin(), sp)
                    if st == 'OK' and tr == want:
                        validated[0] += 1
                        if len(sample_cases) < 8 and s == 'sample_0.case': sample_cases.append({'entry': j['entry'], 'case': [l for l in txt.splitlines() if l[:2] in ('i ', 'f ', 's ', 't ')][:40]})
                    else:
                        with lock: problems.append(f"{j['entry']}: sample path does not replay identically ({st} {m}) {sp}")
            with lock: results.append(r)
        except NoAnswer as e:
            with lock: problems.append(str(e))
        except Exception as e:
            with lock: problems.append(f"{j['entry']}: {e!r}")
        finally:
            with cond: avail[0] += w; cond.notify_all()

    ths = [threading.Thread(target=job, args=(i, j)) for i, j in enumerate(jobs)]
    for t in ths: t.start()
    for t in ths: t.join()
    rc = 0; reported = []
    rp = os.path.join(V, 'replays'); seen = set()
    for e, msg, cp, m, tu, j in viols:
        kn = [k for k in known if k[0] == pid and k[1] == e and k[2] in msg]
        if kn:
            if (e, msg) not in seen: print(f'KNOWN-FINDING: property={pid} {e}: {msg}')
            seen.add((e, msg)); continue
        if (e, msg) in seen: continue
        seen.add((e, msg)); os.makedirs(rp, exist_ok=True)
        dst = os.path.join(rp, f'{pid}-{e}-{len(reported)}.case'); shutil.copy(cp, dst)
        with open(dst, 'a') as f: f.write(f"\n# property {pid}\n# harness harness/{j['tu']} defs {' '.join(j.get('defs', ()))}\n# native replay: {m}\n# replay: python3 {V}/tools/replay.py {dst}\n")
        print(f'counterexample in {e}: {msg}  [native replay: {m}]'); reported.append(dst)
    if reported:
        rc = 1
        for d in reported: print(f'VIOLATION property={pid} replay={d}')
    elif problems:
        rc = 2
    for p in notes: print('NOTE', p)
    for p in problems: print('PROBLEM', p, file=sys.stderr)
    # evidence
    s = lambda k: sum(r[k] for r in results)
    fn = sorted(set(x for r in results for x in r['functions'])); lines = {}
    for r in results:
        for f, l in r['lines'].items(): lines.setdefault(f.split('/include/')[-1], set()).update(l)
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(reported),
          'assumptions': prop.get('assumptions', []) + ['bounds per entry as listed under jobs; nothing outside them is claimed', 'sequentially consistent interleavings with the stated preemption bound; data-race freedom is checked separately by happens-before',
                                                         'IR of clang 18 -O1; C++ runtime replaced by engine/runtime.cpp'],
          'coverage': {'states': s('forks') + s('paths') + s('sched_forks'), 'transitions': s('steps'), 'traces_validated_against_impl': validated[0], 'samples': sample_cases,
                       'paths': s('paths'), 'solver_queries': s('queries'), 'solver_sat': s('sat'), 'solver_unsat': s('unsat'), 'solver_s': round(s('solver_s'), 2), 'assertions_evaluated': s('asserts'), 'assertions_symbolic': s('symbolic_asserts'), 'schedule_forks': s('sched_forks'), 'fault_forks': s('fault_forks'),
                       'jobs': [{'entry': r['entry'], 'harness': r['job']['tu'], 'defs': list(r['job'].get('defs', ())), 'bounds': r['params'], 'about': r['job'].get('about', ''), 'preemption_bound': r['preempt'] if r['sync_points'] else None, 'paths': r['paths'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'witness_labels': r['labels'], 'complete': not (r['timeout'] or r['incomplete'] or r['unknown'] or r['crashed'])} for r in results],
                       'functions_encoded': len(fn), 'functions': demangle(fn), 'lines_encoded': {f: len(l) for f, l in sorted(lines.items())},
                       'exhaustive': rc == 0, 'problems': problems, 'notes': notes, 'counterexamples': [{'entry': v[0], 'msg': v[1], 'native': v[3]} for v in viols[:20]]}}
    if not only:
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f"{pid}: {'ok' if rc == 0 else 'VIOLATED' if rc == 1 else 'NO ANSWER'} entries={len(results)} paths={s('paths')} queries={s('queries')} validated={validated[0]} wall={time.time()-t0:.1f}s")
    if not only and not os.environ.get('SX_KEEP'): shutil.rmtree(rd, ignore_errors=True)
    return rc


if __name__ == '__main__':
    try: sys.exit(main())
    except NoAnswer as e: print('PROBLEM', e, file=sys.stderr); sys.exit(2)
