#!/usr/bin/env python3
"""check.py <property> [quick|thorough]     build the simulator from /repo's working tree and search
   check.py replay <file>                   re-execute one recorded scenario against /repo's working tree
Exit 0: no violation on everything explored; 1: VIOLATION line printed; anything else: no answer."""
import array, os, sys, json, time, shutil, subprocess, concurrent.futures as cf, atexit
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V + '/sim')
import buildlib, spec
FIND = V + '/known_findings.txt'
JOBS = min(8, os.cpu_count() or 8)

def scratch(tag):
    d = f'{V}/.build/{tag}-{os.getpid()}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True))
    return d
def findings(pid):
    r = []
    for l in open(FIND):
        if l.startswith('finding '):
            k = dict(w.split('=', 1) for w in l.split(' :: ')[0].split()[1:])
            if k['property'] == pid: r.append((k, l.split(' :: ')[1].strip()))
    return r
def env():
    return dict(os.environ, DPMSIM_FINDINGS=FIND)
def run_worker(binary, pid, seed, first, stride, count, secs, out):
    r = subprocess.run([binary, 'run', pid, str(seed), str(first), str(stride), str(count), str(secs), out], capture_output=True, text=True, env=env(), timeout=secs + 300)
    v, st, un = None, None, []
    for l in open(out) if os.path.exists(out) else ():
        k, j = l.split(' ', 1)
        if k == 'violation': v = json.loads(j)
        elif k == 'stats': st = json.loads(j)
        elif k == 'unstable': un.append(json.loads(j))
    if st is None: raise RuntimeError(f'worker died rc={r.returncode}: {r.stderr[-500:]}')
    return v, st, un
def replay(binary, f):
    r = subprocess.run([binary, 'replay', f], capture_output=True, text=True, env=env(), timeout=120)
    return r.returncode, r.stdout.strip()
def add(a, b):
    for k, x in b.items():
        if isinstance(x, dict): add(a.setdefault(k, {}), x)
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            a[k] = max(a.get(k, 0), x) if k in ('max_instructions', 'entries') else a.get(k, 0) + x
        elif isinstance(x, str) and k == 'hash': a.setdefault('hashes', []).append(x)
    return a

def main():
    if sys.argv[1] == 'setup':
        for l in open(FIND): assert l.startswith(('#', 'fixed: ', 'finding ', '\n')), l
        subprocess.run(['g++', '--version'], check=True, stdout=subprocess.DEVNULL); print('nothing to build ahead: every check builds its simulator from /repo'); return 0
    if sys.argv[1] == 'replay':
        head = dict(l.split(' ', 1) for l in open(sys.argv[2]).read().split('\n')[:4])
        pid, c = head['property'].strip(), head['config'].strip(); d = scratch('replay'); sp = spec.SPEC[pid]
        b = sp.build(d, [c])
        rc, out = replay(b[c], os.path.abspath(sys.argv[2])); print(out); return rc
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); sp = spec.SPEC[pid]; t0 = time.time()
    cfgs = list(sp.configs) + (spec.DEEP if sp.configs is spec.ALLC and (tier != 'quick' or pid in spec.DEEP_QUICK) else [])
    d = scratch(pid); binaries = sp.build(d, cfgs); t1 = time.time()
    if sp.dropped: print(f'note: {len(sp.dropped)} wrappers no longer compile: {sp.dropped[:5]}')
    count, secs = sp.quick if tier == 'quick' else sp.thorough
    per = -(-JOBS // len(cfgs)); work = [(c, k, per) for c in cfgs for k in range(per)]
    tot, viol, unst, perc = {}, [], [], {}
    with cf.ThreadPoolExecutor(len(work)) as ex:
        fs = {ex.submit(run_worker, binaries[c], pid, seed, k, n, count, secs, f'{d}/{c}_{k}.out'): (c, k) for c, k, n in work}
        for f in cf.as_completed(fs):
            c, k = fs[f]; v, st, un = f.result(); add(tot, st); add(perc.setdefault(c, {}), {x: st[x] for x in ('runs', 'calls', 'instructions') if x in st}); unst += un
            if v: viol.append((c, v))
    viol.sort(key=lambda x: (x[0], x[1]['run']))
    confirmed = []
    for c, v in viol:
        # gate: two fresh processes must reproduce the same violation with the same event-log hash
        a, b = replay(binaries[c], v['replay']), replay(binaries[c], v['replay'])
        ok = a == b and a[0] == 1 and f"hash={int(v['hash'], 16):016x}" in a[1]
        if not ok: unst.append({'config': c, 'run': v['run'], 'first': v['msg'], 'second': a[1]}); continue
        os.makedirs(V + '/replays', exist_ok=True); p = f"{V}/replays/{pid}-{c}-s{seed}-r{v['run']}.replay"; shutil.copy(v['replay'], p)
        confirmed.append((c, v, p))
    hs, ss = set(), set()
    for c, k, n in work:
        for suf, acc in (('hashes', hs), ('states', ss)):
            a = array.array('Q'); q = f'{d}/{c}_{k}.out.{suf}'
            if os.path.exists(q): a.frombytes(open(q, 'rb').read())
            acc.update((c, x) for x in a)
    # determinism proof of this very build: the same seeds in two more processes
    c0 = sp.configs[0]; det = [subprocess.run([binaries[c0], 'determinism', pid, str(seed), '40'], capture_output=True, text=True, env=env()).stdout for _ in range(2)]
    wall = time.time() - t0; fl = findings(pid)
    cov = {'evaluations': tot.get('runs', 0), 'distinct_nontrivial': len(hs), 'rule': sp.rule,
           'samples': sp.samples(binaries[c0], pid, seed, env()),
           'runs_per_hour': int(tot.get('runs', 0) / max(1e-9, time.time() - t1) * 3600), 'seed_rule': f'run i of seed {seed} uses splitmix64(mix(seed, property, i)); every run is its own seed',
           'simulated_time': {'unit': 'library instructions executed one at a time under the scheduler', 'value': tot.get('instructions', 0)},
           'faults_injected': {k: int(tot.get(v, 0)) for k, v in sp.faults.items()}, 'library_calls': tot.get('calls', 0),
           'distinct_states': {'measure': sp.state_rule, 'value': len(ss)}, 'per_config': perc, 'wrapped_operations': {'linked': tot.get('entries', 0), 'not_compiling': len(sp.dropped)},
           'checks_made': {k: int(tot.get(v, 0)) for k, v in sp.checks.items()}, 'longest_call_instructions': tot.get('max_instructions', 0), 'known_finding_hits': tot.get('hits', {}),
           'components_real': sp.real, 'components_stubbed': sp.stub,
           'determinism': {'in_process_repeats': tot.get('dcheck', 0), 'mismatches': tot.get('dbad', 0), 'cross_process_runs': 40, 'cross_process_equal': det[0] == det[1] and len(det[0]) > 0},
           'unstable_reports_suppressed': unst[:5], 'build_s': round(t1 - t0, 1),
           'violations_found': [{'config': c, 'msg': v['msg'], 'run': v['run'], 'replay': p} for c, v, p in confirmed]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': sp.level, 'coverage': cov, 'assumptions': sp.assumptions, 'wall_s': round(wall, 1), 'violations': len(confirmed)}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for k, text in fl: print(f"KNOWN-FINDING: property={pid} {k['id']}: {text} (met {tot.get('hits', {}).get(k['id'], 0)} times)")
    print(f"{pid} {tier}: {tot.get('runs', 0)} runs, {tot.get('calls', 0)} calls, {tot.get('instructions', 0)} stepped instructions, {len(ss)} states, build {t1 - t0:.0f} s, total {wall:.0f} s, dbad={tot.get('dbad', 0)}, unstable={len(unst)}")
    for c, v, p in confirmed:
        print(f"VIOLATION property={pid} replay={p}"); print('  ' + v['msg'][:600])
    return 1 if confirmed else 0
if __name__ == '__main__':
    try: sys.exit(main())
    except Exception as e:
        import traceback; traceback.print_exc(); print('no answer:', e); sys.exit(3)
