#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree.

Builds the harness (and the code under test with it) to LLVM IR, executes every harness entry
symbolically with symx, replays counterexamples and sampled path models natively, and writes
evidence/<id>.json.  Exit 0: held; 1: VIOLATION line printed; 2: no answer (error of the check)."""
import concurrent.futures as cf, glob, json, os, random, re, resource, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec
ENGINE = f'{V}/symx/target/release/symx'
def say(*a): print(*a, flush=True)
def die(msg, code=2):
    say('ERROR', msg); sys.exit(code)

def build(bins):
    def engine():
        env = dict(os.environ, CARGO_NET_OFFLINE='true'); env.pop('RUSTFLAGS', None); env.pop('CARGO_TARGET_DIR', None)
        p = subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=f'{V}/symx', env=env, capture_output=True, text=True)
        return p.returncode, p.stderr[-3000:]
    def harness(feat, names):
        for b in names:
            p = subprocess.run([f'{V}/build.sh', b] + ([feat] if feat else []), capture_output=True, text=True)
            if p.returncode: return p.returncode, p.stderr[-4000:]
        return 0, ''
    groups = {}
    for b, f in bins: groups.setdefault(f, []).append(b)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(engine)] + [ex.submit(harness, f, n) for f, n in groups.items()]
        for f in fs:
            rc, err = f.result()
            if rc: die('build failed\n' + err)

def paths(b, feat):
    d = f'{V}/build/t' + (f'-{feat}' if feat else '') + '/release'
    ll = glob.glob(f'{d}/deps/{b}-*.ll')
    if len(ll) != 1: die(f'{len(ll)} IR files for {b}')
    return ll[0], f'{d}/{b}'

def prints(b, feat, entry, case, data):
    """does the native run print to standard output?"""
    f = f'{V}/build/replay-{os.getpid()}-{random.getrandbits(64):x}.bin'
    open(f, 'wb').write(data)
    try:
        p = subprocess.run([paths(b, feat)[1], entry, str(case)], env={'SYM_REPLAY': f}, capture_output=True, timeout=20, stdin=subprocess.DEVNULL)
        return (1 if p.stdout else 0), repr(p.stdout[:200])
    finally: os.unlink(f)

def native(b, feat, entry, case, data, limit_as=None, timeout=20):
    exe = paths(b, feat)[1]
    f = f'{V}/build/replay-{os.getpid()}-{random.getrandbits(64):x}.bin'
    open(f, 'wb').write(data)
    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit_as: resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    full = open('/dev/full', 'w')   # printing to standard output fails
    try:
        p = subprocess.run([exe, entry, str(case)], env={'SYM_REPLAY': f}, stdout=full, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, preexec_fn=pre, stdin=subprocess.DEVNULL)
        return p.returncode, p.stderr[-600:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        full.close()
        os.unlink(f)

def demangle(m):
    """readable path of a v0-mangled name (identifiers only)"""
    if not m.startswith('_R'): return m
    out, i = [], 2
    while i < len(m):
        c = m[i]
        if c.isdigit():
            j = i
            while j < len(m) and m[j].isdigit(): j += 1
            n = int(m[i:j]); i = j
            if i < len(m) and m[i] == '_': i += 1
            out.append(m[i:i + n]); i += n
        elif c == 's' and '_' in m[i:]:   # disambiguator
            i = m.index('_', i) + 1
        elif c == 'C' and i + 1 < len(m) and m[i + 1] == 's':
            i = m.index('_', i) + 1
        else: i += 1
    return '::'.join(x for x in out if x)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    random.seed(seed)
    prop = next((p for p in spec.PROPS if p['id'] == pid), None)
    if not prop: die(f'unknown property {pid}')
    t0 = time.time()
    jobs = []
    for j in prop['jobs']:
        for c in (j.quick if tier == 'quick' else j.thorough): jobs.append((j, c))
    build(sorted({(j.bin, j.feat) for j, _ in jobs}))
    t_build = time.time() - t0
    deadline = t0 + (840 if tier == 'quick' else 12 * 3600)
    known = spec.known_findings(pid)
    jobs.sort(key=lambda jc: -jc[0].weight)
    stop = []
    def run(jc):
        j, c = jc
        if stop: return j, c, None
        left = deadline - time.time() - 30
        if left < 5: return j, c, {'status': 'error', 'errors': ['no time left for this case']}
        lim = min(left, j.timeout or (300 if tier == 'quick' else 6 * 3600))
        cmd = [ENGINE, paths(j.bin, j.feat)[0], '--entry', j.entry, '--case', str(c), '--timeout', str(int(lim)), '--samples', '12'] + [str(x) for x in j.opts]
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        try: d = json.loads(p.stdout)
        except Exception: return j, c, {'status': 'error', 'errors': [f'engine exit {p.returncode}: {p.stdout[-200:]} {p.stderr[-300:]}']}
        if d['status'] == 'violation':
            v = d['violations'][0]
            as_lim = (64 << 20) if v['kind'] == 'alloc' else (4 << 30)
            d['replay'] = prints(j.bin, j.feat, j.entry, c, bytes.fromhex(v['input'])) if v['kind'] == 'output' else native(j.bin, j.feat, j.entry, c, bytes.fromhex(v['input']), as_lim)
            for a in v['alts']:
                # further models of the same failing assertion
                if d['replay'][0] not in (0, 77): break
                v['input'] = a
                d['replay'] = native(j.bin, j.feat, j.entry, c, bytes.fromhex(a), as_lim)
            if d['replay'][0] not in (0, 77) and not any(k in v['msg'] for k in known): stop.append(1)
        elif d['status'] == 'ok':
            bad = []
            for s in d['samples']:
                r = native(j.bin, j.feat, j.entry, c, bytes.fromhex(s))
                if r[0] != 0: bad.append((s, r))
            d['native_runs'] = len(d['samples']); d['native_bad'] = bad
        return j, c, d
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex: results = list(ex.map(run, jobs))

    os.makedirs(f'{V}/replay', exist_ok=True)
    violations, errors, findings, inconclusive = [], [], [], []
    for j, c, d in results:
        if d is None: continue
        name = f'{j.entry}({c})'
        # texts of symbolic numbers are abstracted: a case this cannot settle is left to the entries on the real text
        if '--text' in j.opts and (d['status'] == 'error' or d['status'] == 'violation' and d['replay'][0] in (0, 77)): inconclusive.append(f"{name}: {'; '.join(d['errors'])[:300] or 'counterexample of the abstraction only'}"); continue
        if d['status'] == 'error': errors.append(f"{name}: {'; '.join(d['errors'])[:700]}")
        elif d['status'] == 'violation':
            v = d['violations'][0]; rc, err = d['replay']
            if rc in (0, 77): errors.append(f"{name}: {v['kind']} '{v['msg']}' does not reproduce natively (exit {rc})"); continue
            k = next((k for k in known if k in v['msg']), None)
            if k: findings.append((k, name)); continue
            violations.append((j, c, v['kind'], v['msg'], v['input'], rc, err, v['stack'][:12]))
        else:
            for s, (rc, err) in d['native_bad']:
                # the real code fails the harness on an input of an explored path: a concrete counterexample the encoding missed
                if rc == 77: errors.append(f'{name}: sampled model violates an assumption natively')
                else: violations.append((j, c, 'native', f'native run of an explored path fails (exit {rc}) {err.strip()[-200:]}', s, rc, err, []))
            if j.reach and not d['labels'].get(j.reach): errors.append(f'{name}: vacuous, no path reaches "{j.reach}"')

    ok = [(j, c, d) for j, c, d in results if d and 'paths' in d]
    tot = lambda k: sum(d.get(k, 0) for _, _, d in ok)
    lines, fns = {}, set()
    for _, _, d in ok:
        for f, l in d['lines'].items(): lines.setdefault(f, set()).update(l)
        fns.update(demangle(f) for f in d['functions'])
    smp = []
    for j, c, d in ok:
        if d['samples'] and len(smp) < 12: smp.append({'harness': j.entry, 'case': c, 'input': random.choice(d['samples'])[:400], 'native_exit': 0 if not d.get('native_bad') else 'see violations'})
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'), 'transitions': tot('instructions'),
            'traces_validated_against_impl': sum(d.get('native_runs', 0) for _, _, d in ok) + len(violations),
            'samples': smp or ['no path completed'],
            'states_meaning': 'symbolic paths, each standing for every input that satisfies its path condition',
            'transitions_meaning': 'LLVM IR instructions executed symbolically',
            'harness_runs': len(ok), 'harness_entries': sorted({j.entry for j, _, _ in ok}),
            'paths_completed': tot('done'), 'assertions_decided': tot('checks'), 'assertions_sent_to_solver': tot('checks_solver'),
            'branch_feasibility_by_byte_domain': tot('branch_domain'), 'branch_feasibility_by_solver': tot('branch_solver'),
            'pruned_branches_refuted_by_solver': tot('domain_confirmed'), 'path_conditions_confirmed_by_solver': tot('pc_confirmed'),
            'solver_queries': tot('solver_queries'), 'solver_cache_hits': tot('solver_cache_hits'), 'solver_s': round(tot('solver_s'), 3),
            'solver_max_query_s': max([d['solver_max_s'] for _, _, d in ok] or [0]), 'solver': 'z3 (libz3), quantifier-free bit-vectors',
            'max_symbolic_bytes_on_a_path': max([d['symbolic_bytes'] for _, _, d in ok] or [0]),
            'functions_encoded': sorted(fns), 'source_lines_executed': {f: len(l) for f, l in sorted(lines.items())},
            'bounds': prop['bounds'], 'outside_bounds': prop['outside'],
            **({'inconclusive_cases': inconclusive} if inconclusive else {}),
            'build_s': round(t_build, 1), 'engine_cpu_s': round(tot('wall_s'), 1),
        },
        'assumptions': spec.ASSUMPTIONS + prop.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(violations),
    }
    os.makedirs(f'{V}/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for k in sorted({k for k, _ in findings}): say(f'KNOWN-FINDING: property={pid} {k}')
    for j, c, kind, msg, inp, rc, err, stack in violations:
        f = f'{V}/replay/{pid}-{j.entry}-{c}.json'
        open(f[:-5] + '.bin', 'wb').write(bytes.fromhex(inp))
        json.dump({'property': pid, 'harness': j.entry, 'case': c, 'kind': kind, 'message': msg, 'input': inp, 'native_exit': rc, 'native_stderr': err, 'stack': stack,
                   'how': f"./build.sh {j.bin} {j.feat or ''} && SYM_REPLAY={f[:-5]}.bin {paths(j.bin, j.feat)[1]} {j.entry} {c}"}, open(f, 'w'), indent=1)
        say(f'{j.entry}({c}): {kind}: {msg} [native exit {rc}]')
        say(f'VIOLATION property={pid} replay={f}')
    for e in inconclusive: say('INCONCLUSIVE', e)
    for e in errors: say('ERROR', e)
    say(f"{pid} {tier}: {len(ok)} harness runs, {tot('paths')} paths, {tot('solver_queries')} solver queries ({tot('solver_s'):.1f} s), build {t_build:.0f} s, wall {time.time() - t0:.0f} s")
    sys.exit(1 if violations else 2 if errors else 0)
main()
