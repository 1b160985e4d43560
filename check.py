#!/usr/bin/env python3
"""Decides one property of substrate-parser by symbolic execution.

  check.py P02 [--tier quick|thorough]   decide the property
  check.py --replay FILE                 run a reported violation on the machine
  check.py --setup                       build everything once

Every run rebuilds the harness against /repo's working tree, takes the LLVM IR
of the whole program, executes it symbolically with symex (over Z3), and
re-runs counterexamples and a sample of the explored paths natively.
Exit: 0 the property held on everything explored; 1 violated; 2 no answer.
"""
import concurrent.futures, fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
H = V + '/harness'
SYMEX = V + '/symex/target/release/symex'
TC = 'stable-x86_64-unknown-linux-gnu'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true')
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS'):
    ENV.pop(k, None)
ALL = (1 << 64) - 1
CPUS = os.cpu_count() or 4
GRACE = 60  # seconds other parts go on once a violation is found

sys.path.insert(0, V)
import jobs as J


class NoAnswer(Exception):
    pass


def sh(cmd, cwd=None, env=None, what=None):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer(f'{what or cmd[0]} failed:\n{r.stdout[-4000:]}')
    return r.stdout


def tools():
    d = glob.glob(os.path.expanduser(f'~/.rustup/toolchains/{TC}/lib/rustlib/x86_64-unknown-linux-gnu/bin'))
    if not d:
        raise NoAnswer('llvm-tools of the stable toolchain not found')
    return d[0]


def build_symex():
    sh(['cargo', 'build', '--release', '--offline'], V + '/symex', what='symex build')


def forget_parser(target):
    """The parser and the harness are compiled anew, whatever the timestamps say."""
    for p in ('deps/vh[-.]*', 'deps/libvh*', 'deps/*substrate_parser*', '.fingerprint/substrate_parser-*', '.fingerprint/vh-*', 'libvh*', 'vh.wasm'):
        for f in glob.glob(f'{target}/{p}'):
            shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)


def to_ll(deps, entries, out):
    b = tools()
    bc = glob.glob(f'{deps}/vh[-.]*.lto.after-restriction.bc')
    if len(bc) != 1:
        raise NoAnswer(f'expected one whole-program bitcode file, found {bc}')
    sh([b + '/opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join(entries), '--strip-debug',
        bc[0], '-o', out + '.bc'], what='opt')
    sh([b + '/llvm-dis', out + '.bc', '-o', out + '.ll'], what='llvm-dis')
    os.remove(out + '.bc')


def build_host(entries, out):
    t = H + '/target/release'
    forget_parser(t)
    sh(['cargo', 'rustc', '--release', '--offline', '--lib', '--crate-type', 'staticlib', '--', '-C', 'save-temps'], H, what='harness build')
    to_ll(t + '/deps', entries, out + '/host')
    libs = ['-lpthread', '-ldl', '-lm', '-lgcc_s', '-lc']
    sh(['gcc', '-O1', '-o', out + '/replay', V + '/replay/replay.c', '-rdynamic', '-Wl,--whole-archive', t + '/libvh.a',
        '-Wl,--no-whole-archive', '-Wl,--allow-multiple-definition'] + libs, what='replay build')


def build_wasm(entries, out):
    import mkvendor
    vendor = V + '/build/vendor'
    mkvendor.make(vendor, H + '/Cargo.lock', TC)
    tgt = V + '/build/wasm'
    t = tgt + '/wasm32v1-none/release'
    forget_parser(t)
    env = dict(ENV, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=tgt)
    sh(['cargo', '--config', 'source.crates-io.replace-with="v"', '--config', f'source.v.directory="{vendor}"', 'rustc', '--release',
        '--offline', '--lib', '--crate-type', 'cdylib', '--no-default-features', '--target', 'wasm32v1-none', '-Zbuild-std=core,alloc',
        '--', '-C', 'save-temps'], H, env=env, what='wasm32 harness build')
    to_ll(t + '/deps', entries, out + '/wasm')
    shutil.copy(t + '/vh.wasm', out + '/vh.wasm')


def build(entries_by_target, out):
    os.makedirs(out, exist_ok=True)
    with open(V + '/build/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(build_symex)]
            if entries_by_target.get('host'):
                fs.append(ex.submit(build_host, entries_by_target['host'], out))
            if entries_by_target.get('wasm'):
                fs.append(ex.submit(build_wasm, entries_by_target['wasm'], out))
            for f in fs:
                f.result()
        shutil.copy(SYMEX, out + '/symex')


def native(out, target, cases, verbose=False):
    """cases: (entry, params, hex). Returns [(how, asserts, notes)]."""
    text = ''.join(f"{e} {','.join(map(str, p)) or '-'} {h or '-'}\n" for e, p, h in cases)
    cmd = [out + '/replay'] if target == 'host' else ['node', '--stack-size=50000', V + '/replay/replay.mjs', out + '/vh.wasm']
    r = subprocess.run(cmd + (['-v'] if verbose and target == 'host' else []), input=text, text=True, stdout=subprocess.PIPE, stderr=None if verbose else subprocess.DEVNULL)
    res = []
    for line in r.stdout.split('\n'):
        m = re.match(r'(\S+) asserts=(\d+) notes=(\S+)', line)
        if m:
            res.append((m[1], int(m[2]), '' if m[3] == '-' else m[3]))
    if len(res) != len(cases):
        raise NoAnswer(f'replay gave {len(res)} answers to {len(cases)} cases: {r.stdout[-500:]}')
    return res


def run_job(out, job, k, n, deadline, seed, traces, stop):
    left = deadline - time.time()
    if left < 5:
        return {'incomplete': 'no time left for this part', 'violations': [], 'traces': [], 'covers': {}, 'functions': []}
    cmd = [out + '/symex', '--ll', f"{out}/{job['target']}.ll", '--entry', job['entry'], '--params', ','.join(map(str, job['params'])),
           '--max-time', str(int(left)), '--max-traces', str(traces), '--split', f'{k}/{n}', '--seed', str(seed),
           '--max-viol', '100000' if job['all_violations'] else '5']
    for o in ('max-steps', 'max-depth', 'z3-ms', 'max-paths'):
        if o in job:
            cmd += ['--' + o, str(job[o])]
    end = time.time() + left + 30
    with tempfile.TemporaryFile('w+') as so, tempfile.TemporaryFile('w+') as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se)
        why = None
        while p.poll() is None:
            if time.time() > end:
                why = 'symex did not stop in time'
            elif stop and time.time() > stop[0]:
                why = 'stopped, as another part has found a violation'
            if why:
                p.kill()
                p.wait()
                return {'incomplete': why, 'violations': [], 'traces': [], 'covers': {}, 'functions': []}
            try:
                p.wait(0.05 if time.time() - end + left + 30 < 1 else 0.5)
            except subprocess.TimeoutExpired:
                pass
        so.seek(0)
        se.seek(0)
        try:
            return json.loads(so.read())
        except ValueError:
            return {'incomplete': f'symex ended with {p.returncode}: {se.read()[-500:]}', 'violations': [], 'traces': [], 'covers': {}, 'functions': []}


def line_of(ident):
    files = J.FILES
    f = files.get(ident >> 16)
    if not f:
        return f'{ident}', ''
    try:
        line = open(f'{H}/src/{f}').read().split('\n')[(ident & 0xffff) - 1].strip()
    except (OSError, IndexError):
        line = ''
    return f'harness/src/{f}:{ident & 0xffff}', line


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), text=True, stdout=subprocess.PIPE)
    return [re.sub(r'\[[0-9a-f]{8,}\]', '', x) for x in r.stdout.split('\n') if x]


def reproduced(v, how):
    if v['kind'] == 'assert':
        return how.startswith('assert:') or how == 'panic' or how == 'timeout' or how.startswith('signal')
    if v['kind'] == 'hang':
        return how == 'timeout' or how.startswith('signal') or how == 'panic'
    return how == 'panic' or how.startswith('signal') or how == 'timeout' or how.startswith('assert:')


def known(prop):
    try:
        k = json.load(open(V + '/known_findings.json'))
    except OSError:
        return []
    return [f for f in k.get('findings', []) if f['property'] == prop]


def decide(prop, tier, seed):
    t0 = time.time()
    P = J.PROPS[prop]
    todo = [dict(j) for j in P['jobs'] if tier == 'thorough' and 'quick_only' not in j or tier == 'quick' and 'thorough_only' not in j]
    for j in todo:
        j.setdefault('target', 'host')
        j['params'] = j['params_thorough'] if tier == 'thorough' and 'params_thorough' in j else j.get('params', [])
        # behind a known finding there may be others
        j['all_violations'] = any(f['entry'] == j['entry'] for f in known(prop))
        j['splits'] = j.get('splits', 1) * (4 if tier == 'thorough' and j.get('splits', 1) > 1 else 1)
    ents = {}
    for j in todo:
        ents.setdefault(j['target'], [])
        if j['entry'] not in ents[j['target']]:
            ents[j['target']].append(j['entry'])
    out = f'{V}/build/run-{prop}'
    build(ents, out)
    t_build = time.time() - t0
    deadline = t0 + (float(os.environ.get('VERIF_BUDGET', 0)) or (820 if tier == 'quick' else 4 * 3600))
    traces = P.get('traces', 60)
    # heavier parts first
    parts = [(i, k, j['splits']) for i, j in enumerate(todo) for k in range(j['splits'])]
    parts.sort(key=lambda p: -todo[p[0]].get('weight', todo[p[0]]['splits']))
    res, stop = {}, []

    def confirm(i, v):
        """The counterexample, if it is one on the machine as well; or how it is not."""
        j = todo[i]
        how = native(out, j['target'], [(j['entry'], j['params'], v['inputs'])])[0][0]
        if not reproduced(v, how):
            return f"{j['entry']}{j['params']} {v['inputs']}: symbolic {v['kind']} {v['msg']}, native {how}"
        ident = int(how.split(':')[1]) if how.startswith('assert:') else v['id'] if v['kind'] == 'assert' else 0
        where, line = line_of(ident) if ident else (demangle(v['stack'][:1])[0] if v['stack'] else '', v['msg'])
        return {'property': prop, 'entry': j['entry'], 'params': j['params'], 'target': j['target'], 'input_hex': v['inputs'],
                'kind': v['kind'], 'native': how, 'where': where, 'what': line, 'message': v['msg'], 'stack': demangle(v['stack'][:12])}

    def listed_as(c):
        for f in known(prop):
            if f['entry'] == c['entry'] and f['where'] == c['what'] and re.fullmatch(f.get('input_hex', '.*'), c['input_hex']):
                return f
        return None

    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        fs = {ex.submit(run_job, out, todo[i], k, n, deadline, seed + k, max(4, traces // n), stop): (i, k) for i, k, n in parts}
        for f in concurrent.futures.as_completed(fs):
            res[fs[f]] = f.result()
            # a violation is there: the rest need not go on for long
            if not stop:
                for v in res[fs[f]]['violations']:
                    c = confirm(fs[f][0], v)
                    if isinstance(c, dict) and not listed_as(c):
                        stop.append(time.time() + GRACE)
                        break
    tot = {k: 0 for k in ('paths_ok', 'paths_assumed_away', 'paths_viol', 'forks', 'instructions', 'asserts_checked', 'asserts_solver',
                          'symbolic_branches', 'dom_decided', 'z3_queries', 'z3_cache_hits')}
    z3s, funcs, incomplete, viols, report, samples = 0.0, set(), [], [], [], []
    for i, j in enumerate(todo):
        cov, jt, jp = {}, 0, 0
        rs = [res[(i, k)] for k in range(j['splits'])]
        for r in rs:
            for k in tot:
                tot[k] += r.get(k, 0)
            z3s += r.get('z3_s', 0)
            jt = max(jt, r.get('wall_s', 0))
            jp += r.get('paths_ok', 0)
            funcs |= set(r['functions'])
            for c, n in r['covers'].items():
                cov[int(c)] = cov.get(int(c), 0) + n
            if r.get('incomplete'):
                incomplete.append(f"{j['entry']}{j['params']}: {r['incomplete']}")
            for v in r['violations']:
                viols.append((i, v))
        miss = [c for c in j.get('covers', [1]) if not cov.get(c)]
        if miss and not any(r['violations'] for r in rs) and not any(r.get('incomplete') for r in rs):
            incomplete.append(f"{j['entry']}{j['params']}: nothing reached cover point {miss}: the check would be vacuous")
        report.append({'entry': j['entry'], 'params': ['all' if p == ALL else p for p in j['params']], 'target': j['target'],
                       'bound': j.get('bound', ''), 'paths': jp, 'cover_points': cov, 'longest_part_s': jt})
    # sampled paths, run on the machine: same end, same observations
    validated, differ = 0, []
    for tgt in ents:
        cases, want = [], []
        for (i, k), r in res.items():
            if todo[i]['target'] != tgt:
                continue
            for t in r['traces']:
                cases.append((todo[i]['entry'], todo[i]['params'], t['inputs']))
                want.append(t)
        if not cases:
            continue
        got = native(out, tgt, cases)
        for c, w, g in zip(cases, want, got):
            notes = ','.join(f'{a}:{b}' for a, b in w['notes'])
            if (g[0], g[1], g[2]) == (w['end'], w['asserts'], notes):
                validated += 1
                if len(samples) < 12 and w['end'] == 'ok' and len(samples) < 2 + 10 * validated // max(1, len(cases)):
                    samples.append({'entry': c[0], 'params': ['all' if p == ALL else p for p in c[1]], 'input_hex': c[2], 'asserts_on_path': w['asserts'],
                                    'observed': notes, 'native_run': 'agrees'})
            else:
                differ.append(f'{c}: symbolic {w["end"], w["asserts"], notes}, native {g}')
    # counterexamples, run on the machine
    confirmed, spurious, seen = [], [], set()
    for i, v in viols:
        c = confirm(i, v)
        (confirmed if isinstance(c, dict) else spurious).append(c)
    fresh, listed = [], {}
    for c in confirmed:
        f = listed_as(c)
        if f:
            listed[f['what']] = f
        elif (c['entry'], c['where']) not in seen:
            seen.add((c['entry'], c['where']))
            fresh.append(c)
    own = sorted(f for f in funcs if 'substrate_parser' in f)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths_ok'] + tot['paths_assumed_away'] + tot['paths_viol'],
            'transitions': tot['forks'],
            'traces_validated_against_impl': validated,
            'samples': samples,
            'explanation': 'states: symbolic paths explored to their end (each stands for all inputs meeting its path condition); transitions: '
                           'symbolic branches taken both ways or value splits; a trace is validated when the native run of a sampled path '
                           'ends the same way, passes as many assertions and makes the same observations',
            'exhaustive': not incomplete,
            'paths_within_assumptions': tot['paths_ok'],
            'instructions_executed_symbolically': tot['instructions'],
            'assertions_discharged': tot['asserts_checked'],
            'assertions_with_symbolic_condition': tot['asserts_solver'],
            'symbolic_branches': tot['symbolic_branches'],
            'queries_discharged_by_z3': tot['z3_queries'],
            'queries_answered_from_cache': tot['z3_cache_hits'],
            'queries_decided_by_byte_domain': tot['dom_decided'],
            'solver_s': round(z3s, 3),
            'build_s': round(t_build, 1),
            'functions_encoded': len(funcs),
            'functions_encoded_of_substrate_parser': demangle(own),
            'runs': report,
            'bounds': P['bounds'],
            'outside_bounds': P.get('outside', J.OUTSIDE),
        },
        'assumptions': J.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 1), 'violations': len(fresh),
    }
    if incomplete:
        ev['coverage']['not_explored'] = incomplete[:20]
    os.makedirs(V + '/evidence', exist_ok=True)
    with open(f'{V}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for w in listed:
        print(f'KNOWN-FINDING: property={prop} {w}')
    print(f"{prop}: {tot['paths_ok']} paths, {tot['asserts_checked']} assertions, {tot['z3_queries']} solver queries in {z3s:.1f} s, "
          f"{validated} paths replayed, {len(confirmed)} counterexamples, {time.time() - t0:.0f} s")
    code = 0
    if fresh:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        for n, c in enumerate(fresh[:5]):
            path = f'{V}/evidence/replay/{prop}-{n}.json'
            json.dump(c, open(path, 'w'), indent=1)
            print(f"  {c['entry']}{c['params']} input {c['input_hex']}: {c['kind']} at {c['where']} {c['what']} (native: {c['native']})")
            print(f'VIOLATION property={prop} replay={path}')
        code = 1
    elif incomplete or differ or spurious:
        code = 2
    for what, l in (('not explored', incomplete), ('path differs from the machine', differ), ('counterexample does not reproduce', spurious)):
        for x in l[:6]:
            print(f'  {what}: {x}', file=sys.stderr)
    if '--keep' not in sys.argv:
        shutil.rmtree(out, ignore_errors=True)
    return code


def replay(path):
    c = json.load(open(path))
    out = f'{V}/build/replay-{os.getpid()}'
    build({c['target']: [c['entry']]}, out)
    how = native(out, c['target'], [(c['entry'], c['params'], c['input_hex'])], verbose=True)[0]
    shutil.rmtree(out, ignore_errors=True)
    print(f"{c['entry']} {c['params']} {c['input_hex']}: {how[0]}")
    if how[0].startswith('assert:'):
        print('  ', *line_of(int(how[0].split(':')[1])))
    return 0 if how[0] == 'ok' else 1


def main():
    a = sys.argv[1:]
    os.makedirs(V + '/build', exist_ok=True)
    try:
        if a and a[0] == '--setup':
            ents = {}
            for p in J.PROPS.values():
                for j in p['jobs']:
                    ents.setdefault(j.get('target', 'host'), set()).add(j['entry'])
            build({k: sorted(v) for k, v in ents.items()}, V + '/build/setup')
            shutil.rmtree(V + '/build/setup')
            return 0
        if a and a[0] == '--replay':
            return replay(a[1])
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return decide(a[0], tier, int(os.environ.get('VERIF_SEED', '1')))
    except NoAnswer as e:
        print(f'no answer: {e}', file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
