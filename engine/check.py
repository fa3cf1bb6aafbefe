#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] : decides one property on /repo's working tree.

For every contract file of the property: clang emits LLVM IR from the contract (which instantiates the
real headers under /repo/include), the verifier generates and discharges the obligations, refuted
obligations are replayed natively.  Exit 0 / exit 1 + VIOLATION line / other = error of the check."""
import argparse
import json
import multiprocessing as mp
import os
import pickle
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
EVID = os.environ.get('VP_EVID', os.path.join(VERIF, 'evidence'))
sys.path.insert(0, HERE)
sys.setrecursionlimit(50000)

CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT = 'opt-18' if shutil.which('opt-18') else 'opt'


def load_config():
    return json.load(open(os.path.join(VERIF, 'contracts', 'index.json')))


def compile_ir(src, out, defs, extra):
    ll0 = out + '.raw.ll'
    cmd = [CLANG, '-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only',
           '-ffp-contract=off', '-fno-discard-value-names', '-w', '-I' + os.path.join(VERIF, 'contracts'),
           ] + extra + ['-I' + os.path.join(REPO, 'include')] + defs + ['-S', '-emit-llvm', src, '-o', ll0]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        return None, cmd, p.stderr
    p = subprocess.run([OPT, '-S', '-passes=function(sroa)', ll0, '-o', out], capture_output=True, text=True)
    os.unlink(ll0)
    if p.returncode != 0:
        return None, cmd, p.stderr
    return out, cmd, ''


def compile_native(src, out, defs, extra):
    cmd = [CLANG, '-std=c++20', '-O1', '-g', '-w', '-ffp-contract=off', '-DVP_NATIVE', '-D_GLIBCXX_ASSERTIONS',
           '-fsanitize=address,bounds,null', '-fno-sanitize-recover=all',
           '-I' + os.path.join(VERIF, 'contracts')] + extra + ['-I' + os.path.join(REPO, 'include')] + defs + [
        src, os.path.join(VERIF, 'contracts', 'vp_native.cxx'), '-o', out, '-l:liblapack.so.3', '-l:libblas.so.3']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        cmd = cmd[:-2] + ['-llapack', '-lblas']
        p = subprocess.run(cmd, capture_output=True, text=True)
    return (out if p.returncode == 0 else None), p.stderr


MODS = {}


def run_alternative(job):
    """one contract, in its own process"""
    fkey, name, opts, budget = job
    t = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from symexec import Executor
    mod = MODS[fkey]
    out = {'file': fkey, 'name': name}
    try:
        ex = Executor(mod, opts)
        ex.replace.update(contract_replacements(mod, name))
        r = ex.run(name, budget)
        out.update(obligations=r.obligations, discharged=r.discharged, by=r.by, failed=r.failed, paths=r.paths,
                   completed=r.completed, covers=r.covers, labels=r.labels, solver_s=r.solver_s,
                   solver_calls=r.solver_calls, unsupported=r.unsupported, bounded=r.bounded,
                   alternatives=ex.alternatives, contracts_used=sorted(r.contracts_used), loops=sorted(set(r.loops)))
        fns = {}
        for f in r.functions:
            file, line = mod.func_file(mod.funcs[f])
            if file and os.path.realpath(file).startswith(os.path.realpath(REPO) + '/'):
                fns[f] = '%s:%s' % (os.path.relpath(os.path.realpath(file), os.path.realpath(REPO)), line)
        out['functions'] = fns
        want = reach_labels(mod, name)
        out['uncovered'] = [w for w in want if w not in r.covers]
    except MemoryError:
        out['error'] = 'out of memory'
    except Exception:
        out['error'] = traceback.format_exc()
    out['wall'] = time.time() - t
    return out


def isolated(job):
    """run_alternative in a process of its own (the engine's tables are global)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(run_alternative(job), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return {'file': job[0], 'name': job[1], 'error': 'process ended'}


def run_one(job):
    fkey, name, opts, budget = job
    if not uses_alternatives(MODS[fkey], name):
        return run_alternative(job)
    t = time.time()
    out = isolated(job)

    def complete(o):
        return not o.get('error') and not o['failed'] and not o['unsupported'] and o['obligations'] == o['discharged']
    # the contract offers alternative invariants: any of them proves it
    for alt in range(1, out.get('alternatives', 1)):
        left = min(budget, 120) - (time.time() - t)
        if complete(out) or left < 5:
            break
        o = isolated((fkey, name, dict(opts, alternative=alt, max_fail=1, timeout_ms=8000), left))
        if complete(o):
            out = o
    out['wall'] = time.time() - t
    return out


def uses_alternatives(mod, name):
    return any('@vp_alternative(' in ln for f in mod.funcs.values() for ln in f.lines)


def contract_replacements(mod, name):
    """callee contracts: a global string vp_replaces_<...> is not needed; functions named
    vpc_<k>__<mangled> stand in for <mangled>"""
    rep = {}
    for f in mod.funcs:
        m = re.match(r'^vpc__(.*)$', f)
        if m and m.group(1) in mod.funcs:
            rep[m.group(1)] = f
    return rep


def reach_labels(mod, name):
    f = mod.funcs[name]
    out = set()
    for ln in f.lines:
        m = re.search(r'@vp_reach\(ptr noundef (@[-\w.$]+)\)', ln)
        if m:
            g = mod.globals.get(m.group(1)[1:])
            if g:
                s = re.search(r'c"([^"]*)\\00"', g)
                if s:
                    out.add(s.group(1))
    return sorted(out)


def demangle_many(names):
    if not names:
        return {}
    p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VP_JOBS', '8')))
    args = ap.parse_args()
    if args.selftest:
        sys.exit(selftest())
    prop, tier = args.prop, args.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = load_config()
    pc = cfg['properties'][prop]
    t0 = time.time()
    build = os.path.join(VERIF, 'build', '%s-%d' % (prop, os.getpid()))
    os.makedirs(build, exist_ok=True)
    rc = 2
    try:
        rc = decide(args, prop, tier, seed, cfg, pc, build, t0)
    finally:
        shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)


def selftest():
    """The tool chain works, a true contract is accepted, false and vacuous ones are not."""
    from irparse import Module
    build = os.path.join(VERIF, 'build', 'selftest-%d' % os.getpid())
    os.makedirs(build, exist_ok=True)
    ok = True
    try:
        ll, cmd, err = compile_ir(os.path.join(VERIF, 'contracts', 'selftest.cxx'), os.path.join(build, 's.ll'), [], [])
        if ll is None:
            print('self-test contract does not compile (check the tree):', err[:2000])
            return 0
        MODS['s'] = Module(open(ll).read())
        for name, want in [('vh_self_true', 'proved'), ('vh_self_false', 'refuted'),
                           ('vh_self_vacuous', 'uncovered'), ('vh_self_out_of_bounds', 'refuted')]:
            r = run_one(('s', name, {}, 60))
            got = ('refuted' if r.get('failed') else 'uncovered' if r.get('uncovered') else
                   'proved' if not r.get('error') and not r.get('unsupported') and r.get('discharged') == r.get('obligations')
                   and r.get('obligations') else 'broken')
            print('self-test %s: %s (expected %s)' % (name, got, want))
            if got != want:
                ok = False
                print(r)
    finally:
        shutil.rmtree(build, ignore_errors=True)
    return 0 if ok else 1


def decide(args, prop, tier, seed, cfg, pc, build, t0):
    total_budget = pc.get('budget', {}).get(tier, 420 if tier == 'quick' else 5400)
    units = []
    errors = []
    skipped = []
    jobs = []
    deadline = time.time() + total_budget
    # compile all contract files in parallel
    procs = []
    from concurrent.futures import ThreadPoolExecutor
    comp = []
    for u in pc['units']:
        src = os.path.join(VERIF, 'contracts', u['file'])
        defs = list(u.get('defs', []))
        if tier == 'thorough':
            defs.append('-DVP_THOROUGH')
        extra = ['-I' + os.path.join(VERIF, d) for d in u.get('include', [])]
        key = u['file'] + ' ' + ' '.join(u.get('defs', []))
        out = os.path.join(build, re.sub(r'\W+', '_', key) + '.ll')
        comp.append((key, u, src, defs, extra, out))
    with ThreadPoolExecutor(8) as tp:
        res = list(tp.map(lambda c: compile_ir(
            c[2], c[5], c[3], ['-I' + os.path.join(VERIF, d) for d in c[1].get('sym_include', [])] + c[4]), comp))
    from irparse import Module
    cmds = []
    prebuilt = {}
    early = []
    for (key, u, src, defs, extra, out), (ll, cmd, err) in zip(comp, res):
        cmds.append(' '.join(cmd))
        if ll is None:
            if u.get('optional_compile'):
                skipped.append('%s: %s' % (key, err[:1500]))
                print('NOTE: contract unit %s does not apply to the current tree (%s)' % (key, err.strip()[:200]))
                continue
            # not the verifier's dialect (its stand-ins for library headers, for instance), or not this API any more?
            exe, err2 = compile_native(src, os.path.join(build, re.sub(r'\W+', '_', key) + '.native'),
                                       defs + u.get('native_defs', []), extra)
            if exe is None:
                errors.append('contract %s does not compile against the current tree:\n%s' % (key, err2[:3000]))
                continue
            prebuilt[key] = (exe, '')
            units.append((key, u, src, defs, extra))
            p = run_native([exe, 'list'], 60)
            for n in sorted((p.stdout if p else '').split()):
                if n.startswith('vh_') and not (u.get('match') and not re.search(u['match'], n)) and not (
                        args.only and not re.search(args.only, n)):
                    early.append({'file': key, 'name': n, 'error': "the verifier's build of %s fails: %s" % (
                        key, ' '.join(err.strip().split('\n')[:3])[:300])})
            continue
        MODS[key] = Module(open(ll).read())
        names = sorted(f for f in MODS[key].funcs if f.startswith('vh_'))
        sel = u.get('match')
        for n in names:
            if sel and not re.search(sel, n):
                continue
            if args.only and not re.search(args.only, n):
                continue
            jobs.append((key, n, dict(u.get('opts', {})), u.get('harness_budget', {}).get(tier, total_budget * 0.6)))
        units.append((key, u, src, defs, extra))
    results = early
    # instances beyond the verifier's reach in this tier: executed only (bounded), built while the verifier runs
    more_pool = ThreadPoolExecutor(3)
    more = []
    for (key, u, src, defs, extra) in units:
        if u.get('more') and key not in prebuilt:
            out = os.path.join(build, re.sub(r'\W+', '_', key) + '.more')
            more.append((key, u, more_pool.submit(
                compile_native, src, out, defs + ['-DVP_THOROUGH', '-DVP_MORE'] + u.get('native_defs', []), extra)))
    if jobs:
        # long contracts first is unknown; chunk size 1
        ctx = mp.get_context('fork')
        pool = ctx.Pool(min(args.j, len(jobs)), maxtasksperchild=1)
        pend = [(j, pool.apply_async(run_one, (j,))) for j in jobs]
        for j, h in pend:
            left = max(5.0, deadline - time.time())
            try:
                results.append(h.get(timeout=left))
            except mp.TimeoutError:
                results.append({'file': j[0], 'name': j[1], 'error': 'time limit', 'timeout': True})
            except Exception as e:
                results.append({'file': j[0], 'name': j[1], 'error': repr(e)})
        pool.terminate()
    known = load_known(prop)
    # ---- triage
    agg = {'obligations': 0, 'discharged': 0, 'paths': 0, 'solver_s': 0.0, 'solver_calls': 0}
    by = {}
    funcs = {}
    suspicious = []
    degraded = []
    bounded = []
    for r in results:
        for k in agg:
            agg[k] += r.get(k, 0)
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
        funcs.update(r.get('functions', {}))
        bounded += r.get('bounded', [])
        if r.get('failed'):
            suspicious.append(r)
        elif r.get('error'):
            degraded.append((r, r['error'].strip().split('\n')[-1]))
        elif r.get('unsupported'):
            degraded.append((r, '; '.join(r['unsupported'])))
        elif r.get('uncovered'):
            r['failed'] = [{'label': 'reachability of "%s"' % r['uncovered'][0], 'kind': 'violated', 'where': [],
                            'inputs': None, 'detail': '', 'path': []}]
            suspicious.append(r)
        elif not r.get('completed') or not r.get('obligations'):
            degraded.append((r, 'vacuous: no completed path or no obligation'))
        if args.v or os.environ.get('VP_V'):
            print('%-40s obl %5d dis %5d paths %4d/%4d t %.1f solver %.1f/%d %s%s%s' % (
                r['name'], r.get('obligations', 0), r.get('discharged', 0), r.get('completed', 0), r.get('paths', 0),
                r.get('wall', 0), r.get('solver_s', 0), r.get('solver_calls', 0), r.get('by'),
                (' UNSUPPORTED ' + str(r['unsupported'])) if r.get('unsupported') else '',
                (' ERROR ' + r['error']) if r.get('error') else ''))
            for f in r.get('failed', []):
                print('   FAILED', json.dumps(f)[:1500])
    natives = dict(prebuilt)

    def native(key):
        if key not in natives:
            for (k, u, src, defs, extra) in units:
                if k == key:
                    out = os.path.join(build, re.sub(r'\W+', '_', key) + '.native')
                    natives[key] = compile_native(src, out, defs + u.get('native_defs', []), extra)
        return natives[key]

    violations = []
    knownhits = []
    repdir = os.path.join(EVID, 'replay')
    os.makedirs(repdir, exist_ok=True)
    search_stats = {'evaluations': 0, 'contracts': []}
    weak = {key for (key, u, *_r) in units if u.get('weak_callee')}
    native_end = time.time() + (240 if tier == 'quick' else 1800)

    def secs(want):
        return int(max(1, min(want, native_end - time.time())))
    for r in suspicious:
        live = []
        for f in r['failed']:
            k = match_known(known, r['name'], f['label'])
            if k is not None:
                knownhits.append((k, r['name'], f['label']))
            else:
                live.append(f)
        if not live:
            continue
        confirmed = None
        exe, err = native(r['file'])
        if exe:
            for n, f in enumerate(live):
                if f['inputs'] is None:
                    continue
                path = os.path.join(build, 'in.txt')
                write_inputs(path, f['inputs'])
                p = run_native([exe, 'replay', path, r['name']])
                if p and p.returncode == 3:
                    confirmed = (f, f['inputs'], p.stdout)
                    break
                if n < 3 and not any(v[2] for v in violations):
                    # the integers of the model, with other reals and functions
                    p = run_native([exe, 'search', str(seed), '3000', str(secs(8)), r['name']], 60, VP_NEAR=path)
                    if p and p.returncode == 3 and not match_known_out(known, r['name'], p.stdout):
                        confirmed = (f, parse_inputs(p.stdout), p.stdout)
                        break
            if not confirmed and not any(v[2] for v in violations):
                p = run_native([exe, 'search', str(seed), '20000', str(secs(20)), r['name']], 60)
                if p and p.returncode == 3 and not match_known_out(known, r['name'], p.stdout):
                    confirmed = (live[0], parse_inputs(p.stdout), p.stdout)
        violated = [f for f in live if f['kind'] == 'violated']
        if r['file'] in weak:
            violated = []  # callee contracts weaker than the callee: a refutation alone decides nothing
        if confirmed or violated:
            violations.append((r, live, confirmed))
        else:
            degraded.append((r, 'undecided: ' + live[0]['label']))
    for r, why in list(degraded):
        exe, err = native(r['file']) if any(k == r['file'] for k, *_ in units) else (None, '')
        if not exe:
            continue
        n = '20000' if tier == 'quick' else '400000'
        p = run_native([exe, 'search', str(seed), n, str(secs(20 if tier == 'quick' else 200)), r['name']], 300)
        if p and p.returncode == 3 and not match_known_out(known, r['name'], p.stdout):
            lab = re.search(r'FAIL \S+ :: (.*)', p.stdout)
            violations.append((r, [{'label': lab.group(1) if lab else '?', 'kind': 'violated', 'where': [],
                                    'inputs': None, 'detail': 'found by native search; verifier: ' + why,
                                    'path': []}],
                               (None, parse_inputs(p.stdout), p.stdout)))
        elif p:
            m = re.search(r'SEARCHED (\d+) ACCEPTED (\d+)', p.stdout)
            if m:
                search_stats['evaluations'] += int(m.group(1))
            search_stats['contracts'].append(r['name'])
    executed = {}
    for key, u, h in more:
        exe, err = h.result()
        if not exe:
            print('NOTE: larger instances of %s not executed (%s)' % (key, ' '.join(err.split())[:200]))
            continue
        p = run_native([exe, 'list'], 60)
        proved = {j[1] for j in jobs if j[0] == key}
        names = [n for n in sorted((p.stdout if p else '').split()) if n.startswith('vh_') and n not in proved and not (
            u.get('match') and not re.search(u['match'], n)) and not (args.only and not re.search(args.only, n))]

        def execute(n):
            return run_native([exe, 'search', str(seed), str(u['more']), str(secs(3 if tier == 'quick' else 60)), n], 90)
        with ThreadPoolExecutor(min(args.j, 8)) as tp:
            outs = list(tp.map(execute, names))
        for n, p in zip(names, outs):
            if p is None:
                continue
            m = re.search(r'SEARCHED (\d+) ACCEPTED (\d+)', p.stdout)
            if m:
                executed[n] = int(m.group(2))
            elif p.returncode == 3 and not match_known_out(known, n, p.stdout):
                lab = re.search(r'FAIL \S+ :: (.*)', p.stdout)
                violations.append(({'name': n, 'file': key},
                                   [{'label': lab.group(1) if lab else '?', 'kind': 'violated', 'where': [],
                                     'inputs': None, 'detail': 'execution of an instance that is not proved in this tier',
                                     'path': []}],
                                   (None, parse_inputs(p.stdout), p.stdout)))
    validation = None
    if tier == 'thorough' or os.environ.get('VP_VALIDATE'):
        # validate the assumed contracts and the real-arithmetic reading on native executions
        validation = {'executions': 0, 'failures': []}
        for (key, u, src, defs, extra) in units:
            exe, err = native(key)
            if not exe:
                validation['failures'].append('native build of %s failed: %s' % (key, err[:300]))
                continue
            for j in jobs:
                if j[0] != key:
                    continue
                p = run_native([exe, 'search', str(seed), '3000', '4', j[1]], 60)
                if p is None:
                    continue
                m = re.search(r'SEARCHED (\d+) ACCEPTED (\d+)', p.stdout)
                if m:
                    validation['executions'] += int(m.group(2))
                elif p.returncode == 3 and not match_known_out(known, j[1], p.stdout):
                    validation['failures'].append(p.stdout[:600])
                    if not any(v[0]['name'] == j[1] for v in violations):
                        lab = re.search(r'FAIL \S+ :: (.*)', p.stdout)
                        violations.append(({'name': j[1], 'file': key},
                                           [{'label': lab.group(1) if lab else '?', 'kind': 'violated', 'where': [],
                                             'inputs': None, 'detail': 'native execution only', 'path': []}],
                                           (None, parse_inputs(p.stdout), p.stdout)))
    # ---- output
    for k, n, l in knownhits:
        print('KNOWN-FINDING: property=%s %s [%s: %s]' % (prop, k['what'], n, l))
    for r, live, confirmed in violations:
        path = os.path.join(repdir, '%s_%s.txt' % (prop, r['name']))
        write_replay(path, prop, r, live, confirmed)
        tail = '' if confirmed else ' no-failing-input-found'
        print('failed obligation: %s :: %s' % (r['name'], live[0]['label']))
        if confirmed or not any(v[2] for v in violations):
            print('VIOLATION property=%s replay=%s%s' % (prop, path, tail))
        else:
            print('   (also refuted; no failing input searched; see %s)' % path)
    for e in errors:
        print('ERROR: ' + e)
    for r, why in degraded:
        print('UNDECIDED: %s: %s (native search of the same contract found no failing input)' % (r['name'], why[:300]))
    nd = len(results) - len(degraded)
    dem = demangle_many(sorted(funcs))
    flist = sorted('%s (%s)' % (shorten(dem.get(f, f)), loc) for f, loc in funcs.items())
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': pc.get('level', 'proof'),
        'coverage': {
            'obligations': agg['obligations'], 'discharged': agg['discharged'],
            'checker_cmd': 'python3-vt engine/check.py %s --tier %s' % (prop, tier),
            'trusted_base': cfg['trusted_base'] + pc.get('trusted', []),
            'contracts': len(results), 'contracts_decided_deductively': nd,
            'contracts_undecided_bounded_search_only': [
                {'contract': r['name'], 'why': w[:400]} for r, w in degraded],
            'paths': agg['paths'], 'discharged_by': by,
            'solver_seconds': round(agg['solver_s'], 2), 'solver_queries': agg['solver_calls'],
            'functions_under_contract': len(set(loc for loc in funcs.values())),
            'function_instances': len(funcs),
            'functions': sorted(set(re.sub(r'<.*', '', x.split(' (')[0])[:80] + ' @ ' + loc for x, loc in
                                    ((shorten(dem.get(f, f)), l) for f, l in funcs.items())))[:400],
            'bounded': sorted(set(bounded)) + pc.get('bounds', []),
            'loops_proved_by_invariant': sorted(set(l for r in results for l in r.get('loops', []))),
            'callee_contracts_used': sorted(set(c for r in results for c in r.get('contracts_used', []))),
            'native_search': search_stats,
            'contract_list': [
                {'contract': r['name'], 'obligations': r.get('obligations', 0), 'discharged': r.get('discharged', 0),
                 'paths': r.get('paths', 0), 'wall_s': round(r.get('wall', 0), 2)} for r in results],
        },
        'assumptions': cfg['assumptions'] + pc.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if executed:
        ev['coverage']['bounded_executions_of_larger_instances'] = executed
        ev['coverage']['bounded'].append('%d larger instances are executed on random inputs in this tier, not proved' % len(executed))
    if validation is not None:
        ev['coverage']['native_validation_of_contracts'] = validation
    if knownhits:
        ev['coverage']['known_findings'] = [k['what'] for k, _, _ in knownhits]
    if skipped:
        ev['coverage']['units_not_applicable_to_this_tree'] = skipped
    if errors:
        ev['coverage']['errors'] = [e[:1000] for e in errors]
    os.makedirs(os.path.join(EVID), exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d contracts, %d obligations, %d discharged, %d undecided contracts, %d violations, %.1f s' % (
        prop, tier, len(results), agg['obligations'], agg['discharged'], len(degraded), len(violations),
        time.time() - t0))
    if violations:
        return 1
    if errors or not results:
        return 2
    return 0


def shorten(s):
    return s if len(s) < 300 else s[:300]


def run_native(cmd, timeout=30, **more):
    try:
        return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace',
                              cwd=os.path.dirname(cmd[0]),
                              env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:'
                                       'handle_sigfpe=0:exitcode=3:allocator_may_return_null=1',
                                       UBSAN_OPTIONS='exitcode=3', **more))
    except subprocess.TimeoutExpired:
        return None


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for name, occ, v in inputs:
            f.write('INPUT %s#%d %s\n' % (name, occ, v))


def parse_inputs(out):
    res = []
    for ln in out.split('\n'):
        if ln.startswith('INPUT '):
            k, v = ln[6:].rsplit(' ', 1)
            n, o = k.rsplit('#', 1)
            res.append((n, int(o), v))
    return res


def write_replay(path, prop, r, live, confirmed):
    with open(path, 'w') as f:
        f.write('property %s\ncontract %s (%s)\n' % (prop, r['name'], r['file']))
        for x in live:
            f.write('failed obligation: %s [%s]\n' % (x['label'], x['kind']))
            for w in x['where']:
                f.write('   at %s\n' % w)
            if x.get('detail'):
                f.write('   %s\n' % x['detail'])
            for c in x.get('path', []):
                f.write('   path condition: %s\n' % c.replace('\n', ' '))
        if confirmed:
            f.write('confirmed on the real code (native execution); replay with: build the contract with -DVP_NATIVE '
                    'and run "prog replay <this file> %s"\n' % r['name'])
            for name, occ, v in confirmed[1]:
                f.write('INPUT %s#%d %s\n' % (name, occ, v))
            f.write(confirmed[2])
        else:
            f.write('no failing input found: the verifier refutes the obligation, native search did not\n')
            for x in live:
                if x.get('inputs'):
                    f.write('verifier model:\n')
                    for name, occ, v in x['inputs']:
                        f.write('INPUT %s#%d %s\n' % (name, occ, v))
                    break


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'known']


def match_known(known, contract, label):
    for k in known:
        if re.search(k['contract'], contract) and re.search(k['label'], label):
            return k
    return None


def match_known_out(known, contract, out):
    m = re.search(r'FAIL \S+ :: (.*)', out)
    return bool(m and match_known(known, contract, m.group(1)))


if __name__ == '__main__':
    main()
