#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code (see DESIGN.md).

usage: check.py NXX [--tier quick|thorough] [--entry NAME] [--keep]

Exit 0: every check of every harness of the property holds for all values within the stated
bounds.  Exit 1: a counterexample was found and reproduced against the natively compiled crate.
Exit 2: no answer (build failure, incomplete exploration, counterexample that does not reproduce...).
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
T0 = time.time()


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTDOCFLAGS'):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
             CARGO_INCREMENTAL='0', RUST_BACKTRACE='0')
    e['PATH'] = '/usr/local/bin:' + e.get('PATH', '')
    return e


def fail(msg):
    print('ERROR: ' + msg, flush=True)
    sys.exit(2)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, ds, fl in os.walk(p) if '/target' not in d for f in fl)
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as x:
                h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:24]


REPO_SRC = [REPO + '/src', REPO + '/Cargo.toml', REPO + '/examples/ntfs-shell/sector_reader.rs']
HARN = [HERE + '/stubs', HERE + '/harness/src', HERE + '/harness/Cargo.toml', HERE + '/harness/Cargo.lock']


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def run_cargo(args, cwd, what):
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines()]
        raise RuntimeError('%s does not build:\n%s' % (what, '\n'.join(errs[-40:])))


def forget(target, profile):
    # Cargo trusts modification times; make it look at the contents of the crates that may change.
    for n in ('ntfs', 'h'):
        for d in glob.glob('%s/%s/.fingerprint/%s-*' % (target, profile, n)):
            if re.fullmatch(n + r'-[0-9a-f]{16}', os.path.basename(d)):
                shutil.rmtree(d, ignore_errors=True)


def build_engine():
    key = tree_hash([HERE + '/engine/src', HERE + '/engine/Cargo.toml', HERE + '/engine/build.rs'])
    out = '%s/bin/symex-%s' % (BUILD, key)
    with Lock('engine'):
        if not os.path.exists(out):
            t = BUILD + '/engine-target'
            for d in glob.glob(t + '/release/.fingerprint/symex-*'):
                shutil.rmtree(d, ignore_errors=True)
            run_cargo(['build', '--release', '--offline', '--target-dir', t], HERE + '/engine', 'the engine')
            os.makedirs(BUILD + '/bin', exist_ok=True)
            for f in glob.glob(BUILD + '/bin/symex-*'):
                os.remove(f)
            shutil.copy(t + '/release/symex', out + '.tmp')
            os.rename(out + '.tmp', out)
    return out


def stubbed(stubs):
    """A harness crate whose dependencies `stubs` are replaced by their contracts in /verif/stubs."""
    if not stubs:
        return HERE + '/harness', []
    d = BUILD + '/harness-' + '-'.join(stubs)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(HERE + '/harness', d)
    return d, [x for n in stubs for x in ('--config', 'patch.crates-io.%s.path="%s/stubs/%s"' % (n, HERE, n))]


def build_ll(prop, tier, stubs=()):
    feats = prop.lower() + (',deep' if tier == 'thorough' else '')
    key = tree_hash(REPO_SRC + HARN)
    out = '%s/ll/%s-%s-%s.ll' % (BUILD, prop, tier, key)
    with Lock('ll'):
        if not os.path.exists(out):
            t = BUILD + '/ll-target' + ''.join('-' + x for x in stubs)
            forget(t, 'release')
            for f in glob.glob(t + '/release/deps/*.ll'):
                os.remove(f)
            cwd, extra = stubbed(stubs)
            run_cargo(['rustc', '--release', '--offline'] + extra + ['--lib', '--crate-type', 'staticlib', '--features', feats,
                       '--target-dir', t, '--', '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp',
                       '-C', 'target-cpu=x86-64'], cwd, 'the harness (LLVM IR)')
            ll = glob.glob(t + '/release/deps/h-*.ll')
            if len(ll) != 1:
                raise RuntimeError('expected one .ll file, found %s' % ll)
            os.makedirs(BUILD + '/ll', exist_ok=True)
            for f in glob.glob('%s/ll/%s-%s-*.ll' % (BUILD, prop, tier)):
                os.remove(f)
            shutil.move(ll[0], out)
    return out


def build_native(prop, tier):
    feats = 'native,' + prop.lower() + (',deep' if tier == 'thorough' else '')
    key = tree_hash(REPO_SRC + HARN)
    out = '%s/bin/replay-%s-%s-%s' % (BUILD, prop, tier, key)
    with Lock('native'):
        if not os.path.exists(out):
            t = BUILD + '/native-target'
            forget(t, 'replay')
            run_cargo(['build', '--profile', 'replay', '--offline', '--features', feats, '--bin', 'replay',
                       '--target-dir', t], HERE + '/harness', 'the replay program')
            os.makedirs(BUILD + '/bin', exist_ok=True)
            for f in glob.glob('%s/bin/replay-%s-%s-*' % (BUILD, prop, tier)):
                os.remove(f)
            shutil.copy(t + '/replay/replay', out + '.tmp')
            os.rename(out + '.tmp', out)
    return out


def native(binary, entry, cells, timeout=10):
    """Runs the natively compiled harness; returns (outcome, detail, observations)."""
    try:
        p = subprocess.run([binary, entry, cells], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env=env(), preexec_fn=limits)
    except subprocess.TimeoutExpired:
        return 'timeout', 'still running after %d s' % timeout, []
    out = p.stdout.decode('utf-8', 'replace')
    err = p.stderr.decode('utf-8', 'replace')
    obs = [int(l[4:]) for l in out.splitlines() if l.startswith('OBS ')]
    m = re.search(r'^CHECK-FAILED (.*)$', out, re.M)
    if p.returncode == 1 and m:
        return 'check', m.group(1), obs
    m = re.search(r'panicked at ([^\n]*?):(\d+):\d+:', err)
    if m:
        msg = err[m.end():].strip().splitlines()
        return 'panic', '%s:%s (%s)' % (m.group(1), m.group(2), msg[0] if msg else ''), obs
    if p.returncode == 77:
        return 'assume', '', obs
    if p.returncode == 0:
        return 'done', '', obs
    return 'crash', 'exit status %d: %s' % (p.returncode, err[-300:]), obs


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def reproduces(v, outcome, detail):
    k = v['kind']
    if k == 'check':
        return outcome == 'check' and (detail == v['id'] or
                                       'allocation larger' in detail and 'allocation larger' in v['id'])
    if k == 'panic':
        return outcome in ('panic', 'crash')
    if k == 'memory':
        return outcome in ('panic', 'crash')
    if k == 'nontermination':
        return outcome in ('timeout', 'crash')
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    conf = json.load(open(HERE + '/checks.json'))[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    budget = 3600 * 6 if tier == 'thorough' else 690
    pool = cf.ThreadPoolExecutor(8)
    fe = pool.submit(build_engine)
    fl = pool.submit(build_ll, prop, tier, conf.get('stubs', ()))
    fn = pool.submit(build_native, prop, tier)
    try:
        engine, ll = fe.result(), fl.result()
    except Exception as e:
        try:
            fn.result()
        except Exception:
            pass
        fail(str(e))
    t_build = time.time() - T0

    src = open('%s/harness/src/%s.rs' % (HERE, prop.lower())).read()
    names = re.findall(r'^\s*(n\d\d_\w+)\s*=>', src, re.M)
    deep_only = set(re.findall(r'^\s*(n\d\d_\w+)\s*=>.*// deep', src, re.M))
    if tier != 'thorough':
        names = [n for n in names if n not in deep_only]
    if a.entry:
        names = [n for n in names if a.entry in n]
    outdir = '%s/run/%s-%s' % (BUILD, prop, tier)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)

    started = []

    def stop(*_):
        for p in started:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)

    def go(n):
        o = '%s/%s' % (outdir, n)
        left = budget - (time.time() - T0)
        cmd = [engine, '--ll', ll, '--entry', n, '--out', o, '--workers', str(conf.get('workers', 8)),
               '--deadline', str(int(max(10, left))), '--max-steps', str(conf.get('max_steps', 3000000)),
               '--arith', '1' if conf.get('arith') else '0']
        e = env()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
        started.append(p)
        try:
            log = p.communicate(timeout=max(10, left) + 30)[0]
        except subprocess.TimeoutExpired:
            log = 'out of time'
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        try:
            r = json.load(open(o + '/result.json'))
        except Exception:
            # what was found until then
            vs = [json.load(open(f)) for f in sorted(glob.glob(o + '/early.*.json'))]
            if not vs:
                return n, None, log[-2000:]
            r = {'counters': {'stopped': 1, 'paths': 0, 'queries': 0, 'smt_queries': 0}, 'wall_s': 0, 'checks': {}, 'errors': {},
                 'reach': [], 'functions': [], 'lines': {}, 'samples': [], 'violations': vs, 'solver': ''}
        return n, r, log[-2000:]

    results, problems = {}, []
    with cf.ThreadPoolExecutor(conf.get('parallel', 4)) as ex:
        for n, r, log in ex.map(go, names):
            if r is None:
                problems.append('%s: the engine gave no result: %s' % (n, log))
            else:
                results[n] = r
    try:
        nat = fn.result()
    except Exception as e:
        fail(str(e))

    # --- counterexamples: replay each against the natively compiled crate
    known = [k for k in json.load(open(HERE + '/known-findings.json'))['findings']
             if k['property'] == prop and k['status'] == 'known']
    viols, hit = [], {}
    seen = {}
    jobs = []
    for n, r in results.items():
        for v in r['violations']:
            k = (n, v['kind'], v['id'])
            seen.setdefault(k, []).append(v)
    for (n, kind, vid), vs in seen.items():
        jobs.append((n, kind, vid, vs))

    def confirm(j):
        n, kind, vid, vs = j
        last = None
        for v in vs[:4]:
            oc, det, _ = native(nat, n, v['file'])
            last = (v, oc, det)
            if reproduces(v, oc, det):
                return j, v, oc, det, True
        return j, last[0], last[1], last[2], False
    with cf.ThreadPoolExecutor(8) as ex:
        confirmed = list(ex.map(confirm, jobs))
    unrepro = []
    for (n, kind, vid, vs), v, oc, det, ok in confirmed:
        if not ok:
            unrepro.append('%s: %s "%s" does not reproduce natively (%s %s), input %s' % (n, kind, vid, oc, det, v['file']))
            continue
        kf = [k for k in known if k['entry'] == n and k['violation'] == vid]
        if kf:
            hit[kf[0]['what']] = 1
            continue
        rp = '%s/evidence/%s.replay.%d.txt' % (HERE, prop, len(viols))
        os.makedirs(HERE + '/evidence', exist_ok=True)
        shutil.copy(v['file'], rp)
        viols.append({'entry': n, 'kind': kind, 'id': vid, 'native': '%s %s' % (oc, det), 'replay': rp,
                      'trace': v['trace']})
    for old in glob.glob('%s/evidence/%s.replay.*.txt' % (HERE, prop)):
        if old not in [v['replay'] for v in viols]:
            os.remove(old)

    # --- samples: the translation must agree with the native run
    validated, samples = 0, []
    sj = [(n, s) for n, r in results.items() for s in r['samples'][:conf.get('samples', 24)]]
    with cf.ThreadPoolExecutor(8) as ex:
        for (n, s), (oc, det, obs) in zip(sj, ex.map(lambda x: native(nat, x[0], x[1]['file']), sj)):
            if oc == 'done' and obs == s['obs']:
                validated += 1
                if len(samples) < 6 and (len(samples) < 2 or validated % 7 == 0):
                    cells = open(s['file']).read().split('\n')
                    samples.append({'harness': n, 'input_cells': cells[:40], 'observed': obs[:20]})
            else:
                problems.append('%s: sample %s behaves differently natively: %s %s, observed %s, predicted %s' %
                                (n, s['file'], oc, det, obs[:8], s['obs'][:8]))

    # --- completeness and vacuity
    for n, r in results.items():
        if r['counters'].get('stopped'):
            problems.append('%s: exploration incomplete (%d states left)' % (n, r['counters']['stopped']))
        for e in r['errors']:
            problems.append('%s: engine error: %s' % (n, e))
    reached = set(x for r in results.values() for x in r['reach'])
    if not a.entry:
        for want in sorted(set(re.findall(r'reach\("([^"]*)"\)', src))):
            if want not in reached:
                problems.append('no explored path reaches "%s"' % want)

    cnt = {}
    for r in results.values():
        for k, x in r['counters'].items():
            cnt[k] = max(cnt.get(k, 0), x) if k.startswith('max_') else cnt.get(k, 0) + x
    funcs = sorted(set(f for r in results.values() for f in r['functions']))
    lines = {}
    for r in results.values():
        for f, ls in r.get('lines', {}).items():
            lines.setdefault(f, set()).update(ls)
    checks = {}
    for r in results.values():
        for k, x in r['checks'].items():
            checks[k] = checks.get(k, 0) + x
    cov = {
        'states': int(cnt.get('paths', 0) + cnt.get('infeasible', 0)),
        'transitions': int(cnt.get('steps', 0)),
        'traces_validated_against_impl': validated,
        'samples': samples,
        'exhaustive': False,
        'explanation': 'states: symbolic paths of the compiled code (each covers all inputs that satisfy its path '
                       'condition); transitions: LLVM IR instructions executed symbolically; the solver decided each '
                       'branch and check for all values within the bounds.',
        'bounds': conf['bounds'],
        'entries': {n: {'paths': r['counters']['paths'], 'wall_s': r['wall_s'], 'queries': r['counters']['queries'],
                        'smt_queries': r['counters']['smt_queries'], 'checks': r['checks']} for n, r in results.items()},
        'functions_encoded': funcs,
        'source_lines_encoded': {f: len(x) for f, x in sorted(lines.items())},
        'checks_discharged': checks,
        'queries': int(cnt.get('queries', 0)),
        'smt_queries': int(cnt.get('smt_queries', 0)),
        'smt_unsat': int(cnt.get('smt_unsat', 0)),
        'smt_sat': int(cnt.get('smt_sat', 0)),
        'answered_by_cache_or_model': int(cnt.get('cache_hits', 0) + cnt.get('cex_hits', 0)),
        'solver_seconds': round(cnt.get('solver_seconds', 0), 3),
        'max_query_seconds': cnt.get('max_query_seconds', 0),
        'reached': sorted(reached),
        'complete': not problems and not unrepro,
        'solver': next((r['solver'] for r in results.values()), ''),
        'build_seconds': round(t_build, 1),
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
               'assumptions': conf.get('assumptions', []), 'wall_s': round(time.time() - T0, 1),
               'violations': len(viols), 'violation_details': viols, 'problems': problems + unrepro},
              open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1)

    for w in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    for v in viols:
        print('  %s: %s "%s"; native run: %s\n    at %s' % (v['entry'], v['kind'], v['id'], v['native'], v['trace'][:700]))
    for p in problems + unrepro:
        print('  problem: ' + p)
    print('%s %s: %d entries, %d paths, %d queries (%d SMT, %.1f s), %d samples validated, %.1f s (build %.1f s)' % (
        prop, tier, len(results), cov['states'], cov['queries'], cov['smt_queries'], cov['solver_seconds'], validated,
        time.time() - T0, t_build))
    if not a.keep and not viols and not problems and not unrepro:
        shutil.rmtree(outdir, ignore_errors=True)
    if viols:
        for v in viols:
            print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
        sys.exit(1)
    if problems or unrepro:
        sys.exit(2)
    sys.exit(0)


main()
