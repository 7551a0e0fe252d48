#!/usr/bin/env python3
"""Decide one property of /repo: check.py PROPERTY [--tier quick|thorough] [--setup]

Regenerates the LLVM IR of the harnesses linked with /repo's current source,
executes it symbolically (engine/), replays every counterexample natively and
writes evidence/<PROPERTY>.json.  Exit 0: held on everything explored; 1: a
reproduced violation; 2: no verdict (build failure, incomplete exploration,
solver or replay disagreement)."""
import fcntl, hashlib, json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

ENGINE = VERIF + '/engine/target/release/symll'
IRDIR = VERIF + '/harness/ir'
IR = IRDIR + '/target/release/deps/harness_ir.ll'
RPDIR = VERIF + '/harness/replay'
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'
EVID = VERIF + '/evidence'


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def sh(cmd, cwd, what, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        out = r.stdout.decode(errors='replace').splitlines()
        err = [i for i, l in enumerate(out) if l.startswith('error')]
        raise NoVerdict('%s failed:\n%s' % (what, '\n'.join('\n'.join(out[i:i + 6]) for i in err[:4])[-2500:] if err else '\n'.join(out[-20:])))


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            h.update(root.encode() + b'\0' + open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()


def repo_hash():
    roots = [REPO + '/src', REPO + '/Cargo.toml', VERIF + '/harness/src', IRDIR + '/Cargo.toml', RPDIR + '/Cargo.toml']
    for extra in ('/build.rs',):
        if os.path.exists(REPO + extra):
            roots.append(REPO + extra)
    return tree_hash(*roots)


def fresh(crate, stamp, h):
    """Forget what cargo thinks it knows about the crates under test when their content changed."""
    p = '%s/target/%s' % (crate, stamp)
    try:
        if open(p).read() == h:
            return True
    except OSError:
        pass
    if os.path.isdir(crate + '/target'):
        name = 'harness_ir' if crate == IRDIR else 'harness_replay'
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'svgdom', '-p', name], cwd=crate, env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(['cargo', 'clean', '--offline', '--release', '-p', 'svgdom', '-p', name], cwd=crate, env=env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return False


def build_engine():
    sh(['cargo', 'build', '--release', '--offline', '-q'], VERIF + '/engine', 'building the symbolic executor')


def build_ir(h):
    if fresh(IRDIR, '.stamp', h) and os.path.exists(IR):
        return
    sh(['cargo', 'rustc', '--offline', '--release', '-q', '--', '--emit=llvm-ir',
        '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], IRDIR, 'generating the IR')
    open(IRDIR + '/target/.stamp', 'w').write(h)


def build_replay(h):
    if fresh(RPDIR, '.stamp', h) and os.path.exists(RPDIR + '/target/debug/replay'):
        return
    sh(['cargo', 'build', '--offline', '-q'], RPDIR, 'building the native replayer')
    open(RPDIR + '/target/.stamp', 'w').write(h)


def build_replay_release():
    sh(['cargo', 'build', '--offline', '-q', '--release'], RPDIR, 'building the native replayer (release)')


def build_all():
    h = repo_hash()
    os.makedirs(EVID, exist_ok=True)
    with open(VERIF + '/.build.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        import threading
        errs = []

        def go(f, *a):
            try:
                f(*a)
            except Exception as e:  # noqa: BLE001
                errs.append(e)
        ts = [threading.Thread(target=go, args=x) for x in ((build_engine,), (build_ir, h), (build_replay, h))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0] if isinstance(errs[0], NoVerdict) else NoVerdict(repr(errs[0]))
    return h


def native(entry, hexin, rel=False, timeout=30):
    b = RPDIR + ('/target/release/replay' if rel else '/target/debug/replay')
    try:
        r = subprocess.run([b, entry, hexin], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'timeout'
    out = r.stdout.decode(errors='replace')
    if r.returncode < 0:
        return 'signal %d' % -r.returncode
    for l in out.splitlines():
        if l.startswith('outcome: '):
            return l[9:]
    return 'exit %d' % r.returncode


def native_batch(entry, hexes):
    p = '%s/.batch.%s.%d' % (EVID, entry, os.getpid())
    open(p, 'w').write('\n'.join(hexes) + '\n')
    try:
        r = subprocess.run([RPDIR + '/target/debug/replay', entry, '--batch', p], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=300)
    finally:
        os.unlink(p)
    return [l.split('\t') for l in r.stdout.decode().splitlines()]


def run_engine(prop, run, budget, workers, seed):
    d = '%s/.work/%s.%s.%d' % (EVID, prop, run['entry'], os.getpid())
    os.makedirs(d, exist_ok=True)
    cmd = [ENGINE, IR, '--entry', run['entry'], '--dir', d, '--workers', str(workers), '--time', str(int(budget)),
           '--samples', str(run.get('samples', 40)), '--seed', str(seed)]
    for k, v in run.get('opts', {}).items():
        cmd += ['--' + k, str(v)]
    for s in run.get('stubs', []):
        cmd += ['--stub', s]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget + 120)
    except subprocess.TimeoutExpired:
        raise NoVerdict('symbolic executor did not stop on %s' % run['entry'])
    finally:
        subprocess.run(['rm', '-rf', d])
    try:
        j = json.loads(r.stdout)
    except ValueError:
        raise NoVerdict('symbolic executor failed on %s: %s %s' % (run['entry'], r.stdout[-300:], r.stderr[-2000:]))
    return j, ' '.join(cmd[2:])


def known_findings():
    out = []
    p = VERIF + '/known_findings.json'
    if os.path.exists(p):
        out = json.load(open(p))
    return [k for k in out if k.get('status') == 'known']


def main():
    if '--setup' in sys.argv:
        try:
            build_all()
            build_replay_release()
        except NoVerdict as e:
            say('SETUP-ERROR', e)
            sys.exit(2)
        say('setup ok')
        return
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[prop]
    runs = [r for r in spec['runs'] if tier in r['tiers']]
    total = 780 if tier == 'quick' else int(os.environ.get('VERIF_THOROUGH_S', '7200'))
    workers = os.cpu_count() or 8
    try:
        build_all()
        code = decide(prop, spec, runs, tier, seed, t0, total, workers)
    except NoVerdict as e:
        say('NO-VERDICT property=%s %s' % (prop, e))
        sys.exit(2)
    sys.exit(code)


def decide(prop, spec, runs, tier, seed, t0, total, workers):
    built = time.time() - t0
    tot = dict(paths=0, steps=0, forks=0, checks_true=0, checks_solver=0, z3_queries=0, z3_sat=0, z3_unsat=0,
               z3_us=0, cache_hits=0, branches_sym=0, assumed_away=0)
    fns = {}
    bounds, reached_all, samples, problems, viols, finds = [], {}, [], [], [], []
    validated = 0
    perrun = []
    for run in runs:
        left = total - (time.time() - t0)
        if left < 5:
            problems.append('out of time before %s' % run['entry'])
            break
        j, cmd = run_engine(prop, run, left, workers, seed)
        st = j['stats']
        for k in tot:
            tot[k] += st.get(k, 0)
        for f in j['functions']:
            o = fns.setdefault(f['fn'], [0, 0])
            o[0] = max(o[0], f['blocks'])
            o[1] = max(o[1], f['hit'])
        perrun.append(dict(entry=run['entry'], bounds=run['bounds'], stubs=run.get('stubs', []), cmd=cmd, wall_s=j['wall_s'],
                           paths=st['paths'], solver_queries=st['z3_queries'], unsat=st['z3_unsat'],
                           solver_s=round(st['z3_us'] / 1e6, 3), symbolic_input_bytes_max=st['max_vars'],
                           assertions=j['checked'], reached=j['reached']))
        # reproduce counterexamples on the real code
        groups = {}
        for v in j['violations']:
            groups.setdefault((v['kind'], v['msg'], v['site']), []).append(v['inputs'])
        if groups:
            with open(VERIF + '/.build.lock', 'w') as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                build_replay_release()
        for (kind, msg, site), ins in sorted(groups.items(), key=lambda g: (len(g[1][0]), g[0])):
            ins = sorted(ins, key=lambda x: (len(x), x))
            ok = None
            for hexin in ins[:3]:
                a = native(run['entry'], hexin)
                b = native(run['entry'], hexin, rel=True)
                bad = [x for x in (a, b) if x not in ('ok', 'assume', 'inputs-exhausted')]
                if kind == 'limit':
                    bad = [x for x in (a, b) if x in ('timeout',) or x.startswith('signal')]
                if bad:
                    ok = (hexin, a, b)
                    break
            rec = dict(entry=run['entry'], kind=kind, msg=msg, site=site, inputs=ins[0])
            if ok is None:
                if kind == 'limit':
                    problems.append('step limit reached in %s (%s) input %s' % (run['entry'], site[:200], ins[0]))
                else:
                    problems.append('counterexample does not reproduce natively: %s %s [%s] input %s'
                                    % (run['entry'], msg, site[:300], ins[0]))
                continue
            rec.update(inputs=ok[0], native_dev=ok[1], native_release=ok[2])
            viols.append(rec)
        for x in j['incomplete']:
            problems.append('incomplete in %s: %s' % (run['entry'], json.dumps(x)[:400]))
        if j['timeout'] and not viols:
            problems.append('time limit reached in %s after %d paths' % (run['entry'], st['paths']))
        for lab in run.get('reach', []):
            if not j['reached'].get(lab) and not viols:
                problems.append('vacuous: %s never reached "%s"' % (run['entry'], lab))
        for k, n in j['reached'].items():
            reached_all[k] = reached_all.get(k, 0) + n
        # known findings are stated as labelled points of the exploration
        for kf in known_findings():
            if kf['property'] == prop and kf['entry'] == run['entry'] and j['reached'].get(kf['label']):
                finds.append(kf)
        # the executor agrees with the real binary on sampled paths
        sm = j['samples']
        if sm:
            res = native_batch(run['entry'], [s[0] for s in sm])
            if len(res) != len(sm):
                problems.append('native run of sampled paths of %s died' % run['entry'])
            for s, r in zip(sm, res):
                if r[0] != 'ok' or (len(r) > 1 and r[1] != s[1][:2 * 65536]):
                    problems.append('executor and native run differ in %s on %s: native %s' % (run['entry'], s[0], r))
                    break
                validated += 1
            for s in sm[:3]:
                samples.append(dict(entry=run['entry'], inputs=s[0],
                                    observed=bytes.fromhex(s[1]).decode(errors='replace')[:300]))
    code = 0
    seen = set()
    os.makedirs(EVID + '/replays', exist_ok=True)
    nrep = 0
    for v in viols:
        key = (v['kind'], v['msg'], v['site'].split(' < ')[0])
        if key in seen:
            continue
        seen.add(key)
        nrep += 1
        rp = '%s/replays/%s-%d.json' % (EVID, prop, nrep)
        v['property'] = prop
        v['reproduce'] = '%s/target/debug/replay %s %s' % (RPDIR, v['entry'], v['inputs'])
        json.dump(v, open(rp, 'w'), indent=1)
        say('  %s: %s at %s; native dev: %s; native release: %s' % (v['kind'], v['msg'], v['site'][:200], v['native_dev'], v['native_release']))
        say('VIOLATION property=%s replay=%s' % (prop, rp))
        code = 1
        if nrep >= 10:
            break
    done = set()
    for kf in finds:
        if kf['id'] not in done:
            done.add(kf['id'])
            say('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    svg = {k: v for k, v in fns.items() if 'svgdom' in k}
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(
                  explanation='Symbolic execution of the LLVM IR of /repo (linked with its dependencies and std) over all '
                              'values of the symbolic inputs within the bounds of each run; every infeasible branch, every '
                              'complete case split and every assertion is decided by Z3.',
                  states=tot['paths'] + tot['assumed_away'], transitions=tot['steps'],
                  traces_validated_against_impl=validated, samples=samples[:12], exhaustive=not problems and code == 0,
                  symbolic_paths=tot['paths'], case_splits=tot['forks'], symbolic_branches=tot['branches_sym'],
                  assertions_folded=tot['checks_true'], assertions_by_solver=tot['checks_solver'],
                  queries=dict(total=tot['z3_queries'], sat=tot['z3_sat'], unsat=tot['z3_unsat'], cached=tot['cache_hits']),
                  solver_s=round(tot['z3_us'] / 1e6, 3), reached=reached_all, runs=perrun,
                  functions_encoded=len(fns), svgdom_functions_encoded={k: '%d/%d blocks' % (v[1], v[0]) for k, v in sorted(svg.items())},
                  build_s=round(built, 1), problems=problems[:20]),
              assumptions=spec.get('assumptions', []) + COMMON, wall_s=round(time.time() - t0, 2), violations=nrep)
    json.dump(ev, open('%s/%s.json' % (EVID, prop), 'w'), indent=1)
    say('%s %s: %d paths, %d steps, %d solver queries (%d unsat), %d sampled paths replayed natively, %.1f s (build %.1f s)'
        % (prop, tier, tot['paths'], tot['steps'], tot['z3_queries'], tot['z3_unsat'], validated, time.time() - t0, built))
    if code == 0 and problems:
        raise NoVerdict('; '.join(problems[:8]))
    return code


COMMON = [
    'rustc/LLVM lowering to IR (opt-level 1, overflow checks and debug assertions on) and the symbolic executor in engine/ are trusted; '
    'sampled paths are compared with a native build on every run',
    'allocation does not fail; stack depth within the bound is sufficient',
    'claims hold within the bounds stated per run; nothing is claimed outside them',
]

if __name__ == '__main__':
    main()
