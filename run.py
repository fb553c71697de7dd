#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   decide one property on /repo's working tree
   run.py --replay FILE               re-run a replay file (exit 1: reproduced)
   run.py --setup                     build everything once"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(V, '.cache')
GO = '/opt/veriftools/go1.27.3/bin'
LEVEL = 'exploration'
MODS = {'C23': 'msk'}


def goenv():
    e = dict(os.environ)
    e.update(HOME='/root', PATH=GO + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=mod', GOSUMDB='off',
             GOPROXY='off', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.path.join(CACHE, 'go'), CGO_ENABLED='0')
    return e


def sh(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('BUILD FAILED: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
        sys.exit(3)


def build(out, mod):
    """Builds the harness (and with it the code under test) from the current working tree of /repo."""
    e = goenv()
    # go may touch go.mod/go.sum: build from a copy of the harness module
    src = os.path.join(out, 'src')
    if os.path.isdir(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(V, mod), src)
    if mod == 'msk':
        shutil.copy(os.path.join(V, 'sim/props/drive_test.go'), os.path.join(src, 'drive_test.go'))
        sh(['go', 'test', '-c', '-o', os.path.join(out, 'props.test'), '.'], src, e)
        return
    sh(['python3', os.path.join(src, 'rt/gen_overlay.py'), out], src, e)
    ov = os.path.join(out, 'overlay.json')
    if os.path.exists(os.path.join(src, 'inpkg')):
        # in-package access to unexported parts of streams, for simulation and checks
        pass
    sh(['go', 'build', '-tags', 'faketime', '-overlay', ov, '-o', os.path.join(out, 'sim'), './simmain'], src, e)
    sh(['go', 'test', '-vet=off', '-c', '-o', os.path.join(out, 'props.test'), './props'], src, e)


def known(prop):
    r = []
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('finding: property=%s ' % prop):
                r.append(l.split(' ', 2)[2].strip())
    return r


def workdir():
    os.makedirs(CACHE, exist_ok=True)
    return tempfile.mkdtemp(prefix='run-', dir=CACHE)


def replay(path, wd, n=1, trace=False):
    e = goenv()
    e.update(VERIF_REPLAY=os.path.abspath(path), SIM_BIN=os.path.join(wd, 'sim'), VERIF_OUT=os.path.join(wd, 'replay'))
    if trace:
        e['VERIF_TRACE'] = '1'
    os.makedirs(e['VERIF_OUT'], exist_ok=True)
    ok = False
    for _ in range(n):
        r = subprocess.run([os.path.join(wd, 'props.test'), '-test.run', 'TestReplay', '-test.timeout', '20m'], cwd=e['VERIF_OUT'], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if 'REPRODUCED' in r.stdout and 'NOT-REPRODUCED' not in r.stdout or r.returncode and crashed(r.stdout):
            ok = True
            break
    return ok, r.stdout


def rerun(prop, wd, tier, nsh, rapid_seed, r):
    """Runs the cases of one shard again, in the same order: is there the same kind of violation?"""
    d = os.path.join(wd, 'rerun')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    e = goenv()
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SHARDS=str(nsh), VERIF_BUDGET_S='400', VERIF_OUT=d, SIM_BIN=os.path.join(wd, 'sim'), VERIF_SHRINK_S='0')
    e.pop('VERIF_REPLAY', None)
    subprocess.run([os.path.join(wd, 'props.test'), '-test.run', 'TestProp', '-test.timeout', '20m', '-rapid.seed=%d' % rapid_seed], cwd=d, env=e, stdout=open(os.path.join(d, 'log.txt'), 'w'), stderr=subprocess.STDOUT)
    crash_replay(d)
    try:
        return json.load(open(os.path.join(d, r['Check'] + '-fail.json')))['Kind'] == r['Kind']
    except (OSError, ValueError):
        return False


def crashed(log):
    """The crash of the whole process in the code under test (in a goroutine of its own, say), if that is what the log shows."""
    m = re.search(r'^(panic: |fatal error: ).*$', log, re.M)
    if not m or 'test timed out' in m.group(0) or 'out of memory' in m.group(0):
        return None
    g = re.search(r'^goroutine .*?(?:\n\n|\Z)', log[m.start():], re.M | re.S)
    return m.group(0) if g and '/repo/' in g.group(0) else None


def crash_replay(d):
    """Makes a replay file of the case a crashed shard was running."""
    log = open(os.path.join(d, 'log.txt'), errors='replace').read()
    msg = crashed(log)
    try:
        with open(os.path.join(d, 'current.json'), 'rb') as f:
            prop, name, n = f.readline().decode().split()
            case = json.loads(f.read(int(n)))
    except Exception:
        return
    if msg:
        json.dump(dict(Property=prop, Check=name, Kind='crash', Message=msg, Case=case, Trace=log[-6000:].split('\n')), open(os.path.join(d, name + '-fail.json'), 'w'), indent=1)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(64)
    wd = workdir()
    try:
        if sys.argv[1] == '--setup':
            for m in ('sim', 'msk'):
                if os.path.isdir(os.path.join(V, m)):
                    build(wd, m)
            return 0
        if sys.argv[1] == '--replay':
            r = json.load(open(sys.argv[2]))
            p = r['Property']
            build(wd, MODS.get(p, 'sim'))
            if 'Rerun' in r:
                ok = rerun(p, wd, r['Rerun']['tier'], r['Rerun']['shards'], r['Rerun']['rapid_seed'], r)
                print('REPRODUCED' if ok else 'NOT-REPRODUCED')
                return 1 if ok else 0
            ok, text = replay(sys.argv[2], wd, 1, len(sys.argv) > 3)
            print(text)
            return 1 if ok else 0
        return check(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'), wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def check(prop, tier, wd):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    for old in glob.glob(os.path.join(V, 'evidence', prop + '*')):
        os.remove(old)
    build(wd, MODS.get(prop, 'sim'))
    tb = time.time() - t0
    nsh = int(os.environ.get('VERIF_NSHARDS', '8'))
    budget = int(os.environ.get('VERIF_BUDGET_S', '0')) or (420 if tier == 'quick' else 3 * 3600)
    procs = []
    for i in range(nsh):
        d = os.path.join(wd, 's%d' % i)
        os.makedirs(d)
        e = goenv()
        e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SHARDS=str(nsh), VERIF_BUDGET_S=str(budget), VERIF_OUT=d, SIM_BIN=os.path.join(wd, 'sim'), VERIF_SHRINK_S='25')
        e.pop('VERIF_REPLAY', None)
        rs = (abs(seed) * 1009 + i + 1) & 0x7fffffff
        f = open(os.path.join(d, 'log.txt'), 'w')
        procs.append(subprocess.Popen([os.path.join(wd, 'props.test'), '-test.run', 'TestProp', '-test.timeout', '12h', '-rapid.seed=%d' % rs], cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True))
    fail = None
    left = set(range(nsh))
    while left:
        for i in sorted(left):
            if procs[i].poll() is not None:
                left.discard(i)
                if fail is None and procs[i].returncode != 0 and not glob.glob(os.path.join(wd, 's%d' % i, '*-fail.json')):
                    crash_replay(os.path.join(wd, 's%d' % i))
                if fail is None and procs[i].returncode != 0 and glob.glob(os.path.join(wd, 's%d' % i, '*-fail.json')):
                    fail = i
        if fail is not None:
            for i in left:
                try:
                    os.killpg(procs[i].pid, signal.SIGKILL)
                except OSError:
                    pass
                procs[i].wait()
            break
        time.sleep(0.05)
    checks, errs = {}, []
    for i in range(nsh):
        f = os.path.join(wd, 's%d' % i, 'shard.json')
        try:
            sh_ = json.load(open(f))
        except Exception:
            if fail is None:
                errs.append('shard %d gave no result: %s' % (i, open(os.path.join(wd, 's%d' % i, 'log.txt')).read()[-1500:]))
            continue
        for c in sh_['Checks'] or []:
            a = checks.setdefault(c['Name'], dict(evals=0, hashes=set(), planned=0, stats={}, samples=[], rule=c['Rule'], notes={}, wall=0, short=0, herr=0))
            a['evals'] += c['Evals']
            a['hashes'] |= set(c.get('Hashes') or [])
            a['planned'] += c['Planned']
            a['herr'] += c['HarnessErrors']
            a['short'] += bool(c['DeadlineHit'])
            a['wall'] = max(a['wall'], c['WallS'])
            for k, v in (c['Stats'] or {}).items():
                a['stats'][k] = max(a['stats'].get(k, 0), v) if k.startswith('max_') else a['stats'].get(k, 0) + v
            for k, v in (c['Notes'] or {}).items():
                a['notes'][k] = a['notes'].get(k, 0) + v
            if len(a['samples']) < 3:
                a['samples'] += (c['Samples'] or [])[:1]
            if c['HarnessErrors']:
                errs.append('shard %d check %s: %d harness errors: %s' % (i, c['Name'], c['HarnessErrors'], c['HarnessErr'][-800:]))
    viol = None
    if fail is not None:
        src = sorted(glob.glob(os.path.join(wd, 's%d' % fail, '*-fail.json')))[0]
        ok, text = replay(src, wd, 3)
        r = json.load(open(src))
        dst = os.path.join(V, 'evidence', '%s-replay.json' % prop)
        shutil.copy(src, dst)
        msg = '%s: %s' % (r['Kind'], r['Message'])
        if ok:
            viol = (dst, msg)
        elif rerun(prop, wd, tier, nsh, (abs(seed) * 1009 + fail + 1) & 0x7fffffff, r):
            # it takes the cases before it as well: the replay file says which run of cases that is
            r['Rerun'] = dict(tier=tier, shards=nsh, rapid_seed=(abs(seed) * 1009 + fail + 1) & 0x7fffffff)
            json.dump(r, open(dst, 'w'), indent=1)
            viol = (dst, msg + ' (together with the cases before it in the same process)')
        else:
            errs.append('violation seen once but not reproduced by its replay (%s): %s' % (msg[:500], text[-300:]))
    ev = sum(a['evals'] for a in checks.values())
    nt = sum(len(a['hashes']) for a in checks.values())
    evidence = dict(property=prop, tier=tier, seed=seed, level=LEVEL, wall_s=round(time.time() - t0, 1), violations=1 if viol else 0,
                    coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule='; '.join('%s: %s' % (k, a['rule']) for k, a in checks.items()),
                                  samples=[s for a in checks.values() for s in a['samples']][:12],
                                  build_s=round(tb, 1), shards=nsh,
                                  checks={k: dict(evaluations=a['evals'], distinct_nontrivial=len(a['hashes']), planned=a['planned'], wall_s=round(a['wall'], 1), stopped_by_budget=a['short'],
                                                  harness_errors=a['herr'], measured=a['stats'], notes=a['notes']) for k, a in checks.items()}),
                    assumptions=['see DESIGN.md: simulated Kafka brokers implement the documented protocol; the simulated scheduler explores cooperative interleavings at channel, lock and sleep points'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for k, a in checks.items():
        print('%s %s: %d cases (%d distinct non-trivial) in %.0fs%s' % (prop, k, a['evals'], len(a['hashes']), a['wall'], ', stopped by the time budget' if a['short'] else ''))
    for k in known(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        print(viol[1][:2000])
        print('VIOLATION property=%s replay=%s' % (prop, viol[0]))
        return 1
    total_h = sum(a['herr'] for a in checks.values())
    if errs:
        print('\n'.join(errs)[:6000])
        if fail is not None or not checks or total_h == 0 or total_h * 100 > ev:
            return 3
    if not checks or ev == 0:
        print('nothing was checked')
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
