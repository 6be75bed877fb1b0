#!/usr/bin/env python3
"""check runner:  run.py <property>            decides one property on /repo's working tree
                  run.py --setup               compiles the number module and checks the toolchain
                  run.py --replay <trace.json> judges one recorded trace again, with TLC's counterexample

1. scenarios are generated from VERIF_SEED (harness/props.py) and executed on the real code by worker processes (harness/driver.py);
2. the recorded traces are checked by TLC against spec/Trace.tla, one behaviour per scenario;
3. model-checking runs of the specification (spec/MC_*.tla) that the property relies on are run, and the behaviours TLC enumerates are replayed.

Exit 0: every trace conforms (apart from listed known findings).  Exit 1: VIOLATION lines.  Exit 2: the machinery failed."""
import sys, os, json, time, subprocess, re, shutil, tempfile, random, hashlib, multiprocessing as mp, traceback, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
BUILD = os.path.join(ROOT, 'build')
PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(1, min(8, os.cpu_count() or 1))


def build():
    """Compiles spec/Num.java into build/ if it is not there yet for this source."""
    src = os.path.join(SPEC, 'Num.java')
    tag = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'cls-' + tag)
    if os.path.exists(os.path.join(out, 'done')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'done')):
            os.makedirs(out, exist_ok=True)
            subprocess.run(['javac', '-d', out, '-cp', CP, src], check=True)
            open(os.path.join(out, 'done'), 'w').close()
    return out


def tlc(module, cfg, cls, work, env=None, workers=NCPU, timeout=600, args=()):
    """Runs TLC; returns (output, exit code or None on timeout)."""
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx10g', '-cp', CP + ':' + cls, 'tlc2.TLC', '-noTE' if False else '-noGenerateSpecTE',
           '-metadir', meta, '-workers', str(workers), '-config', cfg, *args, module + '.tla']
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.stdout.decode('utf8', 'replace'), p.returncode
    except subprocess.TimeoutExpired as ex:
        return (ex.stdout or b'').decode('utf8', 'replace'), None
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ------------------------------------------------------------------------------------------------- executing scenarios

def _worker(args):
    """Generates and executes one scenario (in a pool process)."""
    spec, limit = args
    sys.path.insert(0, HERE)
    import driver, props
    try:
        sc = props.make(spec)
    except Exception:
        return {'generator': traceback.format_exc(), 'spec': spec}
    if sc is None:
        return None
    out = driver.run_scenario(sc, limit)
    out['spec'] = list(spec)
    return out


def execute(specs, limit=60, wall=400):
    """Runs the scenarios in processes; a scenario whose process dies or hangs is reported as such."""
    res = [None] * len(specs)
    deadline = time.time() + wall
    pool = mp.Pool(NCPU, maxtasksperchild=60)
    try:
        hs = [pool.apply_async(_worker, ((s, limit),)) for s in specs]
        for i, h in enumerate(hs):
            try:
                res[i] = h.get(max(1, deadline - time.time()))
            except mp.TimeoutError:
                if time.time() >= deadline:
                    res[i] = 'unfinished'
    finally:
        pool.terminate()
        pool.join()
    # a second chance, alone, for scenarios that did not finish
    for i, x in enumerate(res):
        if x == 'unfinished' or (isinstance(x, dict) and x.get('events') and x['events'][-1].get('exc') == 'Timeout'):
            if time.time() > deadline + 240:
                res[i] = None
                continue
            with mp.Pool(1) as p:
                try:
                    res[i] = p.apply_async(_worker, ((specs[i], limit),)).get(limit + 30)
                except mp.TimeoutError:
                    res[i] = 'hang'
                finally:
                    p.terminate()
    return res


# ------------------------------------------------------------------------------------------------------------ judging

STATES = re.compile(r'(\d+) states generated, (\d+) distinct states found')
BAD = re.compile(r'^"BAD <<(\d+), (\d+), (.*)>>"$')
END = re.compile(r'^"END (\d+)"$')


def unq(s):
    return s.replace('\\"', '"').replace('\\\\', '\\')


def judge(traces, cls, work, timeout=600):
    """TLC over the traces.  Returns (bad: {index: [(event, clauses)]}, states, seconds, errors: {index: message})."""
    bad, errors, states = {}, {}, 0
    todo = list(range(len(traces)))
    t0 = time.time()
    while todo:
        path = os.path.join(work, 'batch-%d.json' % random.SystemRandom().randrange(10**9))
        json.dump([traces[i] for i in todo], open(path, 'w'))
        out, rc = tlc('Trace', 'Trace.cfg', cls, work, {'TRACE_FILE': path}, timeout=timeout)
        os.remove(path)
        ended = set()
        for ln in out.splitlines():
            m = BAD.match(ln)
            if m:
                bad.setdefault(todo[int(m.group(1)) - 1], []).append((int(m.group(2)), unq(m.group(3))))
                continue
            m = END.match(ln)
            if m:
                ended.add(int(m.group(1)) - 1)
                continue
            m = STATES.search(ln)
            if m:
                states += int(m.group(2))
        for i in {k for k in bad}:       # an aborted scenario prints no END
            if i in todo: ended.add(todo.index(i))
        if rc == 0:
            left = [todo[k] for k in range(len(todo)) if k not in ended]
            if left:
                raise RuntimeError('TLC finished without ending scenarios %s' % left[:5])
            break
        if rc is None:
            raise RuntimeError('TLC ran out of time (%d of %d scenarios judged)' % (len(ended), len(todo)))
        m = re.search(r'/\\ sc = (\d+)', out)
        msg = '\n'.join(l for l in out.splitlines() if not l.startswith('"'))[-3000:]
        if not m:
            raise RuntimeError('TLC failed:\n' + msg)
        k = int(m.group(1)) - 1
        errors[todo[k]] = msg
        if len(errors) > 8:
            break
        bad = {i: v for i, v in bad.items() if todo.index(i) in ended and i != todo[k]}
        todo = [todo[q] for q in range(len(todo)) if q != k and (q not in ended)]
    return bad, states, time.time() - t0, errors


def counterexample(trace, cls, work):
    path = os.path.join(work, 'single.json')
    json.dump([trace], open(path, 'w'))
    out, rc = tlc('Trace', 'TraceInv.cfg', cls, work, {'TRACE_FILE': path}, workers=1, timeout=300)
    return out


def findings():
    """known_findings.txt: 'finding: property=Pxx scenario=<id> clause=<clause> <what fails>' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    for ln in open(p) if os.path.exists(p) else []:
        m = re.match(r'finding: property=(\S+) scenario=(\S+) clauses=(\S+) (.*)', ln.strip())
        if m:
            out.append(dict(property=m.group(1), scenario=m.group(2), clauses=set(m.group(3).replace('_', ' ').split('|')), what=m.group(4)))
    return out


CLAUSE = re.compile(r'<<"([a-z][^"]*)", ')


def clauses_of(text):
    return set(CLAUSE.findall(text))


def main():
    t0 = time.time()
    cls = build()
    if sys.argv[1:] == ['--setup']:
        work = tempfile.mkdtemp(prefix='verif-')
        try:
            out, rc = tlc('MC_Num', 'MC_Num.cfg', cls, work, timeout=120)
            if rc != 0:
                print(out); return 2
        finally:
            shutil.rmtree(work, ignore_errors=True)
        subprocess.run([PY, '-c', 'import sys; sys.dont_write_bytecode = True; sys.path.insert(0, "/repo"); import PyNite'], check=True)
        print('setup ok')
        return 0
    if sys.argv[1] == '--replay':
        work = tempfile.mkdtemp(prefix='verif-')
        try:
            out = counterexample(json.load(open(sys.argv[2])), cls, work)
            print(out)
            return 1 if 'is violated' in out else 0
        finally:
            shutil.rmtree(work, ignore_errors=True)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if '--quick' in sys.argv: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return decide(pid, tier, seed, cls, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, tier, seed, cls, work, t0):
    sys.path.insert(0, HERE)
    import props
    cfg = props.CONFIG[pid]
    known = [f for f in findings() if f['property'] == pid]
    rep = os.path.join(ROOT, 'replays', pid)
    shutil.rmtree(rep, ignore_errors=True)
    nviol, seen, hits = 0, set(), set()
    mcinfo = []

    def violation(name, what, files):
        nonlocal nviol
        os.makedirs(rep, exist_ok=True)
        path = None
        for fn, content in files.items():
            fn = fn.replace('/', '-')
            path = path or os.path.join(rep, fn)
            with open(os.path.join(rep, fn), 'w') as fh: fh.write(content)
        nviol += 1
        print('  ' + name + ': ' + what[:600])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()

    # specification model-checking runs and the behaviours they enumerate
    extra = []
    for run in cfg.get('mc', []):
        out, rc = tlc(run['module'], run.get('cfg', run['module'] + '.cfg'), cls, work, env={k: v.replace('$SEED', str(seed)) for k, v in run.get('env', {}).get(tier, {}).items()}, timeout=run.get('timeout', 600), workers=run.get('workers', NCPU), args=run.get('args', ()))
        m = STATES.findall(out)
        if rc != 0 or not m:
            print(out[-4000:])
            print('the specification itself fails its model-checking run ' + run['module'])
            return 2
        info = {'module': run.get('label', run['module']), 'states': int(m[-1][1]), 'transitions': int(m[-1][0])}
        mcinfo.append(info)
        if run.get('replay'):
            beh = props.behaviours(run, pid, out, random.Random(seed), run.get('limit', {}).get(tier, 10**9))
            info['behaviours_replayed'] = len(beh)
            extra += beh

    total = dict(scen=0, events=0, obs=0, states=0, tlc=0.0, rejected=0)
    hashes, samples = set(), []
    rounds = 0
    budget = cfg.get('budget', {}).get(tier, 45 if tier == 'quick' else 600)
    tstart = time.time()
    while True:
        specs = props.plan(pid, tier, seed, rounds)
        if rounds == 0:
            specs = extra + specs
        if not specs: break
        recs = execute(specs)
        traces = []
        for s, x in zip(specs, recs):
            if x is None: continue
            if x == 'hang':
                violation(str(s), 'the code under test did not return', {'hang-%s.json' % hashlib.md5(json.dumps(s).encode()).hexdigest()[:8]: json.dumps(s)})
                continue
            if 'generator' in x:
                print(x['generator']); print('generator failed for', x['spec'])
                return 2
            traces.append(x)
        batch = cfg.get('batch', 400)
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            bad, st, sec, errs = judge(part, cls, work)
            total['states'] += st; total['tlc'] += sec
            for i, x in enumerate(part):
                total['scen'] += 1
                total['events'] += len(x['events'])
                total['obs'] += sum(len(e.get('obs', {})) for e in x['events'])
                total['rejected'] += sum(1 for e in x['events'] if e.get('ok') is False)
                hashes.add(hashlib.md5(json.dumps([{k: v for k, v in e.items() if k in ('op', 'how', 'node', 'member', 'dir', 'P', 'w1', 'X', 'Y', 'Z', 'i', 'j', 'r', 's', 'tags', 'factors', 'args')} for e in x['events']], sort_keys=True, default=str).encode()).hexdigest())
            if len(samples) < 3 and part:
                x = part[len(part) // 2]
                samples.append({'scenario': x['id'], 'events': [dict((k, v) for k, v in e.items() if k not in ('obs', 'proj', 'mesh', 'exc', 'have')) for e in x['events'][:40]]})
            for i in sorted(errs):
                x = part[i]
                violation(x['id'], 'an observation lies outside the domain of the specification', {x['id'] + '.json': json.dumps(x), x['id'] + '.tlc.txt': errs[i]})
            for i in sorted(bad):
                x = part[i]
                txt = '; '.join('event %d: %s' % v for v in bad[i])
                cl = set().union(*[clauses_of(v[1]) for v in bad[i]])
                f = [k for k in known if k['scenario'] == x['id']]
                if f and cl <= f[0]['clauses']:
                    hits.add(x['id'])
                    print('KNOWN-FINDING: property=%s %s' % (pid, f[0]['what']))
                    continue
                if nviol < int(os.environ.get("VERIF_MAXREPLAY", "4")):
                    violation(x['id'], txt, {x['id'] + '.json': json.dumps(x), x['id'] + '.tlc.txt': counterexample(x, cls, work)})
                else:
                    nviol += 1
        rounds += 1
        if nviol or time.time() - tstart > budget: break
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': total['states'] + sum(i['states'] for i in mcinfo), 'transitions': total['events'] + sum(i['transitions'] for i in mcinfo),
                       'traces_validated_against_impl': total['scen'], 'distinct_scenarios': len(hashes), 'combination_results_judged': total['obs'],
                       'calls_rejected_by_the_code': total['rejected'], 'rounds': rounds, 'specification_runs': mcinfo, 'tlc_seconds': round(total['tlc'], 1),
                       'rule': cfg.get('rule', ''), 'samples': samples},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d scenarios (%d distinct), %d calls, %d combination results, %d states, %.0f s, %d violation(s)' % (
        pid, tier, total['scen'], len(hashes), total['events'], total['obs'], ev['coverage']['states'], ev['wall_s'], nviol))
    return 1 if nviol else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
