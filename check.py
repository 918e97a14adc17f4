#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current working tree:
 1. dumps the compiled form (MIR) of the crate,
 2. proves every contract clause the property rests on, function by function (mirvc/worker.py),
 3. runs the harness (random search with rigorous oracles) for what the contracts trust,
 4. on a failed obligation looks for a concrete failing input.
exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: the check could not run."""
import sys, os, json, re, time, subprocess, shutil, threading, queue

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'mirvc'))
import spec
try:
    import z3  # noqa
except ImportError:
    os.execv(shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3', ['python3-vt'] + [os.path.abspath(__file__)] + sys.argv[1:])

T0 = time.time()
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, flush=True)


def kill(pr):
    try:
        os.killpg(pr.pid, 9)
    except OSError:
        pass


def run(cmd, secs, gb=8, env=None, cwd=None):
    """(returncode or None on timeout, stdout, stderr)"""
    pr = subprocess.Popen(['prlimit', '--as=%d' % (gb << 30), '--core=0'] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, env=env, cwd=cwd)
    try:
        o, e = pr.communicate(timeout=max(1, secs))
        return pr.returncode, o, e
    except subprocess.TimeoutExpired:
        kill(pr)
        o, e = pr.communicate()
        return None, o, e


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.P = spec.PROPS[prop]
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.dir = os.path.join(HERE, 'build', 'run-%s-%d' % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.total = 840 if tier == 'quick' else 3600
        self.hits = []          # confirmed failing inputs
        self.search = dict(cases=0, checked=0, panics=0, died=0, topics={})
        self.lock = threading.Lock()

    def left(self):
        return self.total - (time.time() - T0)

    # ---------------------------------------------------------------- build
    def build(self):
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
        res = {}

        def dump():
            if not os.path.exists(os.path.join(HERE, 'build', 'mirdump')):
                r = run(['bash', os.path.join(HERE, 'mirdump', 'build.sh')], 300, 64, env)
                if r[0] != 0:
                    res['dump'] = r
                    return
            self.dump = os.path.join(self.dir, 'mir.json')
            res['dump'] = run(['bash', os.path.join(HERE, 'mirdump', 'dump.sh'), self.dump], 300, 64, env)

        def harness():
            self.harness = os.path.join(self.dir, 'harness')
            res['harness'] = run(['bash', os.path.join(HERE, 'harness', 'build.sh'), self.harness], 300, 64, env)
        ts = [threading.Thread(target=dump), threading.Thread(target=harness)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        for k, r in res.items():
            if r[0] != 0:
                print('cannot build %s:\n%s' % (k, (r[1] + r[2])[-3000:]))
                sys.exit(2)
        log('built')

    # ---------------------------------------------------------------- search
    def search_topic(self, topic, seed, secs, stop):
        end = min(time.time() + secs, T0 + self.total - 20)
        frm = 0
        prog = os.path.join(self.dir, 'progress-%s-%d' % (topic, seed))
        while time.time() < end - 0.3 and not stop.is_set():
            slice_ = min(20, end - time.time())
            rc, o, e = run([self.harness, 'search', topic, '--seed', str(seed), '--secs', '%.1f' % slice_, '--from', str(frm), '--progress', prog], slice_ + 30, 6)
            try:
                at = int(open(prog).read())
            except Exception:
                at = frm
            with self.lock:
                t = self.search['topics'].setdefault(topic, dict(cases=0, checked=0, panics=0, died=0))
                t['cases'] += at + 1 - frm
                for w in o.split():
                    k, _, v = w.partition('=')
                    if k in ('panics', 'checked') and v.isdigit():
                        t[k] += int(v)
                if rc not in (0, 1):
                    t['died'] += 1
            frm = at + 1
            if rc == 1 and 'CASE ' in o:
                case = [l for l in o.splitlines() if l.startswith('CASE ')][0].split()[1]
                r2, o2, e2 = run([self.harness, 'replay', topic, case], 60, 6)
                if r2 == 1:
                    with self.lock:
                        self.hits.append(dict(topic=topic, case=case, report=o2.strip()))
                    stop.set()
                    return

    def start_search(self, procs, secs):
        """procs parallel searches over the property's topics"""
        stop = threading.Event()
        topics = self.P['topics']
        jobs = []
        for i in range(max(procs, len(topics)) if procs else 0):
            jobs.append((topics[i % len(topics)], self.seed * 1000 + i))
        q = queue.Queue()
        for j in jobs:
            q.put(j)
        per = secs * procs / max(1, len(jobs))

        def work():
            while not stop.is_set():
                try:
                    t, s = q.get_nowait()
                except queue.Empty:
                    return
                self.search_topic(t, s, per, stop)
        ts = [threading.Thread(target=work) for _ in range(procs)]
        [t.start() for t in ts]
        return ts, stop

    # ---------------------------------------------------------------- proof
    def prove_one(self, task, opts, secs, tag):
        name, ids = task['fn'], ','.join(task['clauses'])
        out = os.path.join(self.dir, 'r-%s-%s-%s.json' % (''.join(c if c.isalnum() else '_' for c in name), '_'.join(task['clauses']).replace(' ', '_') + '-' + str(task.get('instance', 0)) + '-'.join(map(str, task.get('opts', {}).get('shard', ()))), tag))
        o = dict(opts, max_secs=max(20, secs - 10), instance=task.get('instance', 0))
        o.update(task.get('opts', {}))
        rc, so, se = run([PY, os.path.join(HERE, 'mirvc', 'worker.py'), self.dump, out, name, ids, json.dumps(o)], secs, 6)
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            r = dict(function=name, clauses=task['clauses'], obligations=[], paths=0, returns=0, error='no result within %ds (rc %s): %s' % (secs, rc, (se or '')[-300:]), secs=secs)
        return r

    def verdict(self, r):
        bad = [o for o in r['obligations'] if not o['ok']]
        if bad:
            return 'failed'
        if r['error']:
            return 'unsupported' if 'unsupported' in r['error'] or 'internal' in r['error'] else 'undecided'
        if not r['obligations']:
            return 'empty'
        return 'proved'

    def prove_all(self, workers):
        import run1
        e = run1.mk(self.dump)
        self.dropped = dict(e.contracts.dropped)
        tasks, self.skipped = [], []
        for t in spec.tasks(self.prop, self.tier, e.contracts):
            if t['fn'] not in e.p.by_norm or t.get('instance', 0) >= len(e.p.by_norm[t['fn']]):
                self.skipped.append(dict(t, why='no such function in the tree'))
            elif e.contracts.get(t['fn']) is None:
                self.skipped.append(dict(t, why=self.dropped.get(t['fn'], 'no contract')))
            elif t.get('shards', 1) > 1:
                tasks += [dict(t, cost=t['cost'] / t['shards'], opts=dict(t.get('opts', {}), shard=(i, t['shards'], t.get('depth', 8)))) for i in range(t['shards'])]
            else:
                tasks.append(t)
        tasks.sort(key=lambda t: -t.get('cost', 1))
        q = queue.Queue()
        for t in tasks:
            q.put((t, 0))
        results = {}
        pend = [len(tasks)]
        self.failed_early = threading.Event()

        def work():
            while True:
                try:
                    t, k = q.get(timeout=0.3)
                except queue.Empty:
                    with self.lock:
                        if pend[0] == 0:
                            return
                    continue
                left = self.left() - 60
                if left < 30:
                    r = dict(function=t['fn'], clauses=t['clauses'], obligations=[], paths=0, returns=0, error='out of time', secs=0)
                    k = 9
                else:
                    opts = {} if k == 0 else dict(solver_ms=30000, houd_ms=6000, feas_ms=2000, loop_hints=False)
                    r = self.prove_one(t, opts, min(left, 400 if k == 0 and self.tier == 'quick' else 1500), str(k))
                v = self.verdict(r)
                again = k == 0 and v in ('failed', 'undecided') and self.left() > 200
                if again and v == 'failed':
                    self.failed_early.set()
                log('%-12s %s [%s] obligations %d/%d paths %d %.1fs %s' % (v + ('?' if again else ''), t['fn'], ','.join(t['clauses']), sum(o['ok'] for o in r['obligations']), len(r['obligations']), r['paths'], r['secs'], r['error'] or ''))
                if again:
                    r['retry_of'] = v
                    q.put((t, 1))
                    continue
                r['verdict'] = v
                with self.lock:
                    results[(t['fn'], tuple(t['clauses']), t.get('instance', 0), tuple(t.get('opts', {}).get('shard', ())))] = r
                    pend[0] -= 1
        ts = [threading.Thread(target=work) for _ in range(workers)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        self.results = self.joined([results[k] for k in sorted(results)])

    def joined(self, rs):
        """the parts of one function's paths put together"""
        out = {}
        for r in rs:
            k = (r['function'], tuple(r['clauses']))
            if k not in out:
                out[k] = r
                continue
            o = out[k]
            o['obligations'] += r['obligations']
            for n in ('paths', 'returns', 'secs'):
                o[n] = round(o[n] + r[n], 2)
            o['error'] = o['error'] or r['error']
            for n in ('stats', 'used'):
                for x, y in r.get(n, {}).items():
                    o.setdefault(n, {})[x] = o.get(n, {}).get(x, 0) + y
            for n in ('inlined', 'intrinsics'):
                o[n] = sorted(set(o.get(n, [])) | set(r.get(n, [])))
            o['verdict'] = max((o['verdict'], r['verdict']), key=('empty', 'proved', 'undecided', 'unsupported', 'failed').index)
        return list(out.values())

    # ---------------------------------------------------------------- report
    def replay_file(self, text):
        d = os.path.join(HERE, 'build', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.txt' % self.prop)
        open(p, 'w').write(text)
        return p

    def laws(self):
        """the laws of the reals the obligations use, by the Lean kernel"""
        try:
            t = time.time()
            r = subprocess.run(['lean', os.path.join(HERE, 'laws', 'Laws.lean')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400, cwd=self.dir)
            out = r.stdout.decode(errors='replace')
            bad = r.returncode != 0 or 'sorry' in out
            self.lean = dict(file='laws/Laws.lean', theorems=len(re.findall(r'^theorem ', open(os.path.join(HERE, 'laws', 'Laws.lean')).read(), re.M)),
                             result='not accepted: ' + out[:500] if bad else 'accepted by Lean', secs=round(time.time() - t, 1))
        except (OSError, subprocess.SubprocessError) as e:
            self.lean = dict(file='laws/Laws.lean', result='Lean did not run: %s' % e)

    def evidence(self, outcome):
        R = self.results
        obl = sum(len(r['obligations']) for r in R)
        dis = sum(sum(o['ok'] for o in r['obligations']) for r in R)
        verified = {r['function'] for r in R if r['verdict'] == 'proved'}
        used = {}
        for r in R:
            for k, v in r.get('used', {}).items():
                used[k] = used.get(k, 0) + v
        import run1
        reg = run1.mk(self.dump).contracts
        assumed = sorted(k for k in used if k not in verified)
        elsewhere = spec.proved_elsewhere(self.prop)
        trusted = [k + (': ' + reg.get(k).trusted if reg.get(k) and reg.get(k).trusted else '') for k in assumed if k not in elsewhere]
        cov = dict(obligations=obl, discharged=dis,
                   checker_cmd='python3-vt mirvc/worker.py MIR OUT FUNCTION CLAUSES (one per function below; z3 %s)' % next((r['z3'] for r in R if 'z3' in r), '?'),
                   trusted_base=spec.TRUSTED_BASE + ['domain restriction, assumed on entry and not checked at calls: %s: %s' % (k, ' '.join((reg.get(k).assumes.__doc__ or '').split())) for k in sorted(set(verified) | set(used)) if reg.get(k) and reg.get(k).assumes] + ['contract assumed, not proved: ' + t for t in trusted] + sorted({'modelled library code: ' + i for r in R for i in r.get('intrinsics', [])}),
                   functions_under_contract=[dict(function=r['function'], clauses=r['clauses'], verdict=r['verdict'], obligations=len(r['obligations']), discharged=sum(o['ok'] for o in r['obligations']),
                                                  paths=r['paths'], returning_paths=r['returns'], paths_checked_consistent=r.get('stats', {}).get('live', 0), secs=r['secs'], solver_secs=round(r.get('stats', {}).get('solver_secs', 0), 1), error=r['error']) for r in R],
                   contracts_proved_by_other_checks=[k + ' (%s)' % elsewhere[k] for k in assumed if k in elsewhere],
                   inlined=sorted({i for r in R for i in r.get('inlined', [])}),
                   not_checked=self.skipped, contracts_dropped=self.dropped,
                   solver_secs=round(sum(r.get('stats', {}).get('solver_secs', 0) for r in R), 1),
                   solver_queries=sum(r.get('stats', {}).get('queries', 0) for r in R),
                   search=dict(rule='random expressions and valuations; results compared with exact rational / outward rounded interval evaluation; bounded, not counted as proved', **self.search),
                   laws=self.lean, outcome=outcome,
                   bounded=[r['function'] for r in R if r['verdict'] != 'proved'] + self.P.get('bounded', []))
        cov['search'].update({k: sum(t[k] for t in self.search['topics'].values()) for k in ('cases', 'checked', 'panics', 'died')})
        if self.P['level'] != 'proof':
            cov['evaluations'] = cov['search']['cases']
            cov['distinct_nontrivial'] = min(cov['search']['cases'], cov['search']['checked'])
            cov['rule'] = cov['search']['rule']
            cov['samples'] = ['topic %s, seed %d' % (t, self.seed * 1000) for t in self.P['topics']]
            cov['explanation'] = self.P['note']
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.P['level'], coverage=cov, wall_s=round(time.time() - T0, 1))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w'), indent=1)

    def main(self):
        try:
            return self.main2()
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def main2(self):
        self.build()
        quick = self.tier == 'quick'
        ncpu = os.cpu_count() or 4
        has = bool(self.P['fns'])
        ns = max(2, ncpu // 4) if has else ncpu
        ts, stop = self.start_search(ns, self.P.get('secs', 40) if quick else 600)
        self.results, self.skipped, self.dropped, self.lean = [], [], {}, None
        if has:
            ts.append(threading.Thread(target=self.laws))
            ts[-1].start()
        self.prove_all(max(2, ncpu - 2))
        [t.join() for t in ts]
        failed = [r for r in self.results if r['verdict'] == 'failed']
        if failed and not self.hits:
            log('searching for a failing input')
            ts, stop = self.start_search(ncpu, min(150 if quick else 900, max(20, self.left() - 40)))
            [t.join() for t in ts]
        for k in spec.known(self.prop):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if self.hits:
            h = self.hits[0]
            txt = 'property %s is violated by this input\n\n%s\n\nreplay: %s (build with harness/build.sh) replay %s %s\n' % (self.prop, h['report'], 'harness', h['topic'], h['case'])
            if failed:
                txt += '\nfailed obligations:\n' + self.failtext(failed)
            p = self.replay_file(txt)
            print(h['report'])
            self.evidence('violation')
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
            return 1
        if failed:
            txt = 'property %s: the verifier does not accept these obligations\n\n%s' % (self.prop, self.failtext(failed))
            p = self.replay_file(txt)
            print(txt[:3000])
            self.evidence('failed obligation')
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (self.prop, p))
            return 1
        odd = [r for r in self.results if r['verdict'] != 'proved']
        self.evidence('held' if not odd and not self.skipped else 'held; some functions only by bounded search')
        for r in odd:
            log('only searched (bounded):', r['function'], r['error'])
        log('property %s held: %d obligations discharged, %d cases searched' % (self.prop, sum(len(r['obligations']) for r in self.results), sum(t['cases'] for t in self.search['topics'].values())))
        return 0

    def failtext(self, failed):
        out = []
        for r in failed:
            for o in r['obligations']:
                if not o['ok']:
                    out.append('function %s, clause %s, line %s: %s\n  %s' % (o['function'], o['clause'], o['line'], o['status'], o['what']))
                    d = o.get('detail') or {}
                    if d.get('model'):
                        out.append('  counterexample to the obligation: %s' % json.dumps(d['model'])[:1500])
                    for l in (d.get('path') or [])[-25:]:
                        out.append('    path: ' + l)
        return '\n'.join(out) + '\n'


if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    sys.exit(Check(sys.argv[1], tier).main())
