import json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time

V = '/verif'
BIN = V + '/build/target/debug'
ASAN_BIN = V + '/build/asan/x86_64-unknown-linux-gnu/debug/cv'


class CheckError(Exception):
    pass


def load_known():
    """known_findings.jsonl: {"property","sig","what"} suppresses exactly that
    signature; {"fixed": ...} entries suppress nothing."""
    out = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.viols = []       # (sig, detail, replay dict)
        self.notes = []
        self.assumptions = []
        self.rule = ''
        self.replay = None
        self.required = {}    # counter -> minimum, else inconclusive
        self.rng = random.Random(seed * 1000003 + hash_str(prop))
        os.makedirs(V + '/work', exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='%s.' % prop, dir='/tmp')
        self.procs = []
        self.quick = tier == 'quick'
        self.level = 'exploration'
        for line in open(V + '/properties.jsonl'):
            pass
        try:
            for c in json.load(open(V + '/MANIFEST.json'))['checks']:
                if c['property'] == prop:
                    self.level = c['level']
        except Exception:
            pass

    # -- building -----------------------------------------------------------
    def build(self):
        t = time.time()
        r = subprocess.run(['bash', V + '/tools/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode('utf8', 'replace')[-6000:])
            raise CheckError('build failed')
        self.build_s = time.time() - t

    def build_asan(self):
        """The harness under AddressSanitizer; returns cv() keyword arguments."""
        r = subprocess.run(['bash', V + '/tools/build.sh', 'asan'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            sys.stdout.write(r.stdout.decode('utf8', 'replace')[-6000:])
            raise CheckError('build failed')
        return dict(exe=ASAN_BIN, env={'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:allocator_may_return_null=1', 'RUST_MIN_STACK': str(16 << 20)})

    # -- in-process harness -------------------------------------------------
    def cv(self, cmd, cases, secs, shards=4, extra=(), timeout=None, env=None, exe=None, only=None, seed0=None, salt=0, side=False):
        """Runs `cv <cmd>` in several processes with different seeds and merges
        what their monitors report. A side workload serves another property's
        check: that it hangs or dies is for its own check to report."""
        exe = exe or BIN + '/cv'
        if self.replay and self.replay.get('kind') == 'cv':
            if self.replay['cmd'] != cmd or (self.replay.get('exe') == 'asan') != (exe == ASAN_BIN):
                return
            shards, only, seed0 = 1, self.replay['case'], self.replay['seed']
            extra = self.replay['extra']
        jobs = []
        for i in range(shards):
            seed = seed0 if seed0 is not None else self.seed * 10007 + (i + salt) * 101 + 7
            out = '%s/%s.%d.json' % (self.work, cmd, i)
            if os.path.exists(out):
                os.unlink(out)
            w = '%s/%s.%d.d' % (self.work, cmd, i)
            os.makedirs(w, exist_ok=True)
            args = [exe, cmd, '--seed', str(seed), '--cases', str(cases), '--secs', str(secs),
                    '--out', out, '--work', w] + list(extra)
            if only is not None:
                args += ['--case', str(only)]
            if not self.quick:
                args += ['--thorough']
            log = open('%s/%s.%d.log' % (self.work, cmd, i), 'wb')
            e = dict(os.environ)
            e.update(env or {})
            p = subprocess.Popen(args, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                 env=e, start_new_session=True, cwd=w)
            self.procs.append(p)
            jobs.append((p, out, log.name, seed))
        limit = timeout or (secs * 2 + 400)
        end = time.time() + limit
        for p, out, log, seed in jobs:
            try:
                p.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:
                kill_group(p)
                if side:
                    self.notes.append('%s (seed %d) did not finish within %d s' % (cmd, seed, limit))
                    continue
                tail = open(log, 'rb').read().decode('utf8', 'replace')[-2000:]
                self.viol('hang', '%s (seed %d) did not finish within %d s of a %d s workload\n%s' % (cmd, seed, limit, secs, tail),
                          dict(kind='cv', cmd=cmd, seed=seed, extra=list(extra), exe='asan' if exe == ASAN_BIN else 'plain', case=None))
                continue
            tail = open(log, 'rb').read().decode('utf8', 'replace')[-6000:]
            rp = dict(kind='cv', cmd=cmd, seed=seed, extra=list(extra), exe='asan' if exe == ASAN_BIN else 'plain')
            if side and (p.returncode != 0 or not os.path.exists(out)):
                self.notes.append('%s (seed %d) ended with %s' % (cmd, seed, p.returncode))
                continue
            if p.returncode != 0 or not os.path.exists(out):
                if p.returncode is not None and p.returncode < 0 and -p.returncode in (
                        signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
                    self.viol('crash', 'process died with signal %d\n%s' % (-p.returncode, tail), dict(rp, case=None))
                    continue
                if 'AddressSanitizer' in tail or 'LeakSanitizer' in tail:
                    self.viol('sanitizer', tail, dict(rp, case=None))
                    continue
                raise CheckError('%s (seed %d) exited with %s\n%s' % (cmd, seed, p.returncode, tail))
            d = json.load(open(out))
            self.evals += d['evals']
            self.distinct.update(d['distinct'])
            for k, v in d['counters'].items():
                self.count(k, v)
            self.samples += d['samples'][:2]
            self.notes += d['notes']
            for v in d['violations']:
                self.viol(v['sig'], v['detail'], dict(rp, case=v['case']))

    # -- reporting ----------------------------------------------------------
    def count(self, k, n=1):
        if k.startswith('max_') or k.startswith('worst_'):
            self.counters[k] = max(self.counters.get(k, 0), n)
        else:
            self.counters[k] = self.counters.get(k, 0) + n

    def seen(self, x):
        self.distinct.add(x if isinstance(x, str) else repr(x))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else json.dumps(s, default=str)[:1500])

    def viol(self, sig, detail, replay=None):
        self.viols.append((sig, detail, replay or dict(kind='e2e', seed=self.seed)))

    def need(self, counter, minimum):
        """The run is inconclusive unless its monitors observed this much."""
        self.required[counter] = minimum

    def finish(self):
        known = [k for k in load_known() if k.get('property') == self.prop and 'sig' in k]
        os.makedirs(V + '/evidence', exist_ok=True)
        fresh, old = [], {}
        for sig, detail, rp in self.viols:
            m = [k for k in known if k['sig'] == sig]
            if m:
                old[sig] = m[0]
            else:
                fresh.append((sig, detail, rp))
        for k in old.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule or 'see DESIGN.md',
                   samples=self.samples[:6] or ['(none)'], observed=self.counters)
        if self.notes:
            cov['notes'] = sorted(set(self.notes))[:20]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        if not self.replay:
            json.dump(ev, open('%s/evidence/%s.json' % (V, self.prop), 'w'), indent=1)
        print('property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (
            self.prop, self.tier, self.seed, self.evals, len(self.distinct), time.time() - self.t0))
        print('observed: ' + ', '.join('%s=%d' % kv for kv in sorted(self.counters.items())))
        if fresh:
            d = V + '/work/replay'
            os.makedirs(d, exist_ok=True)
            done = {}
            for sig, detail, rp in fresh:
                done[sig] = done.get(sig, 0) + 1
                if done[sig] > 2:
                    continue
                path = '%s/%s-%s-%d.json' % (d, self.prop, ''.join(c if c.isalnum() else '_' for c in sig)[:60], done[sig])
                json.dump(dict(rp, property=self.prop, tier=self.tier, signature=sig, detail=detail), open(path, 'w'), indent=1)
                print('--- %s\n%s' % (sig, detail[:1500]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if not self.replay:
            for k, n in self.required.items():
                if self.counters.get(k, 0) < n:
                    raise CheckError('inconclusive: monitors observed %s=%d, need %d' % (k, self.counters.get(k, 0), n))
        return 0

    def cleanup(self):
        for p in self.procs:
            if p.poll() is None:
                kill_group(p)
        shutil.rmtree(self.work, ignore_errors=True)


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) & 0xffffffff
    return h


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        p.wait(10)
    except Exception:
        pass
