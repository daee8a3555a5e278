"""Common machinery of the checks: building /repo's sources, running TLC, reporting."""
import os, sys, json, time, threading, itertools, glob, re, subprocess, shutil, tempfile, random, signal, atexit
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
TLA = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 1)

DEFS = ['-DPGBN_DEBUG', '-DPGZXB_DEBUG', '-D__STDC_FORMAT_MACROS']
FLAVOURS = {  # name -> (compiler, flags)
    'asan': ('g++', ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] + DEFS),
    'plain': ('g++', ['-O2', '-D__STDC_FORMAT_MACROS', '-DNDEBUG']),
    # instrumented for the controlled scheduler (harness/ctl.h), which stands in for the sanitizer's runtime
    'sched': ('g++', ['-O1', '-g'] + DEFS),
    'schedn': ('g++', ['-O2', '-D__STDC_FORMAT_MACROS', '-DNDEBUG']),
}
def schedFlags(f): return ['-O2', '-fno-threadsafe-statics'] if f.endswith('/ctl.cpp') else ['-fsanitize=thread', '-DCTL']

class Broken(Exception):
    """the check itself cannot give an answer"""

class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.quick = self.tier == 'quick'
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='pgbn-%s-' % prop, dir=os.environ.get('VERIF_SCRATCH') or None)
        atexit.register(shutil.rmtree, self.dir, True)
        self.states = 0; self.transitions = 0; self.traces = 0; self.samples = []
        self.cov = {}; self.violations = []; self.assumptions = []
        self.ex = ThreadPoolExecutor(NPROC)
        self.known = load_known(prop)
        self._javac = None
        self.groups = set(); self.lock = threading.RLock(); self.ending = False
    def p(self, *a):
        d = os.path.join(self.dir, *a); os.makedirs(os.path.dirname(d), exist_ok=True); return d
    def rng(self, *key): return random.Random('%d/%s/%s' % (self.seed, self.prop, '/'.join(map(str, key))))
    def map(self, f, xs): return list(self.ex.map(f, xs))
    def sub(self, cmd, timeout=None, **kw):
        """subprocess.run in a process group of its own, ended with the check"""
        with self.lock:
            if self.ending: raise Broken('the check is ending')
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True, **kw)
            self.groups.add(p.pid)
        try: out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            self.kill(p.pid); p.communicate(); raise
        finally: self.groups.discard(p.pid)
        return subprocess.CompletedProcess(cmd, p.returncode, out, err)
    def kill(self, g):
        try: os.killpg(g, signal.SIGKILL)
        except OSError: pass
    def stop(self):
        with self.lock:
            self.ending = True
            for g in list(self.groups): self.kill(g)
    def bail(self):
        """a violation has been reported and the rest of the exploration takes long: end here"""
        with self.lock:
            if self.ending: return
            self.cov['ended_early'] = True
            self.stop(); rc = self.finish(); sys.stdout.flush(); shutil.rmtree(self.dir, True); os._exit(rc)
    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, s, limit=6):
        if len(self.samples) < limit: self.samples.append(s if isinstance(s, str) and len(s) < 1500 else str(s)[:1500])

    # ---------------------------------------------------------------- building
    def sources(self, extra=True):
        s = [f for f in glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True)]
        if extra: s += [f for f in glob.glob(os.path.join(REPO, 'c', 'src', '*.cpp'))]
        return sorted(s)
    def compile(self, name, flavour, harness, sources=None, flags=(), libs=('-lpthread',)):
        """objects of /repo's sources and of the harness files, linked; all compiled in parallel. Returns the path."""
        cc, fl = FLAVOURS[flavour] if isinstance(flavour, str) else flavour
        sources = self.sources() if sources is None else sources
        out = self.p('bin', name)
        jobs = []
        for k, f in enumerate(list(harness) + list(sources)):
            o = self.p('obj', name, '%d.o' % k)
            own = f in harness
            fl2 = list(flags(f) if callable(flags) else flags)
            jobs.append((o, [cc, '-std=c++17', '-c', f, '-o', o, '-w', '-I', REPO + '/src', '-I', REPO + '/c/src', '-I', HARN] + list(fl) + fl2))
        def one(j):
            r = self.sub(j[1])
            if r.returncode: raise Broken('compile failed: %s\n%s' % (' '.join(j[1]), r.stderr[-3000:]))
            return j[0]
        objs = self.map(one, jobs)
        r = self.sub([cc] + objs + [f for f in fl if f.startswith('-f') or f.startswith('-O')] + list(libs) + ['-o', out])
        if r.returncode: raise Broken('link failed: ' + r.stderr[-3000:])
        return out
    def javac(self):
        if self._javac is None:
            d = self.p('cls', 'x'); d = os.path.dirname(d)
            r = subprocess.run(['javac', '-cp', TLA, '-d', d] + glob.glob(os.path.join(VERIF, 'java', '*.java')), capture_output=True, text=True)
            if r.returncode: raise Broken('javac failed: ' + r.stderr[-2000:])
            self._javac = d
        return self._javac

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, xmx='2500m', args=(), timeout=None, jopts=()):
        """runs TLC on spec/<module>.tla with the given configuration text. Returns a dict."""
        k = tempfile.mkdtemp(dir=self.dir, prefix='tlc-')
        cf = os.path.join(k, 'M.cfg'); open(cf, 'w').write(cfg)
        path = module if module.startswith('/') else os.path.join(SPEC, module + '.tla')
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss32m', '-XX:TieredStopAtLevel=4'] + list(jopts) + \
              ['-cp', self.javac() + ':' + TLA + ':' + COMM, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(k, 'st'), '-noGenerateSpecTE', '-config', cf] + list(args) + [path]
        e = dict(os.environ); e.update(env or {})
        t = time.time()
        try: r = self.sub(cmd, env=e, timeout=timeout or 800, cwd=k)
        except subprocess.TimeoutExpired: raise Broken('TLC timed out: ' + module)
        o = r.stdout
        m = re.findall(r'(\d+) states generated.*?, (\d+) distinct states found', o)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r'The number of states generated: (\d+)', o)
            if m: gen = dist = int(m[-1])
        m2 = re.findall(r'The depth of the complete state graph search is (\d+)', o)
        res = dict(out=o, err=r.stderr, rc=r.returncode, gen=gen, dist=dist, depth=int(m2[-1]) if m2 else 0, wall=time.time() - t,
                   ok='Model checking completed. No error has been found' in o or (r.returncode == 0))
        shutil.rmtree(k, True)
        return res
    def model(self, module, cfg, what=None, **kw):
        """an exhaustive check of a specification; it concerns only the specification, so a failure is an error of the check"""
        r = self.tlc(module, cfg, **kw)
        if not r['ok']: raise Broken('model %s does not check:\n%s' % (module, r['out'][-4000:]))
        self.states += r['dist']; self.transitions += r['gen']
        self.cov.setdefault('models', []).append(dict(module=module, what=what or '', distinct=r['dist'], generated=r['gen'], depth=r['depth'], wall_s=round(r['wall'], 1)))
        return r
    def validate(self, module, cfg, trace, n=None, **kw):
        """Trace validation. Returns None when accepted, else the 0-based index of the rejected event."""
        if n is None:
            with open(trace, 'rb') as f: n = sum(1 for _ in f)
        if n == 0: return None
        r = self.tlc(module, cfg, env=dict(TRACE=trace), **kw)
        self.states += r['dist']; self.transitions += r['gen']
        m = re.search(r'<<\s*"REJECTED",\s*(\d+)', r['out'])
        if m: return int(m.group(1)) - 1
        if r['ok']: self.traces += 1; self.count('events', n); return None
        m = re.search(r'Invariant (\w+) is violated', r['out'])
        if m:
            k = re.findall(r'\bl = (\d+)', r['out'])
            return int(k[-1]) - 2 if k else n - 1
        # an evaluation error: the event is outside the specification's domain
        k = re.findall(r'\bl = (\d+)', r['out'])
        if 'The error occurred when TLC was evaluating' in r['out'] or 'Error: ' in r['out']:
            self.count('evaluation_errors')
            if k: return int(k[-1]) - 1
        raise Broken('TLC gave no verdict on %s:\n%s\n%s' % (trace, r['out'][-3000:], r['err'][-1000:]))

    # ---------------------------------------------------------------- reporting
    def replay_file(self, text, name='replay'):
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%s-%d-%d' % (self.prop, name, self.seed, len(self.violations)))
        with open(f, 'w', errors='surrogateescape') as h: h.write(text)
        return f
    def violation(self, what, text, name='replay'):
        for k in self.known:
            if k and k in what:
                self.cov.setdefault('known', [])
                if k not in self.cov['known']: self.cov['known'].append(k); print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
                return
        f = self.replay_file(what + '\n' + text, name)
        self.violations.append(what)
        if len(self.violations) == 1:
            w = threading.Timer(20 if self.quick else 300, self.bail); w.daemon = True; w.start()
        print('VIOLATION property=%s replay=%s' % (self.prop, f)); print('  ' + what[:600].replace('\n', '\n  '))
        sys.stdout.flush()
    def finish(self, level='model_checking'):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces, samples=self.samples or ['none'])
        cov.update(self.cov)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1); f.write('\n')
        print('%s %s: %d states, %d transitions, %d traces accepted, %d violations, %.1f s' % (self.prop, self.tier, self.states, self.transitions, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

class Replay:
    """Scripts run on the real code by the recorder harness/<name>.cpp, recordings validated by TLC. A script consists of
    segments that begin with a line "reset ..."; the recorder takes SCRIPT and OUT and writes one event per line with the
    line's number in `ln`."""
    def __init__(self, ctx, name, module, cfg, sources=None, flavours=('asan', 'plain'), limit=22000, flags=()):
        self.ctx, self.name, self.module, self.cfg, self.limit, self.flags = ctx, name, module, cfg, limit, flags
        self.sources, self.flavours = sources, flavours
        self.jobs = []; self.nonce = itertools.count()
    def build(self):
        h = [os.path.join(HARN, self.name + '.cpp')]; ctl = [os.path.join(HARN, 'ctl.cpp')]
        self.bin = {f: self.ctx.compile(self.name + '-' + f, f, h + (ctl if f.startswith('sched') else []), sources=self.sources,
                                        flags=schedFlags if f.startswith('sched') else self.flags, libs=('-lpthread', '-ldl')) for f in self.flavours}
    def drive(self, lines, flavour, tag):
        k = next(self.nonce); c = self.ctx
        s = c.p(self.name, '%s%d.txt' % (tag, k)); t = s[:-4] + '.ndjson'
        with open(s, 'w') as f: f.write('\n'.join(lines) + '\n')
        r = c.sub([self.bin[flavour], s, t], timeout=700, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'))
        if r.returncode: raise Broken('driver failed (%d): %s' % (r.returncode, r.stderr[-1500:]))
        return t, r.stderr
    def verdict(self, trace): return self.ctx.validate(self.module, self.cfg, trace)
    def check(self, lines, flavour, tag, shrink=True):
        """runs the script and validates the recording; a rejection is confirmed on the segment alone"""
        c = self.ctx
        t, err = self.drive(lines, flavour, tag)
        i = self.verdict(t)
        if i is None:
            os.unlink(t); return True
        ev = json.loads(open(t).read().split('\n')[i]); ln = ev.get('ln', len(lines))
        seg = ln - 1
        while seg > 0 and not lines[seg].startswith('reset'): seg -= 1
        sub = lines[seg:ln]
        t2, err2 = self.drive(sub, flavour, tag + 'c'); j = self.verdict(t2)
        if j is None: sub = lines[:ln]; what = ' (depends on the history before)'; err2 = err
        else:
            what = ''
            if shrink and ev.get('op') != 'crash': sub = self.shrink(sub, flavour, ev)
            t2, err2 = self.drive(sub, flavour, tag + 'd'); j2 = self.verdict(t2)
            if j2 is not None: ev = json.loads(open(t2).read().split('\n')[j2])
        head = '# script for harness/%s.cpp (built %s); TLC rejects the recording of its last operation (spec/%s.tla)\n' % (self.name, flavour, self.module)
        c.violation('%s: rejected event %s%s' % (flavour, json.dumps(ev)[:1200], what), head + '\n'.join(sub) + '\n' + '\n'.join('# ' + l for l in err2[:3000].split('\n')))
        return False
    def shrink(self, sub, flavour, ev):
        """drops chunks of the segment as long as it is still rejected (bounded effort)"""
        best = sub; n = 2; tries = 0
        def key(e): return json.dumps({k: v for k, v in e.items() if k != 'ln'})
        def bad(cand):      # the same event has to be the rejected one
            try:
                t = self.drive(cand, flavour, 's')[0]; i = self.verdict(t)
                return i is not None and key(json.loads(open(t).read().split('\n')[i])) == key(ev)
            except Exception: return False
        while len(best) > 3 and tries < 10 and n <= len(best):
            size = max(1, (len(best) - 2) // n); done = False
            for a in range(1, len(best) - 1, size):
                cand = best[:a] + best[min(a + size, len(best) - 1):]
                if len(cand) == len(best) or tries >= 10: continue
                tries += 1
                if bad(cand): best = cand; done = True; break
            if not done: n *= 2
        return best
    def shard(self, lines, flavour, tag, limit=None):
        """splits at resets into scripts of at most `limit` lines"""
        limit = limit or self.limit; cur = []; seg = []
        for l in lines + ['reset']:
            if l.startswith('reset'):
                if cur and len(cur) + len(seg) > limit: self.jobs.append((cur, flavour, tag)); cur = []
                cur += seg; seg = []
            seg.append(l)
        if cur: self.jobs.append((cur, flavour, tag))
    def go(self):
        c = self.ctx
        def one(j):
            if len(c.violations) < 3: self.check(*j)
        for l, f, t in self.jobs: c.count('events_' + t, len(l))
        c.map(one, self.jobs); self.jobs = []

def load_known(prop):
    """lines 'property=<id> <text>' of KNOWN_FINDINGS (not the 'fixed:' ones); a violation whose description contains
    the text is a known finding"""
    r = []
    f = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'property=(\S+) (.*\S)', l)
            if m and m.group(1) == prop: r.append(m.group(2))
    return r

def cfgset(xs): return '{' + ', '.join('"%s"' % x for x in xs) + '}'
