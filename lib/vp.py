"""Common machinery of the checks (see DESIGN.md).

A check = TLA+ specification (specs/<name>/*.tla)
  (1) bounded exhaustive model checking of the specification (TLC)
  (2) behaviours generated FROM the specification (TLC -simulate) replayed in the real code
  (3) seeded random histories run in the real code
  the driver linked with the code built from /repo records every public call with its result (ndjson) and TLC
  decides whether the recorded history is a behaviour of the specification (trace spec, POSTCONDITION diameter).
"""
import os, sys, json, subprocess, tempfile, shutil, time, random, re, concurrent.futures as cf, hashlib, signal, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
ASANOPT = 'detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0'
if TIER not in ('quick', 'thorough'): TIER = 'quick'
NCPU = min(8, os.cpu_count() or 4)
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = None
for d, _, fs in os.walk('/opt/veriftools/tla'):
    for f in fs:
        if f.lower().startswith('communitymodules') and f.endswith('.jar'):
            COMM = os.path.join(d, f)

def log(*a):
    print(*a, flush=True)

def errtext(out):
    k = out.find("*** Errors")
    if k < 0: k = out.find("Error:")
    return out[-1500:] if k < 0 else out[k:k + 2500]

class CheckError(Exception):
    pass

class Check:
    def __init__(self, pid, specdir, trace_module, level='model_checking', assumptions=()):
        self.pid = pid
        self.spec = os.path.join(VERIF, 'specs', specdir)
        self.trace_module = trace_module
        self.level = level
        self.t0 = time.time()
        self.rng = random.Random(SEED * 1000003 + sum(map(ord, pid)))
        self.tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        atexit.register(self.cleanup)
        self.states = 0; self.transitions = 0
        self.cov = {}
        self.samples = []
        self.assumptions = list(assumptions)
        self.violations = []
        self.known = []
        self.ntraces = 0; self.nevents = 0
        self.opcount = {}
        self.specs_scripts = 0
        self.pool = cf.ThreadPoolExecutor(NCPU)
        self.tier = TIER
        self.mc_jobs = []

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def sanitizer(self):
        """compile with the address sanitizer (an access outside an object ends the driver: the history is then rejected), where it works"""
        if os.environ.get('VP_NOASAN'): return []
        s = os.path.join(self.tmp, 'san')
        with open(s + '.c', 'w') as f: f.write('#include <stdlib.h>\n#include <string.h>\nint main(int c, char **v) { char *p = malloc(100 + c); memset(p, c, 100 + c); int r = p[3] != c; free(p); return r; }\n')
        r = subprocess.run(['gcc', '-fsanitize=address', '-o', s, s + '.c'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: return []
        for _ in range(25):
            if subprocess.run([s], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS=ASANOPT)).returncode: return []
        return ['-fsanitize=address']

    def build_lib(self, extra_cmake=(), name='lib'):
        """librmnv.a: every source of /repo/src (current working tree) with the logging-only App stand-in"""
        b = os.path.join(self.tmp, name)
        os.makedirs(b, exist_ok=True)
        if not hasattr(self, 'san'): self.san = self.sanitizer()
        env = dict(os.environ, CC='gcc', FC='gfortran', CFLAGS=' '.join([os.environ.get('CFLAGS', '')] + self.san))
        for cmd in (['cmake', '-S', VERIF + '/harness/appstub', '-B', b, '-G', 'Ninja', '-DR=' + REPO,
                     '-DCMAKE_BUILD_TYPE=RelWithDebInfo'] + list(extra_cmake), ['ninja', '-C', b]):
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
            if r.returncode:
                log(r.stdout[-4000:])
                raise CheckError('build failed: ' + ' '.join(cmd))
        self.lib = os.path.join(b, 'librmnv.a')
        self.moddir = b
        return self.lib

    def compile(self, out, srcs, flags=(), libs=(), lang='c', defs=()):
        exe = os.path.join(self.tmp, out)
        inc = ['-I' + REPO + '/include', '-I' + REPO + '/src/PUBLIC_INCLUDES', '-I' + VERIF + '/harness/appstub',
               '-I' + VERIF + '/drivers', '-I' + self.moddir, '-I' + os.path.join(self.moddir, 'include')]
        objs = []
        for s in srcs:
            o = os.path.join(self.tmp, out + '_' + os.path.basename(s) + '.o')
            s = s if s.startswith('/') else os.path.join(VERIF, 'drivers', s)
            if s.endswith('.c'):
                cmd = ['gcc', '-std=gnu99', '-g', '-O1', '-w', '-DLittle_Endian'] + self.san + inc + list(flags) + ['-c', s, '-o', o]
            else:
                cmd = ['gfortran', '-g', '-O1', '-w', '-cpp', '-fcray-pointer', '-ffree-line-length-none', '-J', self.tmp] + inc + list(flags) + ['-c', s, '-o', o]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log(r.stdout[-4000:]); raise CheckError('driver compile failed: ' + ' '.join(cmd))
            objs.append(o)
        link = 'gfortran' if lang == 'f' else 'gfortran'
        cmd = [link, '-g', '-o', exe] + self.san + list(flags) + objs + ['-Wl,--start-group', self.lib, '-Wl,--end-group'] + list(libs) + ['-ldl', '-lpthread', '-lm', '-fopenmp', '-z', 'noexecstack']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log(r.stdout[-6000:]); raise CheckError('driver link failed')
        return exe

    # ------------------------------------------------------------------ TLC
    def _tlc(self, workdir, module, cfg, args=(), timeout=800, xmx='3g', workers='1', env=None):
        e = dict(os.environ)
        if env: e.update(env)
        md = tempfile.mkdtemp(prefix='md_', dir=self.tmp)
        cp = JAR + ((':' + COMM) if COMM else '')
        cmd = ['java', '-Djava.io.tmpdir=' + self.tmp, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xmx' + xmx, '-Xss64m', '-cp', cp, 'tlc2.TLC',
               '-metadir', md, '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, errors='replace')
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as ex:
            out, rc = (ex.stdout or b'').decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or ''), -9
        shutil.rmtree(md, ignore_errors=True)
        return rc, out

    def _stage(self, extra=None):
        w = tempfile.mkdtemp(prefix='tlc_', dir=self.tmp)
        lib = os.path.join(VERIF, 'specs', 'lib')
        if os.path.isdir(lib):
            for f in os.listdir(lib): shutil.copy(os.path.join(lib, f), w)
        for f in os.listdir(self.spec): 
            if os.path.isfile(os.path.join(self.spec, f)): shutil.copy(os.path.join(self.spec, f), w)
        for k, v in (extra or {}).items():
            with open(os.path.join(w, k), 'w') as fh: fh.write(v)
        return w

    def model_check(self, module, cfg, workers=2, timeout=600, xmx='4g', must=True, min_states=2):
        """exhaustive check of the specification itself (runs in background; join with join_mc)"""
        def job():
            w = self._stage()
            rc, out = self._tlc(w, module, cfg, workers=workers, timeout=timeout, xmx=xmx, args=['-coverage', '0'] if False else [])
            m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
            if rc != 0 or not m or 'No error has been found' not in out:
                raise CheckError('model checking of %s/%s failed (rc=%s):\n%s' % (module, cfg, rc, errtext(out)))
            g, d = map(int, m[-1])
            if d < min_states: raise CheckError('%s/%s: only %d states' % (module, cfg, d))
            return module, cfg, g, d
        self.mc_jobs.append(self.pool.submit(job))

    def join_mc(self):
        for j in self.mc_jobs:
            module, cfg, g, d = j.result()
            self.states += d; self.transitions += g
            self.cov.setdefault('model_runs', []).append('%s/%s: %d distinct states, %d transitions, exhaustive' % (module, cfg, d, g))
        self.mc_jobs = []

    def generate(self, module, cfg, num=0, depth=0, key='BEHAVIOUR', seed=None, timeout=300, exhaustive=False):
        """behaviours of the specification: list of list-of-ops, from TLC -simulate (printed as JSON by the Gen module)"""
        w = self._stage()
        rc, out = self._tlc(w, module, cfg, args=[] if exhaustive else ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(SEED * 7919 + 13 if seed is None else seed)], timeout=timeout)
        res = []
        for line in out.splitlines():
            if line.startswith('"' + key + ' '):
                s = json.loads(line)          # TLA+ string literal is JSON-compatible
                res.append(json.loads(s[len(key) + 1:]))
        if not res:
            raise CheckError('generation from %s failed rc=%s\n%s' % (module, rc, errtext(out)))
        seen, uniq = set(), []
        for b in res:
            k = json.dumps(b, sort_keys=True)
            if k not in seen: seen.add(k); uniq.append(b)
        m = re.findall(r'(\d+) states checked', out)
        self.cov['behaviours_from_spec'] = self.cov.get('behaviours_from_spec', 0) + len(uniq)
        return uniq

    def validate_events(self, events, module=None, cfg=None, timeout=600, xmx='3g', consts=None):
        """one TLC run over a list of events. returns (accepted_count, total, tlc_output_tail)"""
        module = module or self.trace_module
        cfg = cfg or module + '.cfg'
        w = self._stage()
        with open(os.path.join(w, 'trace.ndjson'), 'w') as f:
            for e in events: f.write(json.dumps(e) + '\n')
        rc, out = self._tlc(w, module, cfg, timeout=timeout, xmx=xmx)
        shutil.rmtree(w, ignore_errors=True)
        m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', out)
        g = re.findall(r'(\d+) states generated', out)
        if m and rc == 0 and 'No error has been found' in out:
            a, n = int(m.group(1)), int(m.group(2))
            if n != len(events): raise CheckError('trace length mismatch %d %d' % (n, len(events)))
            return a, n, out
        # an invariant violation or an evaluation error at some state: the events before it were explained
        st = re.findall(r'^(?:State )?(\d+): ', out, re.M)
        if rc == -9: raise CheckError('TLC timeout on trace (%d events)' % len(events))
        if 'Parsing or semantic analysis failed' in out or 'Parse Error' in out or 'java.lang.OutOfMemory' in out or not re.search(r'Finished computing initial states|Error: Evaluating|behavior up to this point', out):
            raise CheckError('TLC failed on trace spec %s rc=%s:\n%s' % (module, rc, errtext(out)))
        if 'is violated' in out: a = max([int(x) for x in st] or [1]) - 2
        else: a = max([int(x) for x in st] or [1]) - 1
        return max(0, min(a, len(events) - 1)), len(events), out

    # ------------------------------------------------------------------ running the code
    def run_driver(self, exe, script, args=(), env=None, timeout=60, files=None, setup=None):
        """script: list of lines. returns list of events (driver's ndjson on stdout fd or VP_TRACE file)"""
        d = tempfile.mkdtemp(prefix='run_', dir=self.tmp)
        tf = os.path.join(d, '.trace')
        sf = os.path.join(d, '.script')
        with open(sf, 'w') as f: f.write('\n'.join(script) + '\n')
        e = dict(os.environ, VP_TRACE=tf, VP_SCRIPT=sf, HOME=d, ASAN_OPTIONS=ASANOPT)
        e.pop('APP_VERBOSE', None)
        if env: e.update(env)
        wd = os.path.join(d, 'w'); os.mkdir(wd)
        if setup: setup(wd)
        tail = None
        try:
            with open(os.path.join(d, '.out'), 'wb') as fo:
                p = subprocess.Popen([exe] + list(args), cwd=wd, stdin=open(sf), stdout=fo, stderr=subprocess.STDOUT, env=e, start_new_session=True)
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
                if rc == 'timeout': p.wait()
        finally:
            pass
        ev = []
        if os.path.exists(tf):
            with open(tf, errors='replace') as f:
                for line in f:
                    if len(ev) > 400000: ev.append({'op': 'ENDLESS'}); break
                    line = line.strip()
                    if not line: continue
                    try: ev.append(json.loads(line))
                    except ValueError:
                        ev.append({'op': 'GARBLED', 'line': line[:200]}); break
        if rc == 'timeout': ev.append({'op': 'HANG'})
        elif rc != 0: ev.append({'op': 'CRASH', 'rc': rc})
        try:
            with open(os.path.join(d, '.out'), 'rb') as fo: self.last_out = fo.read()[-2000:].decode(errors='replace')
        except OSError: self.last_out = ''
        shutil.rmtree(d, ignore_errors=True)
        return ev

    def conform(self, exe, scripts, args=(), env=None, timeout=60, shards=None, module=None, cfg=None, setup=None, post=None, label='random', maxev=None, tlc_timeout=600, xmx='3g'):
        """run every script in the code, validate all the recorded histories with TLC; records violations"""
        if not scripts: return
        post = post or (lambda s, ev: ev)
        def one(s): return post(s, self.run_driver(exe, s, args=args, env=env, timeout=timeout, setup=setup))
        dead = [0]
        def guarded(s):
            if dead[0] >= 8: return None          # enough hung or crashed runs to report
            ev = one(s)
            if ev and ev[-1].get('op') == 'HANG': dead[0] += 1
            return ev
        traces = list(self.pool.map(guarded, scripts))
        scripts = [s for s, t in zip(scripts, traces) if t is not None]
        traces = [t for t in traces if t is not None]
        shards = shards or NCPU
        n = len(traces)
        # balance by number of events
        order = sorted(range(n), key=lambda i: -len(traces[i]))
        bins = [[] for _ in range(min(shards, n))]; load = [0] * len(bins)
        for i in order:
            k = load.index(min(load)); bins[k].append(i); load[k] += len(traces[i]) + 1
        def shard(idx):
            bad = []
            idx = sorted(idx)
            while idx:
                events = []; owner = []
                for i in idx:
                    events.append({'op': 'reset'}); owner.append((i, -1))
                    for j, e in enumerate(traces[i]): events.append(e); owner.append((i, j))
                a, tot, out = self.validate_events(events, module, cfg, timeout=tlc_timeout, xmx=xmx)
                if a >= tot: break
                i, j = owner[a]
                bad.append((i, j, out))
                if len(bad) >= 2: break
                idx = [k for k in idx if k > i]
            return bad
        rejected = []
        for r in self.pool.map(shard, [b for b in bins if b]): rejected += r
        self.ntraces += n
        self.nevents += sum(len(t) for t in traces)
        for t in traces:
            for e in t:
                o = str(e.get('op'))
                self.opcount[o] = self.opcount.get(o, 0) + 1
        if traces and len(self.samples) < 6:
            k = max(range(n), key=lambda i: len(traces[i]) if len(traces[i]) < 60 else 0)
            self.samples.append({'kind': label, 'events': traces[k][:25]})
        conf = 0
        for i, j, out in rejected:
            if conf >= 3: break
            # confirm by a fresh run of the code and of TLC
            t2 = one(scripts[i])
            a, tot, out2 = self.validate_events([{'op': 'reset'}] + t2, module, cfg, timeout=tlc_timeout, xmx=xmx)
            if a >= tot:
                log('NOTE: a rejection did not repeat, ignored (script %d of %s)' % (i, label))
                self.cov['unrepeated_rejections'] = self.cov.get('unrepeated_rejections', 0) + 1
                continue
            conf += 1
            self.violations.append(dict(label=label, script=scripts[i], trace=t2, event_index=a - 1, event=t2[a - 1] if a >= 1 else None, args=list(args), tlc=out2[-2500:]))
        return traces

    def violation(self, **kw):
        self.violations.append(kw)

    # ------------------------------------------------------------------ known findings
    def known_findings(self):
        p = os.path.join(VERIF, 'known_findings.jsonl')
        res = []
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith('#') and not l.startswith('fixed:'):
                    k = json.loads(l)
                    if k['property'] == self.pid: res.append(k)
        return res

    def check_known(self, exe, args=(), timeout=60, env=None, module=None, cfg=None, setup=None, post=None):
        """each listed finding: its own directed script; expected to be rejected at the listed event"""
        post = post or (lambda s, ev: ev)
        for k in self.known_findings():
            ev = post(k['script'], self.run_driver(exe, k['script'], args=args, env=env, timeout=timeout, setup=setup))
            a, tot, out = self.validate_events([{'op': 'reset'}] + ev, module, cfg)
            if a >= tot:
                log('NOTE: known finding no longer reproduces: ' + k['what'])
                continue
            bad = ev[a - 1]
            if all(bad.get(f) == v for f, v in k['event'].items()):
                log('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                self.known.append(k['what'])
            else:
                self.violations.append(dict(label='known-script', script=k['script'], trace=ev, event_index=a - 1, event=bad))

    # ------------------------------------------------------------------ end
    def finish(self):
        self.join_mc()
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.ntraces,
                   trace_events_validated=self.nevents, operations=self.opcount, samples=self.samples or ['none'])
        if self.known: cov['known_findings_reproduced'] = self.known
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.pid, 'w') as f: json.dump(ev, f, indent=1)
        rc = 0
        if self.violations:
            rd = VERIF + '/evidence/replay'
            os.makedirs(rd, exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                path = '%s/%s_%d.json' % (rd, self.pid, n)
                with open(path, 'w') as f: json.dump(v, f, indent=1)
                log('  rejected event: %s' % json.dumps(v.get('event'))[:600])
                log('VIOLATION property=%s replay=%s' % (self.pid, path))
            rc = 1
        log('%s %s: states=%d transitions=%d traces=%d events=%d wall=%.1fs -> exit %d' % (self.pid, self.tier, self.states, self.transitions, self.ntraces, self.nevents, time.time() - self.t0, rc))
        self.pool.shutdown(wait=False)
        self.cleanup()
        return rc

def main(fn):
    try:
        rc = fn()
    except CheckError as e:
        log('CHECK-ERROR: %s' % e); rc = 3
    sys.stdout.flush()
    os._exit(rc)
