"""Shared machinery: building the agents, talking to them, running TLC, reporting."""
import json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
OUT = os.path.join(ROOT, 'out')
BUILD = os.path.join(ROOT, 'build')
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
REPO = '/repo'
HANG = 20.0      # an operation that takes this long is stuck

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')


class ToolError(Exception):
    pass


class Mismatch(Exception):
    """The implementation did something the specification does not allow."""
    def __init__(self, what, data=None):
        super().__init__(what)
        self.what, self.data = what, data


def cargo_env():
    env = dict(os.environ)
    env.update(HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0',
               RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
    env['PATH'] = env.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin'
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    return env


def _cargo(args, cwd, env):
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError('cargo %s failed:\n%s' % (' '.join(args), p.stdout[-4000:]))


def build_agent():
    env = cargo_env()
    _cargo(['build', '--offline', '--locked', '--quiet'], os.path.join(ROOT, 'harness'), env)
    return os.path.join(ROOT, 'harness', 'target', 'debug', 'agent')


def build_cdylib(package):
    """libipmb_ffi.so / libipmb_js.so of the current tree, built outside /repo"""
    env = cargo_env()
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'target')
    env['CARGO_PROFILE_DEV_DEBUG'] = 'line-tables-only'
    env['RUSTFLAGS'] = '--cfg ipmb_verif'
    _cargo(['build', '--offline', '--quiet', '-p', package, '--lib', '--manifest-path', REPO + '/Cargo.toml'], ROOT, env)
    return os.path.join(BUILD, 'target', 'debug', 'lib%s.so' % package.replace('-', '_'))


def build_capi():
    """the C interface: the library, the C++ classes around it, interposed functions -> {kind: command}, environment"""
    head = REPO + '/ipmb-ffi/include/ipmb_ffi.h'
    with open(head, 'rb') as f:
        committed = f.read()
    try:
        lib = build_cdylib('ipmb-ffi')
        inc = os.path.join(BUILD, 'include')
        shutil.rmtree(inc, ignore_errors=True)
        shutil.copytree(REPO + '/ipmb-ffi/include', inc)
    finally:
        with open(head, 'rb') as f:
            same = f.read() == committed
        if not same:
            # the build generates it
            with open(head, 'wb') as f:
                f.write(committed)
    src, shim, pre = os.path.join(ROOT, 'harness', 'capi'), os.path.join(BUILD, 'libshim.so'), os.path.join(BUILD, 'preload.so')
    d = os.path.dirname(lib)
    for cmd in (['g++', '-std=c++17', '-include', 'memory', '-include', 'string', '-O1', '-shared', '-fPIC', '-I' + inc,
                 src + '/shim.cc', REPO + '/ipmb-ffi/ipmb.cc', '-o', shim, '-L' + d, '-lipmb_ffi', '-Wl,-rpath,' + d],
                ['gcc', '-O2', '-shared', '-fPIC', src + '/preload.c', '-o', pre, '-ldl', '-lpthread']):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise ToolError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return {k: [sys.executable, src + '/cagent.py', k, lib, shim] for k in ('c', 'cpp')}, {'LD_PRELOAD': pre, 'PYTHONDONTWRITEBYTECODE': '1'}


class Agent:
    live = set()

    def __init__(self, cmd, env=None, name=''):
        e = dict(os.environ)
        e.update(env or {})
        e['RUST_BACKTRACE'] = '0'
        self.name = name
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(cmd if isinstance(cmd, list) else [cmd], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=e, bufsize=0, start_new_session=True)
        Agent.live.add(self)
        self.n = 0
        self.lock = threading.Lock()
        self.pending = {}
        self.killed = False
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()

    def _read(self):
        buf = b''
        while True:
            try:
                d = os.read(self.p.stdout.fileno(), 1 << 16)
            except (OSError, ValueError):
                d = b''
            if not d:
                break
            buf += d
            while True:
                i = buf.find(b'\n')
                if i < 0:
                    break
                line, buf = buf[:i], buf[i + 1:]
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                with self.lock:
                    q = self.pending.pop(r.get('rid'), None)
                if q:
                    q.put(r)
        with self.lock:
            todo, self.pending = self.pending, None
        for q in (todo or {}).values():
            q.put(None)

    def start(self, op, **kw):
        q = queue.SimpleQueue()
        kw['op'] = op
        with self.lock:
            self.n += 1
            kw['rid'] = self.n
            dead = self.pending is None
            if not dead:
                self.pending[self.n] = q
        if dead:
            q.put(None)
            return q
        try:
            data = (json.dumps(kw) + '\n').encode()
            self.p.stdin.write(data)
        except (BrokenPipeError, OSError, ValueError):
            with self.lock:
                if self.pending is not None:
                    self.pending.pop(kw['rid'], None)
            q.put(None)
        return q

    def wait(self, q, what='', timeout=HANG, may_die=False):
        try:
            r = q.get(timeout=timeout)
        except queue.Empty:
            raise Mismatch('%s does not return' % what)
        if r is None:
            if may_die or self.killed:
                return None
            rc = self.p.wait()
            raise Mismatch('the process executing "%s" ended by itself (%s): %s' % (what, rc, self.stderr()[-600:]))
        if 'panic' in r and ('harness' in r['panic'] or 'no entry found for key' in r['panic']):
            raise ToolError(r['panic'] + ' in ' + what)
        if r.get('panics'):
            raise Mismatch('panic while executing "%s": %s %s' % (what, r.get('panic', ''), self.stderr()[-600:]))
        return r

    def wait_quietly(self, q, timeout):
        """the answer, or queue.Empty"""
        if timeout <= 0:
            r = q.get_nowait()
        else:
            r = q.get(timeout=timeout)
        q.put(r)
        return self.wait(q)

    def do(self, op, _wait=HANG, **kw):
        what = '%s %s' % (op, ' '.join('%s=%s' % (k, json.dumps(v)) for k, v in kw.items() if k != 't'))
        return self.wait(self.start(op, **kw), what[:300], _wait)

    def stderr(self):
        try:
            self.err.seek(0)
            return self.err.read().decode(errors='replace')
        except (OSError, ValueError):
            return ''

    def kill(self, group=True):
        self.killed = True
        if group:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        Agent.live.discard(self)

    def close(self):
        self.kill()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        self.generated = self.distinct = 0
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.generated, self.distinct = int(m[1]), int(m[2])
        m = re.search(r'The number of states generated: (\d+)', out)
        if m:
            self.generated = self.distinct = int(m[1])
        self.lines = [json.loads(json.loads(l)[2:]) for l in out.splitlines() if l.startswith('"@@')]
        self.ok = rc == 0 and 'Error:' not in out

    def log(self):
        return '\n'.join(l for l in self.out.splitlines() if not l.startswith(('"@@', 'Parsing', 'Semantic', 'Linting')))[-3000:]


_tmp_lock = threading.Lock()


def tlc(module, cfg, mc='', workers='auto', simulate=None, depth=None, seed=None, timeout=600, files=None, java=(),
        keep_going=False, heap='3g'):
    """Runs TLC on a generated module that extends `module`.  Returns a TlcResult."""
    os.makedirs(BUILD, exist_ok=True)
    d = tempfile.mkdtemp(prefix='tlc-', dir=BUILD)
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), d)
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'w') as f:
                f.write(v)
        with open(os.path.join(d, 'MC.tla'), 'w') as f:
            f.write('---- MODULE MC ----\nEXTENDS %s\n%s\n====\n' % (module, mc))
        with open(os.path.join(d, 'MC.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Djava.io.tmpdir=' + d] + list(java) + \
              ['-cp', TLA, 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'states'), '-config', 'MC.cfg', '-lncheck', 'final']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(SEED if seed is None else seed)]
        if keep_going:
            cmd += ['-continue']
        cmd += ['MC.tla']
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC on %s exceeded %d s' % (module, timeout))
        return TlcResult(p.stdout, p.returncode)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tla(v):
    """Python value -> TLA+ expression (dict: record, list/tuple: sequence, set/frozenset: set)"""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise ToolError('no TLA+ for %r' % (v,))


class Check:
    """Collects what a run covered, and reports"""
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.findings = []
        self.lock = threading.Lock()
        self.done = threading.Lock()
        threading.Thread(target=self._watch, daemon=True).start()

    def _watch(self):
        """after a violation the rest of the check need not take its time"""
        first = None
        while True:
            time.sleep(1)
            now = time.time()
            if self.violations and first is None:
                first = now
            if first and now - first > 150 or TIER == 'quick' and now - self.t0 > 840:
                self.notes['stopped_for_time'] = round(now - self.t0)
                rc = self.finish()
                sys.stdout.flush()
                for a in list(Agent.live):
                    try:
                        os.killpg(a.p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                os._exit(rc)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def model(self, name, r, must_hold=True):
        """counts a TLC run"""
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.notes.setdefault('models', {})[name] = dict(distinct=r.distinct, generated=r.generated)
        if must_hold and not r.ok:
            raise ToolError('specification %s: TLC reports\n%s' % (name, r.log()))

    def trace(self, sample=None, n=1):
        with self.lock:
            self.traces += n
            if sample is not None and len(self.samples) < 3:
                self.samples.append(sample)

    def count(self, key, n=1):
        with self.lock:
            self.notes[key] = self.notes.get(key, 0) + n

    def finding(self, key, what, replay=None):
        """a defect that known_findings.txt lists is reported as such, any other is a violation"""
        for line in open(os.path.join(ROOT, 'known_findings.txt')):
            if line.startswith('finding: property=%s key=%s ' % (self.prop, key)):
                with self.lock:
                    if not any(k == key for k, _ in self.findings):
                        self.findings.append((key, what))
                return
        self.violation(what, replay)

    def violation(self, what, replay):
        with self.lock:
            self.violations.append((what, replay))

    def finish(self):
        self.done.acquire()
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ['no trace completed'])
        while True:
            try:
                cov.update(json.loads(json.dumps(self.notes)))
                break
            except RuntimeError:        # another thread adds to the notes
                continue
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, f in self.findings:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, f))
        if self.violations:
            os.makedirs(OUT, exist_ok=True)
            path = os.path.join(OUT, '%s-%d.json' % (self.prop, int(time.time() * 1000)))
            what, replay = self.violations[0]
            with open(path, 'w') as f:
                json.dump(dict(property=self.prop, what=what, replay=replay,
                               others=[w for w, _ in self.violations[1:10]]), f, indent=1)
            print('%s: %s' % (self.prop, what))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s: held; %d states, %d traces validated, %.0f s' % (self.prop, self.states, self.traces, time.time() - self.t0))
        return 0


def parallel(items, fn, lanes=10, stop=lambda: False):
    """fn(lane, item) over a pool of threads; the first ToolError is raised"""
    it = iter(items)
    lock = threading.Lock()
    errs = []

    def work(lane):
        while not errs and not stop():
            with lock:
                try:
                    x = next(it)
                except StopIteration:
                    return
            try:
                fn(lane, x)
            except BaseException as e:      # noqa
                errs.append((e, traceback.format_exc()))
                return
    ts = [threading.Thread(target=work, args=(i,)) for i in range(lanes)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        e, tb = errs[0]
        raise e if isinstance(e, (ToolError, Mismatch)) else ToolError(tb)


_ident = [0]


def ident(tag=''):
    with _tmp_lock:
        _ident[0] += 1
        return 'v%d-%s-%d-%d' % (os.getpid(), tag, _ident[0], int(time.time() * 1000) % 100000000)
