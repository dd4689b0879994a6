"""Common machinery: building and running the compiler, running TLC, verdicts and evidence."""
import atexit, concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = min(8, os.cpu_count() or 4)
T0 = time.time()

class Inconclusive(Exception):
    """The machinery could not decide (never a violation)."""

_scratch = None
_lock = threading.Lock()
def scratch():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix='vf_', dir=os.environ.get('VERIF_TMP', '/tmp'))
            if not os.environ.get('VERIF_KEEP'):
                atexit.register(shutil.rmtree, _scratch, True)
    return _scratch

_n = [0]
def newdir(tag='d'):
    with _lock:
        _n[0] += 1
        n = _n[0]
    d = os.path.join(scratch() if _scratch is None else _scratch, '%s%d' % (tag, n))
    os.makedirs(d)
    return d

def rng(tag):
    return random.Random('%d/%s' % (SEED, tag))

# ---------------------------------------------------------------- building the compiler
GOENV = dict(PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             GOROOT='/opt/veriftools/go1.27.3', GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod',
             GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod', GOWORK='off', GOENV='off',
             CGO_ENABLED='0', LC_ALL='C.UTF-8', HOME='/root')
_bin = None
def build():
    """Builds the compiler from the working tree of the repository into the scratch directory."""
    global _bin
    if _bin:
        return _bin
    if os.environ.get('VERIF_FBDL'):
        _bin = os.environ['VERIF_FBDL']
        return _bin
    out = os.path.join(scratch(), 'fbdl')
    env = dict(os.environ); env.update(GOENV)
    errs = ''
    for cache in ('/root/.cache/go-build', os.path.join(scratch(), 'gocache')):
        env['GOCACHE'] = cache
        # -buildvcs=false: the tree may be presented without usable VCS metadata
        r = subprocess.run(['go', 'build', '-buildvcs=false', '-o', out, './cmd/fbdl'], cwd=REPO, env=env,
                           capture_output=True, text=True)
        if r.returncode == 0:
            _bin = out
            return out
        errs += r.stderr
    raise Inconclusive('cannot build the compiler:\n' + errs[-2000:])

# ---------------------------------------------------------------- running the compiler
class Run:
    __slots__ = ('rc', 'out', 'err', 'timeout', 'dir', 'files', 'args', 'dump', '_json')
    def json(self):
        return json.loads(self.out)
    @property
    def ok(self):
        return self.rc == 0 and not self.timeout

def run(text=None, files=None, args=(), main='bus.fbd', env=None, timeout=20, keep=False, dump=False, cwd=None, links=(), bin=None):
    """Runs the compiler in a fresh directory. files: {relative path: text}; dump: also -c dump."""
    d = cwd or newdir('r')
    files = dict(files or {})
    if text is not None:
        files[main] = text
    for p, t in files.items():
        fp = os.path.join(d, p)
        dn = os.path.dirname(fp)
        if dn != d:
            os.makedirs(dn, exist_ok=True)
        with open(fp, 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))
    for src, dst in links:
        os.symlink(src, os.path.join(d, dst))
    e = {'PATH': '/usr/bin:/bin', 'HOME': d, 'GOTRACEBACK': 'single'}
    if env:
        e.update(env)
    cmd = [bin or build()] + list(args) + (['-c', 'vf_const.json'] if dump else [])
    if main is not None:
        cmd.append(main)
    r = Run()
    r.dir, r.files, r.args, r.dump, r.timeout = d, files, list(args), None, False
    r._json = None
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        r.rc, r.timeout = -1, True
        r.out = (x.stdout or b'').decode('utf-8', 'replace')
        r.err = (x.stderr or b'').decode('utf-8', 'replace')
    if dump:
        try:
            with open(os.path.join(d, 'vf_const.json')) as f:
                r.dump = json.load(f)
        except Exception:
            r.dump = None
    if not keep and cwd is None:
        shutil.rmtree(d, True)
    return r

def pmap(f, xs, n=NCPU):
    xs = list(xs)
    if not xs:
        return []
    build(); scratch()
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

PANIC = re.compile(r'^(panic: .*|fatal error: .*)$', re.M)
def panic_site(err):
    """(message, innermost function of the module) of a Go crash, or None."""
    m = PANIC.search(err)
    if not m:
        return None
    fns = re.findall(r'^github\.com/Functional-Bus-Description-Language/go-fbdl/([\w/.()*\-]+?)\(', err[m.start():], re.M)
    fns = [f for f in fns if f]
    msg = re.sub(r'0x[0-9a-f]+', '0x', m.group(1))[:160]
    return msg, (fns[0] if fns else '?')

# ---------------------------------------------------------------- TLC
class Tlc:
    pass

def tlc(module, cfg, data=None, workers=1, simulate=None, depth=100, timeout=600, heap='3g', extra=(), dfs=False):
    """Runs TLC on spec/<module>.tla. cfg: text of the configuration.
    data: {file name: text or list (written as ndjson)} put beside the modules.
    Lines printed by PrintT(ToJson(..)) prefixed 'VF ' are returned, parsed, in .lines."""
    d = newdir('tlc')
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    with open(os.path.join(d, 'MC.cfg'), 'w') as f:
        f.write(cfg)
    for n, v in (data or {}).items():
        with open(os.path.join(d, n), 'w') as f:
            if isinstance(v, str):
                f.write(v)
            else:
                for x in v:
                    f.write(json.dumps(x, separators=(',', ':')) + '\n')
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss64m', '-Xmx' + heap, '-cp', TLAJARS, 'tlc2.TLC',
           '-workers', str(workers), '-config', 'MC.cfg', '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE',
           '-lncheck', 'final']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(SEED)]
    cmd += list(extra) + [module + '.tla']
    t = Tlc()
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, timeout=timeout,
                           env={'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': d, 'LC_ALL': 'C.UTF-8'})
    except subprocess.TimeoutExpired:
        raise Inconclusive('TLC timed out after %ds on %s' % (timeout, module))
    t.out = p.stdout.decode('utf-8', 'replace')
    t.rc = p.returncode
    t.lines = []
    for ln in t.out.split('\n'):
        if ln.startswith('"VF '):
            s = json.loads(ln)       # TLC prints strings with \" escapes, like JSON
            t.lines.append(json.loads(s[3:]))
    m = None
    for m in re.finditer(r'(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found', t.out):
        pass
    t.generated = int(m.group(1).replace(',', '')) if m else 0
    t.distinct = int(m.group(2).replace(',', '')) if m else 0
    if simulate:
        m = re.findall(r'(\d[\d,]*) states checked', t.out)
        m2 = re.search(r'The number of states generated: (\d[\d,]*)', t.out)
        if m2:
            t.generated = int(m2.group(1).replace(',', ''))
        elif m:
            t.generated = int(m[-1].replace(',', ''))
        t.distinct = t.generated
    t.violated = re.findall(r'(?:Invariant|property) (\w+) (?:is|was) violated', t.out)
    t.ok = ('No error has been found' in t.out) or (simulate and t.rc == 0 and 'Error:' not in t.out)
    if not t.ok and not t.violated:
        open(os.path.join(d, 'out.txt'), 'w').write(t.out)
        i = max(t.out.find('Fatal errors'), t.out.find('*** Errors')) if 'Parsing or semantic' in t.out else t.out.find('Error:')
        raise Inconclusive('TLC failed on %s (rc %d):\n%s' % (module, t.rc, t.out[i if i >= 0 else -3000:][:3000]))
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(d, True)
    return t

def tlc_shards(module, cfg, name, events, shards=NCPU, tolerant=False, per=20, **kw):
    """Splits a trace into shards and validates them with parallel TLC runs; merges the results.
    tolerant: events the specification cannot evaluate (numbers TLC does not have) are left out, counted in .skipped."""
    events = list(events)
    shards = max(1, min(shards, (len(events) + per - 1) // per))
    parts = [events[i::shards] for i in range(shards)]
    skipped = [0]
    def one(p):
        try:
            return [tlc(module, cfg, {name: p}, **kw)]
        except Inconclusive as x:
            if not tolerant or 'timed out' in str(x) or 'Semantic errors' in str(x) or skipped[0] > tolerant: raise
            if len(p) == 1:
                skipped[0] += 1
                if os.environ.get('VERIF_KEEP'): print('skipped', str(x)[:300], p, file=sys.stderr)
                if skipped[0] > tolerant: raise
                return []
            return one(p[:len(p) // 2]) + one(p[len(p) // 2:])
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        rs = [x for r in ex.map(one, parts) for x in r]
    t = Tlc()
    t.skipped = skipped[0]
    t.lines = [l for r in rs for l in r.lines]
    t.generated = sum(r.generated for r in rs)
    t.distinct = sum(r.distinct for r in rs)
    t.violated = [v for r in rs for v in r.violated]
    t.ok = all(r.ok for r in rs)
    return t

# ---------------------------------------------------------------- verdicts
KNOWN = os.path.join(VERIF, 'known_findings.json')
def known_findings(prop):
    try:
        return [k for k in json.load(open(KNOWN))['findings'] if k['property'] == prop]
    except FileNotFoundError:
        return []

class Check:
    """Collects what a check explored and what it found, writes evidence and exits."""
    def __init__(self, prop, level='model_checking'):
        self.prop, self.level = prop, level
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.viol = []          # (key, description, replay dict)
        self.known_hit = {}
        self.assumptions = []
        self.known = known_findings(prop)
        self.quick = TIER != 'thorough'
    def add_tlc(self, t, name=None):
        self.cov['states'] += t.distinct
        self.cov['transitions'] += max(0, t.generated)
        if name:
            self.cov.setdefault('models', {})[name] = dict(distinct=t.distinct, generated=t.generated)
    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n
    def validated(self, n):
        self.cov['traces_validated_against_impl'] += n
    def sample(self, x):
        if len(self.cov['samples']) < 4:
            self.cov['samples'].append(x if isinstance(x, (dict, str)) else str(x))
    def violation(self, key, what, replay):
        """key: stable identification of the failing input/site, matched against known findings."""
        for k in self.known:
            if re.fullmatch(k['key'], key):
                self.known_hit[k['id']] = k
                return
        self.viol.append((key, what, replay))
    def finish(self):
        ev = dict(property=self.prop, tier='quick' if self.quick else 'thorough', seed=SEED, level=self.level,
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - T0, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if self.viol:
            rd = os.path.join(VERIF, 'evidence', 'replay', self.prop)
            shutil.rmtree(rd, True)
            os.makedirs(rd)
            for i, (key, what, rep) in enumerate(self.viol[:10]):
                fn = os.path.join(rd, '%d.json' % i)
                with open(fn, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, what=what, replay=rep), f, indent=1, default=str)
                if i == 0:
                    print('VIOLATION property=%s replay=%s' % (self.prop, fn))
                print('  %s: %s' % (key, str(what)[:600]))
            if len(self.viol) > 10:
                print('  ... %d violations in total' % len(self.viol))
            sys.stdout.flush()
            return 1
        print('OK property=%s %s (%.1fs)' % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)}), time.time() - T0))
        sys.stdout.flush()
        return 0
