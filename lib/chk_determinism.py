"""C14: the same program gives the same output in every run (spec/Packages.tla)."""
import hashlib, json, os, re, subprocess
import vf, chk_fidelity, chk_ident

MC = 'SPECIFICATION Spec\nCONSTANTS NPKG = %d NFILE = %d EMIT = %s\nINVARIANTS C14_Verdict C14_Symbols C14_Blame C14_Ends Out\nCHECK_DEADLOCK FALSE\n'
TR = 'SPECIFICATION Spec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n'

_race = []
def race():
    """the compiler built with the race detector, when the toolchain can"""
    if not _race:
        out = os.path.join(vf.scratch(), 'fbdl_race')
        env = dict(os.environ); env.update(vf.GOENV); env.update(CGO_ENABLED='1', GOCACHE='/root/.cache/go-build')
        r = subprocess.run(['go', 'build', '-race', '-buildvcs=false', '-o', out, './cmd/fbdl'], cwd=vf.REPO, env=env, capture_output=True, text=True)
        if r.returncode:
            env['GOCACHE'] = os.path.join(vf.scratch(), 'gocache')
            r = subprocess.run(['go', 'build', '-race', '-buildvcs=false', '-o', out, './cmd/fbdl'], cwd=vf.REPO, env=env, capture_output=True, text=True)
        _race.append(out if r.returncode == 0 else None)
    return _race[0]

# ------------------------------------------------------------------ programs
def filler(r, n):
    """declarations to keep a parser busy"""
    out = []
    for k in range(n):
        x = r.randrange(4)
        if x == 0: out += ['# comment %d' % k, 'const Z%d = [%s]' % (k, ', '.join(str(r.randrange(1000)) for _ in range(r.randrange(1, 12))))]
        elif x == 1: out += ['type ZT%d block' % k] + ['  c%d config; width = %d' % (j, r.randrange(1, 9)) for j in range(r.randrange(1, 4))]
        elif x == 2: out += ['const Z%d = (%s)' % (k, ' + '.join(str(r.randrange(9)) for _ in range(r.randrange(2, 9))))]
        else: out += ['const Z%d = "%s"' % (k, 'text' * r.randrange(5))]
    return out

class Prog:
    """P: packages of spec/Packages.tla; base: files of the main package's program"""
    def __init__(self, P, base, r, filled):
        self.P, self.base, self.filled, self.r = P, base, filled, r
        self.fill = {f['name']: filler(r, r.randrange(filled)) if filled else [] for p in P for f in p}
        names = {}
        for ls in self.fill.values():         # symbols of a package are unique
            for k, l in enumerate(ls): ls[k] = re.sub(r'\b(Z\d+|ZT\d+)\b', lambda m: m[1] + '_%d' % id_(names, id(ls)), l)
    def text(self, f, p):
        out = ['import q%d_%d "k%d"' % (k, u['p'], u['p'] - 1) if u['p'] else 'import q%d "nowhere"' % k for k, u in enumerate(f['uses'])]
        out += self.fill[f['name']]
        out += ['const %s = %d' % (d, p * 100 + k) for k, d in enumerate(f['defs'])]
        out += ['const U_%s_%d = q%d_%d.%s' % (f['name'].split('.')[0], k, k, u['p'], u['n']) for k, u in enumerate(f['uses']) if u['p']]
        if f['syntax']: out.insert(len(out) // 2, 'const = 3')
        return '\n'.join(out) + '\n'
    def files(self, r=None):
        """-> files in the order of their creation; the names of the directories and files vary with r"""
        fs = []
        for p, pk in enumerate(self.P):
            top = '%s/' % r.choice('abcdefg') if r and r.random() < .5 else ''
            pre = [chr(97 + k) for k in range(len(pk))]
            if r: r.shuffle(pre)
            for k, f in enumerate(pk): fs.append(('%sfbd-k%d/%s%s' % (top, p, pre[k], f['name']), self.text(f, p)))
        fs += list(self.base.items())
        if r: r.shuffle(fs)
        return dict(fs)
def rich(r):
    """a bus with many constants of each kind and many functionalities of each kind"""
    def more(s):
        if s['k'] in ('bus', 'block'):
            s['ct'] = s['ct'] + [t for t in sorted(chk_ident.CONSTS) if r.random() < .5 for _ in range(r.choice([2, 3, 5]))]
            s['kids'] = s['kids'] + [dict(r.choice(s['kids'])) for _ in range(r.choice([0, 2, 4])) if s['kids']]
        s['kids'] = [more(dict(k)) for k in s['kids']]
        return s
    return {'bus.fbd': chk_ident.text(chk_ident.dress(more(chk_ident.shape(r, r.choice([1, 2]))), r, r.choice([16, 32, 32, 64])))}

def id_(d, x): return d.setdefault(x, len(d))

def generate(r, npkg, faulty):
    P = []
    for p in range(npkg):
        P.append([dict(name='f%d_%d.fbd' % (p, f), defs=['D%d_%d' % (f, k) for k in range(r.randrange(4))] + ['C'] * (f == 0), uses=[], syntax=False) for f in range(r.choice([1, 1, 2, 3, 5]))])
    for p in P:
        for f in p:
            for _ in range(r.choice([0, 0, 1, 2])):
                q = r.randrange(npkg)
                f['uses'].append(dict(p=q + 1, n=r.choice(r.choice(P[q])['defs'] or ['C'])))
    for _ in range(faulty):
        p = r.choice(P); f = r.choice(p)
        x = r.choice(['syntax', 'twice', 'bind', 'eval', 'eval', 'bind'])
        if x == 'syntax': f['syntax'] = True
        elif x == 'twice': f['defs'].append(r.choice(r.choice(p)['defs'] or ['C']))
        elif x == 'bind': f['uses'].append(dict(p=0, n='C'))
        else: f['uses'].append(dict(p=r.randrange(npkg) + 1, n='Nothing'))
    return P

def emitted(l, k):
    P = l['P']
    for p, pk in enumerate(P):
        for f, x in enumerate(pk): x['name'] = 'f%d_%d.fbd' % (p, f)
    return P

MAIN = 'import "k0"\nconst M = %s\nMain bus\n  c config\n    width = 4\n'
def runs(job):
    tag, prog, n, nrace = job
    r = vf.rng('runs' + tag)
    alone = vf.run(files=prog.base, args=['-main', 'Main'])
    e = dict(ev=tag, P=prog.P, base=-1 if alone.timeout else alone.rc, runs=[])
    names = [f['name'] for p in prog.P for f in p]
    for k in range(n + nrace):
        procs = [1, 2, 8, 4, 3, 16][k % 6]
        fs = prog.files(None if k % 3 == 0 else r)
        env = {'GOMAXPROCS': str(procs), 'GOGC': r.choice(['100', '1', 'off'])}
        if k >= n:
            rr = racing(fs, env)
        else:
            rr = vf.run(files=fs, args=['-main', 'Main'], dump=True, env=env)
        rep = ''
        if 'WARNING: DATA RACE' in rr.err:
            rep = ' / '.join(re.findall(r'^  (github\.com/\S+)', rr.err, re.M)[:4]) or 'somewhere'
        h = lambda s: hashlib.md5(s.encode()).hexdigest()
        dump = json.dumps(rr.dump, sort_keys=True) if rr.dump is not None else ''
        e['runs'].append(dict(how='GOMAXPROCS=%d, order %d%s' % (procs, k % 3 and k, ', race detector' if k >= n else ''), rc=-1 if rr.timeout else 1 if rep and rr.rc == 66 else rr.rc,
                              out=h(rr.out), dump=h(dump), blame=[x for x in names if x in rr.err], race=rep, stderr='' if rep else rr.err[:200]))
    return e

def racing(fs, env):
    r = vf.run(files=fs, args=['-main', 'Main'], dump=True, env=dict(env, GORACE='halt_on_error=0 exitcode=66'), bin=race(), timeout=60)
    if 'WARNING: DATA RACE' in r.err and r.rc == 66: r.rc = 0 if r.out else 1
    return r

def check(c):
    r = vf.rng('C14')
    vf.build()
    for a, b in ((3, 1), (2, 2)) if c.quick else ((3, 1), (2, 2), (4, 1)):
        t = vf.tlc('PackagesMC', MC % (a, b, 'FALSE'), workers=8, timeout=3400, heap='20g')
        if t.violated: raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-3000:]))
        c.add_tlc(t, '%d packages of up to %d files' % (a, b))
    jobs = []
    main = {'bus.fbd': 'Main bus\n  c config\n    width = 4\n'}
    for a, b, lim in ((2, 1, 60), (3, 1, 60)) if c.quick else ((2, 1, 1000), (3, 1, 3000)):
        t = vf.tlc('PackagesMC', MC % (a, b, 'TRUE'), workers=8, timeout=3400, heap='20g')
        ls = sorted({json.dumps(l['P'], sort_keys=True) for l in t.lines})
        c.count('programs_of_the_specification', len(ls))
        jobs += [('s%d_%d' % (a, k), Prog(emitted(dict(P=json.loads(l)), k), main, vf.rng('C14/s%d' % k), 0), 3, 0) for k, l in enumerate(r.sample(ls, min(lim, len(ls))))]
    rc = race()
    if not rc: c.assumptions.append('the race detector could not be built; races are looked for in the outputs only')
    bases = list(chk_fidelity.random_programs(100 if c.quick else 1500, 'C14', errors=(0, 0, 0, 2)))
    for k in range(0, len(bases), 2): bases[k] = ('', rich(vf.rng('C14/rich%d' % k)))
    for k, (_, base) in enumerate(bases):
        q = vf.rng('C14/%d' % k)
        P = generate(q, q.choice([2, 3, 8, 20]), q.choice([0, 0, 0, 1, 1, 2, 4]))
        jobs.append(('t%d' % k, Prog(P, base, q, q.choice([3, 20, 60])), 10, 1 if rc and k % 3 == 0 else 0))
    events = vf.pmap(runs, jobs, 6)
    tr = vf.tlc_shards('PackagesTrace', TR, 'trace.ndjson', events, timeout=3000)
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'groups of runs')
    n = sum(len(e['runs']) for e in events)
    c.validated(n)
    c.count('programs_compiled_repeatedly', len(events)); c.count('runs', n)
    c.count('runs_with_race_detector', sum(j[3] for j in jobs))
    c.count('programs_accepted', sum(e['runs'][0]['rc'] == 0 for e in events))
    jb = {j[0]: j[1] for j in jobs}
    seen = set()
    for v in tr.lines:
        k = (v['ev'], v['rule'])
        if k in seen: continue
        seen.add(k)
        c.violation('%s: %s' % (v['rule'], v['ev']), v['what'], dict(files=jb[v['ev']].files(), what=v['what']))
    c.sample(dict(ev=events[-1]['ev'], runs=events[-1]['runs'][:3]))
    c.assumptions += ['schedules are sampled (GOMAXPROCS, garbage collection, order of files), not enumerated, in the compiler itself']
