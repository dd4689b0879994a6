"""C16: packages and imports (spec/Imports.tla)."""
import json, os, shutil
import vf

MC = 'SPECIFICATION Spec\nCONSTANTS MAXN = %d EMIT = %s\nINVARIANTS C16_Found C16_Once C16_Full C16_Omit Out\nCHECK_DEADLOCK FALSE\n'
TR = 'SPECIFICATION Spec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n'

def nm(s):
    p = s.startswith('fbd-')
    b = s[4:] if p else s
    b, e = (b[:b.rindex('.')], b[b.rindex('.'):]) if '.' in b else (b, '')
    return dict(p=p, b=b, e=e)
def st(n): return ('fbd-' if n['p'] else '') + n['b'] + n['e']
EMPTY = dict(imports=[], consts=[], types=[], insts=[])

class Fs:
    """a file system being generated"""
    def __init__(self): self.F = [dict(kind='dir', name=nm('r'), up=1, to=0)]; self.T = [EMPTY]
    def add(self, kind, name, up, to=0, text=None):
        if any(x['up'] == up and k and st(x['name']) == name for k, x in enumerate(self.F)): return 0
        self.F.append(dict(kind=kind, name=nm(name), up=up, to=to)); self.T.append(text or EMPTY)
        return len(self.F)
    def path(self, n): return [] if n == 1 else self.path(self.F[n - 1]['up']) + [st(self.F[n - 1]['name'])]
    def res(self, n):
        for _ in range(len(self.F) + 1):
            if not n or self.F[n - 1]['kind'] != 'link': return n
            n = self.F[n - 1]['to']
        return 0
    def entries(self, d): return [k + 1 for k, x in enumerate(self.F) if k and x['up'] == d]
    def packages(self, roots):
        seen, todo = set(), [self.res(x) for x in roots]
        while todo:
            d = todo.pop()
            if not d or d in seen or self.F[d - 1]['kind'] != 'dir': continue
            seen.add(d); todo += [self.res(n) for n in self.entries(d)]
        return sorted(d for d in seen if self.F[d - 1]['name']['p'] and self.sources(d))
    def sources(self, d):
        return [n for n in self.entries(d) if self.F[n - 1]['name']['e'] == '.fbd' and self.res(n) and self.F[self.res(n) - 1]['kind'] == 'file']

def matches(fs, path, d):
    p = [nm(x) for x in fs.path(d)]
    if len(path) > len(p): return False
    t = p[len(p) - len(path):]
    return path[0]['b'] == t[0]['b'] and path[0]['e'] == t[0]['e'] and (not path[0]['p'] or t[0]['p']) and path[1:] == t[1:]

def generate(r):
    fs = Fs()
    cwd = fs.add('dir', 'w', 1)
    libs = [fs.add('dir', x, 1) for x in r.sample(['lib', 'ext', 'fbd-lib', 'vendor'], r.randrange(3))]
    dirs = [cwd] + libs
    for _ in range(r.randrange(1, 7)):
        d = fs.add('dir', r.choice(['fbd-a', 'fbd-b', 'fbd-c', 'fbd-ab', 'fbd-a-b', 'a', 'b', 'src', 'fbd-lib', 'd.fbd', 'xfbd-a', 'fbd-e']), r.choice(dirs))
        if d: dirs.append(d)
    files = []
    for d in dirs[1:]:
        for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if fs.F[d - 1]['name']['p'] else r.choice([0, 0, 1])):
            f = fs.add('file', r.choice(['a.fbd', 'b.fbd', 'fbd-c.fbd', 'z.fbd', 'notes.txt', 'fbd', 'a.fbd~', 'a.fbdx', 'x.FBD']), d)
            if f: files.append(f)
    main = fs.add('file', 'bus.fbd', r.choice([d for d in dirs if not fs.F[d - 1]['name']['p']] if r.random() < .2 else [cwd]))
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        t = r.choice(dirs + files + [1, 0, len(fs.F) + 1, len(fs.F) + 2])     # also itself and the next one
        fs.add('link', r.choice(['l', 'fbd-l', 'fbd-a', 'k.fbd', 'a.fbd', 'd', 'fbd-k.fbd']), r.choice(dirs), t)
    for x in fs.F:
        if x['to'] > len(fs.F) or x['to'] == main: x['to'] = 0
    roots = [cwd] + [r.choice(libs + dirs + list(range(2, len(fs.F) + 1)) * (r.random() < .2) + [0] * (r.random() < .2)) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    pk = fs.packages(roots)
    bad = r.random() < .3
    homes = {}
    for d in pk:
        for s in fs.sources(d): homes.setdefault(fs.res(s), d)
    firsts = {}
    for f in sorted(set(files)):
        firsts.setdefault(homes.get(f, -f), f)
    own, typ = {}, {}
    for f in sorted(set(files + [main])):
        c = [dict(n='K%d_%d' % (f, k), q='', r='', v=100 * f + k) for k in range(r.choice([1, 1, 2, 3]))]
        if f in firsts.values(): c.append(dict(n='V', q='', r='', v=f))
        own[f] = c
        typ[f] = [dict(n='T%d' % f, v=r.randrange(1, 32))] * (r.random() < .7) + [dict(n='T', v=f)] * (f in firsts.values() and f < 33)
    def names(d): return [c['n'] for s in fs.sources(d) for c in own.get(fs.res(s), [])]
    for f in sorted(own):
        im, cs, ii = [], own[f], []
        for _ in range(r.choice([0, 1, 1, 2]) if f != main else r.choice([1, 2, 3])):
            if pk and r.random() < .97:
                d = r.choice(pk)
                p = [nm(x) for x in fs.path(d)]
                p = p[-r.choice([1, 1, 1, 2, 3]):]
                if p[0]['p'] and r.random() < .6: p = [dict(p[0], p=False)] + p[1:]
            else: p = [nm(r.choice(['nothing', 'a', 'fbd-b', 'lib', 'b']))]
            m = [x for x in pk if matches(fs, p, x)]
            if len(m) != 1 and not (bad and r.random() < .5): continue
            al = r.choice(['', 'p%d' % len(im), 'a', 'al']) if len(p) == 1 and '-' not in p[0]['b'] and not p[0]['e'] else 'p%d' % len(im)
            a = al or p[0]['b']
            if any((x['al'] or x['path'][0]['b']) == a for x in im) and not (bad and r.random() < .3): continue
            im.append(dict(al=al, path=p))
            for _ in range(r.choice([1, 1, 2])):
                ns = names(m[0]) if m else []
                n = r.choice(ns) if ns and not (bad and r.random() < .15) else 'V' if not bad else r.choice(['V', 'K9', 'K3_0', cs[0]['n'], cs[0]['n']])
                if ns and n not in ns and not bad: continue
                cs.append(dict(n='R%d_%d' % (f, len(cs)), q=a if not (bad and r.random() < .05) else r.choice(['a', 'b', 'p0', 'c']), r=n, v=0))
            if f == main and r.random() < .7:
                ns = [t['n'] for s in fs.sources(m[0]) for t in typ.get(fs.res(s), [])] if m else []
                n = r.choice(ns) if ns and not (bad and r.random() < .3) else r.choice(['T', 'T%d' % f, 'T3'])
                if n in ns or bad: ii.append(dict(n='i%d' % len(ii), q=a if not (bad and r.random() < .1) else r.choice(['a', 'b', 'p0', '']), r=n))
        if cs and r.random() < .4: cs.append(dict(n='L%d_%d' % (f, len(cs)), q='', r=r.choice(cs)['n'], v=0))
        fs.T[f - 1] = dict(imports=im, consts=cs, types=typ[f], insts=ii)
    return fs, roots, cwd, main

def text(t, main):
    def imp(i): return '%s"%s"' % (i['al'] + ' ' if i['al'] else '', '/'.join(st(x) for x in i['path']))
    out = []
    if len(t['imports']) > 1 and len(t['consts']) % 2: out += ['import'] + ['  ' + imp(i) for i in t['imports']]
    else: out += ['import ' + imp(i) for i in t['imports']]
    for c in t['consts']:
        out.append('const %s = %s' % (c['n'], (c['q'] + '.' if c['q'] else '') + c['r'] if c['r'] else c['v']))
    for y in t['types']: out += ['type %s config' % y['n'], '  width = %d' % y['v']]
    if main: out += ['Main bus'] + ['  %s %s%s' % (i['n'], i['q'] + '.' if i['q'] else '', i['r']) for i in t['insts']]
    return '\n'.join(out) + '\n'

def observe(tag, fs, roots, cwd, main, r):
    base = vf.newdir('w')
    ap = lambda n: os.path.join(base, 'r', *fs.path(n)) if n else os.path.join(base, 'r', 'absent')
    try:
        os.makedirs(ap(1))
        for k, x in enumerate(fs.F):
            n = k + 1
            if n == 1: continue
            if x['kind'] == 'dir': os.mkdir(ap(n))
            elif x['kind'] == 'file': open(ap(n), 'w').write(text(fs.T[k], n == main))
        for k, x in enumerate(fs.F):
            if x['kind'] == 'link':
                t = ap(x['to'])
                if r.random() < .5: t = os.path.relpath(t, os.path.dirname(ap(k + 1)))
                os.symlink(t, ap(k + 1))
        env = {}
        if len(roots) > 1:
            ps = []
            for n in roots[1:]:
                p = ap(n)
                if r.random() < .4: p = os.path.relpath(p, ap(cwd))
                ps.append(p + r.choice(['', '', '/']) if n and fs.F[n - 1]['kind'] != 'file' else p)
            env['FBDPATH'] = ':'.join(ps)
        res = vf.run(args=['-main', 'Main', '-c', os.path.join(base, 'k.json')], main=os.path.relpath(ap(main), ap(cwd)), cwd=ap(cwd), env=env)
        dump, insts = [], []
        where = {os.path.realpath(ap(k + 1)): k + 1 for k, x in enumerate(fs.F) if x['kind'] == 'dir'}
        if res.ok:
            insts = [dict(n=x['Name'], w=x['Width']) for x in res.json().get('Configs') or []]
            try: j = json.load(open(os.path.join(base, 'k.json')))
            except Exception: j = {'unreadable': {'Consts': {'Ints': {'': 0}}}}
            for key, p in j.items():
                d = where.get(os.path.realpath(key), 0) if '/' in key else 0
                c = {n: v for x in p['Consts'].values() for n, v in (x or {}).items()}
                for n, v in c.items() or [('', 0)]: dump.append(dict(d=d, b='' if d else key, n=n, v=v))
    finally:
        shutil.rmtree(base, True)
    return dict(ev=tag, fs=fs.F, roots=roots, main=main, texts=fs.T, rc=-1 if res.timeout else res.rc, dump=[x for x in dump if x['n']], insts=insts, stderr=res.err.replace(base, '')[:300])

def emitted(l, r):
    """a file system of ImportsMC, every source has a constant, the main file imports x or y"""
    fs = Fs()
    fs.F, fs.T = l['F'], []
    for k, x in enumerate(fs.F): fs.T.append(dict(EMPTY, consts=[dict(n='K%d' % (k + 1), q='', r='', v=k + 1)], types=[dict(n='T%d' % (k + 1), v=k + 1)]) if x['kind'] == 'file' else EMPTY)
    fl = [k + 1 for k, x in enumerate(fs.F) if x['kind'] == 'file']
    main = fs.add('file', 'bus.fbd', 2)
    fs.T[main - 1] = dict(EMPTY, imports=[dict(al='', path=[nm(r.choice(['x', 'fbd-x', 'x', 'y', 'l']))])])
    im = fs.T[main - 1]['imports'][0]
    fs.T[main - 1]['consts'] = [dict(n='R', q=im['path'][0]['b'], r='K%d' % r.choice(fl), v=0)]
    fs.T[main - 1]['insts'] = [dict(n='i', q=im['path'][0]['b'], r='T%d' % r.choice(fl))]
    for x in fs.F:
        if x['to'] == main: x['to'] = 0
    return fs, l['R'], 2, main

def check(c):
    r = vf.rng('C16')
    vf.build()
    n = 3
    t = vf.tlc('ImportsMC', MC % (n if c.quick else 4, 'FALSE'), workers=8, timeout=3400, heap='20g')
    if t.violated: raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-3000:]))
    c.add_tlc(t, 'file systems of up to %d nodes' % (n if c.quick else 4))
    t = vf.tlc('ImportsMC', MC % (n, 'TRUE'), workers=8, timeout=3000, heap='12g')
    ls = [l for l in t.lines if any(x['name']['p'] for x in l['F']) and any(x['kind'] == 'file' for x in l['F'])]
    ls = {json.dumps(l, sort_keys=True): l for l in ls}
    ls = [ls[k] for k in sorted(ls)]
    c.count('file_systems_of_the_specification', len(ls))
    jobs = [('s%d' % k,) + emitted(json.loads(json.dumps(l)), vf.rng('C16/s%d' % k)) for k, l in enumerate(r.sample(ls, min(len(ls), 500 if c.quick else 20000)))]
    for k in range(2000 if c.quick else 40000): jobs.append(('t%d' % k,) + generate(vf.rng('C16/t%d' % k)))
    validate(c, jobs)
    c.assumptions += ['an import without alias names one path element (the alias of longer paths is a TODO of the source)', 'permissions are not varied']

def validate(c, jobs):
    events = vf.pmap(lambda j: observe(*j, vf.rng('obs' + j[0])), jobs)
    tr = vf.tlc_shards('ImportsTrace', TR, 'trace.ndjson', events, timeout=3000)
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'compilations')
    c.validated(len(events))
    byev = {e['ev']: e for e in events}
    jb = {j[0]: j for j in jobs}
    seen = set()
    for v in tr.lines:
        k = (v['ev'], v['rule'])
        if k in seen: continue
        seen.add(k)
        if not v['rule']:
            c.count('compilations_' + v['what']); c.count('packages', v['packages'])
            continue
        _, fs, roots, cwd, main = jb[v['ev']]
        tree = {'/'.join(fs.path(n + 1)): x['kind'] + (' -> ' + '/'.join(fs.path(x['to'])) if x['to'] else '') if x['kind'] != 'file' else text(fs.T[n], n + 1 == main) for n, x in enumerate(fs.F)}
        c.violation('%s: %s' % (v['rule'], v['ev']), v['what'], dict(tree=tree, roots=['/'.join(fs.path(x)) if x else 'absent' for x in roots], what=v['what'], event=byev[v['ev']]))
    c.sample({k: events[-1][k] for k in ('roots', 'rc', 'dump')})
