"""C17: the bus ID identifies the described interface (spec/Identity.tla)."""
import copy, json, re, time
import vf, textgen

LISTS = ['Blackboxes', 'Configs', 'Groups', 'Irqs', 'Masks', 'Params', 'Procs', 'Returns', 'Statics', 'Statuses', 'Streams', 'Subblocks']
MC = 'SPECIFICATION Spec\nCONSTANTS N = %d Small = %s Kinds = {%s}\nINVARIANTS C17_Aspect C17_Same\nCHECK_DEADLOCK FALSE\n'

# ------------------------------------------------------------------ recorded buses
def fields(j):
    f = {k: json.dumps(v, sort_keys=True) for k, v in j.items() if k not in LISTS}
    if 'Consts' in j: f['ConstValues'] = json.dumps([[v[n] for n in sorted(v)] for k, v in sorted(j['Consts'].items()) if v])
    return f

def listing(j, kind='Bus', path='', grp=False, out=None):
    out = [] if out is None else out
    grp = grp or kind == 'Groups'
    out.append(dict(path=path, kind=kind, grp=grp, f=fields(j)))
    for l in LISTS:
        n = 0
        for x in j.get(l) or []:
            if kind == 'Bus' and l == 'Statics' and x['Name'] in ('ID', 'TIMESTAMP'): continue
            listing(x, l, '%s/%s.%d' % (path, l, n), grp, out)
            n += 1
    return out

def static(j, name):
    for s in j['Statics'] or []:
        if s['Name'] == name: return s

def register(s):
    m = re.fullmatch(r'([xob])"([0-9a-f]*)"', s['InitValue'])
    a = s['Access']
    return dict(Width=s['Width'], bits={'x': 4, 'o': 3, 'b': 1}[m[1]] * len(m[2]) if m else -1, addr=a['StartAddr'], last=a['EndAddr'], typ=a['Type'], regs=a['RegCount'], **{'from': a['StartBit'], 'to': a['EndBit']})

def number(s):
    m = re.fullmatch(r'([xob])"([0-9a-f]*)"', s['InitValue'])
    return int(m[2], {'x': 16, 'o': 8, 'b': 2}[m[1]]) if m else -1

def compile(files, **kw):
    extra = kw.pop('extra', [])
    r = vf.run(files=files, args=['-main', 'Main'] + extra, **kw)
    return json.loads(r.out) if r.ok else None

# ------------------------------------------------------------------ buses as trees
NAMES = ['a', 'b', 'c', 'Reg', 'ctl', 'x_1', 'status_reg', 'Mode', 'q', 'zz', 'data', 'en']
KINDS = ['config', 'mask', 'static', 'status', 'irq', 'proc', 'stream', 'blackbox', 'block']
DOCS = ['d', 'Documentation', 'two words', 'a; b = 1', 'x', 'the quick brown fox']
class Names:
    def __init__(self, r): self.r, self.used = r, set()
    def __call__(self):
        while True:
            n = self.r.choice(NAMES) + self.r.choice(['', '', str(self.r.randrange(100)), '_' + self.r.choice(NAMES)])
            if n not in self.used:
                self.used.add(n)
                return n

CONSTS = dict(int=lambda r: str(r.randrange(100)), bool=lambda r: r.choice(['true', 'false']), string=lambda r: '"s%d"' % r.randrange(50), float=lambda r: '%d.5' % r.randrange(9),
              ints=lambda r: '[%s]' % ', '.join(str(r.randrange(9)) for _ in range(r.choice([2, 3, 4]))), bools=lambda r: '[%s]' % ', '.join(r.choice(['true', 'false']) for _ in range(r.choice([2, 3]))))
def shape(r, depth=2, kind='bus'):
    """what there is: kinds and sizes; the rest is chosen by dress"""
    d = dict(k=kind, kids=[], ct=[], arr=kind != 'bus' and r.random() < .3 and kind in ('config', 'static', 'status', 'param', 'return', 'block'))
    if kind in ('bus', 'block'):
        d['ct'] = [r.choice(sorted(CONSTS)) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        for _ in range(r.choice([1, 2, 3, 4]) if kind == 'bus' else r.choice([0, 1, 2, 3])):
            k = r.choice(KINDS if depth else KINDS[:-1])
            d['kids'].append(shape(r, depth - 1, k))
    elif kind == 'proc': d['kids'] = [shape(r, 0, r.choice(['param', 'return'])) for _ in range(r.choice([0, 1, 2, 3]))]
    elif kind == 'stream':
        k = r.choice(['param', 'return'])
        d['kids'] = [shape(r, 0, k) for _ in range(r.choice([1, 2]))]
    d['has'] = {p: r.random() < .5 for p in ('doc', 'width', 'init-value', 'atomic', 'masters', 'align', 'clear', 'in-trigger', 'out-trigger', 'add-enable', 'enable-init-value', 'read-value', 'reset-value', 'range', 'delay')}
    # the choices among few values, so that all the buses of a shape agree on them
    d['fix'] = {p: value(r, p, d, 0) for p in ('atomic', 'clear', 'in-trigger', 'out-trigger', 'add-enable', 'enable-init-value')}
    d['wide'] = r.random() < .3
    return d

def value(r, p, d, bw):
    w = int(d['p'].get('width', bw)) if 'p' in d else 0
    if p == 'width': return str(r.randrange(bw + 1, bw + 12) if d['wide'] and not d['arr'] else r.randrange(min(2, bw), bw + 1))
    if p in ('init-value', 'read-value', 'reset-value'): return r.choice([str(r.randrange(2 ** min(w, 16))), 'b"%s"' % ''.join(r.choice('01') for _ in range(r.randrange(1, min(w, 9) + 1)))])
    if p == 'atomic': return r.choice(['true', 'false'] if not (d['arr'] and d['k'] == 'config') else ['true'])
    if p == 'masters': return str(r.randrange(1, 5))
    if p == 'align': return str(2 ** r.randrange(4))
    if p == 'clear': return r.choice(['"Explicit"', '"On Read"'])
    if p in ('in-trigger', 'out-trigger'): return r.choice(['"Edge"', '"Level"'])
    if p == 'add-enable': return r.choice(['true', 'false'])
    if p == 'enable-init-value': return r.choice(['0', '1'])
    if p == 'range': return str(r.randrange(1, 2 ** min(w, 12)))
    if p == 'delay': return '%d ns' % r.randrange(1, 50)
    if p == 'size': return str(r.randrange(1, 40))

PROPS = {'bus': ['masters'], 'block': ['masters', 'align'], 'config': ['width', 'init-value', 'atomic', 'read-value', 'reset-value'], 'mask': ['width', 'init-value', 'atomic'], 'static': ['width', 'init-value'],
         'status': ['width', 'atomic', 'read-value'], 'irq': ['clear', 'in-trigger', 'out-trigger', 'add-enable', 'enable-init-value'], 'param': ['width'], 'return': ['width'], 'proc': ['delay'], 'stream': ['delay'], 'blackbox': ['size']}
MUST = {('static', 'init-value'), ('blackbox', 'size')}
def dress(s, r, bw, names=None):
    """names, documentation, counts and values"""
    d = dict(s, p={}, kids=[])
    d['n'] = 'Main' if names is None else names()
    inner = Names(r)
    d['d'] = r.choice(DOCS) + r.choice(['', ' %d' % r.randrange(100)]) if s['has']['doc'] else ''
    d['cnt'] = r.randrange(2, 7) if s['arr'] else 0
    for p in PROPS[s['k']]:
        if not (s['has'][p] if p in s['has'] else False) and (s['k'], p) not in MUST: continue
        if p == 'enable-init-value' and d['p'].get('add-enable') != 'true': continue
        if p == 'reset-value' and 'init-value' not in d['p']: continue
        d['p'][p] = s['fix'][p] if p in s['fix'] else value(r, p, d, bw)
    if s['k'] == 'config' and s['arr'] and d['p'].get('atomic') == 'false': del d['p']['atomic']
    if s['k'] == 'bus': d['p']['width'] = str(bw)
    d['c'] = [(inner() + 'K', CONSTS[t](r)) for t in s['ct']]
    d['kids'] = [dress(k, r, bw, inner) for k in s['kids']]
    return d

def render(d, ind=0, alias=None, r=None):
    pad = '  ' * ind
    ls = [pad + '# ' + d['d']] if d['d'] else []
    name = (alias or {}).get(id(d))
    ls.append('%s%s %s%s' % (pad, d['n'], '[%d]' % d['cnt'] if d['cnt'] else '', name or d['k']))
    if not name: ls += inside(d, ind + 1, alias, r)
    return ls

def inside(d, ind, alias, r=None):
    pad = '  ' * ind
    ls = ['%s%s = %s' % (pad, p, v) for p, v in d['p'].items()] + ['%sconst %s = %s' % (pad, n, v) for n, v in d['c']]
    kids = d['kids']
    if r and d['k'] in ('bus', 'block', 'proc'):    # another interleaving of the kinds
        by = {}
        for k in kids: by.setdefault(k['k'], []).append(k)
        order = [k['k'] for k in kids]
        r.shuffle(order)
        kids = [by[k].pop(0) for k in order]
    for k in kids: ls += render(k, ind, alias, r)
    return ls

def nodes(d):
    yield d
    for k in d['kids']: yield from nodes(k)

def text(d): return '\n'.join(render(d)) + '\n'

def other(r, old, f):
    for _ in range(50):
        v = f()
        if v != old: return v
    return old

# ------------------------------------------------------------------ one difference
def aspects(d):
    """the edits that apply to a bus of this shape: (index of the node, aspect)"""
    out = []
    for i, x in enumerate(nodes(d)):
        k = x['k']
        if k != 'bus': out.append((i, 'name'))
        out += [(i, 'doc'), (i, 'document')]
        if x['arr']: out.append((i, 'count'))
        elif k in ('config', 'static', 'status', 'param', 'return', 'block'): out.append((i, 'array'))
        out += [(i, p) for p in PROPS[k] + (['enable-init-value'] if k == 'irq' else []) if p not in ('align', 'read-value', 'reset-value', 'delay')]
        out += [(i, '%s%s %d' % (w, t, c)) for c, t in enumerate(x['ct']) for w in (['first-', 'last-'] if t[-1] == 's' else ['constant-'])] + ([(i, 'new constant')] if k in ('bus', 'block') else [])
        if k in ('bus', 'block', 'proc', 'stream'):
            out += [(i, 'swap %d %d' % (a, b)) for b in range(len(x['kids'])) for a in range(b) if x['kids'][a]['k'] == x['kids'][b]['k']]
            out += [(i, 'remove %d' % a) for a in range(len(x['kids']))]
    return out

def edit(d, i, a, r, bw):
    d = copy.deepcopy(d)
    x = list(nodes(d))[i]
    w = a.split()
    if a == 'name': x['n'] = x['n'] + r.choice(['z', '9', '_n']) if r.random() < .5 else 'o' + x['n'][1:] + 'Z'
    elif a == 'doc': x['d'] = other(r, x['d'], lambda: r.choice(DOCS))
    elif a == 'document': x['d'] = '' if x['d'] else r.choice(DOCS)
    elif a == 'count': x['cnt'] = other(r, x['cnt'], lambda: r.randrange(2, 9))
    elif a == 'array': x['cnt'] = 1
    elif w[0].split('-')[0] in ('constant', 'first', 'last') and len(w) == 2:
        n, v = x['c'][int(w[1])]
        ms = list(re.finditer(r'\d|true|false', v))
        m = ms[0 if w[0][0] == 'f' else -1]
        x['c'][int(w[1])] = (n, v[:m.start()] + {'true': 'false', 'false': 'true'}.get(m[0], str((int(m[0]) + 1) % 10) if m[0].isdigit() else '') + v[m.end():])
    elif a == 'new constant': x['c'].append(('newK', r.choice(['7', 'true', '"new"', '1.5', '[1]'])))
    elif w[0] == 'swap':
        j, k = int(w[1]), int(w[2])
        x['kids'][j], x['kids'][k] = x['kids'][k], x['kids'][j]
    elif w[0] == 'remove': del x['kids'][int(w[1])]
    else:
        if a == 'enable-init-value': x['p']['add-enable'] = 'true'
        x['wide'] = x['wide'] if a != 'width' else r.random() < .5
        x['p'][a] = other(r, x['p'].get(a), lambda: value(r, a, x, bw))
    return d

# ------------------------------------------------------------------ the same bus, described otherwise
def disguise(d, r):
    """files describing the same bus in another way"""
    ns = [x for x in nodes(d) if x['k'] != 'bus']
    alias, types, pkg = {}, [], r.random() < .3
    for x in r.sample(ns, min(len(ns), r.choice([0, 1, 2, 3]))):
        alias[id(x)] = '%sT_%d' % ('lib.' if pkg else '', len(alias))
    # a type is written where its functionality is not part of another type: nested aliases stay within the package
    for x in ns:
        n = alias.get(id(x))
        if n: types.append(['type %s %s' % (n.split('.')[-1], x['k'])] + inside(x, 1, {k: v.split('.')[-1] for k, v in alias.items()}, r))
    r.shuffle(types)
    main = render(d, 0, alias, r)
    lib = [l for t in types for l in t]
    noise = ['const Noise%d = %d' % (r.randrange(99), r.randrange(9))] if r.random() < .3 else []
    if pkg: files = {'fbd-lib/%s.fbd' % r.choice('abc'): '\n'.join(lib + noise) + '\n', 'bus.fbd': '\n'.join(['import "lib"'] + main) + '\n'}
    else:
        parts = [lib, main, noise]
        r.shuffle(parts)
        files = {'bus.fbd': '\n'.join(l for p in parts for l in p) + '\n'}
    if r.random() < .6: files = {n: textgen.rewrite(r, t) for n, t in files.items()}
    return files

# ------------------------------------------------------------------ the check
def pair(job):
    tag, s, bw, e, seeds = job
    ctx, texts = [], []
    for q in seeds:
        r = vf.rng('C17/%s/%s' % (tag, q))
        d = dress(s, r, bw)
        fa = {'bus.fbd': text(d)}
        if e is None: fb, kw = disguise(d, r), dict(main='bus.fbd')
        else: fb, kw = {'bus.fbd': text(edit(d, e[0], e[1], r, bw))}, {}
        a, b = compile(fa), compile(fb, **kw)
        if a is None or b is None: continue
        texts.append((fa, fb))
        ctx.append(dict(bw=bw, a=dict(id=static(a, 'ID')['InitValue'], l=listing(a)), b=dict(id=static(b, 'ID')['InitValue'], l=listing(b))))
    return dict(ev=tag, kind='pair', edit='%s of %s' % (e[1], list(nodes(s))[e[0]]['k']) if e else 'none', ctx=ctx), texts

def shaped(job):
    tag, s, bw = job
    d = dress(s, vf.rng('C17/' + tag), bw)
    files = {'bus.fbd': text(d)}
    a = compile(files)
    t0 = int(time.time())
    b = compile(files, extra=['-add-timestamp'])
    t1 = int(time.time())
    if a is None or b is None: return None
    ts = static(b, 'TIMESTAMP')
    if ts is None: reg = dict(Width=-1, bits=-1, addr=-1, last=-1, typ='', regs=0, late=0, **{'from': 0, 'to': 0})
    else: reg = dict(register(ts), late=min((number(ts) - t0) % 2 ** ts['Width'], 10 ** 6))
    own = lambda j: [x for x in listing(j) if x['kind'] != 'Bus' and 'Subblocks' not in x['path']]
    return dict(ev=tag, kind='shape', bw=bw, id=register(static(a, 'ID')), id2=register(static(b, 'ID')), ts=reg, own=a['Sizes']['Own'], span=t1 - t0, l0=own(a), l1=own(b)), files

def check(c):
    vf.build()
    ks = '"config", "static", "status"'
    for n, small, k in [(2, 'TRUE', ks)] if c.quick else [(2, 'FALSE', ks), (3, 'TRUE', '"config"'), (3, 'TRUE', '"status"')]:
        t = vf.tlc('IdentityMC', MC % (n, small, k), workers=8, timeout=3000, heap='12g')
        if t.violated: raise vf.Inconclusive('the specification itself breaks %s' % t.violated)
        c.add_tlc(t, 'buses of %d functionalities, %s' % (n, k))
    r = vf.rng('C17')
    jobs, n = [], 600 if c.quick else 12000
    k = 0
    while len(jobs) < n:
        s = shape(vf.rng('C17/s%d' % k), r.choice([0, 1, 2]))
        bw = r.choice([32, 32, 32, 33, 36, 40, 64])
        es = aspects(dress(s, vf.rng('x'), bw))
        byk = {}
        for e in es: byk.setdefault((list(nodes(s))[e[0]]['k'], e[1].split()[0]), []).append(e)
        for kk in r.sample(sorted(byk), min(len(byk), 4)): jobs.append(('p%d' % len(jobs), s, bw, r.choice(byk[kk]), range(4)))
        jobs.append(('p%d' % len(jobs), s, r.choice([bw, 8, 31]), None, range(2)))
        k += 1
    res = vf.pmap(pair, jobs)
    events, src = [e for e, _ in res], {e['ev']: dict(edit=e['edit'], files=t) for e, t in res}
    if sum(len(e['ctx']) for e in events) < len(jobs): raise vf.Inconclusive('too few of the generated buses compile')
    bws = list(range(1, 71)) + [100, 128]
    shapes = [x for x in vf.pmap(shaped, [('t%d' % i, shape(vf.rng('C17/t%d' % i), 1), bws[i % len(bws)]) for i in range(len(bws) * (2 if c.quick else 20))]) if x]
    events += [e for e, _ in shapes]
    src.update({e['ev']: dict(files=f) for e, f in shapes})
    for w in (8, 12):
        js = [j for j in vf.pmap(lambda i: compile({'bus.fbd': text(dress(shape(vf.rng('C17/n%d' % i), 1), vf.rng('C17/m%d' % i), w))}), range(60)) if j]
        events.append(dict(ev='n%d' % w, kind='narrow', bw=w, ids=[static(j, 'ID')['InitValue'] for j in js], ls=[listing(j) for j in js]))
    tr = vf.tlc_shards('IdentityTrace', 'SPECIFICATION Spec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n', 'trace.ndjson', events, timeout=3000)
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'identifiers')
    c.validated(len(events))
    seen = set()
    for v in tr.lines:
        if (v['ev'], v['rule']) in seen: continue
        seen.add((v['ev'], v['rule']))
        if not v['rule']:
            c.count('pairs_same', v['what']['same']); c.count('pairs_distinct', v['what']['distinct'])
            continue
        c.violation('%s: %s' % (v['rule'], v['what'].get('edit', v['what'].get('bw'))), v['what'], dict(src.get(v['ev'], {}), what=v['what']))
    c.count('registers', len(shapes))
    c.sample(dict(edit=events[0]['edit'], files=[list(f) for f in res[0][1][:1]]))
    c.assumptions += ['a difference is lost when none of at least three buses that have it shows it', 'groups, ranges, read and reset values and names of constants do not take part in the identity']
