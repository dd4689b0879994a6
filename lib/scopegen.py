"""Programs with nested scopes, parameters, arguments and packages for spec/Scope.tla: generation and rendering."""

BASE = ['block', 'bus', 'config', 'group', 'mask', 'proc', 'param', 'return', 'static', 'status', 'stream', 'irq', 'blackbox']
def node(kind='inst', name='', outer=1, parent=('', ''), **kw):
    d = dict(kind=kind, name=name, outer=outer, parent=dict(q=parent[0], n=parent[1]), args=[], params=[], consts=[], props=[], cnt=[], pkg='', imports=[])
    d.update(kw)
    return d
def lit(n): return dict(q='', n='', v=n)
def ref(n, q=''): return dict(q=q, n=n, v=0)

PROP = dict(config='width', status='width', mask='width', param='width', **{'return': 'width'}, block='masters', bus='masters')
INNER = dict(bus=['config', 'status', 'mask', 'block', 'group', 'proc'], block=['config', 'status', 'mask', 'block', 'group', 'proc'],
             group=['config', 'status', 'mask'], proc=['param', 'return'])

class Gen:
    def __init__(self, r, errors=0):
        self.r, self.errors = r, errors
        self.P = []
        self.n = 0
        self.names = r.sample(['C', 'D', 'W', 'N', 'SIZE', 'p', 'q', 'r_', 'k'], 5)
        self.unused = set()
    def err(self, p):
        if self.errors > 0 and self.r.random() < p:
            self.errors -= 1
            return True
        return False
    # ---- scoping, only to generate mostly valid programs
    def find(self, s, q, n):
        while s:
            d = self.P[s - 1]
            if d['kind'] == 'file':
                pkg = d['pkg'] if not q else next((i['pkg'] for i in d['imports'] if i['n'] == q), None)
                for k, f in enumerate(self.P):
                    if f['kind'] == 'file' and f['pkg'] == pkg:
                        for c in f['consts']:
                            if c['n'] == n: return (k + 1, c)
                return None
            if not q:
                for c in d['consts'] + d['params']:
                    if c['n'] == n: return (s, c)
            s = d['outer']
    def file_of(self, s):
        while self.P[s - 1]['kind'] != 'file': s = self.P[s - 1]['outer']
        return s
    def refs(self, s, own=None, skip=()):
        """constants and parameters visible in s"""
        out = []
        for n in self.names:
            x = self.find(s, '', n)
            if x and not (x[0] == s and n in skip): out += [ref(n)] * (1 if self.P[x[0] - 1]['kind'] == 'file' else 4 if x[1] in self.P[x[0] - 1]['params'] else 2)
        f = self.P[self.file_of(s) - 1]
        for i in f['imports']:
            for n in self.names:
                if self.find(s, i['n'], n): out.append(ref(n, i['n']))
        return out
    def expr(self, s, skip=(), small=False):
        r = self.r
        if self.err(.02): return [ref(r.choice(['nope', 'Zz', self.names[0] + 'x']), r.choice(['', '', 'lib']))]
        rs = self.refs(s, skip=skip)
        out = []
        for _ in range(r.choice([1, 1, 1, 2])):
            out.append(r.choice(rs) if rs and r.random() < .75 else lit(r.randrange(1, 6)))
        return out
    def new(self, **kw):
        self.P.append(node(**kw))
        return len(self.P)
    def name(self, pre):
        self.n += 1
        return pre + str(self.n)
    def consts(self, s, forbidden=()):
        r = self.r
        ns = [n for n in r.sample(self.names, r.choice([0, 0, 1, 1, 2])) if n not in forbidden]
        d = self.P[s - 1]
        d['consts'] = [dict(n=n, e=[lit(1)]) for n in ns]
        for k, n in enumerate(ns):
            d['consts'][k]['e'] = self.expr(s, skip=set(ns[k:]) | {p['n'] for p in d['params']})
        if ns and self.err(.03): d['consts'].append(dict(n=ns[0], e=[lit(2)]))
        if ns and self.err(.02): d['consts'][0]['e'] = [ref(ns[0])]
        return set(ns)
    def base_of(self, t):
        d = self.P[t - 1]
        while not (d['parent']['q'] == '' and d['parent']['n'] in BASE):
            t = self.types[t]['par']
            d = self.P[t - 1]
        return d['parent']['n']
    # self.types: node -> dict(base, par, used names: set of consts on the chain, prop: is the property set)
    def visible_types(self, s, base):
        out = []
        seen = set()
        k = s
        while k:
            d = self.P[k - 1]
            if d['kind'] == 'file':
                for t, i in self.types.items():
                    f = self.P[t - 1]['outer']
                    fd = self.P[f - 1]
                    if fd['kind'] != 'file': continue
                    q = '' if fd['pkg'] == d['pkg'] else next((x['n'] for x in d['imports'] if x['pkg'] == fd['pkg']), None)
                    if q is not None and not (q == '' and self.P[t - 1]['name'] in seen) and i['base'] == base:
                        out.append((q, t))
                break
            for t, i in self.types.items():
                if self.P[t - 1]['outer'] == k:
                    if self.P[t - 1]['name'] not in seen and i['base'] == base: out.append(('', t))
                    seen.add(self.P[t - 1]['name'])
            k = d['outer']
        return [x for x in out if x[1] not in self.open]
    def args(self, s, t, scope):
        """an argument list for type t, evaluated in scope"""
        r = self.r
        ps = self.P[t - 1]['params']
        out = []
        k = 0
        npos = r.randrange(len(ps) + 1)
        for p in ps[:npos]: out.append(dict(n='', e=self.expr(scope)))
        rest = [p for p in ps[npos:] if not p['e'] or r.random() < .5]
        r.shuffle(rest)
        for p in rest: out.append(dict(n=p['n'], e=self.expr(scope)))
        if self.err(.12):
            x = r.random()
            if r.random() < .5 and len(out) > 1:
                if r.random() < .5: r.shuffle(out)                                  # positional ones after named ones
                else: out[r.randrange(len(out))]['n'] = r.choice(['', out[0]['n']])
                if out[-1]['n'] and r.random() < .5: out[-1]['n'] = ''
            elif x < .2 and out: out.pop(r.randrange(len(out)))
            elif x < .4: out.append(dict(n=r.choice(['zz', '', self.names[0]]), e=[lit(1)]))
            elif x < .6 and ps: out.append(dict(n=r.choice(ps)['n'], e=[lit(2)]))
            elif x < .8 and ps: out.insert(0, dict(n=r.choice(ps)['n'], e=[lit(2)]))
            else: out += [dict(n='', e=[lit(3)])] * (len(ps) + 1)
        return out
    def body(self, s, base, info, depth, final, forbidden=()):
        """constants, property, inner types and instances of node s"""
        r = self.r
        cs = self.consts(s, set(forbidden) | (info['consts'] if base in ('block', 'bus', 'group') else set()))
        info['consts'] = info['consts'] | cs
        d = self.P[s - 1]
        self.open.append(s)
        if base in INNER and depth > 0:
            for _ in range(r.choice([0, 0, 1])): self.type(s, r.choice(INNER[base]), depth - 1)
        if base in PROP and not info['prop'] and r.random() < (.5 if not final else .75):
            d['props'] = [dict(n=PROP[base], e=self.expr(s))]
            info['prop'] = True
        if base in INNER and (depth > 0 or base in ('group', 'proc')):
            n = r.choice([0, 1, 2]) if not (final and not info['kids']) else r.choice([1, 2, 2, 3])
            for _ in range(n):
                k = r.choice(INNER[base] if depth > 0 or base in ('group', 'proc') else ['config'])
                if base == 'proc': k = r.choice(INNER['proc'])
                self.inst(s, k, depth - 1)
                info['kids'] += 1
        self.open.remove(s)
    def type(self, outer, base, depth):
        r = self.r
        name = self.name('T') if r.random() < .6 else r.choice(['A', 'B', 'Reg', 'Blk']) 
        if any(self.P[t - 1]['name'] == name and self.P[t - 1]['outer'] == outer for t in self.types): name = self.name('T')
        if self.P[outer - 1]['kind'] == 'file' and any(self.P[t - 1]['name'] == name and self.P[self.P[t - 1]['outer'] - 1]['pkg'] == self.P[outer - 1]['pkg'] for t in self.types): name = self.name('T')
        vis = [x for x in self.visible_types(outer, base) if x[1] and self.P[x[1] - 1]['name'] != name]
        t = self.new(kind='type', name=name, outer=outer, parent=('', base))
        d = self.P[t - 1]
        ns = r.sample(self.names, r.choice([0, 1, 1, 2, 2, 3, 3]))
        d['params'] = [dict(n=n, e=[]) for n in ns]
        nd = r.randrange(len(ns) + 1)
        info = dict(base=base, par=0, consts=set(), prop=False, kids=0)
        for k in range(nd, len(ns)):
            # defaults may depend on the outer scope and on parameters before them
            d['params'][k]['e'] = self.expr(t, skip=set(ns[k:]))
        if self.err(.02) and len(ns) > 1: d['params'][0]['e'], d['params'][-1]['e'] = [lit(1)], []
        if self.err(.02) and ns: d['params'].append(dict(n=ns[0], e=[lit(1)]))
        if vis and r.random() < .55:
            q, p = r.choice(vis)
            d['parent'] = dict(q=q, n=self.P[p - 1]['name'])
            i = self.types[p]
            info.update(par=p, consts=set(i['consts']), prop=i['prop'], kids=i['kids'])
            self.open.append(t)
            d['args'] = self.args(t, p, t)
            self.open.remove(t)
        elif self.err(.01): d['args'] = [dict(n='', e=[lit(1)])]
        self.types[t] = info
        self.body(t, base, info, depth, False)
        if base == 'group' and not info['kids']:      # groups must not be empty, and derived types are instantiated on their own
            self.new(name=self.name('g'), outer=t, parent=('', 'config'))
            info['kids'] += 1
        return t
    def inst(self, outer, base, depth):
        r = self.r
        i = self.new(name=self.name(r.choice(['x', 'y', 'a_', 'F'])), outer=outer, parent=('', base))
        d = self.P[i - 1]
        vis = self.visible_types(outer, base)
        info = dict(base=base, par=0, consts=set(), prop=False, kids=0)
        if vis and r.random() < .8:
            q, p = r.choice(vis)
            d['parent'] = dict(q=q, n=self.P[p - 1]['name'])
            info.update({k: v for k, v in self.types[p].items() if k != 'base'})
            d['args'] = self.args(i, p, outer)
        elif self.err(.02): d['args'] = [dict(n='', e=[lit(1)])]
        if self.err(.02): d['parent'] = dict(q=r.choice(['', 'lib']), n='Nope')
        if base == 'block' and r.random() < .3: d['cnt'] = self.expr(outer)
        # arguments and counts are not meant to depend on names defined in the body
        self.body(i, base, info, depth, True, {t['n'] for a in d['args'] for t in a['e']} | {t['n'] for t in d['cnt']})
        if base in ('group', 'proc') and not info['kids']:
            self.new(name=self.name('g'), outer=i, parent=('', 'config' if base == 'group' else 'param'))
        return i
    def case(self):
        r = self.r
        self.types, self.open = {}, []
        libs = r.choice([[], [], ['lib'], ['lib', 'hw']])
        files = []
        for k, l in enumerate(libs):
            for m in range(r.choice([1, 1, 2])):
                f = self.new(kind='file', outer=0, pkg=l, parent=('', ''))
                files.append(f)
                self.P[f - 1]['imports'] = [dict(n=x if r.random() < .6 else 'al', pkg=x) for x in libs[:k] if r.random() < .5]
        main = self.new(kind='file', outer=0, pkg='main', parent=('', ''))
        self.P[main - 1]['imports'] = [dict(n=x if r.random() < .6 else 'im%d' % k, pkg=x) for k, x in enumerate(libs) if r.random() < .85]
        # constants of a package are unique
        for f in files + [main]:
            pkg = self.P[f - 1]['pkg']
            have = {c['n'] for g in self.P if g['kind'] == 'file' and g['pkg'] == pkg and g is not self.P[f - 1] for c in g['consts']}
            self.consts(f, have)
        for f in files + [main]:
            for _ in range(r.choice([0, 1, 2]) if f != main else r.choice([1, 2, 3, 4])):
                self.type(f, r.choice(['config', 'config', 'status', 'block', 'block', 'mask', 'group', 'proc']), 2)
        m = self.new(name='Main', outer=main, parent=('', 'bus'))
        info = dict(base='bus', par=0, consts=set(), prop=False, kids=0)
        self.body(m, 'bus', info, 3, True)
        return prune(self.P, m)

def prune(P, main):
    """drops types which are never used"""
    byname = {}
    def kids(i): return [k + 1 for k, d in enumerate(P) if d['outer'] == i]
    keep, todo = set(), [main] + [k + 1 for k, d in enumerate(P) if d['kind'] == 'file']
    use = [main]
    names = set()
    # by name, which keeps homonyms as well
    done = set()
    while use:
        i = use.pop()
        if i in done: continue
        done.add(i)
        n = P[i - 1]['parent']['n']
        for k, d in enumerate(P):
            if d['kind'] == 'type' and d['name'] == n: use.append(k + 1)
            if d['outer'] == i and d['kind'] == 'inst': use.append(k + 1)
    keep = {k + 1 for k, d in enumerate(P) if d['kind'] == 'file'} | done
    # the enclosing nodes of kept nodes are kept
    for i in list(keep):
        while P[i - 1]['outer']:
            i = P[i - 1]['outer']; keep.add(i)
    order = sorted(keep)
    new = {i: k + 1 for k, i in enumerate(order)}
    out = [dict(P[i - 1], outer=new.get(P[i - 1]['outer'], 0)) for i in order]
    return out, new[main]

# ------------------------------------------------------------------ rendering
def rex(e): return ' + '.join(('%s.%s' % (t['q'], t['n']) if t['q'] else t['n']) if t['n'] else str(t['v']) for t in e)
def rlist(a, f): return '(%s)' % ', '.join(f(x) for x in a)
def render(P, r=None):
    """-> {path: text}"""
    kids = lambda i: [k + 1 for k, d in enumerate(P) if d['outer'] == i]
    def head(d):
        par = '%s.%s' % (d['parent']['q'], d['parent']['n']) if d['parent']['q'] else d['parent']['n']
        args = rlist(d['args'], lambda a: ('%s = ' % a['n'] if a['n'] else '') + rex(a['e'])) if d['args'] else ''
        if d['kind'] == 'type':
            ps = rlist(d['params'], lambda p: p['n'] + (' = ' + rex(p['e']) if p['e'] else '')) if d['params'] else ''
            return 'type %s%s %s%s' % (d['name'], ps, par, args)
        cnt = '[%s] ' % rex(d['cnt']) if d['cnt'] else ''
        return '%s %s%s%s' % (d['name'], cnt, par, args)
    def body(i, ind):
        d = P[i - 1]
        p = '  ' * ind
        o = []
        for x in d['consts']: o.append(['%sconst %s = %s' % (p, x['n'], rex(x['e']))])
        for x in d['props']: o.append(['%s%s = %s' % (p, x['n'], rex(x['e']))])
        for k in kids(i): o.append([p + head(P[k - 1])] + body(k, ind + 1))
        if r: r.shuffle(o)
        return [x for l in o for x in l]
    files, n = {}, {}
    for i, d in enumerate(P):
        if d['kind'] != 'file': continue
        n[d['pkg']] = n.get(d['pkg'], 0) + 1
        path = 'bus.fbd' if d['pkg'] == 'main' else 'fbd-%s/f%d.fbd' % (d['pkg'], n[d['pkg']])
        imps = ['import %s"%s"' % (x['n'] + ' ' if x['n'] != x['pkg'] else '', x['pkg']) for x in d['imports']]
        files[path] = '\n'.join(imps + body(i + 1, 0)) + '\n'
    return files

LISTS = ['Blackboxes', 'Configs', 'Groups', 'Irqs', 'Masks', 'Params', 'Procs', 'Returns', 'Statics', 'Statuses', 'Streams', 'Subblocks']
def record(j, path='Main', out=None):
    """functionalities of the output by path"""
    out = {} if out is None else out
    cs = []
    for n, v in ((j.get('Consts') or {}).get('Ints') or {}).items(): cs.append(dict(n=n, v=int(v)))
    w = j.get('Masters') if 'Masters' in j else j.get('Width')
    out[path] = dict(w=w if isinstance(w, int) else -1, arr=1 if j.get('IsArray') else 0, cnt=j.get('Count', 1), consts=sorted(cs, key=lambda c: c['n']))
    for l in LISTS:
        for k in j.get(l) or []:
            record(k, path + '/' + k['Name'], out)
    return out
