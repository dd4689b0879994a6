"""Descriptions with types, chains of types and properties: generation, rendering and flattening for spec/Inst.tla."""
from chk_expr import big

VALID = dict(blackbox=['size'], block=['align', 'masters', 'reset'], bus=['align', 'masters', 'reset', 'width'],
             config=['atomic', 'init-value', 'range', 'read-value', 'reset-value', 'width'], group=['virtual'],
             irq=['add-enable', 'clear', 'enable-init-value', 'enable-reset-value', 'in-trigger', 'out-trigger'],
             mask=['atomic', 'init-value', 'read-value', 'reset-value', 'width'], param=['range', 'width'], proc=['delay'], **{'return': ['width']},
             static=['init-value', 'read-value', 'reset-value', 'width'], status=['atomic', 'read-value', 'width'], stream=['delay'])
ALLPROPS = sorted({p for v in VALID.values() for p in v})
INNER = dict(block=['blackbox', 'block', 'config', 'group', 'irq', 'mask', 'proc', 'static', 'status', 'stream'],
             group=['config', 'irq', 'mask', 'param', 'return', 'static', 'status'], proc=['param', 'return'], stream=['param', 'return'])
INNER['bus'] = INNER['block']

def vint(n): return dict(t='int', v=big(n))
def vbool(b): return dict(t='bool', b=b)
def vstr(s): return dict(t='str', s=s)
def vbits(p, ds): return dict(t='bits', p=p, ds=list(ds))
def vtime(n, u): 
    ns = n * dict(s=10 ** 9, ms=10 ** 6, us=10 ** 3, ns=1)[u]
    return dict(t='time', sec=big(ns // 10 ** 9), ns=big(ns % 10 ** 9), text='%d %s' % (n, u))
def vrange(rs, many=False):
    return dict(t='ranges' if many else 'range', rs=[dict(l=big(a), r=big(b)) for a, b in rs],
                text='[%s]' % ', '.join('%d:%d' % x for x in rs) if many else ('%d : %d' % rs[0] if rs[0][0] >= 0 else '(%d) : %d' % rs[0]))
def num(b): return (-1 if b['neg'] else 1) * int(''.join(map(str, reversed(b['d']))) or '0')

def text(v):
    if 'text' in v: return v['text']
    t = v['t']
    if t == 'int': return str(num(v['v']))
    if t == 'bool': return str(v['b']).lower()
    if t == 'str': return '"%s"' % v['s']
    if t == 'bits': return '%s"%s"' % (v['p'], ''.join(v['ds']))
    if t == 'time':
        return '%d ns' % (num(v['sec']) * 10 ** 9 + num(v['ns']))
    if t == 'range': return '%d : %d' % (num(v['rs'][0]['l']), num(v['rs'][0]['r']))
    if t == 'ranges': return '[%s]' % ', '.join('%d:%d' % (num(x['l']), num(x['r'])) for x in v['rs'])
    raise ValueError(t)

def bare(v):
    return {k: x for k, x in v.items() if k != 'text'}

# ------------------------------------------------------------------ random values
def good(p, r, w=None):
    if p in ('atomic', 'add-enable', 'virtual'): return vbool(r.random() < .5)
    if p == 'align': return vint(2 ** r.randrange(7))
    if p == 'masters': return vint(r.choice([1, 2, 3, 10]))
    if p == 'width': return vint(w or r.choice([1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 24, 31, 32]))
    if p == 'size': return vint(r.choice([1, 2, 5, 100]))
    if p == 'clear': return vstr(r.choice(['Explicit', 'On Read']))
    if p in ('in-trigger', 'out-trigger'): return vstr(r.choice(['Edge', 'Level']))
    if p == 'reset': return vstr(r.choice(['Sync', 'Async']))
    if p == 'delay': return vtime(r.choice([0, 1, 5, 999, 1000, 12345]), r.choice(['s', 'ms', 'us', 'ns']))
    if p == 'range':
        def b(): return r.choice([1, 2, 3, 7, 8, 9, 100, 255, 256, 1000, 65535])
        x = r.random()
        if x < .3: return vint(b())
        mk = lambda: tuple(sorted([r.choice([0, 0, 1, b()]), b()]))
        if x < .7: return vrange([mk()])
        return vrange([mk() for _ in range(r.choice([1, 2, 3]))], True)
    if p.startswith('enable-'):
        return r.choice([vint(0), vint(1), vbits('b', '1'), vbits('b', '0'), vint(-1)])
    # *-value
    if r.random() < .25:
        return vbits(*r.choice([('b', '1'), ('b', '0'), ('b', '-'), ('b', 'Z')]))
    return vint(r.choice([0, 0, 1, 1, 1, -1]) if r.random() < .8 else r.choice([2, 3, 5, 17, 255, -2, -9]))

def bad(p, r):
    """a value outside of the domain of p, mostly"""
    f = dict(t='float', text='1.5')
    l = dict(t='list', text='[1, 2]')
    x = dict(int=vint(r.choice([0, 1, 3])), bool=vbool(True), str=vstr(r.choice(['foo', '', 'edge', 'explicit', 'On read', 'sync'])), bits=vbits('x', 'f'),
             time=vtime(3, 'us'), float=f, list=l, range=vrange([(1, 3)]), rneg=vrange([(-1, 3)]), rrev=vrange([(5, 3)]), rsrev=vrange([(1, 2), (7, 4)], True),
             neg=vint(-1), neg2=vint(-32), three=vint(3), six=vint(r.choice([6, 10, 12, 96])), zero=vint(0), big=vint(2 ** 20 + 7))
    dom = dict(align=['neg', 'three', 'six', 'zero', 'bool', 'str', 'float', 'range', 'time'], masters=['neg', 'zero', 'bool', 'str', 'time', 'list'],
               width=['neg', 'neg2', 'bool', 'str', 'bits', 'float', 'range', 'time', 'list'], size=['neg', 'zero', 'bool', 'str'],
               range=['neg', 'rneg', 'rrev', 'rsrev', 'list', 'bool', 'str', 'bits', 'time', 'float'], delay=['int', 'str', 'bool', 'float'],
               reset=['str', 'int', 'bool'], clear=['str', 'int', 'bool'])
    if p in dom: return x[r.choice(dom[p])]
    if p.endswith('trigger'): return x[r.choice(['str', 'int', 'bool'])]
    if p.endswith('-value'): return x[r.choice(['bool', 'str', 'time', 'float', 'range', 'list', 'big'])]
    return x[r.choice(['int', 'str', 'bits', 'time', 'float', 'list', 'range'])]

# ------------------------------------------------------------------ random descriptions
class Gen:
    def __init__(self, r, errors):
        self.r, self.errors, self.n = r, errors, 0
        self.types = []         # dict(name, parent, props, kids, base, set: properties set on the chain, kn: names used on the chain)
        self.bw = r.choice([32, 32, 8, 16, 64])
        self.atpkg = []
    def err(self, p):
        if self.errors > 0 and self.r.random() < p:
            self.errors -= 1
            return True
        return False
    def name(self, pre=None):
        self.n += 1
        return (pre or self.r.choice(['a', 'B', 'foo', 'x_', 'Reg', 'q'])) + str(self.n)
    def level(self, base, used, names, final, depth):
        """one level of a chain: properties and inner functionalities"""
        r = self.r
        props, kids = [], []
        free = [p for p in VALID[base] if p not in used]
        r.shuffle(free)
        for p in free:
            if p in ('width', 'range') and ({'width', 'range'} & set(used)): continue
            if p.startswith('enable-') and not used.get('add-enable'): continue
            if p == 'atomic' and base == 'config' and r.random() < .5: continue
            if p == 'virtual' and r.random() < .5: continue
            want = .35 if not final else .45
            if final and p == 'init-value' and base == 'static': want = 1
            if final and p == 'size': want = 1
            if r.random() >= want: continue
            if base == 'bus' and p == 'width': continue
            v = good(p, r)
            used[p] = v.get('b', True)
            if p == 'add-enable' and not v['b']: used[p] = False
            props.append((p, v))
        if self.err(.12):
            x = r.random()
            if x < .3: props.append((r.choice([p for p in ALLPROPS if p not in VALID[base]]), good('width', r)))
            elif x < .6 and VALID[base]:
                p = r.choice(VALID[base])
                props = [q for q in props if q[0] != p] + [(p, bad(p, r))]
            elif x < .85 and used and [p for p in used if p in VALID[base]]:
                p = r.choice([p for p in used if p in VALID[base]])
                props.append((p, good(p, r)))
            elif base in ('config', 'param'):
                props += [('width', vint(4)), ('range', vrange([(1, 3)]))][::r.choice([1, -1])]
        r.shuffle(props)
        if base in INNER and depth > 0:
            lst = INNER[base]
            cls = names.setdefault('', None)
            for _ in range(r.choice([0, 1, 1, 2, 3]) if not (final and not [k for k in names if k]) else r.choice([1, 1, 2])):
                if base == 'group':
                    if cls is None:
                        virt = used.get('virtual') or 'virtual' not in used
                        cls = names[''] = r.choice(['reg', 'reg', 'param', 'return', 'irq'] if used.get('virtual') is False else ['reg'])
                    k = r.choice(dict(reg=['config', 'mask', 'static', 'status'], param=['param'], irq=['irq'], **{'return': ['return']})[cls])
                elif base == 'stream':
                    if cls is None: cls = names[''] = r.choice(['param', 'return'])
                    k = cls
                else:
                    k = r.choice(lst)
                if self.err(.05): k = r.choice(sorted(VALID))
                if depth == 1 and k in ('block',): k = 'status'
                d = self.inst(k, depth - 1)
                if names and self.err(.05) and [n for n in names if n]: d['name'] = r.choice([n for n in names if n])
                names[d['name']] = k
                kids.append(d)
        return props, kids
    def typ(self, base, depth):
        """a type of the given base type (new or known)"""
        r = self.r
        c = [t for t in self.types if t['base'] == base]
        if c and r.random() < .5:
            return r.choice(c)
        par = r.choice(c) if c and r.random() < .6 else None
        used = dict(par['used']) if par else {}
        names = dict(par['names']) if par else {}
        t = dict(name=self.name('T_'), parent=par['name'] if par else base, base=base, used=used, names=names)
        # types made meanwhile cannot refer to this one
        t['props'], t['kids'] = self.level(base, used, names, False, depth)
        self.types.append(t)
        return t
    def inst(self, base, depth):
        r = self.r
        if base in INNER and depth <= 0 and base != 'group': depth = 1 if base in ('proc', 'stream') else 0
        if base == 'group': depth = 1
        if base == 'bus' or r.random() < .45:
            used, names, parent = {}, {}, base
        else:
            t = self.typ(base, depth)
            used, names, parent = dict(t['used']), dict(t['names']), t['name']
        d = dict(name=self.name(), parent=parent, cnt=None)
        d['props'], d['kids'] = self.level(base, used, names, True, depth)
        if base == 'status' and r.random() < .2: d['cnt'] = vint(r.randrange(1, 9))
        if self.err(.03): d['cnt'] = r.choice([vint(-1), vbool(True), vstr('3'), dict(t='float', text='1.5')])
        if self.err(.03): d['parent'] = r.choice(['T_nope', 'foo', 'T_'])
        if base == 'irq' and 'out-trigger' not in used and r.random() < .1: d['props'].append(('out-trigger', vstr('Edge')))
        return d
    def case(self):
        r = self.r
        used = {}
        names = {}
        base = 'bus'
        m = dict(name='Main', cnt=None)
        par = 'bus'
        wt = r.random() < .3
        if r.random() < .3:      # the bus has types
            for k in range(r.choice([1, 2])):
                t = dict(name=self.name('T_'), parent=par, base='bus', used={}, names={})
                t['props'], t['kids'] = self.level('bus', used, names, False, 2)
                if wt and k == 0 and self.bw != 32:
                    t['props'].append(('width', vint(self.bw))); used['width'] = True
                par = t['name']
                self.types.append(t)
        m['parent'] = par
        m['props'], m['kids'] = self.level('bus', used, names, True, 3)
        if self.bw != 32 and 'width' not in used:
            m['props'].insert(0, ('width', vint(self.bw)))
        top = []
        if self.types and r.random() < .3:
            t = r.choice(self.types)
            if t['base'] != 'bus':
                u = dict(t['used'])
                d = dict(name=self.name('top'), parent=t['name'], cnt=None)
                d['props'], d['kids'] = self.level(t['base'], u, dict(t['names']), True, 1)
                top.append(d)
        if self.err(.05):
            top.append(dict(name=self.name('top'), parent=r.choice(['config', 'block', 'proc', 'status']), cnt=None, props=[], kids=[]))
        return dict(types=prune(self.types, top + [m]), top=top, main=m, bw=self.bw)

def walk(ds):
    for d in ds:
        yield d
        yield from walk(d['kids'])
def prune(types, insts):
    """types which are used, directly or by other used types"""
    byname = {t['name']: t for t in types}
    seen = set()
    todo = list(walk(insts))
    while todo:
        d = todo.pop()
        t = byname.get(d['parent'])
        if t and t['name'] not in seen:
            seen.add(t['name'])
            todo.append(t)
            todo += list(walk(t['kids']))
    return [t for t in types if t['name'] in seen]

# ------------------------------------------------------------------ rendering
def body(d, ind, head, r):
    p = '  ' * ind
    o = [p + head]
    props = ['%s = %s' % (n, text(v)) for n, v in d['props']]
    if props and not d['kids'] and r and r.random() < .4:
        o[0] += '; ' + '; '.join(props)
        return o
    if props and r and r.random() < .3:
        o.append(p + '  ' + '; '.join(props))
        props = []
    lines = [[p + '  ' + x] for x in props]
    kl = [inst(k, ind + 1, r) for k in d['kids']]
    if r and r.random() < .3:         # properties among or after the inner functionalities
        for x in lines: kl.insert(r.randrange(len(kl) + 1), x)
        lines = kl
    else:
        lines += kl
    return o + [x for l in lines for x in l]
def inst(d, ind, r):
    c = '[%s]' % text(d['cnt']) if d['cnt'] is not None else ''
    return body(d, ind, '%s %s%s' % (d['name'], c + ' ' if c else '', d['parent']), r)
def render(c, r=None):
    blocks = [body(t, 0, 'type %s %s' % (t['name'], t['parent']), r) for t in c['types']] + [inst(d, 0, r) for d in c['top']] + [inst(c['main'], 0, r)]
    if r: r.shuffle(blocks)
    return '\n'.join(x for b in blocks for x in b) + '\n'

# ------------------------------------------------------------------ flattening
LISTS = dict(blackbox='Blackboxes', config='Configs', group='Groups', irq='Irqs', mask='Masks', param='Params', proc='Procs', static='Statics',
             status='Statuses', stream='Streams', block='Subblocks')
LISTS['return'] = 'Returns'
KEY = {'align': 'Align', 'masters': 'Masters', 'reset': 'Reset', 'width': 'Width', 'size': 'Size', 'atomic': 'Atomic', 'init-value': 'InitValue', 'range': 'Range',
       'read-value': 'ReadValue', 'reset-value': 'ResetValue', 'virtual': 'Virtual', 'add-enable': 'AddEnable', 'clear': 'Clear',
       'enable-init-value': 'EnableInitValue', 'enable-reset-value': 'EnableResetValue', 'in-trigger': 'InTrigger', 'out-trigger': 'OutTrigger', 'delay': 'Delay'}
def recorded(base, j):
    out = {}
    for p in VALID[base]:
        if KEY[p] not in j: continue
        v = j[KEY[p]]
        if p.endswith('-value'):
            out[p] = dict(t='none') if v == '' else vbits(v[0], v[2:-1]) if len(v) > 2 else dict(t='other')
        elif p == 'range':
            out[p] = dict(t='none') if v is None else dict(t='range', rs=[dict(l=big(x['Start']), r=big(x['End'])) for x in (v if isinstance(v, list) else [v])])
        elif p == 'delay':
            out[p] = dict(t='none') if v is None else dict(t='time', sec=big(v['S']), ns=big(v['Ns']))
        elif isinstance(v, bool): out[p] = vbool(v)
        elif isinstance(v, int): out[p] = vint(v)
        elif isinstance(v, str): out[p] = vstr(v)
        else: out[p] = dict(t='other')
    return out

def flatten(c, j):
    byname = {t['name']: t for t in c['types']}
    nodes = []
    def chain(d):
        out = [d]
        while out[0]['parent'] in byname and len(out) < 50:
            out.insert(0, byname[out[0]['parent']])
        b = out[0]['parent']
        return out, (b if b in VALID else '?')
    def add(d, up, main, abstract, j):
        ch, base = chain(d)
        levels = []
        for x in ch:
            ids = []
            for k in x['kids']:
                jk = None
                if j is not None:
                    b = chain(k)[1]
                    c_ = [y for y in (j.get(LISTS.get(b, ''), None) or []) if y['Name'] == k['name']]
                    jk = c_[0] if len(c_) == 1 else None
                ids.append(add(k, 0, 0, 0, jk))
            levels.append(dict(props=[dict(name=n, v=bare(v)) for n, v in x['props']], kids=ids))
        nodes.append(dict(name=d['name'], base=base, up=up, main=main, abstract=abstract, cnt=bare(d.get('cnt') or dict(t='none')), levels=levels,
                          found=0 if j is None else 1, props=recorded(base, j) if j is not None and base in VALID else {}))
        return len(nodes)
    for t in c['types']:
        if t['parent'] in byname or t['parent'] not in VALID:
            add(t, 2, 0, 1, None)
    for d in c['top']:
        add(d, 1, 0, 0, None)
    add(c['main'], 1, 1, 0, j)
    return nodes
