"""Programs which are large in one direction: wide bodies, deep nesting, long type chains, documents, lists, argument lists."""
KINDS = ['config', 'mask', 'static', 'status', 'irq', 'proc', 'stream', 'blackbox', 'block', 'group']
NEED = dict(static=['init-value = 0'], blackbox=['size = 1'], group=['m_s status'])

def doc(r, pad, n=None):
    return [pad + '# line %d%s' % (k, r.choice(['', ' of it', '; x = 1', ' "q"'])) for k in range(n or r.choice([1, 1, 2, 9, 14, 25]))]

def inst(r, pad, name, kinds=KINDS):
    k = r.choice(kinds)
    cnt = '[%d]' % r.randrange(1, 5) if k in ('config', 'static', 'status', 'block') and r.random() < .15 else ''
    ls = doc(r, pad) if r.random() < .15 else []
    ls.append('%s%s %s%s' % (pad, name, cnt, k))
    ls += [pad + '  ' + x for x in NEED.get(k, [])]
    if k in ('config', 'mask', 'static', 'status') and r.random() < .5: ls.append('%s  width = %d' % (pad, r.randrange(1, 30)))
    if k in ('proc', 'stream'):
        q = r.choice(['param', 'return'])
        for i in range(r.choice([0, 1, 2, 9, 13]) if r.random() < .3 else r.choice([1, 2])): ls.append('%s  i%d %s; width = %d' % (pad, i, q, r.randrange(1, 40)))
    return ls

def wide(r, wrong):
    n = r.randint(14, 26)
    kinds = r.choice([KINDS, [r.choice(KINDS[:-2])], KINDS[:4]])
    items = []
    for i in range(n):
        if r.random() < .25: items.append(['  const K%d = %d' % (i, r.randrange(99))])
        else: items.append(inst(r, '  ', 'n%d' % i, kinds))
    if wrong:
        i, j = sorted(r.sample(range(n), 2))
        w = r.choice(['same', 'const', 'prop', 'kind', 'value'])
        name = lambda x: next(l for l in x if not l.lstrip().startswith('#')).split()[0 if not x[0].lstrip().startswith('const') else 1]
        if w == 'same': items[j] = ['  %s status' % name(items[i])]
        elif w == 'const': items[j] = ['  const %s = 1' % name(items[i])]
        elif w == 'prop': items[j] = ['  nm config', '    width = 3', '    atomic = true', '    width = 4']
        elif w == 'kind': items[j] = ['  nm param']
        else: items[j] = ['  nm config', '    width = 9', '    init-value = 512']
    return ['Main bus', '  width = 32'] + [l for x in items for l in x]

def deep(r, wrong):
    d = r.randint(5, 9)
    ls, cs = ['Main bus', '  width = 16'], []
    for i in range(d):
        pad = '  ' * (i + 1)
        if r.random() < .6:
            ls.append('%sconst D%d = %s' % (pad, i, r.choice(cs) + ' + 1' if cs and r.random() < .7 else str(r.randrange(1, 4))))
            cs.append('D%d' % i)
        if r.random() < .3: ls += doc(r, pad)
        if r.random() < .4: ls += ['%ss%d status' % (pad, i)] + (['%s  width = %s' % (pad, r.choice(cs))] if cs else [])
        ls.append('%sb%d %sblock' % (pad, i, r.choice(['', '', '[2]'])))
    pad = '  ' * (d + 1)
    ls += [pad + 'last config', pad + '  width = ' + (r.choice(cs) if cs else '3')]
    if wrong: ls.append(pad + r.choice(['last config', '  const last = 1', '  clear = "Explicit"', '  width = 3', 'x return', 'const last = 2']))
    return ls

def chain(r, wrong):
    n = r.randint(4, 8)
    base = r.choice(['config', 'block', 'mask', 'status', 'proc', 'group'])
    props = dict(config=['width = 7', 'atomic = false', 'init-value = 5', 'read-value = 3', 'reset-value = 1'], mask=['width = 7', 'atomic = false', 'init-value = 5', 'read-value = 3', 'reset-value = 1'],
                 status=['width = 7', 'atomic = false', 'read-value = 1'], block=['masters = 2', 'align = 8'], proc=['delay = 5 ns'], group=['virtual = true'])[base]
    child = dict(block=['status', 'config', 'static', 'proc', 'block'], proc=['param', 'return'], group=['status']).get(base, [])
    where = {}
    for p in props:
        if r.random() < .7: where.setdefault(r.randrange(n + 1), []).append(p)
    kids = {i: 'k%d %s' % (i, r.choice(child)) for i in range(n + 1) if child and r.random() < .7}
    if base == 'group' and 0 not in kids: kids[0] = 'k0 status'
    consts = {i: 'const C%d = %s' % (i, r.randrange(9)) for i in range(n + 1) if base in ('block', 'group') and r.random() < .3}
    if wrong:
        if r.random() < .5 or not kids:
            i, j = sorted(r.sample(range(n + 1), 2))
            p = r.choice(props)
            for q in where.values():
                if p in q: q.remove(p)
            where.setdefault(i, []).append(p); where.setdefault(j, []).append(p)
        else:
            i = r.choice(sorted(kids))
            kids[r.choice([k for k in range(n + 1) if k != i])] = kids[i]
    order, out = list(range(n)), []
    r.shuffle(order)
    def body(i):
        b = ['  ' + p for p in where.get(i, [])] + (['  ' + consts[i]] if i in consts else [])
        if i in kids: b += ['  ' + kids[i]] + (['    init-value = 0'] if kids[i].endswith('static') else [])
        return b
    for i in order: out += ['type T%d_t %s' % (i, 'T%d_t' % (i - 1) if i else base)] + body(i)
    use = ['  x T%d_t' % (n - 1)] + ['  ' + l for l in body(n)]
    return out + ['Main bus', '  width = 32'] + use

def args(r, wrong):
    n = r.randint(4, 6)
    nd = r.randrange(n + 1)
    ps = ['P%d%s' % (i, ' = %d' % r.randrange(1, 9) if i >= n - nd else '') for i in range(n)]
    ls = ['type T_t(%s) block' % ', '.join(ps)]
    for i in range(n): ls += ['  s%d status' % i, '    width = P%d' % i, '  const Q%d = P%d * 2' % (i, r.randrange(n))]
    ls += ['Main bus', '  width = 32', '  const P%d = 40' % r.randrange(n)]
    for k in range(r.randint(1, 2)):
        given = r.randint(n - nd, n)
        pos = r.randint(0, given)
        a = [str(r.randrange(1, 30)) for _ in range(pos)] + ['P%d = %d' % (i, r.randrange(1, 30)) for i in r.sample(range(pos, given), given - pos)]
        if wrong and k == 0: r.choice([lambda: a.append('P0 = 1') if pos else a.append('PX = 1'), lambda: a.append('P%d = 2' % n), lambda: a.insert(0, 'P%d = 1' % (n - 1))])()
        ls.append('  b%d T_t%s' % (k, '(%s)' % ', '.join(a) if a else ''))
    return ls

def lists(r, wrong):
    """many constants of every kind in packages, buses, blocks and groups"""
    n = [0]
    def value(k):
        few = r.choice([2, 3, 12])
        return {'int': lambda: str(r.randrange(99)), 'bool': lambda: r.choice(['true', 'false']), 'float': lambda: '%d.25' % r.randrange(99), 'string': lambda: '"s %d"' % r.randrange(99),
                'ints': lambda: '[%s]' % ', '.join(str(r.randrange(100)) for _ in range(few)), 'bools': lambda: '[%s]' % ', '.join(r.choice(['true', 'false']) for _ in range(few)),
                'sum': lambda: ' + '.join(r.choice([str(r.randrange(9)), '(%d - 1)' % r.randrange(1, 9)]) for _ in range(r.choice([2, 9])))}[k]()
    def consts(pad, m=2):
        out = []
        for k in r.sample(['int', 'bool', 'float', 'string', 'ints', 'bools', 'sum'], 4):
            for _ in range(r.choice([1, m])):
                n[0] += 1
                out.append('%sconst K%d = %s' % (pad, n[0], value(k)))
        r.shuffle(out)
        return out
    ls = consts('')
    if wrong: ls.insert(r.randrange(len(ls)), r.choice(['const K%d = 3' % r.randint(1, n[0]), 'const Z = 1 + true', 'const Z = NONE + 1']))
    t = ['type T_t block'] + consts('  ', 2)
    body = consts('  ') + ['  s status', '    width = 3']
    if r.random() < .5: body += ['  g group'] + consts('    ', 2) + ['    s status']
    if r.random() < .5: body += ['  b block'] + consts('    ', 2)
    if r.random() < .5: body += ['  t T_t'] + consts('    ', 2)
    return (ls if wrong else r.choice([ls, []])) + (t if body[-1].startswith('    const') else []) + ['Main bus', '  width = 32'] + body

SHAPES = dict(wide=wide, deep=deep, chain=chain, args=args, lists=lists)
INNER = ['config', 'mask', 'static', 'status', 'irq', 'proc', 'stream', 'blackbox', 'block', 'group', 'param', 'return', 'memory', 'bus']
def declare(pad, name, k):
    if k == 'const': return ['%sconst %s = 1' % (pad, name)]
    return ['%s%s %s' % (pad, name, k)] + [pad + '  ' + x for x in NEED.get(k, [])]
def pairs():
    """small programs: one name in two bodies of a chain, and kinds next to each other in one body"""
    def use(base, bodies, array=''):
        """a chain of types: the bodies from the base type to the instance"""
        n, out = len(bodies) - 1, []
        for i, b in enumerate(bodies[:-1]): out += ['type T%d_t %s' % (i, 'T%d_t' % (i - 1) if i else base)] + ['  ' + l for l in b]
        return {'bus.fbd': '\n'.join(out + ['Main bus', '  width = 32', '  x %s%s' % (array, 'T%d_t' % (n - 1) if n else base)] + ['    ' + l for l in bodies[-1]]) + '\n'}
    blk = INNER[:10] + ['const']
    for a in blk:
        for b in blk:
            yield 'block %s/%s' % (a, b), use('block', [declare('', 'a', a), declare('', 'a', b)])
            yield 'block %s,%s' % (a, b), use('block', [declare('', 'a', a), declare('', 'b', b)])
    for a in ('block', 'group', 'const', 'proc', 'config'): yield 'block %s//%s' % (a, a), use('block', [declare('', 'a', a), [], declare('', 'a', a)])
    for base in ('proc', 'stream'):
        for a in ('param', 'return', 'const'):
            for b in ('param', 'return', 'const', 'config'):
                for n in (1, 2):
                    f = [l for i in range(n) for l in declare('', 'a%d' % i, a)]
                    yield '%s %d %s,%s' % (base, n, a, b), use(base, [f + declare('', 'b', b)])
                    yield '%s %d %s/%s' % (base, n, a, b), use(base, [f, declare('', 'a0', b)])
    for a in INNER[:7] + ['param', 'return', 'const', 'group']:
        for b in INNER[:7] + ['param', 'return', 'const', 'block']:
            for n in (1, 2):
                f = [l for i in range(n) for l in declare('', 'a%d' % i, a)]
                yield 'group %d %s,%s' % (n, a, b), use('group', [f + declare('', 'b', b)])
                if n == 1:
                    yield 'group %d %s/%s' % (n, a, b), use('group', [f, declare('', 'b', b)])
                    yield 'group %d %s/%s same' % (n, a, b), use('group', [f, declare('', 'a0', b)])

def program(r, shapes=tuple(SHAPES), wrong=0):
    return {'bus.fbd': '\n'.join(SHAPES[r.choice(shapes)](r, r.random() < wrong)) + '\n'}

def programs(n, tag, wrong):
    """n programs of each shape"""
    import vf
    return [('%s%d' % (s, k), program(vf.rng('%s/%s/%d' % (tag, s, k)), (s,), wrong)) for s in SHAPES for k in range(n)]
