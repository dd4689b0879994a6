"""Descriptions as plain data, their rendering to .fbd text, and recordings of the compiler's output.

A functionality is dict(name, kind, w, n, arr, atomic, en, expl, delay, ps, rs), as in spec/Layout.tla;
a block is dict(name, cnt (None: not an array), align (None: unset), fs, subs)."""

ACS = [('t', 'Type'), ('rc', 'RegCount'), ('rw', 'RegWidth'), ('n', 'ItemCount'), ('iw', 'ItemWidth'), ('sa', 'StartAddr'),
       ('ea', 'EndAddr'), ('sb', 'StartBit'), ('eb', 'EndBit'), ('srw', 'StartRegWidth'), ('erw', 'EndRegWidth')]
LISTS = dict(proc='Procs', stream='Streams', config='Configs', mask='Masks', static='Statics', status='Statuses', irq='Irqs')

def F(kind, name='', **kw):
    f = dict(name=name, kind=kind, w=1, n=1, arr=False, atomic=True, en=False, expl=False, delay=False, ps=[], rs=[])
    f.update(kw)
    return f

def item(w, n=1, arr=False, name=''):
    return dict(name=name, w=w, n=n, arr=arr)

def arr(f):
    return '[%d]' % f['n'] if f['arr'] else ''

def render_f(f, ind):
    p = '  ' * ind
    o = ['%s%s %s%s' % (p, f['name'], arr(f), f['kind'])]
    q = p + '  '
    k = f['kind']
    if k in ('proc', 'stream'):
        if f['delay']:
            o.append(q + 'delay = 1 us')
        for x, kk in [(x, 'param') for x in f['ps']] + [(x, 'return') for x in f['rs']]:
            o.append('%s%s %s%s; width = %d' % (q, x['name'], arr(x), kk, x['w']))
    elif k == 'irq':
        o.append(q + 'clear = "%s"' % ('Explicit' if f['expl'] else 'On Read'))
        if f['en']:
            o.append(q + 'add-enable = true')
    else:
        o.append(q + 'width = %d' % f['w'])
        if k in ('config', 'status', 'mask') and not (k == 'mask' and f['atomic']):
            o.append(q + 'atomic = %s' % str(f['atomic']).lower())
        if k == 'static':
            o.append(q + 'init-value = 0')
    return o

def render_block(b, ind):
    p = '  ' * ind
    o = ['%s%s %sblock' % (p, b['name'], '[%d]' % b['cnt'] if b.get('cnt') is not None else '')]
    return o + render_body(b, ind + 1)

def render_body(b, ind):
    p = '  ' * ind
    o = []
    if b.get('align'):
        o.append('%salign = %d' % (p, b['align']))
    for x in b.get('extra', []):
        o.append(p + x)
    for f in b['fs']:
        o += render_f(f, ind)
    for s in b['subs']:
        o += render_block(s, ind)
    return o

def render_main(b, width):
    o = ['main bus'] + ['  width = %d' % width] + render_body(b, 1)
    return '\n'.join(o) + '\n'

# ------------------------------------------------------------------ recordings
NOACS = {k: ('' if k == 't' else 0) for k, _ in ACS}
def acs(a):
    return {k: a[j] for k, j in ACS}
def num(x):
    return -1 if x is None else x

def place(f, j):
    """The recorded placement of functionality f (j: its JSON object)."""
    p = dict(acs=NOACS, ena=NOACS, clr=-1, call=-1, exit=-1, stb=-1, ps=[], rs=[])
    if f['kind'] in ('proc', 'stream'):
        p['ps'] = [acs(x['Access']) for x in j['Params'] or []]
        p['rs'] = [acs(x['Access']) for x in j['Returns'] or []]
        if f['kind'] == 'proc':
            p['call'], p['exit'] = num(j['CallAddr']), num(j['ExitAddr'])
        else:
            p['stb'] = num(j['StbAddr'])
    else:
        p['acs'] = acs(j['Access'])
        if f['kind'] == 'irq':
            p['ena'] = acs(j['EnableAccess'])
            p['clr'] = num(j['ClearAddr'])
    return p

def strip(f):
    g = {k: f[k] for k in ('kind', 'w', 'n', 'arr', 'atomic', 'en', 'expl', 'delay')}
    for k in ('ps', 'rs'):
        g[k] = [dict(w=x['w'], n=x['n'], arr=x['arr']) for x in f[k]]
    return g

def record(b, j):
    """[{f, p}] for the functionalities of block b found in the JSON block j, and the number missing."""
    out, miss = [], 0
    for f in b['fs']:
        c = [x for x in j[LISTS[f['kind']]] or [] if x['Name'] == f['name']]
        ok = len(c) == 1
        if ok and f['kind'] in ('proc', 'stream'):
            ok = [x['Name'] for x in c[0]['Params'] or []] == [x['name'] for x in f['ps']] and \
                 [x['Name'] for x in c[0]['Returns'] or []] == [x['name'] for x in f['rs']]
        if ok:
            out.append(dict(f=strip(f), p=place(f, c[0])))
        else:
            miss += 1
    return out, miss

def sub(j, name):
    c = [x for x in j['Subblocks'] or [] if x['Name'] == name]
    return c[0] if len(c) == 1 else None
