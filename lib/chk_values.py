"""C10: *-value properties and ranges (spec/BitStr.tla)."""
import json
import vf
from chk_expr import big

MC = '''SPECIFICATION Spec
CONSTANTS MAXW = %d
EMIT = %s
INVARIANTS FitsOK WidthOK ValueOK BitsOK RangeOK Emit
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
'''
def model(maxw, emit):
    t = vf.tlc('BitStrMC', MC % (maxw, str(emit).upper()))
    if t.violated:
        raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-2000:]))
    return t

PROPS = [('config', 'init-value', 'Configs', 'InitValue'), ('config', 'reset-value', 'Configs', 'ResetValue'), ('config', 'read-value', 'Configs', 'ReadValue'),
         ('mask', 'init-value', 'Masks', 'InitValue'), ('mask', 'reset-value', 'Masks', 'ResetValue'), ('mask', 'read-value', 'Masks', 'ReadValue'),
         ('static', 'init-value', 'Statics', 'InitValue'), ('static', 'reset-value', 'Statics', 'ResetValue'), ('static', 'read-value', 'Statics', 'ReadValue'),
         ('status', 'read-value', 'Statuses', 'ReadValue'),
         ('irq', 'enable-init-value', 'Irqs', 'EnableInitValue'), ('irq', 'enable-reset-value', 'Irqs', 'EnableResetValue')]

def bits(s):
    """recorded bit string -> [p, ds]"""
    if len(s) < 3 or s[1] != '"' or s[-1] != '"':
        return dict(p=s, ds=[])
    return dict(p=s[0], ds=list(s[2:-1]))

def itext(x, r):
    if x == -2 ** 63:
        return '-9223372036854775807 - 1'
    a = abs(x)
    s = r.choice(['%d', '%d', '0x%x', '0x%X', '0o%o']) % a if r else '%d' % a
    if r and r.random() < .1: s = '0b' + bin(a)[2:]
    return ('-' if x < 0 else '') + s

def value_case(tag, w, v, prop, how, bw):
    """how: the width comes from the width property, the bus, a range or a type"""
    kind, name, lst, key = prop
    extra = []
    if kind == 'static' and name != 'init-value': extra = ['init-value = 0']
    if kind == 'irq': extra = ['add-enable = true']
    body = ['%s = %s' % (name, v['text'])] + extra
    pre = []
    decl = 'x ' + kind
    if kind != 'irq':
        if how == 'width': body.insert(len(tag) % 2, 'width = %d' % w)
        elif how == 'type':
            pre = ['type T_t %s' % kind, '  width = %d' % w]
            decl = 'x T_t'
        elif how == 'range':
            body.append('range = 0 : %d' % (2 ** (w - 1)))
        elif how == 'late':       # the value is set in the type, before the width is known
            pre = ['type T_t %s' % kind] + ['  ' + b for b in body]
            decl, body = 'x T_t', ['width = %d' % w]
    text = '\n'.join(pre + ['Main bus', '  width = %d' % bw, '  ' + decl] + ['    ' + b for b in body]) + '\n'
    return tag, text, dict(ev=tag, op='value', w=w, v={k: x for k, x in v.items() if k != 'text'}, text='%s %s' % (kind, body)), (lst, key)

def cases(c, r):
    out = []
    t = model(5 if c.quick else 7, True)
    c.add_tlc(t, 'emitted values')
    xs = sorted((l['w'], l['x']) for l in t.lines)
    c.count('behaviours_of_the_specification', len(xs))
    n = 0
    for w, x in xs:
        for p in ([r.choice(PROPS)] if c.quick else PROPS):
            if p[0] == 'irq':
                if w != 1: p = PROPS[n % 10]
            v = dict(t='int', v=big(x), text=itext(x, r))
            hows = ['width', 'type', 'bus', 'late'] + (['range'] if p[0] == 'config' else [])
            how = 'width' if p[0] == 'irq' else r.choice(hows)
            out.append(value_case('s%d' % n, w, v, p, how, w if how == 'bus' else 32)); n += 1
    for w, x in xs:
        if w == 1:
            for p in PROPS[-2:]:
                out.append(value_case('i%d' % n, 1, dict(t='int', v=big(x), text=itext(x, r)), p, 'width', 32)); n += 1
    for k in range(900 if c.quick else 12000):
        p = r.choice(PROPS[:10])
        w = r.choice([r.randrange(1, 101), r.randrange(1, 65), r.choice([1, 31, 32, 33, 36, 62, 63, 64, 65, 96])])
        if p[0] == 'irq': w = 1
        bw = r.choice([8, 32, 64])
        how = r.choice(['width', 'type', 'late', 'bus'] + (['range'] if p[0] == 'config' and w < 63 else []))
        if how == 'bus': bw = w
        if r.random() < .7:
            x = r.choice([2 ** w, 2 ** w - 1, -2 ** (w - 1), -2 ** (w - 1) - 1, 2 ** (w - 1), -1, 0, 1, 2 ** w + 1, r.randrange(2 ** w), -r.randrange(2 ** (w - 1) + 1),
                          -2 ** w, -2 ** w + 1, r.randrange(2 ** min(w, 62)), -r.randrange(2 ** min(w, 62))])
            if not -2 ** 63 <= x < 2 ** 63: x = r.choice([2 ** 63 - 1, -2 ** 63, 2 ** 62, -2 ** 62, r.getrandbits(62)])
            v = dict(t='int', v=big(x), text=itext(x, r))
        else:
            pf = r.choice('bBoOxX')
            per = dict(b=1, o=3, x=4)[pf.lower()]
            m = max(1, w // per + r.choice([-1, 0, 0, 0, 1, -2]))
            al = dict(b='01', o='01234567', x='0123456789abcdefABCDEF')[pf.lower()] + ('' if r.random() < .6 else '-uUwWxXzZ')
            ds = [r.choice(al) for _ in range(m)]
            v = dict(t='bits', p=pf.lower(), ds=ds, text='%s"%s"' % (pf, ''.join(ds)))
        out.append(value_case('v%d' % k, w, v, p, how, bw))
    for k in range(500 if c.quick else 6000):
        def bound():
            return r.choice([r.randrange(1, 40), r.randrange(1, 40), 2 ** r.randrange(1, 63) - 1, 2 ** r.randrange(0, 62), 2 ** r.randrange(1, 62) + 1, r.getrandbits(r.randrange(1, 63)) + 1])
        form = r.choice(['int', 'range', 'list'])
        rs = []
        for _ in range(1 if form != 'list' else r.choice([1, 2, 3, 5])):
            a, b = sorted([bound(), bound()])
            if r.random() < .2: a = b
            rs.append((a, b))
        if form == 'int': rs = [(0, rs[0][1])]
        tx = str(rs[0][1]) if form == 'int' else '%d:%d' % rs[0] if form == 'range' else '[%s]' % ', '.join('%d : %d' % x for x in rs)
        kind = r.choice(['config', 'param'])
        if kind == 'config':
            text = 'Main bus\n  width = 64\n  x config\n    range = %s\n' % tx
        else:
            text = 'Main bus\n  width = 64\n  p proc\n    x param\n      range = %s\n' % tx
        out.append(('g%d' % k, text, dict(ev='g%d' % k, op='range', rs=[dict(l=big(a), r=big(b)) for a, b in rs], text=tx, kind=kind), None))
    return out

def record(x):
    tag, text, e, where = x
    res = vf.run(text, args=['-main', 'Main'])
    e['rc'] = -1 if res.timeout else res.rc
    if e['op'] == 'value':
        e['got'] = dict(p='', ds=[])
        if res.ok:
            f = [y for y in res.json()[where[0]] if y['Name'] == 'x']
            e['got'] = bits(f[0][where[1]]) if f else dict(p='missing', ds=[])
    else:
        kind = e.pop('kind')
        e['got'], e['width'] = [], -1
        if res.ok:
            j = res.json()
            f = [y for y in (j['Configs'] if kind == 'config' else j['Procs'][0]['Params']) if y['Name'] == 'x']
            if f:
                e['width'] = f[0]['Width']
                g = f[0]['Range']
                e['got'] = [dict(l=big(y['Start']), r=big(y['End'])) for y in (g if isinstance(g, list) else [g] if g else [])]
    return tag, text, e, res

def check(c):
    r = vf.rng('C10')
    vf.build()
    c.add_tlc(model(9 if c.quick else 12, False), 'all values around small widths')
    texts, events = {}, []
    for tag, text, e, res in vf.pmap(record, cases(c, r)):
        texts[tag] = text
        events.append(e)
        c.count('accepted' if res.ok else 'rejected')
    t = vf.tlc_shards('BitStrTrace', TR, 'trace.ndjson', events)
    c.cov['trace_states'] = t.distinct
    c.validated(len(events))
    for v in t.lines:
        c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]), v['what'], dict(text=texts[v['ev']], rule=v['rule'], what=v['what']))
    c.sample(dict(description=texts[events[0]['ev']], recorded=events[0]))
    c.assumptions.append('widths are at least 1, ranges have a positive greatest value')
