"""C01, C02, C03, C04, C06, C07: placement of functionalities into registers (spec/Layout.tla)."""
import json
import vf, desc
from desc import F, item

MC = '''SPECIFICATION Spec
CONSTANTS BW = %(bw)d
BASE = %(base)d
MAXF = %(maxf)d
KINDS = {%(kinds)s}
WIDTHS = {%(ws)s}
COUNTS = {%(cs)s}
EMIT = %(emit)s
INVARIANTS %(inv)s Emit
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION Spec
CONSTANT PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
'''
ALL = ['proc', 'stream', 'config', 'mask', 'static', 'status', 'irq']

def model(c, bw, base, maxf, kinds, ws, cs, emit, workers=4, timeout=800):
    t = vf.tlc('LayoutMC', MC % dict(bw=bw, base=base, maxf=maxf, kinds=','.join('"%s"' % k for k in kinds),
               ws=','.join(map(str, ws)), cs=','.join(map(str, cs)), emit=str(emit).upper(), inv=c.prop),
               workers=workers, timeout=timeout, heap='8g')
    if t.violated:
        raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-2000:]))
    return t

# ------------------------------------------------------------------ random descriptions
FOCUS = dict(C01=dict(), C02=dict(irq=5, status=4, config=4, static=3, proc=2, stream=2), C03=dict(proc=3, stream=3, status=5, config=5, static=4),
             C04=dict(proc=3, stream=3, irq=4), C06=dict(proc=10, stream=8, irq=0.3, mask=0.3, status=.5, config=.5, static=.3),
             C07=dict(status=6, irq=4, config=5, static=4))

def rwidth(r, bw, big=3):
    x = r.random()
    if x < .25: return r.randint(1, max(1, bw // 4))
    if x < .6: return r.randint(1, bw)
    if x < .7: return bw
    if x < .8: return max(1, bw + r.choice([-1, 1, -bw // 2, bw // 2, bw // 2 + 1]))
    return r.randint(1, big * bw)

def rcount(r):
    return r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 25])

def rfunc(r, kind, name, bw, full):
    f = F(kind, name)
    if kind in ('proc', 'stream'):
        def items(p, m):
            return [item(rwidth(r, bw), 1, False, '%s%s%d' % (name, p, i)) if r.random() < .65 else
                    item(rwidth(r, bw, 2), r.choice([1, 2, 3, 4, 5, 7]), True, '%s%s%d' % (name, p, i)) for i in range(r.randint(0, m))]
        if kind == 'proc':
            f['ps'], f['rs'] = items('p', 4), items('r', 3)
        elif r.random() < .5:
            f['ps'] = items('p', 5)
        else:
            f['rs'] = items('r', 5)
        f['delay'] = r.random() < .4
    elif kind == 'irq':
        f['en'], f['expl'] = r.random() < .35, r.random() < .7
    else:
        f['w'] = rwidth(r, bw)
        f['atomic'] = True if kind in ('static',) else r.random() < .6
        if kind == 'mask':
            pass
        elif r.random() < .4 and (kind == 'status' or f['w'] <= bw):
            f['arr'], f['n'] = True, rcount(r)
            if kind == 'config':
                f['atomic'] = True
    return f

def rblock(r, prop, bw, name, depth, size, counter):
    focus = FOCUS[prop]
    kinds = r.choices(ALL, [focus.get(k, 1) for k in ALL], k=r.randint(0, size))
    fs = []
    for k in kinds:
        counter[0] += 1
        fs.append(rfunc(r, k, 'f%d' % counter[0], bw, True))
    b = dict(name=name, cnt=None, align=None, fs=fs, subs=[])
    if depth:
        for i in range(r.randint(0, 3)):
            counter[0] += 1
            s = rblock(r, prop, bw, 'b%d' % counter[0], depth - 1, size, counter)
            s['cnt'] = r.randint(1, 4) if r.random() < .4 else None
            b['subs'].append(s)
    return b

def crowd(r, prop, bw):
    """many functionalities of one kind, of few sorts: their order among each other matters"""
    counter = [0]
    b = rblock(r, prop, bw, 'main', r.choice([0, 0, 1]), r.choice([0, 3, 6]), counter)
    kind = r.choices(ALL, [FOCUS[prop].get(k, 1) for k in ALL])[0]
    sorts = [rfunc(r, kind, 's', bw, True) for _ in range(r.choice([1, 2, 2, 3, 4, 6]))]
    many = []
    for _ in range(r.randint(13, 40) if kind not in ('proc', 'stream') else r.randint(13, 20)):
        counter[0] += 1
        many.append(dict(r.choice(sorts), name='f%d' % counter[0]))
        if kind in ('proc', 'stream'):
            for l in ('ps', 'rs'): many[-1][l] = [dict(x, name='f%d%s%d' % (counter[0], l, i)) for i, x in enumerate(many[-1][l])]
    if b['subs'] and r.random() < .5: b['subs'][0]['fs'] += many
    else:
        b['fs'] += many
        b['fs'] = shuffled(b['fs'], r)
    return b

def huge(r, prop, bw):
    """few functionalities of many items, params or registers"""
    b = rblock(r, prop, bw, 'main', 0, 3, [0])
    for i in range(r.choice([1, 2, 3])):
        kind = r.choices(ALL, [FOCUS[prop].get(k, 1) for k in ALL])[0]
        f = rfunc(r, kind, 'h%d' % i, bw, True)
        if kind in ('proc', 'stream'):
            for l in ('ps', 'rs'):
                if f[l] or kind == 'proc':
                    f[l] = [item(rwidth(r, bw, r.choice([1, 3, 12])), 1, False, 'h%d%s%d' % (i, l, k)) if r.random() < .8 else
                            item(rwidth(r, bw), r.choice([2, 11, 40, 130]), True, 'h%d%s%d' % (i, l, k)) for k in range(r.choice([1, 3, 13, 30]))]
        elif f.get('arr'): f['n'] = r.choice([30, 64, 65, 100, 128, 255, 257, 1000])
        elif kind != 'irq': f['w'] = r.choice([rwidth(r, bw, 12), 40 * bw + r.randint(-1, 1), 128, 256, 257])
        b['fs'].append(f)
    return b

# ------------------------------------------------------------------ running and recording
def events_of(b, j, bw, tag, main, out, c):
    xs, miss = desc.record(b, j)
    fixed = []
    if main:
        for n in ('ID', 'TIMESTAMP'):
            s = [x for x in j['Statics'] or [] if x['Name'] == n]
            if s:
                fixed.append(desc.acs(s[0]['Access']))
    subs = []
    for s in b['subs']:
        js = desc.sub(j, s['name'])
        if js is None:
            miss += 1
            continue
        subs.append(dict(cnt=s['cnt'] or 1, cum=js['Sizes']['Cumulated']))
        events_of(s, js, bw, '%s.%s' % (tag, s['name']), False, out, c)
    if main and (not fixed or (c.ts_of.get(tag) and len(fixed) < 2)):
        miss += 1
    if main and not fixed:
        fixed = [desc.NOACS]
    out.append(dict(ev=tag, bw=bw, base=1 if main else 0, own=j['Sizes']['Own'], cum=j['Sizes']['Cumulated'], missing=miss,
                    xs=xs, fixed=fixed, subs=subs))

def compile_all(c, jobs):
    """jobs: [(tag, main block, width, args)] -> events"""
    c.ts_of = {t: '-add-timestamp' in a for t, _, _, a in jobs}
    c.texts = {}
    def one(job):
        tag, b, bw, args = job
        text = desc.render_main(b, bw)
        return job, text, vf.run(text, args=args)
    events = []
    for (tag, b, bw, args), text, r in vf.pmap(one, jobs):
        c.texts[tag] = text
        if not r.ok:
            c.count('not_accepted')
            if c.prop == 'C07':
                c.violation('not laid out: %s' % (vf.panic_site(r.err) or r.err[:200],),
                            'a description of supported functionalities gets no layout: ' + (r.err or 'timeout')[:400],
                            dict(text=text, args=args, stderr=r.err[:2000], rc=r.rc))
            continue
        try:
            j = r.json()
        except ValueError:
            c.count('not_accepted')
            continue
        events_of(b, j, bw, tag, True, events, c)
    return events

def judge(c, events):
    if not events:
        raise vf.Inconclusive('no description was accepted')
    t = vf.tlc_shards('LayoutTrace', TR % c.prop, 'trace.ndjson', events)
    c.cov['trace_states'] = c.cov.get('trace_states', 0) + t.distinct
    c.validated(len(events))
    c.count('functionalities_checked', sum(len(e['xs']) for e in events))
    byid = {e['ev']: e for e in events}
    seen = set()
    for v in t.lines:
        if (v['ev'], v['rule']) in seen:
            continue
        seen.add((v['ev'], v['rule']))
        c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]),
                    '%s in block %s: %s' % (v['rule'], v['ev'], json.dumps(v['what'])),
                    dict(text=c.texts.get(v['ev'].split('.')[0]), event=byid.get(v['ev']), rule=v['rule'], what=v['what']))

def named(f, i):
    f = dict(f, name='f%d' % i)
    f['ps'] = [dict(x, name='f%dp%d' % (i, k)) for k, x in enumerate(f['ps'])]
    f['rs'] = [dict(x, name='f%dr%d' % (i, k)) for k, x in enumerate(f['rs'])]
    return f

def batches(cases, bw, r, tag):
    """Many small blocks in one file: each is a sub-block, one in sixteen is a main bus of its own."""
    jobs = []
    mains = [x for i, x in enumerate(cases) if i % 16 == 0]
    for i, fs in enumerate(mains):
        b = dict(name='main', cnt=None, align=None, fs=[named(f, k) for k, f in enumerate(shuffled(fs, r))], subs=[])
        jobs.append(('%sm%d' % (tag, i), b, bw, ['-add-timestamp'] if i % 4 == 3 else []))
    rest = [x for i, x in enumerate(cases) if i % 16]
    for i in range(0, len(rest), 50):
        subs = [dict(name='b%d' % n, cnt=None, align=None, fs=[named(f, k) for k, f in enumerate(shuffled(fs, r))], subs=[])
                for n, fs in enumerate(rest[i:i + 50])]
        jobs.append(('%sb%d' % (tag, i // 50), dict(name='main', cnt=None, align=None, fs=[], subs=subs), bw, []))
    return jobs

def shuffled(fs, r):
    """Another interleaving of the kinds, the same order within each kind."""
    kinds = [f['kind'] for f in fs]
    r.shuffle(kinds)
    q = {k: [f for f in fs if f['kind'] == k] for k in kinds}
    return [q[k].pop(0) for k in kinds]

def check(c):
    r = vf.rng(c.prop)
    vf.build()
    # 1. the design: all small blocks
    callable_only = c.prop == 'C06'
    kinds = ['proc', 'stream'] if callable_only else ['config', 'mask', 'static', 'status', 'irq']
    t = model(c, 4, 0, 2 if callable_only else 3, kinds, [1, 3, 4, 6] if not c.quick or callable_only else [1, 3, 6],
              [2, 5], False, workers=8)
    c.add_tlc(t, 'allocation of all small blocks')
    if not c.quick:
        t = model(c, 2, 1, 4 if not callable_only else 3, kinds, [1, 2, 3] if not callable_only else [1, 3], [2], False, workers=8, timeout=3000)
        c.add_tlc(t, 'allocation of all small blocks, 2 bit bus')
    # 2. spec -> code: behaviours of the machine replayed into the compiler
    jobs = []
    for i, (bw, maxf, kinds2, ws, cs, lim) in enumerate([
            (4, 1, ALL, [1, 2, 3, 4, 5, 7, 8, 9], [1, 2, 3, 4, 5], 400 if c.quick else 3000),
            (3, 2, ['config', 'mask', 'static', 'status', 'irq'], [1, 2, 3, 4], [2, 4], 500 if c.quick else 6000),
            (5, 2, ['status', 'irq', 'static', 'config', 'proc' if callable_only else 'mask'], [1, 3, 5], [3], 400 if c.quick else 4000)]):
        if callable_only and i == 1:
            kinds2 = ['proc', 'stream']; cs = [2]; ws = [1, 3, 4]
        t = model(c, bw, 0, maxf, kinds2, ws, cs, True)
        c.add_tlc(t, 'behaviours emitted %d' % i)
        cases = sorted((x['fs'] for x in t.lines), key=json.dumps)
        c.count('behaviours_of_the_specification', len(cases))
        if len(cases) > lim:
            cases = r.sample(cases, lim)
        jobs += batches(cases, bw, r, 's%d' % i)
    # 3. code -> spec: random descriptions
    n = 120 if c.quick else 1500
    for i in range(n):
        bw = r.choice([8, 16, 32, 32, 64, 2, 3, 4, 5, 7, 12, 24, 33, 36, 40, 48, 70, 100, 1])
        depth = r.choice([0, 1, 1, 2, 3]) if c.prop != 'C04' else r.choice([0, 1, 2, 3, 3, 4])
        b = rblock(r, c.prop, bw, 'main', depth, r.choice([4, 10, 20]) if depth < 3 else r.choice([2, 4]), [0])
        jobs.append(('r%d' % i, b, bw, ['-add-timestamp'] if i % 5 == 0 else []))
    for i in range(n // 2):
        bw = r.choice([8, 16, 32, 32, 64, 5, 12, 33])
        jobs.append(('c%d' % i, crowd(r, c.prop, bw), bw, ['-add-timestamp'] if i % 5 == 0 else []))
        jobs.append(('h%d' % i, huge(r, c.prop, bw), bw, []))
    events = compile_all(c, jobs)
    c.sample(dict(description=c.texts.get('r1', ''), recorded=[e for e in events if e['ev'] == 'r1'][:1]))
    judge(c, events)
    if c.prop == 'C07':      # the placement of the blocks themselves
        import chk_addrspace
        chk_addrspace.spaces(c, r, 300 if c.quick else 3000, 150 if c.quick else 1500)
    c.assumptions += ['widths and array sizes are at least 1', 'register layout depends on the description only (C14)']
