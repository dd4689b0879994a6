"""C05 (and the block level part of C07): sizes and address spaces of blocks (spec/AddrSpace.tla)."""
import json
import vf, desc
from desc import F

MC = '''SPECIFICATION Spec
CONSTANTS NODES = %d
OWNS = {%s}
CNTS = {%s}
ALIGNS = {%s}
EMIT = %s
INVARIANTS C05 Cum Emit
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION Spec
CONSTANT PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
'''
def model(nodes, owns, cnts, aligns, emit=False, workers=8, timeout=800):
    j = lambda s: ','.join(map(str, s))
    t = vf.tlc('AddrSpaceMC', MC % (nodes, j(owns), j(cnts), j(aligns), str(emit).upper()), workers=workers, timeout=timeout, heap='8g')
    if t.violated:
        raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-2000:]))
    return t

def tree_to_block(t, names):
    """nodes -> block; own registers are statuses of the bus width (node 1 has the identifier as well)"""
    bs = []
    for i, x in enumerate(t):
        own = x['own'] - (1 if i == 0 else 0)
        b = dict(name='main' if i == 0 else names[i], cnt=x['cnt'] if x['arr'] else None, align=x['align'] or None,
                 fs=[F('status', 's%d' % k, w=8) for k in range(own)], subs=[])
        bs.append(b)
        if i:
            bs[x['parent'] - 1]['subs'].append(b)
    return bs[0]

def flatten(b, j, parent, t, r, miss):
    i = len(t) + 1
    s, a = j['Sizes'], j['AddrSpace']
    t.append(dict(parent=parent, own=s['Own'], cnt=1 if b['cnt'] is None else b['cnt'], align=b['align'] or 0, rank=0, name=b['name']))
    r.append(dict(cum=s['Cumulated'], aligned=s['Aligned'], start=a['Start'], end=a['End']))
    for x in b['subs']:
        jx = desc.sub(j, x['name'])
        if jx is None:
            miss.append(x['name'])
        else:
            flatten(x, jx, i, t, r, miss)

def event(tag, b, j):
    t, r, miss = [], [], []
    flatten(b, j, 0, t, r, miss)
    for rank, i in enumerate(sorted(range(len(t)), key=lambda i: t[i]['name'])):
        t[i]['rank'] = rank
    for x in t:
        del x['name']
    return dict(ev=tag, t=t, r=r), miss

def rtree(r, bw, depth, counter, aligns, name='main'):
    own = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 33])
    b = dict(name=name, cnt=None, align=None if r.random() < .7 else r.choice(aligns), fs=[], subs=[])
    for k in range(own):
        counter[0] += 1
        b['fs'].append(F('status', 'f%d' % counter[0], w=bw))
    if name == 'main':
        b['align'] = None if r.random() < .6 else r.choice(aligns)
    if depth:
        for _ in range(r.choice([0, 1, 2, 3, 4, 5])):
            counter[0] += 1
            nm = r.choice('abcXYZ') + r.choice(['', 'A', '_', 'a']) + str(counter[0])
            s = rtree(r, bw, depth - 1, counter, aligns, nm)
            s['cnt'] = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 13, 16]) if r.random() < .45 else None
            b['subs'].append(s)
    return b

def bigtree(r, bw, aligns):
    """many siblings, deep nesting or large spaces"""
    n = [0]
    how = r.choice(['siblings', 'siblings', 'deep', 'large'])
    sizes = [r.choice([1, 2, 3, 5, 8, 12]) for _ in range(3)]
    def block(name, own):
        b = dict(name=name, cnt=None, align=r.choice(aligns) if aligns and r.random() < .3 else None, fs=[], subs=[])
        if own:
            n[0] += 1
            b['fs'].append(F('status', 'f%d' % n[0], w=bw * own))
        return b
    def sub(own):
        n[0] += 1
        x = block(r.choice('abcXYZ') + r.choice(['', 'A', '_', 'a']) + str(n[0]), own)
        if r.random() < .3: x['cnt'] = r.choice([1, 2, 3, 4, 5] if how != 'large' else [17, 31, 100, 257, 1000])
        return x
    main = block('main', r.randrange(20))
    if how == 'siblings':
        for _ in range(r.randint(13, 40)): main['subs'].append(sub(r.choice(sizes)))
        for x in r.sample(main['subs'], 3): x['subs'] = [sub(r.choice(sizes)) for _ in range(r.choice([1, 2, 14]))]
    elif how == 'deep':
        x = main
        for _ in range(r.randint(4, 12)):
            x['subs'] = [sub(r.choice(sizes)) for _ in range(r.choice([1, 1, 2]))]
            for y in x['subs']: y['cnt'] = r.choice([None, None, 1, 2])
            x = r.choice(x['subs'])
    else:
        for _ in range(r.randint(1, 5)):
            x = sub(r.choice([63, 64, 65, 100, 255, 256, 257, 1000, 1023, 1025, 4096, 5000]))
            x['subs'] = [sub(r.choice([1, 60, 128, 300])) for _ in range(r.choice([0, 0, 1, 2]))]
            main['subs'].append(x)
    return main

def jobs_of(c, r, ncases, nrand):
    jobs = []
    t = model(3, [0, 1, 3], [1, 3], [0, 4], True)
    c.add_tlc(t, 'trees emitted')
    t2 = model(4, [1, 2], [1, 2], [0], True)
    c.add_tlc(t2, 'trees without align emitted')
    cases = sorted((x['t'] for x in t.lines + t2.lines), key=json.dumps)
    c.count('behaviours_of_the_specification', len(cases))
    cases = r.sample(cases, min(ncases, len(cases)))
    for n, x in enumerate(cases):
        for y in x:
            y['arr'] = y['cnt'] > 1 or r.random() < .2
        names = ['b%02d' % i for i in r.sample(range(90), len(x))]
        jobs.append(('s%d' % n, tree_to_block(x, names), 8))
    for n in range(nrand):
        bw = r.choice([8, 16, 32, 64])
        aligns = r.choice([[], [], [1, 2, 4, 8, 16, 32, 64], [4], [16]])
        b = rtree(r, bw, r.choice([1, 2, 3]), [0], aligns or [1])
        if not aligns:
            def clear(x):
                x['align'] = None
                for y in x['subs']: clear(y)
            clear(b)
        jobs.append(('r%d' % n, b, bw))
    for n in range(nrand // 3):
        bw = r.choice([8, 16, 32, 64])
        jobs.append(('g%d' % n, bigtree(r, bw, r.choice([[], [], [1, 2, 4, 8, 16, 32, 64], [4], [128]])), bw))
    return jobs

def spaces(c, r, ncases, nrand):
    """compiles trees, validates them under c.prop"""
    texts, events, trees = {}, [], {}
    def one(job):
        tag, b, bw = job
        text = desc.render_main(b, bw)
        return job, text, vf.run(text)
    for (tag, b, bw), text, res in vf.pmap(one, jobs_of(c, r, ncases, nrand)):
        texts[tag] = text
        if not res.ok:
            c.count('not_accepted')
            continue
        e, miss = event(tag, b, res.json())
        if miss:
            c.count('trees_with_missing_blocks')
            if c.prop == 'C07':
                c.violation('missing block', 'blocks %s got no address space' % miss, dict(text=text))
            continue
        events.append(e)
    if not events:
        raise vf.Inconclusive('no description was accepted')
    t = vf.tlc_shards('AddrSpaceTrace', TR % c.prop, 'trace.ndjson', events)
    c.cov['trace_states'] = c.cov.get('trace_states', 0) + t.distinct
    c.validated(len(events))
    c.count('blocks_checked', sum(len(e['t']) for e in events))
    seen = set()
    for v in t.lines:
        k = (v['ev'], v['rule'])
        if k not in seen:
            seen.add(k)
            c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]),
                        '%s: %s' % (v['rule'], json.dumps(v['what'])[:500]), dict(text=texts[v['ev']], rule=v['rule'], what=v['what']))
    c.sample(dict(description=texts[events[-1]['ev']], recorded=events[-1]))

def check(c):
    r = vf.rng(c.prop)
    vf.build()
    t = model(4, [0, 1, 3], [1, 3], [0, 4]) if c.quick else model(4, [0, 1, 2, 3], [1, 2, 3], [0, 2, 4], timeout=3000)
    c.add_tlc(t, 'all small trees')
    spaces(c, r, 700 if c.quick else 6000, 300 if c.quick else 3000)
