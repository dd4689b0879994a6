"""C08 and C11: properties over chains of types and rules of validity (spec/Inst.tla)."""
import json
import vf, instgen
from instgen import vint, vstr

MC = '''SPECIFICATION Spec
CONSTANTS BASES = {%s}
MAXLEV = %d
MAXSTEPS = %d
EMIT = %s
WIDE = %s
INVARIANTS C11 C08 Defaults Emit
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION Spec
CONSTANT PROP = "%s"
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
'''
def model(bases, lev, steps, emit=False, wide=False, timeout=800):
    t = vf.tlc('InstMC', MC % (','.join('"%s"' % b for b in bases), lev, steps, str(emit).upper(), str(wide).upper()), workers=8, timeout=timeout, heap='8g')
    if t.violated:
        raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-2000:]))
    return t

def from_history(base, h):
    """a behaviour of InstMC -> description"""
    nlev = max([x['lev'] for x in h] + [1])
    types, parent = [], base
    kinds = {}
    for l in range(1, nlev + 1):
        d = dict(name='T_%d' % l if l < nlev else ('Main' if base == 'bus' else 'x'), parent=parent, cnt=None, props=[], kids=[])
        for x in h:
            if x['lev'] != l: continue
            if x['k'] == 'prop':
                d['props'].append((x['p']['name'], x['p']['v']))
            else:
                k = x['p']
                kid = dict(name=k['name'], parent=k['base'], cnt=None, props=[], kids=[])
                if k['base'] == 'irq': kid['props'] = [('out-trigger', vstr(k['out']))]
                d['kids'].append(kid)
        parent = d['name']
        if l < nlev: types.append(d)
    bw = 32
    if base == 'bus':
        for t in types + [d]:
            for n, v in t['props']:
                if n == 'width' and v['t'] == 'int' and instgen.num(v['v']) > 0: bw = instgen.num(v['v'])
        return dict(types=types, top=[], main=d, bw=bw)
    main = dict(name='Main', parent='bus', cnt=None, props=[], kids=[d])
    if base in ('param', 'return'):
        main['kids'] = [dict(name='pp', parent='proc', cnt=None, props=[], kids=[d])]
    return dict(types=types, top=[], main=main, bw=bw)

def run_cases(c, cases):
    def one(x):
        tag, case, r = x
        text = instgen.render(case, r)
        return tag, case, text, vf.run(text, args=['-main', 'Main'])
    texts, events = {}, []
    for tag, case, text, res in vf.pmap(one, cases):
        texts[tag] = text
        j = res.json() if res.ok else None
        events.append(dict(ev=tag, rc=-1 if res.timeout else res.rc, json=1 if res.out.strip() else 0, msg=1 if res.err.strip() else 0, stderr=res.err[:300],
                           bw=case['bw'], nodes=instgen.flatten(case, j)))
        c.count('accepted' if res.ok else 'rejected')
    t = vf.tlc_shards('InstTrace', TR % c.prop, 'trace.ndjson', events)
    c.cov['trace_states'] = c.cov.get('trace_states', 0) + t.distinct
    c.validated(len(events))
    c.count('functionalities', sum(len(e['nodes']) for e in events))
    seen = set()
    for v in t.lines:
        k = (v['ev'], v['rule'])
        if k not in seen:
            seen.add(k)
            c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]), v['what'], dict(text=texts[v['ev']], rule=v['rule'], what=v['what']))
    c.sample(dict(description=texts[events[-1]['ev']], rc=events[-1]['rc']))

BASES = ['blackbox', 'block', 'bus', 'config', 'group', 'irq', 'mask', 'param', 'proc', 'return', 'static', 'status', 'stream']
def check(c):
    r = vf.rng(c.prop)
    vf.build()
    c.add_tlc(model(BASES, 3, 3 if c.quick else 5, timeout=3000), 'all chains')
    t = model(BASES, 2, 3, True)
    c.add_tlc(t, 'emitted chains')
    hs = sorted((l for l in t.lines if l['h']), key=json.dumps)
    tw = model(BASES, 1, 1, True, True)
    c.add_tlc(tw, 'all values of single properties')
    hs += sorted((l for l in tw.lines if l['h'] and l['h'][0]['k'] == 'prop' and (c.prop == 'C11' or l['err'] == '')), key=json.dumps)
    c.count('behaviours_of_the_specification', len(hs))
    # always: single steps and the same property set twice, on one level or two; of the others a sample by base type and length
    names = lambda l: [x['p']['name'] for x in l['h']]
    always = [l for l in hs if len(l['h']) == 1 or (len(l['h']) == 2 and len(set(names(l))) == 1)]
    hs = [l for l in hs if not (len(l['h']) == 1 or (len(l['h']) == 2 and len(set(names(l))) == 1))]
    lim = 1300 if c.quick else 20000
    if len(hs) > lim:
        by = {}
        for l in hs: by.setdefault((l['base'], len(l['h'])), []).append(l)
        per = lim // len(by) + 1
        hs = [x for k in sorted(by) for x in (by[k] if len(by[k]) <= per else r.sample(by[k], per))]
    cases = [('s%d' % n, from_history(l['base'], l['h']), None) for n, l in enumerate(always + hs)]
    c.count('behaviours_replayed', len(cases))
    one = lambda n, p, props: dict(name=n, parent=p, cnt=None, props=props, kids=[])
    main = one('Main', 'bus', [])
    main['kids'] = [one('x', 'S2', [('init-value', vint(0))])]
    cases.append(('derived', dict(types=[one('S', 'static', []), one('S2', 'S', [])], top=[], main=main, bw=32), None))
    for n in range(900 if c.quick else 15000):
        rr = vf.rng('Inst/%d' % n)
        cases.append(('r%d' % n, instgen.Gen(rr, rr.choice([0, 0, 1, 1, 2])).case(), rr))
    run_cases(c, cases)
    if c.prop == 'C11':
        # the rules over whole bodies: every pair of kinds, in one body or in two bodies of a chain (spec/Elab.tla)
        import bigprog, chk_fidelity
        chk_fidelity.validate(c, list(bigprog.pairs()))
