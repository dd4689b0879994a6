"""C09: parameters, arguments and scopes (spec/Scope.tla)."""
import json
import vf, scopegen

MC = 'SPECIFICATION Spec\nCONSTANTS WIDE = %s\nEMIT = %s\nINVARIANTS C09 Emit\nCHECK_DEADLOCK FALSE\n'
TR = 'SPECIFICATION Spec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n'

def check(c):
    r = vf.rng('C09')
    vf.build()
    t = vf.tlc('ScopeMC', MC % ('FALSE', 'TRUE'), workers=8, timeout=800, heap='8g')
    c.add_tlc(t, 'template programs')
    if t.violated:
        raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-3000:]))
    if not c.quick:
        tw = vf.tlc('ScopeMC', MC % ('TRUE', 'FALSE'), workers=8, timeout=3400, heap='16g')
        c.add_tlc(tw, 'template programs, wide')
        if tw.violated:
            raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (tw.violated, tw.out[-3000:]))
    ps = sorted((l['p'] for l in t.lines), key=json.dumps)
    c.count('programs_of_the_specification', len(ps))
    cases = [('s%d' % n, p, 7, None) for n, p in enumerate(r.sample(ps, min(len(ps), 700 if c.quick else 8000)))]
    for n in range(2000 if c.quick else 20000):
        rr = vf.rng('Scope/%d' % n)
        p, m = scopegen.Gen(rr, rr.choice([0, 0, 0, 0, 1, 1, 1, 2])).case()
        cases.append(('r%d' % n, p, m, rr))
    def one(x):
        tag, p, m, rr = x
        files = scopegen.render(p, rr)
        return tag, p, m, files, vf.run(files=files, args=['-main', 'Main'])
    texts, events = {}, []
    for tag, p, m, files, res in vf.pmap(one, cases):
        texts[tag] = files
        recs = {}
        if res.ok:
            recs = scopegen.record(res.json())
            c.count('functionalities', len(recs))
        events.append(dict(ev=tag, rc=-1 if res.timeout else res.rc, stderr=res.err[:300], p=p, main=m, recs=recs or {'': 0}))
        c.count('accepted' if res.ok else 'rejected')
    tr = vf.tlc_shards('ScopeTrace', TR, 'trace.ndjson', events)
    if tr.violated:
        raise vf.Inconclusive('trace not consumed')
    c.cov['trace_states'] = tr.distinct
    c.validated(len(events))
    seen = set()
    for v in tr.lines:
        k = (v['ev'], v['rule'])
        if k not in seen:
            seen.add(k)
            c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]), v['what'], dict(files=texts[v['ev']], rule=v['rule'], what=v['what']))
    c.sample(dict(files=texts[events[-1]['ev']], rc=events[-1]['rc']))
