"""C13 and C19: spelling, layout and syntax (spec/Lexer.tla, spec/Grammar.tla)."""
import hashlib, json, re
import vf, textgen, scopegen, instgen, chk_fidelity, bigprog

MC = 'SPECIFICATION Spec\nCONSTANTS MODE = "%s"\nMAXC = %d\nEMIT = %s\nINVARIANTS C13 C19 Out\nCHECK_DEADLOCK FALSE\n'
MODES = dict(layout=(5, 6, 7), deep=(4, 5, 6), words=(3, 4, 5), literals=(3, 4, 5), grammar=(3, 4, 5), body=(3, 4, 5), value=(3, 4, 5), types=(3, 4, 5))
TR = 'SPECIFICATION Spec\nCONSTANT PROP = "%s"\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n'
LOC = re.compile(r'^(\S+) \+(\d+):(\d+)$', re.M)
NOLOC = {'l': 0, 'c': 0, 'line': '', 'from': 0, 'to': 0}
def location(err, name='bus.fbd'):
    """the first location of a message, with the line shown and the columns underlined"""
    ls = err.split('\n')
    for k, l in enumerate(ls):
        m = re.fullmatch(r'(\S+) \+(\d+):(\d+)', l)
        if not m: continue
        if m[1].split('/')[-1] != name: return dict(NOLOC, line=m[1])
        g = re.match(r' *(\d+) \| ', ls[k + 2]) if len(ls) > k + 3 else None
        if not g or int(g[1]) != int(m[2]): return dict(NOLOC, l=int(m[2]), c=int(m[3]))
        w = len(g[0])
        u = ls[k + 3]
        i = u.find('^')
        return {'l': int(m[2]), 'c': int(m[3]), 'line': ls[k + 2][w:], 'from': i - w + 1, 'to': i - w + u.count('^')}
    return NOLOC

def one(text, files=None):
    res = vf.run(text, files=files, args=['-main', 'Main'])
    return dict(x=list(text), rc=-1 if res.timeout else res.rc, out=hashlib.sha1(res.out.encode()).hexdigest()[:16] if res.ok else '', loc=location(res.err), stderr=res.err[:200])

def bases(n, tag):
    """(text, other files, random generator)"""
    for k in range(n):
        r = vf.rng('%s/%d' % (tag, k))
        x = k % 5
        if x == 3:
            p, _ = scopegen.Gen(r, r.choice([0, 0, 1])).case()
            files = scopegen.render(p, r)
            yield files.pop('bus.fbd'), files, r
        elif x == 4:
            case = instgen.Gen(r, r.choice([0, 0, 1])).case()
            yield instgen.render(case, r), {}, r
        else:
            yield textgen.Gen(r).text(), {}, r

def trace(c, groups):
    events, texts = [], {}
    jobs = [(g, n, t, files) for g, (ts, files) in enumerate(groups) for n, t in enumerate(ts)]
    outs = vf.pmap(lambda j: one(j[2], j[3]), jobs)
    for (g, n, t, files), o in zip(jobs, outs):
        if n == 0: events.append(dict(ev='g%d' % g, texts=[]))
        events[g]['texts'].append(o)
        texts['g%d' % g, n + 1] = (t, files)
    tr = vf.tlc_shards('LexTrace', TR % c.prop, 'trace.ndjson', events)
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'texts')
    c.validated(len(jobs))
    seen = set()
    for v in tr.lines:
        if (v['ev'], v['n'], v['rule']) in seen: continue       # the action is also evaluated by NotStuck
        seen.add((v['ev'], v['n'], v['rule']))
        if not v['rule']: c.count('texts_' + v['what']); continue
        t, files = texts[v['ev'], v['n']]
        c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]), v['what'],
                    dict(text=t, reference=texts[v['ev'], 1][0], files=files, rule=v['rule'], what=v['what']))
    return events

def models(c):
    """exhaustive checking of the rules on all texts of a few chunks; returns the texts"""
    texts = []
    def run(job):
        m, n, emit = job
        return job, vf.tlc('LexerMC', MC % (m, n, str(emit).upper()), workers=4, timeout=3000, heap='6g')
    jobs = [(m, v[0], True) for m, v in MODES.items()]
    if not c.quick: jobs += [(m, v[2], False) for m, v in MODES.items()]
    elif c.prop == 'C13': jobs += [(m, v[1], False) for m, v in MODES.items() if m in ('layout', 'grammar', 'body', 'words')]
    for (m, n, emit), t in vf.pmap(run, jobs, 2):
        c.add_tlc(t, '%s, %d chunks' % (m, n))
        if t.violated: raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-3000:]))
        if emit: texts += sorted((''.join(l['x']) for l in t.lines), key=lambda x: (m, x))
    return texts

def check(c):
    vf.build()
    r = vf.rng(c.prop + '/mc')
    all_ = models(c)
    c.count('texts_of_the_specification', len(all_))
    pick = r.sample(all_, min(len(all_), 2000 if c.quick else 30000))
    groups = [(pick[k:k + 20], {}) for k in range(0, len(pick), 20)]
    n = 150 if c.quick else 3000
    keep, dam = (4, 3) if c.prop == 'C13' else (0, 7)
    for t, files, r in bases(n, c.prop):
        t = t if all(ord(ch) < 127 for ch in t) else t.encode('ascii', 'replace').decode()
        groups.append(([t] + [textgen.rewrite(r, t) for _ in range(keep)] + [textgen.damage(r, textgen.rewrite(r, t) if r.random() < .5 else t) for _ in range(dam)], files))
    if c.prop == 'C19':     # wrong in a line whose number has more digits
        for k in range(12 if c.quick else 200):
            t, files, q = next(iter(bases(1, 'C19/long%d' % k)))
            d = textgen.damage(q, t if len(t) < 1500 else 'Main bus\n  a config\n')
            if all(ord(ch) < 127 for ch in d): groups.append(([('#\n' * q.choice([2, 9, 30, 97, 98, 99, 110]) + ('\n' * 900 if k % 4 == 3 else '')) + d], files))
    ev = trace(c, groups)
    c.count('accepted_references', sum(1 for e in ev if e['texts'][0]['rc'] == 0))
    c.sample(dict(description=groups[-1][0][0], changed=groups[-1][0][-1]))
    if c.prop == 'C19': chk_fidelity.validate(c, list(chk_fidelity.random_programs(500 if c.quick else 12000, 'C19', (1, 1, 2))) + bigprog.programs(4 if c.quick else 60, 'C19', 1))
