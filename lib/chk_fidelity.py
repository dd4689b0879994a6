"""C18: the output lists exactly what is described (spec/Elab.tla)."""
import json
import vf, elab, textgen, scopegen, instgen, bigprog

MC = 'SPECIFICATION Spec\nCONSTANTS MAXN = %d\nBODIES = {%s}\nEMIT = %s\nINVARIANTS C18 Out\nCHECK_DEADLOCK FALSE\n'
TR = 'SPECIFICATION Spec\nCONSTANT PROP = "%s"\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n'

def render(P, r=None):
    """a program of ElabMC as text"""
    def go(p, ind):
        out = []
        for i, x in enumerate(P):
            if x['p'] != p: continue
            s = '  ' * ind
            for d in ([x['doc']] if x['doc'] else []): out.append(s + '# ' + d)
            if x['k'] == 'prop': out.append('%s%s = %d' % (s, x['name'], x['v']))
            elif x['k'] == 'const': out.append('%sconst %s = %d' % (s, x['name'], x['v']))
            else: out.append('%s%s%s %s%s' % (s, 'type ' if x['k'] == 'type' else '', x['name'], '[%d] ' % x['v'] if x['cnt'] else '', x['typ']))
            out += go(i + 1, ind + 1)
        return out
    # an array has the size 2
    for x in P:
        if x['cnt']: x['v'] = 2
    return '\n'.join(go(1, 0)) + '\n'

WORDS = ['doc', 'Doc of it.', 'a = 1; b', 'x', '', ' two  spaces', '# more', '"', '\ttab', 'const K = 3']
def documented(r, text):
    """comments inserted anywhere, mostly before declarations"""
    out = []
    for l in text.split('\n'):
        ind = len(l) - len(l.lstrip(' '))
        if l.strip() and r.random() < .3:
            for _ in range(r.choice([1, 1, 1, 2, 3])): out.append(' ' * ind + '#' + r.choice([' ', ' ', '']) + r.choice(WORDS))
            if r.random() < .15: out.append('')
        if l.strip() and '#' not in l and r.random() < .05: l += ' # ' + r.choice(WORDS)
        out.append(l)
    return '\n'.join(out)

def random_programs(n, tag, errors=(0,)):
    for k in range(n):
        r = vf.rng('%s/%d' % (tag, k))
        x = k % 4
        if x == 0: files = {'bus.fbd': textgen.Gen(r).text()}
        elif x == 1: files = scopegen.render(scopegen.Gen(r, r.choice(errors)).case()[0], r)
        else:
            files = {'bus.fbd': instgen.render(instgen.Gen(r, r.choice(errors)).case(), r)}
        if x: files = {p: documented(r, t) for p, t in files.items()}
        if r.random() < .3: files = {p: textgen.rewrite(r, t) for p, t in files.items()}
        yield 'r%d' % k, files

def validate(c, jobs, tolerant=5, per=20):
    jobs = sorted(jobs, key=lambda j: -sum(map(len, j[1].values())))        # long ones first, spread over the shards
    events = vf.pmap(lambda j: elab.event(*j), jobs)
    tr = vf.tlc_shards('ElabTrace', TR % c.prop, 'trace.ndjson', events, tolerant=tolerant, per=per, timeout=3000)
    if tr.skipped: c.count('programs_not_evaluated', tr.skipped)
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'programs')
    c.validated(len(events))
    files = dict(jobs)
    seen = set()
    for v in tr.lines:
        if (v['ev'], v['rule']) in seen: continue
        seen.add((v['ev'], v['rule']))
        if not v['rule']:
            c.count('programs_' + v['what'].replace(' ', '_'))
            continue
        c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]), v['what'], dict(files=files[v['ev']], rule=v['rule'], what=v['what']))
    c.count('functionalities_compared', sum(len(e['out']) for e in events))
    c.sample(dict(files=jobs[-1][1], listing=events[-1]['out'][:5]))

def model(c, n, bodies, emit=False):
    t = vf.tlc('ElabMC', MC % (n, ','.join('"%s"' % b for b in bodies), str(emit).upper()), workers=8, timeout=3400, heap='12g')
    if t.violated: raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-3000:]))
    c.add_tlc(t, 'programs of %d nodes over %s' % (n, '/'.join(bodies)))
    return t

def check(c):
    r = vf.rng('C18')
    vf.build()
    model(c, 6 if c.quick else 7, ['block', 'config', 'group'])
    jobs = []
    for bodies, n, lim in ((['block', 'group'], 5, 250), (['proc', 'config'], 5, 100), (['bus'], 5, 50)):
        t = model(c, n if c.quick else n + 1, bodies, True)
        ps = sorted((l['P'] for l in t.lines), key=json.dumps)
        c.count('programs_of_the_specification', len(ps))
        jobs += [('s%s%d' % (bodies[0], k), {'bus.fbd': render(p)}) for k, p in enumerate(r.sample(ps, min(len(ps), lim if c.quick else 20 * lim)))]
    jobs += random_programs(400 if c.quick else 8000, 'C18')
    jobs += bigprog.programs(6 if c.quick else 60, 'C18', 0)
    validate(c, jobs)
    c.assumptions += ['the order of sub-blocks is not claimed (the compiler sorts them by size)', 'constants whose kind has no place in the output (ranges, times, bit strings, mixed lists) are not listed']
