"""C20: the command line (spec/Args.tla)."""
import hashlib, json, os, re, shutil, time
import vf, elab, chk_expr, instgen, textgen

MC = 'SPECIFICATION Spec\nCONSTANTS MAXG = %d WHOLE = %s EMIT = %s\nINVARIANTS Incremental C20_Declared C20_Order C20_File Out\nCHECK_DEADLOCK FALSE\n'
TR = 'SPECIFICATION Spec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n'

BUS = '''import "foo"
const K = 3
const S = "text"
const L = [1, 2]
main bus
  width = %(w)d
  s status
    width = K
Main bus
  width = %(w)d
  const INNER = K
  c config
    width = foo.W
  b block
    s status
Alt bus
  width = %(w)d
  a [3]status
    width = 2
'''
PKG = 'const W = 4\nconst F = 1.5\n'
BAD = 'Main bus\n  width = \nAlt bus\nmain bus\n'
OLD = '{"old": "%s"}' % ('x' * 20000)
CONSTS = [['main', 'K', '3'], ['main', 'S', '"text"'], ['main', 'L', '[1,2]'], ['foo', 'W', '4'], ['foo', 'F', '1.5']]

def files(w): return {'bus.fbd': BUS % dict(w=w), 'bad.fbd': BAD, 'fbd-foo/a.fbd': PKG, 'old.json': OLD, 'dir/keep': '', 'dir/other.fbd': BUS % dict(w=w)}

def tree(d):
    return {os.path.relpath(os.path.join(p, f), d) for p, _, fs in os.walk(d) for f in fs}

def dumped(p):
    try: d = json.load(open(p))
    except Exception: return [['', '', 'unreadable']]
    return [[pk, n, json.dumps(v, separators=(',', ':'))] for pk, c in sorted(d.items()) for k in sorted(c['Consts']) for n, v in sorted((c['Consts'][k] or {}).items())]

def stamp(j):
    return [s for s in j.get('Statics') or [] if s['Name'] == 'TIMESTAMP']
def number(s):
    m = re.fullmatch(r'([bBoOxX])"([0-9a-fA-F]+)"', s)
    return int(m[2], {'b': 2, 'o': 8, 'x': 16}[m[1].lower()]) if m else -1

def observe(args, fs):
    t0 = int(time.time())
    r = vf.run(files=fs, args=args, main=None, keep=True)
    t1 = int(time.time())
    o = dict(args=args, rc=-1 if r.timeout else r.rc, stderr=r.err[:300], message=r.err != '', out='', dig='', tsok=False, dump=[], created=[], name='', tscount=0)
    try:
        now = tree(r.dir)
        o['created'] = sorted(f for f in now if f not in fs or open(os.path.join(r.dir, f)).read() != fs[f])
        if len(o['created']) == 1: o['dump'] = dumped(os.path.join(r.dir, o['created'][0]))
    finally:
        shutil.rmtree(r.dir, True)
    if r.out.strip() and '{' not in r.out and len(r.out) < 40: o['out'] = 'version'
    elif 'Usage' in r.out and all(x in r.out for x in ('-help', '-version', '-debug', '-add-timestamp', '-main', '-c')): o['out'] = 'help'
    elif r.out:
        o['out'] = 'other'
        try:
            j = json.loads(r.out)
            o['out'], o['name'] = 'json', j['Name']
            st = stamp(j)
            o['tscount'] = len(st)
            text = r.out
            for s in st:
                o['tsok'] = number(s['InitValue']) in [t % 2 ** s['Width'] for t in range(t0 - 1, t1 + 2)]
                text = re.sub(r'("Name": "TIMESTAMP".*?"InitValue": )"(\\.|[^"\\])*"', r'\1"T"', text, count=1, flags=re.S)
            o['dig'] = hashlib.md5(text.encode()).hexdigest()
        except Exception: pass
    return o

def world(w):
    fs = files(w)
    refs = []
    for bus in ('main', 'Main', 'Alt'):
        for ts in (False, True):
            o = observe(['-main', bus] + ['-add-timestamp'] * ts + ['bus.fbd'], fs)
            if o['rc']: raise vf.Inconclusive('the plain description is rejected: ' + o['stderr'])
            refs.append(dict(bus=bus, ts=ts, dig=o['dig'], name=o['name'], tscount=o['tscount']))
    d = observe(['-c', 'k.json', 'bus.fbd'], fs)
    return dict(kind='world', ev='world of width %d' % w, refs=refs, dump=d['dump'], consts=CONSTS, good=['bus.fbd', 'dir/other.fbd'], bad=['bad.fbd'], buses=['main', 'Main', 'Alt'],
                unwritable=['none/x.json', 'dir'])

def paths(j, pre=()):
    """leaves of the output; elements of lists by their names"""
    if isinstance(j, dict):
        for k, v in j.items(): yield from paths(v, pre + (k,))
    elif isinstance(j, list) and j and all(isinstance(x, dict) and 'Name' in x for x in j):
        yield pre, str(len(j)) if pre != ('Statics',) else ''
        for x in j: yield from paths(x, pre + (x['Name'],))
    else: yield pre, json.dumps(j)
def difference(a, b):
    x, y = dict(paths(a)), dict(paths(b))
    return sorted(list(p) for p in set(x) | set(y) if x.get(p) != y.get(p))

def pair(job):
    tag, fs = job
    a = vf.run(files=fs, args=['-main', 'Main'])
    b = vf.run(files=fs, args=['-main', 'Main', '-add-timestamp'])
    e = dict(kind='pair', ev=tag, rc1=a.rc, rc2=b.rc, diff=[], stamps=0)
    if a.ok and b.ok:
        ja, jb = a.json(), b.json()
        ja['Statics'], jb['Statics'] = ja.get('Statics') or [], jb.get('Statics') or []
        e['diff'], e['stamps'] = difference(ja, jb), len(stamp(jb))
    return e

def descriptions(n):
    for k in range(n):
        r = vf.rng('C20/%d' % k)
        t = textgen.Gen(r).text() if k % 2 else instgen.render(instgen.Gen(r, 0).case(), r)
        if isinstance(t, str): t = {'bus.fbd': t}
        if 'TIMESTAMP' in t['bus.fbd']: continue
        yield 'p%d' % k, t

def check(c):
    r = vf.rng('C20')
    vf.build()
    for n, whole in ((4, 'TRUE'), (4, 'FALSE')) if c.quick else ((5, 'TRUE'), (6, 'FALSE')):
        t = vf.tlc('ArgsMC', MC % (n, whole, 'FALSE'), workers=8, timeout=3000, heap='12g')
        if t.violated: raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-3000:]))
        c.add_tlc(t, '%s of up to %d' % ('option groups' if whole == 'TRUE' else 'arguments', n))
    lines = []
    for n, whole in ((3, 'TRUE'), (2, 'FALSE')) if c.quick else ((4, 'TRUE'), (4, 'FALSE')):
        t = vf.tlc('ArgsMC', MC % (n, whole, 'TRUE'), workers=8, timeout=3000, heap='12g')
        lines += sorted({tuple(l['args']) for l in t.lines})
    c.count('command_lines_of_the_specification', len(lines))
    comp = {'bus.fbd', 'bad.fbd'}
    if c.quick: lines = r.sample([l for l in lines if l[-1] == 'bus.fbd'], 1800) + r.sample([l for l in lines if l[-1] != 'bus.fbd'], 700)
    # longer ones, other files, other paths
    G = [['-debug'], ['-add-timestamp'], ['-main', 'Alt'], ['-main', 'Main'], ['-main', 'main'], ['-main', 'None'], ['-c'], ['-c', 'x.json'], ['-c', 'old.json'], ['-c', 'dir/c.json'],
         ['-c', 'dir'], ['-c', 'none/x.json'], ['-c', './y']]
    for _ in range(300 if c.quick else 6000):
        gs = [r.choice(G) for _ in range(r.randrange(8))]
        if r.random() < .1: gs.insert(r.randrange(len(gs) + 1), [r.choice(['-help', '-version', '-bogus', '--help', '-C', 'word', '-Debug', '-add_timestamp'])])
        lines.append(tuple(x for g in gs for x in g) + (r.choice(['bus.fbd', 'bus.fbd', 'bus.fbd', 'dir/other.fbd', 'bad.fbd', 'missing.fbd', 'dir', '-help', '-version']),))
    lines.append(())
    events = []
    for k, w in enumerate((32, 9) if c.quick else (32, 9, 36, 64)):
        ls = lines if k == 0 else lines[::5]
        events.append([world(w)] + [dict(o, kind='run', ev=' '.join(l), dashed=[x for x in l if x.startswith('-')])
                                    for l, o in zip(ls, vf.pmap(lambda l: observe(list(l), files(w)), ls))])
        for e in events[-1][1:]:       # a path given as ./y
            e['created'] = [('./' + f if './' + f in e['args'] else f) for f in e['created']]
    n = sum(map(len, events))
    for g in events:
        parts = [[g[0]] + g[1 + i::vf.NCPU] for i in range(vf.NCPU)]
        for tr in map_tlc(parts): report(c, tr)
    jobs = list(descriptions(200 if c.quick else 4000))
    pairs = vf.pmap(pair, jobs)
    tr = vf.tlc('ArgsTrace', TR, {'trace.ndjson': pairs}, timeout=900)
    report(c, tr, dict(jobs))
    c.validated(n + len(pairs))
    c.count('command_lines_run', n)
    c.count('descriptions_with_and_without_timestamp', sum(p['rc1'] == 0 for p in pairs))
    c.sample(events[0][5])
    c.assumptions += ['an option in place of the name of the bus, and an unknown option right after -c, are left open', 'the undocumented -r is not exercised']

def map_tlc(parts):
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(len(parts)) as ex:
        return list(ex.map(lambda p: vf.tlc('ArgsTrace', TR, {'trace.ndjson': p}, timeout=900), parts))

def report(c, tr, texts=None):
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'runs')
    seen = set()
    for v in tr.lines:
        k = (v['ev'], v['rule'])
        if k in seen: continue
        seen.add(k)
        c.violation('%s: %s' % (v['rule'], v['ev']), v['what'], dict(command=v['ev'], files=(texts or {}).get(v['ev']), what=v['what']))
