"""C21: the Go library gives the same result as the command line and true answers about it (spec/Api.tla)."""
import hashlib, json, os, shutil, subprocess
import vf, chk_fidelity, chk_ident, chk_addrspace
from chk_expr import big
from chk_values import bits

MC = 'SPECIFICATION Spec\nCONSTANTS PROGS = %d BAD = {%s} MAXSTEPS = %d MAXADDR = %d EMIT = %s\nINVARIANTS C21_History C21_Kinds C21_Stream C21_Group Out\nCHECK_DEADLOCK FALSE\n'
TR = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Consumed\n'
LISTS = dict(Blackboxes='blackbox', Configs='config', Groups='group', Irqs='irq', Masks='mask', Params='param', Procs='proc', Returns='return', Statics='static',
             Statuses='status', Streams='stream', Subblocks='block')

# ------------------------------------------------------------------ the library, driven by a program built into the module
_api = None
def build():
    global _api
    with vf._lock:
        if _api: return _api
    d = vf.newdir('api')
    ov, out = os.path.join(d, 'overlay.json'), os.path.join(d, 'api')
    with open(ov, 'w') as f:
        json.dump({'Replace': {os.path.join(vf.REPO, 'cmd/verifapi/main.go'): os.path.join(vf.VERIF, 'harness/api.go')}}, f)
    env = dict(os.environ); env.update(vf.GOENV)
    errs = ''
    for cache in ('/root/.cache/go-build', os.path.join(d, 'gocache')):
        env['GOCACHE'] = cache
        p = subprocess.run(['go', 'build', '-buildvcs=false', '-overlay', ov, '-o', out, './cmd/verifapi'], cwd=vf.REPO, env=env, capture_output=True, text=True)
        if p.returncode == 0:
            _api = out
            return out
        errs += p.stderr
    raise vf.Inconclusive('cannot build the driver of the library:\n' + errs[-2000:])

def talk(cmds, timeout=60):
    """answers of one process to the commands; fewer when the process has ended"""
    try:
        p = subprocess.run([build()], input='\n'.join(map(json.dumps, cmds)) + '\n', capture_output=True, text=True, timeout=timeout, cwd=vf.scratch(),
                           env={'PATH': '/usr/bin:/bin', 'HOME': vf.scratch()})
    except subprocess.TimeoutExpired:
        return []
    return [json.loads(l) for l in p.stdout.split('\n') if l.strip()]

# ------------------------------------------------------------------ plain data
def masked(j):
    """without what depends on the time of the run"""
    if isinstance(j, dict):
        return {k: '*' if k == 'InitValue' and j.get('Name') == 'TIMESTAMP' else masked(v) for k, v in j.items()}
    return [masked(x) for x in j] if isinstance(j, list) else j

def lines(j, pre=''):
    if isinstance(j, dict): return [l for k in sorted(j) for l in lines(j[k], pre + '.' + k)] or [pre + ' = {}']
    if isinstance(j, list): return [l for i, x in enumerate(j) for l in lines(x, '%s.%d' % (pre, i))] or [pre + ' = []']
    return ['%s = %s' % (pre, json.dumps(j))]

def digest(bus, pkgs): return hashlib.md5(json.dumps([masked(bus), pkgs], sort_keys=True).encode()).hexdigest()

def acc(a): return [a['StartAddr'], a['EndAddr']]
def consts(j): return sum(len(v or {}) for v in j['Consts'].values())
def facts(kind, j):
    x = dict(type=kind, name=j['Name'])
    if kind in ('proc', 'stream'):
        x['ps'], x['rs'] = [acc(y['Access']) for y in j['Params'] or []], [acc(y['Access']) for y in j['Returns'] or []]
    if kind == 'stream': x['stb'] = j['StbAddr']
    if kind == 'group':
        x['nums'] = {k: len(j[l] or []) for l, k in LISTS.items() if l in j}
        x['irqs'] = [[y['Clear'], y['AddEnable']] for y in j['Irqs'] or []]
        x['consts'] = consts(j)
    if kind == 'block':
        x['acc'], x['last'], x['consts'] = [j['AddrSpace']['Start'], j['AddrSpace']['End']], big(j['AddrSpace']['End']), consts(j)
    if 'Access' in j: x['acc'] = acc(j['Access'])
    if kind == 'irq': x['enacc'] = acc(j['EnableAccess'])
    return x

def functionalities(kind, j, path=''):
    yield path, kind, j
    for l, k in LISTS.items():
        for i, x in enumerate(j.get(l) or []): yield from functionalities(k, x, '%s/%s/%d' % (path, l, i))

def ranges(j):
    g = j.get('Range')
    return g if isinstance(g, list) else [g] if g else []

# ------------------------------------------------------------------ events
def bits_event(ev, text, w, a):
    def s(t): return dict(p='panic', ds=[]) if t == 'panic' else bits(t)
    no = a['uint'] == 'panic'
    return dict(ev=ev, op='bits', s=bits(text), text=text, w=w, n=a['width'], chars=a['chars'], lit=list(a['lit']), tobin=s(a['tobin']), ext=s(a['extend']),
                nouint=no, uint=big(0 if no else int(a['uint'])), pre=[a['b'], a['o'], a['x']])

def ranges_event(ev, rs, by, a):
    return dict(ev=ev, op='ranges', rs=[dict(l=big(x), r=big(y)) for x, y in rs], text=str(rs)[:120], by=big(by), widths=a['widths'], width=a['width'], empty=a['empty'],
                shift=[dict(l=big(x), r=big(y)) for x, y in a['shift']])

def flat(ev, path, kind, j, a, r, later):
    """events of one functionality; later: bit strings and ranges to be asked directly"""
    out = []
    a = a or dict(type='', name='', path=path)
    ans = {k: (-1 if v == 'panic' else v) for k, v in a.items() if k not in ('range', 'init', 'read', 'reset', 'delay', 'path')}
    out.append(dict(ev=ev, op='answer', path=path, x=facts(kind, j), ans=ans))
    if j.get('Delay'):
        d = a.get('delay') or dict(s=0, ns=0, zero='none')
        out.append(dict(ev=ev, op='time', s=big(j['Delay']['S']), ns=big(j['Delay']['Ns']), zero=d['zero']))
    for k in ('InitValue', 'ReadValue', 'ResetValue', 'EnableInitValue', 'EnableResetValue'):
        if j.get(k) and j[k] != '*': later.append(('bits', j[k]))
    if ranges(j): later.append(('ranges', [(x['Start'], x['End']) for x in ranges(j)]))
    return out

def write(d, files):
    for p, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
        with open(os.path.join(d, p), 'w') as f: f.write(t)

def program(job):
    tag, files, main, ts = job
    r = vf.rng('C21/' + tag)
    d = vf.newdir('p')
    write(d, files)
    try:
        cli = vf.run(args=['-main', main] + (['-add-timestamp'] if ts else []), cwd=d, dump=True)
        lib = talk([dict(Cmd='compile', Dir=d, Path='bus.fbd', Name=main, Ts=ts), dict(Cmd='query', H=0)])
    finally:
        shutil.rmtree(d, True)
    evs, later = [], []
    steps = [dict(op='compile', p=1)]
    got = ['error' if not lib or lib[0]['err'] and lib[0]['none'] else 'partial' if lib[0]['err'] or lib[0]['none'] else 'result']
    evs.append(dict(ev=tag, op='history', steps=steps, ok=[cli.rc == 0], want=[''], got=got))
    if cli.rc != 0 or len(lib) != 2: return evs
    bus, a = masked(json.loads(cli.out)), lib[1]
    evs.append(dict(ev=tag, op='same', cli=lines(bus, 'bus') + lines(cli.dump, 'pkgs'), lib=lines(masked(a['bus']), 'bus') + lines(a['pkgs'], 'pkgs')))
    ans = {x['path']: x for x in a['ans']}
    n = 0
    for path, kind, j in functionalities('block', bus):
        evs += flat(tag, path, kind, j, ans.get(path), r, later)
        n += 1
    if n != len(ans): evs.append(dict(ev=tag, op='same', cli=['%d functionalities' % n], lib=['%d functionalities' % len(ans)]))
    for p, k in sorted((cli.dump or {}).items()):
        evs.append(dict(ev=tag, op='answer', path='package ' + p, x=dict(type='package', name=p, consts=consts(k)), ans=dict(type='package', name=p, empty=a['pkgempty'].get(p, 'missing'))))
    return evs + direct(tag, later, r)

def direct(tag, qs, r):
    cmds = []
    for k, v in qs:
        if k == 'bits':
            n = len(v[2:-1]) * dict(b=1, o=3, x=4)[v[0]]
            cmds.append(dict(Cmd='bits', S=v, W=n + r.choice([-1, 0, 1, 2, 3, 4, 6, 8, 12, 64, r.randrange(1, 130)])))
        else: cmds.append(dict(Cmd='ranges', L=v, W=r.choice([0, 1, 5, r.randrange(10 ** 6)])))
    as_ = talk(cmds) if cmds else []
    if len(as_) != len(cmds): return [dict(ev=tag, op='same', cli=['%d answers' % len(cmds)], lib=['%d answers' % len(as_)])]
    return [bits_event(tag, q[1], c['W'], a) if q[0] == 'bits' else ranges_event(tag, q[1], c['W'], a) for q, c, a in zip(qs, cmds, as_)]

def literal(r):
    p = r.choice('box')
    al = dict(b='01', o='01234567', x='0123456789abcdefABCDEF')[p] + ('' if r.random() < .6 else '-uUwWxXzZ')
    return '%s"%s"' % (p, ''.join(r.choice(al) for _ in range(r.choice([1, 1, 2, 3, 4, 5, 8, 15, 16, 17, 21, 22, 32, 33, 64, 65]))))
def bounds(r):
    def b(): return r.choice([0, r.randrange(40), 2 ** r.randrange(62), 2 ** r.randrange(1, 62) - 1, r.getrandbits(r.randrange(1, 62))])
    return [tuple(sorted((b(), b()))) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]

# ------------------------------------------------------------------ programs
def buffers(r):
    """procs, streams and groups of every composition"""
    bw = r.choice([4, 8, 16, 32])
    def item(k, n): return '    %s%d %s%s\n      width = %d\n' % (k[0], n, r.choice(['', '', '[%d]' % r.randrange(1, 6)]), k, r.randrange(1, 2 * bw))
    def irq(n, g=True):
        s = '    i%d irq\n' % n
        if g or r.random() < .5: s += '      clear = "%s"\n' % r.choice(['Explicit', 'On Read', 'On Read'])
        if r.random() < .3: s += '      add-enable = %s\n' % r.choice(['true', 'false'])
        return s
    t = 'Main bus\n  width = %d\n' % bw
    if r.random() < .5: t += '  align = %d\n' % 2 ** r.randrange(7)
    if r.random() < .2: t += '  masters = %d\n' % r.randrange(1, 4)
    for k in range(r.choice([1, 2, 3])):
        t += '  p%d proc\n' % k
        b = '    delay = %s\n' % r.choice(['0 ns', '5 us', '1 s', '0 s', '2 ms']) if r.random() < .4 else ''
        its = [item('param', i) for i in range(r.choice([0, 0, 1, 2, 4]))] + [item('return', i) for i in range(r.choice([0, 0, 1, 2, 4]))]
        r.shuffle(its)
        t += b + ''.join(its)
    for k in range(r.choice([0, 1, 2])):
        t += '  s%d stream\n' % k + ('    delay = %s\n' % r.choice(['0 ns', '7 ns']) if r.random() < .3 else '')
        kind = r.choice(['param', 'return'])
        t += ''.join(item(kind, i) for i in range(r.choice([0, 1, 2, 4])))
    for k in range(r.choice([0, 1, 2, 3])):
        t += '  g%d group\n' % k
        kinds = r.choice([['irq'], ['status'], ['config'], ['mask'], ['static'], ['status', 'static'], ['config', 'status'], ['mask', 'static'], ['param'], ['return'], []])
        b = ''
        for i in range(r.choice([1, 2, 3]) if kinds else 0):
            q = r.choice(kinds)
            b += irq(i) if q == 'irq' else '    %s%d %s\n%s' % (q[0:2], i, q, '      init-value = 1\n' if q == 'static' else '')
        if r.random() < .4: b += '    const A = %s\n' % r.choice(['1', 'true', '"x"', '1.5', '[1, 2]', '[true, false]'])
        t += b
    if r.random() < .7: t += '  b %sblock\n    c config\n' % r.choice(['', '[3]']) + ('    const B = %s\n' % r.choice(['true', '1.5', '"s"', '[3, 4]', '[true]']) if r.random() < .6 else '')
    if r.random() < .5: t += '  const C = %s\n' % r.choice(['1', 'true', '"x"', '1.5', '[1, 2]', '[true, false]'])
    if r.random() < .4: t = 'const P = %s\n' % r.choice(['1', 'true', '"x"', '1.5', '[1, 2]', '[true, false]']) + t
    return {'bus.fbd': t}

def jobs(c):
    n = 150 if c.quick else 1500
    for k in range(2 * n):
        r = vf.rng('C21/b%d' % k)
        yield 'b%d' % k, buffers(r), 'Main', r.random() < .1
    for tag, fs in chk_fidelity.random_programs(2 * n, 'C21', (0, 0, 1)):
        r = vf.rng('C21/' + tag)
        yield tag, fs, 'Main' if r.random() < .95 else 'Missing', r.random() < .1
    for k in range(n):
        r = vf.rng('C21/i%d' % k)
        yield 'i%d' % k, {'bus.fbd': chk_ident.text(chk_ident.dress(chk_ident.shape(r), r, r.choice([8, 16, 32])))}, 'Main', r.random() < .1

# ------------------------------------------------------------------ histories
HIST = ['Main bus\n  width = 8\n  c [3]config\n    width = 5\n  s status\n    width = 13\n  const K = 3\n  b block\n    c config\n',
        'import "foo"\nconst W = foo.W + 1\nMain bus\n  width = 32\n  align = 32\n  b [2]block\n    s status\n  p proc\n    a param\n      range = 1 : 1000\n    b return\n      width = 40\n  m mask\n    width = W\n  i irq\n    add-enable = true\n',
        'Main bus\n  width = 16\n  c config\n']
MAINS = ['Main', 'Main', 'Missing']
PKG = 'const W = 6\nconst L = [1, 2, W]\n'
def history_programs(r):
    """two correct programs and a third, of which a bus is asked for that is not there (the other errors end the process)"""
    def good(): return r.choice([lambda: buffers(r), lambda: {'bus.fbd': chk_ident.text(chk_ident.dress(chk_ident.shape(r), r, r.choice([8, 16, 32])))}])()
    def correct():
        for _ in range(50):
            p = good()
            if vf.run(files=p, args=['-main', 'Main']).ok: return p
        raise vf.Inconclusive('no correct program found')
    return [correct(), correct(), good()]

def history(job):
    tag, progs, steps = job
    dirs = []
    want, ok = [], []
    for k, fs in enumerate(progs):
        d = vf.newdir('h')
        write(d, fs)
        dirs.append(d)
        cli = vf.run(args=['-main', MAINS[k]], cwd=d, dump=True)
        ok.append(cli.rc == 0)
        want.append(digest(json.loads(cli.out), cli.dump) if cli.rc == 0 else '')
    as_ = talk([dict(Cmd='compile', Dir=dirs[s['p'] - 1], Path='bus.fbd', Name=MAINS[s['p'] - 1]) if s['op'] == 'compile' else dict(Cmd='query', H=s['h'] - 1) for s in steps])
    for d in dirs: shutil.rmtree(d, True)
    got = []
    for k, s in enumerate(steps):
        if k >= len(as_): got.append('ended')
        elif s['op'] == 'compile': got.append('error' if as_[k]['err'] and as_[k]['none'] else 'partial' if as_[k]['err'] or as_[k]['none'] else 'result')
        else: got.append('nothing' if as_[k]['bus'] is None else digest(as_[k]['bus'], as_[k]['pkgs']))
    return dict(ev=tag, op='history', steps=steps, ok=ok, want=want, got=got)

def check(c):
    r = vf.rng('C21')
    vf.build(); build()
    t = vf.tlc('ApiMC', MC % (2, '2', 4 if c.quick else 5, 3 if c.quick else 4, 'FALSE'), workers=4, timeout=1500)
    if t.violated: raise vf.Inconclusive('the specification itself breaks %s' % t.violated)
    c.add_tlc(t, 'histories of calls; derived answers of all small functionalities')
    t = vf.tlc('ApiMC', MC % (3, '3', 4 if c.quick else 5, 1, 'TRUE'), workers=4, timeout=1500)
    c.add_tlc(t, 'histories to replay')
    hs = [l['steps'] for l in t.lines]
    c.count('behaviours_of_the_specification', len(hs))
    fixed = [{'bus.fbd': HIST[0]}, {'bus.fbd': HIST[1], 'fbd-foo/a.fbd': PKG}, {'bus.fbd': HIST[2]}]
    texts, js = {}, []
    for k, s in enumerate(hs):
        for v in range(1 if c.quick else 3):
            p = fixed if v == 0 and k % 3 == 0 else history_programs(vf.rng('C21/h%d.%d' % (k, v)))
            js.append(('h%d.%d' % (k, v), p, s)); texts[js[-1][0]] = p
    events = vf.pmap(history, js)
    c.count('histories_replayed', len(events))
    ps = list(jobs(c))
    for p in ps: texts[p[0]] = dict(files=p[1], main=p[2], timestamp=p[3])
    for evs in vf.pmap(program, ps):
        events += evs
    qs = [('bits', literal(r)) for _ in range(600 if c.quick else 8000)] + [('ranges', bounds(r)) for _ in range(200 if c.quick else 2000)]
    direct_events = direct('direct', qs, r)
    texts['direct'] = 'operations on bit strings and ranges'
    events += direct_events
    for e in events: c.count('events_' + e['op'])
    t = vf.tlc_shards('ApiTrace', TR, 'trace.ndjson', events, timeout=3000)
    c.add_tlc(t, 'recorded answers')
    c.validated(len(events))
    seen = set()
    for v in t.lines:
        k = '%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:200])
        if k in seen: continue
        seen.add(k)
        c.violation(k, v['what'], dict(program=texts[v['ev']], rule=v['rule'], what=v['what']))
    c.sample(dict(program=texts['b0'], recorded=events[len(js)]))
    c.assumptions.append('the library is used by one goroutine at a time; an error which ends the process (log.Fatal) counts as an error answer')
