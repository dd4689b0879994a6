"""C15: every input ends in a document or a diagnosis (spec/Outcome.tla, spec/Elab.tla)."""
import json, re
import vf, elab, textgen, scopegen, instgen, chk_fidelity, bigprog

TYPES = ['blackbox', 'block', 'bus', 'config', 'group', 'irq', 'mask', 'param', 'proc', 'return', 'static', 'status', 'stream']
ODD = ['0', '1', '2', '-1', '-0', '33', '64', '65', '100', '255', '1000', '0x0', '0xFF', '0b101', '0o17', '010', '9223372036854775807', '-9223372036854775808', '9223372036854775808',
       '99999999999999999999999', '2 ** 62', '2 ** 64', '1.0', '1.5', '-1.5', '1e3', '1e400', '.5', '5.', '0.0', 'true', 'false', '!true', '!1', '"s"', '""', '"a" + "b"', 'x"F"', 'b"10"', 'o"7"',
       'x""', 'x"-"', 'b"U"', 'x"' + 'F' * 40 + '"', '[]', '[1]', '[1, 2]', '[[1]]', '[1, "a"]', '[1:2]', '1:2', '2:1', '0:0', '[0:1, 3:4]', '1 ns', '0 s', '5 us', '1 s + 1', '(1)', '((1))', '1 + 1', '1 - 2',
       '1 / 0', '1 % 0', '1 / 2', '7 % 2', '2 ** -1', '0 ** 0', '0 ** -1', 'log2(8)', 'log2(0)', 'log2(-1)', 'log2(7)', 'log10(100)', 'ceil(1.5)', 'ceil("a")', 'floor(-1.5)', 'bool(1)', 'bool("a")', 'ceil()', 'ceil(1, 2)',
       'nothing', 'nothing.x', 'K', 'K[0]', 'a.b.c', 'x.', 'f(1)', 'true + 1', '1 + true', '1 && 2', 'true && false', 'true || 1', '1 == 1', '1 < 2', '1 << 2', '1 | 2', '1 & 2', '-"a"', '+true', '-[1]', '-(1:2)', 'ceil(1:2)',
       '1:2:3', '[1] + [2]', 'x"F" + 1', '1 s * 2', '-1 s', '1 s - 2 s', '"a" * 2', 'true ** 2', '1.5 % 2', '5 / 2.0', '1.0 / 0', '1.0 / 0.0', '0.0 / 0.0', '9223372036854775807 + 1', '-9223372036854775808 - 1',
       '9223372036854775807 * 2', '(-9223372036854775807 - 1) / -1', '"Edge"', '"Sync"', '"Explicit"', '"On Read"']
PROPS = instgen.ALLPROPS
VOC = TYPES + PROPS + ['const', 'type', 'import', 'K', 'T', 'x', 'Main', '(', ')', '[', ']', ',', ';', ':', '=', '==', '+', '-', '*', '**', '/', '%', '!', '&&', '||', '<', '>', '.', '#', '# doc', '"s"', '"', 'x"F"',
       '1', '0', '32', '1.5', '5 ns', 'true', 'false', '\n', '\n', '\n  ', '\n    ', '\n      ', '\t', '\\', '$', '@', 'é', '~', '{', '}', "'", '`', '?', '\r\n', '\x00', '"a"', '\n  width = 8', '\nMain bus\n  ', '\nconst K = ',
       '\ntype T config\n  ', '\n  x config', '\n  b block\n    s status']
NUM = re.compile(r'(?<![\w"])(?:0x[0-9a-fA-F]+|\d+)(?![\w"])')
WORD = re.compile(r'\b(%s)\b' % '|'.join(TYPES))
PROP = re.compile(r'\b(%s)\b(?= *=)' % '|'.join(PROPS))
LARGE = re.compile(r'\d{7}|0[xob]\w{6}|\*\* *(\d\d|0)|[\deE.][eE]\d')     # beyond the arithmetic of TLC or of the compiler
VALUE = re.compile(r'(?<= = )[^\n;]+')

def twist(r, text, n=None):
    """a few changes of values, types, properties, sizes and lines"""
    for _ in range(n or r.choice([1, 1, 1, 2, 3, 5])):
        x = r.randrange(9)
        def sub(rx, f):
            ms = list(rx.finditer(text))
            if not ms: return text
            m = r.choice(ms)
            return text[:m.start()] + f(m[0]) + text[m.end():]
        if x == 0: text = sub(NUM, lambda o: r.choice(ODD))
        elif x in (1, 2): text = sub(VALUE, lambda o: r.choice(ODD))
        elif x == 3: text = sub(WORD, lambda o: r.choice(TYPES))
        elif x == 4: text = sub(PROP, lambda o: r.choice(PROPS))
        elif x == 5: text = sub(WORD, lambda o: '[%s]%s' % (r.choice(ODD), o))
        elif x == 6:
            ls = text.split('\n')
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            k = r.randrange(3)
            if k == 0: del ls[i]
            elif k == 1: ls.insert(j, ls[i])
            else: ls[i], ls[j] = ls[j], ls[i]
            text = '\n'.join(ls)
        elif x == 7:
            ls = text.split('\n')
            i = r.randrange(len(ls))
            ind = len(ls[i]) - len(ls[i].lstrip(' '))
            t = r.choice(['%s = %s' % (r.choice(PROPS), r.choice(ODD)), 'z%d %s' % (r.randrange(99), r.choice(TYPES)), 'z%d [%s]%s' % (r.randrange(99), r.choice(ODD), r.choice(TYPES)), 'const Z%d = %s' % (r.randrange(99), r.choice(ODD)),
                          'type Z%d %s' % (r.randrange(99), r.choice(TYPES)), 'type Z%d(a, b = %s) %s' % (r.randrange(99), r.choice(ODD), r.choice(TYPES)), 'z%d Z1(%s)' % (r.randrange(99), r.choice(ODD))])
            ls.insert(i, ' ' * r.choice([ind, ind, ind + 2]) + t)
            text = '\n'.join(ls)
        else: text = textgen.damage(r, text)
    return text

def grid():
    """every property with every odd value, every type in every type, every odd expression, every odd size"""
    for t in TYPES:
        for p in instgen.VALID[t]:
            for v in ODD:
                body = 'Main bus\n  %s = %s\n  s status\n' % (p, v) if t == 'bus' else 'Main bus\n  x %s\n    %s = %s\n' % (t, p, v) if t not in ('param', 'return') else 'Main bus\n  p proc\n    x %s\n      %s = %s\n' % (t, p, v)
                yield 'property %s of %s = %s' % (p, t, v), body
        for v in ODD: yield 'size [%s] of %s' % (v, t), 'Main bus\n  x [%s]%s\n' % (v, t) if t not in ('param', 'return') else 'Main bus\n  p proc\n    x [%s]%s\n' % (v, t)
        for u in TYPES:
            yield '%s in %s' % (u, t), 'Main bus\n  x %s\n    y %s\n' % (t, u)
            yield 'type of %s with %s' % (t, u), 'type T %s\n  y %s\nMain bus\n  x T\n' % (t, u)
    for v in ODD:
        yield 'constant %s' % v, 'const K = %s\nMain bus\n  const L = K\n' % v
        yield 'constant list [%s]' % v, 'const K = [%s]\nMain bus\n  const L = K[%s]\n' % (v, v)
        yield 'argument %s' % v, 'type T(a) config\n  width = a\nMain bus\n  x T(%s)\n' % v
        for u in ('-', '!', '+'): yield 'constant %s(%s)' % (u, v), 'const K = %s(%s)\nMain bus\n' % (u, v)
        for f in ('ceil', 'floor', 'log2', 'log10', 'bool'): yield '%s(%s)' % (f, v), 'const K = %s(%s)\nMain bus\n' % (f, v)
    for o in ('+', '-', '*', '/', '%', '**', ':', '&&', '||', '==', '<', '<<', '|', '&'):
        for a in ODD[::3]:
            for b in ODD[1::4]: yield '%s %s %s' % (a, o, b), 'const K = (%s) %s (%s)\nMain bus\n' % (a, o, b)
    for w in (1, 2, 7, 8, 32, 33, 64, 100):
        for t, ws in (('config', 1), ('status', 1), ('static', 1), ('mask', 1)):
            for width in (0, 1, w, w + 1, 2 * w, 3 * w - 1):
                for cnt in ('', '[1]', '[2]', '[%d]' % (w + 1)):
                    for at in ('', '; atomic = false', '; atomic = true'):
                        if t == 'static' and at: continue
                        yield 'bus %d: %s%s of %d%s' % (w, cnt, t, width, at), 'Main bus; width = %d\n  a %s%s; width = %d%s%s\n' % (w, cnt, t, width, at, '; init-value = 0' if t == 'static' else '')

def huge():
    n = 20000
    m = '\nMain bus\n  c config\n'
    yield 'parentheses', 'const A = ' + '(' * n + '1' + ')' * n + m
    yield 'open parentheses', 'const A = ' + '(' * n
    yield 'unary', 'const A = ' + '-' * n + '1' + m
    yield 'sum', 'const A = ' + ' + '.join(['1'] * n) + m
    yield 'powers', 'const A = ' + ' ** '.join(['1'] * n) + m
    yield 'list', 'const A = [' + ', '.join(['1'] * n) + ']' + m
    yield 'nested lists', 'const A = ' + '[' * 2000 + '1' + ']' * 2000 + m
    yield 'calls', 'const A = ' + 'ceil(' * 2000 + '1' + ')' * 2000 + m
    yield 'constants', '\n'.join('const A%d = %s' % (i, 'A%d + 1' % (i + 1) if i < 5000 else '1') for i in range(5001)) + m
    yield 'doubled constants', 'const A0 = 1\n' + '\n'.join('const A%d = A%d + A%d' % (i + 1, i, i) for i in range(61)) + m
    yield 'doubled constants in a body', 'Main bus\n  const A0 = 1\n' + '\n'.join('  const A%d = A%d + A%d' % (i + 1, i, i) for i in range(61)) + '\n'
    yield 'doubled constants in a type', 'type T(A0) config\n  width = A5\n' + '\n'.join('  const A%d = A%d + A%d' % (i + 1, i, i) for i in range(61)) + '\nMain bus\n  x T(1)\n  y T(0)\n'
    yield 'doubled parameters', 'type T(A0 = 1, %s) config\n  width = A3\nMain bus\n  x T\n' % ', '.join('A%d = A%d + A%d' % (i + 1, i, i) for i in range(50))
    yield 'doubled arguments', '\n'.join('type T%d(a) %s' % (i, 'T%d(a + a)' % (i + 1) if i < 60 else 'config') for i in range(61)) + '\nMain bus\n  x T0(0)\n'
    yield 'types', '\n'.join('type T%d %s' % (i, 'T%d' % (i + 1) if i < 400 else 'config') for i in range(401)) + '\nMain bus\n  c T0\n'
    yield 'circle of types', '\n'.join('type T%d T%d' % (i, (i + 1) % 400) for i in range(400)) + '\nMain bus\n  c T0\n'
    yield 'circle of constants', '\n'.join('const A%d = A%d' % (i, (i + 1) % 400) for i in range(400)) + '\nMain bus\n  c config\n'
    yield 'depth', 'Main bus\n' + '\n'.join('  ' * (i + 1) + 'b%d block' % i for i in range(300)) + '\n'
    yield 'configs', 'Main bus\n' + '\n'.join('  c%d config\n    width = %d' % (i, i % 32 + 1) for i in range(3000)) + '\n'
    yield 'blocks', 'Main bus\n' + '\n'.join('  c%d block\n    s status' % i for i in range(1500)) + '\n'
    yield 'bit string', 'Main bus\n  c config\n    width = 100\n    init-value = x"' + 'f' * 100000 + '"\n'
    yield 'comments', '# c\n' * n + m
    yield 'long line', '# ' + 'c' * 10 ** 6 + m
    yield 'empty lines', '\n' * n + m
    yield 'imports', 'import "x"\n' * 500 + m
    yield 'identifier', 'const ' + 'A' * 10 ** 5 + ' = 1' + m
    yield 'number', 'const A = ' + '9' * 10 ** 5 + m
    yield 'float', 'const A = 1.' + '9' * 10 ** 5 + 'e' + '9' * 1000 + m
    for t in ('config', 'status', 'mask', 'static'):
        for w in (10 ** 9, 2 ** 62, 2 ** 63 - 1):
            yield '%s of width %d' % (t, w), 'Main bus\n  c %s\n    width = %d\n' % (t, w) + '    init-value = b"1"\n' * (t == 'static')
            yield '%d times %s' % (w, t), 'Main bus\n  c [%d]%s\n' % (w, t) + '    init-value = b"1"\n' * (t == 'static')
    for w in (10 ** 9, 2 ** 62, 2 ** 63 - 1):
        for p in ('align', 'masters'): yield '%s %d' % (p, w), 'Main bus\n  %s = %d\n  b block\n    %s = %d\n    s status\n' % (p, w, p, w)
        yield 'blocks [%d]' % w, 'Main bus\n  b [%d]block\n    s status\n' % w
        yield 'bus of width %d' % w, 'Main bus\n  width = %d\n  c config\n' % w

def place(err):
    s = vf.panic_site(err)
    return '%s @ %s' % s if s else ''

def observe(job):
    tag, files = job
    if not isinstance(files, dict): files = {'bus.fbd': files}
    r = vf.run(files=files, args=['-main', 'Main'], timeout=20)
    at = place(r.err)
    how = 'hang' if r.timeout else 'crash' if at or r.rc == 2 else 'signal' if r.rc < 0 else 'ended'
    out = ''
    if r.out:
        try: json.loads(r.out); out = 'document'
        except Exception: out = r.out[:60]
    return dict(ev=tag, how=how, rc=r.rc, out=out, err=r.err[:1].strip() and 'message' or r.err[:60], at=at, stderr=r.err[:300])

def check(c):
    vf.build()
    t = vf.tlc('OutcomeMC', 'SPECIFICATION Spec\nINVARIANTS C15_Shape C15_Silent\nPROPERTY C15_Ends\nCHECK_DEADLOCK FALSE\n')
    if t.violated: raise vf.Inconclusive('the specification itself breaks %s' % t.violated)
    c.add_tlc(t, 'phases')
    r = vf.rng('C15')
    g = list(grid())
    jobs = [('grid: ' + n, x) for n, x in (r.sample(g, 4000) if c.quick else g)]
    jobs += [('huge: ' + n, x) for n, x in huge()]
    for k in range(300 if c.quick else 5000):
        q = vf.rng('C15/b%d' % k)
        jobs.append(('bytes %d' % k, bytes(q.choice([q.randrange(256), q.choice(b' \n"#=[]()abx019')]) for _ in range(q.choice([0, 1, 2, 5, 20, 100, 500])))))
    for k in range(1500 if c.quick else 30000):
        q = vf.rng('C15/w%d' % k)
        jobs.append(('words %d' % k, q.choice(['', 'Main bus\n  ', 'const K = ', 'Main bus\n  x ', 'type T ']) + ''.join(q.choice(VOC) + q.choice([' ', ' ', '']) for _ in range(q.choice([1, 3, 6, 12, 30])))))
    for k, (tag, files) in enumerate(chk_fidelity.random_programs(2500 if c.quick else 60000, 'C15', errors=(0, 0, 1, 2))):
        q = vf.rng('C15/t%d' % k)
        files = dict(files)
        f = q.choice(sorted(files))
        files[f] = twist(q, files[f])
        if q.random() < .03: files[f] = q.choice(['\ufeff' + files[f], files[f].replace('\n', '\r\n'), files[f].replace('  ', '\t'), files[f].rstrip('\n'), files[f][:q.randrange(len(files[f]) + 1)]])
        jobs.append(('twisted %d' % k, files))
    events = vf.pmap(observe, jobs)
    tr = vf.tlc_shards('OutcomeTrace', 'SPECIFICATION Spec\nINVARIANT NotStuck\nCHECK_DEADLOCK FALSE\n', 'trace.ndjson', events, timeout=1500)
    if tr.violated: raise vf.Inconclusive('trace not consumed')
    c.add_tlc(tr, 'runs')
    c.validated(len(events))
    c.count('runs', len(events)); c.count('runs_rejected', sum(e['rc'] == 1 for e in events)); c.count('runs_accepted', sum(e['rc'] == 0 for e in events))
    texts = dict(jobs)
    seen = set()
    for v in tr.lines:
        x = texts[v['ev']]
        key = '%s: %s' % (v['rule'], v['what']['at'] if v['rule'] == 'crash' else v['ev'])
        if key in seen: continue
        seen.add(key)
        c.violation(key, dict(v['what'], input=v['ev']), dict(input=x if not isinstance(x, bytes) else list(x), what=v['what']))
    # verdicts of twisted descriptions, against the specification of the language
    sub = [(n, x if isinstance(x, dict) else {'bus.fbd': x}) for n, x in jobs if n.startswith(('twisted', 'words', 'grid'))]
    sub = [(n, x) for n, x in sub if all(t.isascii() and len(t) < 3000 and not LARGE.search(t) for t in x.values())]
    k = 400 if c.quick else 8000
    chk_fidelity.validate(c, r.sample([s for s in sub if s[0][0] == 't'], k) + r.sample([s for s in sub if s[0][0] != 't'], k), tolerant=20)
    chk_fidelity.validate(c, bigprog.programs(4 if c.quick else 60, 'C15', .6), per=2)
    c.assumptions += ['a run of more than 20 s is taken for a hang']
