"""Descriptions as text: a generator of syntactically rich descriptions, rewritings meant to keep the meaning and small damages.
What a text means, and whether a rewriting kept it, is decided by spec/Grammar.tla, never here."""
import re

# ------------------------------------------------------------------ generation
def ident(r, pre='x'):
    return pre + r.choice(['', '_', 'A', 'b9']) + str(r.randrange(1000))

class Gen:
    def __init__(self, r):
        self.r, self.names, self.consts, self.lines = r, set(), [], []
    def new(self, pre='x'):
        while True:
            n = ident(self.r, pre)
            if n not in self.names:
                self.names.add(n)
                return n
    def doc(self, ind):
        r = self.r
        if r.random() < .35:
            for _ in range(r.choice([1, 1, 2, 3])):
                self.lines.append('  ' * ind + '#' + r.choice([' doc', 'doc', ' a - b; c = "d"', '', ' ', '  two', '\ttab', ' #']) + r.choice(['', ' x%d' % r.randrange(9)]))
                if self.lines[-1].endswith('# '): self.lines[-1] += 'e'
    def num(self, lo=1, hi=31):
        r = self.r
        n = r.randrange(lo, hi)
        return r.choice([str(n)] * 3 + ['0x%x' % n, '0b%s' % bin(n)[2:], '0o%o' % n])
    def expr(self, d=2):
        """an integer expression"""
        r = self.r
        x = r.random()
        if d == 0 or x < .35: return self.num()
        if x < .5 and self.consts: return r.choice(self.consts)
        if x < .6: return '(%s)' % self.expr(d - 1)
        if x < .7: return '%s(%s)' % (r.choice(['ceil', 'floor']), self.expr(d - 1))
        if x < .76: return '-%s' % self.num()
        return '%s %s %s' % (self.expr(d - 1), r.choice(['+', '-', '*', '%', '+', '-', '*']) if d > 1 else r.choice('+-*'), self.expr(d - 1))
    def const(self, ind):
        r = self.r
        self.doc(ind)
        if r.random() < .6:
            self.lines.append('%sconst %s' % ('  ' * ind, self.assign()))
        else:
            self.lines.append('  ' * ind + 'const')
            for _ in range(r.choice([1, 2, 3])):
                self.doc(ind + 1)
                self.lines.append('%s%s' % ('  ' * (ind + 1), self.assign()))
    def assign(self):
        r = self.r
        n = self.new(r.choice(['C', 'size', 'K', 'irq_', 'width']))
        k = r.randrange(10)
        if k < 5:
            v = self.expr()
            return '%s = %s' % (n, v)
        return '%s = %s' % (n, r.choice(['true', 'false', '"str"', '"a b;c"', '1.5', '2e3', '%d.%d' % (r.randrange(200), r.randrange(100)), '%d.%de%d' % (r.randrange(20), r.randrange(1000), r.randrange(5)), '[1, 2, %s]' % self.expr(1), '["a", "b"]', 'b"01"', 'x"Af"', '10 us', '3 : 7', '[1.5]', '2 ** 5 - 1', '8 / 2', '!true', '1 << 2 | 1' if r.random() < .1 else '+1', 'true || false && true' if r.random() < .1 else '-0x1F']))
    def body(self, kind, ind, depth, inner=True):
        """properties (and inner functionalities) of a functionality"""
        r = self.r
        ps = []
        def p(n, *vs):
            if r.random() < .5: ps.append('%s = %s' % (n, r.choice(vs)))
        w = r.randrange(4, 20)
        if kind in ('config', 'mask', 'static', 'status', 'param', 'return'):
            if kind in ('config', 'status', 'static', 'mask') and r.random() < .8 or kind == 'static':
                ps.append('width = %s' % r.choice([str(w), '%d + %d' % (w - 1, 1), '0x%x' % w]))
            elif kind in ('config', 'param'): p('range', '7', '1 : 7', '[0:3, 5:6]')
        if kind in ('config', 'mask', 'static'): ps.append('init-value = %s' % r.choice(['3', 'x"3"', 'b"101"', '0b11', '2 + 1', '7-4']))
        if kind in ('config', 'status', 'static'): p('read-value', '1', 'x"2"')
        if kind in ('config', 'mask', 'static'): p('reset-value', '1')
        if kind in ('config', 'status'): p('atomic', 'true', 'false' if w < 99 else 'true')
        if kind == 'irq':
            p('clear', '"Explicit"', '"On Read"'); p('in-trigger', '"Edge"', '"Level"'); p('out-trigger', '"Level"', '"Edge"') if False else None
            if r.random() < .3: ps += ['add-enable = true', 'enable-init-value = b"1"']
        if kind in ('proc', 'stream'): p('delay', '10 us', '3 s', '5   ms')
        if kind == 'block': p('masters', '1', '2'); p('reset', '"Sync"', '"Async"')
        r.shuffle(ps)
        return ps
    def inst(self, kind, ind, depth, arrays=True):
        r = self.r
        p = '  ' * ind
        self.doc(ind)
        name = self.new(r.choice(['c', 'F', 'config', 'status', 'ns', 'x_', 'b', 'init-'[:4]]))
        cnt = ''
        if arrays and kind in ('config', 'status', 'static', 'mask', 'param', 'return', 'block') and r.random() < .25 and kind not in ('mask',):
            cnt = r.choice(['[2] ', '[1 + 1] ', '[0x3] '])
        ps = self.body(kind, ind, depth)
        if cnt and kind in ('config', 'status', 'static', 'param', 'return'):
            ps = [x for x in ps if not x.startswith(('atomic', 'init-value', 'reset-value', 'read-value'))]
            if kind == 'static': ps.append('init-value = 1')
        head = '%s%s %s%s' % (p, name, cnt, kind)
        kids = kind in ('block', 'proc', 'stream', 'group')
        if not kids and ps and r.random() < .5:
            self.lines.append('%s; %s' % (head, '; '.join(ps)))
            return
        self.lines.append(head)
        q = p + '  '
        while ps:
            k = r.choice([1, 1, 2])
            self.lines.append(q + '; '.join(ps[:k]))
            ps = ps[k:]
        if kind == 'block' and depth > 0: self.inner(ind + 1, depth - 1)
        elif kind == 'block': self.inst('config', ind + 1, 0)
        if kind == 'proc': [self.inst(r.choice(['param', 'return']), ind + 1, 0) for _ in range(r.choice([1, 2]))]
        if kind == 'stream':
            k = r.choice(['param', 'return'])
            [self.inst(k, ind + 1, 0) for _ in range(r.choice([1, 2]))]
        if kind == 'group': [self.inst('config', ind + 1, 0, False) for _ in range(r.choice([1, 2]))]
    def inner(self, ind, depth):
        r = self.r
        for _ in range(r.choice([1, 2, 3, 4])):
            k = r.choice(['config', 'config', 'status', 'mask', 'static', 'irq', 'proc', 'stream', 'block', 'group', 'const', 'type', 'blank'])
            if k == 'const': self.const(ind)
            elif k == 'blank': self.lines.append('')
            elif k == 'type': self.type(ind)
            elif k == 'block' and depth == 0: continue
            else: self.inst(k, ind, depth)
    def type(self, ind):
        r = self.r
        p = '  ' * ind
        self.doc(ind)
        n = self.new('t_')
        pars = r.sample(['A', 'B_', 'size'], r.choice([0, 1, 2]))
        pl = '(%s)' % ', '.join(x if r.random() < .5 and k == 0 else '%s = %s' % (x, self.num(4, 9)) for k, x in enumerate(pars)) if pars else ''
        self.lines.append('%stype %s%s config' % (p, n, pl))
        if pars: self.lines.append(p + '  width = %s' % r.choice([pars[0], pars[0] + ' + 1', '2 * ' + pars[0] + '-1']))
        else: self.lines[-1] += r.choice(['', '; atomic = true', '; width = 9'])
        self.doc(ind)
        a = [r.choice(['%s' % self.num(4, 9), '%s = %s' % (x, self.num(4, 9))]) if k == 0 else '%s = %s' % (x, self.num(4, 9)) for k, x in enumerate(pars)]
        self.lines.append('%s%s %s%s' % (p, self.new('i'), n, '(%s)' % ', '.join(a) if a else ''))
    def text(self):
        r = self.r
        L = self.lines
        if r.random() < .3: L.append('')
        for _ in range(r.choice([0, 1, 2])): self.const(0)
        for _ in range(r.choice([0, 1])):
            n = self.new('T')
            self.doc(0)
            L.append('type %s config; width = 5' % n)
        self.doc(0)
        L.append('Main bus')
        for x in r.sample(['width = 32', 'masters = 2', 'reset = "Sync"'], r.choice([0, 1, 2])): L.append('  ' + x)
        self.inner(1, r.choice([0, 1, 2]))
        self.inst(r.choice(['config', 'status', 'proc']), 1, 0)
        for _ in range(r.choice([0, 0, 1])): self.const(0)
        return '\n'.join(L) + '\n'

# ------------------------------------------------------------------ tokens of one line, for rewriting only
TOK = re.compile(r'\s+|#.*|[bBoOxX]?"[^"\n]*"|0[xX][0-9a-fA-F]+|0[bB][01]+|0[oO][0-7]+|[0-9][0-9.]*(?:[eE][0-9]+)?|[A-Za-z_][\w.]*(?:-[\w.]+)*|\*\*|==|!=|<=|>=|<<|>>|&&|\|\||.')
def toks(line):
    """(indentation, tokens, comment)"""
    ind = len(line) - len(line.lstrip(' '))
    ts = [t for t in TOK.findall(line[ind:]) if not t.isspace()]
    c = ''
    if ts and ts[-1].startswith('#'): c = ts.pop()
    out = []
    for t in ts:        # hyphens outside of properties
        if '-' in t and re.match(r'[A-Za-z_]', t) and not t.endswith(('-value', '-enable', '-trigger', '-latency')):
            parts = re.split('(-)', t)
            out += [x for x in parts if x]
        else: out.append(t)
    return ind, out, c
def wordy(t): return bool(re.match(r'[\w"]', t[0]))
def space(r, ts, wild=.3):
    o = ''
    for k, t in enumerate(ts):
        if k:
            a, b = ts[k - 1], t
            need = (wordy(a[-1]) and (wordy(b[0]))) or (re.match(r'\d', a) and b[0] in '[!"#') or a + b[0] in ('**', '<<', '>>', '&&', '||') or (a in '=<>!*&|' and b[0] in '=<>*&|')
            o += ' ' * (r.choice([1, 1, 2, 5]) if need else r.choice([0, 1, 1, 3])) if r.random() < wild else (' ' if need or not (a in '([' or b[0] in ')],;([' or a in '-+!') else '')
        o += t
    return o

def base(r, t):
    n = int(t, 0)
    z = r.choice(['', '', '0', '00'])
    return r.choice([str(n), ('0x' if r.random() < .7 else '0X') + z + (('%x' if r.random() < .5 else '%X') % n),
                     ('0b' if r.random() < .7 else '0B') + z + bin(n)[2:], ('0o' if r.random() < .7 else '0O') + z + '%o' % n])

def refloat(r, t):
    """another spelling of a float literal"""
    m = re.fullmatch(r'(\d+)(?:\.(\d+))?(?:[eE](\d+))?', t)
    w, f, e = m[1], m[2] or '', int(m[3] or 0)
    k = r.randrange(6)
    if k == 0 and e < 9: f = (f + '0' * 9)[:max(len(f), e)]; return w + f[:e] + '.' + (f[e:] or '0')
    if k == 1: return w + '.' + f + '0' * r.randrange(1, 3) + ('e%d' % e if e or r.random() < .5 else '')
    if k == 2 and len(f) <= e: return w + f + r.choice('eE') + str(e - len(f))
    if k == 3 and len(w) > 1: return w[:-1] + '.' + w[-1] + f + r.choice('eE') + str(e + 1)
    if k == 4 and (m[2] is not None or m[3]): return w + '.' + (f or '0') + r.choice('eE') + r.choice(['', '0']) + str(e)
    return w + ('.' + f if f else '') + r.choice('eE') + str(e)

def rewrite(r, text):
    """a text meant to mean the same"""
    ls = [toks(l) for l in text.split('\n')]
    if ls and ls[-1] == (0, [], ''): ls.pop()
    kinds = r.sample(['base', 'float', 'space', 'blank', 'comment', 'inline', 'split', 'paren', 'comma', 'consts', 'swap', 'end'], r.choice([1, 1, 2, 3, 6]))
    # lines: [ind, toks, comment]
    L = [list(x) for x in ls]
    if 'split' in kinds:          # inline properties -> body
        out = []
        for k, (ind, t, c) in enumerate(L):
            isprop = len(t) > 1 and t[1] == '='
            if ';' in t and r.random() < .7:
                parts, cur = [], []
                for x in t:
                    if x == ';': parts.append(cur); cur = []
                    else: cur.append(x)
                parts.append(cur)
                out.append([ind, parts[0], c])
                out += [[ind if isprop else ind + 2, q, ''] for q in parts[1:]]
            else: out.append([ind, t, c])
        L = out
    if 'inline' in kinds:         # property lines joined, or put on the line of the functionality without other body
        out = []
        def prop(x): return len(x[1]) > 2 and x[1][1] == '=' and x[1][0] not in ('const',) and re.match(r'(width|atomic|init-value|read-value|reset-value|range|clear|in-trigger|out-trigger|masters|reset|delay|size|align|virtual|add-enable|enable-init-value)$', x[1][0])
        k = 0
        while k < len(L):
            x = L[k]
            j = k + 1
            while j < len(L) and prop(L[j]) and L[j][0] == x[0] + 2: j += 1
            end = j >= len(L) or (L[j][0] <= x[0] and (L[j][1] or L[j][2]))
            if x[1] and not prop(x) and x[1][0] != 'const' and j > k + 1 and end and r.random() < .7 and ';' not in x[1]:
                t = list(x[1])
                for y in L[k + 1:j]: t += [';'] + y[1]
                out.append([x[0], t, x[2]]); k = j
                continue
            if prop(x) and k + 1 < len(L) and prop(L[k + 1]) and L[k + 1][0] == x[0] and r.random() < .5:
                out.append([x[0], x[1] + [';'] + L[k + 1][1], '']); k += 2
                continue
            out.append(x); k += 1
        L = out
    if 'consts' in kinds:
        out = []
        for ind, t, c in L:
            if len(t) > 3 and t[0] == 'const' and r.random() < .6 and not (out and out[-1][2] and not out[-1][1]):
                out += [[ind, ['const'], c], [ind + 2, t[1:], '']]
            else: out.append([ind, t, c])
        L = out
    if 'swap' in kinds:
        for k in range(len(L) - 1):
            a, b = L[k], L[k + 1]
            kind = lambda x: 'const' if x[1][:1] == ['const'] and len(x[1]) > 1 else 'prop' if len(x[1]) > 2 and x[1][1] == '=' else ''
            if a[0] == b[0] and kind(a) and kind(b) and kind(a) != kind(b) and r.random() < .8: L[k], L[k + 1] = b, a
    def each(f):
        for x in L:
            x[1] = [y for k, t in enumerate(x[1]) for y in f(x[1], k, t)]
    isint = lambda ts, k: bool(re.fullmatch(r'\d+|0[xXbBoO]\w+', ts[k])) and not (ts[k][0] == '0' and ts[k].isdigit() and len(ts[k]) > 1) and not (k + 1 < len(ts) and ts[k + 1] in ('s', 'ms', 'us', 'ns'))
    if 'base' in kinds: each(lambda ts, k, t: [base(r, t)] if isint(ts, k) and r.random() < .6 else [t])
    isfloat = lambda ts, k: bool(re.fullmatch(r'\d+\.\d+(?:[eE]\d+)?|\d+[eE]\d+', ts[k]))
    if 'float' in kinds: each(lambda ts, k, t: [refloat(r, t)] if isfloat(ts, k) and r.random() < .8 else [t])
    if 'paren' in kinds: each(lambda ts, k, t: ['('] + [t] + [')'] if isint(ts, k) and r.random() < .4 else [t])
    if 'comma' in kinds: each(lambda ts, k, t: [',', t] if t == ']' and k > 2 and '=' in ts[:k] and ts[k - 1] not in ('[', ',') and r.random() < .8 else [t])
    out = []
    for k, (ind, t, c) in enumerate(L):
        if t or c:
            s = ' ' * ind + (space(r, t) if 'space' in kinds else space(r, t, 0))
            if t and c: s += ' '
            s += c
            if 'comment' in kinds and t and not c and r.random() < .3: s += r.choice([' ', '  ', ' ']) + r.choice(['# comment', '#', '#; width = 3', '# "', '#\t.'])
            prev = L[k - 1] if k else None
            if 'comment' in kinds and t and r.random() < .25 and not (prev and prev[2] and not prev[1]):
                out += [' ' * ind + r.choice(['# remark', '#', '# const A = "']), '']
            if 'blank' in kinds and r.random() < .3 and not (prev and prev[2] and not prev[1]): out += [''] * r.choice([1, 1, 2])
            out.append(s)
        else: out.append('')
    s = '\n'.join(out) + '\n'
    if 'end' in kinds: s = r.choice(['', '\n', '# top\n\n', '\n\n']) * (not s.startswith('#')) + s.rstrip('\n') + r.choice(['', '\n', '\n\n\n', '\n# end', '\n# end\n', '  ', ' # end'])
    return s

ALPHA = list(' \t\n#;,:=!+-*/%<>()[]&|"abXo019._@$~\\{}') + ['  ', ' \n', '\n\n', ';;', ',,', '0x', '0b', 'b"', 'x"', '1.', '**', '==', 'width', 'const', 'type', 'bus', 'init-value', '\n  ', '\n    ', '\n   ', '\n      ']
def damage(r, text):
    """a small change anywhere"""
    k = r.randrange(10)
    i = r.randrange(len(text) + 1)
    ls = text.split('\n')
    if k < 3: return text[:i] + r.choice(ALPHA) + text[i:]
    if k < 5: return text[:i] + text[i + r.choice([1, 1, 2]):]
    if k < 6 and i < len(text): return text[:i] + r.choice(ALPHA) + text[i + 1:]
    j = r.randrange(len(ls))
    if k < 7: ls[j] = r.choice([' ', '  ', '    ']) + ls[j]
    elif k < 8: ls[j] = ls[j][r.choice([1, 2]):] if ls[j].startswith(' ') else ls[j] + r.choice([' ', '  ', ';', ','])
    elif k < 9: ls.insert(j, r.choice([ls[r.randrange(len(ls))], ls[j], '  ', 'const', 'x', 'import', '  # c', '# c']))
    else:
        ts = TOK.findall(ls[j])
        if len(ts) > 1:
            m = r.randrange(len(ts))
            x = r.random()
            if x < .4: del ts[m]
            elif x < .7: ts.insert(m, ts[m])
            else:
                m2 = r.randrange(len(ts)); ts[m], ts[m2] = ts[m2], ts[m]
            ls[j] = ''.join(ts)
    return '\n'.join(ls)
