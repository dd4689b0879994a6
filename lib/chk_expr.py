"""C12: values of expressions (spec/Expr.tla)."""
import json
from decimal import Decimal
import vf

MC = '''SPECIFICATION Spec
CONSTANTS OPS = {%s}
NUMS = {%s}
MAXLEN = %d
PARENS = %s
EMIT = %s
INVARIANTS C12 StackOK Emit
CHECK_DEADLOCK FALSE
'''
TR = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
'''
def model(ops, nums, maxlen, parens, emit=False, workers=8, timeout=800):
    cfg = MC % (','.join('"%s"' % o for o in ops), ','.join(map(str, nums)), maxlen, str(parens).upper(), str(emit).upper())
    t = vf.tlc('ExprMC', cfg, workers=workers, timeout=timeout, heap='8g')
    if t.violated:
        raise vf.Inconclusive('the specification itself breaks %s:\n%s' % (t.violated, t.out[-2000:]))
    return t

# ------------------------------------------------------------- tokens
PREFIX = {2: '0b', 8: '0o', 16: '0x', 10: ''}
def N(x, b=10):
    ds = []
    y = x
    while y:
        ds.append(y % b); y //= b
    return dict(k='num', b=b, ds=ds[::-1] or [0])
def O(o): return dict(k='op', o=o)
def ID(n): return dict(k='id', name=n)
def tx(t):
    k = t['k']
    if k == 'num': return t.get('pre', PREFIX[t['b']]) + ''.join((t.get('up') and '0123456789ABCDEF' or '0123456789abcdef')[d] for d in t['ds'])
    if k == 'float': return t['src']
    if k == 'bool': return str(t['v']).lower()
    if k == 'time': return '%s %s' % (''.join(map(str, t['n'])), t['u'])
    if k == 'str': return '"%s"' % t['v']
    if k == 'bits': return t['src']
    if k == 'id': return t['name']
    if k == 'op': return t['o']
    if k == 'fn': return t['name'] + '('
    return k

def join(toks, r=None):
    """Text of the tokens. Words are separated by a space; a unary operator may touch its operand."""
    out = ''
    prev = None
    for t in toks:
        s = tx(t)
        if prev is not None:
            a, b = prev['k'], t['k']
            if b in (')', ']', ',') or a in ('(', '[', 'fn'):
                sp = ''
            elif r is None or a == 'op' and b == 'op':
                sp = ' '
            else:
                sp = r.choice(['', ' ', ' ', ' '])
                if a != 'op' and b != 'op' and a != ',':
                    sp = ' '
                # a hyphen may be part of a word
                if 'op' in (a, b) and (prev.get('o') == '-' or t.get('o') == '-'):
                    sp = ' '
            out += sp
        out += s
        prev = t
    return out

def digits(n):
    return [int(x) for x in reversed(str(n))] if n else []
def big(n):
    return dict(neg=n < 0, d=digits(abs(n)))
def isint(x): return isinstance(x, int) and not isinstance(x, bool)

def recfloat(lit):
    s, d, e = Decimal(lit).as_tuple()
    n = int(''.join(map(str, d)))
    return dict(t='float', neg=bool(s), n=digits(n), s=-e if n else 0)

class Fl(str):
    pass
def loads(s):
    return json.loads(s, parse_float=Fl)

def reccst(cs, name):
    got = [(k, v[name]) for k, v in (cs or {}).items() if v and name in v]
    if not got: return dict(t='none')
    if len(got) > 1: return dict(t='many')
    k, v = got[0]
    if k == 'Ints' and isint(v): return dict(t='int', v=big(v))
    if k == 'Floats': return recfloat(str(v))
    if k == 'Bools': return dict(t='bool', v=v)
    if k == 'Strings': return dict(t='str', v=v)
    if k == 'IntLists': return dict(t='ints', xs=[big(x) for x in v])
    if k == 'BoolLists': return dict(t='bools', xs=v)
    return dict(t='other', k=k)

# a case: [dict(name, toks, sink)] in the order of dependencies
def render(case, r):
    pk, body, main = [], [], []
    order = list(case)
    if r: r.shuffle(order)
    for i, k in enumerate(order):
        if k['sink'] == 'pkg':
            pk.append('const %s = %s' % (k['name'], k['text']))
        elif k['sink'] == 'const':
            body.append('  const %s = %s' % (k['name'], k['text']))
        elif k['sink'] == 'range':
            body += ['  %s config' % k['name'], '    range = %s' % k['text']]
        elif k['sink'] == 'delay':
            body += ['  %s proc' % k['name'], '    delay = %s' % k['text']]
    return '\n'.join(pk + ['Main bus'] + body) + '\n'

def got(k, j, dump):
    if k['sink'] == 'pkg':
        return reccst((dump or {}).get('main', {}).get('Consts'), k['name'])
    if k['sink'] == 'const':
        return reccst(j['Consts'], k['name'])
    x = [y for y in (j['Configs' if k['sink'] == 'range' else 'Procs'] or []) if y['Name'] == k['name']]
    if len(x) != 1: return dict(t='missing')
    if k['sink'] == 'range':
        g = x[0]['Range']
        if g is None or not ('Start' in g and 'End' in g): return dict(t='other')
        return dict(t='range', l=big(g['Start']), r=big(g['End']))
    g = x[0]['Delay']
    if g is None: return dict(t='other')
    return dict(t='time', s=big(g['S']), ns=big(g['Ns']))

# ------------------------------------------------------------- random expressions
BIN = ['+', '-', '*', '/', '%', '**', '<<', '>>']
class Gen:
    def __init__(self, r):
        self.r = r
        self.ints, self.bools, self.rats = [], [], []
        self.wild = r.random() < .15        # ill-typed and ill-formed expressions
    def number(self):
        r = self.r
        x = r.choice([0, 1, 2, 3, 5, 7, 8, 10, 16, r.randrange(100), r.randrange(100), r.randrange(1 << 16),
                      r.choice([2 ** 31, 2 ** 31 - 1, 2 ** 32, 2 ** 62, 2 ** 63 - 1, 2 ** 53, r.randrange(1 << 48)])]
                     + ([2 ** 63, 2 ** 64] if r.random() < .05 else []))
        t = N(x, r.choice([10, 10, 10, 2, 8, 16]))
        if t['b'] != 10:
            if r.random() < .3: t['pre'] = PREFIX[t['b']].upper()
            if r.random() < .3: t['ds'] = [0] + t['ds']
            t['up'] = r.random() < .5
        return t
    def small(self):
        return N(self.r.choice([0, 1, 2, 2, 3, 4, 5, 10]), self.r.choice([10, 10, 2, 16]))
    def int_(self, d):
        r = self.r
        x = r.random()
        if self.wild and r.random() < .08:
            return r.choice([self.bool_, self.rat, self.str_, self.list_, self.bad])(d - 1)
        if d <= 0 or x < .2:
            if self.ints and r.random() < .4: return [ID(r.choice(self.ints))]
            return [self.number() if r.random() < .5 else self.small()]
        if x < .6:
            n = r.choice([2, 2, 2, 3, 4])
            out = self.int_(d - 1)
            for _ in range(n - 1):
                o = r.choice(BIN + ['+', '-', '*'])
                if o in ('<<', '**') and r.random() < .25:      # large results
                    out = [self.small()] if r.random() < .7 else out
                    rhs = [N(r.randrange(8, 64 if o == '<<' else 20), r.choice([10, 10, 16]))]
                elif o == '>>' and r.random() < .3:
                    rhs = [N(r.randrange(0, 70))]
                else:
                    rhs = [self.small()] if o in ('**', '<<', '>>', '/') and r.random() < .8 else self.int_(d - 1)
                out = out + [O(o)] + rhs
            return out
        if x < .75: return [dict(k='(')] + self.int_(d - 1) + [dict(k=')')]
        if x < .87: return [O(r.choice('-+-'))] + self.int_(d - 1)
        f = r.choice(['ceil', 'floor'])
        y = r.random()
        if y < .4: a = [N(r.randrange(1, 5000)), O('/'), N(r.choice([1, 2, 3, 7, 10, 64, 100]))]
        elif y < .5: a = [O('-'), dict(k='('), N(r.randrange(1, 5000)), O('/'), N(r.choice([2, 3, 7, 10])), dict(k=')')]
        elif y < .6: a = [dict(k='('), O('-'), N(r.randrange(1, 5000)), dict(k=')'), O('/'), N(r.choice([2, 3, 7, 10]))]
        elif y < .68:
            neg = lambda n: [dict(k='('), O('-'), N(n), dict(k=')')]
            a = neg(r.randrange(1, 5000)) + [O('/')] + neg(r.choice([2, 3, 7, 10]))
        elif y < .83: a = self.log(d)
        elif y < .9: a = self.rat(0)
        else: a = self.int_(d - 1)
        return [dict(k='fn', name=f)] + a + [dict(k=')')]
    def log(self, d):
        r = self.r
        b = r.choice([2, 10])
        x = r.choice([0, 1, 2, 3, 4, 7, 8, 9, 10, 31, 32, 33, 99, 100, 101, 1000, 1023, 1024, 1025, 2 ** 20, 10 ** 6, 10 ** 9, 2 ** 31, 2 ** 32 - 1,
                      2 ** 40, 10 ** 12, r.randrange(1, 1000), 2 ** r.randrange(47), 10 ** r.randrange(15)])
        if r.random() < .06: x = 0
        a = [N(x)]
        if r.random() < .15: a = [N(1), O('/'), N(r.choice([2, 3, 4, 8, 10, 100, 1024]))]
        elif r.random() < .1: a = self.rat(0)
        elif r.random() < .1 and d > 0: a = self.int_(0)
        if r.random() < .04: a = [O('-')] + a
        return [dict(k='fn', name='log%d' % b)] + a + [dict(k=')')]
    def rat(self, d=0):
        r = self.r
        if self.rats and r.random() < .3: return [ID(r.choice(self.rats))]
        n = str(r.randrange(1, 10 ** r.choice([1, 2, 4, 8])))
        f = ''.join(r.choice('0123456789') for _ in range(r.choice([1, 2, 3, 5])))
        y = r.random()
        src, s = n + '.' + f, len(f)
        ds = n + f
        if y < .15:
            e = r.randrange(0, 6); src += r.choice('eE') + str(e); s -= e
        elif y < .25:
            e = r.randrange(0, 6); src = n + r.choice('eE') + str(e); s = -e; ds = n
        if s < 0:
            ds += '0' * -s; s = 0
        return [dict(k='float', n=[int(c) for c in ds], s=s, src=src)]
    def bool_(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .4:
            if self.bools and r.random() < .4: return [ID(r.choice(self.bools))]
            return [dict(k='bool', v=r.random() < .5)]
        if x < .6: return [O('!')] + self.bool_(d - 1)
        if x < .7: return [dict(k='(')] + self.bool_(d - 1) + [dict(k=')')]
        return [dict(k='fn', name='bool')] + self.int_(d - 1) + [dict(k=')')]
    def list_(self, d):
        r = self.r
        f = r.choice([self.int_, self.int_, self.bool_])
        out = [dict(k='[')]
        for i in range(r.choice([1, 1, 2, 3, 5])):
            if i: out.append(dict(k=','))
            out += (f if r.random() < .95 else self.rat)(d - 1)
        return out + [dict(k=']')]
    def str_(self, d):
        r = self.r
        return [dict(k='str', v=''.join(r.choice('abcXYZ 019-_:;,.#=+*()[]') for _ in range(r.choice([0, 1, 3, 8]))))]
    def bits(self, d=0):
        return [dict(k='bits', src=self.r.choice(['b"01"', 'x"ff"', 'o"17"', 'X"aZ"']))]
    def time(self, d=0):
        r = self.r
        return [dict(k='time', n=[int(c) for c in str(r.choice([0, 1, 5, 999, 1000, 1001, 999999999, 10 ** 9, 1234567890123, r.randrange(10 ** 6), 10 ** 6, 3 * 10 ** 9 + 7]))],
                     u=r.choice(['s', 'ms', 'us', 'ns']))]
    def range_(self, d):
        return self.int_(d - 1) + [O(':')] + self.int_(d - 1)
    def bad(self, d):
        r = self.r
        return r.choice([[O(r.choice(['*', '/', '**']))] + self.int_(0), [dict(k='(')] + self.int_(0), self.int_(0) + [dict(k=')')],
                         self.int_(0) + self.int_(0), [dict(k='fn', name=r.choice(['foo', 'log3', 'abs']))] + self.int_(0) + [dict(k=')')],
                         [dict(k='fn', name=r.choice(['log2', 'ceil', 'bool'])), dict(k=')')],
                         [dict(k='fn', name='log2')] + self.int_(0) + [dict(k=',')] + self.int_(0) + [dict(k=')')],
                         [ID('UNDEFINED')], self.bits(), self.time(), self.int_(0) + [O(':')] + self.int_(0),
                         self.int_(0) + [O(r.choice(['/', '%']))] + [N(0)], self.int_(0) + [O(r.choice(['<<', '>>']))] + [dict(k='('), O('-'), N(1), dict(k=')')],
                         [dict(k='['), dict(k=',')], [dict(k='[')] + self.int_(0), self.bool_(0) + [O('+')] + self.int_(0)])
    def case(self):
        r = self.r
        out = []
        for i in range(r.choice([1, 2, 3, 4, 6])):
            y = r.random()
            kind = 'int' if y < .55 else 'bool' if y < .63 else 'list' if y < .73 else 'rat' if y < .8 else 'log' if y < .85 else \
                'str' if y < .88 else 'range' if y < .93 else 'time' if y < .97 else 'bits'
            d = r.choice([0, 1, 2, 2, 3])
            if kind == 'rat' and r.random() < .6:
                toks = [N(r.randrange(1, 10 ** 6)), O('/'), N(r.randrange(1, 10 ** 4))]
                if r.random() < .6:
                    par = lambda t: [dict(k='('), O('-')] + t + [dict(k=')')]
                    a, b = [toks[0]], [toks[2]]
                    toks = (par(a) if r.random() < .6 else a) + [O('/')] + (par(b) if r.random() < .6 else b)
                if r.random() < .2: toks = self.int_(1) + [O('**'), O('-'), self.small()]
            else:
                toks = dict(int=self.int_, bool=self.bool_, list=self.list_, rat=self.rat, log=self.log, str=self.str_, range=self.range_, time=self.time, bits=self.bits)[kind](d)
            name = '%s%d' % (r.choice(['A', 'FOO', 'C_', 'W']), i)
            sink = r.choice(['const', 'const', 'const', 'pkg'])
            if any(k['sink'] == 'const' for k in out) and sink == 'pkg' and any(t['k'] == 'id' for t in toks):
                sink = 'const'          # a package constant does not see the constants of the bus
            if kind == 'range' and r.random() < .8: sink, name = 'range', 'c%d' % i
            if kind == 'time' and r.random() < .8: sink, name = 'delay', 'p%d' % i
            out.append(dict(name=name, toks=toks, sink=sink))
            if sink in ('const', 'pkg'):
                l = dict(int=self.ints, bool=self.bools, rat=self.rats).get(kind)
                if l is not None: l.append(name)
        return out

def execute(c, cases):
    """cases: (tag, case, rng or None). Compiles them and validates the recorded values."""
    def one(x):
        tag, case, r = x
        for k in case: k['text'] = join(k['toks'], r)
        text = render(case, r)
        return tag, case, text, vf.run(text, dump=True, args=['-main', 'Main'])
    texts, events = {}, []
    for tag, case, text, res in vf.pmap(one, cases):
        texts[tag] = text
        j = loads(res.out) if res.ok else None
        e = dict(ev=tag, rc=-1 if res.timeout else res.rc, consts=[])
        for k in case:
            g = dict(t='none')
            if j is not None:
                # the dump is parsed without keeping the literals of floats: read it again from the output for those
                g = got(k, j, res.dump)
            toks = [{x: v for x, v in t.items() if x not in ('src', 'pre', 'up')} for t in k['toks']]
            e['consts'].append(dict(name=k['name'], sink=k['sink'], text=k['text'], toks=toks, got=g))
        c.count('accepted' if res.ok else 'rejected')
        events.append(e)
    t = vf.tlc_shards('ExprTrace', TR, 'trace.ndjson', events)
    c.cov['trace_states'] = c.cov.get('trace_states', 0) + t.distinct
    c.validated(len(events))
    seen = set()
    for v in t.lines:
        k = (v['ev'], v['rule'])
        if k not in seen:
            seen.add(k)
            c.violation('%s: %s' % (v['rule'], json.dumps(v['what'], sort_keys=True)[:300]), v['what'], dict(text=texts[v['ev']], rule=v['rule'], what=v['what']))
    c.sample(dict(description=texts[events[-1]['ev']], recorded=events[-1]))

def check(c):
    r = vf.rng('C12')
    vf.build()
    allops = ['+', '-', '*', '/', '%', '**', '<<', '>>', ':', '==', '!']
    t = model(allops, [2, 3], 7, False)
    c.add_tlc(t, 'all sequences of up to 7 tokens')
    t = model(['-', '*', '**', '%'], [2, 3], 7 if c.quick else 9, True)
    c.add_tlc(t, 'sequences with parentheses')
    cases = []
    for ops, nums, n, par, lim in ((['+', '-', '*', '/', '%', '**', '<<', '>>'], [2, 3], 5, False, 700), (['-', '*', '**', '+'], [3], 7, False, 500), (['-', '**', '/'], [7], 7, True, 400), (['-', '/', '*'], [3, 2], 8, True, 700)):
        t = model(ops, nums, n, par, True)
        c.add_tlc(t)
        xs = sorted((x['toks'] for x in t.lines), key=json.dumps)
        c.count('behaviours_of_the_specification', len(xs))
        if c.quick and len(xs) > lim: xs = r.sample(xs, lim)
        cases += [[dict(name='A', toks=x, sink='const')] for x in xs]
    # several expressions of the specification share a description, unless one of them is an error
    out = [('s%d' % n, x, None) for n, x in enumerate(cases)]
    for n in range(1200 if c.quick else 20000):
        rr = vf.rng('C12/%d' % n)
        out.append(('r%d' % n, Gen(rr).case(), rr))
    execute(c, out)
    c.assumptions.append('results outside of 64 bits are not specified; floats are compared with a relative tolerance of 1e-12, logarithms of other than powers to 1/16')
