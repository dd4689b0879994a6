"""Compiled programs as events of spec/ElabTrace.tla: the listing of the main bus, the constants of the packages, the location of a message."""
import re
import vf, instgen, chk_expr

ORDER = [('blackbox', 'Blackboxes'), ('config', 'Configs'), ('group', 'Groups'), ('irq', 'Irqs'), ('mask', 'Masks'), ('param', 'Params'), ('proc', 'Procs'),
         ('return', 'Returns'), ('static', 'Statics'), ('status', 'Statuses'), ('stream', 'Streams'), ('block', 'Subblocks')]

def plain(v):
    """values read with chk_expr.loads, floats as floats again"""
    if isinstance(v, chk_expr.Fl): return float(v)
    if isinstance(v, dict): return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list): return [plain(x) for x in v]
    return v

def consts(cs, **kw):
    out = []
    for k, d in (cs or {}).items():
        for n in d or {}:
            out.append(dict(nm=n, **kw, **chk_expr.reccst({k: d}, n)))
    return out

def listing(j, kind='block', path=None, out=None):
    out = [] if out is None else out
    path = j['Name'] if path is None else path
    props = instgen.recorded('bus' if '/' not in path else kind, plain(j))
    if kind == 'static' and path.count('/') == 1 and j['Name'] == 'ID': props = {'width': props['width']}
    if kind == 'block' and '/' in path: props.pop('width', None)
    out.append(dict(path=path, kind=kind, name=j['Name'], doc=j.get('Doc') or '', arr=1 if j.get('IsArray') else 0, cnt=instgen.big(j.get('Count', 1)),
                    props=props or {'': 0}, consts=consts(j.get('Consts'))))
    for k, l in ORDER:
        for x in j.get(l) or []: listing(x, k, path + '/' + x['Name'], out)
    return out

LOC = re.compile(r'(\S+) \+(\d+):(\d+)')
NOLOC = {'f': '', 'l': 0, 'c': 0, 'line': '', 'from': 0, 'to': 0}
def location(err):
    ls = err.split('\n')
    for k, l in enumerate(ls):
        m = LOC.fullmatch(l)
        if not m: continue
        d = dict(NOLOC, f=m[1], l=int(m[2]), c=int(m[3]))
        g = re.match(r' *(\d+) \| ', ls[k + 2]) if len(ls) > k + 3 else None
        if not g or int(g[1]) != int(m[2]): return d
        w = len(g[0])
        u = ls[k + 3]
        i = u.find('^')
        d.update({'line': ls[k + 2][w:], 'from': i - w + 1, 'to': i - w + u.count('^')})
        return d
    return NOLOC

PRE = re.compile(r'(?:error: )?(\S+?):(\d+):(\d+): ')
def prefix(err):
    m = PRE.match(err)
    return dict(f=m[1], l=int(m[2]), c=int(m[3])) if m else dict(f='', l=0, c=0)

def pkg(path):
    return 'main' if '/' not in path else path.split('/')[-2][4:]

def event(tag, files, name='Main', env=None, extra=()):
    """compiles the files (bus.fbd is the main one)"""
    res = vf.run(files=files, args=['-main', name] + list(extra), dump=True, env=env)
    fs = [dict(name=p, pkg=pkg(p), x=list(t)) for p, t in sorted(files.items(), key=lambda x: (x[0] == 'bus.fbd', x[0]))]
    e = dict(ev=tag, files=fs, main=name, rc=-1 if res.timeout else res.rc, stderr=res.err[:400], out=[], consts=[], loc=location(res.err), prefix=prefix(res.err))
    if res.ok:
        e['out'] = listing(chk_expr.loads(res.out))
        d = res.dump
        if d is None: e['rc'] = 3
        else:
            for p, x in d.items(): e['consts'] += consts(x.get('Consts'), pkg=p)
    return e
