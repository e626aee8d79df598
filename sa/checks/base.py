"""Helpers shared by the checks."""
from ..common import *

def where(P, inst):
    f, l = inst['span'][0], inst['span'][1]
    return '%s (%s:%s)' % (strip(inst['name']), P.files[f] if isinstance(f, int) else f, l)

def symargs(I, inst, names=None):
    n = inst['argc']
    return [I.mk(names[i] if names else 'arg%d' % i, inst['locals'][i + 1]) for i in range(n)]

def analyse(ctx, P, inst, args=None, st=None, setup=None, names=None, **kw):
    """all abstract paths of one function: (interp, outs)"""
    I = Interp(P, **kw)
    if setup: setup(I)
    st = st or State()
    if args is None: args = symargs(I, inst, names)
    ctx.count('functions analysed as entry')
    try:
        outs = I.call(st, inst, args)
    except Bound as b:
        ctx.undecided['bound: %s in %s' % (b, inst['name'])] = 1
        outs = []
    except (Unk,) as u:
        ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
        outs = []
    ctx.count('paths', len(outs))
    ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
    ctx.absorb(I)
    return I, outs

def path_of(o, n=12):
    """readable decisions of a path"""
    out = []
    for x in o.st.notelist():
        out.append(' '.join(y if isinstance(y, str) else show(y) if isinstance(y, tuple) and y and y[0] in ('str', 'lin', 'sym') else showprov(y) for y in x))
    return '; '.join(out[:n]) + (' …' if len(out) > n else '')

def constants(P, inst, depth=2, skip=None):
    """integer constants in a function, its closures and local callees"""
    out = set(); seen = set()
    def fn(i, d):
        if i['id'] in seen or 'bbs' not in i or skip and skip(i): return
        seen.add(i['id'])
        for n in P.walk(i['bbs']):
            if isinstance(n, dict) and isinstance(n.get('i'), int) and not isinstance(n['i'], bool): out.add(n['i'])
        if d:
            for c in P.callees(i):
                if c['local']: fn(c, d - 1)
    fn(inst, depth)
    return out
