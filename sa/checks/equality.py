from .base import *

PUBLIC = ('ParseResult', 'ParseError', 'Value', 'StrType', 'Children', 'PosNeg', 'TimeOffset', 'TimeOffsetAmount', 'Date', 'Time', 'DateTime')

def spec_eq(I, st, ra, rb, ty, seen=()):
    """structural equality as the property states it: [(state, bool)]"""
    P = I.p; t = P.types[ty]; k = t['k']; n = t.get('name')
    val = lambda s, r: I.load(s, r) if isinstance(r, tuple) and r[0] == 'ref' else r
    if k == 'ref': return spec_eq(I, st, val(st, ra), val(st, rb), t['e'], seen)
    if P.is_str(ty): return I.str_eq(st, I.strval(st, ra), I.strval(st, rb))
    if k in ('int', 'char'): return I.cmp(st, 'Eq', val(st, ra), val(st, rb))
    if k == 'bool':
        return [(s2, x == y) for s, x in I.decide(st, val(st, ra)) for s2, y in I.decide(s, val(s, rb))]
    if k == 'adt' and n in ('std::rc::Rc', 'std::boxed::Box'):
        return spec_eq(I, st, I.deref(st, val(st, ra)), I.deref(st, val(st, rb)), t['args'][0], seen)
    if k == 'adt' and n in ('std::cell::Cell', 'std::cell::RefCell'):
        return spec_eq(I, st, I.sub(st, ra, 'C'), I.sub(st, rb, 'C'), t['args'][0], seen)
    if k == 'adt' and n == 'std::collections::HashMap':
        va, vb = I.load(st, ra), I.load(st, rb)
        if va == vb: return [(st, True)]
        return I.opaque(st, ('eqmap', repr(va), repr(vb)))
    va, vb = I.load(st, ra), I.load(st, rb)
    if va == vb: return [(st, True)]
    if va[0] == 'sym' and vb[0] == 'sym':
        key = ('eq', ty) + tuple(sorted((va[1], vb[1]), key=repr))
        if key in st.exp: return [(st, st.exp[key])]
        if ty in seen: return I.opaque(st, key)
    if I.isvecty(ty):
        out = []
        for s, x in I.expand_fork(st, va):
            for s2, y in I.expand_fork(s, vb):
                if len(x[1]) != len(y[1]): out.append((s2, False)); continue
                out += conj(I, s2, [(I.sub(s2, ra, ('i', i)), I.sub(s2, rb, ('i', i)), I.elemty(ty)) for i in range(len(x[1]))], seen)
        return out
    if k == 'tuple':
        return conj(I, st, [(I.sub(st, ra, ('f', i)), I.sub(st, rb, ('f', i)), f) for i, f in enumerate(t['f'])], seen)
    if k == 'adt':
        out = []
        for s, x in I.expand_fork(st, va):
            for s2, y in I.expand_fork(s, vb):
                if x[2] != y[2]: out.append((s2, False)); continue
                fs = t['v'][x[2]][2]
                g = lambda r, i: I.sub(s2, I.sub(s2, r, ('d', x[2])) if t['ak'] == 'enum' else r, ('f', i))
                out += conj(I, s2, [(g(ra, i), g(rb, i), f[1]) for i, f in enumerate(fs)], seen + (ty,))
        return out
    raise Unk('spec equality of ' + P.tyname(ty))

def conj(I, st, items, seen):
    cur = [(st, True)]; out = []
    for a, b, t in items:
        nx = []
        for s, r in cur:
            if not r: out.append((s, False))
            else: nx += spec_eq(I, s, a, b, t, seen)
        cur = nx
    return out + cur

def c19(ctx):
    """Abstract interpretation of every PartialEq::eq of the public value types (derived ones included) on two unknown operands.
    The property's structural equality is evaluated on each path's facts: a path answering true must have established the kind
    and every component equal, a path answering false must have established a difference.  Nested values are compared through
    their own impls, which are checked separately (induction over the nesting)."""
    P = ctx.prog()
    ctx.rules = ['eq(path) == structural equality of kind and all components under the facts of the path']
    for name in PUBLIC:
        insts = [i for i in P.insts.values() if i['local'] and i.get('trait') == 'std::cmp::PartialEq::eq' and 'bbs' in i
                 and P.T(P.peel(i['locals'][1])).get('name', '').split('::')[-1] == name]
        if not insts: ctx.violate('anchor:eq of ' + name, 'no PartialEq implementation of %s found' % name)
        for inst in insts:
            self_t = P.peel(inst['locals'][1]); other_t = P.peel(inst['locals'][2])
            I, outs = analyse(ctx, P, inst, names=['self', 'other'], maxlen=2)
            for o in outs:
                if o.kind == 'panic': ctx.violate('eq of %s panics' % name, 'panic while comparing: ' + path_of(o)); continue
                if o.kind != 'ret': continue
                try:
                    for st, verdict in I.decide(o.st, o.val):
                        for s2, want in spec_eq(I, st, ('ref', ('S', 'self', self_t), ()), ('ref', ('S', 'other', other_t), ())  , self_t):
                            ctx.obligation(want == verdict, 'eq of %s answers %s' % (name, verdict),
                                '%s answers %s although component equality is %s when: %s' % (where(P, inst), verdict, want, path_of(Out('', s2), 20)),
                                sample='%s::eq=%s when %s' % (name, verdict, path_of(o)))
                except Unk as u:
                    ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
    ctx.floor('functions analysed as entry', len(PUBLIC))

CHECKS = {'C19': c19}
