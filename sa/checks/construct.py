from .base import *
from ..facts import Facts, Unknown

def build(P, ty, x):
    """abstract value of a type from a spec: str term | {field: spec} | (variant, spec...) | None/Some for options"""
    t = P.types[ty]
    if P.is_str(ty) or is_int(x) or isinstance(x, bool): return x
    if t['k'] == 'adt' and t['name'] == 'std::rc::Rc': raise Unk('build rc')
    if isinstance(x, dict):
        fs = t['v'][0][2]
        return ('adt', ty, 0, tuple(build(P, f[1], x[f[0]]) for f in fs))
    name, args = x[0], x[1:]
    for i, (vn, _, fs) in enumerate(t['v']):
        if vn == name: return ('adt', ty, i, tuple(build(P, f[1], a) for f, a in zip(fs, args)))
    raise Unk('variant ' + name)

def opt(x): return ('None',) if x is None else ('Some', x)
def zp(w): return lambda v: ('str', (('pad', (('fill', '0'), ('w', w)), (('num', v),)),))
def num(v): return ('str', (('num', v),))
ident = lambda v: v

def date(y, m, d): return {'year': y, 'month': m, 'day': d}
def time(h, m, s, f=None, off=None): return {'hour': h, 'minute': m, 'second': s, 'fraction': opt(f), 'offset': opt(off)}
def dt(d, t=None): return ('DateTime', {'date': d, 'time': opt(t)})
def amount(sg, h, m): return ('Time', {'pos_neg': ('Pos',) if sg == '+' else ('Neg',), 'hour': h, 'minute': m})

# constructor -> builder over its arguments; returns None when the sign makes it invalid
def table():
    T = {}
    for suf, p4, p2, f in (('int', zp(4), zp(2), num), ('str', ident, ident, ident)):
        T['date_from_' + suf] = lambda a, sg, p4=p4, p2=p2: dt(date(p4(a[0]), p2(a[1]), p2(a[2])))
        D = lambda a, p4=p4, p2=p2: date(p4(a[0]), p2(a[1]), p2(a[2]))
        H = lambda a, p2=p2: (p2(a[3]), p2(a[4]), p2(a[5]))
        T['datetime_from_' + suf] = lambda a, sg, D=D, H=H: dt(D(a), time(*H(a)))
        T['datetime_frac_from_' + suf] = lambda a, sg, D=D, H=H, f=f: dt(D(a), time(*H(a), f=f(a[6])))
        T['datetime_offset_from_' + suf] = lambda a, sg, D=D, H=H, p2=p2: dt(D(a), time(*H(a), off=amount(sg, p2(a[7]), p2(a[8]))))
        T['datetime_zulu_from_' + suf] = lambda a, sg, D=D, H=H: dt(D(a), time(*H(a), off=('Zulu',)))
        T['datetime_full_zulu_from_' + suf] = lambda a, sg, D=D, H=H, f=f: dt(D(a), time(*H(a), f=f(a[6]), off=('Zulu',)))
        T['datetime_full_from_' + suf] = lambda a, sg, D=D, H=H, p2=p2, f=f: dt(D(a), time(*H(a), f=f(a[6]), off=amount(sg, p2(a[8]), p2(a[9]))))
    T['int_from_str'] = lambda a, sg: ('Integer', a[0])
    T['float_from_str'] = lambda a, sg: ('Float', a[0])
    for n, k in (('basic_string', 'Basic'), ('ml_basic_string', 'MLBasic'), ('literal_string', 'Literal'), ('ml_literal_string', 'MLLiteral')):
        T[n] = lambda a, sg, k=k: ('String', a[0], (k,))
    return T
SIGN = {'datetime_offset_from_int': 6, 'datetime_offset_from_str': 6, 'datetime_full_from_int': 7, 'datetime_full_from_str': 7}
INTS = [0, 1, 5, 9, 10, 12, 99, 100, 123, 999, 1000, 1234, 9999, 10000, 123456]

def signs(I, st, v):
    """[(state, '+' | '-' | None)]"""
    out = []
    if is_int(v):
        for s, b in I.cmp(st, 'Eq', v, ord('+')):
            if b: out.append((s, '+')); continue
            out += [(s2, '-' if b2 else None) for s2, b2 in I.cmp(s, 'Eq', v, ord('-'))]
        return out
    for s, b in I.str_eq(st, v, lit('+')):
        if b: out.append((s, '+')); continue
        out += [(s2, '-' if b2 else None) for s2, b2 in I.str_eq(s, v, lit('-'))]
    return out

def validity(I, st, v, ty, vinst):
    """[(state, bool)] abstract result of the value's own validate"""
    s = st.copy(); a = s.alloc(v)
    out = []
    for o in I.call(s, vinst, [('ref', a, ())]):
        if o.kind == 'ret': out += I.decide(o.st, o.val)
        elif o.kind == 'unk': raise Unk('validate undecided')
        else: raise Unk('validate panics')
    return out

def differs(I, P, st, got, want, args):
    """same value?  texts that are not equal as terms are compared on representatives that satisfy the path"""
    if I.same(st, got, want): return False
    if got[0] == 'adt' and want[0] == 'adt':
        if got[2] != want[2] or len(got[3]) != len(want[3]): return True
        r = [differs(I, P, st, x, y, args) for x, y in zip(got[3], want[3])]
        return True if True in r else None if None in r else False
    if got[0] == 'str' and want[0] == 'str':
        return textdiff(I, st, got, want)
    if isinstance(got, (int, bool)) and isinstance(want, (int, bool)): return True
    return None

def textdiff(I, st, got, want):
    F = Facts(I, st, [])
    atoms = set()
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'sym' and len(x) == 3: atoms.add(x); return
            if x and x[0] == 'sl': atoms.add(('buf', x[1])); return
            for y in x: go(y)
    go(got); go(want)
    if len(atoms) > 2 or not atoms: return True if not atoms else None
    import itertools
    F.provs = {a[1] if a[0] == 'buf' else a for a in atoms}
    F.collect()
    cands = [INTS if a[0] == 'sym' else ['', '1', '05', '2019', 'x', '07'] for a in atoms]
    seen = 0
    for combo in itertools.product(*cands):
        asg = {(a[1] if a[0] == 'buf' else a): c for a, c in zip(atoms, combo)}
        try:
            if not F.holds(asg): continue
            seen += 1
            if F.text(got[1], asg) != F.text(want[1], asg): return True
        except Unknown: return None
    return False if seen else None

def c14(ctx):
    """Abstract interpretation of every value constructor with unknown arguments.  Each success path must return exactly the
    value the constructor's contract names (each argument in its own component, zero padded where given as an integer), and that
    value's own validate, interpreted from the facts of the path, must answer true; each error path must leave validate answering
    false (or the sign being neither + nor -)."""
    P = ctx.prog()
    ctx.rules = ['Ok(v): v == contract(arguments) and validate(v) is true under the path facts', 'Err: validate(contract(arguments)) is false under the path facts']
    T = table()
    from .lexical import catching
    from .grammar import Grammar
    G = Grammar(ctx, P)
    for name in sorted(T):
        for inst in ctx.anchor(P, 'types::Value::' + name):
            I, outs = analyse(ctx, P, inst, names=['a%d' % i for i in range(inst['argc'])], setup=lambda I: catching(G, I))
            vty = P.T(inst['locals'][0])['args'][0]
            vinst = ctx.anchor(P, 'types::Value::validate')[0]
            args = symargs(I, inst, ['a%d' % i for i in range(inst['argc'])])
            for o in outs:
                if o.kind == 'panic': ctx.violate(name + ' panics', '%s can panic: %s' % (where(P, inst), path_of(o, 20))); continue
                if o.kind != 'ret': continue
                ok = P.T(o.val[1])['v'][o.val[2]][0] == 'Ok'
                try:
                    sg = signs(I, o.st, args[SIGN[name]]) if name in SIGN else [(o.st, '+')]
                    for st, sign in sg:
                        if sign is None:
                            ctx.obligation(not ok, name + ' accepts a bad sign', '%s succeeds though the sign is neither + nor -: %s' % (where(P, inst), path_of(o, 20)))
                            continue
                        want = build(P, vty, T[name](args, sign))
                        if ok:
                            d = differs(I, P, st, o.val[3][0], want, args)
                            if d is None: raise Unk('component text')
                            ctx.obligation(not d, name + ' component', '%s returns %s, its contract says %s' % (where(P, inst), show(o.val[3][0]), show(want)),
                                           sample='%s -> %s' % (name, show(want)))
                            for s2, v in validity(I, st, o.val[3][0], vty, vinst):
                                ctx.obligation(v, name + ' returns invalid', '%s returns a value that validate refuses: %s' % (where(P, inst), path_of(Out('', s2), 30)))
                        else:
                            for s2, v in validity(I, st, want, vty, vinst):
                                ctx.obligation(not v, name + ' refuses valid', '%s refuses arguments whose value validates: %s' % (where(P, inst), path_of(Out('', s2), 30)))
                except Unk as u:
                    ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
    # infallible ones
    for name, want in (('int', lambda a: ('Integer', num(a[0]))), ('bool', lambda a: ('Boolean', a[0]))):
        for inst in ctx.anchor(P, 'types::Value::' + name):
            I, outs = analyse(ctx, P, inst, names=['a0'])
            args = symargs(I, inst, ['a0'])
            for o in outs:
                if o.kind != 'ret': continue
                w = want(args)
                vty = inst['locals'][0]
                if name == 'bool': good = o.val[0] == 'adt' and P.T(vty)['v'][o.val[2]][0] == 'Boolean' and (o.val[3][0] == args[0] or o.val[3][0] == o.st.exp.get(args[0][1]))
                else:
                    good = not differs(I, P, o.st, o.val, build(P, vty, w), args)
                ctx.obligation(good, name, '%s returns %s' % (where(P, inst), show(o.val)))
    for inst in ctx.anchor(P, 'types::Value::bool_from_str'):
        I, outs = analyse(ctx, P, inst, names=['a0'])
        for o in outs:
            if o.kind != 'ret': continue
            F = Facts(I, o.st, ['a0'])
            rt = P.T(o.val[1])
            ok = rt['v'][o.val[2]][0] == 'Ok'
            try:
                for c in F.unary('a0', ['true', 'false', 'TRUE', 'True', 'FALSE', 'fAlse', '', 'tru', 'true ', ' true', 'yes', 't', '1', '0', 'truefalse', 'falsetrue']):
                    want = {'true': True, 'false': False}.get(c.lower())
                    got = None
                    if ok:
                        v = o.val[3][0]; got = v[3][0]
                        if P.T(v[1])['v'][v[2]][0] != 'Boolean': got = 'not a boolean'
                    ctx.obligation(got == want, 'bool_from_str', '%s gives %s for %r' % (where(P, inst), got, c))
            except Unknown:
                ctx.undecided['text test outside of the table'] = 1
    ctx.floor('functions analysed as entry', 23)

CHECKS = {'C14': c14}
