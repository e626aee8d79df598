from .base import *
from ..facts import Facts, Unknown
import re

BAD2 = ['', '1', '0', '123', '000', '+1', '-1', ' 1', '1 ', 'a1', '1a', '1_', '\u0663', '\u0661\u0662', '0x', '1.', '1\n', '1e', '::', '\uff11']
BAD4 = ['', '199', '19999', '0', '00000', '+199', '-199', ' 199', '199 ', '19a9', '\u0661\u0662', '\u066319', '1_99', '1e10', '2 00', 'abcd', '+1999', '20_0']
GOODF = ['0', '5', '00', '123', '999999999', '000000001', '1' * 25, '9' * 40]
BADF = ['', '+5', '-5', ' 5', '5 ', 'a', '1a', '.5', '5.', '\u0663', '1_0', '5\n', '1e5']
N2 = ['%02d' % i for i in range(100)]
N4 = ['%04d' % i for i in range(10000)]
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
def d2(s): return bool(re.fullmatch(r'[0-9]{2}', s))
def upto(n): return lambda s: d2(s) and int(s) <= n

def components(I, st, ref, ty):
    """{path of field names: text buffer | shape prov} of a validated value; shapes stay undecided"""
    P = I.p; t = P.types[ty]
    out = {}
    def go(v, ty, name, present):
        t = P.types[ty]
        if P.is_str(ty):
            out[name] = ('text', v[1][0][1] if v[1] and v[1][0][0] == 'sl' else None, present); return
        if t['k'] == 'adt' and v[0] == 'sym' and t['ak'] == 'struct':
            e = I.expand(st, v)
            for i, f in enumerate(t['v'][0][2]): go(e[3][i], f[1], name + (f[0],), present)
        elif t['k'] == 'adt' and v[0] == 'sym' and t['ak'] == 'enum':
            for i, (vn, _, fs) in enumerate(t['v']):
                out.setdefault(name + ('#',), ('shape', v[1], [x[0] for x in t['v']], present))
                for f in fs:
                    go(I.mk(('.', ('.', v[1], vn), f[0]), f[1]), f[1], name if vn == 'Some' else name + (vn,), present + ((v[1], i),))
    go(I.load(st, ref), ty, (), ())
    return out

SPEC = {  # component name -> (good candidates, bad candidates, valid?)
    'year': (N4, BAD4, lambda s: bool(re.fullmatch('[0-9]{4}', s)) and int(s) >= 1),
    'month': (N2, BAD2, lambda s: d2(s) and 1 <= int(s) <= 12),
    'day': (N2, BAD2, lambda s: d2(s) and 1 <= int(s) <= 31),
    'hour': (N2, BAD2, upto(23)), 'minute': (N2, BAD2, upto(59)), 'second': (N2, BAD2, upto(59)),
    'fraction': (GOODF, BADF, lambda s: bool(re.fullmatch('[0-9]+', s))),
}

def judge(ctx, P, inst, tyname):
    I, outs = analyse(ctx, P, inst, names=['self'])
    ty = P.peel(inst['locals'][1])
    ref = ('ref', ('S', 'self', ty), ())
    for o in outs:
        if o.kind == 'panic': ctx.violate('%s::validate panics' % tyname, 'panic: ' + path_of(o, 20)); continue
        if o.kind != 'ret': continue
        try:
            for st, verdict in I.decide(o.st, o.val):
                st0 = State()
                comps = components(I, st0, ref, ty)
                texts = {n: c for n, c in comps.items() if c[0] == 'text'}
                F = Facts(I, st, [c[1] for c in texts.values()])
                if F.unknown: raise Unk('fact outside of the decision table: %s' % (F.unknown[0][0],))
                rel = F.relational()
                sets = {}
                for n, c in texts.items():
                    # is the optional part present on this path?
                    absent = any(sh in st.exp and st.exp[sh] != var for sh, var in c[2])
                    if absent: continue
                    spec = SPEC.get(n[-1])
                    if spec is None: raise Unk('component ' + '.'.join(n))
                    cand = spec[0] + spec[1]
                    sets[n] = F.unary(c[1], cand)
                if rel: raise Unk('relation between components')
                ctx.count('component values tabulated', sum(len(x) for x in sets.values()))
                report = lambda w: ctx.violate('%s::validate answers %s' % (tyname, verdict),
                    '%s answers %s for %s; path: %s' % (where(P, inst), verdict, w, path_of(o, 25)))
                ctx.count('obligations')
                ok = True
                if any(not s for s in sets.values()):
                    ctx.count('discharged'); ctx.count('infeasible paths'); continue
                date = [n for n in sets if n[-1] in ('year', 'month', 'day')]
                rest = [n for n in sets if n not in date]
                def w(**kw):
                    full = {n: kw.get('.'.join(n), sets[n][0]) for n in sets}
                    return ', '.join('%s=%r' % ('.'.join(n), v) for n, v in full.items())
                def w2(d): return ', '.join('%s=%r' % ('.'.join(n), d.get(n, (sets[n] or ['?'])[0])) for n in sets)
                # all component values valid on their own?
                bad = {n: next((v for v in sets[n] if not SPEC[n[-1]][2](v)), None) for n in sets}
                goods = {n: [v for v in sets[n] if SPEC[n[-1]][2](v)] for n in sets}
                datebad = dategood = None
                if date:
                    dn = {n[-1]: n for n in date}
                    ys = {}
                    for y in goods[dn['year']]: ys.setdefault(leap(int(y)), y)
                    for l, y in ys.items():
                        for m in goods[dn['month']]:
                            lim = 29 if l and m == '02' else DAYS[int(m) - 1]
                            for d in goods[dn['day']]:
                                if int(d) > lim: datebad = datebad or {dn['year']: y, dn['month']: m, dn['day']: d}
                                else: dategood = dategood or {dn['year']: y, dn['month']: m, dn['day']: d}
                if verdict:
                    b = next((n for n in sets if bad[n] is not None), None)
                    if b is not None: ok = False; report(w2({b: bad[b]}))
                    elif datebad: ok = False; report(w2(datebad))
                else:
                    if all(goods[n] for n in rest) and (not date or dategood):
                        wit = {n: goods[n][0] for n in rest}; wit.update(dategood or {})
                        ok = False; report(w2(wit))
                if ok: ctx.count('discharged')
                if len(ctx.samples) < 25: ctx.samples.append('%s::validate=%s on a class of %s values' % (tyname, verdict, ' x '.join('%s:%d' % ('.'.join(n), len(s)) for n, s in sets.items())))
        except Unknown:
            ctx.undecided['fact outside of the decision table'] = ctx.undecided.get('fact outside of the decision table', 0) + 1
        except Unk as u:
            ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1

def c13(ctx):
    """Decision table extraction: every abstract path of the validate functions of Date, Time, TimeOffset, TimeOffsetAmount and
    DateTime is a product of conditions on the single components (length, digits, numeric range, remainders).  The conditions are
    tabulated over all texts of the required width (0000-9999, 00-99) and representatives of every other kind of text, and the
    path's verdict is compared with the Gregorian calendar and the clock: no accepted class may hold an invalid value, no refused
    class may consist of valid ones."""
    P = ctx.prog()
    ctx.rules = ['accepting path: every class member is a real date/time', 'refusing path: no class member is a real date/time']
    for name in ('Date', 'Time', 'TimeOffsetAmount', 'TimeOffset', 'DateTime'):
        for inst in ctx.anchor(P, 'types::%s::validate' % name): judge(ctx, P, inst, name)
    ctx.floor('functions analysed as entry', 5)

CHECKS = {'C13': c13}
