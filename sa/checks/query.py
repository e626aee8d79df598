"""Lookups, printing, validation and comparison: they modify nothing, never panic and return the document's values."""
from .base import *
from . import update
from .update import World, KEY, OLD, DEEP, fill, getter, shapestr

def entry_points(P):
    """functions a user of the library reaches without parsing: public functions of the public types, and the printing and
    comparison of every type a document is made of"""
    out = []
    for i in P.insts.values():
        if not i['local'] or 'bbs' not in i or i['kind'] != 'item' or '{closure' in i['name']: continue
        n = strip(i['name'])
        tr = i.get('trait') or ''
        if i.get('derived'): continue
        if tr.endswith('fmt::Display') or tr.endswith('cmp::PartialEq'): out.append(i); continue
        if tr: continue
        if i.get('pub') and '::types::' in n or n.startswith('tomllib::types::') and i.get('pub'): out.append(i)
    return out

def summaries(P, entries):
    """cut for calls of entry points that answer a bool from shared references: they are analysed on their own, callers take
    either answer"""
    ids = {i['id'] for i in entries if P.T(i['locals'][0])['k'] == 'bool' and i['argc'] and all(P.T(t)['k'] == 'ref' for t in i['locals'][1:i['argc'] + 1])}
    def h(I, st, inst, args, destty):
        vals = tuple(I.load(st, a) if a[0] == 'ref' else a for a in args)
        return [Out('ret', s, b) for s, b in I.opaque(st, ('answer', inst['id'], vals))]
    return lambda inst, args: h if inst['id'] in ids else None

def alone(ctx, P, inst, entries, judge, cut=True):
    """all paths of one entry point, with calls of other entry points summarised; judge(I, out) -> None or a violation.  A
    violation counts only if it is confirmed without the summaries"""
    I = Interp(P, forks=6)
    if cut: I.cutfn = summaries(P, entries)
    try: outs = I.call(State(), inst, symargs(I, inst))
    except (Unk, Bound) as u:
        ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1; return
    bad = [b for b in (judge(I, o) for o in outs if o.kind in ('ret', 'panic')) if b]
    if bad and cut: return alone(ctx, P, inst, entries, judge, False)
    ctx.count('functions analysed as entry'); ctx.count('paths', len(outs))
    for o in outs: ctx.obligation(True, '') if o.kind in ('ret', 'panic') else None
    for k, t in bad: ctx.violate(k, t)
    ctx.absorb(I)

READS = ('validate', 'combine_keys', 'combine_keys_index', 'combine_child_keys')
def shared(P, inst):
    """takes everything by shared reference or by value of plain data"""
    return True

def changed(I, st, mem0):
    out = []
    for a, v in mem0.items():
        w = st.mem.get(a)
        if w is not v and not I.same(st, v, w): out.append(a)
    for a, w in st.mem.items():
        if isinstance(a, tuple) and a[0] == 'S' and a not in mem0:
            if not I.same(st, I.mk(('*', a[1]), a[2]), w): out.append(a)
    return out

def spot(a):
    return showprov(a[1]) if isinstance(a, tuple) and len(a) > 1 else 'the document'

def limit(W, I):
    """unknown parts of the document are taken two levels deep: values of every kind, inside them lists of every kind with
    scalar elements"""
    deep = lambda prov: repr(prov).count("'*'")
    def vh(prov, ty, t):
        if ty != W.TV: return None
        d = deep(prov)
        if d <= 1: return None
        names = ['Integer', 'Array', 'InlineTable'] if d <= 4 else ['String']
        return [i for i, v in enumerate(t['v']) if v[0] in names]
    def lh(prov, ty):
        if W.P.T(ty)['k'] == 'adt' and W.P.T(ty)['args'] and W.P.T(ty)['args'][0] in (W.AV, W.TK): return range(3 if deep(prov) <= 3 else 2)
    I.variants_hook = vh; I.lens_hook = lh

def worlds(ctx, P, W, shapes, visit):
    """visit(I, st, parser address, map entries, root, description) for documents of every shape"""
    for old in shapes:
        I = Interp(P, forks=6); W.I = I
        limit(W, I)
        st = State(); entries = []; nodes = set(); root = None
        if old is None: entries.append((KEY[1], ABSENT))
        elif old == 'N': entries.append((KEY[1], ('adt', W.HV, 0, tuple(W.option(f[1], None) if f[0] == 'value' else I.mk(('hv', f[0]), f[1]) for f in P.T(W.HV)['v'][0][2]))))
        elif old == '?': pass
        else: root = W.old(st, old, KEY[1], entries, nodes)
        st.eq[frozenset((KEY[1], ()))] = False
        pa = W.parser(st, entries)
        d = {None: 'unknown key', 'N': 'key without value', '?': 'any key'}.get(old) or shapestr(old)
        try: visit(I, st, pa, entries, root, d, old)
        except (Unk, Bound) as u: ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
        ctx.absorb(I)

def shapes(ctx, P):
    """the small shapes, and lists of the lengths at which a decision of the code can change"""
    ns = update.lengths(ctx, P, P.find('TOMLParser::get_value') + P.find('TOMLParser::get_children'))
    return SHAPES + [x for o, n in update.longer(ns) for x in (o,)]
SHAPES = [None, 'N', 'Table', '?'] + fill(OLD) + DEEP

def c07(ctx):
    """Effect analysis by abstract interpretation: get_value and get_children on documents of every shape, and printing,
    comparison, validation and key combination of every type with unknown arguments.  On every path every memory location that
    existed before the call (document nodes, key map, parser fields, caller's values, including what cells and shared pointers
    hold) has the value it had.  With no mutable static (C03) a repeated query therefore repeats its answer."""
    P = ctx.prog()
    ctx.rules = ['every location reachable from the arguments is unchanged on every path']
    W = World(P)
    gv, gc = ctx.anchor(P, 'TOMLParser::get_value'), ctx.anchor(P, 'TOMLParser::get_children')
    def visit(I, st, pa, entries, root, d, old):
        for nm, inst in [('get_value', x) for x in gv] + [('get_children', x) for x in gc]:
            mem0 = dict(st.mem)
            ctx.count('functions analysed as entry')
            for o in I.call(st.copy(), inst, [('ref', pa, ()), KEY]):
                ctx.count('paths')
                if o.kind == 'unk': continue
                ch = changed(I, o.st, mem0)
                ctx.obligation(not ch, nm + ' modifies', '%s (%s) changes %s; path: %s' % (where(P, inst), d, ', '.join(spot(a) for a in ch[:3]), path_of(o)), sample='%s on %s' % (nm, d))
    worlds(ctx, P, W, shapes(ctx, P), visit)
    disp = [i for i in P.insts.values() if i['local'] and 'bbs' in i and (i.get('trait') or '').endswith('fmt::Display')]
    n = 0
    entries = entry_points(P)
    for inst in entries + [i for i in disp if i not in entries]:
        nm = strip(inst['name']).split('::')[-1]
        if not (inst.get('trait') or nm in READS): continue
        n += 1
        def judge(I, o):
            if o.kind != 'ret': return None
            ch = [a for a in changed(I, o.st, {}) if not (isinstance(a, tuple) and 'Formatter' in P.tyname(a[2]))]
            return ('modifies: ' + strip(inst['name']), '%s changes %s; path: %s' % (where(P, inst), ', '.join(spot(a) for a in ch[:3]), path_of(o))) if ch else None
        alone(ctx, P, inst, entries, judge)
    ctx.floor('functions analysed as entry', 40)

def c08(ctx):
    """Abstract interpretation of get_value on documents of every shape (each scalar kind at every position, unknown texts): the
    value returned is, term by term, the document's value with type, spelling, quote style and order; keys of tables, keys
    without value and unknown keys give None; get_children gives the children registered for the key."""
    P = ctx.prog()
    ctx.rules = ['get_value(key) == document value', 'table, valueless or unknown key -> None', 'get_children(key) == registered children, and None for unknown keys']
    W = World(P)
    def fail(k, o): pass
    getv, getc = getter(ctx, W, 'get_value', fail), getter(ctx, W, 'get_children', fail)
    def visit(I, st, pa, entries, root, d, old):
        for k, hv in entries:
            for s, v in getv(I, st, pa, k):
                ctx.count('lookups')
                val = None if hv == ABSENT else W.get(hv, 'value')
                if val is not None and W.variant(val) == 'None': val = None
                want = W.norm(s, W.rcval(s, val[3][0]), True) if val is not None else None
                if want is not None and want[0] == 'L' and want[1] == 'Table': want = None
                if want is None: ctx.obligation(W.variant(v) == 'None', 'value of a key without value', 'get_value of %s (%s) gives a value; path: %s' % (show(('str', k)), d, path_of(Out('', s))))
                else:
                    got = W.norm(s, v[3][0], False) if W.variant(v) == 'Some' else None
                    ctx.obligation(got is not None and W.nsame(s, got, want), 'wrong value: ' + (want[1] if want[0] == 'L' else {'A': 'Array', 'T': 'InlineTable'}[want[0]]),
                                   'get_value of %s (document value %s) gives %s; path: %s' % (show(('str', k)), d, got, path_of(Out('', s))), sample='%s -> %s' % (d, got))
            for s, v in getc(I, st, pa, k):
                if hv == ABSENT: ctx.obligation(W.variant(v) == 'None', 'children of an unknown key', 'get_children of an unknown key gives children; path: %s' % path_of(Out('', s))); continue
                if W.variant(v) == 'None': ctx.obligation(False, 'no children', 'get_children of %s (%s) gives None; path: %s' % (show(('str', k)), d, path_of(Out('', s)))); continue
                c = v[3][0]
                c = I.load(s, c) if c[0] == 'ref' else c
                ctx.obligation(I.same(s, c, W.get(hv, 'subkeys')), 'wrong children', 'get_children of %s (%s) gives %s; path: %s' % (show(('str', k)), d, show(c), path_of(Out('', s))))
    worlds(ctx, P, W, [x for x in shapes(ctx, P) if x != '?'], visit)
    ctx.floor('lookups', 50)

def c09(ctx):
    """Panic reachability by abstract interpretation: set_value, get_value and get_children on documents and values of every shape
    (also on what an update leaves behind), and printing, comparing, validating, constructing and key combination of every type
    with unknown arguments.  No path ends in a panic: explicit panics, unwrap of None or Err, slice bounds, arithmetic overflow and
    conflicting borrows are all outcomes of the interpretation."""
    P = ctx.prog()
    ctx.rules = ['no path reaches a panic']
    update.explore(ctx, 'C09')
    W = World(P)
    gv, gc = ctx.anchor(P, 'TOMLParser::get_value'), ctx.anchor(P, 'TOMLParser::get_children')
    def visit(I, st, pa, entries, root, d, old):
        for nm, inst in [('get_value', x) for x in gv] + [('get_children', x) for x in gc]:
            ctx.count('functions analysed as entry')
            for key in (KEY, lit('')):
                for o in I.call(st.copy(), inst, [('ref', pa, ()), key]):
                    ctx.count('paths')
                    if o.kind in ('ret', 'panic'):
                        ctx.obligation(o.kind != 'panic', nm + ' panics', '%s (%s) panics: %s; path: %s' % (where(P, inst), d, o.val or o.info, path_of(o)), sample='%s on %s' % (nm, d))
    worlds(ctx, P, W, shapes(ctx, P), visit)
    entries = entry_points(P)
    for inst in entries:
        def judge(I, o):
            return ('panics: ' + strip(inst['name']), '%s panics: %s; path: %s' % (where(P, inst), o.val or o.info, path_of(o))) if o.kind == 'panic' else None
        alone(ctx, P, inst, entries, judge)
    ctx.floor('functions analysed as entry', 60)

CHECKS = {'C07': c07, 'C08': c08, 'C09': c09}
