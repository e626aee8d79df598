"""Parser::parse as the users call it, with the grammar (Parser::toml) replaced by an unknown function."""
from .base import *

def contents(I, st, v):
    """deep value with decided shapes filled in (errors etc. are compared through it)"""
    while v[0] == 'rc': v = I.load(st, ('ref', v[1], ()))
    if v[0] == 'cell': return contents(I, st, v[1])
    return v

def field(I, st, v, name):
    t = I.T(v[1]); fs = t['v'][0][2]
    for i, f in enumerate(fs):
        if f[0] == name: return v[3][i]
    raise Unk('field ' + name)

def provs(v, root, st, I, seen=None):
    """does a value reach anything derived from the symbol `root` (through memory too)?"""
    seen = seen if seen is not None else set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            if x == root: return True
        elif isinstance(x, tuple):
            if x and x[0] == 'ref' and len(x) == 3 or x and x[0] == 'rc':
                if x[1] in seen: continue
                seen.add(x[1])
                if x[1] in st.mem: todo.append(st.mem[x[1]])
                elif not isinstance(x[1], int): todo.append(x[1])
                continue
            todo.extend(x)
    return False

def run(ctx, P, entry, cutname='Parser::toml', selfname='self'):
    cut = {}
    seen = []
    for i in ctx.anchor(P, cutname):
        def h(I, st, inst, args, destty):
            seen.append((st, args))
            t = P.T(destty)
            pty, rty = t['f']
            s0 = st.copy()
            pv = I.expand(s0, ('sym', 'P1', pty))
            # what the grammar leaves behind is unknown, but it takes its parser's identity from what it was given
            s0.misc['given'] = args[0]
            out = []
            for vi, (vn, _, fs) in enumerate(P.T(rty)['v']):
                s = s0.copy()
                s.note('toml gives', vn)
                if vn == 'Done':
                    vals = (buf('REST'), I.mk('TREE', fs[1][1]))
                else: vals = tuple(I.mk('E%d' % k, f[1]) for k, f in enumerate(fs))
                s.misc['outcome'] = vn
                out.append(Out('ret', s, ('tup', (pv, ('adt', rty, vi, vals)))))
            return out
        cut[i['id']] = h
    I, outs = analyse(ctx, P, entry, names=[selfname, 'input'], setup=lambda I: I.cuts.update(cut))
    return I, outs, seen

def entries(ctx, P):
    return [('TOMLParser::parse', i) for i in ctx.anchor(P, 'TOMLParser::parse')] + [('Parser::parse', i) for i in P.find('parser::Parser::parse')]

def unwrap(P, I, v):
    """Parser value inside a TOMLParser"""
    if v[0] == 'sym': v = I.expand(State(), v)
    t = P.T(v[1])
    if t['name'].endswith('TOMLParser'): return unwrap(P, I, v[3][0])
    return v

def c02(ctx):
    """Abstract interpretation of TOMLParser::parse and Parser::parse with the grammar replaced by an unknown function that may
    answer anything: for every combination of grammar outcome, leftover text (empty or not) and number of recorded errors (none or
    some) the returned result must be the variant the property names and carry exactly the leftover, the line count and the
    recorded errors; on success the returned parser must hold exactly the tree and leftover of the grammar."""
    P = ctx.prog()
    ctx.rules = ['Done, no leftover, no errors -> Full', 'Done, no leftover, errors -> FullError(errors)', 'Done, leftover, no errors -> Partial(leftover, line)',
                 'Done, leftover, errors -> PartialError(leftover, line, errors)', 'otherwise -> Failure(line)', 'parser.root == tree']
    n = 0
    for nm, e in entries(ctx, P):
        I, outs, seen = run(ctx, P, e)
        for o in outs:
            if o.kind == 'panic': ctx.violate(nm + ' panics', 'parse itself can panic: ' + path_of(o)); continue
            if o.kind != 'ret': continue
            try:
                oc = o.st.misc.get('outcome')
                if oc is None:
                    ctx.obligation(False, nm + ' skips the grammar', '%s returns without running the grammar: %s' % (where(P, e), path_of(o))); continue
                pv, rv = o.val[1]
                pv = unwrap(P, I, pv)
                for st, r in I.expand_fork(o.st, rv):
                    vn, vals = P.T(r[1])['v'][r[2]][0], r[3]
                    p1 = I.expand(st, ('sym', 'P1', pv[1]))
                    lc = contents(I, st, field(I, st, p1, 'line_count'))
                    errs = field(I, st, p1, 'errors')
                    ev = I.load(st, ('ref', errs[1], ()))
                    ev = contents(I, st, ev)
                    cases = []
                    if oc != 'Done': cases = [(st, 'Failure')]
                    else:
                        for s, empty in I.str_eq(st, buf('REST'), lit('')):
                            if ev[0] == 'sym':
                                known = s.exp.get(ev[1])
                                opts = [known] if known is not None else [0, 1]
                            else: opts = [len(ev[1])]
                            le = I.N and None
                            lo, hi = (None, None)
                            for k in opts:
                                s2 = s.copy()
                                if ev[0] == 'sym' and s2.exp.get(ev[1]) is None: s2.exp[ev[1]] = k
                                cases.append((s2, {(True, False): 'Full', (True, True): 'FullError', (False, False): 'Partial', (False, True): 'PartialError'}[(empty, k > 0)]))
                    for s, want in cases:
                        n += 1
                        ctx.obligation(vn == want, '%s: %s instead of %s' % (nm, vn, want), '%s reports %s where the property demands %s: %s' % (where(P, e), vn, want, path_of(o)),
                                       sample='%s, %s -> %s' % (oc, path_of(o), vn))
                        if vn != want: continue
                        if vn in ('Partial', 'PartialError'):
                            ctx.obligation(I.same(s, vals[0], buf('REST')), nm + ': leftover', '%s: %s carries %s instead of the unconsumed rest' % (where(P, e), vn, show(vals[0])))
                            ctx.obligation(I.same(s, vals[1], lc), nm + ': line', '%s: %s carries line %s instead of the line count' % (where(P, e), vn, show(vals[1])))
                        if vn == 'Failure':
                            ctx.obligation(I.same(s, vals[0], lc), nm + ': line', '%s: %s carries line %s instead of the line count' % (where(P, e), vn, show(vals[0])))
                        if vn in ('PartialError', 'FullError'):
                            g = contents(I, s, vals[-1])
                            same = vals[-1] == errs or I.same(s, g, contents(I, s, I.load(s, ('ref', errs[1], ()))))
                            ctx.obligation(same, nm + ': errors', '%s: %s carries %s instead of the recorded errors' % (where(P, e), vn, show(g)))
                        if vn != 'Failure':
                            ctx.obligation(I.same(s, contents(I, s, field(I, s, pv, 'root')), I.mk('TREE', contents(I, s, field(I, s, p1, 'root'))[2])), nm + ': tree',
                                           '%s: the returned parser does not hold the tree that was read' % where(P, e))
            except Unk as u: ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
    ctx.count('outcome combinations', n)

def c03(ctx):
    """Provenance analysis of TOMLParser::parse and Parser::parse: on every path the parser handed to the grammar, and the parser
    and result handed back, contain no value and no memory reachable from the parser parse was called on.  Besides, nothing in the
    library keeps state outside of the parser: every static the library refers to is immutable and free of interior mutability."""
    P = ctx.prog()
    ctx.rules = ['no provenance of the old parser in what the grammar starts from', 'none in the returned parser and result', 'no mutable static']
    for nm, e in entries(ctx, P):
        I, outs, seen = run(ctx, P, e, selfname='OLD')
        for st, args in seen:
            dirty = provs(args[0], 'OLD', st, I)
            what = ''
            if dirty and args[0][0] == 'adt':
                what = ', '.join(f[0] for f, v in zip(P.T(args[0][1])['v'][0][2], args[0][3]) if provs(v, 'OLD', st, I))
            ctx.obligation(not dirty, nm + ': starts from the old parser' + (' (%s)' % what if what else ''), '%s: the grammar is run on a parser that still holds the earlier document: %s' % (where(P, e), what),
                           sample='%s: parser handed to the grammar: %s' % (nm, show(args[0])[:300]))
            # the input is what was passed in
            ctx.obligation(I.same(st, args[1], buf('input')), nm + ': input', '%s: the grammar reads %s' % (where(P, e), show(args[1])))
            ctx.count('grammar entries')
        for o in outs:
            if o.kind != 'ret': continue
            ctx.obligation(not provs(o.val, 'OLD', o.st, I), nm + ': returns the old parser', '%s: the returned parser or result still holds the earlier document: %s' % (where(P, e), path_of(o)))
    ctx.floor('grammar entries', 2)
    # a fresh parser is always the same: no argument, no static
    n = 0
    for i in P.insts.values():
        if not i['local'] or 'bbs' not in i: continue
        for d in P.walk(i['bbs']):
            if 'static' in d:
                n += 1
                if d.get('ext'): continue
                ctx.obligation(not d.get('mut') and (d.get('freeze', True) or any(w in d.get('sty', '') for w in ('Once', 'Lazy', 'lazy'))), 'mutable static ' + d['static'].split('::')[-1],
                               '%s refers to the mutable static %s, which outlives a parse' % (where(P, i), d['static']))
            if 'tls' in d:
                ctx.obligation(False, 'thread local ' + d['tls'], '%s refers to the thread local %s, which outlives a parse' % (where(P, i), d['tls']))
    ctx.count('references to statics', n)

CHECKS = {'C02': c02, 'C03': c03}
