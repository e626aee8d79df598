"""Properties of the parsing functions, decided one function at a time against the contracts of the others (grammar.py)."""
from .grammar import *

L0 = 'line_count'

def worlds(G, inst, o, thorough):
    P = G.P; e, w = inner(P, o); n = P.T(e)['name'].split('::')[-1] if P.T(e)['k'] == 'adt' else ''
    if n in ('TableType', 'Table'): return [dict(tables=t) for t in (('', 'A', 'S', 'AA') if thorough else ('', 'A'))]
    if n == 'ArrayValue': return [dict(keys='I'), dict(keys='SI'), dict(keys='SII')]
    return [dict(), dict(keys='SII')]

def line(G, pv):
    c = G.field(pv, 'line_count')
    if c[0] != 'cell' or not is_int(c[1]): raise Unk('line count')
    return c[1]

def end(fs):
    rest = fs[0]
    return rest[1][0][2] if rest[1] else atom(('len', 'INPUT'))

def derive(ctx, P, G):
    """which ways to fail the parsing functions have, and which may leave lines counted when they do"""
    todo = [(i, o) for i, o in G.judged()]
    G.failing = {i['id']: ('Error', 'Incomplete') for i, o in todo}
    def go(c, k, n):
        i, o = todo[n]
        G2 = Grammar(c, P)
        for f in CONTRACT: setattr(G2, f, getattr(G, f))
        fails = set(); mis = bad = False; nonl = nonempty = True; first = (); jfirst = ()
        I, pv, outs = G2.run(i, world=worlds(G2, i, o, False)[0], budget=2500000)
        if not outs: bad = True
        for x in outs:
            if x.kind == 'unk': bad = True
            if x.kind != 'ret': continue
            p2, vn, fs = G2.result(x)
            try:
                if vn != 'Done':
                    fails.add(vn)
                    if line(G2, p2) != line(G2, pv):
                        mis = True
                        f = G2.firstof(I, x.st, 'INPUT', G2.p0, atom(('len', 'INPUT')))
                        lo, _ = I.bounds(x.st, lsub(atom(('len', 'INPUT')), G2.p0))
                        jfirst = None if f is None or jfirst is None or lo is None or lo < 1 else rx.norm(list(jfirst) + list(f))
                else:
                    q = end(fs)
                    if nonl and G2.nl(I, x.st, 'INPUT', G2.p0, q) != 0: nonl = False
                    lo, _ = I.bounds(x.st, lsub(q, G2.p0))
                    if lo is None or lo < 1: nonempty = False
                    f = G2.firstof(I, x.st, 'INPUT', G2.p0, q)
                    first = None if f is None or first is None else rx.norm(list(first) + list(f))
            except Unk: bad = True
        if bad: return ('Error', 'Incomplete'), True, False, False, None, None
        return tuple(sorted(fails)), mis, nonl, nonempty, first, jfirst
    G._keylike = {}
    for i, o in G.nts.values():
        if not G.printable(o) and P.is_str(P.peel(o)): G.keylike(i)
    rounds = 0
    for phase in ('failing', 'miscount'):
        work = list(range(len(todo)))
        while work:
            if rounds > 40: raise Unk('the contracts do not settle')
            rounds += 1
            res = ctx.each(lambda c, k, n: go(c, k, n), [(k, n) for k, n in enumerate(work)])
            changed = set()
            for n, r in zip(work, res):
                if r is None: r = ('Error', 'Incomplete'), True, False, False, None, None
                i, o = todo[n]; f, m, z, e, fs, jf = r; iid = i['id']
                if phase == 'failing':
                    if z and i['id'] not in G.nonl: G.nonl.add(i['id']); changed.add(i['id'])
                    if e and i['id'] not in G.nonempty: G.nonempty.add(i['id']); changed.add(i['id'])
                    if fs is not None and fs != G.first.get(iid): G.first[iid] = fs; changed.add(iid)
                    if f != G.failing[i['id']]: G.failing[i['id']] = f; changed.add(i['id'])
                elif m:
                    if iid not in G.miscount: G.miscount.add(iid); G.jfirst[iid] = jf; changed.add(iid)
                    else:
                        old = G.jfirst.get(iid); jf = None if jf is None or old is None else rx.norm(list(jf) + list(old))
                        if jf != old: G.jfirst[iid] = jf; changed.add(iid)
            work = [n for n, (i, o) in enumerate(todo) if any(c['id'] in changed for c in P.callees(i))]
    ctx.count('rounds of the contract iteration', rounds)

# -- deciding a rule for every parsing function
CONTRACT = ('failing', 'miscount', 'nonl', 'nonempty', 'first', 'jfirst', '_keylike')
def sub(c, P, G):
    G2 = Grammar(c, P)
    for f in CONTRACT: setattr(G2, f, getattr(G, f))
    return G2

def decide(ctx, P, G, judge, select=None, mkworlds=None, keep=(), share=(), excuse=lambda o, p: True, firm=()):
    """judge(G, I, inst, o, pv, outcome) -> [(rule, text)] for every path of every parsing function.  A function that does not keep to
    its contract is looked into where it is used: it is at fault only if a function that uses it (or nobody) is at fault too."""
    todo = [(i, o) for i, o in G.judged() if select is None or select(i, o)]
    mk = mkworlds or worlds
    def one(c, i, o, w, keep, inlined=False):
        G2 = sub(c, P, G)
        for f in share: setattr(G2, f, getattr(G, f))
        G2.looked = set(keep)
        I, pv, outs = G2.run(i, keep=keep, world=w, budget=(400000 if inlined else 1500000) * (4 if c.thorough else 1), forks=2 if inlined else 6)
        bad = {}; und = dict(c.undecided); c.undecided.clear()
        for x in outs:
            if x.kind != 'ret': continue
            try: rs = judge(G2, I, i, o, pv, x)
            except Unk as u:
                k = '%s: %s' % (G.name(i), u); und[k] = und.get(k, 0) + 1; continue
            c.count('paths judged')
            for r, t in rs: bad.setdefault(r, '%s: %s [path: %s]' % (where(P, i), t, path_of(x)[:600]))
        return bad, und, len(outs)
    def job(c, n, w, keep, inlined): i, o = todo[n]; return one(c, i, o, w, keep, inlined)
    ids = [i['id'] for i, o in todo]
    def batch(ns, keep, inlined=False):
        jobs = [(n, w, keep, inlined) for n in ns for w in mk(G, todo[n][0], todo[n][1], ctx.thorough)]
        out = {n: [{}, {}, 0] for n in ns}
        for (n, w, _, _), r in zip(jobs, ctx.each(job, jobs)):
            if r is None: out[n][1]['no result for ' + G.name(todo[n][0])] = 1; continue
            for k, t in r[0].items(): out[n][0].setdefault(k, t)
            for k, v in r[1].items(): out[n][1][k] = out[n][1].get(k, 0) + v
            out[n][2] += r[2]
        ctx.count('obligations', len(jobs))
        return out
    keep = frozenset(keep)
    res = batch(range(len(todo)), keep)
    # a function that does not keep to its contract is looked into where it is used: it is at fault unless those make up for it
    users = lambda n: [m for m in range(len(todo)) if m != n and excuse(todo[n][1], todo[m][1]) and any(c['id'] == ids[n] for c in P.callees(todo[m][0]))]
    inl = {n for n, r in res.items() if r[0] and users(n)}
    fault = {n for n, r in res.items() if r[0] and (n not in inl or set(r[0]) & set(firm))}
    if inl:
        k1 = keep | {ids[n] for n in inl}
        first = sorted({m for n in inl for m in users(n)})
        r1 = batch(first, k1, inlined=True)
        again = sorted({m for m in first if r1[m][0] and users(m)} - inl)
        r2 = batch(sorted({u for m in again for u in users(m)}), k1 | {ids[m] for m in again}, inlined=True) if again else {}
        for n in sorted(inl):
            for m in users(n):
                if not r1[m][0]: continue
                if m in again and all(not r2[u][0] and not r2[u][1] and r2[u][2] for u in users(m)): continue
                fault.add(n)
        for m, r in r1.items(): res[m] = [res[m][0], r[1], r[2]]
    for n in sorted(fault):
        for k, t in res[n][0].items(): ctx.violate('%s:%s' % (G.name(todo[n][0]), k), t)
    for n, r in res.items():
        for k, v in r[1].items(): ctx.undecided[k] = ctx.undecided.get(k, 0) + v
    ctx.count('parsing functions judged', len(todo)); ctx.count('parsing functions without a decided path', len([1 for r in res.values() if not r[2]]))
    ctx.count('functions looked into where they are used', len(inl))
    for i, o in todo: ctx.samples.append(G.name(i))
    return res

def grammar(ctx):
    P = ctx.prog(); G = Grammar(ctx, P)
    if not G.nts: ctx.violate('anchor:grammar', 'no parsing functions (Parser, &str) -> (Parser, IResult) found'); return P, G
    derive(ctx, P, G)
    return P, G

def errs(G, I, x, pv):
    """errors in the list of a parser"""
    e = G.field(pv, 'errors')
    v = I.load(x.st, ('ref', e[1], ())) if e[0] == 'rc' else e
    if v[0] == 'cell': v = v[1]
    if v[0] != 'vec': raise Unk('list of errors')
    return list(v[1])

EARLIER = ('InvalidDateTime', 'DuplicateKey', 'MixedArray')
def added(G, lst):
    """errors of a list that were not there before (see Grammar.world)"""
    def old(e): return any("('P', 'err'" in repr(f) for f in e[3])
    n = len([e for e in lst if old(e)])
    if not all(old(e) for e in lst[:n]): raise Unk('order of errors')
    return lst[n:]

# -- C01
def roundtrip(G, I, inst, o, pv, x):
    p2, vn, fs = G.result(x)
    if vn != 'Done': return []
    q = end(fs); out = []
    for s, parts in G.text(I, x.st, fs[1], inner(G.P, o)[0]):
        r = G.covers(I, s, parts, 'INPUT', G.p0, q)
        if r: out.append(('print', 'the value read does not print as the text read: %s (prints %s)' % (r, show(('str', parts))[:300])))
    return out

def c01(ctx):
    """Contract-based abstract interpretation of the parser: every parsing function whose result can be printed is analysed alone,
    with every other parsing function replaced by its contract (on success its result prints as exactly the text between where it
    started and where the rest begins).  For each path on which the function succeeds, Display of its result is analysed too and its
    text, a sequence of slices of the input and literals, must be the text from start to rest, piece by piece, in order.  By
    induction over the calls this holds for the whole document.  Display of the parser must be Display of the tree."""
    ctx.rules = ['Done(rest, v): print(v) == input[start..rest]', 'print(parser) == print(parser.root)']
    P, G = grammar(ctx)
    decide(ctx, P, G, roundtrip)
    tops = 0
    for (n, t) in P.impls:
        if n != 'std::fmt::Display::fmt' or P.T(t)['k'] != 'adt' or not P.T(t)['name'].endswith('Parser'): continue
        tops += 1
        I = Interp(P); st = State()
        def full(v):
            v = I.expand(st, v) if v[0] == 'sym' else v
            return ('adt', v[1], v[2], (full(v[3][0]),)) if I.T(v[1])['name'].endswith('TOMLParser') else v
        v = inner_v = full(I.mk('P', t))
        while I.T(inner_v[1])['name'].endswith('TOMLParser'): inner_v = inner_v[3][0]
        root = [y for y, f in zip(inner_v[3], I.T(inner_v[1])['v'][0][2]) if f[0] == 'root']
        if not root: ctx.violate('anchor:root', 'the parser has no field root'); continue
        hooked = {}
        I.disp_hook = lambda s, prov: (('disp', 'TREE', None),) if prov == hooked.get('p') else None
        r = G.leaf(I, st, root[0]); hooked['p'] = r[1] if r[0] == 'sym' else None
        a = st.alloc(v)
        for o in I.display(st, ('ref', a, ()), t, None):
            if o.kind != 'ret': continue
            ctx.count('paths judged')
            ctx.obligation(o.val == (('disp', 'TREE', None),), 'display:' + P.T(t)['name'].split('::')[-1], 'printing the parser gives %s instead of the printed tree' % show(('str', o.val)))
        ctx.absorb(I)
    if not tops: ctx.violate('anchor:display', 'the parser cannot be printed')
    ctx.floor('paths judged', 20)

# -- C17
def reached(G, I, pv, x):
    out = [line(G, pv)]
    for l in x.st.log:
        for y in l[5:]:
            if isinstance(y, tuple) and y and y[0] == 'adt':
                try: out.append(line(G, y))
                except Unk: pass
    return out
def known(G, I, st, t):
    """all newline counts of a term concern text that was read by a parsing function"""
    if isinstance(t, int): return True
    for a, c in t[1]:
        if a[0] == 'nl':
            def within(s):
                l, _ = I.bounds(st, lsub(a[2], s[1])); h, _ = I.bounds(st, lsub(s[2], a[3]))
                return l is not None and l >= 0 and h is not None and h >= 0
            if not any(s[0] == a[1] and within(s) for s in st.segs): return False
        elif a[0] not in ('junk', 'cell', '.') and not isinstance(a, str): pass
    return True
def nonempty(I, st, t):
    """without the newlines of empty texts"""
    if isinstance(t, int): return t
    for a, c in t[1]:
        if a[0] == 'nl' and I.bounds(st, lsub(a[3], a[2])) == (0, 0): t = lsub(t, lmul(atom(a), c))
    return t
def newlines(G, I, inst, o, pv, x):
    p2, vn, fs = G.result(x); out = []
    if vn == 'Done':
        d = nonempty(I, x.st, lsub(lsub(line(G, p2), line(G, pv)), G.nl(I, x.st, 'INPUT', G.p0, end(fs))))
        if I.bounds(x.st, d) != (0, 0):
            if not known(G, I, x.st, d): raise Unk('newlines of %s' % show(d))
            out.append(('lines', 'the line count differs by %s from the newlines read' % show(d)))
    now = errs(G, I, x, p2); at = reached(G, I, pv, x) + [line(G, p2)]
    for e in now:
        if e[0] != 'adt': raise Unk('error')
        l = e[3][1] if len(e[3]) > 1 else None
        if not is_int(l): continue
        if not any(I.bounds(x.st, lsub(l, y)) == (0, 0) for y in at):
            out.append(('errorline', 'an error is reported with line %s, which is at no point on the path the count of lines read' % show(l)))
    return out

def c17(ctx):
    """Contract-based abstract interpretation of the parser (see C01): on every path on which a parsing function succeeds the line
    count must have grown by exactly the newlines between its start and the rest, as a sum over the pieces of text read (literals,
    matches of regular expressions, text read by other parsing functions); functions that may leave lines counted when they do not
    read are found by a fixpoint and their junk must not survive in a function that succeeds.  Every error pushed carries the count
    at a point of the path.  The function that counts newlines is decided by its own paths and by comparing the language of its
    regular expression with lines; a new parser starts at line one."""
    ctx.rules = ['Done: line_count\' == line_count + newlines(input[start..rest])', 'error.line == line_count at some point of the path', 'count of lines of a text == number of newlines', 'a new parser is at line 1']
    P, G = grammar(ctx)
    decide(ctx, P, G, newlines, firm=('errorline',))
    for c in G.counters():
        I, outs = analyse(ctx, P, c, args=[buf('T')])
        for x in outs:
            if x.kind != 'ret': continue
            r = lineresult(I, x)
            if r is None: ctx.undecided['count of %s' % G.name(c)] = 1; continue
            ctx.obligation(r == '', 'count:' + G.name(c), '%s: %s [path: %s]' % (where(P, c), r, path_of(x)))
    for i in P.find('parser::Parser::new'):
        I, outs = analyse(ctx, P, i, args=[])
        for x in outs:
            if x.kind != 'ret': continue
            v = I.expand(x.st, x.val) if x.val[0] == 'sym' else x.val
            l = line(G, v)
            ctx.obligation(l == 1, 'new', '%s: a new parser is at line %s' % (where(P, i), show(l)))
    ctx.floor('paths judged', 20)

LINE = '^[^\n]*\n'
def lineresult(I, x):
    """'' if the result of a counter is the number of lines matched, None if that cannot be told"""
    k = x.val; st = x.st
    if not isinstance(k, int): return None
    pos = 0; n = 0
    while True:
        s = [s for s in st.segs if s[0] == 'T' and s[1] == pos and s[3] == 're']
        if not s: break
        d = rx.difference(rx.parse(s[0][4]), rx.parse(LINE))
        if d is not None: return 'lines are matched by %r, which differs from a line on %r' % (s[0][4], d)
        pos = s[0][2]; n += 1
    if not n and not any(e[0] == 're' and e[1][2] == 'T' for e in st.exp) and I.bounds(st, lsub(atom(('len', 'T')), pos)) != (0, 0): return None
    done = I.bounds(st, lsub(atom(('len', 'T')), pos)) == (0, 0)
    for e, v in st.exp.items():
        if e[0] == 're' and e[1][0] == 'm' and e[1][2] == 'T' and e[1][3] == pos and v is False:
            d = rx.difference(rx.parse(e[1][1]), rx.parse(LINE))
            if d is not None: return 'lines are matched by %r, which differs from a line on %r' % (e[1][1], d)
            done = True
    if not done: return None if x.st.misc.get('bounded') else 'counting stops although lines may follow' if k != n else None
    return '' if k == n else '%d newlines are counted in a text with %d' % (k, n)

# -- C18
def etype(G, o):
    t = G.P.T(inner(G.P, o)[0]); return t['name'].split('::')[-1] if t['k'] == 'adt' else ''
def vec(v):
    if v[0] == 'cell': v = v[1]
    if v[0] != 'vec': raise Unk('list')
    return v[1]
def variant(G, v): return G.P.T(v[1])['v'][v[2]][0]
def get(G, v, name):
    for f, x in zip(G.P.T(v[1])['v'][v[2]][2], v[3]):
        if f[0] == name: return x
    raise Unk('field ' + name)
def helper(G, I, x, nm):
    """results of the calls of an opaque function on a path, as values"""
    out = []
    for l in x.st.log:
        if l[0] == 'call' and l[1] == nm:
            i = [j for j in G.P.insts.values() if j['local'] and 'bbs' in j and G.name(j) == nm]
            if i: out.append((l, I.mk(('helper', nm, l[4]), i[0]['locals'][0])))
    return out

def mixed_worlds(G, inst, o, thorough):
    if etype(G, o) == 'ArrayValue' and not 'Vec' in inner(G.P, o)[1]:
        out = []
        for keys in ('I', 'SI', 'SII') if not thorough else ('I', 'SI', 'SII', 'SISI', 'SIII'):
            for e in ((), ('MixedArray',), ('DuplicateKey',)) if not thorough else ((), ('MixedArray',), ('DuplicateKey',), ('InvalidDateTime',), ('MixedArray', 'DuplicateKey'), ('DuplicateKey', 'MixedArray'), ('MixedArray', 'MixedArray')):
                out.append(dict(keys=keys, errors=e))
        return out
    return worlds(G, inst, o, thorough)

def mixed(G, I, inst, o, pv, x):
    p2, vn, fs = G.result(x); out = []
    st = x.st; et = etype(G, o)
    a0, a1 = vec(G.field(pv, 'last_array_type')), vec(G.field(p2, 'last_array_type'))
    vecs = 'Vec' in inner(G.P, o)[1]
    if et == 'Array':
        # the elements of a new array start with no type before them, wherever they are read
        seen = [l for l in st.log if l[0] in ('nt', 'ntfail') and l[1] in G.elements]
        if inst['id'] in G.outer:
            if a1 != a0: out.append(('stack', 'the stack of types is not as before after an array: %s -> %s' % (show(('vec', a0)), show(('vec', a1)))))
            for l in seen:
                b = vec(G.field(l[5], 'last_array_type'))
                if len(b) != len(a0) + 1 or b[:-1] != a0 or b[-1][0] != 'adt' or variant(G, b[-1]) != 'None':
                    out.append(('fresh', 'the first value of an array is not compared with nothing: types %s' % show(('vec', b))))
        return out
    if et != 'ArrayValue':
        if a1 != a0: out.append(('stack', 'the type of the array being read changes: %s -> %s' % (show(('vec', a0)), show(('vec', a1)))))
        n = [e for e in errs(G, I, x, p2) if e[0] == 'adt' and variant(G, e) == 'MixedArray']
        if n: out.append(('spurious', 'a mixed array is reported outside of an array'))
        return out
    if vecs: return out
    if vn != 'Done': 
        return [('stack', 'the stack of types changes although no value was read')] if a1 != a0 else []
    node = G.leaf(I, st, fs[1])
    val = G.leaf(I, st, get(G, node, 'val'))
    now = errs(G, I, x, p2)
    prior = [e for e in now if isinstance(e[3][0], tuple) and 'err' in repr(e[3][0])]
    added = now[len(prior):]
    if len(a1) != len(a0) or a1[:-1] != a0[:-1]: return [('stack', 'the stack of types is %s, it was %s' % (show(('vec', a1)), show(('vec', a0))))]
    for s1, v in I.expand_fork(st, val):
        if v[0] != 'adt': raise Unk('value')
        if variant(G, v) not in [t[0] for t in G.P.T(a0[-1][2] if a0[-1][0] == 'sym' else a0[-1][1])['v']]: continue
        for s2, t in I.expand_fork(s1, a0[-1]):
            before, this = variant(G, t), variant(G, v)
            for s3, t2 in I.expand_fork(s2, a1[-1]):
                if variant(G, t2) != this: out.append(('type', 'after a value of type %s the type of the array is %s' % (this, variant(G, t2))))
            should = before != 'None' and before != this
            new = [e for e in added if variant(G, e) == 'MixedArray']
            other = [e for e in added if variant(G, e) != 'MixedArray']
            keys = [h for h in helper(G, I, x, 'get_full_key')]
            if not should and new: out.append(('spurious', 'a value of type %s after one of type %s is reported as a mixed array' % (this, before)))
            if other: out.append(('other', 'an error %s is reported for a value of an array' % variant(G, other[0])))
            if should and len(new) > 1: out.append(('twice', 'a mixed array is reported twice'))
            if should and new and keys:
                k = new[0][3][0]
                if not any(I.same(s2, k, r[1][2]) for l, r in keys): 
                    if any(I.same(s2, k, y) for l, r in keys for y in r[1]): out.append(('key', 'a mixed array is reported with %s instead of the key of the array' % show(k)))
                    else: raise Unk('key of a mixed array')
                for l, r in keys:
                    for a in l[3]:
                        if a[0] == 'cell' and a[1][0] == 'vec' and a == G.field(pv, 'keychain'): break
                    else: out.append(('key', 'the key of a mixed array is built from another key path than that of the value'))
            if should and not new:
                # only if it has been reported already
                old = [e for e in prior if variant(G, e) == 'MixedArray']
                ok = False
                for e in old:
                    for l, r in keys:
                        res = I.str_eq(s2, e[3][0], r[1][2])
                        if len(res) == 1 and res[0][1]: ok = True
                if not ok: out.append(('missed', 'a value of type %s after one of type %s is not reported as a mixed array%s' % (this, before, ' (errors before: %s)' % ', '.join(variant(G, e) for e in prior) if prior else '')))
    return out

def c18(ctx):
    """Contract-based abstract interpretation of the parser (see C01) with the stack of array element types, the key path and the
    list of errors as small concrete lists of unknowns (no error before, a mixed array with an unknown key before, another error
    before).  For the function that reads one array value, on every path, for every type of the value before and of the value read:
    a mixed array is reported iff there is a value before, its type is another one and no mixed array with the same key is in
    the list; it is reported once and with the array's key; the value's type becomes the current type.  An array must start its
    values with no type before them, and leave the stack as it was; nothing else changes the stack or reports mixed arrays."""
    ctx.rules = ['MixedArray(key of the array) pushed <=> previous type exists and differs and not yet reported for this key', 'current type := type of the value read',
                 'array: values start with no type; stack restored', 'other functions: stack unchanged, no MixedArray']
    P, G = grammar(ctx)
    roles(ctx, G)
    decide(ctx, P, G, mixed, mkworlds=mixed_worlds, keep=G.wrapped, share=('outer', 'elements', 'wrapped'), excuse=lambda o, p: o == p)
    ctx.floor('paths judged', 20)

def roles(ctx, G):
    """outer: functions for a whole array; wrapped: those for arrays used only by them; elements: names of those for the values"""
    arr = [(i, o) for i, o in G.judged() if etype(G, o) == 'Array']
    if not arr: ctx.violate('anchor:array', 'no parsing function for arrays found')
    ids = {i['id'] for i, o in arr}
    G.outer = {i['id'] for i, o in arr if any(j['id'] not in ids for j, p in G.callers(i))}
    G.wrapped = ids - G.outer
    G.elements = {G.name(i) for i, o in G.judged() if etype(G, o) == 'ArrayValue'}
    if not G.elements: ctx.violate('anchor:array values', 'no parsing function for the values of an array found')

# -- C12
def dates_roles(ctx, G):
    dt = [(i, o) for i, o in G.judged() if etype(G, o) == 'DateTime']
    if not dt: ctx.violate('anchor:date-time', 'no parsing function for date-times found')
    ids = {i['id'] for i, o in dt}
    G.outer = {i['id'] for i, o in dt if any(j['id'] not in ids for j, p in G.callers(i))}
    G.wrapped = ids - G.outer
    G.validity = {G.name(i): i for i in G.P.insts.values() if i['local'] and 'bbs' in i and i['kind'] == 'item' and i['argc'] == 1
                  and G.P.T(i['locals'][0])['k'] == 'bool' and G.names(i['locals'][1], '::DateTime')}
    if not G.validity: ctx.violate('anchor:validity', 'no function that tells whether a date-time is valid found')

def dates(G, I, inst, o, pv, x):
    p2, vn, fs = G.result(x); st = x.st; out = []
    now = errs(G, I, x, p2)
    new = [e for e in added(G, now) if variant(G, e) == 'InvalidDateTime']
    bad = []; judged = 0; und = 0
    for l in st.log:
        if l[0] != 'call' or l[1] not in G.validity: continue
        i = G.validity[l[1]]
        r = I.mk(('helper', l[1], l[4]), i['locals'][0])
        ds = I.decide(st, r)
        if len(ds) != 1: und += 1; continue
        judged += 1
        if not ds[0][1]: bad.append(l)
    isdate = etype(G, o) == 'DateTime' and inst['id'] in G.outer
    if not isdate and vn == 'Done' and any(inst_in in G.looked for inst_in in G.outer) and etype(G, o) == 'TOMLValue':
        v = G.leaf(I, st, fs[1]); v = I.expand(st, v) if v[0] == 'sym' else v
        isdate = v is not None and v[0] == 'adt' and variant(G, v) == 'DateTime'
    if isdate and vn == 'Done' and not judged:
        return [('unchecked', 'a date-time is read without asking whether it is valid')]
    if len(new) != len(bad):
        if not bad: out.append(('spurious', 'an invalid date-time is reported although %s' % ('the date-time is valid' if judged else 'none was read')))
        elif vn == 'Done': out.append(('missed', 'an invalid date-time is reported %d times' % len(new)))
    if bad and len(new) == 1 and isdate and vn == 'Done':
        e = new[0]; q = end(fs)
        if etype(G, o) == 'DateTime':
            text = e[3][3]
            if text[0] == 'str':
                r = G.covers(I, st, text[1], 'INPUT', G.p0, q)
                if r: out.append(('text', 'an invalid date-time is reported with another text: %s' % r))
        keys = helper(G, I, x, 'get_full_key')
        if keys:
            k = e[3][0]
            if not any(I.same(st, k, r[1][1]) for l, r in keys):
                if any(I.same(st, k, y) for l, r in keys for y in r[1]): out.append(('key', 'an invalid date-time is reported with %s instead of its key' % show(k)))
                else: raise Unk('key of an invalid date-time')
            for l, r in keys:
                if not any(a[0] == 'cell' and a == G.field(pv, 'keychain') for a in l[3]): out.append(('key', 'the key of an invalid date-time is built from another key path'))
    return out

def c12(ctx):
    """Contract-based abstract interpretation of the parser (see C01).  On every path on which a date-time is read and handed to the
    functions that read values, its validity must have been asked for, and exactly one invalid date-time must be reported iff the
    answer was no, with the key path of the value and exactly the text read.  No other function reports one.  (Which dates are valid is C13, the line C17.)"""
    ctx.rules = ['date-time read, invalid => one InvalidDateTime(key, line, text)', 'date-time read, valid => none', 'no other parsing function reports one']
    P, G = grammar(ctx)
    dates_roles(ctx, G); G.looked = set()
    def wl(G, i, o, th):
        if etype(G, o) != 'DateTime': return worlds(G, i, o, th)
        return [dict(keys=k, tables=t, errors=e) for k in (('S', 'SI', 'SII') if not th else ('S', 'SI', 'SII', 'SIII', 'SS', 'SIS', 'I')) for t in (('', 'A') if not th else ('', 'A', 'S', 'AA')) for e in ((), EARLIER)]
    decide(ctx, P, G, dates, mkworlds=wl, keep=G.wrapped, share=('outer', 'wrapped', 'validity', 'looked'), excuse=lambda o, p: etype(G, o) == 'DateTime' and etype(G, p) in ('DateTime', 'TOMLValue'), firm=('missed', 'spurious', 'text', 'key'))
    ctx.floor('paths judged', 20)

# -- C26, C11
def registrars(ctx, G):
    P = G.P
    inner_ = set()
    seen = set()
    def walk(i):
        for c in P.callees(i):
            if c['id'] in seen or not c['local'] or 'bbs' not in c: continue
            seen.add(c['id'])
            if c['argc'] == 2 and G.isregister(c): inner_.add(c['id'])
            elif c['id'] not in G.nts: walk(c)
    for i, o in G.nts.values(): walk(i)
    r = [P.insts[k] for k in inner_]
    if not r: ctx.violate('anchor:register', 'no function that registers a value for lookup found')
    G.reg = {G.name(i) for i in r}
    return r

def registered(G, I, inst, o, pv, x):
    p2, vn, fs = G.result(x); st = x.st; et = etype(G, o); out = []
    calls = [l for l in st.log if l[0] == 'call' and l[1] in G.reg]
    k0 = vec(G.field(pv, 'keychain'))
    one = not any(w == 'Vec' for w in inner(G.P, o)[1])
    owner = one and et in ('KeyVal', 'ArrayValue')
    if not owner:
        if calls and et not in ('KeyVal', 'ArrayValue', 'TableKeyVal'): out.append(('spurious', 'a value is registered that is not an entry of its own'))
        if vn == 'Done' and not G.iskey(o) and et not in ('ArrayValue',) and inst['id'] not in G.wrapped:
            k1 = vec(G.field(p2, 'keychain'))
            if k1 != k0 and not all(I.same(st, a, b) for a, b in zip(k1, k0)) or len(k1) != len(k0): out.append(('balance', 'the key path is %s afterwards, it was %s' % (show(('vec', k1)), show(('vec', k0)))))
        return out
    if vn != 'Done':
        if calls: out.append(('unread', 'a value is registered although it is not read'))
        return out
    node = G.leaf(I, st, fs[1])
    val = get(G, node, 'val')
    k1 = vec(G.field(p2, 'keychain'))
    if et == 'KeyVal':
        if k1 != k0: out.append(('balance', 'the key path is %s afterwards, it was %s' % (show(('vec', k1)), show(('vec', k0)))))
        inv = False
        if G.hasfield('array_error'):
            c = G.field(pv, 'array_error'); ds = I.decide(st, c[1]) if c[0] == 'cell' else []
            if len(ds) == 1 and ds[0][1]: inv = True
        if inv: return out
        want = k0
    else:
        want = k0
        # the next value of the array gets the next index
        if len(k1) != len(k0) or any(not I.same(st, a, b) for a, b in zip(k1[:-1], k0[:-1])): out.append(('balance', 'the key path is %s after a value of an array, it was %s' % (show(('vec', k1)), show(('vec', k0)))))
        elif variant(G, k1[-1]) != 'Index': out.append(('index', 'the key of the next value is %s' % show(k1[-1])))
        else:
            n1, n0 = k1[-1][3][0], k0[-1][3][0]
            n1 = n1[1] if n1[0] == 'cell' else n1; n0 = n0[1] if n0[0] == 'cell' else n0
            if I.bounds(st, lsub(n1, n0)) != (1, 1): out.append(('index', 'the index of the next value of an array is %s, this one\'s was %s' % (show(n1), show(n0))))
    if len(calls) != 1: return out + [('once', 'a value is registered %d times' % len(calls))]
    l = calls[0]
    if not any(a == val or I.same(st, a, val) for a in l[2][1:]): out.append(('node', 'what is registered, %s, is not the node of the tree, %s' % (show(l[2][1]), show(val))))
    self = l[3][0]
    if self[0] == 'adt':
        kc = vec(G.field(self, 'keychain'))
        if et == 'KeyVal':
            if len(kc) != len(k0) + 1 or kc[:-1] != k0: out.append(('path', 'a value is registered under the key path %s, not %s and its key' % (show(('vec', kc)), show(('vec', k0)))))
            else:
                key = get(G, node, 'key'); kk = kc[-1]
                if variant(G, kk) != 'Str': out.append(('path', 'a value is registered under %s' % show(kk)))
                elif key[0] == 'str' and kk[3][0] != key: out.append(('path', 'a value with key %s is registered under %s' % (show(key), show(kk[3][0]))))
        elif len(kc) != len(k0) or any(not I.same(st, a, b) for a, b in zip(kc, k0)): out.append(('path', 'a value of an array is registered under the key path %s instead of %s' % (show(('vec', kc)), show(('vec', k0)))))
    return out

def table_worlds(G, r, thorough):
    """(keys, kind of the last table, tables, errors before)"""
    for keys in ('S', 'SI', 'SS', 'SIS', 'SII') if not thorough else ('S', 'SI', 'SS', 'SIS', 'SII', 'SSI', 'SSS'):
        for t, tabs in ((None, ''), ('S', ''), ('S', 'A'), ('A', 'A'), ('A', 'AA')):
            for e in ((), EARLIER): yield keys, t, tabs, e

def insertion(ctx, P, G, r, keys, table, tabs, errors, focus):
    I = Interp(P, forks=6); I.predsets = True
    def conv(i):
        def h(I, st, inst, args, destty): return [Out('ret', st, I.mk(('plain', args[0]), inst['locals'][0]))]
        return h
    for i in P.insts.values():
        if not i['local'] or 'bbs' not in i or i['id'] == r['id']: continue
        if i['argc'] == 1 and G.names(i['locals'][0], '::Value') and inner(P, i['locals'][1])[1] == ['Rc', 'RefCell']: I.cuts[i['id']] = conv(i)
        elif i['kind'] == 'item' and any(G.ismap(t) for t in i['locals'][1:i['argc'] + 1]): I.cuts[i['id']] = G.havoc(i)
    st, pv = G.start(I, r, dict(keys=keys, tables=tabs, errors=errors))
    lt = G.ftype('last_table')
    if table is None: l = ('adt', lt, [j for j, v in enumerate(P.T(lt)['v']) if v[0] == 'None'][0], ())
    else:
        tt = P.T(P.T(lt)['args'][0])['args'][0]; vi = [j for j, v in enumerate(P.T(tt)['v']) if v[0] == ('Array' if table == 'A' else 'Standard')][0]
        rc = ('rc', st.alloc(('adt', tt, vi, (I.mk('LT', P.T(tt)['v'][vi][2][0][1]),))))
        if table == 'A':
            t = vec(G.field(pv, 'last_array_tables')); pv = G.setfield(pv, 'last_array_tables', ('cell', ('vec', t[:-1] + (rc,))))
        l = ('adt', lt, [j for j, v in enumerate(P.T(lt)['v']) if v[0] == 'Some'][0], (rc,))
    pv = G.setfield(pv, 'last_table', l)
    kc = vec(G.field(pv, 'keychain'))
    for c, k in zip(keys, kc):
        if c == 'S': I.refine(st, slen(k[3][0][1]), 1, None)      # a key in the text is never empty: a quoted one has its quotes
    a = st.alloc(pv)
    val = I.mk('VAL', r['locals'][2])
    ctx.count('functions analysed as entry')
    try: outs = I.call(st, r, [('ref', a, ()), val])
    except (Unk, Bound) as u: ctx.undecided[str(u)] = 1; return
    ctx.count('paths', len(outs)); ctx.absorb(I)
    tb = vec(G.field(pv, 'last_array_tables'))
    desc = 'key path %s, %s' % (''.join('.key' if c == 'S' else '[i]' for c in keys).lstrip('.'), {None: 'no table', 'S': 'in a table', 'A': 'in an array of tables'}[table])
    if table is None:
        K = []
        for n, (c, k) in enumerate(zip(keys, kc)):
            if n == len(kc) - 1: Pk = norm_parts(K)
            if c == 'S': K += ([('lit', '.')] if n else []) + list(k[3][0][1])
            else: K += [('lit', '['), ('num', k[3][0][1] if k[3][0][0] == 'cell' else k[3][0]), ('lit', ']')]
        if len(kc) == 1: Pk = (('lit', '$Root$'),)
        K = norm_parts(K)
    for x in outs:
        if x.kind != 'ret': continue
        try:
            p2 = I.load(x.st, ('ref', a, ()))
            if table is not None:
                hs = helper(G, I, x, 'get_full_key')
                if not hs: raise Unk('key of a registered value')
                lg, res = hs[0]
                want = tb + (l[3][0],) if table == 'S' else tb
                vs = [vec(v) for v in lg[3] if v[0] == 'cell' and v[1][0] == 'vec']
                if focus == 'C26':
                    if want not in vs: ctx.violate('register:tables', '%s: the key is built from other tables than those the value is in [%s]' % (where(P, r), desc))
                    if kc not in vs: ctx.violate('register:path', '%s: the key is built from another key path than that of the value [%s]' % (where(P, r), desc))
                K, Pk = res[1][1][1], res[1][2][1]
            m0, m1 = G.field(pv, 'map'), G.field(p2, 'map')
            if vec(G.field(p2, 'last_array_tables')) != tb: ctx.violate('register:balance', '%s: registering a value changes the array of tables it is in [%s]' % (where(P, r), desc))
            if vec(G.field(p2, 'keychain')) != kc: ctx.violate('register:keys', '%s: registering a value changes the key path [%s]' % (where(P, r), desc))
            for s, old in entry(G, I, x.st, m0, K):
                judge_insert(ctx, P, G, I, r, s, pv, p2, m0, m1, K, Pk, old, val, keys, desc, focus, x)
        except Unk as u: ctx.undecided['%s: %s' % (G.name(r), u)] = ctx.undecided.get('%s: %s' % (G.name(r), u), 0) + 1

def entry(G, I, st, m, k):
    """what a map of unknown contents has under a key: [(state, value or None)]"""
    for q, v in m[2]:
        if q == k: return [(st, None if v == ABSENT else v)]
    return [(s, I.mk(('.', m[1], ('[]', k)), m[4]) if b else None) for s, b in I.opaque(st, ('has', m[1], k))]

def opt(G, I, st, v):
    out = []
    for s, e in I.expand_fork(st, v): out.append((s, None if variant(G, e) == 'None' else e[3][0]))
    return out

def judge_insert(ctx, P, G, I, r, st, pv, p2, m0, m1, K, Pk, old, val, keys, desc, focus, x):
    def no(rule, text): ctx.violate('%s:%s' % (G.name(r), rule), '%s: %s [%s; path: %s]' % (where(P, r), text, desc, path_of(x)[:500]))
    lst = added(G, errs(G, I, Out('ret', st, None), p2))
    for s, ov in (opt(G, I, st, get(G, I.expand_fork(st, old)[0][1], 'value')) if old is not None else [(st, None)]):
        ctx.count('obligations'); ctx.count('paths judged'); n0 = len(ctx.viol)
        new = [v for q, v in m1[2] if q == K]
        final = new[0] if new else old
        if final == ABSENT: final = None
        pnew = [v for q, v in m1[2] if q == Pk]
        others = [q for q, v in m1[2] if q not in (K, Pk)]
        if others: no('other', 'another entry of the map changes: %s' % show(('str', others[0])))
        if ov is not None:
            # a value was there before
            if focus == 'C11':
                d = [e for e in lst if variant(G, e) == 'DuplicateKey']
                if len(lst) != 1 or len(d) != 1: no('report', 'a key that has a value is reported %d times as a duplicate' % len(d))
                else:
                    e = d[0]
                    if not I.same(s, e[3][0], ('str', K)): no('key', 'a duplicate key is reported as %s' % show(e[3][0]))
                    lc = G.field(pv, 'line_count'); 
                    if I.bounds(s, lsub(e[3][1], lc[1])) != (0, 0): no('line', 'a duplicate key is reported in line %s' % show(e[3][1]))
                    ev = e[3][3]; v = G.leaf(I, s, val)
                    if ev[0] == 'adt':
                        v = I.expand(s, v) if v[0] == 'sym' else v
                        if v is None: no('value', 'a duplicate key is reported with the value %s' % show(ev))
                        elif variant(G, v) != variant(G, ev): no('value', 'a duplicate key with a value of type %s is reported with one of type %s' % (variant(G, v), variant(G, ev)))
                        elif not all(I.same(s, a, b) for a, b in zip(v[3], ev[3])): no('value', 'a duplicate key is reported with another value: %s' % show(ev))
                if final is None or not I.same(s, final, old): no('replaced', 'the value of a key that is given twice is replaced')
                for s2, po in entry(G, I, s, m0, Pk):
                    if pnew and (po is None or not I.same(s2, pnew[0], po)): no('children', 'a duplicate key changes the children of its parent')
        else:
            if lst and focus == 'C11': no('spurious', 'an error %s is reported for a key without a value' % variant(G, lst[0]))
            if final is None: no('lost', 'a value is not stored under its key'); continue
            fv = I.expand_fork(s, final)[0][1]
            stored = opt(G, I, s, get(G, fv, 'value'))
            if len(stored) != 1 or stored[0][1] is None: no('lost', 'a value is not stored under its key')
            elif not I.same(s, stored[0][1], val): no('node', 'what is stored under the key, %s, is not the node of the tree' % show(stored[0][1]))
            if focus == 'C26':
                sub = get(G, fv, 'subkeys')
                if old is not None and not I.same(s, sub, get(G, I.expand_fork(s, old)[0][1], 'subkeys')): no('subkeys', 'storing a value changes the children known of its key')
                for s2, po in entry(G, I, s, m0, Pk):
                    parent(G, I, s2, po, pnew[0] if pnew else po, keys[-1], vec(G.field(pv, 'keychain'))[-1], no)
        if len(ctx.viol) == n0: ctx.count('discharged')

def parent(G, I, st, old, new, kind, key, no):
    """the parent of a new key knows it as a child"""
    if new is None or new == ABSENT: return no('parent', 'the parent of a new key is not in the map')
    nv = I.expand_fork(st, new)[0][1]
    sub = get(G, nv, 'subkeys')
    if old is None:
        sub = I.expand_fork(st, sub)[0][1]
        if kind == 'I':
            if variant(G, sub) != 'Count' or sub[3][0] != ('cell', 1): no('parent', 'the parent of a first array value has the children %s' % show(sub))
        elif variant(G, sub) != 'Keys' or [k for k in vec(sub[3][0])] != [key[3][0]]: no('parent', 'the parent of a first key has the children %s' % show(sub))
        return
    ov = I.expand_fork(st, old)[0][1]
    for s, o in I.expand_fork(st, get(G, ov, 'subkeys')):
        ns = I.expand_fork(s, sub)
        for s2, n in ns:
            if variant(G, n) != variant(G, o): no('parent', 'the kind of children changes from %s to %s' % (variant(G, o), variant(G, n))); continue
            if kind == 'I' and variant(G, o) == 'Count':
                c0, c1 = o[3][0][1], n[3][0][1]
                if I.bounds(s2, lsub(c1, c0)) != (1, 1): no('parent', 'the number of children of an array goes from %s to %s' % (show(c0), show(c1)))
            elif kind == 'S' and variant(G, o) == 'Keys':
                v0 = o[3][0]; v0 = v0[1] if v0[0] == 'cell' else v0
                for s3, e0 in I.expand_fork(s2, v0):
                    l0 = list(vec(e0)); n1 = n[3][0]; n1 = n1[1] if n1[0] == 'cell' else n1
                    l1 = list(vec(I.expand_fork(s3, n1)[0][1]))
                    def has(s, i):
                        if i == len(l0): return [(s, False)]
                        out = []
                        for s4, b in I.str_eq(s, l0[i], key[3][0]): out += [(s4, True)] if b else has(s4, i + 1)
                        return out
                    for s4, b in has(s3, 0):
                        want = l0 if b else l0 + [key[3][0]]
                        if len(want) != len(l1) or not all(I.same(s4, p, q) for p, q in zip(want, l1)): no('parent', 'the children of the parent are %s, they should be %s' % (show(('vec', tuple(l1))), show(('vec', tuple(want)))))

def composers(G):
    """functions (.., key path) -> (bool, key, parent's key)"""
    P = G.P; kc = G.ftype('keychain')
    out = []
    for i in P.insts.values():
        if not i['local'] or 'bbs' not in i or i['kind'] != 'item': continue
        t = P.T(i['locals'][0])
        if t['k'] != 'tuple' or len(t['f']) != 3 or not any(P.peel(a) == kc for a in i['locals'][1:i['argc'] + 1]): continue
        out.append(i)
    return out

def composed(ctx, P, G, i, keys):
    """the key of a value in a table is the key of the table and the key path joined by a dot"""
    I = Interp(P, forks=4)
    tabs = [j for j in P.insts.values() if j['local'] and 'bbs' in j and j['kind'] == 'item' and j['id'] != i['id'] and any(G.ismap(t) for t in j['locals'][1:j['argc'] + 1])]
    for j in tabs: I.cuts[j['id']] = G.havoc(j)
    kct = G.ftype('keychain')
    st, pv = G.start(I, i, dict(keys=keys, tables='A'))
    kc = G.field(pv, 'keychain'); ks = vec(kc)
    for c, k in zip(keys, ks):
        if c == 'S': I.refine(st, slen(k[3][0][1]), 1, None)
    args = []
    for n, t in enumerate(i['locals'][1:i['argc'] + 1]):
        if P.peel(t) == kct: args.append(('ref', st.alloc(kc), ()))
        else: args.append(I.mk(('arg', n), t))
    ctx.count('functions analysed as entry')
    try: outs = I.call(st, i, args)
    except (Unk, Bound) as u: ctx.undecided[str(u)] = 1; return
    ctx.count('paths', len(outs)); ctx.absorb(I)
    def text(ks):
        K = []
        for n, k in enumerate(ks):
            if variant(G, k) == 'Str': K += ([('lit', '.')] if n else []) + list(k[3][0][1])
            else: K += [('lit', '['), ('num', k[3][0][1] if k[3][0][0] == 'cell' else k[3][0]), ('lit', ']')]
        return K
    own, par = text(ks), text(ks[:-1])
    for x in outs:
        if x.kind != 'ret': continue
        ctx.count('obligations'); ctx.count('paths judged')
        try:
            calls = [l for l in x.st.log if l[0] == 'call' and l[1] in {G.name(j) for j in tabs}]
            if len(calls) != 1: raise Unk('key of the table')
            j = [j for j in tabs if G.name(j) == calls[0][1]][0]
            T = I.mk(('helper', calls[0][1], calls[0][4]), j['locals'][0])[1][1]
            v = I.expand(x.st, x.val) if x.val[0] == 'sym' else x.val
            n0 = len(ctx.viol)
            for st, empty in I.str_eq(x.st, T, ('str', ())):
                k = own if empty else list(T[1]) + [('lit', '.')] + own
                p = par if empty else list(T[1]) + ([('lit', '.')] if par else []) + par
                for what, a, b in (('key', v[1][1], k), ('key of the parent', v[1][2], p)):
                    if not I.same(st, a, ('str', norm_parts(b))):
                        ctx.violate('%s:join' % G.name(i), '%s: the %s of a value in a table is %s, it should be %s [key path %s; path: %s]' % (where(P, i), what, show(a), show(('str', norm_parts(b))), keys, path_of(x)[:300]))
            if len(ctx.viol) == n0: ctx.count('discharged')
        except Unk as u: ctx.undecided['%s: %s' % (G.name(i), u)] = ctx.undecided.get('%s: %s' % (G.name(i), u), 0) + 1

def c11(ctx):
    """Abstract interpretation of the function that registers a parsed value, with a map of unknown contents, for key paths of names
    and indexes, with no table, in a table and in an array of tables (the key of a table is what the key function says).  On every
    path and for every earlier state of the map under the key (absent, without a value, with a value): if there is a value, exactly one
    DuplicateKey with the key, the line and the value is pushed and the entry and its parent stay as they are; otherwise the
    entry holds the value afterwards and nothing is reported."""
    ctx.rules = ['map[key] has a value: one DuplicateKey(key, line, value), map unchanged', 'otherwise: map[key].value := the value, no error']
    P, G = prepared(ctx)
    for r in registrars(ctx, G):
        ctx.each(lambda c, k, t, tb, e, r=r: insertion(c, P, G, r, k, t, tb, e, 'C11'), list(table_worlds(G, r, ctx.thorough)))
    ctx.floor('paths judged', 10)

def prepared(ctx):
    P = ctx.prog(); G = Grammar(ctx, P)
    if not G.nts: ctx.violate('anchor:grammar', 'no parsing functions (Parser, &str) -> (Parser, IResult) found')
    return P, G

def c26(ctx):
    """Contract-based abstract interpretation of the parser (see C01) with the key path as a small concrete list: for the functions
    that read a key with a value and one array value, on every path on which they succeed outside of an invalid table the registering
    function is called exactly once, with the very node that is put in the result and with the key path of the value; afterwards the key path is as
    before (in an array: the index is one more).  Every other function leaves the key path as it was and registers nothing.  The registering function itself is analysed as for C11:
    afterwards the map holds that node under the key, and the parent of the key counts or lists it as a child."""
    ctx.rules = ['key = value, array value: registered once, same node, own key path', 'key path restored (array: index + 1)', 'map[key].value is the node; parent lists the child']
    P, G = grammar(ctx)
    rs = registrars(ctx, G); roles(ctx, G)
    def wl(G, i, o, th):
        e = etype(G, o)
        if e == 'ArrayValue': return [dict(keys=k) for k in (('I', 'SI', 'SII') if not th else ('I', 'SI', 'SII', 'SISI', 'SIII'))]
        if e == 'KeyVal': return [dict(keys=k) for k in (('', 'S', 'SI', 'SII') if not th else ('', 'S', 'SI', 'SII', 'SIII', 'SS', 'SIS'))]
        return worlds(G, i, o, th)
    decide(ctx, P, G, registered, mkworlds=wl, share=('reg', 'outer', 'wrapped', 'elements'), excuse=lambda o, p: o == p)
    for r in rs:
        ctx.each(lambda c, k, t, tb, e, r=r: insertion(c, P, G, r, k, t, tb, e, 'C26'), list(table_worlds(G, r, ctx.thorough)))
    for i in composers(G):
        ctx.each(lambda c, k, i=i: composed(c, P, G, i, k), [(k,) for k in (('S', 'SI', 'SS', 'SIS', 'SII') if not ctx.thorough else ('S', 'SI', 'SS', 'SIS', 'SII', 'SSI', 'SSS', 'SISI'))])
    ctx.floor('paths judged', 20)

CHECKS = {'C01': c01, 'C11': c11, 'C12': c12, 'C17': c17, 'C18': c18, 'C26': c26}
