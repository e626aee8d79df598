"""C28: reading on never loses what was read."""
from .panics import *

def themap(G, I, st, pv):
    m = G.field(pv, mapfield(G))
    for _ in range(4):
        if m[0] in ('ref', 'cell'): m = I.load(st, m) if m[0] == 'ref' else m[1]
    if m[0] != 'map': raise Unk('map')
    return m

def asked(I, st, base, k):
    """was there an entry k before: yes, no, None if the path does not say"""
    v = st.exp.get(('has', base, k))
    if v is not None: return bool(v)
    for q, v in st.exp.items():
        if isinstance(q, tuple) and len(q) == 3 and q[:2] == ('has', base):
            if len(q[2]) and all(r for _, r in I.str_eq(st, ('str', q[2]), ('str', k))): return bool(v)
    return None

def element(k):
    """(key of the list, index) of a key that names an element of a list"""
    if len(k) >= 3 and k[-1] == ('lit', ']') and k[-2][0] == 'num' and k[-3][0] == 'lit' and k[-3][1].endswith('['):
        p = k[-3][1][:-1]
        return k[:-3] + ((('lit', p),) if p else ()), k[-2][1]
    g = re.match(r'(.*)\[(\d+)\]$', k[-1][1], re.S) if k and k[-1][0] == 'lit' else None
    if g: return k[:-1] + ((('lit', g.group(1)),) if g.group(1) else ()), int(g.group(2))
    return None

def before(G, I, st, base, k, field):
    """what the field of the entry was, as far as the path knows (a symbol if it does not)"""
    vt, val, sub_ = mapparts(G); fs = {f: ty for f, ty in G.P.T(vt)['v'][0][2]}
    v = I.mk(('.', ('.', base, ('[]', k)), field), fs[field])
    return v

def absent(G, I, st, m, k):
    """no entry k before"""
    base = m[1]; a = asked(I, st, base, k)
    if a is not None: return not a
    e = element(k)
    if e is None: return None
    vt, val, sub_ = mapparts(G)
    a = asked(I, st, base, e[0])
    if a is False or added(G, I, st, m, e[0]): return True
    if not a: return None
    c = I.expand(st, before(G, I, st, base, e[0], sub_))
    if c is None: return None
    if variant(G, c) == 'Keys': return True
    n = c[3][0]; n = n[1] if n[0] == 'cell' else n
    lo, hi = I.bounds(st, lsub(e[1], n))
    if lo is not None and lo >= 0: return True
    return None

def below(k, p):
    """key k is a key directly or further below key p (as texts)"""
    if p in ROOTS: return len(k) == 1 and k[0][0] == 'sl'
    if len(p) > len(k): return False
    n = len(p)
    if k[:n] == p: return len(k) > n and k[n][0] == 'lit' and k[n][1].startswith('.')
    return k[:n - 1] == p[:-1] and p[-1][0] == 'lit' and k[n - 1][0] == 'lit' and k[n - 1][1] == p[-1][1] + '.'

def added(G, I, st, m, k):
    """the key is new among the children of its parent: it was not registered before, for registered keys are children of their parents"""
    P = G.P; vt, val, sub_ = mapparts(G); base = m[1]
    for p, e in m[2]:
        if p == k or not below(k, p) or e == ABSENT or e[0] != 'adt': continue
        if absent(G, I, st, m, p): return True
        c, c0 = get(G, e, sub_), before(G, I, st, base, p, sub_)
        if c == c0: continue
        o = I.expand(st, c0); c = (I.expand(st, c) or c) if c[0] == 'sym' else c
        if o is None or c[0] != 'adt' or variant(G, o) != 'Keys' or variant(G, c) != 'Keys': continue
        if cellof(c[3][0]) != cellof(o[3][0]): return True
    return False

def cellof(v): return v[1] if v[0] == 'cell' else v

def lost(G, I, st, m):
    """[(rule, text)]: what of the entries of the map at the start is not there any more"""
    P = G.P; vt, val, sub_ = mapparts(G); base = m[1]; out = []
    for k, e in m[2]:
        name = show(('str', k))
        if e == ABSENT:
            if asked(I, st, base, k) is not False: out.append(('removed', 'the key %s is removed' % name))
            continue
        if e[0] != 'adt': continue
        v, c = get(G, e, val), get(G, e, sub_)
        v0, c0 = before(G, I, st, base, k, val), before(G, I, st, base, k, sub_)
        if v == v0 and c == c0: continue
        a = absent(G, I, st, m, k)
        if a or added(G, I, st, m, k): continue
        if a is None:
            out.append(('overwritten', 'the key %s is registered without regard to what it was before' % name)); continue
        if v != v0:
            o = I.expand(st, v0)
            if o is None: out.append(('value', 'the value of %s is replaced without regard to the one it had' % name))
            elif variant(G, o) != 'None' and not I.same(st, o, v): out.append(('value', 'the value of %s, which has one, is replaced' % name))
        if c != c0:
            o = I.expand(st, c0)
            if c[0] == 'sym': c = I.expand(st, c) or c
            if o is None: out.append(('children', 'the children of %s are replaced without regard to those it had' % name)); continue
            if c[0] != 'adt': continue
            if variant(G, o) != variant(G, c): out.append(('children', 'the children of %s are forgotten' % name)); continue
            x, y = cellof(o[3][0]), cellof(c[3][0])
            if variant(G, o) == 'Count':
                lo, hi = I.bounds(st, lsub(y, x))
                if lo is None or lo < 0: out.append(('children', 'the number of children of %s may fall' % name))
            elif y != x and not (y[0] == 'sym' and (y[1] == ('names', k) or frommap(y[1]) == k)):
                x = (I.expand(st, x) or x) if x[0] == 'sym' else x
                if x[0] == 'vec' and y[0] == 'vec' and len(y[1]) >= len(x[1]) and all(I.same(st, p, q) for p, q in zip(x[1], y[1])): continue
                if y[0] == 'vec': out.append(('children', 'the list of children of %s is made anew: %s' % (name, show(y)[:80])))
    return out

def allhas(k, v=None):
    """what keeps paths of the helpers apart here: what the map has, and what its entries are"""
    return k[0] == 'has' or k[0] == '.' and k[-1] != 'C' and frommap(k) is not None

def istable(G, I, st, v):
    if v[0] != 'adt' or variant(G, v) != 'Some': return False
    w = G.leaf(I, st, v[3][0])
    w = (I.expand(st, w) or w) if w[0] == 'sym' else w
    return w[0] == 'adt' and variant(G, w) == 'Table'

def entered(G, I, st, m, kind):
    """a header of this kind has made its entry"""
    vt, val, sub_ = mapparts(G); base = m[1]
    for k, e in m[2]:
        if e == ABSENT or e[0] != 'adt': continue
        v, c = get(G, e, val), get(G, e, sub_)
        if kind == 'Standard':
            if v != before(G, I, st, base, k, val) and istable(G, I, st, v):
                c = (I.expand(st, c) or c) if c[0] == 'sym' else c
                if c[0] == 'adt' and variant(G, c) == 'Count': return show(('str', k))
                return True
        else:
            l = element(k)
            if l is None or v[0] != 'adt' or variant(G, v) != 'None': continue
            if not (absent(G, I, st, m, k) or added(G, I, st, m, k)): continue
            for k2, e2 in m[2]:
                if k2 != l[0] or e2 == ABSENT or e2[0] != 'adt': continue
                c2 = get(G, e2, sub_); c2 = (I.expand(st, c2) or c2) if c2[0] == 'sym' else c2
                if c2[0] != 'adt' or variant(G, c2) != 'Count': continue
                n = cellof(c2[3][0])
                if I.bounds(st, lsub(lsub(n, l[1]), 1)) == (0, 0): return True
                # the list of an array of tables that is still open is registered: such a path is not taken
                if n == 1 and not isinstance(l[1], int) and asked(I, st, base, k2) is False: return True
    return False

def c28(ctx):
    """Abstract interpretation of the functions that read table headers, with all their helpers, and of the function that registers values, with the
    map holding anything and up to two headers before: at the end of every path each entry of the map that was there is still there, with its value,
    and with its children (more may have been added); an entry may be made only where none was, so far as the path knows (an element of a list: at an index
    the list does not have yet).  A header that is not reported as invalid has made its entry: a table one that had no value, an array of tables a
    new last element; at most one error is recorded.  Assumed of the unknown: an entry other than the top level is among the children of its parent (C26 shows that it is put there)."""
    ctx.rules = ['no entry of the map is removed', 'no value of an entry is replaced', 'no child of an entry is dropped, nor its children forgotten', 'header not reported: entry made (array of tables: one element more)', 'at most one error per header']
    P, G = grammar(ctx)
    if not mapfield(G): return ctx.violate('anchor:map', 'the parser has no map')
    G.maxkeys = 3 if ctx.thorough else 2
    V = 3 if not ctx.thorough else 4
    def go(c, iid, w, table):
        G2 = sub(c, P, G); G2.maxkeys = G.maxkeys; i = P.insts[iid]; o = G.nts[iid][1] if iid in G.nts else None
        bad = {}; n = 0
        try: I, pv, outs, args = c10run(c, P, G2, i, o, w, V, o is not None, table, jk=allhas)
        except Bound as b: c.undecided['%s: %s' % (G2.name(i), b)] = 1; return bad, n
        for x in outs:
            if x.kind != 'ret': continue
            try:
                if o is not None:
                    p2, vn, fs = G2.result(x)
                    if vn != 'Done': continue
                else: p2 = I.load(x.st, [a for a, t in zip(args, i['locals'][1:]) if P.T(t)['k'] == 'ref' and P.T(t)['e'] == G.pty][0])
                m = themap(G2, I, x.st, p2); rs = lost(G2, I, x.st, m)
                if o is not None:
                    n1 = len(errs(G2, I, x, p2))       # none before
                    r = G2.leaf(I, x.st, fs[1]); r = (I.expand(x.st, r) or r) if r[0] == 'sym' else r
                    if r[0] != 'adt': raise Unk('header')
                    kind = 'Array' if variant(G2, r) == 'Array' else 'Standard'
                    if n1 > 1: rs.append(('errors', 'a header is reported %d times' % n1))
                    made = n1 or entered(G2, I, x.st, m, kind)
                    if not made: rs.append(('entry', 'a header of %s is neither reported nor registered' % ('an array of tables' if kind == 'Array' else 'a table')))
                    elif isinstance(made, str): rs.append(('kind', 'the header of a table names %s, a list, and is not reported' % made))
            except Unk as u: k = '%s: %s' % (G2.name(i), u); c.undecided[k] = c.undecided.get(k, 0) + 1; continue
            n += 1; c.count('paths judged')
            for k, t in rs: bad.setdefault(k, '%s: %s [path: %s]' % (where(P, i), t, path_of(x)[-600:]))
        return bad, n
    jobs = []
    for i, o in G.nts.values():
        if table_fn(G, o) and not any(table_fn(G, p) for j, p in G.nts.values() if any(cc['id'] == j['id'] for cc in P.callees(i)) and j['id'] != i['id']):
            for t in ('AA', 'AS', 'A', 'S', ''): jobs.append((i['id'], dict(tables=t), None))
    if not jobs: return ctx.violate('anchor:headers', 'no parsing function reads table headers')
    used = reachable(P, G)
    for i in P.insts.values():
        if i['id'] in used and i['local'] and 'bbs' in i and i['kind'] == 'item' and i['id'] not in G.nts and G.isregister(i):
            for t, l in (('AA', 'A'), ('AS', 'S'), ('A', 'A'), ('S', 'S'), ('', '')):
                for k in ('S', 'SI'): jobs.append((i['id'], dict(tables=t, keys=k), l))
    jobs.sort(key=lambda j: -len(j[1].get('tables', '')))
    for j, r in zip(jobs, ctx.each(go, jobs)):
        ctx.count('obligations')
        if r is None: ctx.undecided['no result for ' + G.name(P.insts[j[0]])] = 1; continue
        for k, t in r[0].items(): ctx.violate('%s:%s' % (G.name(P.insts[j[0]]), k), t)
    ctx.floor('paths judged', 500)

CHECKS = {'C28': c28}
