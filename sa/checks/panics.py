"""C10: no path of the parser panics."""
import re, os
DBG = os.environ.get('C10DBG')
from .parsing import *

def table_fn(G, o): return etype(G, o) in ('TableType', 'Table')

def mapfield(G):
    for n, ty in G.P.T(G.pty)['v'][0][2]:
        t = G.P.T(ty)
        if t['k'] == 'ref': t = G.P.T(t['e'])
        if t['k'] == 'adt' and 'HashMap' in t['name']: return n
    return None

def stacks(G):
    """names of the fields of the parser that are lists"""
    return [n for n, ty in G.P.T(G.pty)['v'][0][2] if inner(G.P, ty)[1] == ['RefCell', 'Vec']]

def argument(G, I, st, pv, ty, n):
    """an argument of a helper function: parts of the parser where the types say so, anything otherwise"""
    P = G.P; t = P.T(ty)
    if t['k'] == 'ref':
        e = t['e']
        if e == G.pty: return ('ref', st.alloc(pv), ())
        for f, fty in P.T(G.pty)['v'][0][2]:
            if fty == e and inner(P, fty)[1][:2] == ['RefCell', 'Vec']: return ('ref', st.alloc(G.field(pv, f)), ())
        if G.ismap(ty):
            m = G.field(pv, mapfield(G)); e = P.T(t['e']); cell = e['k'] == 'adt' and e['name'].endswith('RefCell')
            if cell and P.T(e['args'][0])['k'] == 'ref': m = ('ref', st.alloc(m), ())
            return ('ref', st.alloc(('cell', m) if cell else m), ())
    if ty == G.pty: return pv
    return I.mk(('arg', n), ty)

def inmap(x):
    return isinstance(x, tuple) and (len(x) == 2 and x[0] == '[]' or any(inmap(y) for y in x))
def joinkey(k, v):
    """what is known of entries of the map under keys of the text (not: under names found in the map)"""
    if k[0] == 'has': return not inmap(k[2])
    e = frommap(k)
    return e is not None and not inmap(e) and k[0] == '.' and k[-1] != 'C'      # not: the length of a list

def mentions(x, y):
    return x == y or isinstance(x, tuple) and any(mentions(z, y) for z in x)
def names_unknown(G, I, st):
    """after a list of names below a key has changed, it may be any list"""
    P = G.P; vt, val, sub_ = mapparts(G)
    for a, v in list(st.mem.items()):
        if not isinstance(v, tuple) or v[0] not in ('map', 'cell', 'adt'): continue
        m = v
        if m[0] != 'map': continue
        ents = []; hit = False
        for k, e in m[2]:
            if e != ABSENT and e[0] == 'adt':
                fs = list(e[3])
                for n, (f, ty) in enumerate(P.T(vt)['v'][0][2]):
                    c = fs[n]
                    if f == sub_ and c[0] == 'adt' and len(c[3]) == 1 and c[3][0][0] == 'cell' and c[3][0][1][0] == 'vec':
                        vty = P.T(P.T(c[1])['v'][c[2]][2][0][1])['args'][0]
                        pr = ('names', k)
                        for d in (st.exp, st.iv, st.eq, st.text):
                            for q in [q for q in d if (any(mentions(z, pr) for z in q) if isinstance(q, frozenset) else mentions(q, pr))]: del d[q]
                        fs[n] = ('adt', c[1], c[2], (('cell', I.mk(pr, vty)),)); hit = True
                e = ('adt', e[1], e[2], tuple(fs))
            ents.append((k, e))
        if hit: st.mem[a] = ('map', m[1], tuple(ents), m[3], m[4])

def conv(I, st, inst, args, destty): return [Out('ret', st, I.mk(('plain', args[0]), inst['locals'][0]))]

def mapparts(G):
    """(type of the values of the map, field with the value, field with the names of what is below)"""
    P = G.P; t = P.T(G.ftype(mapfield(G)))
    if t['k'] == 'ref': t = P.T(t['e'])
    vt = t['args'][1]; val = sub_ = None
    for n, ty in P.T(vt)['v'][0][2]:
        if G.names(ty, '::Children'): sub_ = n
        elif P.T(ty)['k'] == 'adt' and P.T(ty)['name'].endswith('Option'): val = n
    return vt, val, sub_

def keyfirst(G):
    """characters the keys of a text start with"""
    fs = [G.first.get(i['id']) for i, o in G.nts.values() if not G.printable(o) and G.P.is_str(G.P.peel(o)) and G.keylike(i)]
    return None if not fs or None in fs else rx.norm([x for f in fs for x in f])
def keytext(b):
    """the text of a key in the list of keys of a table, or of the key path"""
    return isinstance(b, tuple) and len(b) == 3 and (b[0] == '.' and b[2] == 'key' or b[:2] == ('P', 'key'))

ROOTS = ((), (('lit', '$Root$'),))
def limits(G, I, free=()):
    """what is assumed of the unknown: no value that was read is a table header, the entries of the top level and of the empty key are tables"""
    P = G.P; vt, val, sub_ = mapparts(G)
    def vh(prov, ty, t):
        if t['k'] != 'adt': return None
        vs = [v[0] for v in t['v']]
        if t['name'].endswith('::TOMLValue') and 'value' not in free and 'Table' in vs and frommap(prov) is None: return [k for k, v in enumerate(vs) if v != 'Table']
        if t['name'].endswith('::Children') and isinstance(prov, tuple) and len(prov) == 3 and prov[0] == '.' and prov[2] == sub_:
            k = frommap(prov)
            if k in ROOTS and 'root' not in free: return [k for k, v in enumerate(vs) if v != 'Count']
        return None
    I.variants_hook = vh
    def lh(prov, ty):
        if 'P' in repr(prov[:2]) and prov[-1] == 'keys' and prov[1][:2] == ('P', 'table'): return range(1, G.maxkeys + 1)
        return None
    I.lens_hook = lh
    fs = keyfirst(G)
    def fh(st, x):
        if fs is not None and x[2] == 0 and x[3] == atom(('len', x[1])) and keytext(x[1]): return fs
        return None
    I.first_hook = fh
def frommap(prov):
    """the key of the entry of the map a value belongs to"""
    while isinstance(prov, tuple) and len(prov) >= 2:
        if prov[0] == '.' and len(prov) == 3 and isinstance(prov[2], tuple) and len(prov[2]) == 2 and prov[2][0] == '[]': return prov[2][1]
        prov = prov[1]
    return None

def c10run(ctx, P, G, i, o, world, visits, inline, table=None, keep=(), free=(), jk=None):
    """(I, pv, outs, final parser of an outcome)"""
    I = Interp(P, forks=3, budget=(8000000 if not ctx.thorough else 6000000), visits=visits); I.predsets = True
    G.install(I, i, keep, not inline)
    for k, (j, p) in G.nts.items():
        if k != i['id'] and k not in I.cuts and k not in keep and not P.is_str(P.peel(p)): I.cuts[k] = G.contract(j, p)
    limits(G, I, free)
    I.joins = lambda j: j['kind'] == 'item' and j['local'] and j['id'] not in G.nts
    I.joinkey = jk or joinkey
    old = I.N['core::slice::<impl [T]>::contains']
    def contains(I, st, a, c):
        v = a[0]
        for _ in range(6):
            if v[0] in ('ref', 'guard'): v = I.load(st, v if v[0] == 'ref' else v[1])
            else: break
        if v[0] == 'sym' and I.expand(st, v) is None: return [Out('ret', s, b) for s, b in I.opaque(st, ('listed', v[1], I.snapval(st, a[1])))]
        return old(I, st, a, c)
    I.snapval = lambda st, x: I.load(st, x) if isinstance(x, tuple) and x[0] == 'ref' else x
    I.N['core::slice::<impl [T]>::contains'] = contains
    I.forget = lambda st: names_unknown(G, I, st)
    if G.isregister(i):
        for j in P.insts.values():
            if not j['local'] or 'bbs' not in j or j['id'] == i['id']: continue
            if j['argc'] == 1 and G.names(j['locals'][0], '::Value') and inner(P, j['locals'][1])[1] == ['Rc', 'RefCell']: I.cuts[j['id']] = conv
            elif any(G.ismap(t) for t in j['locals'][1:j['argc'] + 1]): I.cuts.pop(j['id'], None)
    st, pv = G.start(I, i, world)
    for c, k in zip(world.get('keys', 'S'), vec(G.field(pv, 'keychain'))):
        if c == 'S': I.refine(st, slen(k[3][0][1]), 1, None)
    if table is not None:
        lt = G.ftype('last_table')
        tt = P.T(P.T(lt)['args'][0])['args'][0]
        if table == '': l = I.mkadt(lt, 'None', [])
        else:
            vi = [j for j, v in enumerate(P.T(tt)['v']) if v[0] == ('Array' if table == 'A' else 'Standard')][0]
            l = I.mkadt(lt, 'Some', [('rc', st.alloc(('adt', tt, vi, (I.mk('LT', P.T(tt)['v'][vi][2][0][1]),))))])
        pv = G.setfield(pv, 'last_table', l)
    ctx.count('functions analysed as entry')
    args = []
    from_ = atom(('sym', 'from', G.usize()))
    G.p0 = from_
    for n, ty in enumerate(i['locals'][1:i['argc'] + 1]):
        if i['id'] in G.nts and n == 1:
            args.append(('str', (('sl', 'INPUT', from_, atom(('len', 'INPUT'))),)))
            I.refine(st, lsub(atom(('len', 'INPUT')), from_), 0, None)
        else: args.append(argument(G, I, st, pv, ty, n))
    outs = I.call(st, i, args)
    ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for x in outs if x.kind != 'unk'))
    ctx.absorb(I)
    return I, pv, outs, args

def spots(P, x):
    """where a path panics: function and reason"""
    f, n, why = x.info[0], x.info[1], x.info[2]
    f = plain(f)
    f = re.sub(r'\{closure#\d+\}', '{closure}', f)
    return f.split('parser::Parser')[-1].lstrip('<\'_>: ').replace('internals::', ''), why

def excused(G, I, x):
    """the path assumes an entry of the map that the parser never makes: a list without elements that is no value read"""
    P = G.P; vt, val, sub_ = mapparts(G); st = x.st
    for k, d in list(st.exp.items()):
        if not (isinstance(k, tuple) and len(k) == 3 and k[0] == '.' and k[2] == sub_ and isinstance(d, int)): continue
        if frommap(k) is None: continue
        fs = {f: ty for f, ty in P.T(vt)['v'][0][2]}
        c = I.expand(st, I.mk(k, fs[sub_]))
        if c is None or c[0] != 'adt' or variant(G, c) != 'Count': continue
        n = c[3][0]; n = n[1] if n[0] == 'cell' else n
        lo, hi = I.bounds(st, n)
        if hi is None or hi > 0: continue
        v = I.expand(st, I.mk(('.', k[1], val), fs[val]))
        if v is None: continue
        if variant(G, v) == 'None': return True
        w = G.leaf(I, st, v[3][0])
        w = I.expand(st, w) if w[0] == 'sym' else w
        if w is not None and w[0] == 'adt' and variant(G, w) == 'Table': return True
    return False

def kept(G, I, x, pv, p2, value):
    """[(rule, text)]: what the entries of the map a path leaves behind break"""
    P = G.P; vt, val, sub_ = mapparts(G); out = []
    m = G.field(p2, mapfield(G))
    for _ in range(4):
        if m[0] in ('ref', 'cell'): m = I.load(x.st, m) if m[0] == 'ref' else m[1]
    if m[0] != 'map': raise Unk('map')
    for k, e in m[2]:
        if e == ABSENT: continue
        if e[0] != 'adt': continue
        for s, c in I.expand_fork(x.st, get(G, e, sub_)):
            if variant(G, c) != 'Count': continue
            if any(r for q in ((), (('lit', '$Root$'),)) for _, r in I.str_eq(s, ('str', k), ('str', q))):
                out.append(('root', 'the entry of %s becomes a list' % show(('str', k))))
            n = c[3][0]; n = n[1] if n[0] == 'cell' else n
            lo, _ = I.bounds(s, n)
            if lo is not None and lo >= 1: continue
            v = get(G, e, val)
            if v[0] == 'sym' and frommap(v[1]) == k and n == ('lin', ((('sym', ('.', ('.', ('.', ('.', v[1][1], sub_), 'Count'), '0'), 'C'), None), 1),), 0): continue
            for s2, o in I.expand_fork(s, v):
                if variant(G, o) == 'None':
                    if v[0] == 'sym' and frommap(v[1]) == k and 'P' in repr(n): continue      # as it was
                    out.append(('list', 'the entry of %s may be an empty list' % show(('str', k)))); continue
                w = G.leaf(I, s2, o[3][0])
                for s3, w in I.expand_fork(s2, w):
                    if w[0] == 'adt' and variant(G, w) == 'Table':
                        if v[0] == 'sym' and frommap(v[1]) == k and 'P' in repr(n): continue
                        out.append(('list', 'the table %s may be an empty list' % show(('str', k))))
    return out

def depth(G, pv, n):
    try: return len(vec(G.field(pv, n)))
    except Unk: return None

def c10(ctx):
    """Abstract interpretation of every parsing function, one at a time, with the others replaced by their contracts (see C01), and of
    the helpers that register values and build keys, with the map holding anything: no path may end in a panic (index or slice out of
    range, unwrap, explicit panic, subtraction below zero, RefCell borrowed twice).  For the functions that read table headers
    everything below is looked into, with up to two arrays of tables open.  What is assumed of the unknown is shown of every path: values
    read are never table headers, entries of the top level are never lists, lists of the map without elements are values, the key path
    and the lists of open tables keep their lengths.  Recursion of the parsing functions without a bound is reported by the strongly
    connected components of the call graph."""
    ctx.rules = ['no path of a parsing function or helper panics', 'map: entry of the top level is a table; a list without elements has a value', 'value read is no table header',
                 'key path: one longer after a key, never shorter', 'open tables and their indexes: same number', 'no unbounded recursion of parsing functions']
    P, G = grammar(ctx)
    if not mapfield(G): return ctx.violate('anchor:map', 'the parser has no map')
    G.maxkeys = 3 if ctx.thorough else 2
    lists = stacks(G)
    tabs = [n for n, ty in P.T(G.pty)['v'][0][2] if G.names(ty, '::TableType') and inner(P, ty)[1][:2] == ['RefCell', 'Vec']]
    idxs = [n for n, ty in P.T(G.pty)['v'][0][2] if inner(P, ty)[1] == ['RefCell', 'Vec'] and P.T(inner(P, ty)[0])['k'] == 'int']
    V = 3 if not ctx.thorough else 4
    def go(c, iid, w, table, keep=(), free=()):
        import time; t0 = time.time()
        if DBG: print('START', G.name(P.insts[iid]), w, flush=True)
        G2 = sub(c, P, G); G2.maxkeys = G.maxkeys; i = P.insts[iid]; o = G.nts[iid][1] if iid in G.nts else None
        inl = o is not None and table_fn(G2, o)
        res = {'panics': {}, 'broken': {}, 'calls': set(), 'paths': 0}
        try: I, pv, outs, args = c10run(c, P, G2, i, o, w, 6 if o is not None and not inl else V, inl, table, keep, free)
        except Bound as b:
            c.undecided['%s: %s' % (G2.name(i), b)] = 1
            if DBG: print(G2.name(i), w, table, b, '%.1f' % (time.time() - t0), flush=True)
            return res
        for x in outs:
            for l in x.st.log:
                if l[0] == 'call': res['calls'].add(l[1])
            if x.kind == 'panic':
                if 'list' not in free and excused(G2, I, x): c.count('paths from entries that are never made'); continue
                f, why = spots(P, x)
                res['panics'].setdefault('%s:%s' % (f, why), '%s: %s [path: %s]' % (where(P, i), why, path_of(x)[-700:]))
            if x.kind != 'ret': continue
            c.count('paths judged')
            try:
                if o is not None:
                    p2, vn, fs = G2.result(x)
                    add = 0
                    if vn == 'Done' and (G2.iskey(o) or P.is_str(P.peel(o)) and G2.keylike(i)):
                        r = G2.leaf(I, x.st, fs[1]); add = len(r[1]) if r[0] == 'vec' else 1
                    for n in lists:
                        a, b = depth(G2, pv, n), depth(G2, p2, n)
                        if a is None or b is None: continue
                        if n in tabs or n in idxs: continue
                        if n == 'keychain' and b < a + add or b < a: res['broken'].setdefault('depth', '%s: %s is shorter than it should be' % (where(P, i), n))
                    if tabs and idxs and depth(G2, p2, tabs[0]) != depth(G2, p2, idxs[0]): res['broken'].setdefault('tables', '%s: %s and %s differ in length' % (where(P, i), tabs[0], idxs[0]))
                    if vn == 'Done' and etype(G2, o) == 'TOMLValue' and not inner(P, o)[1][:1] == ['Vec']:
                        for s, v in I.expand_fork(x.st, G2.leaf(I, x.st, fs[1])):
                            if v[0] == 'adt' and variant(G2, v) == 'Table': res['broken'].setdefault('value', '%s: a value read is a table header' % where(P, i))
                elif G2.isregister(i):
                    p2 = I.load(x.st, [a for a, t in zip(args, i['locals'][1:]) if P.T(t)['k'] == 'ref' and P.T(t)['e'] == G.pty][0])
                else: continue
                if inl or G2.isregister(i):
                    for r, t in kept(G2, I, x, pv, p2, None): res['broken'].setdefault(r, '%s: %s [path: %s]' % (where(P, i), t, path_of(x)[-600:]))
            except Unk as u: c.undecided['%s: %s' % (G2.name(i), u)] = c.undecided.get('%s: %s' % (G2.name(i), u), 0) + 1
        if DBG: print(G2.name(i), w, table, len(outs), '%.1f' % (time.time() - t0), res['panics'], res['broken'], flush=True)
        res['paths'] = len(outs); res['time'] = time.time() - t0
        return res
    used = reachable(P, G)
    jobs = []
    for i, o in G.nts.values():
        if table_fn(G, o) and not any(table_fn(G, p) for j, p in G.nts.values() if any(cc['id'] == j['id'] for cc in P.callees(i)) and j['id'] != i['id']):
            for t in ('AA', 'AS', 'A', 'S', ''): jobs.append((i['id'], dict(tables=t), None))
        else:
            for w in worlds(G, i, o, ctx.thorough): jobs.append((i['id'], w, None))
    for i in P.insts.values():
        if i['id'] in used and i['local'] and 'bbs' in i and i['kind'] == 'item' and i['id'] not in G.nts and G.isregister(i):
            for t, l in (('AA', 'A'), ('AS', 'S'), ('A', 'A'), ('S', 'S'), ('', '')):
                for k in ('S', 'SI'): jobs.append((i['id'], dict(tables=t, keys=k), l))
    jobs.sort(key=lambda j: -len(j[1].get('tables', '')) - 3 * (P.insts[j[0]]['id'] in G.nts and table_fn(G, G.nts[j[0]][1])))
    out = ctx.each(go, jobs)
    seen = set()
    while True:
        # the helpers that were not looked into where they are used
        calls = set()
        for r in out: calls |= r['calls'] if r else set()
        more = []
        for i in P.insts.values():
            if i['id'] in used and i['local'] and 'bbs' in i and i['kind'] == 'item' and i['id'] not in G.nts and i['id'] not in seen and G.opaque(i) and G.name(i) in calls and not G.isregister(i):
                seen.add(i['id'])
                if any(G.names(t, '::TOMLValue') or G.names(t, '::DateTime') for t in i['locals'][1:i['argc'] + 1]): continue     # C09
                for t, l in (('', ''), ('A', 'A'), ('S', 'S'), ('AS', 'S'), ('AA', 'A')):
                    for k in ('S', 'SI'): more.append((i['id'], dict(tables=t, keys=k), l))
        if not more: break
        out += ctx.each(go, more); jobs += more
    ctx.count('obligations', len(jobs))
    broken = {}
    for j, r in zip(jobs, out):
        for k, t in (r['broken'] if r else {}).items(): broken.setdefault(k, {})[j[0]] = t
    if broken:
        # what was assumed does not hold: look again without it
        keep = tuple(sorted(set(broken.get('depth', {})) | set(broken.get('tables', {}))))
        free = tuple(k for k in broken if k in ('root', 'list', 'value'))
        again = [j for j in jobs if free or any(cc['id'] in keep for cc in P.callees(P.insts[j[0]]))]
        out2 = ctx.each(lambda c, a, b, d: go(c, a, b, d, keep, free), again)
        if __import__('os').environ.get('C10DBG'): print('BROKEN', broken)
        out = [r for j, r in zip(jobs, out) if j not in again] + out2
        for k, d in broken.items():
            for t in d.values(): ctx.samples.append('not assumed (%s): %s' % (k, t[:200]))
    for r in out:
        for k, t in (r['panics'] if r else {}).items(): ctx.violate('panic:' + k, t)
    recursion(ctx, P, G)
    ctx.floor('paths judged', 500)

def reachable(P, G):
    """call graph of the parsing functions"""
    succ = {}
    todo = list(G.nts)
    while todo:
        k = todo.pop()
        if k in succ: continue
        i = P.insts[k]
        succ[k] = [c['id'] for c in P.callees(i) if 'bbs' in c] if 'bbs' in i else []
        todo += succ[k]
    return succ

def recursion(ctx, P, G):
    """cycles of the call graph through parsing functions"""
    succ = reachable(P, G)
    # strongly connected components (Tarjan, iterative)
    idx = {}; low = {}; stack = []; on = set(); comps = []
    for root in list(succ):
        if root in idx: continue
        work = [(root, iter(succ[root]))]; idx[root] = low[root] = len(idx); stack.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in succ: continue
                if w not in idx:
                    idx[w] = low[w] = len(idx); stack.append(w); on.add(w); work.append((w, iter(succ[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    comps.append(c)
    n = 0
    for c in comps:
        if len(c) == 1 and c[0] not in succ[c[0]]: continue
        ps = [k for k in c if k in G.nts]
        if not ps: continue
        n += 1
        kinds = sorted({etype(G, G.nts[k][1]) for k in ps} - {''})
        key = 'TOMLValue' if 'TOMLValue' in kinds else '+'.join(kinds) or sorted(G.name(P.insts[k]) for k in ps)[0]
        ctx.violate('recursion:' + key, 'the parsing functions %s call each other as deep as the text is nested, without a bound: a text nested some hundred to some thousand levels deep overflows the stack' % ', '.join(sorted(G.name(P.insts[k]) for k in ps)))
    ctx.count('functions of the call graph of the parser', len(succ)); ctx.count('cycles through parsing functions', n)

CHECKS = {'C10': c10}
