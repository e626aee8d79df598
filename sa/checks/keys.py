from .base import *

def c20(ctx):
    """Path-partitioned abstract interpretation of TableType::is_subtable_of over both header kinds and 0..4 keys a side.
    Every path's verdict is compared with the key equalities the path established: true needs every key of the earlier header
    compared equal to the key at the same place, false needs a longer earlier header or one unequal pair.  A verdict that rests
    on anything else (joined text, prefix of text, wrong pairing) leaves a needed equality unestablished and is reported."""
    P = ctx.prog()
    ctx.rules = ['verdict(path) == (m <= n and all i<m: prev.key[i] == self.key[i]) under the equalities the path decided',
                 'no text prefix/substring test between two non-constant texts in the table header code']
    for inst in ctx.anchor(P, 'TableType::is_subtable_of'):
        I, outs = analyse(ctx, P, inst, names=['self', 'prev'], maxlen=4 if ctx.thorough else 3)
        self_t = P.peel(inst['locals'][1])
        decided = 0
        for o in outs:
            if o.kind == 'panic':
                ctx.violate('%s panic' % strip(inst['name']), 'is_subtable_of can panic: %s' % (path_of(o),)); continue
            if o.kind != 'ret': continue
            try:
                for st, verdict in I.decide(o.st, o.val):
                    n = keylist(I, st, ('ref', ('S', 'self', self_t), ())); m = keylist(I, st, ('ref', ('S', 'prev', self_t), ()))
                    for s2, ks in n:
                        for s3, ps in keylist(I, s2, ('ref', ('S', 'prev', self_t), ())):
                            if not ps or not ks: continue      # headers have at least one key
                            decided += 1
                            want = expected(I, s3, ks, ps)
                            ok = want == {verdict}
                            ctx.obligation(ok, 'is_subtable_of verdict=%s prev=%d self=%d' % (verdict, len(ps), len(ks)),
                                '%s answers %s for an earlier header of %d keys and a header of %d keys although the key-by-key comparison may be %s; path: %s' % (
                                where(P, inst), verdict, len(ps), len(ks), sorted(want), path_of(o)),
                                sample='is_subtable_of=%s when %s' % (verdict, path_of(o)))
            except Unk as u:
                ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
        ctx.count('verdicts compared', decided)

def keylist(I, st, ref):
    """[(state, [key text])] of a table header"""
    out = []
    for s, v in I.loadx(st, ref):
        t = I.p.types[v[1]]
        tab = v[3][0]
        # payload of the variant: Rc<Table> or Table
        r = tab
        while isinstance(r, tuple) and r[0] in ('rc', 'ref', 'box'): r = I.load(s, I.deref(s, r))
        for s2, x in I.expand_fork(s, r):
            if x[0] == 'cell': x = x[1]
            ty = I.p.types[x[1]]
            fs = [f[0] for f in ty['v'][x[2]][2]]
            kv = x[3][fs.index('keys')]
            for s3, ks in I.expand_fork(s2, kv):
                res = []
                for k in ks[1]:
                    kt = I.p.types[k[2]] if k[0] == 'sym' else I.p.types[k[1]]
                    e = I.expand(s3, k) if k[0] == 'sym' else k
                    kn = [f[0] for f in kt['v'][0][2]]
                    res.append(e[3][kn.index('key')])
                out.append((s3, res))
    return out

def expected(I, st, ks, ps):
    if len(ps) > len(ks): return {False}
    res = set()
    sts = [st]
    for a, b in zip(ps, ks):
        nx = []
        for s in sts:
            for s2, e in I.str_eq(s, a, b):
                if e: nx.append(s2)
                else: res.add(False)
        sts = nx
    if sts: res.add(True)
    return res

def c21(ctx):
    """Abstract interpretation of the three key combiners with unknown base, child and children lists: the returned text must be,
    term by term, base "." child, base "[" index "]" or the child alone for an empty base, for every child and in order.  The
    key path formatter of the parser (which names the lookup keys) is held to the same three forms."""
    P = ctx.prog()
    ctx.rules = ['combine_keys(b,c) == (b=="" ? c : b "." c)', 'combine_keys_index(b,i) == b "[" i "]"', 'combine_child_keys(b) == [combine(b,c) for c in children]',
                 'key path formatter: Str -> "." k, Index -> "[" i "]"']
    def check(I, o, got, alts, key, txt):
        """alts: fn(state) -> [(state, expected)]"""
        try:
            for s, want in alts(o.st):
                ctx.obligation(I.same(s, got, want), key, '%s: returns %s, expected %s; path: %s' % (txt, show(got), show(want), path_of(o)),
                               sample='%s -> %s' % (key, show(got)))
        except Unk as u:
            ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
    def comb(I, st, b, c):
        return [(s, c if e else ('str', norm_parts(b[1] + (('lit', '.'),) + c[1]))) for s, e in I.str_eq(st, b, lit(''))]
    base, child = buf('base'), buf('child')
    for inst in ctx.anchor(P, 'Children::combine_keys'):
        I, outs = analyse(ctx, P, inst, names=['base', 'child'])
        for o in outs:
            if o.kind == 'panic': ctx.violate('combine_keys panic', 'panic: ' + path_of(o))
            if o.kind == 'ret': check(I, o, o.val, lambda s: comb(I, s, base, child), 'combine_keys', where(P, inst))
    for inst in ctx.anchor(P, 'Children::combine_keys_index'):
        I, outs = analyse(ctx, P, inst, names=['base', 'child'])
        ix = I.mk('child', inst['locals'][2])
        for o in outs:
            if o.kind == 'panic': ctx.violate('combine_keys_index panic', 'panic: ' + path_of(o))
            if o.kind == 'ret': check(I, o, o.val, lambda s: [(s, ('str', base[1] + (('lit', '['), ('num', ix), ('lit', ']'))))], 'combine_keys_index', where(P, inst))
    for inst in ctx.anchor(P, 'Children::combine_child_keys'):
        I, outs = analyse(ctx, P, inst, names=['self', 'base'], forks=6)
        cty = P.peel(inst['locals'][1])
        for o in outs:
            if o.kind == 'panic': ctx.violate('combine_child_keys panic', 'panic: ' + path_of(o))
            if o.kind != 'ret': continue
            def alts(st):
                res = []
                for s, v in I.loadx(st, ('ref', ('S', 'self', cty), ())):
                    vn = P.types[v[1]]['v'][v[2]][0]
                    if vn == 'Keys':
                        for s2, ks in I.expand_fork(s, v[3][0][1]):
                            acc = [(s2, ())]
                            for k in ks[1]:
                                acc = [(s4, xs + (x,)) for s3, xs in acc for s4, x in comb(I, s3, base, k)]
                            res += [(s3, ('vec', xs)) for s3, xs in acc]
                    else:
                        n = v[3][0][1]
                        lo, hi = I.bounds(s, n)
                        if lo == hi:
                            res.append((s, ('vec', tuple(('str', base[1] + (('lit', '[%d]' % i),)) for i in range(lo)))))
                        elif o.val[0] == 'vec' and not (lo <= len(o.val[1]) and (hi is None or len(o.val[1]) <= hi)):
                            res.append((s, ('vec', ('wrong number of keys', lo, hi))))
                        elif o.val[0] == 'vec':
                            # number of produced keys must be forced to equal the count
                            res.append((s, ('count', n)))
                return res
            check(I, o, o.val, alts, 'combine_child_keys', where(P, inst))
        # longer counted children: the classes the function itself could distinguish (around its own integer constants)
        for n in sorted({0, 12} | {k + d for k in constants(P, inst) if 3 < k <= 300 for d in (0, 1, 2)}):
            t = P.types[cty]
            vi = [v[0] for v in t['v']].index('Count')
            st = State()
            a = st.alloc(('adt', cty, vi, (('cell', n),)))
            I, outs = analyse(ctx, P, inst, args=[('ref', a, ()), base], st=st, visits=n + 40)
            for o in outs:
                if o.kind == 'ret':
                    want = ('vec', tuple(('str', norm_parts(base[1] + (('lit', '[%d]' % i),))) for i in range(n)))
                    ctx.obligation(I.same(o.st, o.val, want), 'combine_child_keys counted', '%s: for %d children returns %s' % (where(P, inst), n, show(o.val)))
    # the parser's own key path formatter
    for inst in P.find('Parser::get_keychain_key'):
        I, outs = analyse(ctx, P, inst, names=['chain'])
        for o in outs:
            if o.kind != 'ret': continue
            try:
                r = ('ref', ('S', 'chain', P.peel(inst['locals'][1])), ())
                kv = I.load(o.st, I.sub(o.st, r, 'C'))
                for s, ks in I.expand_fork(o.st, kv):
                    acc = [(s, ())]
                    full = [()]
                    for i, k in enumerate(ks[1]):
                        nx = []
                        for s2, parts in acc:
                            for s3, x in I.expand_fork(s2, k):
                                if P.types[x[1]]['v'][x[2]][0] == 'Index':
                                    n = x[3][0]
                                    n = n[1] if n[0] == 'cell' else n
                                    nx.append((s3, parts + (('lit', '['), ('num', n), ('lit', ']'))))
                                else:
                                  for s3, empty in I.str_eq(s3, x[3][0], lit('')):
                                    if not empty: nx.append((s3, parts + ((('lit', '.'),) if i else ()) + x[3][0][1]))
                        acc = nx
                    for s2, parts in acc:
                        if not ks[1]: continue
                        got = o.val[1][0]
                        ctx.obligation(I.same(s2, got, ('str', norm_parts(parts))), 'key path formatter', '%s formats %s where lookup keys are built as %s' % (where(P, inst), show(got), show(('str', norm_parts(parts)))),
                                       sample='key path -> %s' % show(got))
            except Unk as u:
                ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1

CHECKS = {'C20': c20, 'C21': c21}
