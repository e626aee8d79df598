"""The text forms: each reading function is turned into a regular language of texts with the end of the text read marked, and
compared with TOML's; texts that validate are read back."""
from .base import *
from .grammar import Grammar, inner
from .. import rx, marked
from ..marked import *

class NotRegular(Exception):
    """a fact about the text the translation does not know"""

def has(x, b):
    if x == b: return True
    return isinstance(x, tuple) and x[:1] != ('cat',) and any(has(y, b) for y in x)

def same0(I, st, p, q): return I.bounds(st, lsub(p, q)) == (0, 0)

def translate(I, st, b, p0, out, content=None):
    """tracks of what one path knows about the text b from p0 on, with the place 'out' visible (None: the end of the text)"""
    end = atom(('len', b))
    pos = []          # known places
    alias = {}        # other terms for them
    def place(p):
        for i, q in enumerate(pos):
            if same0(I, st, p, q):
                if p not in alias[i]: alias[i].append(p)
                return i
        pos.append(p); alias[len(pos) - 1] = [p]; return len(pos) - 1
    start = place(p0)
    facts = {}        # place -> constraints starting there
    edges = {}        # place -> {place: constraints}
    def fact(p, f): facts.setdefault(place(p), []).append(f)
    def edge(p, q, f): edges.setdefault(place(p), {}).setdefault(place(q), []).append(f)
    outp = place(out if out is not None else end)
    for s in st.segs:
        if s[0] != b: continue
        if s[3] == 're': edge(s[1], s[2], lambda i, j, pat=s[4]: Match(i, j, pat))
        elif s[3] == 'set': edge(s[1], s[2], lambda i, j, cs=s[4]: Set(i, j, cs))
        else: raise NotRegular('segment ' + s[3])
    for (b2, p), t in st.text.items():
        if b2 == b: fact(p, ('text', t))
    for k, v in st.exp.items():
        if not isinstance(k, tuple) or not k: continue
        if not has(k, b): continue
        n = k[0]
        if n == 're' and k[1][0] == 'm' and k[1][2] == b:
            if v is False: fact(k[1][3], ('nomatch', k[1][1]))
            elif not any(s[0] == b and s[3] == 're' and s[4] == k[1][1] and same0(I, st, s[1], k[1][3]) for s in st.segs):
                # it matches, the end is of no interest
                fact(k[1][3], ('match', k[1][1]))
        elif n == 'notpfx' and k[1] == b:
            if v: fact(k[2], ('notext', k[3]))
        elif n == 'firstset' and k[1] == b: fact(k[2], ('first', v, True))
        elif n == 'pred' and k[2][0] == 'sl' and k[2][1] == b:
            cs = charset(I, k[1])
            if cs is None: raise NotRegular('character predicate')
            if k[3] == 0: fact(k[2][2], ('first', cs, v))
            elif not v:
                g = st.misc.get(('later', b, k[2][2]))
                if not g: raise NotRegular('character')
                fact(ladd(k[2][2], g[0]), ('first', cs, False))
                edge(k[2][2], ladd(k[2][2], g[0]), lambda i, j, cs=cs: Set(i, j, cs))
            elif not any(s[0] == b and s[3] == 'set' and s[4] == cs and same0(I, st, s[1], k[2][2]) for s in st.segs): raise NotRegular('later characters')
        elif n == 'allin':
            ps = k[1]
            if len(ps) != 1 or ps[0][0] != 'sl' or ps[0][1] != b: raise NotRegular('character classes of a composite text')
            edge(ps[0][2], ps[0][3], lambda i, j, cs=k[2], w=v: Set(i, j, cs, w))
        elif n == 'ne': pass
        elif n == 'isnum' and v and fixeddigits(I, st, k[1]): pass
        elif n == 'isnum' and v and fixednumber(I, st, k[1]):
            lo, hi = I.bounds(st, atom(('numval', k[1])))
            fact(k[1][0][2], ('parsed', fixednumber(I, st, k[1]), lo, hi, False))
        else: raise NotRegular('fact ' + str(n))
    # blank exactly if nothing is left after trimming
    for d in list(st.iv) + [k[1] for k in st.exp if isinstance(k, tuple) and k and k[0] == 'ne']:
        if len(d) == 1 and d[0][0][0] == 'plen' and d[0][1] == 1 and d[0][0][1][0] in ('trim', 'trim_right', 'trim_left', 'trim_end', 'trim_start') and has(d, b):
            ps = d[0][0][1][1][0]
            if len(ps) != 1 or ps[0][0] != 'sl' or ps[0][1] != b: raise NotRegular('trimmed composite text %r' % (ps,))
            lo, hi = I.bounds(st, ('lin', tuple(d), 0))
            if hi == 0: edge(ps[0][2], ps[0][3], lambda i, j: Set(i, j, BLANK))
            elif lo is not None and lo > 0 or st.exp.get(('ne', tuple(d), 0)): edge(ps[0][2], ps[0][3], lambda i, j: Set(i, j, BLANK, False))
    # constant distances
    endp = place(end)
    n = len(pos)
    reach = {start}; work = [start]
    def grow():
        while work:
            x = work.pop()
            for y in edges.get(x, {}):
                if y not in reach: reach.add(y); work.append(y)
    grow()
    for _ in range(n):
        todo = [y for y in range(n) if y not in reach and (y in facts or y in edges or y == outp)]
        if not todo: break
        best = None
        for y in todo:
            for x in reach:
                lo, hi = I.bounds(st, lsub(pos[y], pos[x]))
                if lo is not None and lo == hi and lo > 0 and (best is None or lo < best[0]): best = (lo, x, y)
        if best is None:
            y = todo[0]
            if y == endp: break
            if all(isinstance(f, tuple) and f[0] in ('text', 'first') for f in facts.get(y, ())) and y not in edges and y != outp:
                facts.pop(y); continue        # what is known from the end of a match is known from the match
            raise NotRegular('a place in the middle of the text')
        d, x, y = best
        edges.setdefault(x, {}).setdefault(y, []).append(lambda i, j, d=d: Bytes(i, j, d, d))
        reach.add(y); work.append(y); grow()
    # facts about numbers must be about distances the tracks know
    def direction(d):
        t, _ = lterms(d)
        return None if not t else I.normdir(d)[0]
    known = set()
    def distances(x, y):
        for p in alias[x]:
            for q in alias[y]:
                if p != q: known.add(direction(lsub(q, p)))
    for x in range(n): distances(x, endp); distances(x, x)
    for x in edges:
        for y in edges[x]: distances(x, y)
    for d in list(st.iv) + [k[1] for k in st.exp if isinstance(k, tuple) and k and k[0] == 'ne']:
        if has(d, b) and tuple(d) not in known and not trivial(I, st, d): raise NotRegular('number %s %s' % (st.iv.get(d), d))
    for d in st.iv:
        if len(d) == 1 and d[0][1] == 1 and d[0][0][0] == 'numval' and d[0][0][1][0][0] == 'sl' and d[0][0][1][0][1] == b and fixeddigits(I, st, d[0][0][1]):
            lo, hi = I.bounds(st, ('lin', d, 0))
            if lo is not None and lo < 0: lo = 0
            fact(d[0][0][1][0][2], ('num', fixeddigits(I, st, d[0][0][1]), lo, hi))
    # the tracks
    tracks = []; shown = []
    def cons(idx, chain):
        out = []
        for f in facts.get(idx, ()):
            i = len(chain) - 1
            if f[0] == 'text': out.append(Text(i, f[1]))
            elif f[0] == 'notext': out.append(NoText(i, f[1]))
            elif f[0] == 'nomatch': out.append(NoMatch(i, f[1]))
            elif f[0] == 'first': out.append(First(i, f[1], f[2]))
            elif f[0] == 'match': out.append(SomeMatch(i, f[1]))
            elif f[0] == 'parsed': out.append(Parsed(i, *f[1:]))
            elif f[0] == 'num':
                if f[3] is not None and (f[3] < 0 or len(str(f[3])) > f[1]): f = f[:3] + (None,)
                if f[2] is None or len(str(f[2])) <= f[1]: out.append(Num(i, f[1], f[2], f[3]))
        # how much text is left
        if idx == endp: return out + [Bytes(len(chain) - 1, None, 0, 0)]
        d = lsub(end, pos[idx]); lo, hi = I.bounds(st, d)
        dt, dc = lterms(d)
        ne = [k[2] + dc for k, v in st.exp.items() if isinstance(k, tuple) and k and k[0] == 'ne' and v and tuple(k[1]) == tuple(dt)]
        ne = [x for x in ne if x >= 0]
        if lo is not None and lo > 0 or hi is not None or ne:
            if hi is not None and hi > 140 or lo is not None and lo > 140: raise NotRegular('long text')
            out.append(Bytes(len(chain) - 1, None, lo, hi, ne))
        return out
    def walk(idx, chain, acc):
        if len(tracks) > 40: raise NotRegular('too many tracks')
        acc = acc + cons(idx, chain)
        nx = edges.get(idx, {})
        if not nx:
            tracks.append((list(chain), acc)); return
        for y, fs in sorted(nx.items()):
            if y in chain: continue
            i, j = len(chain) - 1, len(chain)
            a2 = [f(i, j) for f in fs]
            lo, hi = I.bounds(st, lsub(pos[y], pos[idx]))
            dt, dc = lterms(lsub(pos[y], pos[idx]))
            if hi is not None and hi <= 140 or lo is not None and 0 < lo <= 140: a2.append(Bytes(i, j, lo, hi if hi is not None and hi <= 140 else None))
            ne = [k[2] + dc for k, v in st.exp.items() if isinstance(k, tuple) and k and k[0] == 'ne' and v and tuple(k[1]) == tuple(dt)]
            ne = [x for x in ne if 0 <= x <= 140]
            if ne: a2.append(Bytes(i, j, 0, None, ne))
            if y == endp: tracks.append((list(chain) + [y], acc + a2 + [Bytes(j, None, 0, 0)])) if not edges.get(y) else walk(y, chain + [y], acc + a2)
            else: walk(y, chain + [y], acc + a2)
    walk(start, [start], [])
    res = []; have = False
    for chain, acc in tracks:
        o = None
        if outp in chain and not have: o = chain.index(outp); have = True
        res.append(Track(len(chain), acc, o))
    if not have:
        if outp == endp: res.append(Track(2, [Bytes(1, None, 0, 0)], 1))
        else: raise NotRegular('the end of the text read')
    return res

def fixeddigits(I, st, ps):
    """the text is known to be that many digits"""
    if len(ps) != 1 or ps[0][0] != 'sl': return None
    lo, hi = I.bounds(st, lsub(ps[0][3], ps[0][2]))
    if lo is None or lo != hi or not 0 < lo < 19: return None
    return lo if any(st.exp.get(k) for k in list(st.exp) if isinstance(k, tuple) and k and k[0] == 'allin' and k[1] == ps and all(48 <= l and h <= 57 for l, h in k[2])) else None

def fixednumber(I, st, ps):
    """the text is known to be that many characters that parse as a number"""
    if len(ps) != 1 or ps[0][0] != 'sl': return None
    lo, hi = I.bounds(st, lsub(ps[0][3], ps[0][2]))
    return lo if lo is not None and lo == hi and 0 < lo <= 4 else None

BLANK = ((9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000))

def charset(I, iid):
    return I.p.__dict__.get('predcache', {}).get(iid)

def numbers(x):
    """texts whose numeric value is part of a term"""
    if not isinstance(x, tuple): return []
    if len(x) == 2 and x[0] == 'numval': return [x[1]]
    return [z for y in x for z in numbers(y)]

def trivial(I, st, d):
    """the length of a match or of the whole text is not negative"""
    lo, hi = st.iv.get(d, (None, None))
    for b, ps in getattr(I, 'cats', {}).items():
        # the length of a text is the sum of the lengths of its parts
        t = atom(('len', b))
        for p in ps: t = lsub(t, len(p[1].encode()) if p[0] == 'lit' else lsub(p[3], p[2]))
        if lterms(t)[0] and tuple(d) == tuple(I.normdir(t)[0]): return True
    nums = [x for x, _ in d if x[0] in ('numval', 'mod', 'div')]
    if nums and len(nums) == len(d):
        # a single number is kept as a range (see numbers), relations between numbers are left out
        return all(fixeddigits(I, st, ps) or fixednumber(I, st, ps) for x in nums for ps in numbers(x))
    if len(d) == 1 and d[0][0][0] == 'plen' and d[0][0][1][0] in ('trim', 'trim_right', 'trim_left', 'trim_end', 'trim_start') and d[0][1] == 1:
        return hi == 0 or (lo is None or lo <= 1) and hi is None       # see blank
    if len(d) == 2 and d[0][0][0] == 'gap' and d[0][0][1][0] == 'later' and d[1][0][0] == 'len' and (d[0][1], d[1][1]) == (1, -1):
        # a later character stands before the end
        q = d[0][0][1][2][2]
        return lo is None and isinstance(q, int) and (hi is None or hi >= -1 - q)
    if len(d) == 1 and d[0][1] == 1:
        a = d[0][0]
        if a[0] == 'gap' and a[1][0] == 'm':
            r = rx.parse(a[1][1])
            return (lo is None or lo <= (r.minlen or 0)) and (hi is None or r.maxlen is not None and hi >= r.maxlen)
        if a[0] == 'len' or a[0] == 'sym' and not (isinstance(a[1], tuple) and a[1][0] == 'char'): return (lo is None or lo <= 0) and hi is None
        if a[0] == 'gap' and a[1][0] == 'later': return True
        if a[0] == 'sym' and isinstance(a[1], tuple) and a[1][0] == 'char' and len(a[1]) == 3:
            # bounds of a character that follow from the sets it is known to be in
            l, h = 0, 0x10ffff
            for k, v in st.exp.items():
                if isinstance(k, tuple) and k and k[0] == 'pred' and v is True and k[2:] == a[1][1:]:
                    cs = charset(I, k[1])
                    if cs: l, h = max(l, cs[0][0]), min(h, cs[-1][1])
            return (lo is None or lo <= l) and (hi is None or hi >= h)
    return False

def reader(ctx, P, G, inst, tag, setup=None, cuts=(), buffer='T'):
    """paths of a reading function as marked languages: {tag: [Path]}; None if some path is not understood"""
    I = Interp(P, forks=6, budget=800000); I.predsets = True
    keep = set(G.nts) if G else ()
    if G: G.install(I, inst, keep)
    for i, h in (cuts or {}).items(): I.cuts[i] = h
    if setup: setup(I)
    st, pv = G.start(I, inst) if G else (State(), None)
    args = [pv if pv is not None and t == G.pty else buf(buffer) for t in inst['locals'][1:inst['argc'] + 1]]
    ctx.count('functions analysed as entry')
    outs = I.call(st, inst, args)
    ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
    ctx.absorb(I)
    res = {}; good = True
    for o in outs:
        if o.kind == 'panic': res.setdefault('panic', []).append((o, I)); continue
        if o.kind != 'ret': good = False; continue
        try:
            v = o.val
            if v[0] == 'tup': v = v[1][1]
            if v[0] == 'sym': raise NotRegular('result')
            vn = P.T(v[1])['v'][v[2]][0]
            if vn != 'Done': continue
            rest = v[3][0]
            ps = rest[1]
            q = atom(('len', buffer)) if not ps else ps[0][2]
            if ps and (len(ps) != 1 or ps[0][0] != 'sl' or ps[0][1] != buffer or not same0(I, o.st, ps[0][3], atom(('len', buffer)))): raise NotRegular('rest')
            t = tag(I, o.st, v[3][1])
            res.setdefault(t, []).append(Path(translate(I, o.st, buffer, 0, q), t))
        except (NotRegular, Unk, rx.Unsupported) as u:
            good = False
            ctx.undecided['not regular: %s' % u] = ctx.undecided.get('not regular: %s' % u, 0) + 1
    return res, good

# ---------------------------------------------------------------- TOML's forms
WS = '[ \\t]*'
NLS = '(\\n|\\r\\n)'
ESC = '\\\\["\\\\/bfnrt]|\\\\u[0-9A-Fa-f]{4}|\\\\U[0-9A-Fa-f]{8}'
BASIC = '"([ !#-\\[\\]-\\x{10FFFF}]|%s)*"' % ESC
MLBASIC = '"""([\\t !-\\[\\]-\\x{10FFFF}]|%s|\\\\?%s)*?"""' % (ESC, NLS)
LITERAL = "'[\\t -&(-\\x{10FFFF}]*'"
MLLITERAL = "'''([\\t -\\x{10FFFF}]|%s)*?'''" % NLS
INT = '[+-]?([1-9]([0-9]|_[0-9])+|[0-9])'
FRAC = '\\.[0-9]([0-9]|_[0-9])*'
EXP = '[eE]%s' % INT
FLOAT = '%s(%s%s|%s|%s)' % (INT, FRAC, EXP, FRAC, EXP)
DATE = '[0-9]{4}-[0-9]{2}-[0-9]{2}(T[0-9]{2}:[0-9]{2}:[0-9]{2}(\\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})?)?'
BARE = '[A-Za-z0-9_-]+'
QKEY = BASIC.replace(')*"', ')+"')
COMMENT = '#[\\t -\\x{10FFFF}]*'
# in the order TOML assigns a text that starts like several of them
VALUES = [('DateTime', '', DATE), ('Float', '', FLOAT), ('Integer', '', INT), ('Boolean', '', 'true|false'),
          ('String', 'MLLiteral', MLLITERAL), ('String', 'MLBasic', MLBASIC), ('String', 'Literal', LITERAL), ('String', 'Basic', BASIC)]
LEXEMES = {'ws': WS, 'ws_newline': '([ \\t]|%s)*' % NLS, 'newline': '\\r?\\n', 'comment': COMMENT, 'unquoted_key': BARE, 'quoted_key': QKEY,
           'key': BARE + '|' + QKEY, 'keyval_sep': WS + '=' + WS, 'array_sep': WS + ',' + WS}

def alternatives(forms):
    """ordered choice of forms as marked languages"""
    res = []
    for k, (t, pat) in enumerate(forms):
        res.append(Path([Track(2, [Match(0, 1, '^(%s)' % pat)] + [NoMatch(0, '^(%s)' % p) for _, p in forms[:k]], 1)], t))
    return res

def variant(P, v): return P.T(v[1])['v'][v[2]][0]

def unwrap(I, st, v):
    for _ in range(8):
        if v[0] in ('rc', 'ref', 'box', 'guard'): v = I.load(st, I.deref(st, v))
        elif v[0] == 'cell': v = v[1]
        elif v[0] == 'adt' and len(v[3]) == 1 and I.p.T(v[1])['name'].split('::')[-1] in ('RefCell', 'Rc', 'UnsafeCell'): v = v[3][0]
        else: break
    return v

def valuetag(I, st, v):
    P = I.p
    v = unwrap(I, st, v)
    if v[0] != 'adt': raise NotRegular('value')
    t = variant(P, v)
    if t == 'String':
        s = v[3][1]
        if s[0] != 'adt': raise NotRegular('string style')
        return t, variant(P, s)
    return t, ''

def failing(I, inst):
    """handler of a call that reads nothing"""
    P = I.p
    ret = P.T(inst['locals'][0])
    if ret['k'] != 'tuple': raise Unk('result of a reader')
    rty = ret['f'][1]
    def h(I, st, inst, args, destty):
        v = [n for n, _, _ in P.T(rty)['v']]
        fs = P.T(rty)['v'][v.index('Error')][2]
        return [Out('ret', st, ('tup', (args[0], I.mkadt(rty, 'Error', [I.mk(('noerr', n), t) for n, t in fs]))))]
    return h

def passing(I, inst):
    """handler of a call that reads something or fails"""
    P = I.p
    fail = failing(I, inst)
    rty = P.T(inst['locals'][0])['f'][1]
    n = [0]
    def h(I, st, inst, args, destty):
        n[0] += 1
        outs = fail(I, st.copy(), inst, args, destty)
        s = st.copy()
        inp = I.strval(s, args[-1])
        if len(inp[1]) != 1: raise Unk('rest of a text')
        _, b, lo, hi = inp[1][0]
        g = atom(('gap', ('some', b, lo, n[0])))
        if I.refine(s, g, 0, None) and I.refine(s, lsub(hi, ladd(lo, g)), 0, None):
            vs = [x for x, _, _ in P.T(rty)['v']]
            f = P.T(rty)['v'][vs.index('Done')][2]
            outs.append(Out('ret', s, ('tup', (args[0], I.mkadt(rty, 'Done', [('str', (('sl', b, ladd(lo, g), hi),)), I.mk(('some', n[0]), f[1][1])])))))
        return outs
    return h

def opens(ctx, G, inst, same, first):
    """what this function reads starts with that character"""
    P = G.P
    I = Interp(P, forks=4, budget=200000, visits=2); I.predsets = True
    for i, o in G.nts.values():
        if i['id'] != inst['id'] and i['id'] not in same: I.cuts[i['id']] = passing(I, i)
    for i in P.insts.values():
        if i['local'] and 'bbs' in i and i['kind'] == 'item' and i['id'] not in I.cuts and i['id'] not in G.nts and G.opaque(i): I.cuts[i['id']] = G.havoc(i)
    st, pv = G.start(I, inst, dict(keys='S'))
    ctx.count('functions analysed as entry')
    outs = I.call(st, inst, [pv if t == G.pty else buf('T') for t in inst['locals'][1:inst['argc'] + 1]])
    ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
    ctx.absorb(I); ok = 0
    for o in outs:
        if o.kind != 'ret' or o.val[0] != 'tup': continue
        r = o.val[1][1]
        if r[0] != 'adt' or variant(P, r) != 'Done': continue
        t = o.st.text.get(('T', 0))
        ok += 1
        if t is None or t[:1] != first:
            return ctx.violate('opens|' + first, '%s reads a text that need not start with %r: %s' % (where(P, inst), first, path_of(o)))
    ctx.count('paths judged', ok)
    if ok: ctx.obligation('starts with ' + first, strip(inst['name']))

def byname(G, n):
    r = [i for i, o in G.nts.values() if G.name(i) == n]
    return r[0] if len(r) == 1 else None

def difference(ctx, P, what, inst, got, ref, tags):
    """compare the read texts with TOML's, form by form"""
    for t in tags:
        p = [x for x in got if x.name == t]; q = [x for x in ref if x.name == t]
        try: w, n = compare(p, q)
        except rx.Unsupported as u:
            ctx.undecided['%s: %s' % (what, u)] = 1; continue
        ctx.count('states compared', n); ctx.count('paths judged', len(p))
        ctx.obligation('%s %s' % (what, t if isinstance(t, str) else ' '.join(x for x in t if x)), strip(inst['name']), 'holds' if w is None else 'violated')
        if w is not None:
            a, b, inp = w
            nm = what + ('' if isinstance(t, str) else ' as ' + ' '.join(x for x in t if x))
            ctx.violate('%s|%s' % (what, t), 'in %s: the text %r, followed by %r, is %s read as %s; by TOML it is%s' % (
                where(P, inst), a, b, '' if inp else 'not', nm, ' not' if inp else ''))

def c16(ctx):
    """Each path of a reading function (function inlined into its callees, nothing cut but arrays and inline tables) is turned into a
    constraint automaton over the text with the place where reading stops marked; the union over the paths is compared, by subset
    construction, with the union of TOML's forms (ordered choice of regular expressions).  Equality holds for all texts of any
    length; inequality gives a shortest text."""
    ctx.rules = ['marked language of the paths of each reading function = marked language of the form of TOML', 'value: per type and string style; arrays and inline tables start with their bracket']
    P = ctx.prog()
    G = Grammar(ctx, P)
    def lexeme(c, n):
        inst = byname(G, n)
        if inst is None: ctx.undecided['no function ' + n] = 1; return
        r, good = reader(c, P, G, inst, lambda I, st, v: 'x')
        for o, I in r.pop('panic', []): c.violate('panic|' + n, '%s panics: %s' % (where(P, inst), path_of(o)))
        if not good: return
        difference(c, P, n, inst, r.get('x', []), alternatives([('x', LEXEMES[n])]), ['x'])
    def value(c):
        inst = byname(G, 'val')
        if inst is None: return c.violate('anchor:val', 'no single function val that reads a value')
        r, good = reader(c, P, G, inst, valuetag, cuts=bracketcuts(G))
        for o, I in r.pop('panic', []): c.violate('panic|val', '%s panics: %s' % (where(P, inst), path_of(o)))
        if not good: return
        forms = [((t, s), p) for t, s, p in VALUES]
        got = [p for v in r.values() for p in v]
        difference(c, P, 'value', inst, got, alternatives(forms), sorted(set([f[0] for f in forms]) | set(r)))
    groups = {}
    for i, o in G.nts.values():
        t = P.T(inner(P, P.peel(o))[0])
        if t['k'] == 'adt' and t['name'].split('::')[-1] in ('Array', 'InlineTable'): groups.setdefault(t['name'].split('::')[-1], []).append(i)
    ctx.each(lambda c, k, a: value(c) if k == 'val' else lexeme(c, a) if k == 'lex' else opens(c, G, a, [i['id'] for i in groups[k]], '[' if k == 'Array' else '{'),
             [('val', None)] + [('lex', n) for n in sorted(LEXEMES)] + [(k, i) for k, g in sorted(groups.items()) for i in g])
    ctx.floor('paths judged', 20)

# ---------------------------------------------------------------- what validates is read back
class Inner:
    """contents of one buffer under the facts of a path"""
    def __init__(self, path): self.path = path
class Pieces:
    """a printed text: literals and contents, in order"""
    def __init__(self, parts): self.parts = parts      # str | Path
FOLLOW = [[(10, 10)], [(13, 13)], [(32, 32)], [(9, 9)], [(35, 35)], [(44, 44)], [(93, 93)], [(125, 125)]]
LATER = [(32, 32), (97, 97), (34, 34), (39, 39), (10, 10), (48, 48)]

def readback(parts, reading, limit=400000, FOLLOW=FOLLOW):
    """a text made of the parts which, followed by something that may follow a value, is not read as a whole; None if there is none.
    After the text comes the end, or a blank, line end, comment, comma or closing bracket and then anything"""
    sets = sets_of(reading) + [tuple(x) for x in FOLLOW] + [((10, 10),)]
    for p in parts:
        if isinstance(p, str): sets += [((ord(c), ord(c)),) for c in p]
        else: sets += sets_of([p])
    ch = Chars(sets)
    cls = {c: j for j, c in enumerate(ch.rep)}
    def klass(c):
        k = 0
        for j, r in enumerate(ch.rep): k = j if ch.rep[j] <= c and (k == 0 or ch.rep[j] >= ch.rep[k]) else k
        return k
    follow = sorted({min(range(len(ch.rep)), key=lambda j, c=f[0][0]: (ch.rep[j] != c, j)) for f in FOLLOW if f[0][0] in cls})
    R = Union(reading, ch); inner = {k: Union([p], ch) for k, p in enumerate(parts) if not isinstance(p, str)}
    def enter(k):
        # state of piece k at its beginning
        if k == len(parts): return ('end',)
        return (k, 0) if isinstance(parts[k], str) else (k, inner[k].start())
    init = (enter(0), R.start(), 0); seen = {init: None}; work = [init]
    def trace(x):
        a, b = [], []
        while seen[x] is not None:
            ph = x[2]; x, e = seen[x]
            if e is not None: (b if ph == 2 else a).append(e)
        return ''.join(chr(ch.rep[e]) for e in reversed(a)), ''.join(chr(ch.rep[e]) for e in reversed(b))
    while work:
        if len(seen) > limit: raise rx.Unsupported('comparison too large')
        x = work.pop(0); s, r, ph = x; nx = []
        if ph == 0:
            if s == ('end',): nx.append((None, (s, R.mark(r), 1)))
            else:
                k = s[0]; p = parts[k]
                if isinstance(p, str):
                    if s[1] == len(p): nx.append((None, (enter(k + 1), r, 0)))
                    else:
                        j = cls.get(ord(p[s[1]]))
                        if j is None: raise rx.Unsupported('character')
                        nx.append((j, ((k, s[1] + 1), R.char(r, j), 0)))
                else:
                    u = inner[k]
                    if u.accepts(u.mark(s[1])): nx.append((None, (enter(k + 1), r, 0)))
                    for j in range(len(ch.rep)):
                        t = u.char(s[1], j)
                        if t: nx.append((j, ((k, t), R.char(r, j), 0)))
        else:
            if not R.accepts(r): return trace(x), len(seen)
            for j in (follow if ph == 1 else range(len(ch.rep))): nx.append((j, (s, R.char(r, j), 2)))
        for e, y in nx:
            if y not in seen: seen[y] = (x, e); work.append(y)
    return None, len(seen)

def contents(I, st, b, numbers=True):
    """the texts a buffer can hold on this path"""
    return Path(translate(I, st, b, 0, None), b)

def catching(G, I):
    """a reading function given a text put together from parts works on a text of its own, which is remembered"""
    I.cats = {}
    def wrap(i):
        def h(I, st, inst, args, destty):
            args = list(args)
            v = I.strval(st, args[-1])
            if len(v[1]) > 1 and any(p[0] == 'sl' for p in v[1]):
                b = ('cat', v[1])
                I.cats[b] = v[1]
                n = 0
                for p in v[1]:
                    if p[0] == 'lit': n = ladd(n, len(p[1].encode()))
                    elif p[0] == 'sl': n = ladd(n, lsub(p[3], p[2]))
                    else: raise Unk('composite text')
                st = st.copy(); ln = atom(('len', b))
                d = lsub(ln, n)
                if not I.refine(st, d, 0, 0): return []
                args[-1] = ('str', (('sl', b, 0, ln),))
            del I.cuts[i['id']]
            try: return I.call(st, inst, args)
            finally: I.cuts[i['id']] = h
        return h
    for i, o in G.nts.values(): I.cuts[i['id']] = wrap(i)
    for i in G.counters(): I.cuts[i['id']] = G.count_lines

def c15(ctx):
    """Validate is interpreted on a value of each scalar type with unknown content; on every path that answers true the contents the
    path allows are turned into an automaton, Display of the value is interpreted from the same state, and the printed text
    (delimiters and contents) followed by anything that may follow a value must be read by the function that reads values completely
    and as this type (its paths as automata, see C16): language inclusion, so for contents of any length."""
    ctx.rules = ['validate true => printed text is in the language the value reader reads as this type, whole, whatever follows', 'no panic in validate']
    P = ctx.prog(); G = Grammar(ctx, P)
    inst = byname(G, 'val')
    if inst is None: return ctx.violate('anchor:val', 'no single function val that reads a value')
    reading, good = reader(ctx, P, G, inst, valuetag, cuts=bracketcuts(G))
    reading.pop('panic', None)
    if not good: return
    from .construct import build, date, time, dt, amount
    d = date(buf('year'), buf('month'), buf('day')); hms = [buf('hour'), buf('minute'), buf('second')]
    W = [(('Integer', buf('T')), ('Integer', '')), (('Float', buf('T')), ('Float', '')), (('Boolean', True), ('Boolean', '')), (('Boolean', False), ('Boolean', ''))]
    W += [(('String', buf('T'), (k,)), ('String', k)) for k in ('Basic', 'MLBasic', 'Literal', 'MLLiteral')]
    W += [(dt(d), ('DateTime', ''))] + [(dt(d, time(*hms, f=f, off=o)), ('DateTime', '')) for f in (None, buf('fraction')) for o in
          (None, ('Zulu',), amount('+', buf('offhour'), buf('offminute')), amount('-', buf('offhour'), buf('offminute')))]
    ctx.each(lambda c, v, tag: backread(c, P, G, v, tag, reading.get(tag, [])) if v else tablekey(c, P, G), W + [(None, None)])
    ctx.floor('paths judged', 8)

def bracketcuts(G):
    P = G.P; cuts = {}
    for i, o in G.nts.values():
        t = P.T(inner(P, P.peel(o))[0])
        if t['k'] == 'adt' and t['name'].split('::')[-1] in ('Array', 'InlineTable'): cuts[i['id']] = failing(Interp(P), i)
    return cuts

def backread(ctx, P, G, spec, tag, reading):
    from .construct import build
    vinst = ctx.anchor(P, 'types::Value::validate')[0]
    vty = P.peel(vinst['locals'][1])
    I = Interp(P, forks=6, budget=800000); I.predsets = True
    catching(G, I)
    st = State(); v = build(P, vty, spec); a = st.alloc(v)
    ctx.count('functions analysed as entry')
    outs = I.call(st, vinst, [('ref', a, ())])
    ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
    name = ' '.join(x for x in tag if x)
    for o in outs:
        if o.kind == 'panic': ctx.violate('panic|' + name, '%s panics on a value of type %s: %s' % (where(P, vinst), name, path_of(o))); continue
        if o.kind != 'ret': continue
        for s, b in I.decide(o.st, o.val):
            if not b: continue
            for o2 in I.display(s, ('ref', a, ()), vty, None):
                if o2.kind != 'ret': continue
                try:
                    parts = pieces(I, o2.st, o2.val)
                    w, n = readback(parts, reading)
                except (NotRegular, rx.Unsupported) as u:
                    ctx.undecided['%s: %s' % (name, u)] = ctx.undecided.get('%s: %s' % (name, u), 0) + 1; continue
                ctx.count('states compared', n); ctx.count('paths judged')
                if w is not None:
                    ctx.violate('readback|' + name, '%s answers true for a value of type %s that prints as %r, which, followed by %r, is not read back as such: %s' % (where(P, vinst), name, w[0], w[1], path_of(o)))
                else: ctx.obligation(True, 'readback ' + name, '')
    ctx.absorb(I)

def tablekey(ctx, P, G):
    """keys of a valid inline table are read back as keys"""
    inst = byname(G, 'key')
    if inst is None: ctx.undecided['no function key'] = 1; return
    reading, good = reader(ctx, P, G, inst, lambda I, st, v: 'x')
    reading.pop('panic', None)
    if not good: return
    vinst = ctx.anchor(P, 'types::Value::validate')[0]
    vty = P.peel(vinst['locals'][1])
    I = Interp(P, forks=6, budget=800000); I.predsets = True
    catching(G, I)
    from .construct import build
    vs = [n for n, _, _ in P.T(vty)['v']]
    st = State(); r = st.alloc(('vec', (('tup', (buf('K'), build(P, vty, ('Boolean', True)))),)))
    a = st.alloc(('adt', vty, vs.index('InlineTable'), (('rc', r),)))
    ctx.count('functions analysed as entry')
    outs = I.call(st, vinst, [('ref', a, ())])
    ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
    for o in outs:
        if o.kind == 'panic': ctx.violate('panic|key', '%s panics on an inline table: %s' % (where(P, vinst), path_of(o))); continue
        if o.kind != 'ret': continue
        for s, b in I.decide(o.st, o.val):
            if not b: continue
            for o2 in I.display(s, ('ref', a, ()), vty, None):
                if o2.kind != 'ret': continue
                ps = o2.val
                if len(ps) != 3 or [p[0] for p in ps] != ['lit', 'sl', 'lit'] or ps[0][1] != '{' or ps[2][1] != ' = true}':
                    ctx.violate('print|key', 'an inline table with one key K prints as %s' % show(('str', ps))); continue
                try: w, n = readback(pieces(I, o2.st, ps[1:2]), reading.get('x', []), FOLLOW=[[(32, 32)]])
                except (NotRegular, rx.Unsupported) as u:
                    ctx.undecided['key: %s' % u] = ctx.undecided.get('key: %s' % u, 0) + 1; continue
                ctx.count('states compared', n); ctx.count('paths judged')
                if w is not None: ctx.violate('readback|key', '%s answers true for an inline table with the key %r, which is not read back as one key: %s' % (where(P, vinst), w[0], path_of(o)))
                else: ctx.obligation(True, 'readback key', '')
    ctx.absorb(I)

def pieces(I, st, parts):
    """a printed text as literals and languages"""
    cat = [b for b, p in I.cats.items() if p == parts]
    if cat:
        # what is known about the parts is known about the whole
        ts = translate(I, st, cat[0], 0, None)
        for p in parts:
            if p[0] == 'sl' and p[1] != cat[0] and len(relevant(I, st, p[1])): raise NotRegular('facts about a text and a part of it')
        l = parts[0][1] if parts[0][0] == 'lit' else ''; r = parts[-1][1] if parts[-1][0] == 'lit' else ''
        ts.append(Track(3, [Text(0, l), Bytes(0, 1, len(l), None), Text(1, r), Bytes(1, 2, len(r), len(r)), Bytes(2, None, 0, 0)]))
        return [Path(ts)]
    res = []; seen = set()
    for p in parts:
        if p[0] == 'lit': res.append(p[1]); continue
        if p[0] != 'sl' or p[2] != 0 or not same0(I, st, p[3], atom(('len', p[1]))): raise NotRegular('printed part')
        if p[1] in seen: raise NotRegular('content printed twice')
        seen.add(p[1]); res.append(contents(I, st, p[1]))
    return res

def relevant(I, st, b):
    return [k for k in list(st.exp) if isinstance(k, tuple) and has(k, b) and k[0] != 'ne'] 

CHECKS = {'C15': c15, 'C16': c16}
