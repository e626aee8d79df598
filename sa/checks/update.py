"""set_value, get_value and get_children on documents of every small shape with unknown texts, keys and formatting."""
from .base import *
from functools import lru_cache

LEAVES = {'I': 'Integer', 'F': 'Float', 'B': 'Boolean', 'D': 'DateTime', 's': 'String'}

class World:
    """abstract document: a parser whose map holds KEY with a value of a given shape (and, consistently, every nested key), plus
    an unknown rest"""
    def __init__(self, P):
        self.P = P
        def ty(suffix):
            r = [k for k, t in P.types.items() if t['k'] == 'adt' and (t['name'] == suffix or t['name'].endswith('::' + suffix))]
            if not r: raise Unk('type ' + suffix)
            return r[0]
        self.TV, self.V, self.HV = ty('structs::TOMLValue'), ty('types::Value'), ty('HashValue')
        self.CH, self.AR, self.AV = ty('types::Children'), ty('structs::Array'), ty('structs::ArrayValue')
        self.IT, self.TK, self.KV = ty('structs::InlineTable'), ty('structs::TableKeyVal'), ty('structs::KeyVal')
        self.TP = ty('TOMLParser')
        self.I = None
    def vi(self, ty, name):
        for i, v in enumerate(self.P.T(ty)['v']):
            if v[0] == name: return i
        raise Unk('variant ' + name)
    def variant(self, v): return self.P.T(v[1])['v'][v[2]][0]
    def struct(self, ty, prov, **kw):
        """unknown struct value with some fields given"""
        I = self.I
        fs = self.P.T(ty)['v'][0][2]
        return ('adt', ty, 0, tuple(kw[f[0]] if f[0] in kw else I.mk(('.', prov, f[0]), f[1]) for f in fs))
    def get(self, v, name):
        for f, x in zip(self.P.T(v[1])['v'][v[2]][2], v[3]):
            if f[0] == name: return x
        raise Unk('field ' + name)
    def option(self, ty, v):
        return ('adt', ty, self.vi(ty, 'Some'), (v,)) if v is not None else ('adt', ty, self.vi(ty, 'None'), ())
    def fty(self, ty, name):
        for f in self.P.T(ty)['v'][0][2]:
            if f[0] == name: return f[1]
        raise Unk('field ' + name)
    def leaf(self, ty, letter, tag):
        n = LEAVES[letter]; i = self.vi(ty, n)
        return ('adt', ty, i, tuple(self.I.mk(('.', (tag, letter), f[0]), f[1]) for f in self.P.T(ty)['v'][i][2]))
    # document value of a shape; entries collects the map
    def old(self, st, shape, key, entries, nodes, tag=('old',)):
        I = self.I
        if isinstance(shape, str):
            v = self.leaf(self.TV, shape, tag) if shape in LEAVES else ('adt', self.TV, self.vi(self.TV, 'Table'), ())
            sub = ('adt', self.CH, self.vi(self.CH, 'Count'), (('cell', 0),))
        elif shape[0] == 'A':
            vals = []
            for i, s in enumerate(shape[1]):
                rc = self.old(st, s, key + (('lit', '[%d]' % i),), entries, nodes, tag + (i,))
                vals.append(self.struct(self.AV, ('fmt', tag, i), val=rc))
            arr = st.alloc(('cell', self.struct(self.AR, ('fmt', tag), values=('vec', tuple(vals)))))
            nodes.add(arr)
            v = ('adt', self.TV, self.vi(self.TV, 'Array'), (('rc', arr),))
            sub = ('adt', self.CH, self.vi(self.CH, 'Count'), (('cell', len(shape[1])),))
        else:
            kvs = []; names = []
            for i, (k, s) in enumerate(shape[1]):
                kt = buf('key_' + k)
                rc = self.old(st, s, key + (('lit', '.'),) + kt[1], entries, nodes, tag + (k,))
                kv = self.struct(self.KV, ('fmtkv', tag, i), key=kt, val=rc)
                kvs.append(self.struct(self.TK, ('fmt', tag, i), keyval=kv)); names.append(kt)
            it = st.alloc(('cell', self.struct(self.IT, ('fmt', tag), keyvals=('vec', tuple(kvs)))))
            nodes.add(it)
            v = ('adt', self.TV, self.vi(self.TV, 'InlineTable'), (('rc', it),))
            sub = ('adt', self.CH, self.vi(self.CH, 'Keys'), (('cell', ('vec', tuple(names))),))
        a = st.alloc(('cell', v)); nodes.add(a)
        rc = ('rc', a)
        entries.append((norm_parts(key), ('adt', self.HV, 0, self.hv(rc, sub))))
        return rc
    def hv(self, rc, sub):
        return tuple(self.option(f[1], rc) if f[0] == 'value' else sub if f[0] == 'subkeys' else self.I.mk(('hv', f[0]), f[1]) for f in self.P.T(self.HV)['v'][0][2])
    def new(self, st, shape, tag=('new',)):
        if isinstance(shape, str): return self.leaf(self.V, shape, tag)
        if shape[0] == 'A':
            a = st.alloc(('vec', tuple(self.new(st, s, tag + (i,)) for i, s in enumerate(shape[1]))))
            return ('adt', self.V, self.vi(self.V, 'Array'), (('rc', a),))
        a = st.alloc(('vec', tuple(('tup', (buf('key_' + k), self.new(st, s, tag + (k,)))) for k, s in shape[1])))
        return ('adt', self.V, self.vi(self.V, 'InlineTable'), (('rc', a),))
    def parser(self, st, entries):
        I = self.I
        m = None
        def go(ty, prov):
            fs = []
            for f in self.P.T(ty)['v'][0][2]:
                ft = self.P.T(f[1])
                if ft['k'] == 'adt' and ft['name'] == 'std::collections::HashMap' and ft['args'][1] == self.HV:
                    fs.append(('map', 'REST', tuple(sorted(entries, key=lambda x: repr(x[0]))), ft['args'][0], ft['args'][1]))
                elif ft['k'] == 'adt' and ft['name'].startswith('tomllib') and ft['ak'] == 'struct': fs.append(go(f[1], ('.', prov, f[0])))
                else: fs.append(I.mk(('.', prov, f[0]), f[1]))
            return ('adt', ty, 0, tuple(fs))
        return st.alloc(go(self.TP, 'P'))
    def mapof(self, st, v):
        todo = [v]
        while todo:
            x = todo.pop(0)
            if isinstance(x, tuple) and x and x[0] == 'map' and x[4] == self.HV: return x
            if isinstance(x, tuple) and x and x[0] == 'adt': todo.extend(x[3])
        raise Unk('map of the parser')
    # -- reading final states
    def rcval(self, st, rc):
        while rc[0] == 'sym': raise Unk('undecided value')
        v = self.I.load(st, ('ref', rc[1], ()))
        while v[0] == 'cell': v = v[1]
        return v
    def norm(self, st, v, doc):
        """value as nested tuples; texts and leaves as terms"""
        if v[0] == 'sym': v = self.I.expand(st, v) or v
        if v[0] != 'adt': return v
        n = self.variant(v)
        if n == 'Array':
            if doc:
                a = self.rcval(st, v[3][0])
                return ('A', tuple(self.norm(st, self.rcval(st, self.get(x, 'val')), doc) for x in self.items(st, self.get(a, 'values'))))
            return ('A', tuple(self.norm(st, x, doc) for x in self.items(st, self.rcval(st, v[3][0]))))
        if n == 'InlineTable':
            if doc:
                a = self.rcval(st, v[3][0])
                out = []
                for x in self.items(st, self.get(a, 'keyvals')):
                    kv = self.get(x, 'keyval'); out.append((self.get(kv, 'key'), self.norm(st, self.rcval(st, self.get(kv, 'val')), doc)))
                return ('T', tuple(out))
            return ('T', tuple((x[1][0], self.norm(st, x[1][1], doc)) for x in self.items(st, self.rcval(st, v[3][0]))))
        return ('L', n, v[3])
    def items(self, st, v):
        if v[0] == 'sym': v = self.I.expand(st, v) or v
        if v[0] != 'vec': raise Unk('list')
        return v[1]
    def nsame(self, st, a, b):
        if a[0] != b[0]: return False
        if a[0] == 'L': return a[1] == b[1] and len(a[2]) == len(b[2]) and all(self.I.same(st, x, y) for x, y in zip(a[2], b[2]))
        if a[0] == 'A': return len(a[1]) == len(b[1]) and all(self.nsame(st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'T': return len(a[1]) == len(b[1]) and all(self.I.same(st, x[0], y[0]) and self.nsame(st, x[1], y[1]) for x, y in zip(a[1], b[1]))
        return self.I.same(st, a, b)
    def keys(self, n, key):
        """lookup keys of the elements of a normal value: [(key parts, normal value)]"""
        out = []
        if n[0] == 'A':
            for i, x in enumerate(n[1]):
                k = norm_parts(key + (('lit', '[%d]' % i),)); out.append((k, x)); out += self.keys(x, k)
        elif n[0] == 'T':
            for kt, x in n[1]:
                k = norm_parts(key + (('lit', '.'),) + kt[1]); out.append((k, x)); out += self.keys(x, k)
        return out

def validity(W, I, st, v):
    """contract of Value::validate (decided by C13 and C15): leaves by an unknown but functional predicate, arrays and inline tables
    by their elements, keys and absence of duplicate keys: [(state, bool)]"""
    out = []
    for s, x in I.expand_fork(st, v):
        n = W.variant(x)
        if n == 'Boolean': out.append((s, True))
        elif n == 'Array':
            cur = [(s, True)]
            for e in W.items(s, W.rcval(s, x[3][0])):
                nx = []
                for s2, ok in cur: nx += validity(W, I, s2, e) if ok else [(s2, ok)]
                cur = nx
            out += cur
        elif n == 'InlineTable':
            cur = [(s, True)]
            for e in W.items(s, W.rcval(s, x[3][0])):
                nx = []
                for s2, ok in cur:
                    if not ok: nx.append((s2, ok)); continue
                    for s3, kok in I.opaque(s2, ('validkey', norm_parts(e[1][0][1]))): nx += validity(W, I, s3, e[1][1]) if kok else [(s3, False)]
                cur = nx
            out += cur
        else: out += I.opaque(s, ('valid', n, x[3]))
    return out

def contract(W):
    def h(I, st, inst, args, destty):
        return [Out('ret', s, b) for s, b in validity(W, I, st, I.load(st, args[0]) if args[0][0] == 'ref' else args[0])]
    return h

A = lambda *x: ('A', x)
T = lambda **k: ('T', tuple(sorted(k.items())))
def leaves(s):
    if isinstance(s, str): return 1
    return sum(leaves(x) if s[0] == 'A' else leaves(x[1]) for x in s[1])
def assign(s, ls):
    if isinstance(s, str): return ls.pop(0)
    return ('A', tuple(assign(x, ls) for x in s[1])) if s[0] == 'A' else ('T', tuple((k, assign(x, ls)) for k, x in s[1]))
OLD = ['I', 's', A(), A('I'), A('I', 'I'), A('I', 'I', 'I'), A(A('I'), A('I')), A(T(a='I')), T(), T(a='I'), T(a='I', b='I'), T(a='I', b='I', c='I'), T(a=A('I')), T(a=T(b='I')), A(A(A('I')))]
NEW = ['I', A(), A('I'), A('I', 'I'), A('I', 'I', 'I'), A(A('I'), A('I')), A(A('I', 'I')), A(T(a='I')), T(), T(a='I'), T(a='I', b='I'), ('T', (('b', 'I'), ('a', 'I'))), T(c='I'), T(a=A('I')), T(a=T(b='I')), T(a='I', b='I', c='I'), A(A(A('I'))), A(T(a=T(b='I')))]
DEEP = [A(A(A(A('I')))), T(a=T(b=T(c='I'))), A(A('I', 'I'), A('I', 'I')), A(T(a='I', b='I'), T(a='I', b='I')), A('I', 'I', 'I', 'I'), T(a=A(T(b=A('I'))))]
def fill(shapes, thorough=False):
    out = []
    for s in shapes:
        n = leaves(s)
        out.append(assign(s, ['I'] * n))
        for p in range(n):
            for l in 'FBDs': out.append(assign(s, ['I'] * p + [l] + ['I'] * (n - p - 1)))
        if n == 2: out += [assign(s, ['s', 'D']), assign(s, ['F', 'F'])]
        if n >= 3: out.append(assign(s, ['s'] * n))
    return out

def shapestr(s):
    if isinstance(s, str): return LEAVES.get(s, s)
    if s[0] == 'A': return '[' + ', '.join(shapestr(x) for x in s[1]) + ']'
    return '{' + ', '.join('%s = %s' % (k, shapestr(x)) for k, x in s[1]) + '}'

KEY = buf('KEY')
def fmtsame(W, st0, a, st1, b):
    """formatting of two document values of the same structure (rc identity of nested values aside)"""
    I = W.I
    va, vb = W.rcval(st0, a), W.rcval(st1, b)
    if va[0] != 'adt' or vb[0] != 'adt': return True
    na, nb = W.variant(va), W.variant(vb)
    if na != nb: return na not in ('Array', 'InlineTable') and nb not in ('Array', 'InlineTable')
    if na == 'Array': lst = 'values'
    elif na == 'InlineTable': lst = 'keyvals'
    else: return True
    xa, xb = W.rcval(st0, va[3][0]), W.rcval(st1, vb[3][0])
    for f, p, q in zip(W.P.T(xa[1])['v'][0][2], xa[3], xb[3]):
        if f[0] == lst: continue
        if not I.same(st1, p, q): return False
    la, lb = W.items(st0, W.get(xa, lst)), W.items(st1, W.get(xb, lst))
    if len(la) != len(lb): return False
    def parts(x):
        out = []; rc = None
        for f, y in zip(W.P.T(x[1])['v'][0][2], x[3]):
            if f[0] == 'keyval':
                o2, rc = parts(y); out += o2
            elif f[0] == 'val': rc = y
            else: out.append(y)
        return out, rc
    for x, y in zip(la, lb):
        px, rx = parts(x); py, ry = parts(y)
        if not all(I.same(st1, p, q) for p, q in zip(px, py)): return False
        if not fmtsame(W, st0, rx, st1, ry): return False
    return True

def keynames(s):
    if not isinstance(s, tuple): return set()
    out = set()
    for x in s[1]:
        if s[0] == 'T': out.add(x[0]); x = x[1]
        out |= keynames(x)
    return out
def lengths(ctx, P, insts):
    """lengths beyond the small classes at which a decision of the code can change: one more than each integer constant compared
    or used in it (validation left out)"""
    ks = set()
    for i in insts: ks |= constants(P, i, 5, lambda c: strip(c['name']).endswith('::validate'))
    ks = sorted(k + 1 for k in ks if 3 <= k <= (100 if ctx.thorough else 40))[:6]
    return ks
def longer(ns):
    """(old, new) shapes of these lengths"""
    out = []
    for n in ns:
        a, b = A(*['I'] * n), A(*['I'] * (n - 1))
        t, u = (('T', tuple(('k%02d' % i, 'I') for i in range(m))) for m in (n, n - 1))
        out += [(a, a), (a, b), (b, a), (A('I'), a), (a, A('I')), (a, 'I'), ('I', a), (A(a), A(a)), (A(A('I')), A(a)), (t, t), (t, u), (u, t), (T(a='I'), t), (t, T(a='I')), ('I', t), (T(a=a), T(a=a)), (A(t), A(t)),
                (a, A(*['I'] * (n - 1) + ['s'])), (a, A(*['I'] * (n - 1) + [A('I')])), (A(*['I'] * (n - 1) + [A('I')]), A(*['I'] * (n - 1) + [A('I', 'I')])), (t, ('T', t[1][:-1] + (('k%02d' % (n - 1), 's'),)))]
    return out

def samestruct(a, b):
    if isinstance(a, str) or isinstance(b, str): return isinstance(a, str) and isinstance(b, str)
    if a[0] != b[0] or len(a[1]) != len(b[1]): return False
    if a[0] == 'A': return all(samestruct(x, y) for x, y in zip(a[1], b[1]))
    return all(x[0] == y[0] and samestruct(x[1], y[1]) for x, y in zip(a[1], b[1]))

def separators(W, st, rc):
    """freshly built lists print as TOML: blanks around commas, a comma after every element but the last"""
    I = W.I
    v = W.rcval(st, rc)
    if v[0] != 'adt' or W.variant(v) not in ('Array', 'InlineTable'): return None
    x = W.rcval(st, v[3][0])
    arr = W.variant(v) == 'Array'
    lst = W.items(st, W.get(x, 'values' if arr else 'keyvals'))
    for i, e in enumerate(lst):
        sep = W.get(e, 'array_sep' if arr else 'kv_sep')
        if sep[0] == 'sym': sep = I.expand(st, sep)
        if sep is None: raise Unk('separator')
        if W.variant(sep) == 'None':
            if i < len(lst) - 1: return 'element %d of %d is not followed by a comma' % (i, len(lst))
        else:
            if not arr and i == len(lst) - 1: return 'the last key of an inline table is followed by a comma'
            for t in sep[3][0][3]:
                if t[0] == 'str' and is_lit(t) and litval(t).strip(' \t\n'): return 'separator text %r' % litval(t)
        r = separators(W, st, W.get(e, 'val') if arr else W.get(W.get(e, 'keyval'), 'val'))
        if r: return r
    return None

def getter(ctx, W, name, fail):
    inst = ctx.anchor(W.P, 'TOMLParser::' + name)
    def call(I, st, pa, key):
        outs = []
        for o in I.call(st.copy(), inst[0], [('ref', pa, ()), ('str', key)]):
            if o.kind == 'panic': fail('%s panics' % name, o); continue
            if o.kind != 'ret': raise Unk('%s undecided' % name)
            outs += [(s, v) for s, v in I.expand_fork(o.st, o.val)]
        return outs
    return call

def explore(ctx, focus):
    """runs set_value on every combination of shapes; focus: 'C04' | 'C05' | 'C06' | 'C09'"""
    P = ctx.prog()
    setv = ctx.anchor(P, 'TOMLParser::set_value')
    valid = ctx.anchor(P, 'types::Value::validate')
    if not setv or not valid: return
    try: W = World(P)
    except Unk as u:
        ctx.violate('anchor:types', 'a type of the document model is gone: %s' % u); return
    olds = [None, 'N', 'Table'] + OLD; news = fill(NEW)
    if ctx.thorough: olds = olds + fill(DEEP[:4]) + fill(OLD); news = fill(NEW + DEEP)
    seen = set()
    ns = lengths(ctx, P, setv)
    if ns: ctx.count('lengths beyond the classes', len(ns))
    for old, new in longer(ns):
        seen.add((old, new)); one(ctx, P, W, setv[0], valid, old, new, focus)
    for old in olds:
        for new in news:
            if (old, new) in seen: continue
            seen.add((old, new))
            # rejected shapes matter for every new value, but leaf kinds only where the value is stored
            if old in (None, 'N', 'Table') and new not in ('I', A('I'), T(a='I')): continue
            one(ctx, P, W, setv[0], valid, old, new, focus)
    ctx.count('shape combinations', len(seen))

def one(ctx, P, W, setv, valid, old, new, focus):
    I = Interp(P, forks=6); W.I = I
    for v in valid: I.cuts[v['id']] = contract(W)
    st = State()
    entries = []; nodes = set(); root = None
    desc = '%s := %s' % ({None: 'unknown key', 'N': 'key without value'}.get(old, shapestr(old) if old else ''), shapestr(new))
    kind = lambda s: 'unknown key' if s is None else {'A': 'array', 'T': 'inline table'}[s[0]] if not isinstance(s, str) else {'Table': 'table', 'N': 'no value'}.get(s, 'scalar')
    short = '%s := %s' % (kind(old), kind(new))
    if old is None: entries.append((KEY[1], ABSENT))
    elif old == 'N':
        entries.append((KEY[1], ('adt', W.HV, 0, tuple(W.option(f[1], None) if f[0] == 'value' else I.mk(('hv', f[0]), f[1]) for f in P.T(W.HV)['v'][0][2]))))
    else: root = W.old(st, old, KEY[1], entries, nodes)
    # a neighbour key and the parent of the key
    oth = buf('OTHER')
    I.variants_hook = None
    W2 = st.alloc(('cell', W.leaf(W.TV, 'I', ('other',)))); 
    entries.append((oth[1], ('adt', W.HV, 0, W.hv(('rc', W2), ('adt', W.CH, W.vi(W.CH, 'Count'), (('cell', 0),))))))
    if old is not None and old not in ('N', 'Table'): st.eq[frozenset((KEY[1], (('lit', '$Root$'),)))] = False
    st.eq[frozenset((KEY[1], ()))] = False
    names = sorted(keynames(old) | keynames(new))
    for i, a in enumerate(names):
        for b in names[:i]: st.eq[frozenset((buf('key_' + a)[1], buf('key_' + b)[1]))] = False
    pa = W.parser(st, entries)
    nv = W.new(st, new)
    mem0 = dict(st.mem); next0 = st.next
    ctx.count('functions analysed as entry')
    ctx.count('abstract updates')
    try: outs = I.call(st.copy(), setv, [('ref', pa, ()), KEY, nv])
    except (Unk, Bound) as u:
        ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1; return
    ctx.count('paths', len(outs))
    fails = []
    getv = getter(ctx, W, 'get_value', lambda k, o: fails.append((k, o)))
    getc = getter(ctx, W, 'get_children', lambda k, o: fails.append((k, o)))
    for o in outs:
        if o.kind == 'panic':
            if focus == 'C09': ctx.obligation(False, 'set_value panics: ' + short, 'set_value (%s) panics: %s; path: %s' % (desc, o.val or o.info, path_of(o)))
            continue
        if o.kind != 'ret': continue
        if focus == 'C09': ctx.obligation(True, ''); 
        try:
            for s, res in I.decide(o.st, o.val):
                if focus == 'C04': rejected(ctx, W, s, res, pa, nv, old, mem0, next0, desc, short)
                elif res and focus == 'C05': accepted(ctx, W, s, pa, nv, old, new, root, mem0, next0, nodes, entries, getv, desc, short, st)
                elif res and focus == 'C06': lookups(ctx, W, s, pa, nv, old, root, entries, getv, getc, desc, short)
                if focus == 'C09' and res:
                    # lookups after the update
                    for k in {k for k, _ in entries} | {k for k, _ in W.keys(W.norm(s, nv, False), KEY[1])}:
                        getv(I, s, pa, k); getc(I, s, pa, k)
        except (Unk, Bound) as u:
            ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1
    for k, o in fails:
        if focus == 'C09': ctx.obligation(False, k, 'after set_value (%s) %s: %s' % (desc, k, path_of(o)))
    ctx.absorb(I)

def diff(W, st, mem0, next0):
    """changed parts of the initial memory"""
    I = W.I; out = []
    for a, v in mem0.items():
        w = st.mem.get(a)
        if w is not v and not I.same(st, v, w): out.append(a)
    for a, w in st.mem.items():
        if isinstance(a, tuple) and a[0] == 'S' and a not in mem0:
            if not I.same(st, I.mk(('*', a[1]), a[2]), w): out.append(a)
    return out

def rejected(ctx, W, st, res, pa, nv, old, mem0, next0, desc, short):
    I = W.I
    for s, ok in validity(W, I, st, nv):
        should = ok and old not in (None, 'N', 'Table')
        ctx.obligation(res == should, ('accepts: ' if res else 'refuses: ') + short, 'set_value (%s) %s though the key %s and the value is %s; path: %s' % (desc, 'succeeds' if res else 'fails', 'has no value' if old in (None, 'N', 'Table') else 'has a value', 'valid' if ok else 'invalid', path_of(Out('', s))))
    if res: return
    ch = diff(W, st, mem0, next0)
    what = ''
    if ch:
        what = 'the key map' if pa in ch else 'the document'
    ctx.obligation(not ch, 'changes on failure: ' + short, 'set_value (%s) fails but has changed %s; path: %s' % (desc, what, path_of(Out('', st))), sample=desc)

def accepted(ctx, W, st, pa, nv, old, new, root, mem0, next0, nodes, entries, getv, desc, short, st0):
    I = W.I
    want = W.norm(st, nv, False)
    path = path_of(Out('', st))
    if root is None: return
    # the node of the printed document
    got = W.norm(st, W.rcval(st, root), True)
    ctx.obligation(W.nsame(st, got, want), 'printed value: ' + short, 'set_value (%s): the document then holds %s instead of %s at the key; path: %s' % (desc, got, want, path), sample='%s: document value %s' % (desc, got))
    # the lookup
    for s, v in getv(I, st, pa, KEY[1]):
        n = W.variant(v)
        ok = n == 'Some' and W.nsame(s, W.norm(s, v[3][0], False), want)
        ctx.obligation(ok, 'lookup: ' + short, 'set_value (%s): get_value then gives %s; path: %s' % (desc, W.norm(s, v[3][0], False) if n == 'Some' else n, path))
    # nothing else
    bad = [a for a in diff(W, st, mem0, next0) if a not in nodes and a != pa]
    ctx.obligation(not bad, 'touches other values: ' + short, 'set_value (%s) changes values that do not belong to the key: %s; path: %s' % (desc, bad[:3], path))
    p0, p1 = mem0[pa], st.mem[pa]
    m0, m1 = W.mapof(st, p0), W.mapof(st, p1)
    def strip(v, m):
        if v is m: return 'map'
        return ('adt', v[1], v[2], tuple(strip(x, m) for x in v[3])) if isinstance(v, tuple) and v and v[0] == 'adt' and v[1] != W.HV else v
    ctx.obligation(I.same(st, strip(p0, m0), strip(p1, m1)), 'touches the parser: ' + short, 'set_value (%s) changes other parts of the parser; path: %s' % (desc, path))
    own = lambda k: k[:1] == KEY[1][:1]
    d0, d1 = dict(m0[2]), dict(m1[2])
    for k in set(d0) | set(d1):
        if own(k): continue
        a, b = d0.get(k), d1.get(k)
        if a is None: a = I.map_base(st, m0, k)
        if b is None: b = I.map_base(st, m1, k)
        if a is None or b is None: ok = False
        else: ok = I.same(st, a, b)
        ctx.obligation(ok, 'touches other keys: ' + short, 'set_value (%s) changes the entry of the unrelated key %s; path: %s' % (desc, show(('str', k)), path))
    if samestruct(old, new):
        ctx.obligation(fmtsame(W, st0, root, st, root), 'formatting: ' + short, 'set_value (%s) replaces scalars only, but changes the formatting; path: %s' % (desc, path))
    else:
        r = separators(W, st, root)
        ctx.obligation(r is None, 'separators: ' + short, 'set_value (%s): %s; path: %s' % (desc, r, path))

def lookups(ctx, W, st, pa, nv, old, root, entries, getv, getc, desc, short):
    I = W.I
    want = W.norm(st, nv, False)
    path = path_of(Out('', st))
    tree = W.norm(st, W.rcval(st, root), True) if root else None
    newkeys = dict(W.keys(want, KEY[1]))
    def children(key, n):
        for s, v in getc(I, st, pa, key):
            if W.variant(v) == 'None': got = None
            else:
                c = v[3][0]
                for s, c in I.loadx(s, c):
                    x = c[3][0]
                    while isinstance(x, tuple) and x[0] == 'cell': x = x[1]
                    got = x if W.variant(c) == 'Count' else [y for y in W.items(s, x)]
            if n[0] == 'A': ok = is_int(got) and I.same(s, got, len(n[1])) or got == len(n[1])
            elif n[0] == 'T': ok = isinstance(got, list) and len(got) == len(n[1]) and all(any(I.same(s, g, k) for g in got) for k, _ in n[1])
            else: ok = got is None or got == 0 or got == []
            ctx.obligation(ok, 'children: ' + short, 'set_value (%s): get_children of %s then gives %s; path: %s' % (desc, show(('str', key)), got if not isinstance(got, list) else [show(g) for g in got], path),
                           sample='%s: children of %s: %s' % (desc, show(('str', key)), got))
    children(KEY[1], want)
    for k, n in newkeys.items():
        for s, v in getv(I, st, pa, k):
            ok = W.variant(v) == 'Some' and W.nsame(s, W.norm(s, v[3][0], False), n)
            ctx.obligation(ok, 'element lookup: ' + short, 'set_value (%s): get_value of the new element %s gives %s; path: %s' % (desc, show(('str', k)), W.norm(s, v[3][0], False) if W.variant(v) == 'Some' else 'None', path))
        children(k, n)
    # the same node is registered and printed, so that elements can be updated under their own key
    m = W.mapof(st, st.mem[pa]); ents = dict(m[2])
    def nodes(rc, key):
        e = ents.get(key)
        if e is None or e == ABSENT: return
        hv = W.get(e, 'value')
        ok = hv[0] == 'adt' and W.variant(hv) == 'Some' and hv[3][0] == rc
        ctx.obligation(ok, 'registered node: ' + short, 'set_value (%s): the node registered under %s is not the one in the document; path: %s' % (desc, show(('str', key)), path))
        v = W.rcval(st, rc)
        if v[0] != 'adt': return
        if W.variant(v) == 'Array':
            for i, x in enumerate(W.items(st, W.get(W.rcval(st, v[3][0]), 'values'))): nodes(W.get(x, 'val'), norm_parts(key + (('lit', '[%d]' % i),)))
        if W.variant(v) == 'InlineTable':
            for x in W.items(st, W.get(W.rcval(st, v[3][0]), 'keyvals')):
                kv = W.get(x, 'keyval'); nodes(W.get(kv, 'val'), norm_parts(key + (('lit', '.'),) + W.get(kv, 'key')[1]))
    if root: nodes(root, KEY[1])
    # removed elements
    for k, _ in entries:
        if k == KEY[1] or k[:1] != KEY[1][:1] or k in newkeys: continue
        for s, v in getv(I, st, pa, k):
            ctx.obligation(W.variant(v) == 'None', 'removed element: ' + short, 'set_value (%s): the removed element %s still has a value; path: %s' % (desc, show(('str', k)), path))
        for s, v in getc(I, st, pa, k):
            ctx.obligation(W.variant(v) == 'None', 'removed children: ' + short, 'set_value (%s): the removed element %s still has children; path: %s' % (desc, show(('str', k)), path))

def c04(ctx):
    """Abstract interpretation of TOMLParser::set_value on documents of every combination of old and new value shape (unknown key,
    table key, key without value, scalar, arrays and inline tables nested up to three levels) with unknown texts and an unknown
    remainder of the document.  On every path that answers false the key map, the whole document memory and all parser fields equal
    those before the call; the answer is true exactly if the key has a value and the contract of Value::validate holds."""
    ctx.rules = ['false => memory and key map unchanged', 'true <=> the key has a value and validate holds for the new value']
    explore(ctx, 'C04')
def c05(ctx):
    """As C04, for the paths that answer true: the node of the document and get_value of the final state give the new value, term
    by term; memory that does not belong to the key, other keys and other parser fields are unchanged; scalar-only updates keep every
    formatting component; rebuilt lists have a comma after each element but the last."""
    ctx.rules = ['true => document node == given value', 'true => get_value == given value', 'no other memory, key or parser field changes', 'scalar-only updates keep formatting']
    explore(ctx, 'C05')
def c06(ctx):
    """As C04, for the paths that answer true: get_children of the key and of every nested element, and get_value of every nested
    element, give exactly the new value's parts; each registered node is the one in the document; no key of a removed element has a
    value or children."""
    ctx.rules = ['children == elements of the new value', 'get_value(element key) == element', 'registered node == document node', 'keys of removed elements are absent']
    explore(ctx, 'C06')

CHECKS = {'C04': c04, 'C05': c05, 'C06': c06}
