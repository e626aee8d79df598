"""Interprocedural, path-partitioned abstract interpreter over the MIR dump.

Domain: provenance terms (where a value comes from), linear length/position
terms over those, finite length classes for sequences, enum shapes.  Nothing is
executed and no solver is involved: undetermined tests partition the abstract
state; contradictory partitions are dropped by interval propagation only.
"""
import json, re, sys, hashlib
from math import gcd
from functools import lru_cache
sys.setrecursionlimit(100000)

import os
DEBUG = bool(os.environ.get('SA_DEBUG'))

class Unk(Exception):
    """construct outside of the domain: the path is given up (never reported)"""

class Bound(Exception):
    pass

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d['crate']
        self.types = {int(k): v for k, v in d['types'].items()}
        for t in self.types.values():
            if t['k'] == 'int': t['b'] *= 8      # bits
        self.insts = {i['id']: i for i in d['insts']}
        self.files = d['files']
        self.roots = d['roots']
        self.byname = {}
        for i in d['insts']:
            self.byname.setdefault(i['name'], []).append(i)
        self.impls = {}
        for i in d['insts']:
            if i.get('trait') and 'bbs' in i and i['argc'] >= 1:
                t = self.T(i['locals'][1])
                s = t['e'] if t['k'] == 'ref' else i['locals'][1]
                self.impls.setdefault((i['trait'], s), i)
        self._str = {}
    def T(self, tid):
        return self.types[tid]
    def is_str(self, tid):
        r = self._str.get(tid)
        if r is None:
            t = self.types[tid]
            r = t['k'] == 'str' or (t['k'] == 'adt' and (t['name'] == 'std::string::String' or
                 (t['name'] == 'std::borrow::Cow' and any(self.types[a]['k'] == 'str' for a in t['args']))))
            self._str[tid] = r
        return r
    def adtname(self, tid):
        t = self.types[tid]
        return t['name'] if t['k'] == 'adt' else None
    def peel(self, tid):
        while self.types[tid]['k'] == 'ref':
            tid = self.types[tid]['e']
        return tid
    def tyname(self, tid):
        t = self.types[tid]
        if t['k'] == 'adt': return t['str']
        if t['k'] == 'ref': return '&' + self.tyname(t['e'])
        return t['k']
    def find(self, suffix, trait=None):
        """local instances whose generics-free name ends with suffix"""
        out = []
        for i in self.insts.values():
            if i['local'] and 'bbs' in i:
                n = plain(i['name'])
                if n == suffix or n.endswith('::' + suffix):
                    out.append(i)
        return out

    @staticmethod
    def walk(x):
        todo = [x]
        while todo:
            x = todo.pop()
            if isinstance(x, dict): yield x; todo.extend(x.values())
            elif isinstance(x, (list, tuple)): todo.extend(x)
    def callees(self, inst):
        """instances called directly or whose closures are made here"""
        out = []
        for b in inst.get('bbs', []):
            t = b[1]
            if t[0] == 'call' and isinstance(t[1], list) and len(t[1]) > 2 and t[1][2] in self.insts: out.append(self.insts[t[1][2]])
        for ty in inst.get('locals', []):
            t = self.types[ty]
            if t['k'] == 'closure' and t.get('inst') in self.insts: out.append(self.insts[t['inst']])
        return out
    def reachable(self, roots):
        """ids of the instances reachable by calls from roots"""
        seen = set(); todo = list(roots)
        while todo:
            i = todo.pop()
            if i['id'] in seen: continue
            seen.add(i['id']); todo.extend(self.callees(i))
        return seen

@lru_cache(None)
def strip(n):
    """drop generic arguments: a::b::<X>::c -> a::b::c, keeps <impl T>/<T as U>"""
    out = []; i = 0
    while i < len(n):
        if n[i] == '<' and (i >= 2 and n[i-2:i] == '::') and not n.startswith('<impl', i):
            depth = 0; j = i
            while j < len(n):
                if n[j] == '<': depth += 1
                elif n[j] == '>' and n[j-1] != '-':
                    depth -= 1
                    if depth == 0: break
                j += 1
            i = j + 1
            if out[-2:] == [':', ':']: out = out[:-2]
            continue
        if n[i] == '<' and i > 0 and (n[i-1].isalnum() or n[i-1] == '_'):
            depth = 0; j = i
            while j < len(n):
                if n[j] == '<': depth += 1
                elif n[j] == '>' and n[j-1] != '-':
                    depth -= 1
                    if depth == 0: break
                j += 1
            i = j + 1
            continue
        out.append(n[i]); i += 1
    return ''.join(out)

@lru_cache(None)
def plain(n):
    """strip() with impl blocks named after their type"""
    n = strip(n)
    return re.sub(r'<impl ([^<>]*)>', lambda m: m.group(1), n)

# ---------------------------------------------------------------- linear terms
def lin(terms, c=0):
    terms = tuple(sorted(((a, k) for a, k in terms.items() if k), key=lambda x: repr(x[0])))
    if not terms: return c
    return ('lin', terms, c)
def lterms(x):
    if isinstance(x, bool): return {}, int(x)
    if isinstance(x, int): return {}, x
    if isinstance(x, tuple) and x and x[0] == 'lin': return dict(x[1]), x[2]
    raise Unk('not an integer term: %r' % (x,))
def ladd(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int): return int(a) + k * int(b)
    ta, ca = lterms(a); tb, cb = lterms(b)
    t = dict(ta)
    for x, n in tb.items(): t[x] = t.get(x, 0) + k * n
    return lin(t, ca + k * cb)
def lsub(a, b): return ladd(a, b, -1)
def lmul(a, k):
    ta, ca = lterms(a)
    return lin({x: n * k for x, n in ta.items()}, ca * k)
def atom(a): return ('lin', ((a, 1),), 0)
def is_int(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, tuple) and len(x) > 0 and x[0] == 'lin')

# ---------------------------------------------------------------- strings
def S(*parts): return ('str', norm_parts(parts))
def lit(s): return ('str', (('lit', s),) if s else ())
def norm_parts(parts):
    out = []
    for p in parts:
        if p[0] == 'lit':
            if not p[1]: continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1]); continue
        elif p[0] == 'sl':
            if p[2] == p[3]: continue
            if out and out[-1][0] == 'sl' and out[-1][1] == p[1] and out[-1][3] == p[2]:
                out[-1] = ('sl', p[1], out[-1][2], p[3]); continue
        out.append(p)
    return tuple(out)
def buf(prov): return ('str', (('sl', prov, 0, atom(('len', prov))),))
def is_lit(v):
    return v[0] == 'str' and (v[1] == () or (len(v[1]) == 1 and v[1][0][0] == 'lit'))
def litval(v): return v[1][0][1] if v[1] else ''
def slen(parts):
    n = 0
    for p in parts:
        if p[0] == 'lit': n = ladd(n, len(p[1].encode('utf8')))
        elif p[0] == 'sl': n = ladd(n, lsub(p[3], p[2]))
        else: n = ladd(n, atom(('plen', p)))
    return n
def show(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'str':
            return '+'.join(showpart(p) for p in v[1]) or '""'
        if v[0] == 'lin':
            s = ' + '.join((('%d*' % k) if k != 1 else '') + showprov(a) for a, k in v[1])
            return s + (' + %d' % v[2] if v[2] else '')
        if v[0] == 'sym': return '<%s>' % showprov(v[1])
        if v[0] == 'adt': return '{%s %s: %s}' % (v[1], v[2], ', '.join(show(x) for x in v[3]))
        if v[0] in ('vec', 'tup'): return '[' + ', '.join(show(x) for x in v[1]) + ']'
        if v[0] == 'cell': return 'cell(%s)' % show(v[1])
    return repr(v)
def showpart(p):
    if p[0] == 'lit': return json.dumps(p[1])
    if p[0] == 'sl': return '%s[%s..%s]' % (showprov(p[1]), show(p[2]), show(p[3]))
    return '%s(%s)' % (p[0], showprov(p[1]) if not is_int(p[1]) else show(p[1]))
def showprov(p):
    if isinstance(p, str): return p
    if isinstance(p, tuple) and len(p) > 1 and p[0] == '.':
        return showprov(p[1]) + '.' + str(p[2])
    if isinstance(p, tuple): return '(' + ' '.join(showprov(x) if not (isinstance(x, tuple) and x and x[0] in ('lin', 'str')) else show(x) for x in p) + ')'
    return str(p)

ABSENT = ('absent',)

class State:
    __slots__ = ('mem', 'exp', 'iv', 'eq', 'text', 'segs', 'log', 'next', 'notes', 'misc', 'bor')
    def __init__(self):
        self.mem = {}      # address -> value
        self.exp = {}      # provenance -> decided shape (variant, length, bool, presence)
        self.iv = {}       # linear direction -> (lo, hi)
        self.eq = {}       # frozenset{strparts,strparts} -> bool ; ('lit',parts) -> literal
        self.text = {}     # (buf, pos) -> known literal text at this position
        self.segs = ()     # recognised input segments (buf, start, end, kind, info)
        self.log = ()      # effects in order
        self.next = 1
        self.notes = ()
        self.misc = {}
        self.bor = {}
    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem); s.exp = dict(self.exp); s.iv = dict(self.iv)
        s.eq = dict(self.eq); s.text = dict(self.text); s.segs = self.segs
        s.log = self.log; s.next = self.next; s.notes = self.notes
        s.misc = dict(self.misc); s.bor = dict(self.bor)
        return s
    def note(self, *x):
        self.notes = (self.notes, x)
    def notelist(self):
        out = []; n = self.notes
        while n:
            out.append(n[1]); n = n[0]
        return out[::-1]
    def alloc(self, v):
        a = self.next; self.next += 1
        self.mem[a] = v
        return a

class Out:
    __slots__ = ('kind', 'st', 'val', 'info')
    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind; self.st = st; self.val = val; self.info = info

UNIT = ('tup', ())
INTMAX = {('u', 8): 255, ('u', 16): 65535, ('u', 32): 2**32-1, ('u', 64): 2**64-1, ('u', 128): 2**128-1}

class Interp:
    MAXLEN = 3
    def __init__(self, prog, natives=None, cuts=None, maxlen=None, budget=400000, forks=3, visits=40):
        self.p = prog
        self.cuts = cuts or {}        # inst id -> handler(interp, st, inst, args, destty) -> [Out]
        self.cutfn = None             # optional: fn(inst) -> handler or None
        self.budget = budget
        self.steps = 0
        self.forks = forks
        self.visits = visits
        if maxlen is not None: self.MAXLEN = maxlen
        self.unk = {}                 # reason -> count
        self.bounded = 0
        self.covered = {}             # inst id -> set of bbs
        self.stack = []
        self.lenclasses = {}          # prov -> allowed lengths
        self.variants = {}            # prov -> allowed variants (by name)
        self.maxdepth = 200
        self.display_opaque = True
        self.maplookup = None
        from . import natives as N
        self.N = N.table(self)
    # -- types
    def T(self, t): return self.p.types[t]

    # -- canonical (non forking) value for a provenance and a type
    def mk(self, prov, ty):
        p = self.p; t = p.types[ty]; k = t['k']
        if p.is_str(ty): return buf(prov)
        if k in ('int', 'char'): return atom(('sym', prov, ty))
        if k == 'ref' or k == 'ptr':
            e = t['e']
            if p.types[e]['k'] == 'str': return buf(prov)
            return ('ref', ('S', prov, e), ())
        if k == 'adt':
            n = t['name']
            if n == 'std::rc::Rc': return ('rc', ('S', prov, t['args'][0]))
            if n in ('std::cell::RefCell', 'std::cell::Cell'): return ('cell', self.mk(('.', prov, 'C'), t['args'][0]))
            if n == 'std::collections::HashMap' or n == 'std::collections::BTreeMap': return ('map', prov, (), t['args'][0], t['args'][1])
            if n in ('std::cell::Ref', 'std::cell::RefMut'): return ('ref', ('S', prov, t['args'][0]), ())
        if k == 'tuple':
            return ('tup', tuple(self.mk(('.', prov, i), f) for i, f in enumerate(t['f'])))
        if k == 'array':
            return ('vec', tuple(self.mk(('.', prov, i), t['e']) for i in range(t['n'])))
        return ('sym', prov, ty)

    def isvecty(self, ty):
        t = self.p.types[ty]
        return t['k'] == 'slice' or (t['k'] == 'adt' and t['name'] == 'std::vec::Vec')
    def elemty(self, ty):
        t = self.p.types[ty]
        return t['e'] if t['k'] in ('slice', 'array') else t['args'][0]

    # one level expansion without forking; None when a decision is missing
    def expand(self, st, v):
        _, prov, ty = v
        t = self.p.types[ty]
        if t['k'] == 'adt' and not self.isvecty(ty):
            if t['ak'] == 'enum':
                d = st.exp.get(prov)
                if d is None: return None
                vn, _, fs = t['v'][d]
                return ('adt', ty, d, tuple(self.mk(('.', ('.', prov, vn), f[0]), f[1]) for f in fs))
            if t['ak'] == 'struct':
                fs = t['v'][0][2]
                return ('adt', ty, 0, tuple(self.mk(('.', prov, f[0]), f[1]) for f in fs))
        if self.isvecty(ty):
            n = st.exp.get(prov)
            if n is None: return None
            e = self.elemty(ty)
            return ('vec', tuple(self.mk(('.', prov, '#%d' % i), e) for i in range(n)))
        if t['k'] == 'closure':
            return ('adt', ty, 0, tuple(self.mk(('.', prov, i), f) for i, f in enumerate(t['f'])))
        return None

    # list of (state, expanded value)
    def expand_fork(self, st, v):
        if not (isinstance(v, tuple) and v and v[0] == 'sym'): return [(st, v)]
        e = self.expand(st, v)
        if e is not None: return [(st, e)]
        _, prov, ty = v
        t = self.p.types[ty]
        if t['k'] == 'adt' and t['ak'] == 'enum':
            out = []
            allowed = self.allowed_variants(prov, ty, t)
            for i in allowed:
                s = st.copy(); s.exp[prov] = i; s.note('shape', prov, t['v'][i][0])
                out.append((s, self.expand(s, v)))
            return out
        if self.isvecty(ty):
            out = []
            for n in self.allowed_lens(prov, ty):
                s = st.copy(); s.exp[prov] = n; s.note('len', prov, n)
                out.append((s, self.expand(s, v)))
            return out
        if t['k'] == 'bool':
            return self.bool_fork(st, v)
        raise Unk('expand ' + self.p.tyname(ty))
    def allowed_variants(self, prov, ty, t):
        a = self.variants.get(prov)
        if callable(self.variants_hook):
            r = self.variants_hook(prov, ty, t)
            if r is not None: return r
        if a is None: return range(len(t['v']))
        return [i for i in range(len(t['v'])) if t['v'][i][0] in a]
    variants_hook = None
    disp_hook = None
    lens_hook = None
    first_hook = None
    def allowed_lens(self, prov, ty):
        if callable(self.lens_hook):
            r = self.lens_hook(prov, ty)
            if r is not None: return r
        return self.lenclasses.get(prov, range(self.MAXLEN + 1))

    def bool_fork(self, st, v):
        if isinstance(v, bool): return [(st, v)]
        if isinstance(v, int): return [(st, bool(v))]
        if v[0] == 'sym':
            d = st.exp.get(v[1])
            if d is not None: return [(st, d)]
            out = []
            for b in (True, False):
                s = st.copy(); s.exp[v[1]] = b; s.note('bool', v[1], b); out.append((s, b))
            return out
        raise Unk('bool %r' % (v,))
    def opaque(self, st, key, what=None):
        """undetermined but functional predicate"""
        d = st.exp.get(key)
        if d is not None: return [(st, d)]
        out = []
        for b in (True, False):
            s = st.copy(); s.exp[key] = b; s.note('cond', key, b); out.append((s, b))
        return out

    # -- integer facts
    def atom_bounds(self, st, a):
        if a[0] in ('len', 'plen', 'gap'): return (0, None)
        if a[0] == 'sym':
            t = self.p.types.get(a[2]) if len(a) > 2 else None
            if t and t['k'] == 'char': return (0, 0x10ffff)
            if t and t['k'] == 'int':
                if t['s']: return (None, None)
                return (0, None if t['b'] >= 64 else 2**t['b'] - 1)
        if a[0] == 'mod': return (0, a[2] - 1)
        if a[0] == 'NL': return (0, None)
        if a[0] == 'numval': return (0, None)
        return (None, None)
    def normdir(self, d):
        terms, c = lterms(d)
        items = sorted(terms.items(), key=lambda x: repr(x[0]))
        g = 0
        for _, k in items: g = gcd(g, k)
        s = 1 if items[0][1] > 0 else -1
        return tuple((a, s * k // g) for a, k in items), s * g, c
    def bounds(self, st, d):
        """interval of a linear term"""
        terms, c = lterms(d)
        if not terms: return (c, c)
        dr, g, _ = self.normdir(d)
        lo = 0; hi = 0
        for a, k in dr:
            l, h = st.iv.get(((a, 1),), (None, None))
            bl, bh = self.atom_bounds(st, a)
            if l is None or (bl is not None and bl > l): l = bl
            if h is None or (bh is not None and bh < h): h = bh
            if k < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        l, h = st.iv.get(dr, (None, None))
        if l is not None and (lo is None or l > lo): lo = l
        if h is not None and (hi is None or h < hi): hi = h
        if lo is None or hi is None:
            # one step of sum inference: dr = d1 + d2 with a known direction d1
            for e, (l, h) in st.iv.items():
                if len(e) < 2 or e == dr: continue
                for sg in (1, -1):
                    rest = dict(dr)
                    for a, k in e: rest[a] = rest.get(a, 0) - sg * k
                    rest = {a: k for a, k in rest.items() if k}
                    if len(rest) >= len(dr): continue
                    rl = rh = 0
                    for a, k in rest.items():
                        al, ah = st.iv.get(((a, 1),), (None, None))
                        bl, bh = self.atom_bounds(st, a)
                        if al is None or (bl is not None and bl > al): al = bl
                        if ah is None or (bh is not None and bh < ah): ah = bh
                        if k < 0: al, ah = ah, al
                        rl = None if rl is None or al is None else rl + k * al
                        rh = None if rh is None or ah is None else rh + k * ah
                    el, eh = (l, h) if sg > 0 else ((None if h is None else -h), (None if l is None else -l))
                    nl = None if rl is None or el is None else rl + el
                    nh = None if rh is None or eh is None else rh + eh
                    if nl is not None and (lo is None or nl > lo): lo = nl
                    if nh is not None and (hi is None or nh < hi): hi = nh
        if g < 0: lo, hi = (None if hi is None else hi * g), (None if lo is None else lo * g)
        else: lo, hi = (None if lo is None else lo * g), (None if hi is None else hi * g)
        return (None if lo is None else lo + c, None if hi is None else hi + c)
    def refine(self, st, d, lo=None, hi=None):
        """assume lo <= d <= hi ; returns False when contradictory"""
        terms, c = lterms(d)
        if not terms:
            return (lo is None or c >= lo) and (hi is None or c <= hi)
        bl, bh = self.bounds(st, d)
        if lo is not None and bh is not None and bh < lo: return False
        if hi is not None and bl is not None and bl > hi: return False
        dr, g, _ = self.normdir(d)
        lo2 = None if lo is None else lo - c
        hi2 = None if hi is None else hi - c
        if g < 0:
            lo2, hi2 = (None if hi2 is None else -hi2), (None if lo2 is None else -lo2); g = -g
        if lo2 is not None: lo2 = -((-lo2) // g)
        if hi2 is not None: hi2 = hi2 // g
        l, h = st.iv.get(dr, (None, None))
        if lo2 is not None and (l is None or lo2 > l): l = lo2
        if hi2 is not None and (h is None or hi2 < h): h = hi2
        if l is not None and h is not None and l > h: return False
        st.iv[dr] = (l, h)
        return True
    def cmp(self, st, op, a, b):
        """list of (state, bool)"""
        if isinstance(a, bool) and isinstance(b, bool): a, b = int(a), int(b)
        if op in ('Gt', 'Ge'):
            return self.cmp(st, {'Gt': 'Lt', 'Ge': 'Le'}[op], b, a)
        if op == 'Ne':
            return [(s, not r) for s, r in self.cmp(st, 'Eq', a, b)]
        for x in (a, b):
            if isinstance(x, tuple) and x and x[0] == 'sym' and self.p.types[x[2]]['k'] == 'bool':
                out = []
                for s, va in self.bool_fork(st, a):
                    for s2, vb in self.bool_fork(s, b):
                        out += self.cmp(s2, op, va, vb)
                return out
        if not is_int(a) and not isinstance(a, bool) or not is_int(b) and not isinstance(b, bool):
            if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Eq' and a[0] in ('ref', 'rc') and b[0] in ('ref', 'rc'):
                return [(st, a == b)]
            raise Unk('compare %s' % op)
        d = lsub(a, b)
        lo, hi = self.bounds(st, d)
        if op == 'Eq':
            if lo == 0 and hi == 0: return [(st, True)]
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return [(st, False)]
            dr, g, c = self.normdir(d)
            if c % abs(g): return [(st, False)]
            ne = ('ne', dr, -c // g)
            if st.exp.get(ne): return [(st, False)]
            out = []
            s = st.copy()
            if self.refine(s, d, 0, 0): s.note('eq', a, b); out.append((s, True))
            s = st.copy(); s.exp[ne] = True; s.note('ne', a, b)
            ok = True
            if lo == 0: ok = self.refine(s, d, 1, None)
            elif hi == 0: ok = self.refine(s, d, None, -1)
            if ok: out.append((s, False))
            return out
        if op == 'Lt':
            if hi is not None and hi < 0: return [(st, True)]
            if lo is not None and lo >= 0: return [(st, False)]
            out = []
            s = st.copy()
            if self.refine(s, d, None, -1): s.note('lt', a, b); out.append((s, True))
            s = st.copy()
            if self.refine(s, d, 0, None): s.note('ge', a, b); out.append((s, False))
            return out
        if op == 'Le':
            if hi is not None and hi <= 0: return [(st, True)]
            if lo is not None and lo > 0: return [(st, False)]
            out = []
            s = st.copy()
            if self.refine(s, d, None, 0): s.note('le', a, b); out.append((s, True))
            s = st.copy()
            if self.refine(s, d, 1, None): s.note('gt', a, b); out.append((s, False))
            return out
        raise Unk('cmp ' + op)

    # -- strings
    def lits(self, st, parts):
        """replace slices with known text by literals"""
        out = []
        for p in parts:
            if p[0] == 'sl':
                if st.iv:
                    # empty slice known by facts
                    lo, hi = self.bounds(st, lsub(p[3], p[2]))
                    if lo == 0 and hi == 0: continue
                t = st.text.get((p[1], p[2]))
                if t is not None:
                    n = len(t.encode('utf8'))
                    d = lsub(p[3], ladd(p[2], n))
                    if d == 0: out.append(('lit', t)); continue
                    if isinstance(d, int) and d < 0:
                        out.append(('lit', t.encode('utf8')[:n + d].decode('utf8', 'replace'))); continue
                    l2, _ = self.bounds(st, d)
                    if l2 is not None and l2 >= 0:
                        out.append(('lit', t))
                        out += list(self.lits(st, (('sl', p[1], ladd(p[2], n), p[3]),)))
                        continue
                k = st.eq.get(('lit', (p,)))
                if k is not None: out.append(('lit', k)); continue
            out.append(p)
        return norm_parts(out)
    def str_eq(self, st, a, b):
        pa, pb = self.lits(st, a[1]), self.lits(st, b[1])
        if pa == pb: return [(st, True)]
        la = pa == () or (len(pa) == 1 and pa[0][0] == 'lit')
        lb = pb == () or (len(pb) == 1 and pb[0][0] == 'lit')
        if la and lb: return [(st, False)]
        # strip common literal/atom prefix and suffix
        xa, xb = list(pa), list(pb)
        while xa and xb:
            if xa[0] == xb[0]: xa.pop(0); xb.pop(0); continue
            if xa[0][0] == 'lit' and xb[0][0] == 'lit':
                s, t = xa[0][1], xb[0][1]
                n = 0
                while n < len(s) and n < len(t) and s[n] == t[n]: n += 1
                if n == 0 or (n < len(s) and n < len(t)): return [(st, False)]
                xa[0] = ('lit', s[n:]); xb[0] = ('lit', t[n:])
                if not s[n:]: xa.pop(0)
                if not t[n:]: xb.pop(0)
                continue
            break
        while xa and xb:
            if xa[-1] == xb[-1]: xa.pop(); xb.pop(); continue
            if xa[-1][0] == 'lit' and xb[-1][0] == 'lit':
                s, t = xa[-1][1], xb[-1][1]
                n = 0
                while n < len(s) and n < len(t) and s[-1-n] == t[-1-n]: n += 1
                if n == 0 or (n < len(s) and n < len(t)): return [(st, False)]
                xa[-1] = ('lit', s[:len(s)-n]); xb[-1] = ('lit', t[:len(t)-n])
                if not xa[-1][1]: xa.pop()
                if not xb[-1][1]: xb.pop()
                continue
            break
        pa, pb = tuple(xa), tuple(xb)
        if pa == pb: return [(st, True)]
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and x[0][0] == 'chr':
                if y == (): return [(st, False)]
                if len(y) == 1 and y[0][0] == 'lit' and len(y[0][1]) > 1: return [(st, False)]
                if len(y) == 1 and y[0][0] in ('lit', 'chr'):
                    return self.cmp(st, 'Eq', x[0][1], ord(y[0][1]) if y[0][0] == 'lit' else y[0][1])
        for x, y in ((pa, pb), (pb, pa)):
            if x == () and self.first_hook is not None and any(z[0] == 'sl' and self.first_hook(st, z) is not None for z in y): return [(st, False)]
            if x and y and x[0][0] == 'lit' and y[0][0] == 'sl':
                f = st.exp.get(('firstset', y[0][1], y[0][2]))
                whole = False
                if f is None and self.first_hook is not None: f = self.first_hook(st, y[0]); whole = f is not None
                if f is not None and not any(l <= ord(x[0][1][0]) <= h for l, h in f):
                    if whole: return [(st, False)]
                    lo, _ = self.bounds(st, lsub(y[0][3], y[0][2]))
                    if lo is not None and lo >= 1: return [(st, False)]
        d = lsub(slen(pa), slen(pb))
        lo, hi = self.bounds(st, d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return [(st, False)]
        key = frozenset((pa, pb))
        r = st.eq.get(key)
        if r is not None: return [(st, r)]
        out = []
        s = st.copy()
        s.eq[key] = True
        ok = self.refine(s, d, 0, 0)
        if ok:
            for x, y in ((pa, pb), (pb, pa)):
                if len(x) == 1 and x[0][0] == 'sl' and (y == () or (len(y) == 1 and y[0][0] == 'lit')):
                    s.eq[('lit', x)] = y[0][1] if y else ''
            s.note('streq', ('str', pa), ('str', pb)); out.append((s, True))
        s = st.copy(); s.eq[key] = False
        okn = True
        for x, y in ((pa, pb), (pb, pa)):
            if y == () : okn = self.refine(s, slen(x), 1, None)
        s.note('strne', ('str', pa), ('str', pb))
        if okn: out.append((s, False))
        return out

    # -- memory
    def load(self, st, ref):
        """value at ('ref', addr, path)"""
        if ref[0] == 'val': return ref[1]
        _, addr, path = ref
        v = self.read_addr(st, addr)
        for e in path: v = self.proj(st, v, e)
        return v
    def read_addr(self, st, addr):
        v = st.mem.get(addr)
        if v is None:
            if isinstance(addr, tuple) and addr[0] == 'S': return self.mk(('*', addr[1]), addr[2])
            if isinstance(addr, tuple) and addr[0] == 'K': return addr[1]
            raise Unk('uninit read')
        return v
    def proj(self, st, v, e):
        if isinstance(v, tuple) and v and v[0] == 'sym':
            x = self.expand(st, v)
            if x is None: raise Unk('projection of undecided %s %r' % (self.p.tyname(v[2]), e))
            v = x
        if e == 'C':
            if v[0] != 'cell': raise Unk('cell of %s' % v[0])
            return v[1]
        if e[0] == 'f':
            if v[0] in ('adt',): 
                if e[1] >= len(v[3]): raise Unk('field')
                return v[3][e[1]]
            if v[0] == 'tup': return v[1][e[1]]
            if v[0] == 'box' and e[1] == 0: return v      # the pointer inside
            raise Unk('field of %s' % v[0])
        if e[0] == 'd':
            if v[0] == 'adt' and v[2] != e[1]: raise Unk('downcast mismatch')
            return v
        if e[0] == 'i':
            if v[0] != 'vec': raise Unk('index of %s' % v[0])
            if e[1] >= len(v[1]): raise Unk('index out of range')
            return v[1][e[1]]
        if e[0] == 'k':   # map entry
            if v[0] != 'map': raise Unk('entry of %s' % v[0])
            for k, x in v[2]:
                if k == e[1]: return x
            return self.mk(('.', v[1], ('[]', e[1])), v[4])
        raise Unk('proj %r' % (e,))
    def store(self, st, ref, val):
        if ref[0] == 'val': raise Unk('store to value place')
        _, addr, path = ref
        if not path:
            st.mem[addr] = val; return
        base = st.mem.get(addr)
        if base is None:
            if isinstance(addr, tuple) and addr[0] == 'S': base = self.mk(('*', addr[1]), addr[2])
        st.mem[addr] = self.upd(st, base, path, val)
    def upd(self, st, v, path, val):
        if not path: return val
        e = path[0]
        if v is None:
            if e[0] == 'f':
                fs = [None] * (e[1] + 1); fs[e[1]] = self.upd(st, None, path[1:], val)
                return ('tup', tuple(fs))
            raise Unk('write into uninit')
        if v[0] == 'sym':
            x = self.expand(st, v)
            if x is None: raise Unk('write into undecided')
            v = x
        if e == 'C': return ('cell', self.upd(st, v[1], path[1:], val))
        if e[0] == 'd': return self.upd(st, v, path[1:], val)
        if e[0] == 'f':
            if v[0] == 'adt':
                fs = list(v[3]); fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return ('adt', v[1], v[2], tuple(fs))
            if v[0] == 'tup':
                fs = list(v[1])
                while len(fs) <= e[1]: fs.append(None)
                fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
                return ('tup', tuple(fs))
        if e[0] == 'i':
            fs = list(v[1]); fs[e[1]] = self.upd(st, fs[e[1]], path[1:], val)
            return ('vec', tuple(fs))
        if e[0] == 'k':
            old = None; ents = []
            for k, x in v[2]:
                if k == e[1]: old = x
                else: ents.append((k, x))
            if old is None: old = self.mk(('.', v[1], ('[]', e[1])), v[4])
            ents.append((e[1], self.upd(st, old, path[1:], val)))
            return ('map', v[1], tuple(sorted(ents, key=lambda x: repr(x[0]))), v[3], v[4])
        raise Unk('upd %r %r' % (e, v[0]))

    # expand whatever is undecided on the way to ref; forks. returns [(st)]
    def settle(self, st, ref):
        return [(s, r) for s, r in self._settle(st, ref)]
    def _settle(self, st, ref):
        if ref[0] == 'val': return [(st, ref)]
        v = self.read_addr(st, ref[1])
        sts = [(st, v)]
        for e in ref[2]:
            nx = []
            for s, x in sts:
                for s2, y in self.expand_fork(s, x): nx.append((s2, self.proj(s2, y, e)))
            sts = nx
        return [(s, ref) for s, _ in sts]
    def loadx(self, st, ref):
        """load and expand one level, forking: [(state, value)]"""
        return self.expand_fork(st, self.load(st, ref))

    # -- places
    def place(self, st, fr, pl):
        """resolve to ('ref', addr, path) | ('val', v)"""
        base, proj = pl
        cur = ('ref', fr['loc'][base], ())
        for e in proj:
            if e == '*':
                v = self.load(st, cur)
                cur = self.deref(st, v)
            elif e == 'o' or (isinstance(e, list) and e[0] == 'o'):
                pass
            elif e[0] == 'f':
                cur = self.sub(st, cur, ('f', e[1]))
            elif e[0] == 'd':
                cur = self.sub(st, cur, ('d', e[1]))
            elif e[0] == 'i':
                ix = st.mem.get(fr['loc'][e[1]])
                cur = self.index(st, cur, ix)
            elif e[0] == 'c':
                v = self.seqval(st, cur)
                n = self.seqlen(st, v)
                cur = self.index(st, cur, (n - e[1]) if e[2] else e[1])
            elif e[0] == 's':
                raise Unk('subslice pattern')
            else:
                raise Unk('proj ' + str(e))
        return cur
    def seqval(self, st, cur):
        return self.load(st, cur)
    def seqlen(self, st, v):
        if v[0] == 'slice': return v[3] - v[2]
        if v[0] == 'vec': return len(v[1])
        if v[0] == 'sym':
            x = self.expand(st, v)
            if x is not None and x[0] == 'vec': return len(x[1])
        raise Unk('seqlen')
    def index(self, st, cur, ix):
        if not isinstance(ix, int): raise Unk('symbolic index')
        if cur[0] == 'val':
            v = cur[1]
            if v[0] == 'slice': return self.sub(st, v[1], ('i', v[2] + ix))
            if v[0] == 'vec': return ('val', v[1][ix])
            raise Unk('index val')
        return self.sub(st, cur, ('i', ix))
    def sub(self, st, cur, e):
        if cur[0] == 'val':
            return ('val', self.proj(st, cur[1], e))
        return ('ref', cur[1], cur[2] + (e,))
    def deref(self, st, v):
        k = v[0]
        if k == 'ref': return v
        if k == 'str': return ('val', v)
        if k == 'slice': return ('val', v)
        if k == 'rc' or k == 'box': return ('ref', v[1], ())
        if k == 'guard': return v[1]
        raise Unk('deref ' + k)

    # -- operands / constants
    def const(self, st, c, ty):
        if 'b' in c: return bool(c['b'])
        if 'i' in c: return int(c['i'])
        if 'ch' in c: return int(c['ch']) if not isinstance(c['ch'], str) else ord(c['ch'])
        if 'str' in c: return lit(c['str'])
        if 't' in c:
            t = self.p.types[ty]
            return ('tup', tuple(self.const(st, x, t['f'][i] if t['k'] == 'tuple' else ty) for i, x in enumerate(c['t'])))
        if 'by' in c: return ('vec', tuple(c['by']))
        if 'arr' in c: return ('vec', tuple(self.const(st, x, self.p.types[ty].get('e', ty)) for x in c['arr']))
        if 'ref' in c:
            v = self.const(st, c['ref'], c.get('ty', ty))
            if v[0] == 'str' if isinstance(v, tuple) else False:
                inner = self.p.types[c['ty']] if 'ty' in c else None
                # reference to a &str constant stays a reference, to a str collapses
                if inner is not None and inner['k'] == 'str': return v
            return ('ref', ('K', v), ())
        if 'static' in c: return ('ref', ('static', c['static']), ())
        if 'fnp' in c: return ('fn', c['fnp'])
        if 'zst' in c: return self.zst(c['zst'])
        if 'adt' in c:
            t = self.p.types[c['adt']]
            fs = t['v'][c['v']][2]
            v = ('adt', c['adt'], c['v'], tuple(self.const(st, x, fs[i][1]) for i, x in enumerate(c['f'])))
            return self.wrap_adt(c['adt'], c['v'], v[3], v)
        if 'fl' in c: return ('float', c['fl'])
        raise Unk('const %s' % list(c)[:1])
    def zst(self, ty):
        t = self.p.types[ty]
        if t['k'] == 'tuple': return UNIT
        if t['k'] == 'fndef': return ('fnitem', t['inst'], ty)
        if t['k'] in ('closure',): return ('adt', ty, 0, ())
        if t['k'] == 'adt': return ('adt', ty, 0, ())
        if t['k'] == 'array': return ('vec', ())
        raise Unk('zst')
    def wrap_adt(self, ty, variant, fields, dflt):
        t = self.p.types[ty]
        n = t['name']
        if n == 'std::borrow::Cow' and self.p.is_str(ty):
            return fields[0]
        if n in ('std::cell::Cell', 'std::cell::RefCell', 'std::cell::UnsafeCell') and len(fields) == 1: return ('cell', fields[0])
        return dflt
    def operand(self, st, fr, op):
        k = op[0]
        if k in ('c', 'm'):
            pl = op[1]
            if not pl[1]:
                v = st.mem.get(fr['loc'][pl[0]])
                if v is None: raise Unk('uninit local _%d in %s' % (pl[0], fr['inst']['name']))
                return v
            return self.load(st, self.place(st, fr, pl))
        if k == 'k': return self.const(st, op[2], op[1])
        raise Unk('operand ' + k)

    # -- calls
    def call(self, st, inst, args, destty=None):
        """returns list of Out (ret / panic / exit)"""
        h = self.cuts.get(inst['id'])
        if h is None and self.cutfn is not None: h = self.cutfn(inst, args)
        if h is not None:
            return h(self, st, inst, args, destty)
        if 'bbs' not in inst: raise Unk('no body: ' + inst['name'])
        if self.joins is not None and self.joins(inst): return self.join(st, self.body(st, inst, args))
        if self.predsets and args and self.p.types[inst['locals'][0]]['k'] == 'bool':
            r = self.charpred(st, inst, args)
            if r is not None: return r
        return self.body(st, inst, args)
    predsets = False
    def charpred(self, st, inst, args):
        """a predicate on one character of a text: two outcomes, described by the set of characters"""
        ch = args[-1]
        if isinstance(ch, tuple) and ch[0] == 'ref': 
            try: ch = self.load(st, ch)
            except Unk: return None
        if isinstance(ch, tuple) and ch[0] == 'tup' and len(ch[1]) == 1: ch = ch[1][0]
        if not (isinstance(ch, tuple) and ch[0] == 'lin' and len(ch[1]) == 1 and ch[2] == 0 and ch[1][0][1] == 1): return None
        a = ch[1][0][0]
        if a[0] != 'sym' or not isinstance(a[1], tuple) or a[1][0] != 'char' or len(a[1]) != 3: return None
        if len(args) == 2 and not (self.p.types[inst['locals'][1]]['k'] in ('ref', 'closure')): return None
        if len(args) > 2: return None
        if len(args) == 2:
            env = args[0]
            if isinstance(env, tuple) and env[0] == 'ref': env = self.load(st, env)
            if env not in (('tup', ()),) and not (isinstance(env, tuple) and env[0] == 'adt' and env[3] == ()): return None
        _, p, phase = a[1]
        if p[0] != 'sl': return None
        cache = self.p.__dict__.setdefault('predcache', {})
        if inst['id'] not in cache:
            self.predsets = False
            try:
                s = State(); at = ('sym', ('char?', 0), None); v = ('lin', ((at, 1),), 0)
                self.refine(s, v, 0, 0x10ffff)
                acc = []; ar = list(args)
                ar[-1] = v
                if isinstance(args[-1], tuple) and args[-1][0] == 'tup': ar[-1] = ('tup', (v,))
                elif isinstance(args[-1], tuple) and args[-1][0] == 'ref': ar[-1] = ('ref', s.alloc(v), ())
                if len(ar) == 2 and isinstance(ar[0], tuple) and ar[0][0] == 'ref': ar[0] = ('ref', ('K', ('tup', ())), ())
                for o in self.body(s, inst, ar):
                    if o.kind != 'ret': raise Unk('char predicate')
                    for s2, b in self.decide(o.st, o.val):
                        if b: acc += self.intervals(s2, v)
                cache[inst['id']] = self.union(acc)
            except (Unk, Bound): cache[inst['id']] = None
            finally: self.predsets = True
        cs = cache[inst['id']]
        if cs is None: return None
        key = ('pred', inst['id'], p, phase)
        out = []
        for b in (True, False):
            if st.exp.get(key) not in (None, b): continue
            s = st.copy(); s.exp[key] = b
            if b:
                if not cs or not self.refine(s, ch, cs[0][0], cs[-1][1]): continue
                if phase == 0: s.exp[('firstset', p[1], p[2])] = cs
            else:
                if cs and cs[0] == (0, 0x10ffff): continue
                lo, hi = self.bounds(s, ch)
                if any(l <= lo and hi <= h for l, h in cs if lo is not None and hi is not None): continue
                if phase == 1 and st.exp.get(('pred', inst['id'], p, 0)):
                    g = s.misc.get(('later', p[1], p[2]))
                    if g: s.segs += ((p[1], p[2], ladd(p[2], g[0]), 'set', cs),)
            s.note('in set' if b else 'not in set', ch); out.append(Out('ret', s, b))
        return out

    joins = None          # instances after which paths that differ only in what was learned are joined
    forget = None         # what is not worth keeping paths apart: changes a state
    joinkey = None        # what was learned that keeps paths apart: (key, value) -> bool
    def join(self, st0, outs):
        """paths with the same result, memory and borrows become one that knows what all of them know"""
        if len(outs) < 2: return outs
        rest = []; groups = {}
        if self.forget is not None:
            for o in outs:
                if o.kind == 'ret': self.forget(o.st)
        for o in outs:
            if o.kind != 'ret': rest.append(o); continue
            n0 = st0.next
            mem = {a: v for a, v in o.st.mem.items() if not isinstance(a, int) or a < n0}
            new = [a for a in o.st.mem if isinstance(a, int) and a >= n0]
            if new:
                live = set(); seen = [o.val] + [v for a, v in mem.items() if st0.mem.get(a) is not v]
                while seen:
                    x = seen.pop()
                    if not isinstance(x, tuple): continue
                    if len(x) >= 2 and x[0] in ('ref', 'rc', 'box') and isinstance(x[1], int):
                        if x[1] >= n0 and x[1] not in live: live.add(x[1]); seen.append(o.st.mem.get(x[1]))
                    seen += [y for y in x if isinstance(y, tuple)]
                for a in live: mem[a] = o.st.mem.get(a)
            try: k = (o.val, frozenset(mem.items()), frozenset(o.st.bor.items()), frozenset((a, v) for a, v in o.st.exp.items() if st0.exp.get(a) != v and (self.joinkey is None or self.joinkey(a, v))))
            except TypeError: rest.append(o); continue
            groups.setdefault(k, []).append((o, mem))
        for g in groups.values():
            o, mem = g[0]
            if len(g) == 1: rest.append(o); continue
            s = o.st.copy(); s.mem = dict(mem); s.next = max(x.st.next for x, _ in g)
            sts = [x.st for x, _ in g]
            for f in ('exp', 'eq', 'text'):
                d = getattr(s, f); setattr(s, f, {a: v for a, v in d.items() if all(getattr(t, f).get(a, s) == v for t in sts)})
            iv = {}
            for a, (lo, hi) in s.iv.items():
                los = []; his = []
                for t in sts:
                    b = t.iv.get(a)
                    los.append(b[0] if b else None); his.append(b[1] if b else None)
                lo = None if None in los else min(los); hi = None if None in his else max(his)
                if lo is not None or hi is not None: iv[a] = (lo, hi)
            s.iv = iv
            s.segs = tuple(x for x in s.segs if all(x in t.segs for t in sts))
            n = 0
            while all(len(t.log) > n for t in sts) and all(t.log[n] == s.log[n] for t in sts): n += 1
            s.log = s.log[:n]
            m = {}
            for a, v in s.misc.items():
                vs = [t.misc.get(a) for t in sts]
                if all(isinstance(x, int) and not isinstance(x, bool) for x in vs): m[a] = max(vs)
                elif all(x == v for x in vs): m[a] = v
            s.misc = m
            s.notes = st0.notes; s.note('joined', len(g))
            rest.append(Out('ret', s, o.val))
        return rest
    def body(self, st, inst, args):
        if len(self.stack) > self.maxdepth: raise Bound('depth')
        self.stack.append(inst['id'])
        try:
            return self._body(st, inst, args)
        finally:
            self.stack.pop()

    def _body(self, st, inst, args):
        n = inst['argc']
        loc = {}
        base = st.next
        nl = len(inst['locals'])
        st = st.copy()
        for i in range(nl): loc[i] = base + i
        st.next = base + nl
        sp = inst.get('spread')
        if sp:
            # callee takes a tuple as its last argument spread over locals: args beyond are packed
            pass
        if len(args) != n:
            raise Unk('arity %s: %d vs %d' % (inst['name'], len(args), n))
        for i, a in enumerate(args): st.mem[loc[i + 1]] = a
        st.mem[loc[0]] = UNIT if self.p.types[inst['locals'][0]]['k'] == 'tuple' and not self.p.types[inst['locals'][0]]['f'] else None
        if st.mem[loc[0]] is None: del st.mem[loc[0]]
        fr = {'inst': inst, 'loc': loc}
        outs = []
        work = [(st, 0, {}, {})]
        cov = self.covered.setdefault(inst['id'], set())
        while work:
            st, bb, forks, visits = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.budget: raise Bound('budget')
                cov.add(bb)
                visits = dict(visits); visits[bb] = visits.get(bb, 0) + 1
                if visits[bb] > self.visits:
                    self.bounded += 1; break
                blk = inst['bbs'][bb]
                try:
                    nxt = self.block(st, fr, blk, bb)
                except (Unk, TypeError, KeyError, IndexError, AttributeError, ValueError) as u:
                    if not isinstance(u, Unk):
                        if DEBUG: raise
                        u = 'internal: %s' % type(u).__name__
                    w = str(u)
                    self.unk[w] = self.unk.get(w, 0) + 1
                    self.lastunk = (inst['name'], blk[2], w)
                    if getattr(self, 'debug', False): print('UNK', inst['name'], blk[2], w)
                    outs.append(Out('unk', st, None, (inst['name'], blk[2], w)))
                    break
                if len(nxt) == 1 and nxt[0][0] == 'goto':
                    _, st, bb = nxt[0]
                    continue
                gotos = [x for x in nxt if x[0] == 'goto']
                if len(gotos) > 1:
                    forks = dict(forks); forks[bb] = forks.get(bb, 0) + 1
                    if forks[bb] > self.forks:
                        self.bounded += 1
                        # keep exploring only the ways out would need ranking: give the rest up
                        gotos_keep = []
                        for x in nxt:
                            if x[0] != 'goto': continue
                        break
                for x in nxt:
                    if x[0] == 'goto': work.append((x[1], x[2], forks, visits))
                    elif x[0] == 'out':
                        outs.append(x[1])
                    elif x[0] == 'ret':
                        s = x[1]
                        v = s.mem.get(loc[0])
                        s = s.copy()
                        for a in loc.values(): s.mem.pop(a, None)
                        outs.append(Out('ret', s, v))
                break
        return outs

    def block(self, st, fr, blk, bb):
        """executes abstractly one basic block: list of ('goto',st,bb) | ('ret',st) | ('out',Out)"""
        sts = [st]
        st = st.copy()
        for s in blk[0]:
            r = self.stmt(st, fr, s)
            if r is not None: st = r
        return self.term(st, fr, blk[1], blk[2], bb)

    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, fr, s[2], s[1])
            if not s[1][1]:
                st.mem[fr['loc'][s[1][0]]] = v
            else:
                self.store(st, self.place(st, fr, s[1]), v)
        elif k == 'sd':
            raise Unk('set discriminant')
        return None

    def rvalue(self, st, fr, rv, dest):
        k = rv[0]
        if k == 'use': return self.operand(st, fr, rv[1])
        if k == 'ref' or k == 'reborrow':
            pl = self.place(st, fr, rv[-1] if k == 'ref' else rv[1] if len(rv) == 2 else rv[-1])
            if pl[0] == 'val':
                v = pl[1]
                if v[0] in ('str', 'slice'): return v
                return ('ref', ('K', v), ())
            # a reference to a str-typed place collapses to the string value only through '*'
            return pl
        if k == 'discr':
            pl = self.place(st, fr, rv[1])
            v = self.load(st, pl)
            return ('discr', v)
        if k in ('bin', 'chk'):
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, k == 'chk')
        if k == 'un':
            a = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(a, bool): return not a
                if isinstance(a, tuple) and a[0] in ('lazy', 'sym', 'notb'):
                    return ('notb', a) if a[0] != 'notb' else a[1]
                raise Unk('not')
            if rv[1] == 'Neg': return lmul(a, -1)
            if rv[1] == 'PtrMetadata':
                if a[0] == 'str': return slen(a[1])
                if a[0] == 'slice': return a[3] - a[2]
                if a[0] == 'ref': return self.seqlen(st, self.load(st, a))
            raise Unk('un ' + rv[1])
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            return self.cast(st, rv[1], v, rv[3])
        if k == 'len':
            v = self.load(st, self.place(st, fr, rv[1]))
            return self.seqlen(st, v)
        if k == 'tup': return ('tup', tuple(self.operand(st, fr, o) for o in rv[1]))
        if k == 'arr': return ('vec', tuple(self.operand(st, fr, o) for o in rv[1]))
        if k == 'rep':
            n = rv[2]
            if not isinstance(n, int): raise Unk('repeat')
            v = self.operand(st, fr, rv[1]); return ('vec', (v,) * n)
        if k == 'adt':
            fs = tuple(self.operand(st, fr, o) for o in rv[3])
            return self.wrap_adt(rv[1], rv[2], fs, ('adt', rv[1], rv[2], fs))
        if k == 'clo': return ('adt', rv[1], 0, tuple(self.operand(st, fr, o) for o in rv[2]))
        raise Unk('rvalue ' + k)

    def cast(self, st, kind, v, ty):
        t = self.p.types[ty]
        if t['k'] in ('int', 'char'):
            if isinstance(v, bool): return int(v)
            if isinstance(v, int):
                if t['k'] == 'int' and not t['s'] and v > 0: return v & (2**t['b'] - 1)
                return v
            if isinstance(v, tuple) and v[0] == 'box' and kind == 'Transmute': return 4096     # a heap address: aligned, not null
            if isinstance(v, tuple) and v[0] == 'lin': return v     # widening / identity conversions of this code base
            if isinstance(v, tuple) and v[0] == 'discr': return v
            if isinstance(v, tuple) and v[0] == 'adt':
                return int(self.p.types[v[1]]['v'][v[2]][1])
            raise Unk('int cast')
        if t['k'] in ('ref', 'ptr', 'fnptr'): return v
        if t['k'] == 'adt' and t['name'] == 'std::boxed::Box': return v
        raise Unk('cast ' + kind)

    def binop(self, st, op, a, b, chk):
        op0 = op.replace('WithOverflow', '').replace('Unchecked', '')
        if op0 in ('Add', 'Sub', 'Mul'):
            if op0 == 'Add': r = ladd(a, b)
            elif op0 == 'Sub': r = lsub(a, b)
            else:
                if isinstance(a, int): r = lmul(b, a)
                elif isinstance(b, int): r = lmul(a, b)
                else: raise Unk('product')
            if chk or 'WithOverflow' in op:
                o = False
                if op0 == 'Sub': o = ('lazy', 'Lt', a, b)
                if isinstance(r, int) and r < 0: o = True
                elif isinstance(r, int): o = False
                return ('tup', (r, o))
            return r
        if op0 in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, (int,)) and isinstance(b, (int,)):
                a, b = int(a), int(b)
                return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op0]
            return ('lazy', op0, a, b)
        if op0 == 'Rem':
            if isinstance(a, int) and isinstance(b, int): return a % b
            if isinstance(b, int): return atom(('mod', a, b))
        if op0 == 'Div':
            if isinstance(a, int) and isinstance(b, int): return a // b
            if isinstance(b, int): return atom(('div', a, b))
        if op0 in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op0]
            if isinstance(a, int) and isinstance(b, int): return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op0]
            return ('lazyb', op0, a, b)
        raise Unk('binop ' + op)

    def decide(self, st, v):
        """fork on a boolean-like value: [(state, bool)]"""
        if isinstance(v, bool): return [(st, v)]
        if isinstance(v, int): return [(st, bool(v))]
        k = v[0]
        if k == 'lazy':
            a, b = v[2], v[3]
            sts = [(st, a, b)]
            if isinstance(a, tuple) and a[0] == 'discr' or isinstance(b, tuple) and b[0] == 'discr':
                nx = []
                for s, x, y in sts:
                    for s2, x2 in self.discr(s, x):
                        for s3, y2 in self.discr(s2, y): nx.append((s3, x2, y2))
                sts = nx
            out = []
            for s, x, y in sts:
                if isinstance(x, tuple) and x[0] in ('lazy', 'lazyb', 'notb') or isinstance(y, tuple) and y[0] in ('lazy', 'lazyb', 'notb'):
                    for s2, x2 in self.decide(s, x):
                        for s3, y2 in self.decide(s2, y): out += self.cmp(s3, v[1], x2, y2)
                else:
                    out += self.cmp(s, v[1], x, y)
            return out
        if k == 'lazyb':
            out = []
            for s, x in self.decide(st, v[2]):
                for s2, y in self.decide(s, v[3]):
                    out.append((s2, {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[v[1]]))
            return out
        if k == 'notb': return [(s, not b) for s, b in self.decide(st, v[1])]
        if k == 'sym': return self.bool_fork(st, v)
        raise Unk('decide ' + str(k))
    def discr(self, st, v):
        if not (isinstance(v, tuple) and v[0] == 'discr'): return [(st, v)]
        x = v[1]
        if isinstance(x, tuple) and x[0] == 'sym':
            return [(s, int(self.p.types[y[1]]['v'][y[2]][1])) for s, y in self.expand_fork(st, x)]
        if isinstance(x, tuple) and x[0] == 'adt':
            t = self.p.types[x[1]]
            return [(st, int(t['v'][x[2]][1]) if t['k'] == 'adt' else x[2])]
        if isinstance(x, tuple) and x[0] == 'str':
            # Borrowed or Owned is not a property of the text
            raise Unk('discriminant of a Cow')
        raise Unk('discr of %r' % (x[0] if isinstance(x, tuple) else x,))

    def term(self, st, fr, t, loc, bb):
        k = t[0]
        if k == 'goto': return [('goto', st, t[1])]
        if k == 'ret':
            return [('ret', st)]
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            return self.switch(st, v, t[2], t[3])
        if k == 'drop':
            self.do_drop(st, fr, t)
            return [('goto', st, t[2])]
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            out = []
            for s, b in self.decide(st, v):
                if b == t[2]: out.append(('goto', s, t[4]))
                else: out.append(('out', Out('panic', s, None, (fr['inst']['name'], loc, 'assert: ' + str(t[3])))))
            return out
        if k == 'call': return self.callterm(st, fr, t, loc)
        if k == 'unreachable': raise Unk('unreachable')
        if k in ('resume', 'abort'): return []
        raise Unk('terminator ' + k)

    def do_drop(self, st, fr, t):
        if not st.bor: return
        pl = t[1]
        try:
            v = st.mem.get(fr['loc'][pl[0]]) if not pl[1] else self.load(st, self.place(st, fr, pl))
        except Unk:
            return
        self.release(st, v)
    def release(self, st, v):
        if isinstance(v, tuple) and v:
            if v[0] == 'guard':
                st.bor.pop(v[2], None)
            elif v[0] in ('adt',):
                for x in v[3]: self.release(st, x)
            elif v[0] == 'tup':
                for x in v[1]: self.release(st, x)

    def switch(self, st, v, cases, other):
        if isinstance(v, tuple) and v[0] == 'discr':
            out = []
            for s, d in self.discr(st, v):
                for val, b in cases:
                    if int(val) == d: out.append(('goto', s, b)); break
                else: out.append(('goto', s, other))
            return out
        if isinstance(v, int):
            for val, b in cases:
                if int(val) == int(v): return [('goto', st, b)]
            return [('goto', st, other)]
        if v[0] == 'lin':
            out = []; sts = [st]
            for val, b in cases:
                nx = []
                for s in sts:
                    for s2, r in self.cmp(s, 'Eq', v, int(val)):
                        if r: out.append(('goto', s2, b))
                        else: nx.append(s2)
                sts = nx
            for s in sts: out.append(('goto', s, other))
            return out
        out = []
        for s, b in self.decide(st, v):
            for val, bbk in cases:
                if int(val) == int(b): out.append(('goto', s, bbk)); break
            else: out.append(('goto', s, other))
        return out

    def callterm(self, st, fr, t, loc):
        _, callee, fop, argops, dest, target, destty = t
        args = [self.operand(st, fr, o) for o in argops]
        argtys = [self.optype(fr, o) for o in argops]
        self.loc = (fr['inst']['name'], loc)
        if callee is None:
            f = self.operand(st, fr, fop)
            outs = self.callvalue(st, f, args, destty)
        else:
            outs = self.dispatch(st, callee, args, destty, argtys)
        res = []
        for o in outs:
            if o.kind == 'ret':
                if target is None: continue
                s = o.st
                if o.val is not None:
                    if not dest[1]:
                        if s is st: s = s.copy()
                        s.mem[fr['loc'][dest[0]]] = o.val
                    else:
                        s = s.copy(); self.store(s, self.place(s, fr, dest), o.val)
                res.append(('goto', s, target))
            else:
                res.append(('out', o))
        return res
    def optype(self, fr, o):
        """static type id of an operand"""
        if o[0] == 'k': return o[1]
        pl = o[1]
        ty = fr['inst']['locals'][pl[0]]
        for e in pl[1]:
            if e == '*':
                t = self.p.types[ty]
                if t['k'] in ('ref', 'ptr'): ty = t['e']
                elif t['k'] == 'adt': ty = t['args'][0]
            elif isinstance(e, list) and e[0] == 'f': ty = e[2]
            elif isinstance(e, list) and e[0] in ('i', 'c'):
                ty = self.p.types[ty].get('e', ty)
        return ty

    def dispatch(self, st, callee, args, destty, argtys=None):
        name, targs, iid = callee
        inst = self.p.insts.get(iid) if iid is not None else None
        key = strip(name)
        if inst is not None:
            h = self.cuts.get(inst['id'])
            if h is None and self.cutfn is not None: h = self.cutfn(inst, args)
            if h is not None: return h(self, st, inst, args, destty)
            if inst['local'] and 'bbs' in inst and inst['kind'] == 'item' and not inst.get('derived_clone') and key != 'std::clone::Clone::clone':
                if key in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
                    return self.callvalue(st, args[0], list(args[1][1]), destty)
                return self.call(st, inst, args, destty)
        ctx = {'name': key, 'targs': targs, 'inst': inst, 'argtys': argtys, 'destty': destty}
        h = self.N.get(key)
        if h is not None:
            r = h(self, st, args, ctx)
            if r is not NotImplemented: return r
        if inst is not None:
            h = self.N.get(strip(inst['def']))
            if h is not None:
                r = h(self, st, args, ctx)
                if r is not NotImplemented: return r
            if 'bbs' in inst: return self.call(st, inst, args, destty)
        raise Unk('call ' + key + ('' if inst is None else ' = ' + inst['name']))

    def callvalue(self, st, f, args, destty=None):
        """call a closure / fn item / fn pointer value with untupled args"""
        while isinstance(f, tuple) and f[0] == 'ref':
            g = self.load(st, f)
            if isinstance(g, tuple) and g[0] in ('ref', 'fn', 'fnitem'): f = g; continue
            if g[0] == 'adt': break
            raise Unk('callee value')
        if f[0] in ('fn', 'fnitem'):
            inst = self.p.insts[f[1]]
            if f[0] == 'fnitem':
                t = self.p.types[f[2]]
                return self.dispatch(st, [t['name'], t['args'], f[1]], args, destty)
            if 'bbs' in inst: return self.call(st, inst, args, destty)
            return self.dispatch(st, [inst['def'], inst['args'], f[1]], args, destty)
        clo = self.load(st, f) if f[0] == 'ref' else f
        if clo[0] != 'adt': raise Unk('callee value')
        t = self.p.types[clo[1]]
        if t['k'] != 'closure': raise Unk('callee type')
        inst = self.p.insts[t['inst']]
        envty = self.p.types[inst['locals'][1]]
        if envty['k'] == 'ref':
            if f[0] == 'ref': env = f
            else:
                st = st.copy(); env = ('ref', st.alloc(clo), ())
        else: env = clo
        return self.call(st, inst, [env] + list(args), destty)

    # -- formatting
    def ret(self, st, v): return [Out('ret', st, v)]

    def display(self, st, ref, ty, spec, kind='display'):
        """abstract text of a value: list of Out(ret, st, parts)"""
        p = self.p
        # peel references
        v = ref
        while True:
            t = p.types[ty]
            if t['k'] == 'ref':
                if p.types[t['e']]['k'] == 'str':
                    if isinstance(v, tuple) and v[0] == 'ref': v = self.load(st, v)
                    ty = t['e']; break
                v = self.load(st, v); ty = t['e']
                continue
            break
        # now v is a ref to a value of type ty (or the str value itself)
        t = p.types[ty]
        n = t.get('name')
        if p.is_str(ty):
            s = v if v[0] == 'str' else self.load(st, v)
            if kind == 'debug': return self.ret(st, (('dbg', s),))
            return self.pad(st, s[1], spec)
        if t['k'] == 'adt' and n in ('std::cell::Ref', 'std::cell::RefMut', 'std::rc::Rc', 'std::boxed::Box'):
            x = self.load(st, v)
            d = self.deref(st, x)
            return self.display(st, d, t['args'][0], spec, kind)
        if t['k'] == 'int':
            x = self.load(st, v)
            if isinstance(x, int): return self.pad(st, (('lit', str(x)),), spec)
            return self.pad(st, (('num', x),), spec)
        if t['k'] == 'char':
            x = self.load(st, v)
            if isinstance(x, int): return self.pad(st, (('lit', chr(x)),), spec)
            return self.pad(st, (('chr', x),), spec)
        if t['k'] == 'bool':
            x = self.load(st, v)
            return [Out('ret', s, (('lit', 'true' if b else 'false'),)) for s, b in self.decide(st, x)]
        if t['k'] == 'float':
            return self.pad(st, (('num', self.load(st, v)),), spec)
        if kind == 'debug':
            return self.ret(st, (('dbg', self.load(st, v)),))
        x = self.load(st, v)
        if self.disp_hook is not None and isinstance(x, tuple) and x[0] == 'sym':
            r = self.disp_hook(st, x[1])
            if r is not None: return self.pad(st, r, spec)
        if self.display_opaque and isinstance(x, tuple) and x[0] == 'sym' and self.expand_opaque(st, x):
            return self.ret(st, (('disp', x[1]),))
        inst = p.impls.get(('std::fmt::Display::fmt', ty))
        if inst is None:
            return self.ret(st, (('disp', ('val', x)),))
        h = self.cuts.get(inst['id'])
        if h is not None: return h(self, st, inst, [v], None)
        return self.run_fmt(st, inst, v)
    def expand_opaque(self, st, x):
        """an untouched unknown node prints as itself"""
        t = self.p.types[x[2]]
        return not (t['k'] == 'adt' and t['ak'] == 'enum' and x[1] in st.exp)
    def run_fmt(self, st, inst, v):
        st = st.copy()
        a = st.alloc(('fmtr', ()))
        outs = []
        for o in self.call(st, inst, [v, ('ref', a, ())]):
            if o.kind == 'ret':
                s = o.st.copy(); parts = s.mem.pop(a)[1]
                r = o.val
                if r[0] == 'adt' and r[2] == 0: outs.append(Out('ret', s, parts))
                else: outs.append(Out('ret', s, parts + (('fmterr', 0),)))
            else: outs.append(o)
        return outs
    def pad(self, st, parts, spec):
        if spec is None: return self.ret(st, norm_parts(parts))
        parts = norm_parts(parts)
        if len(parts) == 1 and parts[0][0] == 'lit' and spec.get('width') is not None and spec.get('prec') is None:
            s = parts[0][1]; w = spec['width']; f = spec['fill']; al = spec['align']
            if isinstance(w, int):
                n = w - len(s)
                if n > 0:
                    if al == 'left' or al is None and spec.get('strlike'): s = s + f * n
                    elif al == 'center': s = f * (n // 2) + s + f * (n - n // 2)
                    else: s = f * n + s
                return self.ret(st, (('lit', s),))
        if spec.get('prec') is None and isinstance(spec.get('width'), int) and len(parts) == 1:
            w, f, al = spec['width'], spec.get('fill'), spec.get('align')
            if al == 'right' or al is None and not spec.get('strlike'):
                return self.ret(st, (('pad', (('fill', f), ('w', w)), parts),))
        return self.ret(st, (('pad', tuple(sorted((k, str(x)) for k, x in spec.items() if x is not None)), parts),))

    def fmt_args(self, st, args):
        """text of a fmt::Arguments value: list of Out(ret, st, parts)"""
        if args[0] == 'str': return self.ret(st, args[1])
        if args[0] != 'args': raise Unk('fmt arguments')
        outs = [Out('ret', st, ())]
        for pc in args[1]:
            nx = []
            for o in outs:
                if o.kind != 'ret': nx.append(o); continue
                if pc[0] == 'lit':
                    nx.append(Out('ret', o.st, norm_parts(o.val + (pc,))))
                else:
                    _, kind, ref, ty, spec = pc
                    spec = dict(spec) if spec is not None else None
                    for q in self.display(o.st, ref, ty, spec, kind):
                        if q.kind == 'ret': nx.append(Out('ret', q.st, norm_parts(o.val + q.val)))
                        else: nx.append(q)
            outs = nx
        return outs

    # -- comparing abstract values
    def same(self, st, a, b, depth=0):
        """syntactic equality modulo expansion of decided unknowns"""
        if a == b: return True
        if depth > 60 or not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b: return False
        if a[0] == 'sym' and b[0] != 'sym':
            e = self.expand(st, a)
            return e is not None and self.same(st, e, b, depth + 1)
        if b[0] == 'sym' and a[0] != 'sym':
            e = self.expand(st, b)
            return e is not None and self.same(st, a, e, depth + 1)
        if a[0] != b[0]: return False
        if a[0] == 'str':
            return self.lits(st, a[1]) == self.lits(st, b[1])
        if a[0] == 'adt':
            return a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.same(st, x, y, depth + 1) for x, y in zip(a[3], b[3]))
        if a[0] in ('vec', 'tup'):
            return len(a[1]) == len(b[1]) and all(self.same(st, x, y, depth + 1) for x, y in zip(a[1], b[1]))
        if a[0] == 'cell': return self.same(st, a[1], b[1], depth + 1)
        if a[0] == 'map':
            if a[1] != b[1]: return False
            da, db = dict(a[2]), dict(b[2])
            for k in set(da) | set(db):
                va = da.get(k); vb = db.get(k)
                if va is None: va = self.map_base(st, a, k)
                if vb is None: vb = self.map_base(st, b, k)
                if va is None or vb is None or not self.same(st, va, vb, depth + 1): return False
            return True
        if a[0] == 'lin':
            return self.bounds(st, lsub(a, b)) == (0, 0)
        return False
    def map_base(self, st, m, k):
        """value of an untouched key: symbol, ABSENT or None when undecided"""
        if m[1] is None: return ABSENT
        d = st.exp.get(('has', m[1], k))
        if d is None: return None
        return self.mk(('.', m[1], ('[]', k)), m[4]) if d else ABSENT
