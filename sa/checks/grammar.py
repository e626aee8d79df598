"""The parsing functions, one at a time: every other parsing function is replaced by its contract.

A parsing function takes (Parser, text at position p of the input) and gives (Parser, IResult<rest, O>).  Contract of one whose
output O prints (Display): on Done with rest at position q, the output prints as the text between p and q; the line count grows by
the newlines between p and q; the key path is as before (one key longer for outputs that are a table key)."""
from .base import *
from .. import rx

def ir(P, ty):
    t = P.T(ty)
    return t['k'] == 'adt' and t['name'].endswith('IResult')
def inner(P, ty):
    """(element type, wrappers) of Rc<RefCell<X>>, Vec<X>, X"""
    w = []
    while True:
        t = P.T(ty)
        if t['k'] == 'adt' and t['name'] in ('std::rc::Rc', 'std::cell::RefCell', 'std::vec::Vec', 'std::boxed::Box'):
            w.append(t['name'].split('::')[-1]); ty = t['args'][0]
        else: return ty, w

class Grammar:
    def __init__(self, ctx, P):
        self.ctx, self.P = ctx, P
        self.nts = {}          # inst id -> (inst, output type)
        self.pty = None
        self.failing = {}      # inst id -> variants other than Done it can give; Error unless known better
        self.miscount = set()  # inst ids that may leave lines counted when they do not read
        self.nonl = set()      # inst ids whose text never has a newline
        self.nonempty = set()  # inst ids that always read something
        self.first = {}        # inst id -> characters its text starts with (if that is not empty)
        self.jfirst = {}       # inst id -> characters the text starts with where it does not read but leaves lines counted
        self.inline = set()    # printable ones to look into
        for i in P.insts.values():
            if not i['local'] or 'bbs' not in i or i['kind'] != 'item' or i['argc'] != 2: continue
            rt = P.T(i['locals'][0])
            if rt['k'] == 'tuple' and len(rt['f']) == 2 and ir(P, rt['f'][1]) and rt['f'][0] == i['locals'][1] and P.is_str(P.peel(i['locals'][2])):
                self.nts[i['id']] = (i, P.T(rt['f'][1])['args'][1]); self.pty = i['locals'][1]
        self.shown = {t for (n, t) in P.impls if n == 'std::fmt::Display::fmt'}
    def printable(self, o):
        e, w = inner(self.P, o)
        return e in self.shown
    def name(self, inst): return plain(inst['name']).split('::')[-1]
    def judged(self):
        return [(i, o) for i, o in self.nts.values() if self.printable(o)]
    def keylike(self, inst):
        """reads one key: whenever it succeeds its text is the output and has been added to the key path, without newlines (decided from its own paths)"""
        if not hasattr(self, '_keylike'): self._keylike = {}
        if inst['id'] in self._keylike: return self._keylike[inst['id']]
        self._keylike[inst['id']] = False
        if not self.hasfield('keychain') or not self.hasfield('line_count'): return False
        try: I, pv, outs = self.run(inst, havoc=False)
        except Unk: return False
        ok = bool(outs); done = 0; first = ()
        k0 = self.field(pv, 'keychain'); l0 = self.field(pv, 'line_count')
        for o in outs:
            if o.kind != 'ret': ok = False; break
            try:
                p2, vn, fs = self.result(o)
                k1 = self.field(p2, 'keychain'); l1 = self.field(p2, 'line_count')
                if l1 != l0: ok = False; break
                if vn == 'Done':
                    rest = fs[0]; q = rest[1][0][2] if rest[1] else atom(('len', 'INPUT'))
                    if k1[1][1][:len(k0[1][1])] != k0[1][1] or len(k1[1][1]) != len(k0[1][1]) + 1: ok = False; break
                    k = k1[1][1][-1]
                    if k[0] != 'adt' or self.covers(I, o.st, k[3][0][1], 'INPUT', self.p0, q) or self.covers(I, o.st, fs[1][1], 'INPUT', self.p0, q): ok = False; break
                    if self.nl(I, o.st, 'INPUT', self.p0, q) != 0: ok = False; break
                    done += 1
                    f = self.firstof(I, o.st, 'INPUT', self.p0, q)
                    first = None if f is None or first is None else rx.norm(list(first) + list(f))
                elif vn == 'Error' and k1 != k0: ok = False; break
            except Unk: ok = False; break
        self._keylike[inst['id']] = ok and done > 0
        if ok and done: self.first[inst['id']] = first
        return self._keylike[inst['id']]
    def iskey(self, o):
        """outputs that leave their key on the key path"""
        e, w = inner(self.P, o)
        t = self.P.T(e)
        return t['k'] == 'adt' and t['name'].endswith('WSKeySep')

    # -- states
    def start(self, I, inst, world=None, **fields):
        P = self.P
        st = State()
        fields = dict(self.world(I, st, **(world or {})), **fields)
        vals = []
        for n, ty in P.T(self.pty)['v'][0][2]:
            if n in fields: vals.append(fields[n](I, st, ty) if callable(fields[n]) else fields[n]); continue
            vals.append(I.mk(('.', 'P', n), ty))
        return st, ('adt', self.pty, 0, tuple(vals))
    def world(self, I, st, keys='S', errors=(), atypes=None, tables='', amb=None, lc=None, **kw):
        """field values of a parser in a typical state: keys of the key path (S name, I index), one line count, known errors;
        an array that is open has put an index on the key path and a type on its own list"""
        P = self.P; out = {}
        if atypes is None: atypes = keys.count('I')
        for n, ty in P.T(self.pty)['v'][0][2]:
            if n == 'keychain':
                kt = P.T(P.T(ty)['args'][0])['args'][0]; vs = P.T(kt)['v']; xs = []
                for i, c in enumerate(keys):
                    vi = [j for j, v in enumerate(vs) if v[0] == ('Str' if c == 'S' else 'Index')][0]
                    xs.append(('adt', kt, vi, (I.mk(('P', 'key', i), vs[vi][2][0][1]),)))
                out[n] = ('cell', ('vec', tuple(xs)))
            elif n == 'errors':
                e, _ = inner(P, ty); vs = P.T(e)['v']; xs = []
                for i, x in enumerate(errors):
                    vi = [j for j, v in enumerate(vs) if v[0] == x]
                    if not vi: raise Unk('no error ' + x)
                    xs.append(('adt', e, vi[0], tuple(I.mk(('P', 'err', i, f[0]), f[1]) for f in vs[vi[0]][2])))
                out[n] = ('rc', st.alloc(('cell', ('vec', tuple(xs)))))
            elif n == 'last_array_type':
                e = P.T(P.T(ty)['args'][0])['args'][0]
                out[n] = ('cell', ('vec', tuple(I.mk(('P', 'atype', i), e) for i in range(atypes))))
            elif n == 'last_array_tables':
                e = P.T(P.T(ty)['args'][0])['args'][0]; tt = P.T(e)['args'][0]; xs = []
                for i, c in enumerate(tables):
                    vi = [j for j, v in enumerate(P.T(tt)['v']) if v[0] == ('Array' if c == 'A' else 'Standard')][0]
                    xs.append(('rc', st.alloc(('adt', tt, vi, (I.mk(('P', 'table', i), P.T(tt)['v'][vi][2][0][1]),)))))
                out[n] = ('cell', ('vec', tuple(xs)))
            elif n == 'last_array_tables_index':
                out[n] = ('cell', ('vec', tuple(I.mk(('P', 'tindex', i), self.usize()) for i in range(len(tables)))))
        out.update(kw)
        return out
    def field(self, pv, n, st=None, I=None):
        if pv[0] == 'sym': pv = I.expand(st, pv)
        for f, x in zip(self.P.T(self.pty)['v'][0][2], pv[3]):
            if f[0] == n: return x
        raise Unk('parser field ' + n)
    def setfield(self, pv, n, v):
        fs = list(pv[3])
        for k, f in enumerate(self.P.T(self.pty)['v'][0][2]):
            if f[0] == n: fs[k] = v; return ('adt', pv[1], pv[2], tuple(fs))
        raise Unk('parser field ' + n)
    def hasfield(self, n): return any(f[0] == n for f in self.P.T(self.pty)['v'][0][2])

    def counters(self):
        """functions from a text to a number: the number of its lines"""
        P = self.P
        r = [i for i in P.insts.values() if i['local'] and 'bbs' in i and i['kind'] == 'item' and i['argc'] == 1
                and P.T(i['locals'][0])['k'] == 'int' and P.T(i['locals'][1])['k'] == 'ref' and P.is_str(P.T(i['locals'][1])['e'])]
        return [i for i in r if 'line' in self.name(i)] or r if len(r) > 1 else r
    def callers(self, inst):
        return [(i, o) for i, o in self.judged() if any(c['id'] == inst['id'] for c in self.P.callees(i))]

    # -- newlines
    def nl(self, I, st, b, lo, hi, segs=True):
        """number of newlines of a slice of the input as a term"""
        total = 0
        # known text at both ends
        moved = True
        while moved:
            moved = False
            if I.bounds(st, lsub(hi, lo)) == (0, 0): return total
            t = st.text.get((b, lo))
            if t:
                n = len(t.encode('utf8')); l, _ = I.bounds(st, lsub(hi, ladd(lo, n)))
                if l is not None and l >= 0: total = ladd(total, t.count('\n')); lo = ladd(lo, n); moved = True; continue
            for (b2, q), t in st.text.items():
                if b2 == b and t and I.bounds(st, lsub(ladd(q, len(t.encode('utf8'))), hi)) == (0, 0):
                    l, _ = I.bounds(st, lsub(q, lo))
                    if l is not None and l >= 0: total = ladd(total, t.count('\n')); hi = q; moved = True; break
        if I.bounds(st, lsub(hi, lo)) == (0, 0): return total
        if segs:
            for s in st.segs:
                if s[0] == b and s[1] == lo:
                    l, _ = I.bounds(st, lsub(hi, s[2]))
                    if l is not None and l >= 0:
                        return ladd(ladd(total, self.segnl(I, st, s)), self.nl(I, st, b, s[2], hi))
            # a segment that ends here
            for s in st.segs:
                if s[0] == b and s[2] == hi:
                    l, _ = I.bounds(st, lsub(s[1], lo))
                    if l is not None and l >= 0:
                        return ladd(ladd(total, self.segnl(I, st, s)), self.nl(I, st, b, lo, s[1]))
            for s in st.segs:
                # inside of a segment without newlines
                if s[0] == b and self.segnl(I, st, s) == 0:
                    l, _ = I.bounds(st, lsub(lo, s[1])); h, _ = I.bounds(st, lsub(s[2], hi))
                    if l is not None and l >= 0 and h is not None and h >= 0: return total
        return ladd(total, atom(('nl', b, lo, hi)))
    def segnl(self, I, st, s):
        b, lo, hi, k, info = s
        if k == 'key': return 0
        if k == 're':
            r = rx.parse(info)
            ok = True
            for x in r.nfa.e:
                for l, _ in x:
                    if l and l != 'eos' and rx.inset(10, l): ok = False
            if ok: return 0
        if k == 'set':
            if not rx.inset(10, info): return 0
        return self.nl(I, st, b, lo, hi, False)

    # -- contracts of the other parsing functions
    def install(self, I, target, keep=(), havoc=True):
        P = self.P
        for iid, (inst, o) in self.nts.items():
            if iid == target['id'] or iid in keep: continue
            if iid in self.inline: continue
            if self.printable(o): I.cuts[iid] = self.contract(inst, o)
            elif self.P.is_str(self.P.peel(o)) and self.keylike(inst): I.cuts[iid] = self.contract(inst, o)
        if havoc:
            for i in P.insts.values():
                if not i['local'] or 'bbs' not in i or i['kind'] != 'item' or i['id'] in I.cuts or i['id'] == target['id'] or i['id'] in self.nts or i['id'] in keep: continue
                if self.opaque(i): I.cuts[i['id']] = self.havoc(i)
        for i in self.counters():
            if i['id'] != target['id']: I.cuts[i['id']] = self.count_lines
        I.disp_hook = self.disp_hook
    def opaque(self, i):
        """functions whose effect a check of the grammar does not look into: of the map, of a stored value, of the names of tables, validity of dates"""
        P = self.P; ts = i['locals'][1:i['argc'] + 1]
        if any(self.ismap(t) for t in ts) or self.isregister(i): return True
        r = P.T(i['locals'][0])
        if r['k'] == 'bool' or P.is_str(i['locals'][0]):
            if any(self.names(t, '::TableType') for t in ts): return True
        if r['k'] == 'bool' and any(P.T(t)['k'] == 'ref' and inner(P, P.T(t)['e'])[1] == ['RefCell', 'Vec'] and P.is_str(inner(P, P.T(t)['e'])[0]) for t in ts): return True
        if r['k'] == 'bool' and i['argc'] == 1 and any(self.names(ts[0], x) for x in ('::DateTime', '::Date', '::Time', '::TOMLValue')): return True
        return False
    def names(self, ty, n):
        t = self.P.T(inner(self.P, self.P.peel(ty))[0])
        return t['k'] == 'adt' and t['name'].endswith(n)
    def isregister(self, i):
        """stores a parsed value in the map"""
        P = self.P; ts = i['locals'][1:i['argc'] + 1]
        if not any(P.T(t)['k'] == 'ref' and P.T(t)['e'] == self.pty for t in ts): return False
        for t in ts:
            e, w = inner(P, t)
            if w == ['Rc', 'RefCell'] and self.names(e, '::TOMLValue'): return True
        return False
    def ismap(self, ty):
        t = self.P.T(ty)
        if t['k'] != 'ref': return False
        t = self.P.T(t['e'])
        if t['k'] != 'adt' or t['name'] != 'std::cell::RefCell': return False
        t = self.P.T(t['args'][0])
        if t['k'] != 'ref': return False
        t = self.P.T(t['e'])
        return t['k'] == 'adt' and 'HashMap' in t['name']
    def snap(self, I, st, a):
        """what an argument is or points to now"""
        for _ in range(6):
            if a[0] != 'ref': break
            try: a = I.load(st, a)
            except (Unk, KeyError): break
        return a
    def havoc(self, i):
        nm = self.name(i)
        def h(I, st, inst, args, destty):
            s = st.copy(); k = s.misc.get('hv', 0); s.misc['hv'] = k + 1
            s.log += (('call', nm, tuple(args), tuple(self.snap(I, s, a) for a in args), k),)
            return [Out('ret', s, I.mk(('helper', nm, k), inst['locals'][0]))]
        return h
    def count_lines(self, I, st, inst, args, destty):
        v = args[0]
        if v[0] != 'str': v = I.load(st, v)
        n = 0
        for p in v[1]:
            if p[0] == 'lit': n = ladd(n, p[1].count('\n'))
            elif p[0] == 'sl': n = ladd(n, self.nl(I, st, p[1], p[2], p[3]))
            else: raise Unk('count_lines of ' + p[0])
        return [Out('ret', st, n)]
    def disp_hook(self, st, prov): return st.exp.get(('ntprint', prov))

    def at(self, p):
        """short name of a position (positions are sums of the lengths before them and would nest without bound)"""
        if not hasattr(self, '_at'): self._at = {}
        return self._at.setdefault(p, len(self._at))
    def contract(self, inst, o):
        P = self.P; nm = self.name(inst)
        e, w = inner(P, o); isstr = P.is_str(P.peel(o))
        def h(I, st, inst_, args, destty):
            pv, inp = args
            if inp[0] != 'str': inp = I.load(st, inp)
            if inp[1] == (): inp = ('str', (('sl', 'INPUT', atom(('len', 'INPUT')), atom(('len', 'INPUT'))),))      # the end of the text
            if len(inp[1]) != 1 or inp[1][0][0] != 'sl': raise Unk('input of ' + nm + show(inp))
            _, b, p, end = inp[1][0]
            if pv[0] == 'sym': pv = I.expand(st, pv)
            rty = P.T(destty or inst['locals'][0])['f'][1]
            irt = P.T(rty)
            key = ('nt', nm, b, p)
            known = st.exp.get(key)
            out = []
            done = [i for i, v in enumerate(irt['v']) if v[0] == 'Done'][0]
            err = [i for i, v in enumerate(irt['v']) if v[0] == 'Error'][0]
            for n in ((0, 1, 2) if 'Vec' in w else (None,)):
                if known is not None and known != ('done', n): continue
                s = st.copy(); s.exp[key] = ('done', n)
                if known is None: s.note('reads', nm, b, p, n)
                cuts = [p]
                for i in range(1 if n is None else n):
                    g = atom(('gap', (nm, self.at(p), i)))
                    cuts.append(ladd(cuts[-1], g))
                q = cuts[-1]
                if n is None and (isstr or inst['id'] in self.nonempty) and not I.refine(s, lsub(q, p), 1, None): continue
                if not I.refine(s, lsub(end, q), 0, None): continue
                if not self.starts(I, s, b, p, q, self.first.get(inst['id'])): continue
                if isstr:
                    val = ('str', norm_parts((('sl', b, p, q),))); xs = [val]
                    if not I.refine(s, lsub(q, p), 1, None): continue
                elif n is None:
                    val = I.mk(('nt', nm, self.at(p)), o); xs = [val]
                else:
                    xs = [I.mk(('nt', nm, self.at(p), i), e if w == ['Vec'] else P.T(o)['args'][0]) for i in range(n)]
                    val = ('vec', tuple(xs))
                for i, x in enumerate(xs):
                    if isstr: s.segs += ((b, p, q, 'key', nm),); continue
                    prov = self.leafprov(I, s, x)
                    s.exp[('ntprint', prov)] = (('sl', b, cuts[i], cuts[i + 1]),)
                    s.segs += ((b, cuts[i], cuts[i + 1], 'key' if inst['id'] in self.nonl else 'nt', nm),)
                pv2 = pv
                if self.hasfield('line_count') and not isstr and inst['id'] not in self.nonl:
                    lc = self.field(pv, 'line_count')
                    if lc[0] == 'cell' and is_int(lc[1]):
                        add = 0
                        for i in range(len(cuts) - 1): add = ladd(add, atom(('nl', b, cuts[i], cuts[i + 1])))
                        pv2 = self.setfield(pv2, 'line_count', ('cell', ladd(lc[1], add)))
                if (isstr or self.iskey(o)) and self.hasfield('keychain'):
                    kc = self.field(pv2, 'keychain')
                    if kc[0] == 'cell' and kc[1][0] == 'vec':
                        kt = P.T(P.T(self.ftype('keychain'))['args'][0])['args'][0]
                        ki = [i for i, v in enumerate(P.T(kt)['v']) if v[0] == 'Str'][0]
                        new = tuple(('adt', kt, ki, (xs[i] if isstr else buf(('key', nm, self.at(p), i)),)) for i in range(len(xs)))
                        pv2 = self.setfield(pv2, 'keychain', ('cell', ('vec', kc[1][1] + new)))
                s.log += (('nt', nm, b, p, q, pv, pv2),)
                out.append(Out('ret', s, ('tup', (pv2, ('adt', rty, done, (('str', norm_parts((('sl', b, q, end),))), val))))))
            can = self.failing.get(inst['id'], ('Error',))
            for vi, (vn, _, fs) in enumerate(irt['v']):
                if vn not in can: continue
                if known is not None and known != vn: continue
                s = st.copy(); s.exp[key] = vn
                if known is None: s.note('does not read', nm, b, p)
                pv2 = pv
                if inst['id'] in self.miscount and self.jfirst.get(inst['id']) is not None:
                    # lines are left counted only in front of certain characters
                    s2 = s.copy()
                    s2.log += (('ntfail', nm, b, p, vn, pv),)
                    out.append(Out('ret', s2, ('tup', (pv2, ('adt', rty, vi, tuple(I.mk(('nterr', nm, self.at(p), f[0]), f[1]) for f in fs))))))
                    if not I.refine(s, lsub(end, p), 1, None) or not self.starts(I, s, b, p, end, self.jfirst[inst['id']]): continue
                if inst['id'] in self.miscount and self.hasfield('line_count'):
                    lc = self.field(pv, 'line_count')
                    if lc[0] == 'cell' and is_int(lc[1]): pv2 = self.setfield(pv, 'line_count', ('cell', ladd(lc[1], atom(('junk', nm, self.at(p))))))
                s.log += (('ntfail', nm, b, p, vn, pv),)
                out.append(Out('ret', s, ('tup', (pv2, ('adt', rty, vi, tuple(I.mk(('nterr', nm, self.at(p), f[0]), f[1]) for f in fs))))))
            return out
        return h
    def starts(self, I, s, b, p, q, fs):
        """assume that the text from p to q, unless empty, starts with one of fs: False if that cannot be"""
        if fs is None: return True
        lo, _ = I.bounds(s, lsub(q, p))
        known = s.text.get((b, p)); f0 = s.exp.get(('firstset', b, p))
        clash = known is not None and not rx.inset(ord(known[0]), fs) or f0 is not None and not rx.inter(fs, f0)
        if clash: return lo is not None and lo <= 0 and I.refine(s, lsub(q, p), 0, 0)
        if lo is not None and lo >= 1: s.exp[('firstset', b, p)] = fs if f0 is None else rx.inter(fs, f0)
        return True
    def firstof(self, I, st, b, p, q, depth=8):
        """characters the text from p to q (if not empty) starts with; None if unknown"""
        if I.bounds(st, lsub(q, p)) == (0, 0): return ()
        t = st.text.get((b, p))
        if t: return ((ord(t[0]), ord(t[0])),)
        f = st.exp.get(('firstset', b, p))
        if f is not None: return f
        if not depth: return None
        best = None
        for s in st.segs:
            if s[0] != b or s[1] != p: continue
            if I.bounds(st, lsub(s[2], p)) == (0, 0): continue
            if s[3] == 're': r = rx.parse(s[4]).firstset()
            elif s[3] == 'set': r = s[4]
            else:
                r = [self.first.get(i['id']) for i, o in self.nts.values() if self.name(i) == s[4]]
                r = r[0] if r else None
            if r is None: continue
            lo, _ = I.bounds(st, lsub(s[2], p))
            if lo is None or lo < 1:
                r2 = self.firstof(I, st, b, s[2], q, depth - 1)
                if r2 is None: continue
                r = rx.norm(list(r) + list(r2))
            if best is None or len(r) < len(best): best = r
        return best
    def ftype(self, n):
        for f in self.P.T(self.pty)['v'][0][2]:
            if f[0] == n: return f[1]
        raise Unk('parser field ' + n)
    def leaf(self, I, st, x):
        """the printed value inside of Rc and RefCell"""
        for _ in range(6):
            if x[0] == 'rc': x = I.load(st, ('ref', x[1], ()))
            elif x[0] == 'cell': x = x[1]
            elif x[0] == 'box': x = I.load(st, ('ref', x[1], ()))
            else: break
        return x
    def leafprov(self, I, st, x):
        x = self.leaf(I, st, x)
        if x[0] != 'sym': raise Unk('contract value')
        return x[1]
    def text(self, I, st, x, ety):
        """printed text of an output: [(state, parts)]"""
        x = self.leaf(I, st, x)
        if x[0] == 'vec':
            cur = [(st, ())]
            for y in x[1]:
                nx = []
                for s, acc in cur: nx += [(s2, acc + t) for s2, t in self.text(I, s, y, ety)]
                cur = nx
            return [(s, norm_parts(t)) for s, t in cur]
        s = st.copy(); a = s.alloc(x)
        out = []
        for o in I.display(s, ('ref', a, ()), ety, None):
            if o.kind == 'panic': raise Unk('printing panics')
            if o.kind != 'ret': raise Unk('printing undecided: %s' % (o.info,))
            out.append((o.st, o.val))
        return out

    def covers(self, I, st, parts, b, p, q):
        """do the parts spell the input from p to q?  None or what differs"""
        parts = list(parts); pos = p
        todo = list(parts)
        while todo:
            x = todo.pop(0)
            if x[0] == 'sl' and x[1] == b:
                if I.bounds(st, lsub(x[3], x[2])) == (0, 0): continue
                if I.bounds(st, lsub(x[2], pos)) != (0, 0):
                    return 'text of the input from %s is printed where the text from %s was' % (show(x[2]), show(pos))
                pos = x[3]; continue
            if x[0] == 'lit':
                t = self.textat(I, st, b, pos, x[1])
                if t is None:
                    return '%r is printed where the input has %s' % (x[1], self.what(I, st, b, pos, q))
                pos = ladd(pos, len(t.encode('utf8')))
                if len(t) < len(x[1]): todo.insert(0, ('lit', x[1][len(t):]))
                continue
            return 'printed part %s is not text of the input' % showpart(x)
        if I.bounds(st, lsub(pos, q)) != (0, 0): return 'the text read from %s to %s is not printed' % (show(pos), show(q))
        return None
    def textat(self, I, st, b, pos, t):
        """longest part of t the input is known to have here"""
        for (b2, q), k in st.text.items():
            if b2 != b: continue
            d = lsub(pos, q); lo, hi = I.bounds(st, d)
            if lo is None or lo != hi or lo < 0: continue
            kb = k.encode('utf8')
            if lo >= len(kb): continue
            rest = kb[lo:].decode('utf8', 'replace')
            n = 0
            while n < len(rest) and n < len(t) and rest[n] == t[n]: n += 1
            if n == len(t) or n == len(rest): return t[:n]
            return None
        return None
    def what(self, I, st, b, pos, q):
        for (b2, p), k in st.text.items():
            if b2 == b and I.bounds(st, lsub(pos, p)) == (0, 0): return repr(k)
        return 'text from %s to %s' % (show(pos), show(q))

    def run(self, inst, setup=None, keep=(), havoc=True, forks=6, budget=400000, world=None, **fields):
        """(interp, outs): all paths of one parsing function"""
        I = Interp(self.P, forks=forks, budget=budget)
        I.predsets = True
        self.install(I, inst, keep, havoc)
        if setup: setup(I)
        st, pv = self.start(I, inst, world, **fields)
        ctx = self.ctx
        ctx.count('functions analysed as entry')
        inp = ('str', (('sl', 'INPUT', atom(('sym', 'from', self.usize())), atom(('len', 'INPUT'))),))
        I.refine(st, lsub(atom(('len', 'INPUT')), atom(('sym', 'from', self.usize()))), 0, None)
        self.p0 = inp[1][0][2]
        try: outs = I.call(st, inst, [pv, inp])
        except Bound as u:
            ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1; outs = []
        ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
        ctx.absorb(I)
        return I, pv, outs
    def usize(self):
        for k, t in self.P.types.items():
            if t['k'] == 'int' and not t['s'] and t['b'] == 64: return k
        raise Unk('usize')
    def result(self, o):
        """(parser value, variant name, fields) of an outcome"""
        pv, r = o.val[1]
        if r[0] == 'sym': raise Unk('result')
        return pv, self.P.T(r[1])['v'][r[2]][0], r[3]
