"""Evaluating the facts of an abstract path on members of a finite partition of
component texts.  Used to compare decision tables; nothing of the program runs."""
import re
from .core import *
from . import rx

class Unknown(Exception):
    pass

def btext(s, a, b):
    return s.encode('utf8')[a:b].decode('utf8', 'surrogateescape')

class Facts:
    def __init__(self, I, st, provs, ctxkeys=()):
        """provs: text buffers with values to be supplied; facts over other things are kept as unknown unless listed"""
        self.I = I; self.st = st; self.provs = set(provs)
        self.collect()
    def collect(self):
        st = self.st
        self.byset = {}       # frozenset(provs) -> [fn(assign)->bool]
        self.unknown = []
        for dr, (lo, hi) in st.iv.items():
            self.add(dr, lambda a, dr=dr, lo=lo, hi=hi: self.ivok(dr, lo, hi, a), (lo, hi))
        for k, v in st.exp.items():
            if isinstance(k, tuple) and k and k[0] in ('ne', 'allin', 'isnum', 'notpfx', 'starts_with', 'ends_with', 'contains', 're', 'firstset'):
                self.add(k, lambda a, k=k, v=v: self.expok(k, v, a), v)
            elif self.mentioned(k) and not self.isshape(k):
                self.unknown.append(k)
        for k, v in st.eq.items():
            if isinstance(k, frozenset):
                self.add(tuple(k), lambda a, k=k, v=v: self.eqok(k, v, a), v)
        for (b, pos), t in st.text.items():
            if b in self.provs: self.add((b, pos), lambda a, b=b, pos=pos, t=t: a[b].encode('utf8')[self.ev(pos, a):].startswith(t.encode('utf8')), t)
    def isshape(self, k):
        return isinstance(k, tuple) and k and k[0] in ('.', '*')
    def mentioned(self, x):
        out = set()
        def go(y):
            if isinstance(y, (tuple, frozenset)):
                try:
                    if y in self.provs: out.add(y); return
                except TypeError: pass
                for z in y: go(z)
            elif isinstance(y, str) and y in self.provs: out.add(y)
        go(x)
        return frozenset(out)
    def add(self, key, fn, val=None):
        m = self.mentioned(key)
        if m: self.byset.setdefault(m, []).append((repr((key, val)), fn))
    # evaluation
    def ev(self, x, a):
        t, c = lterms(x)
        return c + sum(k * self.atom(y, a) for y, k in t.items())
    def atom(self, y, a):
        k = y[0]
        if y in a and isinstance(a[y], int): return a[y]
        if k == 'len': return len(self.txt_of(y[1], a).encode('utf8'))
        if k == 'numval':
            t = self.text(y[1], a)
            if not re.fullmatch(r'[+-]?[0-9]+', t): raise Unknown()
            return int(t)
        if k == 'mod': return self.ev(y[1], a) % y[2]
        if k == 'div': return self.ev(y[1], a) // y[2]
        if k == 'plen': return len(self.text((y[1],), a).encode('utf8'))
        if k == 'gap':
            key = y[1]
            if key[0] == 'm':
                t = btext(self.txt_of(key[2], a), self.ev(key[3], a), None)
                m = rx.parse(key[1]).match(t)
                if m is None: raise Unknown()
                return len(t[:m].encode('utf8'))
        raise Unknown()
    def txt_of(self, p, a):
        if p in a: return a[p]
        raise Unknown()
    def text(self, parts, a):
        out = ''
        for p in parts:
            if p[0] == 'lit': out += p[1]
            elif p[0] == 'sl': out += btext(self.txt_of(p[1], a), self.ev(p[2], a), self.ev(p[3], a))
            elif p[0] == 'num': out += str(self.ev(p[1], a))
            elif p[0] == 'chr': out += chr(self.ev(p[1], a))
            elif p[0] == 'pad':
                sp = dict(p[1]); t = self.text(p[2], a)
                if set(sp) == {'fill', 'w'}: out += t.rjust(int(sp['w']), sp['fill'])
                else: raise Unknown()
            elif p[0] in ('to_lowercase', 'to_ascii_lowercase'): out += self.text(p[1], a).lower()
            elif p[0] in ('to_uppercase', 'to_ascii_uppercase'): out += self.text(p[1], a).upper()
            elif p[0] == 'trim': out += self.text(p[1], a).strip()
            else: raise Unknown()
        return out
    def holds(self, a):
        for m, fs in self.byset.items():
            for k, f in fs:
                if not f(a): return False
        return True
    def ivok(self, dr, lo, hi, a):
        v = sum(k * self.atom(y, a) for y, k in dr)
        return (lo is None or v >= lo) and (hi is None or v <= hi)
    def expok(self, k, v, a):
        if k[0] == 'ne': return (sum(c * self.atom(y, a) for y, c in k[1]) != k[2]) == v
        if k[0] == 'allin': return all(any(l <= ord(c) <= h for l, h in k[2]) for c in self.text(k[1], a)) == v
        if k[0] == 'isnum':
            t = self.text(k[1], a); ok = bool(re.fullmatch(r'\+?[0-9]+', t)) and int(t) < 2 ** k[2]
            return ok == v
        if k[0] == 'notpfx':
            return (not btext(self.txt_of(k[1], a), self.ev(k[2], a), None).startswith(k[3])) == v
        if k[0] == 'firstset':
            t = btext(self.txt_of(k[1], a), self.ev(k[2], a), None)
            return bool(t) and any(l <= ord(t[0]) <= h for l, h in v)
        if k[0] == 're':
            key = k[1]; t = btext(self.txt_of(key[2], a), self.ev(key[3], a), None)
            return (rx.parse(key[1]).match(t) is not None) == v
        if k[0] in ('starts_with', 'ends_with', 'contains'):
            x = self.text(k[1], a); y = k[2]
            if isinstance(y, tuple) and y and isinstance(y[0], tuple) and y[0][0] in ('lit', 'sl'): y = self.text(y, a)
            elif isinstance(y, tuple):
                f = lambda c: any(l <= ord(c) <= h for l, h in y)
                r = bool(x) and (f(x[0]) if k[0] == 'starts_with' else f(x[-1]) if k[0] == 'ends_with' else any(map(f, x)))
                return r == v
            r = x.startswith(y) if k[0] == 'starts_with' else x.endswith(y) if k[0] == 'ends_with' else y in x
            return r == v
        raise Unknown()
    def eqok(self, k, v, a):
        k = list(k)
        if len(k) == 1: return v
        return (self.text(k[0], a) == self.text(k[1], a)) == v
    cache = {}
    def unary(self, prov, cands):
        """candidates of one text that satisfy every fact about it alone; raises Unknown"""
        fs = self.byset.get(frozenset([prov]), [])
        sat = set(cands); unk = set()
        ck = tuple(cands[:1] + cands[-3:]) + (len(cands),)
        for key, f in fs:
            r = self.cache.get((key, prov, ck))
            if r is None:
                ok = set(); u = set()
                for c in cands:
                    try:
                        if f({prov: c}): ok.add(c)
                    except Unknown: ok.add(c); u.add(c)
                r = self.cache[(key, prov, ck)] = (ok, u)
            sat &= r[0]; unk |= r[1]
        if sat & unk: raise Unknown()
        return [c for c in cands if c in sat]
    def relational(self):
        return [(m, fs) for m, fs in self.byset.items() if len(m) > 1]
