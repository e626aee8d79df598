"""Regular expressions of the analysed source as automata over character
intervals: structure queries for the interpreter, language comparison for the
lexical checks.  Dialect: the regex crate (leftmost first, Unicode)."""
import functools, unicodedata
MAXC = 0x10ffff

class Unsupported(Exception):
    pass

def norm(ivs):
    out = []
    for l, h in sorted(ivs):
        if l > h: continue
        if out and l <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], h))
        else: out.append((l, h))
    return tuple(out)
def negate(ivs):
    out = []; p = 0
    for l, h in norm(ivs):
        if p < l: out.append((p, l - 1))
        p = h + 1
    if p <= MAXC: out.append((p, MAXC))
    return tuple(out)
def inter(a, b):
    return norm([(max(l, l2), min(h, h2)) for l, h in a for l2, h2 in b if max(l, l2) <= min(h, h2)])
def inset(c, ivs): return any(l <= c <= h for l, h in ivs)

@functools.lru_cache(None)
def unicat(k):
    """intervals of characters whose general category starts with k"""
    out = []; st = None
    for c in range(MAXC + 2):
        ok = c <= MAXC and not (0xd800 <= c <= 0xdfff) and unicodedata.category(chr(c)).startswith(k)
        if ok and st is None: st = c
        if not ok and st is not None: out.append((st, c - 1)); st = None
    return tuple(out)
def perl(c):
    if c in 'dD': s = unicat('Nd')
    elif c in 'sS': s = norm([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])
    else: s = norm(list(unicat('L')) + list(unicat('M')) + list(unicat('Nd')) + list(unicat('Pc')) + [(0x200c, 0x200d)])
    return negate(s) if c.isupper() else s

# AST: ('set', ivs) ('cat', [..]) ('alt', [..]) ('rep', x, lo, hi, greedy) ('grp', n, x) ('bos',) ('eos',)
class Parser:
    def __init__(self, s):
        self.s = s; self.i = 0; self.n = 0; self.flags = ''
    def peek(self): return self.s[self.i] if self.i < len(self.s) else None
    def alt(self):
        xs = [self.cat()]
        while self.peek() == '|':
            self.i += 1; xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt', xs)
    def cat(self):
        xs = []
        while self.peek() not in (None, '|', ')'): xs.append(self.rep())
        return xs[0] if len(xs) == 1 else ('cat', xs)
    def rep(self):
        x = self.atom()
        while True:
            c = self.peek()
            if c == '*': lo, hi = 0, None
            elif c == '+': lo, hi = 1, None
            elif c == '?': lo, hi = 0, 1
            elif c == '{':
                j = self.s.index('}', self.i); b = self.s[self.i+1:j]; self.i = j
                if ',' in b:
                    p, q = b.split(','); lo = int(p or 0); hi = int(q) if q else None
                else: lo = hi = int(b)
            else: return x
            self.i += 1
            g = True
            if self.peek() == '?': g = False; self.i += 1
            x = ('rep', x, lo, hi, g)
    def esc(self, incls=False):
        c = self.s[self.i]; self.i += 1
        m = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7}
        if c in m: return ((m[c], m[c]),)
        if c in 'dDsSwW': return perl(c)
        if c == 'x':
            if self.peek() == '{':
                j = self.s.index('}', self.i); v = int(self.s[self.i+1:j], 16); self.i = j + 1
            else: v = int(self.s[self.i:self.i+2], 16); self.i += 2
            return ((v, v),)
        if c == 'u' or c == 'U':
            if self.peek() == '{':
                j = self.s.index('}', self.i); v = int(self.s[self.i+1:j], 16); self.i = j + 1
            else:
                k = 4 if c == 'u' else 8
                v = int(self.s[self.i:self.i+k], 16); self.i += k
            return ((v, v),)
        if c.isalnum(): raise Unsupported('escape \\' + c)
        return ((ord(c), ord(c)),)
    def cls(self):
        neg = False; out = []
        if self.peek() == '^': neg = True; self.i += 1
        first = True
        while True:
            c = self.peek()
            if c is None: raise Unsupported('class')
            if c == ']' and not first: self.i += 1; break
            first = False
            if c == '[':
                if self.s.startswith('[:', self.i):
                    j = self.s.index(':]', self.i); nm = self.s[self.i+2:j]; self.i = j + 2
                    ng = nm.startswith('^'); nm = nm.lstrip('^')
                    tab = {'digit': [(48, 57)], 'alpha': [(65, 90), (97, 122)], 'alnum': [(48, 57), (65, 90), (97, 122)], 'upper': [(65, 90)],
                           'lower': [(97, 122)], 'xdigit': [(48, 57), (65, 70), (97, 102)], 'space': [(9, 13), (32, 32)], 'blank': [(9, 9), (32, 32)],
                           'cntrl': [(0, 31), (127, 127)], 'punct': [(33, 47), (58, 64), (91, 96), (123, 126)], 'print': [(32, 126)], 'graph': [(33, 126)], 'word': [(48, 57), (65, 90), (95, 95), (97, 122)]}
                    if nm not in tab: raise Unsupported('class ' + nm)
                    out += list(negate(tab[nm]) if ng else tab[nm]); continue
            self.i += 1
            if c == '\\': a = self.esc(True)
            else: a = ((ord(c), ord(c)),)
            if self.peek() == '-' and self.i + 1 < len(self.s) and self.s[self.i+1] != ']' and len(a) == 1 and a[0][0] == a[0][1]:
                self.i += 1
                d = self.s[self.i]; self.i += 1
                b = self.esc(True) if d == '\\' else ((ord(d), ord(d)),)
                out.append((a[0][0], b[0][1]))
            else: out += list(a)
        out = norm(out)
        return ('set', negate(out) if neg else out)
    def atom(self):
        c = self.s[self.i]; self.i += 1
        if c == '(':
            grp = True
            if self.s.startswith('?:', self.i): self.i += 2; grp = False
            elif self.s.startswith('?P<', self.i): self.i = self.s.index('>', self.i) + 1
            elif self.peek() == '?': raise Unsupported('group flags')
            if grp: self.n += 1; k = self.n
            x = self.alt()
            if self.peek() != ')': raise Unsupported('paren')
            self.i += 1
            return ('grp', k, x) if grp else x
        if c == '[': return self.cls()
        if c == '.': return ('set', negate([(10, 10)]) if 's' not in self.flags else ((0, MAXC),))
        if c == '^': return ('bos',)
        if c == '$': return ('eos',)
        if c == '\\':
            d = self.peek()
            if d == 'z': self.i += 1; return ('eos',)
            if d == 'A': self.i += 1; return ('bos',)
            if d in ('b', 'B'): raise Unsupported('word boundary')
            return ('set', self.esc())
        return ('set', ((ord(c), ord(c)),))
    def top(self):
        while self.s.startswith('(?') and self.s[2:3].isalpha() and ')' in self.s:
            j = self.s.index(')'); f = self.s[2:j]
            if f.strip('su'): raise Unsupported('flags ' + f)
            self.flags += f; self.s = self.s[j+1:]
        x = self.alt()
        if self.i != len(self.s): raise Unsupported('trailing ' + self.s[self.i:])
        return x

# ------------------------------------------------------------------ automata
class NFA:
    """edges: state -> [(ivs or None, state)] in priority order; None = epsilon; 'eos' supported as a label"""
    def __init__(self):
        self.e = []; self.start = None; self.acc = None
    def new(self):
        self.e.append([]); return len(self.e) - 1

def compile_(ast):
    n = NFA()
    def go(x, a, b):
        k = x[0]
        if k == 'set': n.e[a].append((x[1], b))
        elif k == 'cat':
            cur = a
            for y in x[1][:-1]:
                m = n.new(); go(y, cur, m); cur = m
            if x[1]: go(x[1][-1], cur, b)
            else: n.e[a].append((None, b))
        elif k == 'alt':
            for y in x[1]:
                m = n.new(); n.e[a].append((None, m)); go(y, m, b)
        elif k == 'grp': go(x[2], a, b)
        elif k == 'rep':
            _, y, lo, hi, g = x
            cur = a
            for _ in range(lo):
                m = n.new(); go(y, cur, m); cur = m
            if hi is None:
                l = n.new(); n.e[cur].append((None, l))
                body = n.new()
                ed = [(None, body), (None, b)]
                n.e[l] += ed if g else ed[::-1]
                go(y, body, l)
            else:
                for _ in range(hi - lo):
                    body = n.new(); m = n.new()
                    ed = [(None, body), (None, b)]
                    n.e[cur] += ed if g else ed[::-1]
                    go(y, body, m); cur = m
                n.e[cur].append((None, b))
        elif k == 'bos': n.e[a].append((None, b))
        elif k == 'eos': n.e[a].append(('eos', b))
        else: raise Unsupported(k)
    n.start = n.new(); n.acc = n.new()
    go(ast, n.start, n.acc)
    return n

def closure(n, states, eos=False):
    """ordered epsilon closure"""
    out = []; seen = set()
    def go(s):
        st = [s]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x); out.append(x)
            for l, t in reversed(n.e[x]):
                if l is None or (eos and l == 'eos'): st.append(t)
    for s in states: go(s)
    return out

class DFA:
    """complete over a partition of the characters; trans[s][k], classes = list of intervals"""
    pass

def boundaries(nfas):
    pts = {0}
    for n in nfas:
        for es in n.e:
            for l, _ in es:
                if l and l != 'eos':
                    for a, b in l: pts.add(a); pts.add(b + 1)
    return sorted(p for p in pts if p <= MAXC)

def dfa(n, pts):
    d = DFA(); d.pts = pts
    st = frozenset(closure(n, [n.start]))
    d.ids = {st: 0}; d.tr = []; d.acc = []; work = [st]
    while work:
        s = work.pop(0)
        row = []
        full = closure(n, list(s), True)
        d.acc.append(n.acc in full)
        for p in pts:
            t = set()
            for x in s:
                for l, y in n.e[x]:
                    if l and l != 'eos' and inset(p, l): t.add(y)
            t = frozenset(closure(n, t))
            if t not in d.ids: d.ids[t] = len(d.ids); work.append(t)
            row.append(d.ids[t])
        d.tr.append(row)
    return d

class Regex:
    def __init__(self, pat):
        self.pat = pat
        p = Parser(pat)
        self.ast = p.top(); self.ngroups = p.n
        self.nfa = compile_(self.ast)
        self.anchored = self._anch(self.ast)
        self.minlen, self.maxlen = self._len(self.ast)
        self.nullable = self.minlen == 0
    def _anch(self, x):
        k = x[0]
        if k == 'bos': return True
        if k == 'cat': return bool(x[1]) and self._anch(x[1][0])
        if k == 'alt': return all(self._anch(y) for y in x[1])
        if k == 'grp': return self._anch(x[2])
        if k == 'rep': return x[2] > 0 and self._anch(x[1])
        return False
    def _len(self, x):
        """byte lengths"""
        k = x[0]
        if k == 'set':
            if not x[1]: return (1, 0)
            f = lambda c: 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4
            return f(x[1][0][0]), f(x[1][-1][1])
        if k == 'cat':
            lo = hi = 0
            for y in x[1]:
                a, b = self._len(y); lo += a; hi = None if hi is None or b is None else hi + b
            return lo, hi
        if k == 'alt':
            r = [self._len(y) for y in x[1]]
            return min(a for a, _ in r), None if any(b is None for _, b in r) else max(b for _, b in r)
        if k == 'grp': return self._len(x[2])
        if k == 'rep':
            a, b = self._len(x[1])
            return a * x[2], 0 if x[3] == 0 or b == 0 else (None if x[3] is None or b is None else b * x[3])
        return 0, 0
    def firstset(self):
        """characters a non-empty match may start with"""
        out = []
        for s in closure(self.nfa, [self.nfa.start]):
            for l, _ in self.nfa.e[s]:
                if l and l != 'eos': out += list(l)
        return norm(out)
    def _fix(self, x, rev):
        """literal every match starts (ends) with, and whether it is the whole"""
        k = x[0]
        if k == 'set':
            if len(x[1]) == 1 and x[1][0][0] == x[1][0][1]: return chr(x[1][0][0]), True
            return '', False
        if k in ('bos', 'eos'): return '', True
        if k == 'grp': return self._fix(x[2], rev)
        if k == 'cat':
            s = ''
            for y in (x[1][::-1] if rev else x[1]):
                t, w = self._fix(y, rev)
                s = t + s if rev else s + t
                if not w: return s, False
            return s, True
        if k == 'alt':
            r = [self._fix(y, rev) for y in x[1]]
            if all(w for _, w in r) and len({t for t, _ in r}) == 1: return r[0]
            ts = [t for t, _ in r]
            n = 0
            while all(len(t) > n for t in ts) and len({t[-1-n] if rev else t[n] for t in ts}) == 1: n += 1
            return (ts[0][len(ts[0])-n:] if rev else ts[0][:n]), False
        if k == 'rep':
            t, w = self._fix(x[1], rev)
            if x[2] == 0: return '', x[3] == 0
            if w: return t * x[2], x[3] == x[2]
            return t, False
        return '', False
    def prefix(self): return self._fix(self.ast, False)[0]
    def suffix(self): return self._fix(self.ast, True)[0]
    def match(self, s):
        """leftmost-first match of an anchored expression: end or None"""
        n = self.nfa
        threads = closure(n, [n.start], len(s) == 0)
        best = None
        for i in range(len(s) + 1):
            if n.acc in threads:
                k = threads.index(n.acc); best = i; threads = threads[:k]
            if i == len(s) or not threads: break
            c = ord(s[i]); nx = []
            for x in threads:
                for l, y in n.e[x]:
                    if l and l != 'eos' and inset(c, l) and y not in nx: nx.append(y)
            threads = closure(n, nx, i + 1 == len(s))
        return best
    def groups(self):
        """[(bytes before, bytes after, always)] per group; None when not fixed"""
        res = {}
        def go(x, pre, post, always):
            k = x[0]
            if k == 'grp':
                res[x[1]] = (pre, post, always); go(x[2], pre, post, always)
            elif k == 'cat':
                ls = [self._len(y) for y in x[1]]
                for i, y in enumerate(x[1]):
                    a = pre; b = post
                    for lo, hi in ls[:i]: a = None if a is None or lo != hi else a + lo
                    for lo, hi in ls[i+1:]: b = None if b is None or lo != hi else b + lo
                    go(y, a, b, always)
            elif k == 'alt':
                for y in x[1]: go(y, pre, post, False)
            elif k == 'rep': go(x[1], None, None, always and x[2] > 0)
        go(self.ast, 0, 0, True)
        return [res.get(i, (None, None, False)) for i in range(1, self.ngroups + 1)]

@functools.lru_cache(None)
def parse(pat):
    return Regex(pat)

def difference(p, q):
    """shortest witness in exactly one of the two languages: (text, in_p) or None.
    p, q: Regex or NFA (full match semantics)"""
    a = p.nfa if isinstance(p, Regex) else p
    b = q.nfa if isinstance(q, Regex) else q
    pts = boundaries([a, b])
    ends = pts[1:] + [MAXC + 1]
    rep = []
    for l, h in zip(pts, ends):
        c = l
        for k in range(l, min(h, l + 128)):
            if 33 <= k <= 126: c = k; break
        rep.append(c)
    skip = [0xd800 <= c <= 0xdfff for c in rep]
    da, db = dfa(a, pts), dfa(b, pts)
    seen = {(0, 0): None}; work = [(0, 0)]
    while work:
        x = work.pop(0)
        if da.acc[x[0]] != db.acc[x[1]]:
            s = []; y = x
            while seen[y] is not None:
                y, c = seen[y]; s.append(chr(c))
            return ''.join(reversed(s)), da.acc[x[0]]
        for i in range(len(pts)):
            if skip[i]: continue
            y = (da.tr[x[0]][i], db.tr[x[1]][i])
            if y not in seen: seen[y] = (x, rep[i]); work.append(y)
    return None
