"""Regular languages of texts with marked places.

A path of a function that reads a text constrains that text at an ordered chain of places: from this place on this regular expression
matches up to the next place, this literal stands here, that literal does not, the text ends here.  Each constraint is a small
deterministic automaton that starts when its place is passed; a path is their product, with the places guessed; the last place (how
far the function reads) is visible.  Unions of paths are compared by subset construction: the result is either equality of the two
functions on all texts, or a shortest text they treat differently."""
from . import rx

class Chars:
    """partition of the characters into classes on which all constraints agree"""
    def __init__(self, sets):
        pts = {0, 0x80, 0x800, 0x10000, 0xd800, 0xe000}
        for ivs in sets:
            for l, h in ivs: pts.add(l); pts.add(h + 1)
        pts = sorted(p for p in pts if p <= rx.MAXC)
        self.rep = []
        for l, h in zip(pts, pts[1:] + [rx.MAXC + 1]):
            if 0xd800 <= l < 0xe000: continue
            c = l
            for k in range(l, min(h, l + 128)):
                if 33 <= k <= 126: c = k; break
            self.rep.append(c)
        self.width = [1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4 for c in self.rep]

def regex_sets(r):
    for es in r.nfa.e:
        for l, _ in es:
            if l and l != 'eos': yield l
def has_eos(r): return any(l == 'eos' for es in r.nfa.e for l, _ in es)

class Threads:
    """leftmost-first simulation of a regular expression from a fixed start; states are priority lists of threads, cut behind the
    accepting one; 'rec' says that a match would end here"""
    cache = {}
    def __init__(self, r):
        if has_eos(r): raise rx.Unsupported('end anchor')
        self.n = r.nfa; self.memo = {}
        self.start = self.cut(rx.closure(self.n, [self.n.start]))
    def cut(self, ts):
        if self.n.acc in ts: ts = ts[:ts.index(self.n.acc) + 1]
        # keep states that read something, and acceptance
        return tuple(t for t in ts if t == self.n.acc or any(l is not None for l, _ in self.n.e[t]))
    def rec(self, ts): return bool(ts) and ts[-1] == self.n.acc
    def step(self, ts, c):
        k = (ts, c); r = self.memo.get(k)
        if r is None:
            nx = []
            for x in ts:
                for l, y in self.n.e[x]:
                    if l and rx.inset(c, l) and y not in nx: nx.append(y)
            r = self.memo[k] = self.cut(rx.closure(self.n, nx))
        return r
def threads(r):
    if r.pat not in Threads.cache: Threads.cache[r.pat] = Threads(r)
    return Threads.cache[r.pat]

# constraints: state None = dead is represented by returning DEAD
DEAD = ('dead',)
class Match:
    """at place i the expression matches, up to place j exactly"""
    def __init__(self, i, j, pat): self.i, self.j, self.t = i, j, threads(rx.parse(pat)); self.sets = list(regex_sets(rx.parse(pat)))
    init = 'idle'
    def mark(self, s, k):
        if k == self.i: s = self.t.start
        if k == self.j:
            if s == 'idle' or not self.t.rec(s): return DEAD
            return ('after', tuple(x for x in s if x != self.t.n.acc))
        return s
    def char(self, s, c, w):
        if s == 'idle': return s
        if s[:1] == ('after',):
            t = self.t.step(s[1], c)
            return DEAD if self.t.rec(t) else ('after', t)
        t = self.t.step(s, c)
        return t if t else DEAD
    def end(self, s): return s == 'idle' or s[:1] == ('after',)
class NoMatch:
    def __init__(self, i, pat): self.i, self.t = i, threads(rx.parse(pat)); self.sets = list(regex_sets(rx.parse(pat)))
    init = 'idle'
    def mark(self, s, k):
        if k != self.i: return s
        return DEAD if self.t.rec(self.t.start) else self.t.start
    def char(self, s, c, w):
        if s == 'idle' or not s: return s
        t = self.t.step(s, c)
        return DEAD if self.t.rec(t) else t
    def end(self, s): return True
class SomeMatch(NoMatch):
    """at place i the expression matches"""
    def mark(self, s, k):
        if k != self.i: return s
        return 'ok' if self.t.rec(self.t.start) else self.t.start
    def char(self, s, c, w):
        if s in ('idle', 'ok'): return s
        t = self.t.step(s, c)
        return 'ok' if self.t.rec(t) else t if t else DEAD
    def end(self, s): return s in ('idle', 'ok')
class Text:
    """at place i this literal stands"""
    def __init__(self, i, lit): self.i, self.l = i, lit; self.sets = [((ord(c), ord(c)),) for c in lit]
    init = -1
    def mark(self, s, k): return 0 if k == self.i else s
    def char(self, s, c, w):
        if s < 0 or s >= len(self.l): return s
        return s + 1 if ord(self.l[s]) == c else DEAD
    def end(self, s): return s < 0 or s >= len(self.l)
class NoText:
    """at place i this literal does not stand"""
    def __init__(self, i, lit): self.i, self.l = i, lit; self.sets = [((ord(c), ord(c)),) for c in lit]
    init = -1
    def mark(self, s, k): return 0 if k == self.i else s
    def char(self, s, c, w):
        if s < 0 or s == 99: return s
        if ord(self.l[s]) != c: return 99
        return DEAD if s + 1 == len(self.l) else s + 1
    def end(self, s): return True
class Bytes:
    """between places i and j (None: the end) lie lo..hi bytes"""
    def __init__(self, i, j, lo, hi, ne=()): self.i, self.j, self.lo, self.hi, self.ne = i, j, lo or 0, hi, tuple(ne); self.sets = []; self.cap = max([self.lo, hi or 0] + [x for x in self.ne]) + 5
    init = -1
    def ok(self, s): return s >= self.lo and (self.hi is None or s <= self.hi) and s not in self.ne
    def mark(self, s, k):
        if k == self.i: s = 0
        if k == self.j:
            if s < 0 or not self.ok(s): return DEAD
            return -2
        return s
    def char(self, s, c, w):
        if s < 0: return s
        s = min(s + w, self.cap)
        return DEAD if self.hi is not None and s > self.hi else s
    def end(self, s): return s in (-1, -2) or self.j is None and self.ok(s)
class Set:
    """all characters between places i and j (None: the end) are in the set (want) or some is not"""
    def __init__(self, i, j, cs, want=True): self.i, self.j, self.cs, self.want = i, j, cs, want; self.sets = [cs]
    init = 0
    def mark(self, s, k):
        if k == self.i: s = 1
        if k == self.j:
            if not self.want and s != 2: return DEAD
            return 3
        return s
    def char(self, s, c, w):
        if s in (0, 3): return s
        if rx.inset(c, self.cs): return s
        return DEAD if self.want else 2
    def end(self, s): return self.want or s in (0, 3) or self.j is None and s == 2
class First:
    """a character follows place i, and it is (not) in the set"""
    def __init__(self, i, cs, want=True): self.i, self.cs, self.want = i, cs, want; self.sets = [cs]
    init = 0
    def mark(self, s, k): return 1 if k == self.i else s
    def char(self, s, c, w):
        if s != 1: return s
        return 2 if rx.inset(c, self.cs) == self.want else DEAD
    def end(self, s): return s != 1

class Num:
    """the n digits from place i on are a number from lo to hi"""
    def __init__(self, i, n, lo, hi): self.i, self.n, self.lo, self.hi = i, n, str(max(lo or 0, 0)).rjust(n, '0'), ('9' * n if hi is None else str(hi).rjust(n, '0')); self.sets = [((48 + d, 48 + d),) for d in range(10)]
    init = 'idle'
    def mark(self, s, k): return (0, True, True) if k == self.i else s
    def char(self, s, c, w):
        if s == 'idle' or s[0] == self.n: return s
        k, a, b = s; c = chr(c)
        if not '0' <= c <= '9' or a and c < self.lo[k] or b and c > self.hi[k]: return DEAD
        return (k + 1, a and c == self.lo[k] and k + 1 < self.n, b and c == self.hi[k] and k + 1 < self.n)
    def end(self, s): return s == 'idle' or s[0] == self.n

class Parsed:
    """the n characters from place i on parse as a number from lo to hi (a sign is allowed)"""
    def __init__(self, i, n, lo, hi, minus): self.i, self.n, self.lo, self.hi, self.minus = i, n, lo, hi, minus; self.sets = [((48 + d, 48 + d),) for d in range(10)] + [((43, 43),), ((45, 45),)]
    init = 'idle'
    def mark(self, s, k): return (0, 1, 0) if k == self.i else s
    def char(self, s, c, w):
        if s == 'idle' or s[0] == self.n: return s
        k, sg, v = s
        if k == 0 and self.n > 1 and (c == 43 or c == 45 and self.minus): return (1, 44 - c, 0)
        if not 48 <= c <= 57: return DEAD
        v = v * 10 + c - 48
        if k + 1 == self.n:
            v *= sg
            return (self.n, 1, 0) if (self.lo is None or v >= self.lo) and (self.hi is None or v <= self.hi) else DEAD
        return (k + 1, sg, v)
    def end(self, s): return s == 'idle' or s[0] == self.n

class Track:
    """constraints over the ordered places 0..n-1 of one way through the text; 'out' is the visible place, or None"""
    def __init__(self, n, cons, out=None): self.n, self.cons, self.out = n, cons, out
    def pass_(self, k, ss):
        o = []
        for c, s in zip(self.cons, ss):
            s = c.mark(s, k)
            if s is DEAD: return None
            o.append(s)
        return (k + 1, tuple(o))
class Path:
    """a set of tracks that all hold; exactly one of them has the visible place"""
    def __init__(self, tracks, name=''): self.tracks, self.name = tracks, name

def sets_of(paths): return [s for p in paths for t in p.tracks for c in t.cons for s in c.sets]

class Union:
    """subset automaton of a union of paths, over characters and the visible mark"""
    def __init__(self, paths, chars):
        self.paths = paths; self.chars = chars; self.memo = {}
    def start(self):
        return self.eps({(i, tuple((0, tuple(c.init for c in t.cons)) for t in p.tracks), False) for i, p in enumerate(self.paths)})
    def eps(self, S):
        """pass invisible places"""
        out = set(); work = list(S)
        while work:
            x = work.pop()
            if x in out: continue
            out.add(x)
            i, ts, shown = x
            for n, t in enumerate(self.paths[i].tracks):
                k, ss = ts[n]
                if k < t.n and k != t.out:
                    r = t.pass_(k, ss)
                    if r is not None: work.append((i, ts[:n] + (r,) + ts[n + 1:], shown))
        return frozenset(out)
    def mark(self, S):
        key = (S, '#')
        r = self.memo.get(key)
        if r is None:
            o = set()
            for i, ts, shown in S:
                if shown: continue
                for n, t in enumerate(self.paths[i].tracks):
                    k, ss = ts[n]
                    if t.out is not None and k == t.out:
                        x = t.pass_(k, ss)
                        if x is not None: o.add((i, ts[:n] + (x,) + ts[n + 1:], True))
            r = self.memo[key] = self.eps(o)
        return r
    def char(self, S, j):
        key = (S, j)
        r = self.memo.get(key)
        if r is None:
            c, w = self.chars.rep[j], self.chars.width[j]; o = set()
            for i, ts, shown in S:
                new = []
                for t, (k, ss) in zip(self.paths[i].tracks, ts):
                    if k == 0: break            # the first place is the beginning of the text
                    u = []
                    for x, s in zip(t.cons, ss):
                        s = x.char(s, c, w)
                        if s is DEAD: break
                        u.append(s)
                    else: new.append((k, tuple(u))); continue
                    break
                else: o.add((i, tuple(new), shown))
            r = self.memo[key] = self.eps(o)
        return r
    def accepts(self, S):
        """names of the paths that accept here"""
        return [self.paths[i].name for i, ts, shown in S if shown and all(k == t.n and all(c.end(s) for c, s in zip(t.cons, ss)) for t, (k, ss) in zip(self.paths[i].tracks, ts))]

def compare(ps, qs, limit=60000):
    """shortest marked text in exactly one of two unions of paths: (before, after, in_p) or None; and the number of states"""
    ch = Chars(sets_of(ps) + sets_of(qs))
    A, B = Union(ps, ch), Union(qs, ch)
    st = (A.start(), B.start(), False); seen = {st: None}; work = [st]
    def trace(x):
        a, b, shown = [], [], True
        while seen[x] is not None:
            x, e = seen[x]
            (b if shown and e != '#' else a).append(e) if e != '#' else None
            if e == '#': shown = False
        return ''.join(chr(ch.rep[e]) for e in reversed(a)), ''.join(chr(ch.rep[e]) for e in reversed(b))
    while work:
        if len(seen) > limit: raise rx.Unsupported('comparison too large')
        x = work.pop(0)
        a, b, m = x
        if m:
            p, q = bool(A.accepts(a)), bool(B.accepts(b))
            if p != q: return trace(x) + (p,), len(seen)
        nx = []
        if not m: nx.append(('#', (A.mark(a), B.mark(b), True)))
        for j in range(len(ch.rep)): nx.append((j, (A.char(a, j), B.char(b, j), m)))
        for e, y in nx:
            if not y[0] and not y[1]: continue
            if y not in seen: seen[y] = (x, e); work.append(y)
    return None, len(seen)
