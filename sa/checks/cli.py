"""Properties of the command line program: main() is interpreted with the file system, the terminal, the option parser, the CSV reader
and the library's documented entry points replaced by models that fork on their outcomes and keep a log of effects."""
from .base import *

# documented options: long name -> (short name, takes an argument)
OPTIONS = {'get-value': ('g', True), 'has-value': (None, True), 'get-children': ('c', True), 'has-children': (None, True), 'set-value': ('s', True),
           'help': ('h', False), 'set-true': (None, True), 'set-false': (None, True), 'separator': ('p', True), 'array-separator': (None, True),
           'array-begin': (None, True), 'array-end': (None, True), 'array-length': (None, False), 'strip-quotes': (None, False), 'quiet': ('q', False),
           'print-doc': (None, False), 'input-file': ('i', True), 'output-file': ('o', True)}
DEFAULTS = {'set-true': 'true', 'set-false': 'false', 'separator': ', ', 'array-begin': '[', 'array-end': ']', 'array-separator': ', '}
COMMANDS = ('get-value', 'has-value', 'get-children', 'has-children', 'set-value')
TYPES = {'basic-string': ('String', 'Basic'), 'bs': ('String', 'Basic'), 'ml-basic-string': ('String', 'MLBasic'), 'mbs': ('String', 'MLBasic'),
         'literal-string': ('String', 'Literal'), 'ls': ('String', 'Literal'), 'ml-literal-string': ('String', 'MLLiteral'), 'mls': ('String', 'MLLiteral'),
         'integer': ('Integer',), 'int': ('Integer',), 'float': ('Float',), 'flt': ('Float',), 'boolean': ('Boolean',), 'bool': ('Boolean',),
         'datetime': ('DateTime',), 'dt': ('DateTime',)}
MAKERS = {'basic_string': ('String', 'Basic'), 'ml_basic_string': ('String', 'MLBasic'), 'literal_string': ('String', 'Literal'), 'ml_literal_string': ('String', 'MLLiteral'),
          'int_from_str': ('Integer',), 'float_from_str': ('Float',), 'bool_from_str': ('Boolean',), 'datetime_parse': ('DateTime',)}

def opttext(name): return buf(('opt', name))
def field(text, i): return buf(('field', text, i))

class Cli:
    """one world: which options are given, how many fields their lists have, and what happens outside is left open"""
    def __init__(self, P, opts=(), csv=None, fields=None, stdin=None, fail=(), results=None):
        self.P = P; self.opts = dict.fromkeys(opts) if not isinstance(opts, dict) else opts
        self.csv = csv or {}; self.fields = fields or {}; self.stdin = stdin; self.fail = fail; self.results = results
    def text(self, name):
        if name in self.opts: return opttext(name)
        return lit(DEFAULTS[name]) if name in DEFAULTS else None
    def list(self, text):
        """fields of a comma separated list: None if it cannot be read"""
        ps = text[1]
        if all(p[0] == 'lit' for p in ps): s = ''.join(p[1] for p in ps); return [lit(x) for x in s.split(',')] if s else []
        if len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1][0] == 'opt':
            n = self.csv.get(ps[0][1][1], 1)
            return None if n is None else [self.fields.get((ps[0][1][1], i), field(ps[0][1][1], i)) for i in range(n)]
        raise Unk('list of ' + show(text))

    def run(self, budget=3000000):
        P = self.P
        m = [i for i in P.insts.values() if i['local'] and 'bbs' in i and strip(i['name']).split('::')[-1] == 'main' and i['argc'] == 0]
        if not m: raise LookupError('main')
        I = Interp(P, budget=budget, forks=4, maxlen=self.opts.get('maxlen') or 4)
        self.I = I
        self.models(I)
        I.disp_hook = self.disp
        I.cutfn = self.cutfn
        outs = I.call(State(), m[0], [])
        return I, m[0], outs

    # -- the library's entry points
    def cutfn(self, inst, args):
        n = strip(inst['name'])
        p = n.split('::')
        if p[-2:-1] == ['TOMLParser'] and p[-1] in ('new', 'parse', 'get_value', 'get_children', 'set_value'): return getattr(self, 'lib_' + p[-1])
        if n.endswith('TOMLParser as std::fmt::Display>::fmt'): return self.lib_render
        if n.endswith('types::Value as std::fmt::Display>::fmt'): return None
        if p[-2:-1] == ['Value'] and len(p) > 2 and p[-3] == 'types' and p[-1] in MAKERS: return self.lib_make
        return None
    def ver(self, st): return st.misc.get('ver', 0)
    def lib_new(self, I, st, inst, args, destty): return [Out('ret', st, I.mk('NEWDOC', inst['locals'][0]))]
    def lib_parse(self, I, st, inst, args, destty):
        t = self.P.T(inst['locals'][0]); dt, rt = t['f'] if t['k'] == 'tuple' else (None, None)
        if dt is None: raise Unk('result of parse')
        outs = []
        for vi, v in enumerate(self.P.T(rt)['v']):
            if self.results and v[0] not in self.results: continue
            s = st.copy(); s.log += (('parse', I.strval(st, args[1])[1], v[0]),); s.note('the document parses as', v[0])
            res = ('adt', rt, vi, tuple(I.mk(('result', v[0], f[0]), f[1]) for f in v[2]))
            outs.append(Out('ret', s, ('tup', (I.mk('DOC', dt), res))))
        return outs
    def disp(self, st, prov):
        if prov != 'DOC': return None
        st.log += (('render', self.ver(st)),)
        return (('disp', ('doc', self.ver(st))),)
    def lib_render(self, I, st, inst, args, destty):
        s = st.copy(); s.log += (('render', self.ver(st)),)
        parts = (('disp', ('doc', self.ver(st))),)
        if len(args) == 1: return [Out('ret', s, parts)]
        x = I.load(s, args[1]); I.store(s, args[1], ('fmtr', norm_parts(x[1] + parts)))
        return [Out('ret', s, I.mkadt(inst['locals'][0], 'Ok', (UNIT,)))]
    def lib_get_value(self, I, st, inst, args, destty):
        k = I.strval(st, args[1])[1]; rt = inst['locals'][0]; outs = []
        for s, b in I.opaque(st, ('docget', k, self.ver(st))):
            s = s.copy(); s.log += (('get', k, b),)
            outs.append(Out('ret', s, I.mkadt(rt, 'Some', (I.mk(('value', k, self.ver(st)), self.P.T(rt)['args'][0]),)) if b else I.mkadt(rt, 'None', ())))
        return outs
    def lib_get_children(self, I, st, inst, args, destty):
        k = I.strval(st, args[1])[1]; rt = inst['locals'][0]; outs = []
        for s, b in I.opaque(st, ('docchildren', k, self.ver(st))):
            s = s.copy(); s.log += (('children', k, b),)
            outs.append(Out('ret', s, I.mkadt(rt, 'Some', (I.mk(('children', k, self.ver(st)), self.P.T(rt)['args'][0]),)) if b else I.mkadt(rt, 'None', ())))
        return outs
    def lib_set_value(self, I, st, inst, args, destty):
        k = I.strval(st, args[1])[1]; outs = []; n = st.misc.get('sets', 0)
        v = args[2] if args[2][0] != 'ref' else I.load(st, args[2])
        for b in (True, False):
            s = st.copy(); s.misc['sets'] = n + 1
            if b: s.misc['ver'] = self.ver(st) + 1
            s.log += (('set', k, v, b),); s.note('the library', 'accepts' if b else 'rejects', 'update %d' % n)
            outs.append(Out('ret', s, b))
        return outs
    def lib_make(self, I, st, inst, args, destty):
        name = strip(inst['name']).split('::')[-1]; rt = inst['locals'][0]; outs = []
        k = I.strval(st, args[0])[1]; vt = self.P.T(rt)['args'][0]
        for s, b in I.opaque(st, ('made', name, k)):
            s = s.copy(); s.log += (('make', name, k, b),)
            v = I.mk(('made', name, k), vt)
            if name == 'datetime_parse' and b:
                vi = [j for j, x in enumerate(self.P.T(vt)['v']) if x[0] == 'DateTime'][0]
                v = ('adt', vt, vi, (I.mk(('made', name, k), self.P.T(vt)['v'][vi][2][0][1]),))
            outs.append(Out('ret', s, I.mkadt(rt, 'Ok', (v,)) if b else I.mkadt(rt, 'Err', (I.mk(('makeerr', name, k), self.P.T(rt)['args'][1]),))))
        return outs

    # -- the world outside
    def models(self, I):
        P = self.P; N = I.N
        def reg(*names):
            def d(f):
                for n in names: N[n] = f; N['tomlkit::' + n] = f
                return f
            return d
        ret = lambda st, v: [Out('ret', st, v)]
        def result(st, destty, ok, what, *entry, event=True):
            """forks on success of an operation outside"""
            outs = []; rt = P.T(destty)
            for b in (True, False):
                if not b and what not in self.fail and 'all' not in self.fail: continue
                s = st.copy(); s.log += ((what,) + entry + (b,),)
                if not b: s.note(what, 'fails')
                outs.append(Out('ret', s, I.mkadt(destty, 'Ok', (ok,)) if b else I.mkadt(destty, 'Err', (('sym', ('ioerr', what), rt['args'][1]),))))
            return outs
        def text(st, v): return I.strval(st, v)[1]
        @reg('std::env::args')
        def f(I, st, a, c): return ret(st, ('argv',))
        @reg('env_logger::init')
        def f(I, st, a, c): return ret(st, I.mk('LOGGER', c['destty']))
        old = N.get('std::iter::Iterator::collect')
        @reg('std::iter::Iterator::collect')
        def f(I, st, a, c):
            if a[0] == ('argv',): return ret(st, ('vec', (lit('tomlkit'),)))
            return old(I, st, a, c) if old else NotImplemented
        @reg('pirate::vars', 'pirate::vars::vars')
        def f(I, st, a, c):
            s = st.copy(); o = I.load(s, a[1]) if a[1][0] == 'ref' else a[1]
            xs = []
            for x in self.seq(I, s, o): xs.append(litval(I.strval(s, x)))
            s.log += (('vars', tuple(xs)),)
            return ret(s, I.mkadt(c['destty'], 'Ok', (I.mk('VARS', P.T(c['destty'])['args'][0]),)))
        @reg('pirate::matches', 'pirate::matches::matches')
        def f(I, st, a, c):
            rt = P.T(c['destty']); mt = P.T(rt['args'][0])
            es = tuple((norm_parts((('lit', n),)), (opttext(n) if OPTIONS[n][1] else lit('')) if n in self.opts else ABSENT) for n in OPTIONS)
            if 'badargs' in self.opts: return ret(st, I.mkadt(c['destty'], 'Err', (('sym', ('argerr',), rt['args'][1]),)))
            return ret(st, I.mkadt(c['destty'], 'Ok', (('map', 'MATCHES', es, mt['args'][0], mt['args'][1]),)))
        def has(I, st, a, c):
            k = text(st, a[1]); m = I.load(st, a[0])
            for q, v in m[2]:
                if q == norm_parts(k): s = st.copy(); s.log += (('asked', litval(('str', k))),); return ret(s, v != ABSENT)
            raise Unk('unknown option %s' % show(('str', k)))
        for n in ('pirate::Match::has_match', 'pirate::matches::Match::has_match', '<std::collections::HashMap as pirate::Match>::has_match', '<std::collections::HashMap as tomlkit::pirate::Match>::has_match'): reg(n)(has)
        @reg('pirate::usage', 'pirate::usage::usage')
        def f(I, st, a, c): s = st.copy(); s.log += (('usage',),); return ret(s, UNIT)
        @reg('std::io::stdin')
        def f(I, st, a, c): return ret(st, ('stdin',))
        @reg('std::io::Stdin::read_line')
        def f(I, st, a, c):
            n = st.misc.get('lines', 0); outs = []
            if n >= (self.stdin or 0): return ret(st, I.mkadt(c['destty'], 'Ok', (0,)))
            s = st.copy(); s.misc['lines'] = n + 1
            t = I.load(s, a[1]); I.store(s, a[1], ('str', norm_parts(t[1] + buf(('stdin', n))[1])))
            l = slen(buf(('stdin', n))[1]); I.refine(s, l, 1, None)
            return ret(s, I.mkadt(c['destty'], 'Ok', (l,)))
        # files
        @reg('std::fs::File::open')
        def f(I, st, a, c): return result(st, c['destty'], ('file', text(st, a[0])), 'open', text(st, a[0]))
        @reg('std::fs::File::create')
        def f(I, st, a, c): return result(st, c['destty'], ('file', text(st, a[0])), 'create', text(st, a[0]))
        @reg('std::fs::OpenOptions::new', 'std::fs::File::options')
        def f(I, st, a, c): return ret(st, ('openopts', ()))
        def oo(I, st, a, c):
            v = a[0] if a[0][0] == 'openopts' else I.load(st, a[0])
            n = ('openopts', tuple(sorted(dict(v[1], **{c['name'].split('::')[-1]: a[1]}).items())))
            if a[0][0] == 'openopts': return ret(st, n)
            s = st.copy(); I.store(s, a[0], n); return ret(s, a[0])
        for n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'): reg('std::fs::OpenOptions::' + n)(oo)
        @reg('std::fs::OpenOptions::open')
        def f(I, st, a, c):
            v = I.load(st, a[0]); d = dict(v[1])
            w, t, p = d.get('write') or d.get('append'), d.get('truncate'), text(st, a[1])
            return result(st, c['destty'], ('file', p), 'open' if not w else 'create' if t and d.get('create') and not d.get('append') else 'openother', p)
        def thefile(st, v):
            for _ in range(4):
                if v[0] == 'file': return v[1]
                if v[0] != 'ref': break
                v = I.load(st, v)
            raise Unk('file')
        @reg('std::io::Read::read_to_string', '<std::fs::File as std::io::Read>::read_to_string')
        def f(I, st, a, c):
            p = thefile(st, a[0]); outs = []
            for o in result(st, c['destty'], slen(buf(('file', p))[1]), 'read', p):
                if o.val[2] == 0:
                    t = I.load(o.st, a[1]); I.store(o.st, a[1], ('str', norm_parts(t[1] + buf(('file', p))[1])))
                outs.append(o)
            return outs
        @reg('std::fs::read_to_string')
        def f(I, st, a, c):
            p = text(st, a[0]); outs = []
            for o in result(st, c['destty'], buf(('file', p)), 'open', p): outs.append(o)
            return outs
        @reg('std::io::Write::write_all', '<std::fs::File as std::io::Write>::write_all')
        def f(I, st, a, c): return result(st, c['destty'], UNIT, 'write', thefile(st, a[0]), text(st, a[1]))
        @reg('std::io::Write::write', '<std::fs::File as std::io::Write>::write')
        def f(I, st, a, c):
            p, t = thefile(st, a[0]), text(st, a[1])
            return result(st, c['destty'], atom(('sym', ('written', st.misc.get('w', 0)), None)), 'writesome', p, t)
        @reg('std::io::Write::write_fmt')
        def f(I, st, a, c):
            p = thefile(st, a[0]); outs = []
            for o in I.fmt_args(st, a[1]): outs += [o] if o.kind != 'ret' else result(o.st, c['destty'], UNIT, 'write', p, o.val)
            return outs
        @reg('std::io::Write::flush', '<std::fs::File as std::io::Write>::flush')
        def f(I, st, a, c): return result(st, c['destty'], UNIT, 'sync', thefile(st, a[0]))
        @reg('std::fs::File::sync_all', 'std::fs::File::sync_data')
        def f(I, st, a, c): return result(st, c['destty'], UNIT, 'sync', thefile(st, a[0]))
        @reg('std::fs::write')
        def f(I, st, a, c):
            p, t = text(st, a[0]), text(st, a[1]); outs = []
            for o in result(st, c['destty'], UNIT, 'create', p): outs += result(o.st, c['destty'], UNIT, 'write', p, t) if o.val[2] == 0 else [o]
            return outs
        @reg('std::fs::remove_file', 'std::fs::rename', 'std::fs::copy', 'std::fs::create_dir', 'std::fs::create_dir_all', 'std::fs::set_permissions', 'std::fs::hard_link')
        def f(I, st, a, c): return result(st, c['destty'], UNIT, 'touch', c['name'], text(st, a[0]))
        # comma separated lists
        def cfg(**kw):
            def f(I, st, a, c):
                r = a[0]
                if r[0] != 'csv': raise Unk('csv reader')
                k = c['name'].split('::')[-1]; v = a[1]
                if isinstance(v, tuple) and v[0] == 'adt': v = None if P.T(v[1])['v'][v[2]][0] == 'None' else v[3][0]
                return ret(st, ('csv', r[1], tuple(sorted(dict(r[2], **{k: v}).items())), r[3]))
            return f
        for n in ('has_headers', 'escape', 'quote', 'delimiter', 'flexible', 'double_quote'): reg('csv::Reader::' + n)(cfg())
        @reg('csv::Reader::from_string')
        def f(I, st, a, c): return ret(st, ('csv', text(st, a[0]), (), 0))
        def reader(st, r):
            v = I.load(st, r)
            if v[0] != 'csv': raise Unk('csv reader')
            xs = self.list(('str', v[1]))
            cf = dict(v[2])
            if cf.get('has_headers', True) is not False or cf.get('quote', 34) != 0 or cf.get('delimiter', 44) != 44 or cf.get('escape') != 92:
                st.log += (('csvcfg', v[2]),)
            return v, xs
        @reg('csv::Reader::next_str')
        def f(I, st, a, c):
            s = st.copy(); v, xs = reader(s, a[0])
            if xs is None: x = ('csvnext', 'err')
            elif v[3] < len(xs): x = ('csvnext', xs[v[3]])
            else: x = ('csvnext', None)
            I.store(s, a[0], v[:3] + (v[3] + 1,))
            return ret(s, x)
        @reg('csv::NextField::into_iter_result')
        def f(I, st, a, c):
            x = a[0][1]; ot = c['destty']
            if x is None: return ret(st, I.mkadt(ot, 'None', ()))
            rt = P.T(ot)['args'][0]
            return ret(st, I.mkadt(ot, 'Some', (I.mkadt(rt, 'Err', (('sym', ('csverr',), P.T(rt)['args'][1]),)) if x == 'err' else I.mkadt(rt, 'Ok', (x,)),)))
        @reg('csv::Reader::done')
        def f(I, st, a, c):
            v, xs = reader(st.copy(), a[0])
            return ret(st, v[3] > (1 if xs is None else len(xs)))
    def seq(self, I, st, v):
        for _ in range(4):
            if v[0] == 'vec': return v[1]
            if v[0] == 'slice':
                b = I.load(st, v[1]); return b[1][v[2]:v[3]]
            v = I.load(st, v)
        raise Unk('list of options')

def world(P, *opts, **kw):
    """an input file, the options named and lists of the given lengths"""
    csv = {k.replace('_', '-'): v for k, v in kw.items() if k.replace('_', '-') in OPTIONS}
    rest = {k: v for k, v in kw.items() if k.replace('_', '-') not in OPTIONS}
    return dict(opts=tuple(opts) + tuple(k for k in csv if k not in opts) + (() if rest.get('stdin') else ('input-file',)), csv=csv, **rest)

# ---------------------------------------------------------------------------------------------------------------- rules
INPUT = opttext('input-file')[1]; OUTPUT = opttext('output-file')[1]
OUTSIDE = ('create', 'write', 'writesome', 'touch', 'openother')
ACTS = ('get', 'children', 'set', 'make') + OUTSIDE
ONEKEY = {'get_value': 1, 'has_value': 1, 'get_children': 1, 'has_children': 1, 'set_value': 3}

def named(w):
    """a world in words"""
    return ' '.join('--' + o + ('' if not OPTIONS.get(o, (0, 0))[1] or o not in w['csv'] else '<unreadable list>' if w['csv'][o] is None else '<%d>' % w['csv'][o]) for o in w['opts'])

def runs(ctx, P, w):
    """all paths of main in a world"""
    c = Cli(P, **w)
    try: I, m, outs = c.run()
    except (Unk, Bound) as u:
        ctx.undecided[str(u)] = ctx.undecided.get(str(u), 0) + 1; return c, None, []
    ctx.count('command lines analysed'); ctx.count('paths', len(outs)); ctx.count('paths fully decided', sum(1 for o in outs if o.kind != 'unk'))
    ctx.absorb(I)
    return c, I, [o for o in outs if o.kind != 'unk']

def printed(o, kinds=('print',)):
    return norm_parts(tuple(p for x in o.st.log if x[0] in kinds for p in x[1]))
def said(o, frm=0):
    """something other than blanks was printed"""
    return any(p[0] != 'lit' or p[1].strip() for x in o.st.log[frm:] if x[0] in ('print', 'eprint') for p in x[1])
def failing(I, o):
    if o.kind == 'panic': return True
    if o.kind == 'exit':
        c = [x for x in o.st.log if x[0] == 'exit']
        return bool(c) and not (c[-1][1] == 0)
    v = o.val
    return isinstance(v, tuple) and v[:1] == ('adt',) and I.p.T(v[1])['v'][v[2]][0] == 'Err'
def mentions(parts, what): return what in repr(parts)

def how(o, w): return '%s: with `tomlkit %s`, when %s' % (o.info[0] if o.kind != 'ret' and o.info else 'main', named(w), path_of(o, 8) or 'everything succeeds')

def pathok(parts, w, n):
    """the n-th file name taken from the command line or from standard input"""
    if not w.get('stdin'): return parts == INPUT
    src = ('stdin', n)
    ps = parts
    while len(ps) == 1 and ps[0][0].startswith('trim'): ps = ps[0][1][0]
    return len(ps) == 1 and ps[0][0] == 'sl' and ps[0][1] == src

def judge_gate(I, o, w):
    """C24 on one path: [(key, text)]"""
    log = o.st.log; bad = []
    docs = []      # per document: [position of the open, path, stage]
    def add(k, t): bad.append((k, t + ' -- ' + how(o, w)))
    broken = None
    for j, e in enumerate(log):
        if broken is not None:
            if e[0] in ACTS: add('acts:' + broken[0], 'after %s the program goes on with: %s' % (broken[1], e[0]))
            if e[0] == 'print' and any(mentions(e[1], x) for x in ("('doc',", "('value',", "('children',")): add('prints:' + broken[0], 'after %s results are printed' % broken[1])
            continue
        if e[0] == 'open':
            if not pathok(e[1], w, len(docs)): add('path', 'the file that is read is %s' % show(('str', e[1])))
            docs.append([j, e[1], 'open'])
            if not e[2]: broken = ('open', 'a failure to open the input file', j); docs[-1][2] = 'bad'
        elif e[0] == 'read':
            if not e[2]: broken = ('read', 'a failure to read the input file', j)
            elif docs: docs[-1][2] = 'read'
        elif e[0] == 'parse':
            if not docs or e[1] != buf(('file', docs[-1][1]))[1]: add('text', 'the text that is parsed is %s, not the content of the input file' % show(('str', e[1])))
            if e[2] != 'Full': broken = ('parse ' + e[2], 'the document was parsed as ' + e[2], j)
            elif docs: docs[-1][2] = 'full'
        elif e[0] in ACTS:
            if not docs or docs[-1][2] != 'full': add('early:' + e[0], '%s happens before the document was parsed' % e[0])
    if broken is not None:
        if not said(o, broken[2]) and o.kind != 'panic': add('silent:' + broken[0], 'after %s nothing is reported' % broken[1])
        if not failing(I, o): add('status:' + broken[0], 'after %s the program ends with a success status' % broken[1])
    elif o.kind == 'ret' and not docs and 'help' not in w['opts'] and not w.get('stdin') : add('noread', 'no file is read')
    elif docs and docs[-1][2] != 'full' and o.kind == 'ret': add('noparse', 'the input file is not parsed')
    return bad

def check_gate(ctx):
    """Abstract interpretation of main() of the program with files, terminal, option parser, list reader and the library's entry
    points replaced by models that fork on every outcome (does not open, does not read, parses fully / partly / with errors / not at
    all) and log their effects.  On every path a command works only on a document that was read whole from the named file and parsed
    as its gate demands; otherwise the failure is told and nothing is changed or written."""
    ctx.rules = ['typestate: opened -> read -> parsed -> worked on', 'every failure outcome: message and exit, no library change, no write']
    P = ctx.prog('tomlkit'); ctx.anchor(P, 'tomlkit::main')
    ws = []
    for c, n in ONEKEY.items():
        for more in ((), ('print-doc',), ('output-file', 'quiet', 'print-doc')): ws.append(world(P, *more, **{c: n, 'fail': ('open', 'read')}))
    ws.append(world(P, *[c for c in COMMANDS], 'print-doc', 'output-file', set_value=3, fail=('open', 'read'), fields=TRIPLE(0)))
    ws.append(world(P, 'print-doc', fail=('open', 'read')))
    for c in ('get_value', 'set_value'):
        for k in (1, 2): ws.append(world(P, 'print-doc', **{c: ONEKEY[c], 'stdin': k, 'fail': ('open', 'read'), 'fields': TRIPLE(0)}))
    def one(ctx, w):
        c, I, outs = runs(ctx, P, w)
        for o in outs:
            ctx.obligation(True, '')
            for k, t in judge_gate(I, o, w): ctx.violate(k, t)
    ctx.each(one, [(w,) for w in ws])
    ctx.floor('paths fully decided', 100)

def TRIPLE(*types, n=None):
    """type fields of a set-value list: the i-th triple's type is a literal"""
    return {('set-value', 3 * i + 2): lit(t if t else 'int') for i, t in enumerate(types)}

def judge_write(I, o, w):
    """C22 on one path"""
    log = o.st.log; bad = []
    def add(k, t): bad.append((k, t + ' -- ' + how(o, w)))
    n = w['csv'].get('set-value') if 'set-value' in w['opts'] else 0
    want = n // 3 if n and n % 3 == 0 else None
    target = OUTPUT if 'output-file' in w['opts'] else INPUT
    sets = [j for j, e in enumerate(log) if e[0] == 'set']
    done = want is not None and len(sets) == want and all(log[j][3] for j in sets)
    broken = None
    writes = (); created = None
    for j, e in enumerate(log):
        if e[0] in OUTSIDE:
            if want is None: add('uncalled', 'a file is touched (%s) although no list of changes was given' % e[0]); break
            if not done or j < sets[-1]:
                add('early:' + e[0], 'a file is touched (%s) although not every change was made' % e[0]); break
        if e[0] in ('writesome', 'openother'): add(e[0], {'writesome': 'a single write() may store only a part of the document', 'openother': 'the file is not opened so that its old content is replaced'}[e[0]])
        if e[0] == 'create':
            if e[1] != target: add('target', 'the file written is %s, not %s' % (show(('str', e[1])), show(('str', target))))
            if not any(x[0] == 'render' and x[1] == want for x in log[:j]): add('order', 'the file is truncated before the whole new document was rendered')
            if created is not None and created[0] == 'done': add('twice', 'the file is created twice')
            created = ('done', j) if e[-1] else ('failed', j); writes = ()
            if not e[-1]: broken = ('create', j)
        if e[0] == 'write':
            if e[-1]: writes += e[2]
            else: broken = ('write', j)
        if e[0] == 'sync' and not e[-1]: broken = ('sync', j)
    if broken:
        if not said(o, broken[1]) and o.kind != 'panic': add('silent:' + broken[0], 'a failure to %s the file is not reported' % broken[0])
        if not failing(I, o): add('status:' + broken[0], 'a failure to %s the file leaves a success status' % broken[0])
    elif done and sets:
        if created is None: add('unwritten', 'every change succeeded but no file is written')
        elif norm_parts(writes) != (('disp', ('doc', want)),): add('content', 'the file receives %s, not the new document' % show(('str', norm_parts(writes))))
    return bad

def check_write(ctx):
    """As C24, with the log of writes: on every path a file is created or truncated only after every set-value command succeeded and the
    new document was rendered; what is written is that rendering, whole, to the output file if one is given and to the input file
    otherwise; a failed write is told."""
    ctx.rules = ['no file opened for writing before the last set_value succeeded', 'text written = rendering of the document after the command', 'file written = output file or else input file', 'write failure told']
    P = ctx.prog('tomlkit'); ctx.anchor(P, 'tomlkit::main')
    ws = []
    full = dict(results=('Full',), fail=('all',))
    for n in (None, 0, 1, 3, 4, 5, 6, 9):
        for out in ((), ('output-file',)):
            for more in ((), ('quiet',), ('print-doc',)):
                if more and n not in (3, 6): continue
                ws.append(world(P, *out, *more, set_value=n, fields=TRIPLE('int', 'bs', 'bool'), **full))
    for t in sorted(TYPES): ws.append(world(P, 'output-file', set_value=3, fields=TRIPLE(t), **full))
    for c in COMMANDS[:4]:
        k = c.replace('-', '_')
        ws.append(world(P, 'output-file', 'print-doc', **{k: 1}, **full))
        ws.append(world(P, 'output-file', **{k: 1, 'set_value': 3, 'fields': TRIPLE('int')}, **full))
    ws.append(world(P, 'output-file', 'print-doc', **full))
    ws.append(world(P, *COMMANDS, 'print-doc', set_value=3, fields=TRIPLE('int'), **full))
    ws.append(world(P, 'set-value', stdin=1, set_value=3, fields=TRIPLE('int'), **full))
    def one(ctx, w):
        c, I, outs = runs(ctx, P, w)
        for o in outs:
            ctx.obligation(True, '')
            if w.get('stdin'):
                # the file name is the trimmed line
                for e in o.st.log:
                    if e[0] == 'create' and not pathok(e[1], w, 0): ctx.violate('target', 'the file written is %s -- %s' % (show(('str', e[1])), how(o, w)))
                continue
            for k, t in judge_write(I, o, w): ctx.violate(k, t)
    ctx.each(one, [(w,) for w in ws])
    ctx.floor('paths fully decided', 100)

def judge_types(I, o, w, c):
    """C25 on one path"""
    log = o.st.log; bad = []; P = I.p
    def add(k, t): bad.append((k, t + ' -- ' + how(o, w)))
    n = w['csv']['set-value']
    for e in log:
        if e[0] == 'csvcfg': add('csv', 'the list is read with other settings: ' + repr(e[1]))
    ev = [e for e in log if e[0] in ('make', 'set')]
    sets = [e for e in ev if e[0] == 'set']
    if n is None or n % 3 or n == 0:
        if sets: add('count', 'a list of %s fields changes the document' % ('unreadable' if n is None else n))
        if not said(o): add('silent', 'a list of %s fields is not reported' % ('unreadable' if n is None else n))
        return bad
    f = c.list(opttext('set-value'))
    i = 0; failed = False
    cases = [(o.st, 0)]
    names = {}
    for i in range(n // 3):
        if failed: break
        key, text, ty = f[3 * i][1], f[3 * i + 1][1], f[3 * i + 2]
        kind = None; sure = True
        if is_lit(ty): kind = TYPES.get(litval(ty))
        else:
            known = []
            for t in TYPES:
                r = I.str_eq(o.st, ty, lit(t))
                if len(r) == 1 and r[0][1]: known = [t]; break
                if len(r) > 1: sure = False
            if known: kind = TYPES[known[0]]
            elif not sure: add('type?', 'the type of change %d has no influence' % i); break
        mine = sets[i] if i < len(sets) else None
        if kind is None:
            if mine: add('unknown', 'an unknown type name changes the document')
            failed = True; break
        made = [e for e in ev if e[0] == 'make' and e[2] == text and MAKERS[e[1]] == kind]
        tn = litval(ty) if is_lit(ty) else known[0]
        if mine is None:
            if any(e[3] for e in made): add('dropped:' + tn, 'a valid value of type %s is not stored' % tn)
            elif not made: add('maker:' + tn, 'a value of type %s is never made from the text given' % tn)
            failed = True; break
        if mine[1] != key: add('key', 'change %d is stored at %s' % (i, show(('str', mine[1]))))
        good = [e for e in made if e[3]]
        want = None
        for e in good:
            vt = [x for x in P.types if False]
            if same_made(I, o.st, mine[2], e[1], text): want = e
        if want is None:
            if any(e[3] is False for e in made): add('invalid:' + tn, 'a text that is no value of type %s is stored' % tn)
            else: add('value:' + tn, 'change %d of type %s does not store the value of that type made from the text' % (i, tn))
        if not mine[3]: failed = True
    else:
        if len(sets) > n // 3: add('more', 'more changes are made than the list has')
        return bad
    if failed:
        if len(sets) > i + 1: add('goes on', 'changes are made after one that failed')
        if not said(o): add('silent', 'a change that failed is not reported')
    return bad

def same_made(I, st, v, name, text):
    """v is the value the constructor made from the text"""
    p = ('made', name, text)
    if v[0] == 'sym': return v[1] == p
    if v[0] != 'adt': return False
    if name == 'datetime_parse':
        vs = I.p.T(v[1])['v']
        vi = [j for j, x in enumerate(vs) if x[0] == 'DateTime']
        return bool(vi) and v[2] == vi[0] and I.same(st, v, ('adt', v[1], vi[0], (I.mk(p, vs[vi[0]][2][0][1]),)))
    e = I.expand(st, ('sym', p, v[1]))
    return e is not None and I.same(st, v, e)

def check_types(ctx):
    """As C24; every value handed to the library is traced to the constructor the given type name stands for, with the given text
    as its argument; a refused text is told and nothing is stored."""
    ctx.rules = ['type name -> constructor table', 'value stored = result of that constructor on the given field', 'refused value: told, not stored']
    P = ctx.prog('tomlkit'); ctx.anchor(P, 'tomlkit::main')
    ws = []
    full = dict(results=('Full',))
    for n in (None, 0, 1, 2, 4, 5, 7, 8): ws.append(world(P, set_value=n, fields=TRIPLE('int', 'bs'), **full))
    for t in sorted(TYPES):
        ws.append(world(P, set_value=3, fields=TRIPLE(t), **full))
        ws.append(world(P, 'quiet', 'output-file', set_value=6, fields=TRIPLE('int' if TYPES[t] != ('Integer',) else 'bs', t), **full))
    for t in ('string', 'String', 'INT', 'bss', 'b', '', 'date-time', 'str', 'local-date'): ws.append(world(P, set_value=3, fields={('set-value', 2): lit(t)}, **full))
    ws.append(world(P, set_value=3, **full))
    ws.append(world(P, set_value=9, fields=TRIPLE('int', 'bool', 'flt'), **full))
    def one(ctx, w):
        c, I, outs = runs(ctx, P, w)
        for o in outs:
            ctx.obligation(True, '')
            for k, t in judge_types(I, o, w, c): ctx.violate(k, t)
    ctx.each(one, [(w,) for w in ws])
    ctx.floor('paths fully decided', 100)

def token(s):
    """one option definition, by the rules of the option parser"""
    arg = s[:1] == ':'; has = s[-1:] == ':'
    body = s[1:] if arg else s[:-1] if has else s
    t = {'s': '', 'l': '', 'd': ''}; stage = 's'
    for ch in body:
        if ch == '/': stage = 'l'
        elif ch == '#': stage = 'd'
        else: t[stage] += ch
    return dict(short=t['s'], long=t['l'], pos=arg, has=has, group=not t['s'] and not t['l'], name=t['l'] or t['s'] or t['d'], bad=arg and has)

def judge_vars(strings):
    bad = []; opts = {'h': dict(name='help', has=False), 'help': dict(name='help', has=False)}
    for s in strings:
        t = token(s)
        if t['bad']: bad.append(('vars:format', 'the option definition %.40r is not accepted by the option parser' % s)); continue
        if t['group']: continue
        if t['pos']: bad.append(('vars:positional', 'a positional argument %s is required' % t['name'])); continue
        for k in (t['short'], t['long']):
            if k: opts[k] = t
    for n, (short, has) in OPTIONS.items():
        for k in (n, short):
            if not k: continue
            t = opts.get(k)
            if t is None: bad.append(('vars:' + k, 'the documented option %s is not declared' % k))
            elif t['name'] != n: bad.append(('vars:' + k, 'the option %s is known to the program as %s, not %s' % (k, t['name'], n)))
            elif t['has'] != has: bad.append(('vars:' + k, 'the option %s %s' % (k, 'takes no argument' if has else 'takes an argument')))
    return bad

class SpecErr(Exception): pass

def spec_lists(c, name):
    return c.list(c.text(name))

def spec_command(I, st, c, w, cmd, kc):
    """[(state, 'ok'|'err'|'any', parts)] of one command's documented output"""
    P = I.p
    ks = c.list(opttext(cmd)); sep = c.text('separator')[1]
    if ks is None or not ks: return [(st, 'err', ())]
    if cmd == 'set-value':
        if len(ks) % 3: return [(st, 'err', ())]
        sets = [e for e in st.log if e[0] == 'set']
        if len(sets) == len(ks) // 3 and all(e[3] for e in sets):
            return [(st, 'ok', () if 'quiet' in w['opts'] else join([lit('Success')[1]] * len(sets), sep))]
        return [(st, 'err', ())]
    cases = [(st, [], 'ok')]
    if cmd in ('has-value', 'has-children'):
        T, F = spec_lists(c, 'set-true'), spec_lists(c, 'set-false')
        if T is None or F is None: return [(st, 'err', ())]
        base = kc if cmd == 'has-children' else 0
        def pick(L, i):
            j = i + base if len(L) > 1 else 0
            return L[j] if j < len(L) else None
    for i, k in enumerate(ks):
        new = []
        for s, acc, state in cases:
            if state != 'ok': new.append((s, acc, state)); continue
            if cmd in ('get-value', 'has-value'):
                for s2, b in I.opaque(s, ('docget', k[1], 0)):
                    if cmd == 'get-value':
                        if not b: new.append((s2, acc, 'err'))
                        else: new.append((s2, acc + [stripped(('disp', ('value', k[1], 0)), 'strip-quotes' in w['opts'])], 'ok'))
                    else:
                        t, f = pick(T, i), pick(F, i)
                        if t is None or f is None: new.append((s2, acc, 'any')); continue
                        new.append((s2, acc + [(t if b else f)[1]], 'ok'))
                continue
            for s2, b in I.opaque(s, ('docchildren', k[1], 0)):
                if cmd == 'has-children':
                    t, f = pick(T, i), pick(F, i)
                    if t is None or f is None: new.append((s2, acc, 'any')); continue
                if not b:
                    new.append((s2, acc, 'err') if cmd == 'get-children' else (s2, acc + [f[1]], 'ok')); continue
                for s3, kids in children_of(I, s2, P, k[1]):
                    if cmd == 'has-children':
                        if kids[0] == 'keys': new.append((s3, acc + [(t if kids[1] else f)[1]], 'ok'))
                        else:
                            for s4, z in I.cmp(s3, 'Eq', kids[1], 0): new.append((s4, acc + [(f if z else t)[1]], 'ok'))
                        continue
                    if kids[0] == 'count':
                        for s4, z in I.cmp(s3, 'Eq', kids[1], 0): new.append((s4, acc, 'err') if z else (s4, acc + [(('num', kids[1]),)], 'ok'))
                        continue
                    asep = c.text('array-separator')[1]
                    body = join([I.strval(s3, x)[1] for x in kids[1]], asep)
                    if 'array-length' in w['opts']: body = lit(str(len(kids[1])))[1] + asep + body
                    else: body = c.text('array-begin')[1] + body + c.text('array-end')[1]
                    new.append((s3, acc + [body], 'ok'))
        cases = new
    return [(s, state, join(acc, sep)) for s, acc, state in cases]

def join(xs, sep):
    out = ()
    for i, x in enumerate(xs): out += (sep if i else ()) + tuple(x)
    return norm_parts(out)

def stripped(part, yes):
    return (('stripped', (part,)),) if yes else (part,)
QUOTES = ((34, 34), (39, 39))
def unstrip(parts):
    """quote trimming in any of its spellings -> 'stripped'"""
    out = []
    for p in parts:
        l = r = False; q = (p,)
        while len(q) == 1 and q[0][0] in TRIMS and len(q[0][1]) == 2 and q[0][1][1] == ('set', QUOTES):
            a, b = TRIMS[q[0][0]]; l |= a; r |= b; q = q[0][1][0]
        out.append(('stripped', q) if l and r else p)
    return norm_parts(tuple(out))
TRIMS = {'trim_matches': (True, True), 'trim_start_matches': (True, False), 'trim_left_matches': (True, False), 'trim_end_matches': (False, True), 'trim_right_matches': (False, True)}

def children_of(I, st, P, k):
    """what the library answers for the children of a key"""
    ty = [i for i in P.insts.values() if strip(i['name']).endswith('TOMLParser::get_children')]
    out = []
    for s, v in I.expand_fork(st, I.load(st, I.mk(('children', k, 0), P.T(ty[0]['locals'][0])['args'][0]))):
        n = P.T(v[1])['v'][v[2]][0]; x = v[3][0]
        if n == 'Count':
            while isinstance(x, tuple) and x[0] == 'cell': x = x[1]
            out.append((s, ('count', x)))
        else:
            while isinstance(x, tuple) and x[0] == 'cell': x = x[1]
            for s2, y in I.expand_fork(s, x): out.append((s2, ('keys', y[1] if y[0] == 'vec' else None)))
    return out

def tree(I, st, c, w):
    """[(state, printed parts so far, 'ok'|'err'|'any')] of all commands"""
    cases = [(st, [], 'ok')]; kc = 0
    for cmd in COMMANDS:
        if cmd not in w['opts']: continue
        new = []
        for s, acc, state in cases:
            if state != 'ok': new.append((s, acc, state)); continue
            for s2, st2, parts in spec_command(I, s, c, w, cmd, kc):
                new.append((s2, acc + [parts] if st2 == 'ok' else acc, st2))
        cases = new
        if cmd == 'has-value': kc = len(c.list(opttext(cmd)) or ())
    return cases

def judge_options(I, o, w, c):
    """C23 on one path"""
    bad = []
    def add(k, t): bad.append((k, t + ' -- ' + how(o, w)))
    if any(x[0] in OUTSIDE + ('sync',) and x[-1] is False for x in o.st.log): return bad
    if o.kind == 'panic': add('panic', 'the program panics'); return bad
    got = unstrip(printed(o))
    nl = (('lit', '\n'),)
    sep = c.text('separator')[1]
    if not any(x in w['opts'] for x in COMMANDS):
        return bad
    for s, acc, state in tree(I, o.st, c, w):
        if state == 'any': continue
        body = join(acc, sep)
        if state == 'ok':
            ver = sum(1 for e in s.log if e[0] == 'set' and e[3])
            want = norm_parts(body + nl + ((('disp', ('doc', ver)),) + nl if 'print-doc' in w['opts'] else ()))
            if lits(I, s, want) != lits(I, s, got): add('output:' + which(w), 'prints %s where %s is documented' % (show(('str', got)), show(('str', want)))); break
        else:
            pre = lits(I, s, norm_parts(join(acc + [lit('Error')[1]], sep))); g = lits(I, s, got)
            if not startswith(g, pre): add('error:' + which(w), 'prints %s where an error after %s is due' % (show(('str', got)), show(('str', body)) if body else 'nothing')); break
            if 'print-doc' not in w['opts'] and mentions(got, "('doc',"): add('doc', 'prints the document without being asked')
    return bad

def lits(I, st, parts): return norm_parts(tuple(I.lits(st, parts)))
def startswith(g, pre):
    if len(g) < len(pre): return False
    for i, p in enumerate(pre):
        if g[i] == p: continue
        return i == len(pre) - 1 and p[0] == 'lit' and g[i][0] == 'lit' and g[i][1].startswith(p[1])
    return True
def which(w): return ' '.join(x for x in w['opts'] if x != 'input-file')

def option_worlds(P, thorough=False):
    ws = []
    full = dict(results=('Full',))
    def add(*a, **kw): ws.append(world(P, *a, **kw, **full))
    fmt = ('separator', 'array-separator', 'array-begin', 'array-end')
    flags = ('array-length', 'strip-quotes', 'quiet', 'print-doc')
    small = {'get_value': (1, 2, 3, 5), 'has_value': (1, 2, 4), 'get_children': (1, 2), 'has_children': (1, 3), 'set_value': (3, 6, 9)}
    for c, ns in small.items():
        for n in ns:
            f = {'fields': TRIPLE('int', 'bs', 'bool')} if c == 'set_value' else {}
            add(**{c: n}, **f)
            for x in fmt + flags + ('output-file',): add(x, **{c: n}, **f)
            add('set-true', 'set-false', **{c: n}, **f)
            add('separator', 'strip-quotes', 'quiet', **{c: n}, **f)
            add('array-begin', 'array-length', **{c: n}, **f)
            add(*fmt, *flags, 'output-file', set_true=1, set_false=1, **{c: n}, **f)
        for n in (None, 0): add(**{c: n})
    for c in ('has_value', 'has_children'):
        k = 2 if c == 'has_value' else 1
        for t in (None, 0, 1, 2, 3):
            add(**{c: k, 'set_true': t}); add(**{c: k, 'set_false': t})
            for f in (1, 2, 3): add(**{c: k, 'set_true': t, 'set_false': f})
    add(get_children=2); add('separator', get_children=2); add(has_children=2, set_true=2)
    for n in (1, 2):
        for t in (2, 3, None): add(has_value=n, has_children=1, set_true=t, set_false=3)
    for a, b in (('get_value', 'has_value'), ('get_value', 'get_children'), ('has_value', 'get_children'), ('get_children', 'has_children'), ('get_value', 'set_value'), ('has_value', 'set_value'), ('get_children', 'set_value'), ('has_children', 'set_value')):
        for more in ((), ('separator', 'quiet'), ('separator', 'strip-quotes', 'array-length')):
            add(*more, **{a: 1, b: ONEKEY[b], 'fields': TRIPLE('int')})
    add('separator', 'print-doc', get_value=1, has_value=1, get_children=1, set_value=3, fields=TRIPLE('int'))
    if thorough:
        import itertools
        for c in ('get_value', 'has_value', 'get_children', 'set_value'):
            f = {'fields': TRIPLE('int', 'bs')} if c == 'set_value' else {}
            for r in range(2, 5):
                for xs in itertools.combinations(fmt + flags, r): add(*xs, **{c: 2 if c != 'set_value' else 6}, **f)
        for cs in itertools.combinations(ONEKEY, 3): add('separator', **{c: ONEKEY[c] for c in cs}, fields=TRIPLE('int'))
        add('separator', has_value=3, has_children=2, set_true=5, set_false=5)
    return ws

def check_options(ctx):
    """As C24; the printed text of every command is compared, as a term over the looked-up values, with a specification of the
    output written down from the documentation of the options (separators, true and false texts, counts, lengths, array ends)."""
    ctx.rules = ['option definitions: names, arguments, defaults as documented', 'output term = specification for each command and option world']
    P = ctx.prog('tomlkit'); ctx.anchor(P, 'tomlkit::main')
    def one(ctx, w):
        c, I, outs = runs(ctx, P, w)
        seen = False
        for o in outs:
            for e in o.st.log:
                if e[0] == 'vars' and not seen:
                    seen = True
                    for k, t in judge_vars(e[1]): ctx.violate(k, t)
            ctx.obligation(True, '')
            try: b = judge_options(I, o, w, c)
            except (Unk, Bound) as u: ctx.undecided['oracle: %s' % u] = 1; continue
            for k, t in b: ctx.violate(k.split(':')[0] + ':' + k.split(':', 1)[1] if ':' in k else k, t)
        if outs and not seen: ctx.undecided['option definitions'] = 1
    ctx.each(one, [(w,) for w in option_worlds(P, ctx.tier == 'thorough')])
    ctx.floor('paths fully decided', 300)

CHECKS = {'C22': check_write, 'C23': check_options, 'C24': check_gate, 'C25': check_types}
