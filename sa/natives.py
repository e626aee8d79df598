"""Transfer functions for the standard library, regex and nom leaves."""
from .core import *
from . import rx

def table(I):
    N = {}
    def reg(*names):
        def d(f):
            for n in names: N[n] = f
            return f
        return d
    P = I.p
    ret = lambda st, v: [Out('ret', st, v)]
    def panic(st, msg):
        return Out('panic', st, None, I.loc + (msg,))
    def mkadt(ty, vname, fields):
        t = P.types[ty]
        for i, v in enumerate(t['v']):
            if v[0] == vname: return ('adt', ty, i, tuple(fields))
        raise Unk('variant %s of %s' % (vname, t.get('str')))
    def some(ty, v): return mkadt(ty, 'Some', (v,))
    def none(ty): return mkadt(ty, 'None', ())
    I.mkadt = mkadt

    def strval(st, v):
        """text value behind &str, String, &String, &&str, Cow ..."""
        for _ in range(6):
            if v[0] == 'str': return v
            if v[0] in ('ref', 'rc', 'guard', 'box'):
                v = I.load(st, I.deref(st, v)); continue
            if v[0] == 'vec' and all(isinstance(x, int) for x in v[1]):
                return lit(bytes(v[1]).decode('utf8', 'replace'))
            if v[0] == 'lin' or is_int(v):
                raise Unk('text of int')
            break
        raise Unk('text of ' + str(v[0]))
    I.strval = strval
    def key_of(st, v): return I.lits(st, strval(st, v)[1])

    # ------------------------------------------------------------ panics, control
    @reg('core::panicking::panic', 'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic_fmt',
         'std::option::unwrap_failed', 'std::option::expect_failed', 'std::result::unwrap_failed', 'core::panicking::panic_display',
         'core::panicking::unreachable_display', 'core::panicking::panic_const', 'core::panicking::panic_explicit',
         'core::panicking::assert_failed', 'core::option::unwrap_failed', 'core::result::unwrap_failed',
         'std::result::unwrap_failed::unwrap_failed_inner', 'std::panicking::begin_panic', 'core::panicking::panic_nounwind')
    def f(I, st, a, c): return [panic(st, c['name'])]
    @reg('std::process::exit')
    def f(I, st, a, c):
        s = st.copy(); s.log += (('exit', a[0]),)
        return [Out('exit', s, a[0], I.loc + ('exit',))]
    @reg('std::hint::must_use', 'std::convert::identity', 'std::hint::black_box')
    def f(I, st, a, c): return ret(st, a[0])
    @reg('std::mem::drop')
    def f(I, st, a, c):
        s = st.copy(); I.release(s, a[0]); return ret(s, UNIT)
    @reg('std::mem::replace')
    def f(I, st, a, c):
        s = st.copy(); old = I.load(s, a[0]); I.store(s, a[0], a[1]); return ret(s, old)
    @reg('std::mem::take')
    def f(I, st, a, c):
        s = st.copy(); old = I.load(s, a[0]); I.store(s, a[0], default(c['targs'][0])); return ret(s, old)
    @reg('std::mem::swap')
    def f(I, st, a, c):
        s = st.copy(); x = I.load(s, a[0]); y = I.load(s, a[1]); I.store(s, a[0], y); I.store(s, a[1], x); return ret(s, UNIT)
    def default(ty):
        t = P.types[ty]
        if P.is_str(ty): return lit('')
        if t['k'] == 'int': return 0
        if t['k'] == 'bool': return False
        if I.isvecty(ty): return ('vec', ())
        if t['k'] == 'adt' and t['name'] == 'std::collections::HashMap': return ('map', None, (), t['args'][0], t['args'][1])
        if t['k'] == 'adt' and t['name'] == 'std::option::Option': return none(ty)
        if t['k'] == 'adt' and t['name'] in ('std::cell::Cell', 'std::cell::RefCell'): return ('cell', default(t['args'][0]))
        if t['k'] == 'tuple': return ('tup', tuple(default(x) for x in t['f']))
        raise Unk('default')
    @reg('std::default::Default::default')
    def f(I, st, a, c):
        if c['inst'] is not None and c['inst']['local']: return NotImplemented
        return ret(st, default(c['destty']))

    # ------------------------------------------------------------ logging is off by assumption
    @reg('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::gt')
    def f(I, st, a, c):
        t = P.types[P.peel(c['targs'][0])]
        if t['k'] == 'adt' and 'log::LogLevel' in t['name']: return ret(st, False)
        if t['k'] in ('int', 'char'):
            x, y = a
            while isinstance(x, tuple) and x[0] == 'ref': x = I.load(st, x)
            while isinstance(y, tuple) and y[0] == 'ref': y = I.load(st, y)
            op = {'le': 'Le', 'lt': 'Lt', 'ge': 'Ge', 'gt': 'Gt'}[c['name'][-2:]]
            return [Out('ret', s, b) for s, b in I.cmp(st, op, x, y)]
        if t['k'] in ('str',) or P.is_str(P.peel(c['targs'][0])):
            x, y = strval(st, a[0]), strval(st, a[1])
            if is_lit(x) and is_lit(y):
                p, q = litval(x), litval(y)
                return ret(st, {'le': p <= q, 'lt': p < q, 'ge': p >= q, 'gt': p > q}[c['name'][-2:]])
            return [Out('ret', s, b) for s, b in I.opaque(st, (c['name'][-2:], x, y))]
        return NotImplemented
    @reg('tomllib::log::max_log_level', 'tomllib::log::__static_max_level', 'tomllib::log::__log')
    def f(I, st, a, c):
        if c['name'].endswith('__log'): return ret(st, UNIT)
        return ret(st, ('loglevel',))

    # ------------------------------------------------------------ Rc / cells / boxes
    @reg('std::rc::Rc::new', 'std::boxed::Box::new', 'std::sync::Arc::new')
    def f(I, st, a, c):
        s = st.copy(); ad = s.alloc(a[0])
        return ret(s, ('rc' if 'Rc' in c['name'] or 'Arc' in c['name'] else 'box', ad))
    @reg('std::rc::Rc::ptr_eq')
    def f(I, st, a, c): return ret(st, I.load(st, a[0]) == I.load(st, a[1]))
    @reg('std::rc::Rc::try_unwrap')
    def f(I, st, a, c): return ret(st, mkadt(c['destty'], 'Ok', (I.load(st, ('ref', a[0][1], ())),)))
    @reg('std::rc::Rc::get_mut', 'std::rc::Rc::make_mut')
    def f(I, st, a, c): raise Unk(c['name'])
    @reg('std::cell::Cell::new', 'std::cell::RefCell::new')
    def f(I, st, a, c): return ret(st, ('cell', a[0]))
    @reg('std::cell::Cell::into_inner', 'std::cell::RefCell::into_inner')
    def f(I, st, a, c): return ret(st, I.proj(st, a[0], 'C'))
    @reg('std::cell::Cell::get')
    def f(I, st, a, c): return ret(st, I.load(st, I.sub(st, a[0], 'C')))
    @reg('std::cell::Cell::set')
    def f(I, st, a, c):
        s = st.copy(); I.store(s, I.sub(s, a[0], 'C'), a[1]); return ret(s, UNIT)
    @reg('std::cell::Cell::replace', 'std::cell::RefCell::replace')
    def f(I, st, a, c):
        s = st.copy(); r = I.sub(s, a[0], 'C'); old = I.load(s, r); I.store(s, r, a[1]); return ret(s, old)
    @reg('std::cell::Cell::take', 'std::cell::RefCell::take')
    def f(I, st, a, c):
        s = st.copy(); r = I.sub(s, a[0], 'C'); old = I.load(s, r); I.store(s, r, default(c['destty'])); return ret(s, old)
    @reg('std::cell::RefCell::borrow', 'std::cell::RefCell::borrow_mut')
    def f(I, st, a, c):
        mut = c['name'].endswith('_mut')
        s = st.copy()
        r = I.sub(s, a[0], 'C')
        for k, (r2, m2) in s.bor.items():
            if r2 == r and (mut or m2):
                return [panic(st, 'already borrowed')]
        g = ('g', s.next); s.next += 1
        s.bor[g] = (r, mut)
        return ret(s, ('guard', r, g))
    @reg('std::cell::RefCell::try_borrow', 'std::cell::RefCell::try_borrow_mut', 'std::cell::Ref::map', 'std::cell::Ref::clone')
    def f(I, st, a, c): raise Unk(c['name'])
    @reg('std::cell::Cell::get_mut', 'std::cell::RefCell::get_mut', 'std::cell::Cell::as_ptr')
    def f(I, st, a, c): return ret(st, I.sub(st, a[0], 'C'))
    @reg('std::boxed::Box::new_uninit')
    def f(I, st, a, c):
        s = st.copy(); ad = s.next; s.next += 1
        return ret(s, ('box', ad))
    @reg('std::boxed::box_assume_init_into_vec_unsafe', 'std::slice::into_vec', 'std::slice::<impl [T]>::into_vec')
    def f(I, st, a, c):
        v = I.load(st, ('ref', a[0][1], ()))
        while v[0] in ('tup', 'adt'):     # MaybeUninit / ManuallyDrop wrappers
            v = [x for x in (v[1] if v[0] == 'tup' else v[3]) if x is not None][-1]
        return ret(st, v)

    @reg('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
         'std::borrow::BorrowMut::borrow_mut', 'std::convert::AsMut::as_mut')
    def f(I, st, a, c):
        if c['inst'] is not None and c['inst']['local']: return NotImplemented
        v = a[0]
        if v[0] == 'str': return ret(st, v)
        if v[0] == 'slice': return ret(st, v)
        dt = P.types[c['destty']]
        x = I.load(st, v) if v[0] == 'ref' else v
        if x[0] == 'str' and dt['k'] == 'ref':
            if P.types[dt['e']]['k'] == 'str' or (P.types[dt['e']]['k'] == 'slice'): return ret(st, x)
            return ret(st, v)
        if x[0] in ('rc', 'box', 'guard'): return ret(st, I.deref(st, x))
        if x[0] in ('ref',) and dt['k'] == 'ref' and c['targs'] and P.types[c['targs'][0]]['k'] == 'ref': return ret(st, x)
        if x[0] in ('vec', 'slice'): return ret(st, v)
        if x[0] == 'sym' and I.isvecty(x[2]): return ret(st, v)
        if x[0] == 'adt' and P.adtname(x[1]) == 'std::string::String': return ret(st, v)
        return NotImplemented

    @reg('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned', 'std::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec',
         'std::slice::<impl [T]>::to_owned')
    def f(I, st, a, c):
        v = a[0]
        if v[0] == 'str': return ret(st, v)
        if v[0] == 'slice':
            s = [(st, I.load(st, v[1]))]
            return [Out('ret', q, ('vec', x[1][v[2]:v[3]])) for q, x in I.expand_fork(st, I.load(st, v[1]))]
        return ret(st, I.load(st, v))
    @reg('std::clone::Clone::clone_from')
    def f(I, st, a, c):
        s = st.copy(); I.store(s, a[0], I.load(s, a[1])); return ret(s, UNIT)

    # ------------------------------------------------------------ conversions between text types
    @reg('std::convert::Into::into', 'std::convert::From::from', 'std::string::ToString::to_string', 'std::borrow::Cow::into_owned',
         'std::string::String::from', 'std::string::String::as_str', 'std::string::String::into_boxed_str', 'std::str::<impl str>::to_owned',
         'std::string::String::as_mut_str', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes',
         'std::str::from_utf8', 'std::str::<impl str>::into_string', 'std::borrow::Cow::to_mut', 'std::borrow::Cow::is_borrowed')
    def f(I, st, a, c):
        v = a[0]
        nm = c['name']
        if c['inst'] is not None and c['inst']['local'] and 'bbs' in c['inst'] and not nm.endswith('to_string'): return NotImplemented
        if nm.endswith('to_mut') or nm.endswith('is_borrowed'): raise Unk(nm)
        t = P.types[c['destty']]
        if nm.endswith('ToString::to_string'):
            ty = c['targs'][0]
            return [Out('ret', o.st, ('str', norm_parts(o.val))) if o.kind == 'ret' else o
                    for o in I.display(st, v, ty, None)]
        if isinstance(v, tuple) and v[0] == 'str': return ret(st, v)
        if isinstance(v, tuple) and v[0] == 'ref':
            x = I.load(st, v)
            if isinstance(x, tuple) and x[0] == 'str' and (P.is_str(c['destty']) or t['k'] == 'ref'): return ret(st, x)
        if c['targs'] and len(c['targs']) >= 2 and c['targs'][0] == c['targs'][1]: return ret(st, v)
        if is_int(v) and t['k'] in ('int', 'char'): return ret(st, v)
        if P.is_str(c['destty']) and is_int(v): # char -> String
            return ret(st, ('str', (('lit', chr(v)) if isinstance(v, int) else ('chr', v),)))
        return NotImplemented

    # ------------------------------------------------------------ strings
    @reg('std::string::String::new', 'std::string::String::with_capacity')
    def f(I, st, a, c): return ret(st, lit(''))
    @reg('std::string::String::push_str')
    def f(I, st, a, c):
        s = st.copy(); x = I.load(s, a[0]); I.store(s, a[0], ('str', norm_parts(x[1] + strval(s, a[1])[1]))); return ret(s, UNIT)
    @reg('std::string::String::push')
    def f(I, st, a, c):
        s = st.copy(); x = I.load(s, a[0]); ch = a[1]
        p = ('lit', chr(ch)) if isinstance(ch, int) else ('chr', ch)
        I.store(s, a[0], ('str', norm_parts(x[1] + (p,)))); return ret(s, UNIT)
    @reg('std::fmt::Write::write_str', 'std::fmt::Write::write_char', 'std::fmt::Write::write_fmt')
    def f(I, st, a, c):
        outs = []
        for o in (I.fmt_args(st, a[1]) if c['name'].endswith('fmt') else ret(st, strval(st, a[1])[1] if c['name'].endswith('str') else (('lit', chr(a[1])) if isinstance(a[1], int) else ('chr', a[1]),))):
            if o.kind != 'ret': outs.append(o); continue
            s = o.st.copy(); x = I.load(s, a[0])
            if x[0] == 'fmtr': I.store(s, a[0], ('fmtr', norm_parts(x[1] + o.val)))
            else: I.store(s, a[0], ('str', norm_parts(x[1] + o.val)))
            outs.append(Out('ret', s, mkadt(c['destty'], 'Ok', (UNIT,))))
        return outs
    @reg('std::ops::Add::add')
    def f(I, st, a, c):
        if isinstance(a[0], tuple) and a[0][0] == 'str':
            return ret(st, ('str', norm_parts(a[0][1] + strval(st, a[1])[1])))
        x, y = [I.load(st, z) if isinstance(z, tuple) and z[0] == 'ref' else z for z in a]
        if is_int(x) and is_int(y): return ret(st, ladd(x, y))
        return NotImplemented
    @reg('std::ops::Sub::sub')
    def f(I, st, a, c):
        x, y = [I.load(st, z) if isinstance(z, tuple) and z[0] == 'ref' else z for z in a]
        if is_int(x) and is_int(y):
            return [Out('ret', s, lsub(x, y)) if not b else panic(s, 'subtract with overflow') for s, b in I.cmp(st, 'Lt', x, y)]
        return NotImplemented
    @reg('std::ops::AddAssign::add_assign')
    def f(I, st, a, c):
        s = st.copy(); x = I.load(s, a[0])
        if isinstance(x, tuple) and x[0] == 'str':
            I.store(s, a[0], ('str', norm_parts(x[1] + strval(s, a[1])[1])))
        else:
            y = a[1]
            if isinstance(y, tuple) and y[0] == 'ref': y = I.load(s, y)
            I.store(s, a[0], ladd(x, y))
        return ret(s, UNIT)
    @reg('std::string::String::clear')
    def f(I, st, a, c):
        s = st.copy(); I.store(s, a[0], lit('')); return ret(s, UNIT)
    @reg('std::string::String::len', 'core::str::<impl str>::len', 'tomllib::nom::InputLength::input_len', 'nom::InputLength::input_len')
    def f(I, st, a, c): return ret(st, slen(strval(st, a[0])[1]))
    @reg('std::string::String::is_empty', 'core::str::<impl str>::is_empty')
    def f(I, st, a, c):
        return [Out('ret', s, b) for s, b in I.cmp(st, 'Eq', slen(I.lits(st, strval(st, a[0])[1])), 0)]
    @reg('std::string::String::truncate')
    def f(I, st, a, c):
        s = st.copy(); x = I.load(s, a[0])
        I.store(s, a[0], ('str', cut(s, x[1], 0, a[1]))); return ret(s, UNIT)
    @reg('std::string::String::insert_str', 'std::string::String::insert')
    def f(I, st, a, c):
        s = st.copy(); x = I.load(s, a[0]); n = slen(x[1])
        p = strval(s, a[2])[1] if c['name'].endswith('str') else ((('lit', chr(a[2])),) if isinstance(a[2], int) else (('chr', a[2]),))
        I.store(s, a[0], ('str', norm_parts(cut(s, x[1], 0, a[1]) + p + cut(s, x[1], a[1], n)))); return ret(s, UNIT)
    @reg('core::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_uppercase',
         'std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_ascii_uppercase', 'core::str::<impl str>::trim',
         'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end',
         'core::str::<impl str>::trim_left', 'core::str::<impl str>::trim_right', 'core::str::<impl str>::trim_left_matches',
         'core::str::<impl str>::trim_right_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_end_matches',
         'std::str::<impl str>::replace')
    def f(I, st, a, c):
        x = strval(st, a[0])
        op = c['name'].split('::')[-1]
        if is_lit(x) and len(a) == 1:
            s = litval(x)
            fn = {'to_lowercase': str.lower, 'to_uppercase': str.upper, 'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}.get(op)
            if fn: return ret(st, lit(fn(s)))
        extra = ()
        if len(a) > 1:
            v = a[1]
            if op.endswith('matches') and isinstance(v, tuple) and (v[0] in ('adt', 'fnitem')):
                extra = (('set', charset(st, v)),)
            elif charlist(I, st, v) is not None: extra = (('set', tuple(sorted((x, x) for x in charlist(I, st, v)))),)
            elif is_int(v): extra = (('set', (( v, v),)),)
            else: extra = tuple(strval(st, y) for y in a[1:])
        return ret(st, ('str', ((op, (I.lits(st, x[1]),) + extra),)))
    def charlist(I, st, v):
        """characters of a pattern given as a list of characters"""
        for _ in range(3):
            if isinstance(v, tuple) and v and v[0] == 'slice':
                b = I.load(st, v[1])
                v = ('vec', b[1][v[2]:v[3]]) if b[0] == 'vec' else b
            elif isinstance(v, tuple) and v and v[0] == 'ref': v = I.load(st, v)
        if isinstance(v, tuple) and v and v[0] == 'vec' and v[1] and all(isinstance(x, int) for x in v[1]): return v[1]
        return None
    def charset(st, clo):
        """set of characters a closure accepts, as sorted intervals"""
        s = st.copy(); at = ('sym', ('char?', s.next), None); s.next += 1
        v = ('lin', ((at, 1),), 0)
        I.refine(s, v, 0, 0x10ffff)
        acc = []
        for o in I.callvalue(s, clo, [v]):
            if o.kind != 'ret': raise Unk('char predicate')
            for s2, b in I.decide(o.st, o.val):
                if b: acc += intervals(s2, v)
        return union(acc)
    I.charset = charset; I.union = lambda xs: union(xs)
    def intervals(s, v):
        lo, hi = I.bounds(s, v)
        dr = ((v[1][0][0], 1),)
        out = [(lo, hi)]
        for k in s.exp:
            if isinstance(k, tuple) and k and k[0] == 'ne' and k[1] == dr:
                nx = []
                for l, h in out:
                    if l <= k[2] <= h:
                        if l < k[2]: nx.append((l, k[2] - 1))
                        if k[2] < h: nx.append((k[2] + 1, h))
                    else: nx.append((l, h))
                out = nx
        return out
    I.intervals = intervals
    def union(xs):
        out = []
        for l, h in sorted(xs):
            if out and l <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], h))
            else: out.append((l, h))
        return tuple(out)

    def cut(st, parts, a, b):
        """parts[a..b] (byte offsets)"""
        out = []; pos = 0
        started = False; res = []
        n = len(parts)
        def known(x, y):   # x == y ?
            d = lsub(x, y)
            if d == 0: return True
            return I.bounds(st, d) == (0, 0)
        if len(parts) == 1 and parts[0][0] == 'sl':
            p = parts[0]
            return norm_parts((('sl', p[1], ladd(p[2], a), ladd(p[2], b)),))
        i = 0
        # skip up to a
        while not known(pos, a):
            if i >= n: raise Unk('slice bounds')
            p = parts[i]; e = ladd(pos, slen((p,)))
            lo, hi = I.bounds(st, lsub(a, e))
            if lo is not None and lo >= 0: pos = e; i += 1; continue
            d = lsub(a, pos)
            if p[0] == 'lit' and isinstance(d, int):
                t = p[1].encode('utf8')[d:].decode('utf8', 'replace')
                parts = (('lit', t),) + tuple(parts[i+1:]); n = len(parts); i = 0; pos = a; break
            if p[0] == 'sl':
                parts = (('sl', p[1], ladd(p[2], d), p[3]),) + tuple(parts[i+1:]); n = len(parts); i = 0; pos = a; break
            raise Unk('slice inside part')
        while not known(pos, b):
            if i >= n: raise Unk('slice bounds')
            p = parts[i]; e = ladd(pos, slen((p,)))
            lo, hi = I.bounds(st, lsub(b, e))
            if lo is not None and lo >= 0: out.append(p); pos = e; i += 1; continue
            d = lsub(b, pos)
            if p[0] == 'lit' and isinstance(d, int):
                out.append(('lit', p[1].encode('utf8')[:d].decode('utf8', 'replace'))); break
            if p[0] == 'sl':
                out.append(('sl', p[1], p[2], ladd(p[2], d))); break
            raise Unk('slice inside part')
        return norm_parts(out)
    I.cut = cut
    def range_of(st, r, n):
        nm = P.adtname(r[1])
        f = r[3]
        if nm == 'std::ops::Range': return f[0], f[1]
        if nm == 'std::ops::RangeFrom': return f[0], n
        if nm == 'std::ops::RangeTo': return 0, f[0]
        if nm == 'std::ops::RangeFull': return 0, n
        if nm == 'std::ops::RangeInclusive': return f[0], ladd(f[1], 1)
        if nm == 'std::ops::RangeToInclusive': return 0, ladd(f[0], 1)
        raise Unk('range ' + str(nm))
    @reg('core::str::<impl str>::as_ptr', 'std::string::String::as_ptr')
    def f(I, st, a, c):
        p = strval(st, a[0])[1]
        if p == (): raise Unk('ptr of empty')
        if p[0][0] == 'sl': return ret(st, ladd(atom(('ptr', p[0][1])), p[0][2]))
        raise Unk('as_ptr')
    @reg('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with', 'core::str::<impl str>::contains')
    def f(I, st, a, c):
        x = strval(st, a[0]); op = c['name'].split('::')[-1]
        if is_int(a[1]): y = lit(chr(a[1])) if isinstance(a[1], int) else None
        elif isinstance(a[1], tuple) and a[1][0] in ('adt', 'fnitem'):
            return [Out('ret', s, b) for s, b in I.opaque(st, (op, I.lits(st, x[1]), charset(st, a[1])))]
        else: y = strval(st, a[1])
        if y is None: raise Unk('pattern')
        xs = I.lits(st, x[1]); ys = I.lits(st, y[1])
        if ys == (): return ret(st, True)
        if is_lit(('str', ys)):
            t = ys[0][1]
            if is_lit(('str', xs)):
                s = litval(('str', xs))
                return ret(st, s.startswith(t) if op == 'starts_with' else s.endswith(t) if op == 'ends_with' else t in s)
            if op == 'starts_with':
                return [Out('ret', s, b) for s, b in prefix(st, xs, t)]
            if op == 'ends_with' and xs and xs[-1][0] == 'lit':
                s = xs[-1][1]
                if len(s) >= len(t): return ret(st, s.endswith(t))
            if op == 'contains' and any(p[0] == 'lit' and t in p[1] for p in xs): return ret(st, True)
        return [Out('ret', s, b) for s, b in I.opaque(st, (op, xs, ys))]
    def prefix(st, xs, t):
        """does the text start with the literal t: [(state, bool)]"""
        i = 0
        while xs and xs[0][0] == 'lit':
            l = xs[0][1]
            if l.startswith(t): return [(st, True)]
            if not t.startswith(l): return [(st, False)]
            t = t[len(l):]; xs = xs[1:]
        if not xs: return [(st, False)]
        p = xs[0]
        if p[0] != 'sl': return I.opaque(st, ('starts_with', xs, t))
        b, pos = p[1], p[2]
        # known text at this place?
        for n in range(1, len(t) + 1):
            if st.exp.get(('notpfx', b, pos, t[:n])): return [(st, False)]
        fs = st.exp.get(('firstset', b, pos))
        if fs is not None and not any(l <= ord(t[0]) <= h for l, h in fs): return [(st, False)]
        out = []
        s = st.copy()
        d = lsub(p[3], pos)
        if I.refine(s, lsub(d, len(t.encode('utf8'))), 0, None) or len(xs) > 1:
            s.text[(b, pos)] = t
            s.note('prefix', ('str', (p,)), t)
            if len(xs) == 1: out.append((s, True))
        s = st.copy(); s.exp[('notpfx', b, pos, t)] = True
        s.note('noprefix', ('str', (p,)), t)
        out.append((s, False))
        return out
    I.prefix = prefix

    # ------------------------------------------------------------ regex
    @reg('tomllib::regex::Regex::new', 'regex::Regex::new')
    def f(I, st, a, c):
        x = strval(st, a[0])
        if not is_lit(x): raise Unk('regex from unknown text')
        return ret(st, mkadt(c['destty'], 'Ok', (('re', litval(x)),)))
    def re_match(st, re, text):
        """[(state, end or None)] match at the start of the text"""
        pat = re[1]
        r = rx.parse(pat)
        if not r.anchored: raise Unk('unanchored regex')
        ps = I.lits(st, text[1])
        if ps == ():
            if r.nullable: return [(st, 0)]
            return [(st, None)]
        p = text[1][0] if text[1] and text[1][0][0] == 'sl' else ps[0]
        if p[0] == 'lit' and len(ps) == 1:
            m = r.match(p[1])
            return [(st, None if m is None else len(p[1][:m].encode('utf8')))]
        out = []
        if p[0] != 'sl': b, pos, rest = ('text', ps), 0, slen(ps)
        else: b, pos, rest = p[1], p[2], slen(text[1])
        key = ('m', pat, b, pos)
        d = st.exp.get(('re', key))
        e = atom(('gap', key))
        if d is None or d:
            s = st.copy(); s.exp[('re', key)] = True
            ok = I.refine(s, e, r.minlen, r.maxlen) and I.refine(s, lsub(rest, e), 0, None)
            pre = r.prefix()
            if p[0] == 'sl':
                known = s.text.get((b, pos))
                fs = r.firstset()
                if known is not None and not r.nullable and fs is not None and not any(l <= ord(known[0]) <= h for l, h in fs): ok = False
                f0 = s.exp.get(('firstset', b, pos))
                if ok and not r.nullable and fs is not None:
                    if f0 is not None:
                        if not any(l <= h2 and l2 <= h for l, h in fs for l2, h2 in f0): ok = False
                    elif known is None: s.exp[('firstset', b, pos)] = fs
                if ok and r.nullable and fs is not None:
                    if known is not None and not rx.inset(ord(known[0]), fs) or f0 is not None and not rx.inter(fs, f0):
                        ok = I.refine(s, e, 0, 0)
                        if ok:
                            out.append((s, 0)); ok = False      # only the empty match
                for n in range(1, len(pre) + 1):
                    if s.exp.get(('notpfx', b, pos, pre[:n])): ok = False
                if known is not None and pre and not (known.startswith(pre) or pre.startswith(known)): ok = False
                if ok:
                    if pre and (known is None or len(known) < len(pre)): s.text[(b, pos)] = pre
                    suf = r.suffix()
                    if suf and r.minlen >= len(pre) + len(suf): s.text[(b, ladd(ladd(pos, e), -len(suf)))] = suf
                    s.segs += ((b, pos, ladd(pos, e), 're', pat),)
            if ok:
                if d is None: s.note('match', pat, b, pos)
                out.append((s, e))
        if not r.nullable and not d:
            s = st.copy(); s.exp[('re', key)] = False
            if d is None: s.note('nomatch', pat, b, pos)
            out.append((s, None))
        return out
    I.re_match = re_match
    @reg('tomllib::regex::Regex::find', 'regex::Regex::find')
    def f(I, st, a, c):
        re = I.load(st, a[0]); text = strval(st, a[1])
        ot = c['destty']; tt = P.types[ot]['args'][0]
        return [Out('ret', s, none(ot) if e is None else some(ot, ('tup', (0, e)))) for s, e in re_match(st, re, text)]
    @reg('tomllib::regex::Regex::is_match')
    def f(I, st, a, c):
        re = I.load(st, a[0]); text = strval(st, a[1])
        return [Out('ret', s, e is not None) for s, e in re_match(st, re, text)]
    @reg('tomllib::regex::Regex::captures')
    def f(I, st, a, c):
        re = I.load(st, a[0]); text = strval(st, a[1])
        ot = c['destty']
        outs = []
        for s, e in re_match(st, re, text):
            if e is None: outs.append(Out('ret', s, none(ot))); continue
            gs = [(0, e)]
            for (pre, post, always) in rx.parse(re[1]).groups():
                if pre is None or post is None or not always: raise Unk('capture group')
                gs.append((pre, lsub(e, post)))
            outs.append(Out('ret', s, some(ot, ('caps', tuple(gs)))))
        return outs
    @reg('tomllib::regex::Captures::iter_pos')
    def f(I, st, a, c):
        v = I.load(st, a[0])
        return ret(st, ('iter', 'caps', v[1]))

    # ------------------------------------------------------------ equality
    def eq_ref(st, ra, rb, ta, tb):
        """[(state, bool)] or Out list for panics; ra/rb reference (or value for str)"""
        while True:
            t = P.types[ta]
            if t['k'] == 'ref' and ra[0] == 'ref':
                ra = I.load(st, ra); ta = t['e']; continue
            if t['k'] == 'ref': ta = t['e']; continue
            break
        while True:
            t = P.types[tb]
            if t['k'] == 'ref' and rb[0] == 'ref':
                rb = I.load(st, rb); tb = t['e']; continue
            if t['k'] == 'ref': tb = t['e']; continue
            break
        t = P.types[ta]
        if P.is_str(ta): return I.str_eq(st, strval(st, ra), strval(st, rb))
        if t['k'] in ('int', 'char'):
            return I.cmp(st, 'Eq', I.load(st, ra) if isinstance(ra, tuple) and ra[0] == 'ref' else ra, I.load(st, rb) if isinstance(rb, tuple) and rb[0] == 'ref' else rb)
        if t['k'] == 'bool':
            out = []
            for s, x in I.decide(st, I.load(st, ra)):
                for s2, y in I.decide(s, I.load(s, rb)): out.append((s2, x == y))
            return out
        n = t.get('name')
        if t['k'] == 'adt' and n in ('std::rc::Rc', 'std::boxed::Box', 'std::cell::Ref', 'std::cell::RefMut'):
            x, y = I.load(st, ra), I.load(st, rb)
            return eq_ref(st, I.deref(st, x), I.deref(st, y), t['args'][0], P.types[tb]['args'][0])
        if t['k'] == 'adt' and n in ('std::cell::Cell', 'std::cell::RefCell'):
            return eq_ref(st, I.sub(st, ra, 'C'), I.sub(st, rb, 'C'), t['args'][0], P.types[tb]['args'][0])
        if t['k'] == 'adt' and n == 'std::option::Option':
            out = []
            for s, x in I.loadx(st, ra):
                for s2, y in I.loadx(s, rb):
                    if x[2] != y[2]: out.append((s2, False))
                    elif not x[3]: out.append((s2, True))
                    else: out += eq_ref(s2, I.sub(s2, I.sub(s2, ra, ('d', x[2])), ('f', 0)), I.sub(s2, I.sub(s2, rb, ('d', y[2])), ('f', 0)), t['args'][0], P.types[tb]['args'][0])
            return out
        if I.isvecty(ta) or t['k'] == 'array':
            out = []
            for s, n1, e1 in seq(st, ra):
                for s2, n2, e2 in seq(s, rb):
                    if n1 != n2: out.append((s2, False)); continue
                    cur = [(s2, True)]
                    for i in range(n1):
                        nx = []
                        for s3, b in cur:
                            if not b: out.append((s3, False)); continue
                            nx += eq_ref(s3, e1(i), e2(i), I.elemty(ta), I.elemty(tb))
                        cur = nx
                    out += cur
            return out
        if t['k'] == 'tuple':
            cur = [(st, True)]; out = []
            for i, f in enumerate(t['f']):
                nx = []
                for s3, b in cur:
                    if not b: out.append((s3, False)); continue
                    nx += eq_ref(s3, I.sub(s3, ra, ('f', i)), I.sub(s3, rb, ('f', i)), f, P.types[tb]['f'][i])
                cur = nx
            return out + cur
        inst = P.impls.get(('std::cmp::PartialEq::eq', ta))
        if n == 'std::collections::HashMap': inst = None
        if inst is not None:
            # nested comparisons of unknown nodes stay opaque
            va, vb = I.load(st, ra), I.load(st, rb)
            if va == vb and isinstance(va, tuple) and va[0] == 'sym': return [(st, True)]
            if isinstance(va, tuple) and isinstance(vb, tuple) and va[0] == 'sym' and vb[0] == 'sym' and I.eq_opaque:
                return I.opaque(st, ('eq', ta) + tuple(sorted((va[1], vb[1]), key=repr)))
            out = []
            for o in I.call(st, inst, [ra, rb]):
                if o.kind != 'ret': raise Unk('eq outcome ' + o.kind)
                out += I.decide(o.st, o.val)
            return out
        if t['k'] == 'adt' and n in ('std::collections::HashMap',):
            va, vb = I.load(st, ra), I.load(st, rb)
            if va == vb: return [(st, True)]
            return I.opaque(st, ('eqmap', repr(va), repr(vb)))
        raise Unk('equality of ' + P.tyname(ta))
    I.eq_ref = eq_ref
    I.eq_opaque = True
    @reg('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
    def f(I, st, a, c):
        if c['inst'] is not None and c['inst']['local'] and 'bbs' in c['inst']: return NotImplemented
        ta, tb = c['targs'][0], c['targs'][-1] if len(c['targs']) > 1 else c['targs'][0]
        neg = c['name'].endswith('ne')
        def wrap(x, t):
            return x
        return [Out('ret', s, b != neg) for s, b in eq_ref(st, a[0], a[1], ta, tb)]
    @reg('std::cmp::Ord::max', 'std::cmp::Ord::min', 'std::cmp::max', 'std::cmp::min')
    def f(I, st, a, c):
        mx = c['name'].endswith('max')
        return [Out('ret', s, (a[1] if b else a[0]) if mx else (a[0] if b else a[1])) for s, b in I.cmp(st, 'Le', a[0], a[1])]

    # ------------------------------------------------------------ sequences
    def seq(st, r):
        """[(state, length, elem(i) -> ref)] for a vec / slice / array reference"""
        if r[0] == 'slice':
            return [(st, r[3] - r[2], lambda i, r=r: ('ref', r[1][1], r[1][2] + (('i', r[2] + i),)))]
        v = I.load(st, r)
        if isinstance(v, tuple) and v[0] == 'slice':
            return seq(st, v)
        if isinstance(v, tuple) and v[0] in ('ref', 'rc', 'guard', 'box'):
            return seq(st, I.deref(st, v))
        out = []
        for s, x in I.expand_fork(st, v):
            if x[0] != 'vec': raise Unk('sequence of ' + x[0])
            if r[0] == 'val':
                out.append((s, len(x[1]), lambda i, x=x: ('ref', ('K', x[1][i]), ())))
            else:
                out.append((s, len(x[1]), lambda i, r=r: ('ref', r[1], r[2] + (('i', i),))))
        return out
    I.seq = seq
    @reg('std::vec::Vec::new', 'std::vec::Vec::with_capacity')
    def f(I, st, a, c): return ret(st, ('vec', ()))
    @reg('std::vec::Vec::len', 'core::slice::<impl [T]>::len')
    def f(I, st, a, c): return [Out('ret', s, n) for s, n, _ in seq(st, a[0])]
    @reg('std::vec::Vec::is_empty', 'core::slice::<impl [T]>::is_empty')
    def f(I, st, a, c): return [Out('ret', s, n == 0) for s, n, _ in seq(st, a[0])]
    def vecop(name):
        def d(fn):
            def g(I, st, a, c):
                outs = []
                for s, v in I.expand_fork(st, I.load(st, a[0])):
                    s = s.copy()
                    r = fn(s, list(v[1]), a, c)
                    if isinstance(r, Out): outs.append(r); continue
                    new, val = r
                    if new is not None: I.store(s, a[0], ('vec', tuple(new)))
                    outs.append(Out('ret', s, val))
                return outs
            for n in ([name] if isinstance(name, str) else name): N[n] = g
            return g
        return d
    @vecop('std::vec::Vec::push')
    def f(s, v, a, c): return v + [a[1]], UNIT
    @vecop('std::vec::Vec::pop')
    def f(s, v, a, c):
        if not v: return None, none(c['destty'])
        return v[:-1], some(c['destty'], v[-1])
    @vecop('std::vec::Vec::insert')
    def f(s, v, a, c):
        if not isinstance(a[1], int): raise Unk('insert index')
        if a[1] > len(v): return panic(s, 'insertion index')
        return v[:a[1]] + [a[2]] + v[a[1]:], UNIT
    @vecop('std::vec::Vec::remove')
    def f(s, v, a, c):
        if not isinstance(a[1], int): raise Unk('remove index')
        if a[1] >= len(v): return panic(s, 'removal index')
        return v[:a[1]] + v[a[1]+1:], v[a[1]]
    @vecop('std::vec::Vec::swap_remove')
    def f(s, v, a, c):
        if not isinstance(a[1], int): raise Unk('remove index')
        if a[1] >= len(v): return panic(s, 'removal index')
        x = v[a[1]]; l = v[-1]; w = v[:-1]
        if a[1] < len(w): w[a[1]] = l
        return w, x
    @reg('std::vec::Vec::truncate')
    def f(I, st, a, c):
        outs = []
        for s, v in I.expand_fork(st, I.load(st, a[0])):
            if isinstance(a[1], int):
                s = s.copy(); I.store(s, a[0], ('vec', v[1][:a[1]])); outs.append(Out('ret', s, UNIT)); continue
            raise Unk('truncate')
        return outs
    @vecop(['std::vec::Vec::clear'])
    def f(s, v, a, c): return [], UNIT
    @vecop(['std::vec::Vec::reverse', 'core::slice::<impl [T]>::reverse'])
    def f(s, v, a, c): return v[::-1], UNIT
    @reg('std::vec::Vec::append')
    def f(I, st, a, c):
        outs = []
        for s, v in I.expand_fork(st, I.load(st, a[0])):
            for s2, w in I.expand_fork(s, I.load(s, a[1])):
                s3 = s2.copy(); I.store(s3, a[0], ('vec', v[1] + w[1])); I.store(s3, a[1], ('vec', ())); outs.append(Out('ret', s3, UNIT))
        return outs
    @reg('std::vec::Vec::extend_from_slice')
    def f(I, st, a, c):
        outs = []
        for s, v in I.expand_fork(st, I.load(st, a[0])):
            for s2, n, e in seq(s, a[1]):
                s3 = s2.copy(); I.store(s3, a[0], ('vec', v[1] + tuple(I.load(s3, e(i)) for i in range(n)))); outs.append(Out('ret', s3, UNIT))
        return outs
    @reg('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'std::vec::Vec::into_boxed_slice')
    def f(I, st, a, c): return ret(st, a[0])
    @reg('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::string::String::reserve', 'std::string::String::shrink_to_fit')
    def f(I, st, a, c): return ret(st, UNIT)
    @reg('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last_mut', 'core::slice::<impl [T]>::first_mut')
    def f(I, st, a, c):
        l = 'last' in c['name']
        return [Out('ret', s, none(c['destty']) if n == 0 else some(c['destty'], e(n - 1 if l else 0))) for s, n, e in seq(st, a[0])]
    @reg('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
    def f(I, st, a, c):
        outs = []
        for s, n, e in seq(st, a[0]):
            if isinstance(a[1], int):
                outs.append(Out('ret', s, some(c['destty'], e(a[1])) if 0 <= a[1] < n else none(c['destty'])))
            elif is_int(a[1]):
                for i in range(n):
                    for s2, b in I.cmp(s, 'Eq', a[1], i):
                        if b: outs.append(Out('ret', s2, some(c['destty'], e(i))))
                        else: s = s2
                for s2, b in I.cmp(s, 'Ge', a[1], n):
                    if b: outs.append(Out('ret', s2, none(c['destty'])))
            else: raise Unk('get range')
        return outs
    @reg('core::slice::<impl [T]>::contains')
    def f(I, st, a, c):
        ty = c['targs'][0]
        out = []
        for s, n, e in seq(st, a[0]):
            cur = [s]
            for i in range(n):
                nx = []
                for s2 in cur:
                    for s3, b in eq_ref(s2, e(i), a[1], ty, ty):
                        if b: out.append(Out('ret', s3, True))
                        else: nx.append(s3)
                cur = nx
            out += [Out('ret', s2, False) for s2 in cur]
        return out
    @reg('std::slice::<impl [T]>::join', 'std::slice::<impl [T]>::concat')
    def f(I, st, a, c):
        sep = strval(st, a[1])[1] if len(a) > 1 else ()
        outs = []
        for s, n, e in seq(st, a[0]):
            ps = ()
            for i in range(n):
                if i: ps += sep
                ps += strval(s, e(i))[1]
            outs.append(Out('ret', s, ('str', norm_parts(ps))))
        return outs
    @reg('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
    def f(I, st, a, c):
        fst = c['name'].endswith('first'); outs = []
        for s, n, e in seq(st, a[0]):
            if n == 0: outs.append(Out('ret', s, none(c['destty']))); continue
            base, lo = (a[0][1], a[0][2]) if a[0][0] == 'slice' else (a[0], 0)
            sl = ('slice', base, lo + 1, lo + n) if fst else ('slice', base, lo, lo + n - 1)
            outs.append(Out('ret', s, some(c['destty'], ('tup', (e(0 if fst else n - 1), sl)))))
        return outs
    @reg('core::slice::<impl [T]>::starts_with')
    def f(I, st, a, c):
        out = []; ty = c['targs'][0]
        for s, n, e in seq(st, a[0]):
            for s2, m, e2 in seq(s, a[1]):
                if m > n: out.append(Out('ret', s2, False)); continue
                cur = [s2]
                for i in range(m):
                    nx = []
                    for s3 in cur:
                        for s4, b in eq_ref(s3, e(i), e2(i), ty, ty):
                            if b: nx.append(s4)
                            else: out.append(Out('ret', s4, False))
                    cur = nx
                out += [Out('ret', s3, True) for s3 in cur]
        return out

    @reg('std::ops::Index::index', 'std::ops::IndexMut::index_mut', 'std::slice::SliceIndex::index', 'std::slice::SliceIndex::index_mut',
         'core::str::<impl str>::get', 'core::slice::index::SliceIndex::index', 'core::str::<impl str>::get_unchecked')
    def f(I, st, a, c):
        if c['inst'] is not None and c['inst']['local'] and 'bbs' in c['inst']: return NotImplemented
        cont, ix = a
        if 'SliceIndex' in c['name']: cont, ix = ix, cont
        v = cont
        if v[0] == 'ref':
            x = I.load(st, v)
            while isinstance(x, tuple) and x[0] in ('ref', 'guard', 'rc'):
                v = I.deref(st, x); x = I.load(st, v) if v[0] == 'ref' else v[1]
            if isinstance(x, tuple) and x[0] == 'str': v = x
            if isinstance(x, tuple) and x[0] == 'map':
                outs = []
                for s, b in lookup(st, v, ix):
                    outs.append(Out('ret', s, ('ref', v[1], v[2] + (('k', key_of(s, ix)),))) if b else panic(s, 'no entry for key'))
                return outs
        if v[0] == 'str':
            n = slen(v[1])
            lo, hi = range_of(st, ix, n)
            val = ('str', cut(st, v[1], lo, hi))
            if c['name'].endswith('get'): return ret(st, some(c['destty'], val))
            outs = []
            # bounds checks
            for s, b in I.cmp(st, 'Le', hi, n):
                if not b: outs.append(panic(s, 'string slice out of range')); continue
                for s2, b2 in I.cmp(s, 'Le', lo, hi):
                    if not b2: outs.append(panic(s2, 'string slice out of range'))
                    else: outs.append(Out('ret', s2, val))
            return outs
        outs = []
        for s, n, e in seq(st, v):
            if isinstance(ix, int):
                outs.append(Out('ret', s, e(ix)) if 0 <= ix < n else panic(s, 'index out of bounds: %s of %s' % (ix, n)))
            elif is_int(ix):
                cur = s
                dead = False
                for i in range(n):
                    nxt = None
                    for s2, b in I.cmp(cur, 'Eq', ix, i):
                        if b: outs.append(Out('ret', s2, e(i)))
                        else: nxt = s2
                    if nxt is None: dead = True; break
                    cur = nxt
                if not dead:
                    for s2, b in I.cmp(cur, 'Ge', ix, n):
                        if b: outs.append(panic(s2, 'index out of bounds'))
            else:
                lo, hi = range_of(s, ix, n)
                if not isinstance(lo, int) or not isinstance(hi, int): raise Unk('symbolic slice')
                if lo > hi or hi > n: outs.append(panic(s, 'slice out of range')); continue
                base, off = (v[1], v[2]) if v[0] == 'slice' else (v, 0)
                outs.append(Out('ret', s, ('slice', base, off + lo, off + hi)))
        return outs

    # ------------------------------------------------------------ iterators
    ITER = 'iter'
    def is_iter(v): return isinstance(v, tuple) and v and (v[0] == ITER or (v[0] == 'adt' and P.adtname(v[1]) in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom')))
    def allin(s, p, phases):
        """every character went through the same predicate"""
        if p[0] != 'sl': return
        for x, b in list(s.exp.items()):
            if isinstance(x, tuple) and x[0] == 'pred' and x[2] == p and x[3] == 0 and b is True and all(s.exp.get(x[:3] + (f,)) is True for f in phases):
                s.segs += ((p[1], p[2], p[3], 'set', P.__dict__['predcache'][x[1]]),); return
    def nxt(st, it, back=False):
        """[(state, iterator', item or None)]; may contain Out for panics"""
        if it[0] == 'adt':
            nm = P.adtname(it[1]); f = it[3]
            if nm == 'std::ops::RangeFrom':
                return [(st, ('adt', it[1], it[2], (ladd(f[0], 1),)), f[0])]
            if nm == 'std::ops::Range':
                out = []
                for s, b in I.cmp(st, 'Lt', f[0], f[1]):
                    if not b: out.append((s, it, None))
                    elif back: out.append((s, ('adt', it[1], it[2], (f[0], ladd(f[1], -1))), ladd(f[1], -1)))
                    else: out.append((s, ('adt', it[1], it[2], (ladd(f[0], 1), f[1])), f[0]))
                return out
            if nm == 'std::ops::RangeInclusive':
                if f[2] is True: return [(st, it, None)]
                out = []
                for s, b in I.cmp(st, 'Le', f[0], f[1]):
                    if not b: out.append((s, it, None)); continue
                    for s2, e in I.cmp(s, 'Eq', f[0], f[1]):
                        if e: out.append((s2, ('adt', it[1], it[2], (f[0], f[1], True)), f[0]))
                        elif back: out.append((s2, ('adt', it[1], it[2], (f[0], ladd(f[1], -1), f[2])), f[1]))
                        else: out.append((s2, ('adt', it[1], it[2], (ladd(f[0], 1), f[1], f[2])), f[0]))
                return out
        k = it[1]
        if k == 'slice':
            _, _, ref, lo, hi = it
            if lo >= hi: return [(st, it, None)]
            i = hi - 1 if back else lo
            e = ('ref', ref[1], ref[2] + (('i', i),)) if ref[0] == 'ref' else ('ref', ('K', I.load(st, ref)[1][i]), ())
            return [(st, (ITER, 'slice', ref, lo, hi - 1) if back else (ITER, 'slice', ref, lo + 1, hi), e)]
        if k == 'vals':
            if not it[2]: return [(st, it, None)]
            if back: return [(st, (ITER, 'vals', it[2][:-1]), it[2][-1])]
            return [(st, (ITER, 'vals', it[2][1:]), it[2][0])]
        if k == 'caps':
            if not it[2]: return [(st, it, None)]
            g = it[2][0]
            return [(st, (ITER, 'caps', it[2][1:]), ('capopt', g))]
        if k == 'map':
            out = []
            for r in nxt(st, it[2], back):
                if isinstance(r, Out): out.append(r); continue
                s, i2, x = r
                if x is None: out.append((s, (ITER, 'map', i2, it[3]), None)); continue
                for o in I.callvalue(s, it[3], [x]):
                    if o.kind == 'ret': out.append((o.st, (ITER, 'map', i2, it[3]), o.val))
                    else: out.append(o)
            return out
        if k == 'filter':
            out = []; work = [(st, it[2])]
            while work:
                s0, i0 = work.pop()
                for r in nxt(s0, i0, back):
                    if isinstance(r, Out): out.append(r); continue
                    s, i2, x = r
                    if x is None: out.append((s, (ITER, 'filter', i2, it[3]), None)); continue
                    s = s.copy(); ad = s.alloc(x)
                    for o in I.callvalue(s, it[3], [('ref', ad, ())]):
                        if o.kind != 'ret': out.append(o); continue
                        for s2, b in I.decide(o.st, o.val):
                            if b: out.append((s2, (ITER, 'filter', i2, it[3]), x))
                            else: work.append((s2, i2))
            return out
        if k == 'filter_map':
            out = []; work = [(st, it[2])]
            while work:
                s0, i0 = work.pop()
                for r in nxt(s0, i0, back):
                    if isinstance(r, Out): out.append(r); continue
                    s, i2, x = r
                    if x is None: out.append((s, (ITER, 'filter_map', i2, it[3]), None)); continue
                    for o in I.callvalue(s, it[3], [x]):
                        if o.kind != 'ret': out.append(o); continue
                        for s2, ov in I.expand_fork(o.st, o.val):
                            if ov[3]: out.append((s2, (ITER, 'filter_map', i2, it[3]), ov[3][0]))
                            else: work.append((s2, i2))
            return out
        if k == 'enumerate':
            if back: raise Unk('enumerate back')
            return [r if isinstance(r, Out) else (r[0], (ITER, 'enumerate', r[1], it[3] + 1), None if r[2] is None else ('tup', (it[3], r[2]))) for r in nxt(st, it[2])]
        if k == 'zip':
            out = []
            for r in nxt(st, it[2], back):
                if isinstance(r, Out): out.append(r); continue
                s, i2, x = r
                if x is None: out.append((s, (ITER, 'zip', i2, it[3]), None)); continue
                for r2 in nxt(s, it[3], back):
                    if isinstance(r2, Out): out.append(r2); continue
                    s2, j2, y = r2
                    out.append((s2, (ITER, 'zip', i2, j2), None if y is None else ('tup', (x, y))))
            return out
        if k == 'rev':
            return [r if isinstance(r, Out) else (r[0], (ITER, 'rev', r[1]), r[2]) for r in nxt(st, it[2], not back)]
        if k == 'cloned':
            return [r if isinstance(r, Out) else (r[0], (ITER, 'cloned', r[1]), None if r[2] is None else I.load(r[0], r[2]) if r[2][0] == 'ref' else r[2]) for r in nxt(st, it[2], back)]
        if k == 'chain':
            out = []
            for r in nxt(st, it[2 if not back else 3], back):
                if isinstance(r, Out): out.append(r); continue
                s, i2, x = r
                if x is not None: out.append((s, (ITER, 'chain', i2, it[3]) if not back else (ITER, 'chain', it[2], i2), x)); continue
                for r2 in nxt(s, it[3 if not back else 2], back):
                    if isinstance(r2, Out): out.append(r2); continue
                    out.append((r2[0], (ITER, 'chain', i2, r2[1]) if not back else (ITER, 'chain', r2[1], i2), r2[2]))
            return out
        if k == 'take':
            if back: raise Unk('take back')
            out = []
            for s, b in I.cmp(st, 'Gt', it[3], 0):
                if not b: out.append((s, it, None)); continue
                for r in nxt(s, it[2]):
                    if isinstance(r, Out): out.append(r); continue
                    out.append((r[0], (ITER, 'take', r[1], ladd(it[3], -1)), r[2]))
            return out
        if k == 'skip':
            if back: raise Unk('skip back')
            cur = [(st, it[2], it[3])]
            out = []
            while cur:
                s, i2, n = cur.pop()
                for s1, b in I.cmp(s, 'Gt', n, 0):
                    for r in nxt(s1, i2):
                        if isinstance(r, Out): out.append(r); continue
                        if b and r[2] is not None: cur.append((r[0], r[1], ladd(n, -1)))
                        else: out.append((r[0], (ITER, 'skip', r[1], 0), r[2]))
            return out
        if k == 'skip_while' or k == 'take_while':
            if k == 'take_while' and it[4]: return [(st, it, None)]
            out = []; work = [(st, it[2])]
            while work:
                s0, i0 = work.pop()
                for r in nxt(s0, i0):
                    if isinstance(r, Out): out.append(r); continue
                    s, i2, x = r
                    if x is None or (k == 'skip_while' and it[4]): out.append((s, (ITER, k, i2, it[3], it[4]), x)); continue
                    s = s.copy(); ad = s.alloc(x)
                    for o in I.callvalue(s, it[3], [('ref', ad, ())]):
                        if o.kind != 'ret': out.append(o); continue
                        for s2, b in I.decide(o.st, o.val):
                            if k == 'take_while': out.append((s2, (ITER, k, i2, it[3], not b), x if b else None))
                            elif b: work.append((s2, i2))
                            else: out.append((s2, (ITER, k, i2, it[3], True), x))
            return out
        if k == 'step_by':
            out = []
            for r in nxt(st, it[2]):
                if isinstance(r, Out): out.append(r); continue
                s, i2, x = r
                cur = [(s, i2)]
                for _ in range(it[3] - 1):
                    cur = [(r2[0], r2[1]) for c2 in cur for r2 in nxt(c2[0], c2[1])]
                for s2, i3 in cur: out.append((s2, (ITER, 'step_by', i3, it[3]), x))
            return out
        if k == 'peek':
            if it[3] is not None: return [(st, (ITER, 'peek', it[2], None), it[3][0])]
            return [r if isinstance(r, Out) else (r[0], (ITER, 'peek', r[1], None), r[2]) for r in nxt(st, it[2], back)]
        if k in ('chars', 'char_indices', 'bytes'):
            if back: raise Unk('chars back')
            _, _, parts, pos, phase = it
            parts = I.lits(st, parts)
            if parts == (): return [(st, it, None)]
            if parts[0][0] == 'lit':
                t = parts[0][1]
                if k == 'bytes':
                    b = t.encode('utf8')
                    rest = b[1:]
                    try: r = rest.decode('utf8')
                    except UnicodeDecodeError: raise Unk('bytes of non ascii')
                    return [(st, (ITER, k, norm_parts((('lit', r),) + parts[1:]), ladd(pos, 1), 0), b[0])]
                ch = ord(t[0]); n = len(t[0].encode('utf8'))
                it2 = (ITER, k, norm_parts((('lit', t[1:]),) + parts[1:]), ladd(pos, n), 0)
                return [(st, it2, ch if k == 'chars' else ('tup', (pos, ch)))]
            if len(parts) > 1: raise Unk('chars of composite text')
            p = parts[0]
            n = slen((p,))
            out = []
            # phase 0: the first character; phase 1: an arbitrary later one; phase 2: the end
            for s, e in I.cmp(st, 'Eq', n, 0):
                if e: out.append((s, (ITER, k, (), pos, 2), None)); continue
                if phase == 2:
                    s = s.copy(); allin(s, p, (0, 1))
                    out.append((s, (ITER, k, (), pos, 2), None)); continue
                ch = atom(('sym', ('char', p, phase), None))
                s2 = s.copy(); I.refine(s2, ch, 0, 0x10ffff if k != 'bytes' else 255)
                if phase == 0 and p[0] == 'sl':
                    fs = s2.exp.get(('firstset', p[1], p[2]))
                    if fs: I.refine(s2, ch, fs[0][0], fs[-1][1])
                if phase == 0:
                    out.append((s2, (ITER, k, parts, pos, 1), ch if k != 'char_indices' else ('tup', (pos, ch))))
                else:
                    g = atom(('gap', ('later', k, p)))
                    if I.refine(s2, g, 1, None) and I.refine(s2, lsub(n, g), 1, None):
                        if p[0] == 'sl': s2.misc[('later', p[1], p[2])] = (g, ch)
                        s2.note('later', p)
                        out.append((s2, (ITER, k, parts, pos, 2), ch if k != 'char_indices' else ('tup', (ladd(pos, g), ch))))
                    s3 = s.copy(); s3.note('all characters', p)
                    allin(s3, p, (0,))
                    out.append((s3, (ITER, k, (), pos, 2), None))
            return out
        if k == 'split':
            raise Unk('split')
        raise Unk('iterator ' + k)
    I.nxt = nxt
    def into_iter(st, v, ty):
        """[(state, iterator)]"""
        if is_iter(v): return [(st, v)]
        if v[0] == 'ref':
            x = I.load(st, v)
            if is_iter(x): return [(st, (ITER, 'byref', v))]
            if x[0] == 'map': raise Unk('map iteration')
            return [(s, (ITER, 'slice', v, 0, n)) for s, n, e in seq(st, v)]
        if v[0] == 'slice': return [(st, (ITER, 'slice', v[1], v[2], v[3]))]
        if v[0] in ('vec', 'sym'):
            if v[0] == 'sym' and P.adtname(v[2]) == 'std::option::Option' or v[0] == 'sym' and not I.isvecty(v[2]):
                out = []
                for s, x in I.expand_fork(st, v):
                    if P.adtname(v[2]) != 'std::option::Option': raise Unk('into_iter')
                    out.append((s, (ITER, 'vals', x[3])))
                return out
            return [(s, (ITER, 'vals', x[1])) for s, x in I.expand_fork(st, v)]
        if v[0] == 'adt' and P.adtname(v[1]) == 'std::option::Option': return [(st, (ITER, 'vals', v[3]))]
        if v[0] == 'map': raise Unk('map iteration')
        raise Unk('into_iter of ' + v[0])
    def nonlocal_(c): return not (c['inst'] is not None and c['inst']['local'] and 'bbs' in c['inst'])
    @reg('std::iter::IntoIterator::into_iter')
    def f(I, st, a, c): return [Out('ret', s, i) for s, i in into_iter(st, a[0], None)]
    @reg('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::option::Option::iter')
    def f(I, st, a, c):
        if 'Option' in c['name']: raise Unk('option iter')
        if a[0][0] == 'slice': return ret(st, (ITER, 'slice', a[0][1], a[0][2], a[0][3]))
        return [Out('ret', s, (ITER, 'slice', a[0], 0, n)) for s, n, e in seq(st, a[0])]
    @reg('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows')
    def f(I, st, a, c):
        op = c['name'].split('::')[-1]; w = a[1]; outs = []
        if not isinstance(w, int): raise Unk('chunks')
        for s, n, e in seq(st, a[0]):
            base, lo = (a[0][1], a[0][2]) if a[0][0] == 'slice' else (a[0], 0)
            if w == 0: outs.append(Out('panic', s, None, None)); continue
            if op == 'windows': rs = [(i, i + w) for i in range(0, n - w + 1)]
            else: rs = [(i, min(i + w, n)) for i in range(0, n, w) if op == 'chunks' or i + w <= n]
            outs.append(Out('ret', s, (ITER, 'vals', tuple(('slice', base, lo + x, lo + y) for x, y in rs))))
        return outs
    @reg('core::str::<impl str>::bytes', 'core::str::<impl str>::chars', 'core::str::<impl str>::char_indices')
    def f(I, st, a, c): return ret(st, (ITER, c['name'].split('::')[-1], strval(st, a[0])[1], 0, 0))
    @reg('std::vec::Vec::drain')
    def f(I, st, a, c):
        outs = []
        for s, v in I.expand_fork(st, I.load(st, a[0])):
            lo, hi = range_of(s, a[1], len(v[1])) if a[1][0] == 'adt' else (0, len(v[1]))
            if not isinstance(lo, int) or not isinstance(hi, int): raise Unk('drain')
            s = s.copy(); I.store(s, a[0], ('vec', v[1][:lo] + v[1][hi:]))
            outs.append(Out('ret', s, (ITER, 'vals', v[1][lo:hi])))
        return outs
    def capfix(x, ty):
        if isinstance(x, tuple) and x and x[0] == 'capopt':
            return some(ty, ('tup', x[1]))
        return x
    def optelem(ty): return P.types[ty]['args'][0]
    @reg('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
    def f(I, st, a, c):
        if not nonlocal_(c): return NotImplemented
        it = I.load(st, a[0])
        if not is_iter(it):
            if it[0] == 'ref': a = [it]; it = I.load(st, it)
            if not is_iter(it): return NotImplemented
        outs = []
        for r in nxt(st, it, c['name'].endswith('back')):
            if isinstance(r, Out): outs.append(r); continue
            s, i2, x = r
            s = s.copy(); I.store(s, a[0], i2)
            outs.append(Out('ret', s, none(c['destty']) if x is None else some(c['destty'], capfix(x, optelem(c['destty'])))))
        return outs
    simple = {'map': 'map', 'filter': 'filter', 'filter_map': 'filter_map', 'take': 'take', 'skip': 'skip', 'zip': 'zip', 'chain': 'chain', 'step_by': 'step_by'}
    for nm, kk in simple.items():
        def mk(nm, kk):
            def f(I, st, a, c):
                if not is_iter(a[0]): return NotImplemented
                if kk in ('zip', 'chain'): return [Out('ret', s, (ITER, kk, a[0], j)) for s, j in into_iter(st, a[1], None)]
                return ret(st, (ITER, kk, a[0], a[1]))
            N['std::iter::Iterator::' + nm] = f
        mk(nm, kk)
    @reg('std::iter::zip')
    def f(I, st, a, c):
        return [Out('ret', s2, (ITER, 'zip', i, j)) for s, i in into_iter(st, a[0], None) for s2, j in into_iter(s, a[1], None)]
    @reg('std::iter::Iterator::enumerate')
    def f(I, st, a, c): return ret(st, (ITER, 'enumerate', a[0], 0))
    @reg('std::iter::Iterator::rev')
    def f(I, st, a, c): return ret(st, (ITER, 'rev', a[0]))
    @reg('std::iter::Iterator::cloned', 'std::iter::Iterator::copied')
    def f(I, st, a, c): return ret(st, (ITER, 'cloned', a[0]))
    @reg('std::iter::Iterator::peekable')
    def f(I, st, a, c): return ret(st, (ITER, 'peek', a[0], None))
    @reg('std::iter::Iterator::by_ref', 'std::iter::Iterator::fuse')
    def f(I, st, a, c):
        return ret(st, a[0])
    @reg('std::iter::Iterator::take_while', 'std::iter::Iterator::skip_while')
    def f(I, st, a, c): return ret(st, (ITER, c['name'].split('::')[-1], a[0], a[1], False))
    @reg('std::iter::Peekable::peek')
    def f(I, st, a, c):
        it = I.load(st, a[0]); outs = []
        if it[3] is not None:
            x = it[3][0]
            s = st.copy(); ad = s.alloc(x)
            return ret(s, none(c['destty']) if x is None else some(c['destty'], ('ref', ad, ())))
        for r in nxt(st, it[2]):
            if isinstance(r, Out): outs.append(r); continue
            s, i2, x = r; s = s.copy(); I.store(s, a[0], (ITER, 'peek', i2, (x,)))
            ad = s.alloc(x)
            outs.append(Out('ret', s, none(c['destty']) if x is None else some(c['destty'], ('ref', ad, ()))))
        return outs
    def drain(st, it, limit=64):
        """[(state, tuple of items)]"""
        outs = []; work = [(st, it, (), 0)]
        while work:
            s, i, xs, n = work.pop()
            if n > limit: I.bounded += 1; continue
            rs = nxt(s, i)
            if len([1 for r in rs if not isinstance(r, Out)]) > 1 and n > I.forks * 2: I.bounded += 1; continue
            for r in rs:
                if isinstance(r, Out): outs.append(r); continue
                if r[2] is None: outs.append((r[0], xs))
                else: work.append((r[0], r[1], xs + (r[2],), n + 1))
        return outs
    def self_iter(st, v):
        if is_iter(v): return [(st, v)]
        if v[0] == 'ref': return [(st, I.load(st, v))]
        return into_iter(st, v, None)
    def collect(st, it, ty):
        t = P.types[ty]; outs = []
        for r in drain(st, it):
            if isinstance(r, Out): outs.append(r); continue
            s, xs = r
            if I.isvecty(ty): outs.append(Out('ret', s, ('vec', tuple(xs))))
            elif P.is_str(ty):
                ps = ()
                for x in xs:
                    if is_int(x): ps += ((('lit', chr(x)),) if isinstance(x, int) else (('chr', x),))
                    else: ps += strval(s, x)[1]
                outs.append(Out('ret', s, ('str', norm_parts(ps))))
            elif t['k'] == 'adt' and t['name'] in ('std::option::Option', 'std::result::Result'):
                okn = 'Some' if t['name'].endswith('Option') else 'Ok'
                inner = t['args'][0]
                acc = [(s, ())]; fin = []
                for x in xs:
                    nx = []
                    for s2, ys in acc:
                        for s3, ov in I.expand_fork(s2, x):
                            vn = P.types[ov[1]]['v'][ov[2]][0]
                            if vn == okn: nx.append((s3, ys + (ov[3][0],)))
                            else: fin.append(Out('ret', s3, mkadt(ty, vn, ov[3])))
                    acc = nx
                for s2, ys in acc:
                    if not I.isvecty(inner): raise Unk('collect')
                    fin.append(Out('ret', s2, mkadt(ty, okn, (('vec', ys),))))
                outs += fin
            else: raise Unk('collect into ' + P.tyname(ty))
        return outs
    @reg('std::iter::Iterator::collect', 'std::iter::FromIterator::from_iter')
    def f(I, st, a, c):
        outs = []
        for s, i in self_iter(st, a[0]): outs += collect(s, i, c['destty'])
        return outs
    @reg('std::iter::Extend::extend')
    def f(I, st, a, c):
        outs = []
        for s, i in into_iter(st, a[1], None):
            for r in drain(s, i):
                if isinstance(r, Out): outs.append(r); continue
                s2, xs = r
                for s3, v in I.expand_fork(s2, I.load(s2, a[0])):
                    s4 = s3.copy()
                    if v[0] == 'vec':
                        xs2 = xs
                        I.store(s4, a[0], ('vec', v[1] + tuple(xs2)))
                    elif v[0] == 'str':
                        ps = v[1]
                        for x in xs: ps += ((('lit', chr(x)),) if isinstance(x, int) else strval(s4, x)[1])
                        I.store(s4, a[0], ('str', norm_parts(ps)))
                    else: raise Unk('extend')
                    outs.append(Out('ret', s4, UNIT))
        return outs
    def fold_pred(I, st, a, c, mode):
        it0 = a[0]; refd = None
        if it0[0] == 'ref': refd = it0; it0 = I.load(st, it0)
        if not is_iter(it0): return NotImplemented
        if it0[0] == ITER and it0[1] in ('bytes', 'chars') and mode in ('all', 'any'):
            ps = I.lits(st, it0[2])
            if ps and not (len(ps) == 1 and ps[0][0] == 'lit'):
                cs = charset(st, a[1])
                outs = []
                neg = mode == 'any'
                if neg: # any(p) == not all(not p)
                    comp = []; last = 0
                    for l, h in cs:
                        if last < l: comp.append((last, l - 1))
                        last = h + 1
                    mx = 255 if it0[1] == 'bytes' else 0x10ffff
                    if last <= mx: comp.append((last, mx))
                    cs = tuple(comp)
                for s, e in I.cmp(st, 'Eq', slen(ps), 0):
                    if e: outs.append(Out('ret', s, not neg)); continue
                    for s2, b in I.opaque(s, ('allin', ps, cs)): outs.append(Out('ret', s2, b != neg))
                return outs
        outs = []; work = [(st, it0, 0)]
        while work:
            s, i, n = work.pop()
            rs = nxt(s, i)
            if n > 40: I.bounded += 1; continue
            for r in rs:
                if isinstance(r, Out): outs.append(r); continue
                s1, i2, x = r
                if x is None:
                    v = {'all': True, 'any': False}.get(mode)
                    if mode in ('position', 'find', 'find_map'): v = none(c['destty'])
                    outs.append(Out('ret', s1, v)); continue
                arg = x
                if mode == 'find':
                    s1 = s1.copy(); arg = ('ref', s1.alloc(x), ())
                for o in I.callvalue(s1, a[1], [arg]):
                    if o.kind != 'ret': outs.append(o); continue
                    if mode == 'find_map':
                        for s2, ov in I.expand_fork(o.st, o.val):
                            if ov[3]: outs.append(Out('ret', s2, ov))
                            else: work.append((s2, i2, n + 1))
                        continue
                    for s2, b in I.decide(o.st, o.val):
                        if mode == 'all' and not b: outs.append(Out('ret', s2, False))
                        elif mode == 'any' and b: outs.append(Out('ret', s2, True))
                        elif mode == 'find' and b: outs.append(Out('ret', s2, some(c['destty'], x)))
                        elif mode == 'position' and b: outs.append(Out('ret', s2, some(c['destty'], n)))
                        else: work.append((s2, i2, n + 1))
        return outs
    for m in ('all', 'any', 'find', 'position', 'find_map'):
        N['std::iter::Iterator::' + m] = (lambda m: lambda I, st, a, c: fold_pred(I, st, a, c, m))(m)
    @reg('std::iter::Iterator::for_each', 'std::iter::Iterator::fold')
    def f(I, st, a, c):
        fold = c['name'].endswith('fold')
        outs = []
        for s, i in self_iter(st, a[0]):
            work = [(s, i, a[1] if fold else None, 0)]
            while work:
                s, i, acc, n = work.pop()
                if n > 40: I.bounded += 1; continue
                for r in nxt(s, i):
                    if isinstance(r, Out): outs.append(r); continue
                    s1, i2, x = r
                    if x is None: outs.append(Out('ret', s1, acc if fold else UNIT)); continue
                    for o in I.callvalue(s1, a[2] if fold else a[1], [acc, x] if fold else [x]):
                        if o.kind != 'ret': outs.append(o); continue
                        work.append((o.st, i2, o.val, n + 1))
        return outs
    @reg('std::iter::Iterator::count', 'std::iter::Iterator::last', 'std::iter::Iterator::sum', 'std::iter::ExactSizeIterator::len', 'std::iter::Iterator::max', 'std::iter::Iterator::min')
    def f(I, st, a, c):
        outs = []
        op = c['name'].split('::')[-1]
        for s, i in self_iter(st, a[0]):
            if i[0] == ITER and i[1] in ('bytes', 'chars', 'split'): raise Unk('count of characters')
            for r in drain(s, i):
                if isinstance(r, Out): outs.append(r); continue
                s2, xs = r
                if op in ('count', 'len'): v = len(xs)
                elif op == 'last': v = none(c['destty']) if not xs else some(c['destty'], xs[-1])
                elif op == 'sum':
                    v = 0
                    for x in xs: v = ladd(v, x if is_int(x) else I.load(s2, x))
                else: raise Unk(op)
                outs.append(Out('ret', s2, v))
        return outs
    @reg('std::iter::Iterator::nth')
    def f(I, st, a, c):
        it = I.load(st, a[0]); outs = []
        if not isinstance(a[1], int): raise Unk('nth')
        work = [(st, it, a[1])]
        while work:
            s, i, n = work.pop()
            for r in nxt(s, i):
                if isinstance(r, Out): outs.append(r); continue
                s1, i2, x = r
                if x is None or n == 0:
                    s1 = s1.copy(); I.store(s1, a[0], i2)
                    outs.append(Out('ret', s1, none(c['destty']) if x is None else some(c['destty'], x)))
                else: work.append((s1, i2, n - 1))
        return outs
    @reg('std::iter::Iterator::size_hint')
    def f(I, st, a, c): raise Unk('size_hint')

    # ------------------------------------------------------------ maps
    def mapref(st, r):
        while True:
            v = I.load(st, r)
            if v[0] in ('ref', 'guard', 'rc', 'box'): r = I.deref(st, v); continue
            if v[0] == 'map': return r, v
            if v[0] == 'sym': raise Unk('map')
            raise Unk('map of ' + v[0])
    def lookup(st, r, key):
        r, m = mapref(st, r)
        k = key_of(st, key)
        for q, x in m[2]:
            if q == k: return [(st, x != ABSENT)]
        if m[1] is None: return [(st, False)]
        if I.maplookup is not None:
            d = I.maplookup(st, m, k)
            if d is not None: return [(st, d)] if isinstance(d, bool) else d
        return I.opaque(st, ('has', m[1], k))
    I.lookup = lookup
    def entry_set(s, r, k, val):
        m = I.load(s, r)
        ents = [(q, x) for q, x in m[2] if q != k] + [(k, val)]
        I.store(s, r, ('map', m[1], tuple(sorted(ents, key=lambda x: repr(x[0]))), m[3], m[4]))
    HM = ['std::collections::HashMap::', 'hashbrown::map::HashMap::', 'std::collections::BTreeMap::']
    def regm(*names):
        def d(f):
            for n in names:
                for h in HM: N[h + n] = f
            return f
        return d
    @regm('new', 'with_capacity')
    def f(I, st, a, c):
        t = P.types[c['destty']]; return ret(st, ('map', None, (), t['args'][0], t['args'][1]))
    @regm('contains_key')
    def f(I, st, a, c): return [Out('ret', s, b) for s, b in lookup(st, a[0], a[1])]
    @regm('get', 'get_mut')
    def f(I, st, a, c):
        outs = []
        for s, b in lookup(st, a[0], a[1]):
            r, m = mapref(s, a[0])
            outs.append(Out('ret', s, some(c['destty'], ('ref', r[1], r[2] + (('k', key_of(s, a[1])),))) if b else none(c['destty'])))
        return outs
    def oldval(st, r, m, k, destty):
        for q, x in m[2]:
            if q == k: return none(destty) if x == ABSENT else some(destty, x)
        if m[1] is None: return none(destty)
        d = st.exp.get(('has', m[1], k))
        if d is None: return ('sym', ('old', m[1], k, st.next), destty)
        return some(destty, I.mk(('.', m[1], ('[]', k)), m[4])) if d else none(destty)
    @regm('insert')
    def f(I, st, a, c):
        s = st.copy(); r, m = mapref(s, a[0]); k = key_of(s, a[1])
        old = oldval(s, r, m, k, c['destty'])
        entry_set(s, r, k, a[2]); s.log += (('insert', r, k, a[2]),)
        return ret(s, old)
    @regm('remove')
    def f(I, st, a, c):
        s = st.copy(); r, m = mapref(s, a[0]); k = key_of(s, a[1])
        old = oldval(s, r, m, k, c['destty'])
        entry_set(s, r, k, ABSENT); s.log += (('remove', r, k),)
        return ret(s, old)
    @regm('clear')
    def f(I, st, a, c):
        s = st.copy(); r, m = mapref(s, a[0]); I.store(s, r, ('map', None, (), m[3], m[4])); s.log += (('clear', r),); return ret(s, UNIT)
    @regm('is_empty')
    def f(I, st, a, c):
        r, m = mapref(st, a[0])
        if m[1] is None: return ret(st, not any(x != ABSENT for _, x in m[2]))
        raise Unk('map is_empty')
    @regm('len', 'iter', 'keys', 'values', 'iter_mut', 'values_mut', 'drain', 'retain', 'into_keys')
    def f(I, st, a, c): raise Unk('map ' + c['name'].split('::')[-1])
    @regm('entry')
    def f(I, st, a, c):
        outs = []
        for s, b in lookup(st, a[0], a[1]):
            r, m = mapref(s, a[0]); k = key_of(s, a[1])
            outs.append(Out('ret', s, mkadt(c['destty'], 'Occupied' if b else 'Vacant', (('entry', r, k),))))
        return outs
    EN = ['std::collections::hash_map::', 'std::collections::btree_map::']
    def rege(*names):
        def d(f):
            for n in names:
                for h in EN: N[h + n] = f
            return f
        return d
    def ent(st, v):
        while v[0] == 'ref': v = I.load(st, v)
        if v[0] != 'entry': raise Unk('entry')
        return v
    @rege('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
    def f(I, st, a, c):
        e = ent(st, a[0]); return ret(st, ('ref', e[1][1], e[1][2] + (('k', e[2]),)))
    @rege('VacantEntry::insert', 'OccupiedEntry::insert')
    def f(I, st, a, c):
        s = st.copy(); e = ent(s, a[0])
        r = ('ref', e[1][1], e[1][2] + (('k', e[2]),))
        old = I.load(s, r) if 'Occupied' in c['name'] else None
        entry_set(s, e[1], e[2], a[1]); s.log += (('insert', e[1], e[2], a[1]),)
        return ret(s, r if old is None else old)
    @rege('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
    def f(I, st, a, c):
        s = st.copy(); e = ent(s, a[0]); old = I.load(s, ('ref', e[1][1], e[1][2] + (('k', e[2]),)))
        entry_set(s, e[1], e[2], ABSENT); s.log += (('remove', e[1], e[2]),)
        return ret(s, old)
    @rege('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key')
    def f(I, st, a, c):
        v = a[0]
        if 'Entry::key' in c['name'] and 'Occupied' not in c['name'] and 'Vacant' not in c['name']: v = I.load(st, v)[3][0]
        e = ent(st, v); s = st.copy(); ad = s.alloc(('str', e[2])); return ret(s, ('ref', ad, ()))
    @rege('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
    def f(I, st, a, c):
        v = a[0]; e = v[3][0]
        r = ('ref', e[1][1], e[1][2] + (('k', e[2]),))
        if P.types[v[1]]['v'][v[2]][0] == 'Occupied': return ret(st, r)
        outs = []
        for o in ([Out('ret', st, a[1])] if c['name'].endswith('or_insert') else [Out('ret', st, default(P.types[c['destty']]['e']))] if c['name'].endswith('default') else I.callvalue(st, a[1], [])):
            if o.kind != 'ret': outs.append(o); continue
            s = o.st.copy(); entry_set(s, e[1], e[2], o.val); s.log += (('insert', e[1], e[2], o.val),)
            outs.append(Out('ret', s, r))
        return outs

    # ------------------------------------------------------------ options and results beyond followed bodies
    def opt(st, v):
        if v[0] == 'ref': raise Unk('opt ref')
        return I.expand_fork(st, v)
    @reg('std::option::Option::is_some', 'std::option::Option::is_none', 'std::result::Result::is_ok', 'std::result::Result::is_err')
    def f(I, st, a, c):
        w = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err'}[c['name'].split('::')[-1]]
        return [Out('ret', s, w == 'Some' if x[0] == 'capopt' else P.types[x[1]]['v'][x[2]][0] == w) for s, x in I.loadx(st, a[0])]
    @reg('std::option::Option::unwrap', 'std::option::Option::expect', 'std::result::Result::unwrap', 'std::result::Result::expect',
         'std::result::Result::unwrap_err', 'std::option::Option::unwrap_or', 'std::result::Result::unwrap_or')
    def f(I, st, a, c):
        op = c['name'].split('::')[-1]
        outs = []
        if a[0][0] == 'capopt': return ret(st, ('tup', a[0][1]))
        for s, x in opt(st, a[0]):
            vn = P.types[x[1]]['v'][x[2]][0]
            good = vn in ('Some', 'Ok') if op != 'unwrap_err' else vn == 'Err'
            if good: outs.append(Out('ret', s, x[3][0]))
            elif op == 'unwrap_or': outs.append(Out('ret', s, a[1]))
            else: outs.append(panic(s, op + ' on ' + vn))
        return outs
    @reg('std::option::Option::as_ref', 'std::option::Option::as_mut', 'std::result::Result::as_ref', 'std::result::Result::as_mut', 'std::option::Option::as_deref')
    def f(I, st, a, c):
        outs = []
        for s, x in I.loadx(st, a[0]):
            vn = P.types[x[1]]['v'][x[2]][0]
            if not x[3]: outs.append(Out('ret', s, mkadt(c['destty'], vn, ()))); continue
            r = I.sub(s, I.sub(s, a[0], ('d', x[2])), ('f', 0))
            if c['name'].endswith('deref'):
                y = I.load(s, r)
                r = y if y[0] == 'str' else r
            outs.append(Out('ret', s, mkadt(c['destty'], vn, (r,))))
        return outs
    @reg('std::option::Option::take', 'std::option::Option::replace')
    def f(I, st, a, c):
        s = st.copy(); old = I.load(s, a[0])
        I.store(s, a[0], none(c['destty']) if c['name'].endswith('take') else some(c['destty'], a[1])); return ret(s, old)
    @reg('std::option::Option::cloned', 'std::option::Option::copied')
    def f(I, st, a, c):
        return [Out('ret', s, mkadt(c['destty'], 'Some', (I.load(s, x[3][0]) if x[3][0][0] == 'ref' else x[3][0],)) if x[3] else none(c['destty'])) for s, x in opt(st, a[0])]
    def hof(name, good, bad):
        """good/bad: fn(I, s, x, a, c) -> outs"""
        def f(I, st, a, c):
            outs = []
            for s, x in opt(st, a[0]):
                vn = P.types[x[1]]['v'][x[2]][0]
                outs += (good if vn in ('Some', 'Ok') else bad)(s, x, a, c, vn)
            return outs
        N[name] = f
    def wrapcall(ix, wrapv):
        def g(s, x, a, c, vn):
            outs = []
            for o in I.callvalue(s, a[ix], list(x[3])):
                outs.append(Out('ret', o.st, mkadt(c['destty'], wrapv if wrapv else vn, (o.val,))) if o.kind == 'ret' else o)
            return outs
        return g
    plain = lambda ix: (lambda s, x, a, c, vn: I.callvalue(s, a[ix], list(x[3])))
    call0 = lambda ix: (lambda s, x, a, c, vn: I.callvalue(s, a[ix], []))
    keepas = lambda s, x, a, c, vn: ret(s, mkadt(c['destty'], vn, x[3]))
    O = 'std::option::Option::'; R = 'std::result::Result::'
    hof(O + 'map', wrapcall(1, None), keepas); hof(R + 'map', wrapcall(1, None), keepas)
    hof(R + 'map_err', keepas, wrapcall(1, None))
    hof(O + 'and_then', plain(1), keepas); hof(R + 'and_then', plain(1), keepas)
    hof(O + 'or_else', keepas, call0(1)); hof(R + 'or_else', keepas, plain(1))
    hof(O + 'unwrap_or_else', lambda s, x, a, c, vn: ret(s, x[3][0]), call0(1)); hof(R + 'unwrap_or_else', lambda s, x, a, c, vn: ret(s, x[3][0]), plain(1))
    hof(O + 'map_or', plain(2), lambda s, x, a, c, vn: ret(s, a[1])); hof(R + 'map_or', plain(2), lambda s, x, a, c, vn: ret(s, a[1]))
    hof(O + 'map_or_else', plain(2), call0(1))
    hof(O + 'is_some_and', plain(1), lambda s, x, a, c, vn: ret(s, False)); hof(R + 'is_ok_and', plain(1), lambda s, x, a, c, vn: ret(s, False))
    hof(O + 'ok_or', lambda s, x, a, c, vn: ret(s, mkadt(c['destty'], 'Ok', x[3])), lambda s, x, a, c, vn: ret(s, mkadt(c['destty'], 'Err', (a[1],))))
    hof(O + 'ok_or_else', lambda s, x, a, c, vn: ret(s, mkadt(c['destty'], 'Ok', x[3])), lambda s, x, a, c, vn: [Out('ret', o.st, mkadt(c['destty'], 'Err', (o.val,))) if o.kind == 'ret' else o for o in I.callvalue(s, a[1], [])])
    hof(R + 'ok', lambda s, x, a, c, vn: ret(s, mkadt(c['destty'], 'Some', x[3])), lambda s, x, a, c, vn: ret(s, none(c['destty'])))
    hof(R + 'err', lambda s, x, a, c, vn: ret(s, none(c['destty'])), lambda s, x, a, c, vn: ret(s, mkadt(c['destty'], 'Some', x[3])))
    hof(O + 'or', keepas, lambda s, x, a, c, vn: ret(s, a[1]))
    hof(O + 'and', lambda s, x, a, c, vn: ret(s, a[1]), keepas)
    hof(O + 'unwrap_or_default', lambda s, x, a, c, vn: ret(s, x[3][0]), lambda s, x, a, c, vn: ret(s, default(c['destty'])))
    def filt(s, x, a, c, vn):
        s = s.copy(); ad = s.alloc(x[3][0]); outs = []
        for o in I.callvalue(s, a[1], [('ref', ad, ())]):
            if o.kind != 'ret': outs.append(o); continue
            for s2, b in I.decide(o.st, o.val): outs.append(Out('ret', s2, x if b else none(c['destty'])))
        return outs
    hof(O + 'filter', filt, keepas)
    @reg('std::ops::Try::branch')
    def f(I, st, a, c):
        outs = []
        for s, x in opt(st, a[0]):
            vn = P.types[x[1]]['v'][x[2]][0]
            if vn in ('Ok', 'Some'): outs.append(Out('ret', s, mkadt(c['destty'], 'Continue', (x[3][0],))))
            else:
                rt = P.types[c['destty']]['args'][0]
                outs.append(Out('ret', s, mkadt(c['destty'], 'Break', (mkadt(rt, vn, x[3]),))))
        return outs
    @reg('std::ops::FromResidual::from_residual')
    def f(I, st, a, c):
        x = a[0]
        if x[0] != 'adt': raise Unk('residual')
        vn = P.types[x[1]]['v'][x[2]][0]
        return ret(st, mkadt(c['destty'], vn, x[3]))

    # ------------------------------------------------------------ closures
    @reg('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call')
    def f(I, st, a, c):
        return I.callvalue(st, a[0], list(a[1][1]), c['destty'])

    # ------------------------------------------------------------ numbers
    @reg('std::str::FromStr::from_str', 'core::str::<impl str>::parse')
    def f(I, st, a, c):
        if not nonlocal_(c): return NotImplemented
        dt = P.types[c['destty']]
        t = P.types[dt['args'][0]]
        if t['k'] != 'int': return NotImplemented
        s0 = strval(st, a[0]); ps = I.lits(st, s0[1])
        et = dt['args'][1]
        if len(ps) == 0: return ret(st, mkadt(c['destty'], 'Err', (('sym', ('parseerr',), et),)))
        if len(ps) == 1 and ps[0][0] == 'lit':
            import re as _re
            ok = _re.fullmatch(r'[+]?[0-9]+' if not t['s'] else r'[+-]?[0-9]+', ps[0][1])
            v = int(ps[0][1]) if ok else None
            if v is not None and not t['s'] and v > 2**t['b'] - 1: v = None
            return ret(st, mkadt(c['destty'], 'Ok', (v,)) if v is not None else mkadt(c['destty'], 'Err', (('sym', ('parseerr',), et),)))
        dig = st.exp.get(('allin', ps, ((48, 57),)))
        lo, hi = I.bounds(st, slen(ps))
        outs = []
        v = atom(('numval', ps))
        s = st.copy(); s.exp[('isnum', ps, t['b'])] = True
        ok = I.refine(s, v, 0, (10**hi - 1) if hi is not None and hi < 39 else (2**t['b'] - 1))
        if ok and st.exp.get(('isnum', ps, t['b'])) is not False: outs.append(Out('ret', s, mkadt(c['destty'], 'Ok', (v,))))
        sure = dig and lo is not None and lo >= 1 and hi is not None and 10**hi - 1 <= 2**(t['b'] - (1 if t['s'] else 0)) - 1
        if not sure and not st.exp.get(('isnum', ps, t['b'])):
            s = st.copy(); s.exp[('isnum', ps, t['b'])] = False
            outs.append(Out('ret', s, mkadt(c['destty'], 'Err', (('sym', ('parseerr',), et),))))
        return outs
    @reg('core::num::<impl usize>::checked_sub', 'core::num::<impl usize>::saturating_sub')
    def f(I, st, a, c):
        sat = 'sat' in c['name']; outs = []
        for s, b in I.cmp(st, 'Lt', a[0], a[1]):
            if b: outs.append(Out('ret', s, 0 if sat else none(c['destty'])))
            else: outs.append(Out('ret', s, lsub(a[0], a[1]) if sat else some(c['destty'], lsub(a[0], a[1]))))
        return outs
    @reg('core::num::<impl usize>::checked_add', 'core::num::<impl usize>::saturating_add', 'core::num::<impl usize>::wrapping_add')
    def f(I, st, a, c):
        v = ladd(a[0], a[1]); return ret(st, some(c['destty'], v) if 'checked' in c['name'] else v)
    @reg('core::char::methods::<impl char>::is_ascii_digit', 'core::num::<impl u8>::is_ascii_digit')
    def f(I, st, a, c):
        x = I.load(st, a[0]); outs = []
        for s, b in I.cmp(st, 'Ge', x, 48):
            if not b: outs.append(Out('ret', s, False)); continue
            outs += [Out('ret', s2, b2) for s2, b2 in I.cmp(s, 'Le', x, 57)]
        return outs
    def rangecheck(st, x, rs):
        outs = []; cur = [st]
        for l, h in rs:
            nx = []
            for s in cur:
                for s1, b in I.cmp(s, 'Ge', x, l):
                    if not b: nx.append(s1); continue
                    for s2, b2 in I.cmp(s1, 'Le', x, h):
                        if b2: outs.append(Out('ret', s2, True))
                        else: nx.append(s2)
            cur = nx
        return outs + [Out('ret', s, False) for s in cur]
    for nm, rs in {'is_ascii_alphabetic': ((65, 90), (97, 122)), 'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
                   'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)), 'is_ascii_uppercase': ((65, 90),), 'is_ascii_lowercase': ((97, 122),),
                   'is_ascii': ((0, 127),), 'is_ascii_control': ((0, 31), (127, 127)), 'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32)),
                   'is_ascii_graphic': ((33, 126),), 'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126))}.items():
        for ty in ('core::char::methods::<impl char>::', 'core::num::<impl u8>::', 'char::methods::<impl char>::'):
            N[ty + nm] = (lambda rs: lambda I, st, a, c: rangecheck(st, I.load(st, a[0]), rs))(rs)
    N['core::char::methods::<impl char>::is_control'] = lambda I, st, a, c: rangecheck(st, a[0], ((0, 31), (127, 159)))
    @reg('core::char::methods::<impl char>::is_alphanumeric', 'core::char::methods::<impl char>::is_numeric', 'core::char::methods::<impl char>::is_alphabetic', 'core::char::methods::<impl char>::is_whitespace', 'core::char::methods::<impl char>::is_digit')
    def f(I, st, a, c):
        op = c['name'].split('::')[-1]
        if isinstance(a[0], int):
            ch = chr(a[0])
            return ret(st, {'is_alphanumeric': ch.isalnum(), 'is_numeric': ch.isnumeric(), 'is_alphabetic': ch.isalpha(), 'is_whitespace': ch.isspace()}.get(op, ch.isdigit()))
        if op == 'is_digit' and a[1] == 10: return rangecheck(st, a[0], ((48, 57),))
        if op == 'is_digit' and a[1] == 16: return rangecheck(st, a[0], ((48, 57), (65, 70), (97, 102)))
        return [Out('ret', s, b) for s, b in I.opaque(st, (op, a[0]))]

    # ------------------------------------------------------------ formatting
    @reg('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug')
    def f(I, st, a, c):
        return ret(st, ('fmtarg', 'debug' if c['name'].endswith('debug') else 'display', a[0], c['targs'][-1]))
    @reg('std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const')
    def f(I, st, a, c): return ret(st, strval(st, a[0]))
    @reg('std::fmt::Arguments::new')
    def f(I, st, a, c):
        tp = I.load(st, a[0]) if a[0][0] == 'ref' else a[0]
        av = I.load(st, a[1]) if a[1][0] == 'ref' else a[1]
        if tp[0] == 'str': by = list(litval(tp).encode('utf8'))
        else: by = list(tp[1])
        pcs = []; i = 0; nextarg = 0
        while i < len(by):
            b = by[i]; i += 1
            if b == 0: break
            if b < 0x80:
                pcs.append(('lit', bytes(by[i:i+b]).decode('utf8'))); i += b
            elif b == 0x80:
                n = by[i] | by[i+1] << 8; i += 2
                pcs.append(('lit', bytes(by[i:i+n]).decode('utf8'))); i += n
            elif b >= 0xc0:
                spec = None
                if b & 1:
                    fl = by[i] | by[i+1] << 8 | by[i+2] << 16 | by[i+3] << 24; i += 4
                    spec = {'flags': fl, 'fill': chr(fl & 0x1fffff), 'align': {0: 'left', 1: 'right', 2: 'center', 3: None}[(fl >> 29) & 3], 'zero': bool(fl >> 24 & 1), 'plus': bool(fl >> 21 & 1), 'alt': bool(fl >> 23 & 1)}
                if b & 2:
                    w = by[i] | by[i+1] << 8; i += 2
                    spec = dict(spec or {'fill': ' ', 'align': None}); spec['width'] = w if not b & 16 else ('arg', w)
                if b & 4:
                    w = by[i] | by[i+1] << 8; i += 2
                    spec = dict(spec or {'fill': ' ', 'align': None}); spec['prec'] = w
                if b & 8:
                    nextarg = by[i] | by[i+1] << 8; i += 2
                if b & 48: raise Unk('dynamic width')
                ar = av[1][nextarg]; nextarg += 1
                if spec is not None:
                    plain = spec.get('width') is None and spec.get('prec') is None and not spec.get('plus') and not spec.get('alt')
                    if plain: spec = None
                    else:
                        spec.pop('flags', None)
                        if spec.get('zero'): spec['fill'] = '0'; spec['align'] = 'right'
                        spec.pop('zero', None)
                        for k in ('plus', 'alt'):
                            if not spec.get(k): spec.pop(k, None)
                pcs.append(('arg', ar[1], ar[2], ar[3], None if spec is None else tuple(sorted(spec.items(), key=str))))
            else: raise Unk('fmt template')
        return ret(st, ('args', tuple(pcs)))
    @reg('std::fmt::format')
    def f(I, st, a, c):
        return [Out('ret', o.st, ('str', o.val)) if o.kind == 'ret' else o for o in I.fmt_args(st, a[0])]
    def fmt_append(st, fr, parts, destty):
        s = st.copy(); x = I.load(s, fr)
        I.store(s, fr, ('fmtr', norm_parts(x[1] + parts)))
        return Out('ret', s, mkadt(destty, 'Ok', (UNIT,)))
    @reg('std::fmt::Formatter::write_fmt')
    def f(I, st, a, c):
        return [fmt_append(o.st, a[0], o.val, c['destty']) if o.kind == 'ret' else o for o in I.fmt_args(st, a[1])]
    @reg('std::fmt::Formatter::write_str', 'std::fmt::Formatter::pad')
    def f(I, st, a, c): return [fmt_append(st, a[0], strval(st, a[1])[1], c['destty'])]
    @reg('std::fmt::Formatter::write_char')
    def f(I, st, a, c): return [fmt_append(st, a[0], ((('lit', chr(a[1])),) if isinstance(a[1], int) else (('chr', a[1]),)), c['destty'])]
    @reg('std::fmt::Display::fmt')
    def f(I, st, a, c):
        if not nonlocal_(c): return NotImplemented
        return [fmt_append(o.st, a[1], o.val, c['destty']) if o.kind == 'ret' else o for o in I.display(st, a[0], c['targs'][0], None)]
    @reg('std::io::_print', 'std::io::_eprint')
    def f(I, st, a, c):
        outs = []
        for o in I.fmt_args(st, a[0]):
            if o.kind != 'ret': outs.append(o); continue
            s = o.st.copy(); s.log += (('print' if c['name'].endswith('_print') else 'eprint', o.val),)
            outs.append(Out('ret', s, UNIT))
        return outs
    for n in ('debug_struct_field1_finish', 'debug_tuple_field1_finish'):
        pass
    @reg('std::intrinsics::discriminant_value', 'std::mem::discriminant')
    def f(I, st, a, c): return ret(st, ('discr', I.load(st, a[0])))
    return N
