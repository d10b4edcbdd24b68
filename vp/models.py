"""Meaning of the standard-library and pest functions the analysed code calls, as term operations.
import os

Unknown functions become uninterpreted terms (opaque_app), never guesses."""
from .mir import T, mk, head
from .terms import *
from .facts import St, INF, neg, and_, or_, lt, le, eqi, ge0

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


class Ctx:
    __slots__ = ('I', 'fr', 'st', 'args', 'targs', 'f', 'b', 'bb', 'name')


def dispatch(I, fr, st, name, args, targs, f, b, bb):
    from .interp import SKIP
    c = Ctx()
    c.I, c.fr, c.st, c.args, c.targs, c.f, c.b, c.bb, c.name = I, fr, st, args, targs, f, b, bb, name
    fn = M.get(name)
    if fn is None:
        last = name.split('::')[-1]
        if name.startswith('std::iter::') or name.startswith('core::iter::'):
            fn = M.get('iter::' + last)
        if fn is None and name.startswith(('std::', 'core::', 'alloc::')):
            fn = M.get('fn::' + last)
    if fn is not None:
        r = fn(c)
        if r is not NotImplemented and r is not None:
            return r
    I.notes.add('unmodelled ' + name)
    return opaque(c)


def opaque(c):
    atys = []
    return c.I.opaque_app(c.name, [c.I.deep(c.st, a) if a[0] != 'ref' else a for a in c.args], c.st.copy(), atys)


def call_fnitem(I, st, fv_, args, b):
    """call of a function item used as a value: Some, String::from, str::to_string, Self::x, ..."""
    _, ti, key, p, ts = fv_
    ty = I.crate.types[ti]
    f = dict(ty.get('f') or {})
    last = p.split('::')[-1]
    # constructors
    for path, a in I.crate.adts.items():
        for i, v in enumerate(a['vars']):
            if p == path + '::' + v['n'] or (p == path and len(a['vars']) == 1 and v['n'] == last):
                return [(st, I.adt(path, i, args))]
    if last == 'Some' and len(args) == 1:
        return [(st, some(args[0]))]
    if last == 'Ok' and len(args) == 1:
        return [(st, ok(args[0]))]
    if last == 'Err' and len(args) == 1:
        return [(st, err(args[0]))]
    if key and key.startswith('L'):
        body = I.crate.bodies.get(key)
        if body is not None and body.intrait and ts:
            r = I.resolve(None, body.intrait, body.name, list(ts), {})
            if r is not None:
                return I.call_body(r[0], r[1], args, st, b['sp'] if b else None)
        if body is not None:
            return I.call_body(body, I.mkenv(body, list(ts)), args, st, b['sp'] if b else None)
    if f:
        g = dict(f)
        return I.call_fn(FakeFrame(I, ts), st, g, args, b or {'sp': ''}, None)
    import re
    plain = p
    while re.search(r'::<[^<>]*>', plain):
        plain = re.sub(r'::<[^<>]*>', '', plain)
    name = '::'.join(plain.split('::')[-2:])
    if '<impl' in p:
        # core::str::<impl str>::len
        m = re.search(r'<impl ([^>]+)>', p)
        if m:
            name = m.group(1).split('::')[-1].strip('[]').replace('T', 'slice') + '::' + last
    return dispatch(I, None, st, name, args, list(ts), {'p': p}, b, None)


class FakeFrame:
    def __init__(self, I, ts):
        self.env = {}
        self.fid = -1
        self.body = None
        self.loopctx = None


# ---------------------------------------------------------------- helpers
def val(c, i, st=None):
    """argument i with references resolved"""
    return c.I.deref(st or c.st, c.args[i])


def split(I, st, v, path, n=2):
    """[(st, variant)]"""
    if v[0] == 'adt':
        return [(st, v[2])]
    I.note_enum(v, path)
    k = st.variant(v)
    if k is not None:
        return [(st, k)]
    out = []
    for i in range(n):
        s = st.copy()
        if s.set_is(v, i):
            out.append((s, i))
    return out


def opt_split(I, st, v):
    """[(st, payload or None)]"""
    return [(s, fld(v, 1, 0) if i == 1 else None) for s, i in split(I, st, v, OPT)]


def res_split(I, st, v):
    return [(s, i, fld(v, i, 0)) for s, i in split(I, st, v, RES)]


def optref_split(c, st, a):
    """Option argument that may be behind a &mut: payload as value or reference"""
    I = c.I
    if a[0] == 'ref':
        v = I.load(st, a[1], a[2])
        if v[0] == 'ref':
            return optref_split(c, st, v)
        out = []
        for s, p in opt_split(I, st, v):
            out.append((s, None if p is None else mk('ref', a[1], mk(*(list(a[2]) + [mk('f', OPT, 1, 0)])))))
        return out
    return opt_split(I, st, a)


def fork(st, c):
    return st.fork(c)


def callv(c, st, f, args):
    return c.I.call_value(st, f, args, c.b)


def callv_ref(c, st, i, args):
    """call argument i as closure"""
    return c.I.call_value(st, c.args[i], args, c.b)


def set_ref(c, st, a, v):
    c.I.store(st, a[1], a[2], v)


def bool_paths(c, st, v):
    """closure result -> [(st, bool)]"""
    v = c.I.deref(st, v)
    return st.fork(v)


# ---------------------------------------------------------------- identity-like
@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
       'Rc::new', 'Arc::new', 'Box::new', 'Cell::new', 'IntoIterator::into_iter_id', 'fn::must_use', 'fn::identity', 'fn::black_box',
       'String::as_str', 'String::as_mut_str', 'Vec::as_slice', 'Vec::as_mut_slice', 'String::into_boxed_str', 'String::into_string', 'str::into_string',
       'Vec::into_boxed_slice', 'Box::pin', 'Rc::as_ref', 'slice::into_vec', 'String::into_bytes_', 'Box::as_ref', 'Iterator::by_ref',
       'slice::as_slice', 'array::as_slice', 'Cow::into_owned', 'Option::as_deref_id', 'Box::assume_init', 'MaybeUninit::assume_init', 'Box::into_inner',
       'String::shrink_to_fit_', 'fn::into_vec', 'fn::box_new')
def m_id(c):
    return [(c.st, c.args[0])]


@model('Box::new_uninit', 'Box::new_uninit_slice', 'MaybeUninit::uninit')
def m_uninit(c):
    st = c.st.copy()
    return [(st, mk('ref', c.I.newcell(st, mk('uninit',)), ()))]


@model('fn::box_assume_init_into_vec_unsafe')
def m_assume_vec(c):
    return [(c.st, c.I.deref(c.st, c.args[0]))]


@model('MaybeUninit::write', 'Box::write')
def m_write(c):
    return NotImplemented


@model('Clone::clone', 'ToOwned::to_owned', 'Option::cloned', 'Option::copied', 'slice::to_vec', 'str::to_owned', 'str::to_string',
       'Clone::clone_from_', 'slice::to_owned', 'Cow::Owned', 'Option::as_deref')
def m_clone(c):
    v = c.I.deep(c.st, c.args[0])
    return [(c.st, v)]


@model('Into::into', 'From::from')
def m_into(c):
    I = c.I
    src = c.targs[0] if c.name == 'Into::into' else (c.targs[1] if len(c.targs) > 1 else None)
    dst = c.targs[1] if c.name == 'Into::into' and len(c.targs) > 1 else c.targs[0] if c.targs else None
    if c.name == 'Into::into' and src is not None and dst is not None:
        tr = [t for t in I.crate.impls if t.split('::')[-1] == 'From']
        for t in tr:
            r = I.resolve(None, t, 'from', [dst, src], {})
            if r is not None and I.unify(I.crate.ty(r[0].locals[1]), src, {}):
                return I.call_body(r[0], r[1], c.args, c.st, c.b['sp'] if c.b else None)
    if src is not None and dst is not None:
        hs, hd = head(src).split('::')[-1], head(dst).split('::')[-1]
        if hd == 'String' and hs in ('str', 'String', 'Cow', 'Box'):
            return m_clone(c)
        if hd == 'String' and hs == 'char':
            return [(c.st, chstr(val(c, 0)))]
        if src is dst:
            return [(c.st, c.args[0])]
        if hs in ('error::Error', 'Error') and hd == 'Error':
            return [(c.st, app('boxederr', c.I.deep(c.st, c.args[0])))]
        if hd == 'Vec' and hs in ('slice', 'array', 'Vec'):
            return m_clone(c)
        if hd == 'Option':
            return [(c.st, some(c.args[0]))]
    return NotImplemented


@model('ToString::to_string')
def m_to_string(c):
    return [(s, v) for s, v in display(c, c.st, c.targs[0] if c.targs else None, c.args[0])]


def display(c, st, ty, v):
    """-> [(st, text term)]"""
    I = c.I
    v = I.deref(st, v)
    t = ty
    while t is not None and t[0] == 'ref':
        t = t[2]
    h = head(t).split('::')[-1] if t is not None else '?'
    if h in ('str', 'String', 'Cow'):
        return [(st, v)]
    if h == 'char':
        return [(st, chstr(v))]
    if v[0] == 'int':
        return [(st, STR(str(v[1])))]
    if v[0] == 'bool':
        return [(st, STR('true' if v[1] else 'false'))]
    if h == 'bool':
        out = []
        for r, s in st.fork(v):
            out.append((s, STR('true' if r else 'false')))
        return out
    if h in ('Box', 'Rc') and t is not None and len(t) > 2:
        return display(c, st, t[2], v)
    tr = [x for x in I.crate.impls if x.split('::')[-1] == 'Display']
    if t is not None:
        for x in tr:
            r = I.resolve(None, x, 'fmt', [t], {})
            if r is not None:
                s = st.copy()
                cell = I.newcell(s, STR(''))
                out = []
                for s2, rv in I.call_body(r[0], r[1], [v, mk('ref', cell, ())], s, c.b['sp'] if c.b else None):
                    for s3, k, p in res_split(I, s2, rv):
                        if k == 0:
                            out.append((s3, s3.cells[cell]))
                        else:
                            I.panic(s3, 'display error', c.b, [])
                return out
    return [(st, app('display', v))]


# ---------------------------------------------------------------- formatting
def parse_template(hexs):
    bs = bytes.fromhex(hexs)
    out = []
    i = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(bs[i:i + n].decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bs[i:i + ln].decode('utf8', 'replace'))
            i += ln
        else:
            fl = n & 0x3f
            spec = {}
            if fl & 1:
                i += 4
                spec['flags'] = 1
            if fl & 2:
                i += 2
                spec['width'] = 1
            if fl & 4:
                i += 2
                spec['prec'] = 1
            if fl & 8:
                spec['arg'] = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(spec)
    return out


@model('Argument::new_display')
def m_arg_display(c):
    t = c.targs[0] if c.targs else None
    return [(s, mk('fmtarg', v)) for s, v in display(c, c.st, t, c.args[0])]


@model('Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp')
def m_arg_debug(c):
    return [(c.st, mk('fmtarg', app('debug', c.I.deep(c.st, c.args[0]))))]


@model('Arguments::from_str')
def m_args_str(c):
    return [(c.st, mk('fmtargs', val(c, 0)))]


@model('Arguments::new')
def m_args_new(c):
    tpl = val(c, 0)
    args = val(c, 1)
    if tpl[0] != 'bytes' or args[0] != 'seq':
        if not (tpl[0] == 'bytes'):
            return [(c.st, mk('fmtargs', app('fmt?', tpl, args)))]
    pieces = parse_template(tpl[1])
    ps = []
    n = 0
    for p in pieces:
        if isinstance(p, str):
            ps.append(mk('lit', p))
        else:
            ix = p.get('arg', n)
            n = ix + 1
            a = c.I.deref(c.st, elem(args, INT(ix)))
            v = a[1] if a[0] == 'fmtarg' else app('fmt?', a)
            if 'width' in p or 'prec' in p or 'flags' in p:
                v = app('fmtspec', v)
            ps.append(mk('val', v))
    return [(c.st, mk('fmtargs', txt(ps)))]


@model('fn::format')
def m_format(c):
    a = val(c, 0)
    return [(c.st, a[1] if a[0] == 'fmtargs' else app('format', a))]


@model('Write::write_fmt', 'Formatter::write_fmt')
def m_write_fmt(c):
    a = val(c, 1)
    t = a[1] if a[0] == 'fmtargs' else app('format', a)
    return str_append(c, t, ok(UNIT))


@model('Write::write_str', 'Formatter::write_str')
def m_write_str(c):
    return str_append(c, val(c, 1), ok(UNIT))


@model('Formatter::pad')
def m_pad(c):
    return str_append(c, val(c, 1), ok(UNIT))


@model('Display::fmt')
def m_display_fmt(c):
    out = []
    x, c.args = c.args[0], c.args[1:]
    for s, v in display(c, c.st, c.targs[0] if c.targs else None, x):
        c.st = s
        out += str_append(c, v, ok(UNIT))
    return out


@model('Write::write_char', 'Formatter::write_char')
def m_write_char(c):
    return str_append(c, chstr(val(c, 1)), ok(UNIT))


def str_append(c, t, ret):
    I = c.I
    r = c.args[0]
    st = c.st.copy()
    if r[0] != 'ref':
        I.notes.add('append to non-reference')
        return [(st, ret)]
    cur = I.load(st, r[1], r[2])
    if cur[0] == 'ref':
        r = cur
        cur = I.load(st, r[1], r[2])
    I.store(st, r[1], r[2], concat(cur, t))
    return [(st, ret)]


# ---------------------------------------------------------------- strings
@model('String::push_str')
def m_push_str(c):
    return str_append(c, val(c, 1), UNIT)


@model('String::push')
def m_push_ch(c):
    return str_append(c, chstr(val(c, 1)), UNIT)


@model('AddAssign::add_assign')
def m_add_assign(c):
    h = head(c.targs[0]).split('::')[-1] if c.targs else ''
    if h == 'String':
        return str_append(c, val(c, 1), UNIT)
    r = c.args[0]
    if r[0] == 'ref' and c.targs and c.targs[0][0] == 'num':
        st = c.st.copy()
        c.I.store(st, r[1], r[2], add(c.I.load(st, r[1], r[2]), val(c, 1)))
        return [(st, UNIT)]
    return NotImplemented


@model('Add::add')
def m_add(c):
    t = c.targs[0] if c.targs else None
    if t is None:
        return NotImplemented
    while t[0] == 'ref':
        t = t[2]
    if head(t).split('::')[-1] == 'String':
        return [(c.st, concat(val(c, 0), val(c, 1)))]
    if t[0] == 'num':
        return [(c.st, add(val(c, 0), val(c, 1)))]
    return [(c.st, acc([one(val(c, 0)), one(val(c, 1))]))]


@model('Sub::sub')
def m_sub(c):
    if c.targs and c.targs[0][0] == 'num':
        a, b = val(c, 0), val(c, 1)
        out = []
        for r, s in c.st.fork(lt(a, b)):
            if r:
                c.I.panic(s, 'overflow:Sub', c.b, [a, b])
            else:
                out.append((s, sub(a, b)))
        return out
    return NotImplemented


@model('String::new', 'String::with_capacity', 'str::default')
def m_str_new(c):
    return [(c.st, STR(''))]


@model('Default::default')
def m_default(c):
    h = head(c.targs[0]).split('::')[-1] if c.targs else ''
    d = {'String': STR(''), 'str': STR(''), 'Vec': EMPTY, 'bool': FALSE, 'Option': NONE, 'BTreeMap': app('emptymap'),
         'HashMap': app('emptymap'), 'tuple': UNIT}.get(h)
    if c.targs and c.targs[0][0] == 'num' and not h.startswith('f'):
        d = INT(0)
    if d is None:
        return NotImplemented
    return [(c.st, d)]


@model('String::is_empty', 'str::is_empty', 'Vec::is_empty', 'slice::is_empty')
def m_is_empty(c):
    return [(c.st, eqi(length(val(c, 0)), INT(0)))]


@model('String::len', 'str::len', 'Vec::len', 'slice::len', 'ExactSizeIterator::len')
def m_len(c):
    v = val(c, 0)
    if v[0] == 'iter':
        r = INT(0)
        for s in iter_segs(v):
            r = add(r, seg_len(s))
        return [(c.st, r)]
    return [(c.st, length(v))]


@model('String::capacity', 'Vec::capacity')
def m_cap(c):
    return [(c.st, app('capacity', val(c, 0)))]


@model('String::reserve', 'Vec::reserve', 'Vec::shrink_to_fit', 'String::shrink_to_fit')
def m_nop(c):
    return [(c.st, UNIT)]


@model('String::clear')
def m_str_clear(c):
    st = c.st.copy()
    set_ref(c, st, c.args[0], STR(''))
    return [(st, UNIT)]


@model('Vec::clear')
def m_vec_clear(c):
    st = c.st.copy()
    set_ref(c, st, c.args[0], EMPTY)
    return [(st, UNIT)]


def pat_conds(c, st, what, s, p):
    """condition 's.what(pattern)' """
    p = c.I.deref(st, p) if p[0] == 'ref' and c.I.load(st, p[1], p[2])[0] != 'clo' else p
    if p[0] == 'chr':
        p = STR(chr(p[1]))
    if p[0] in ('seq',):
        cs = []
        for x in p[1]:
            if x[0] != 'one':
                return None
            cs.append(app(what, s, chstr(c.I.deref(st, x[1]))))
        return or_(*cs)
    if p[0] in ('clo', 'ref', 'fn', 'fnp', 'cloref'):
        return None
    ty = None
    return app(what, s, p if p[0] in ('str', 'txt') or not is_char_term(c, p) else chstr(p))


def is_char_term(c, p):
    return p[0] == 'elem' and p[1][0] == 'app' and p[1][1] == 'chars' or (p[0] == 'app' and p[1] in ('char',))


def pat_ty_is_char(c, i):
    ts = [t for t in c.targs if isinstance(t, T)]
    return any(t[0] == 'char' for t in ts)


@model('str::contains', 'str::starts_with', 'str::ends_with')
def m_pat(c):
    what = c.name.split('::')[-1]
    s = val(c, 0)
    p = c.args[1]
    pd = c.I.deref(c.st, p)
    if pd[0] in ('clo', 'fn', 'fnp'):
        chars = app('chars', s)
        if what == 'contains':
            return any_over(c, c.st, [all_(chars)], p)
        n = length(chars)
        out = []
        for r, st in c.st.fork(eqi(length(s), INT(0))):
            if r:
                out.append((st, FALSE))
                continue
            e = elem(chars, INT(0)) if what == 'starts_with' else elem(chars, sub(n, INT(1)))
            out.extend(callv(c, st, p, [e]))
        return out
    if pat_ty_is_char(c, 1) and pd[0] != 'str' and pd[0] != 'seq':
        return [(c.st, app(what, s, chstr(pd)))]
    r = pat_conds(c, c.st, what, s, p)
    if r is None:
        return NotImplemented
    return [(c.st, r)]


@model('str::chars', 'str::char_indices', 'str::lines', 'str::bytes', 'str::split_whitespace', 'str::as_bytes', 'String::as_bytes',
       'String::into_bytes', 'str::split_ascii_whitespace')
def m_chars(c):
    n = c.name.split('::')[-1]
    v = val(c, 0)
    if n == 'char_indices':
        n = 'char_indices'
    t = app({'as_bytes': 'bytes', 'into_bytes': 'bytes'}.get(n, n), v)
    if n in ('as_bytes', 'into_bytes'):
        return [(c.st, t)]
    if v[0] == 'str' and len(v[1]) <= 24:
        if n == 'chars':
            return [(c.st, mkiter([one(mk('chr', ord(x))) for x in v[1]]))]
        if n == 'char_indices':
            return [(c.st, mkiter([one(mk('tup', (INT(len(v[1][:i].encode())), mk('chr', ord(x))))) for i, x in enumerate(v[1])]))]
        if n == 'lines':
            ls = v[1].split('\n')
            if ls[-1] == '':
                ls.pop()
            return [(c.st, mkiter([one(STR(x[:-1] if x.endswith('\r') else x)) for x in ls]))]
    return [(c.st, mkiter([all_(t)]))]


@model('str::split', 'str::split_terminator', 'str::splitn', 'str::rsplit', 'str::split_inclusive', 'str::matches', 'str::rsplitn')
def m_split(c):
    n = c.name.split('::')[-1]
    ps = []
    for a in c.args[1:]:
        p = c.I.deref(c.st, a)
        if p[0] in ('clo', 'fn', 'fnp'):
            p = charpat(c, a) or p
        ps.append(chstr(p) if p[0] == 'chr' or pat_ty_is_char(c, 1) and p[0] not in ('str', 'int', 'seq') else p)
    return [(c.st, mkiter([all_(app(n, val(c, 0), *ps))]))]


@model('str::split_once', 'str::rsplit_once', 'str::strip_prefix', 'str::strip_suffix', 'str::find', 'str::rfind')
def m_split_once(c):
    p = c.I.deref(c.st, c.args[1])
    if p[0] in ('clo', 'fn', 'fnp'):
        p = charpat(c, c.args[1])
        if p is None:
            return NotImplemented
    elif p[0] == 'chr' or pat_ty_is_char(c, 1):
        p = chstr(p)
    n = c.name.split('::')[-1]
    s = val(c, 0)
    cond = {'split_once': 'contains', 'rsplit_once': 'contains', 'find': 'contains', 'rfind': 'contains',
            'strip_prefix': 'starts_with', 'strip_suffix': 'ends_with'}[n]
    out = []
    for r, st in c.st.fork(app(cond, s, p)):
        if not r:
            out.append((st, NONE))
        elif n in ('split_once', 'rsplit_once'):
            out.append((st, some(tup(app(n + '_l', s, p), app(n + '_r', s, p)))))
        elif n in ('find', 'rfind'):
            width = INT(1) if p[0] == 'app' and p[1] == 'charpat' else length(p)
            for in_, s2 in st.fork(le(add(app(n, s, p), width), length(s))):
                if in_:
                    out.append((s2, some(app(n, s, p))))
        else:
            out.append((st, some(app(n, s, p))))
    return out


FOLDS = {'trim': str.strip, 'trim_end': str.rstrip, 'trim_start': str.lstrip, 'to_lowercase': str.lower, 'to_uppercase': str.upper,
         'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper}


@model('str::eq_ignore_ascii_case', 'char::eq_ignore_ascii_case')
def m_eq_ignore(c):
    a, b = val(c, 0), val(c, 1)
    if a[0] == b[0] == 'str':
        lo = lambda s: ''.join(x.lower() if x.isascii() else x for x in s)
        return [(c.st, TRUE if lo(a[1]) == lo(b[1]) else FALSE)]
    return [(c.st, app('eq_ignore_ascii_case', a, b))]


@model('str::trim', 'str::trim_end', 'str::trim_start', 'str::to_lowercase', 'str::to_uppercase', 'str::to_ascii_lowercase',
       'str::to_ascii_uppercase', 'char::to_ascii_lowercase', 'char::to_ascii_uppercase')
def m_str1(c):
    n = c.name.split('::')[-1]
    v = val(c, 0)
    if v[0] in ('str', 'chr') and v[0] == 'str' and n in FOLDS and v[1].isascii():
        return [(c.st, STR(FOLDS[n](v[1])))]
    return [(c.st, app(c.name.split('::')[-1], val(c, 0)))]


def charpat(c, p):
    """a test on characters as a pattern: the characters for which it holds"""
    ch = mk('sym', '?ch')
    for s, r in any_over(c, c.st.copy(), [all_(ch)], p):
        for f in s.facts_since(None):
            if r is TRUE and f[0] == 'b' and f[2] is True and isinstance(f[1], T) and f[1][0] == 'pred' and f[1][1] is length(ch):
                return app('charpat', f[1])
    return None


@model('str::trim_end_matches', 'str::trim_start_matches', 'str::trim_matches')
def m_trim_matches(c):
    p = c.I.deref(c.st, c.args[1])
    if p[0] in ('clo', 'fn', 'fnp'):
        p = charpat(c, c.args[1])
        if p is None:
            return NotImplemented
        return [(c.st, app(c.name.split('::')[-1], val(c, 0), p))]
    if p[0] == 'chr' or pat_ty_is_char(c, 1):
        p = chstr(p)
    s = val(c, 0)
    if s[0] == 'str' and p[0] == 'str':
        x, y = s[1], p[1]
        while y and c.name.endswith('end_matches') and x.endswith(y):
            x = x[:-len(y)]
        if c.name.endswith('end_matches'):
            return [(c.st, STR(x))]
    return [(c.st, app(c.name.split('::')[-1], s, p))]


@model('str::replace', 'str::replacen')
def m_replace(c):
    return [(c.st, app('replace', *[chstr(x) if x[0] == 'chr' else x for x in (c.I.deref(c.st, a) for a in c.args)]))]


@model('str::repeat', 'slice::repeat')
def m_repeat(c):
    s, n = val(c, 0), val(c, 1)
    if s[0] == 'str':
        return [(c.st, txt([mk('rep', s[1], n)]))]
    return [(c.st, txt([rebuild_binder('each', n, mk('bv', 0), [mk(*[mk((), (mk('val', s),))])], None)]) if 0 not in fv(s) else app('repeat', s, n))]


@model('str::parse')
def m_parse(c):
    t = c.targs[0] if c.targs else None
    s = val(c, 0)
    h = head(t).split('::')[-1] if t is not None else '?'
    if t is not None:
        for tr in [x for x in c.I.crate.impls if x.split('::')[-1] == 'FromStr']:
            r = c.I.resolve(None, tr, 'from_str', [t], {})
            if r is not None:
                return c.I.call_body(r[0], r[1], [s], c.st, c.b['sp'] if c.b else None)
    if h == 'String':
        return [(c.st, ok(s))]
    return parsed(c, h, s)


def parsed(c, h, s):
    r = app('parse:' + h, s)
    c.I.note_enum(r, RES)
    if s[0] == 'str':
        z = parses(h, s[1])
        if z is not None:
            if z and h in ('usize', 'u8', 'u16', 'u32'):
                return [(c.st, ok(INT(int(s[1]))))]
            return [(c.st, mk('adt', RES, 0 if z else 1, (fld(r, 0 if z else 1, 0),)))]
    return [(c.st, r)]


INTS = {'i8': (-2**7, 2**7), 'i16': (-2**15, 2**15), 'i32': (-2**31, 2**31), 'i64': (-2**63, 2**63), 'i128': (-2**127, 2**127), 'isize': (-2**63, 2**63),
        'u8': (0, 2**8), 'u16': (0, 2**16), 'u32': (0, 2**32), 'u64': (0, 2**64), 'u128': (0, 2**128), 'usize': (0, 2**64)}


def parses(h, s):
    """does the standard library's FromStr of the type accept this literal text"""
    import re
    if h in INTS:
        lo, hi = INTS[h]
        if not re.fullmatch(r'[+-]?[0-9]+', s) or (lo == 0 and s[0] == '-'):
            return False
        return lo <= int(s) < hi
    if h in ('f64', 'f32'):
        return bool(re.fullmatch(r'[+-]?(?:[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN]|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)', s))
    if h == 'bool':
        return s in ('true', 'false')
    if h == 'char':
        return len(s) == 1
    return None


@model('FromStr::from_str')
def m_from_str(c):
    h = head(c.targs[0]).split('::')[-1]
    return parsed(c, h, val(c, 0))


@model('char::is_whitespace', 'char::is_ascii_digit', 'char::is_numeric', 'char::is_alphabetic', 'char::is_alphanumeric',
       'char::is_ascii_alphanumeric', 'char::is_ascii_whitespace', 'char::is_control', 'char::is_ascii', 'char::is_ascii_alphabetic',
       'char::is_digit', 'char::is_ascii_hexdigit', 'char::is_uppercase', 'char::is_lowercase', 'char::is_ascii_punctuation')
def m_char_pred(c):
    v = val(c, 0)
    n = c.name.split('::')[-1]
    if v[0] == 'chr':
        ch = chr(v[1])
        f = {'is_whitespace': ch.isspace(), 'is_ascii_digit': ch.isascii() and ch.isdigit(), 'is_alphabetic': ch.isalpha(),
             'is_numeric': ch.isnumeric(), 'is_alphanumeric': ch.isalnum(), 'is_ascii': ch.isascii()}.get(n)
        if f is not None:
            return [(c.st, TRUE if f else FALSE)]
    return [(c.st, app(n, *[c.I.deref(c.st, a) for a in c.args]))]


@model('char::to_digit')
def m_to_digit(c):
    r = app('to_digit', val(c, 0), val(c, 1))
    c.I.note_enum(r, OPT)
    return [(c.st, r)]


@model('char::len_utf8')
def m_len_utf8(c):
    v = val(c, 0)
    if v[0] == 'chr':
        return [(c.st, INT(len(chr(v[1]).encode())))]
    return [(c.st, app('len', chstr(v)))]


@model('str::is_char_boundary')
def m_boundary(c):
    k = known_boundary(c.st, val(c, 0), val(c, 1))
    if k is not None:
        return [(c.st, TRUE if k else FALSE)]
    return [(c.st, app('is_char_boundary', val(c, 0), val(c, 1)))]


def cut_ok(s, n):
    b = s.encode()
    return 0 <= n <= len(b) and (n == len(b) or b[n] & 0xc0 != 0x80)


def known_boundary(st, v, p):
    """is a position (not after the end) a character boundary of a text; None: not known"""
    n = length(v)
    if p is INT(0) or p is n:
        return True
    if v[0] == 'str' and p[0] == 'int':
        return cut_ok(v[1], p[1])
    for q in lin_parts(p)[1]:
        if q[0] == 'app' and q[1] in ('find', 'rfind') and q[2][0] is v:
            d = sub(p, q)
            if d is INT(0) or d is length(q[2][1]):
                return True
            if d[0] == 'int' and q[2][1][0] == 'str' and 0 <= d[1] <= len(q[2][1][1].encode()):
                return cut_ok(q[2][1][1], d[1])
    back = sub(n, p)
    for f in st.facts_since(None) if p[0] == 'int' or back[0] == 'int' else ():
        if f[0] == 'b' and f[2] and f[1][0] == 'app' and f[1][1] in ('starts_with', 'ends_with') and f[1][2][0] is v and f[1][2][1][0] == 'str':
            x = f[1][2][1][1]
            k = len(x.encode())
            if f[1][1] == 'starts_with' and p[0] == 'int' and p[1] <= k:
                return cut_ok(x, p[1])
            if f[1][1] == 'ends_with' and back[0] == 'int' and back[1] <= k:
                return cut_ok(x, k - back[1])
    return None


def at_boundary(c, st, v, p):
    """the states in which a position is a character boundary; where it is not, the call panics"""
    k = known_boundary(st, v, p)
    if k is True:
        return [st]
    if k is False:
        c.I.panic(st, 'char boundary', c.b, [v, p])
        return []
    out = []
    for r, s2 in st.fork(app('is_char_boundary', v, p)):
        if r:
            out.append(s2)
        else:
            c.I.panic(s2, 'char boundary', c.b, [v, p])
    return out


@model('String::pop')
def m_str_pop(c):
    I = c.I
    r = c.args[0]
    s = I.load(c.st, r[1], r[2])
    out = []
    for t, st in c.st.fork(eqi(length(s), INT(0))):
        st = st.copy()
        if t:
            out.append((st, NONE))
        else:
            set_ref(c, st, r, app('popped', s))
            out.append((st, some(app('lastchar', s))))
    return out


@model('String::insert_str', 'String::insert')
def m_str_insert(c):
    I = c.I
    r = c.args[0]
    st = c.st.copy()
    s = I.load(st, r[1], r[2])
    i = val(c, 1)
    v = val(c, 2)
    if c.name.endswith('insert'):
        v = chstr(v)
    if i is INT(0):
        set_ref(c, st, r, concat(v, s))
        return [(st, UNIT)]
    out = []
    for okk, s1 in st.fork(le(i, length(s))):
        if not okk:
            I.panic(s1, 'insert index', c.b, [i, length(s)])
            continue
        for s2 in at_boundary(c, s1, s, i):
            s2 = s2.copy()
            set_ref(c, s2, r, app('insert_str', s, i, v))
            out.append((s2, UNIT))
    return out


@model('String::truncate')
def m_str_trunc(c):
    r = c.args[0]
    v, p = c.I.load(c.st, r[1], r[2]), val(c, 1)
    out = []
    for short, s1 in c.st.fork(le(length(v), p)):
        for s2 in [s1] if short else at_boundary(c, s1, v, p):
            s2 = s2.copy()
            if not short:
                set_ref(c, s2, r, STR('') if p is INT(0) else strslice(v, INT(0), p))
            out.append((s2, UNIT))
    return out


@model('String::split_off')
def m_str_split_off(c):
    r = c.args[0]
    v, p = c.I.load(c.st, r[1], r[2]), val(c, 1)
    out = []
    for okk, s1 in c.st.fork(le(p, length(v))):
        if not okk:
            c.I.panic(s1, 'split_off', c.b, [p])
            continue
        for s2 in at_boundary(c, s1, v, p):
            s2 = s2.copy()
            set_ref(c, s2, r, strslice(v, INT(0), p))
            out.append((s2, strslice(v, p, length(v))))
    return out


@model('str::split_at')
def m_str_split_at(c):
    v, p = val(c, 0), val(c, 1)
    out = []
    for okk, s1 in c.st.fork(le(p, length(v))):
        if not okk:
            c.I.panic(s1, 'split_at', c.b, [p])
            continue
        for s2 in at_boundary(c, s1, v, p):
            out.append((s2, tup(strslice(v, INT(0), p), strslice(v, p, length(v)))))
    return out


# ---------------------------------------------------------------- comparison
@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(c):
    v = c.I.make_eq(c.st, c.I.deep(c.st, c.args[0]), c.I.deep(c.st, c.args[1]))
    v = strip_is(c, v)
    return [(c.st, v if c.name.endswith('eq') else neg(v))]


def strip_is(c, v):
    return v


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ord(c):
    o = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[c.name.split('::')[-1]]
    return [(c.st, c.I.compare(c.st, o, val(c, 0), val(c, 1)))]


@model('Ord::min', 'Ord::max', 'fn::min', 'fn::max')
def m_min(c):
    a, b = val(c, 0), val(c, 1)
    out = []
    for r, s in c.st.fork(le(a, b)):
        out.append((s, (a if r else b) if c.name.endswith('min') else (b if r else a)))
    return out


@model('usize::saturating_sub', 'u32::saturating_sub', 'u64::saturating_sub')
def m_satsub(c):
    a, b = val(c, 0), val(c, 1)
    return [(s, sub(a, b) if r else INT(0)) for r, s in c.st.fork(le(b, a))]


@model('usize::checked_sub', 'u32::checked_sub', 'u64::checked_sub')
def m_chksub(c):
    a, b = val(c, 0), val(c, 1)
    return [(s, some(sub(a, b)) if r else NONE) for r, s in c.st.fork(le(b, a))]


@model('usize::saturating_add', 'usize::wrapping_add', 'u64::wrapping_add')
def m_wadd(c):
    return [(c.st, add(val(c, 0), val(c, 1)))]


@model('usize::checked_add')
def m_chkadd(c):
    return [(c.st, some(add(val(c, 0), val(c, 1))))]


@model('Not::not')
def m_not(c):
    return [(c.st, neg(val(c, 0)))]


# ---------------------------------------------------------------- Option / Result
@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def m_is(c):
    v = val(c, 0)
    m = c.name.split('::')[-1]
    k = {'is_some': 1, 'is_none': 0, 'is_ok': 0, 'is_err': 1}[m]
    if v[0] == 'adt':
        return [(c.st, TRUE if v[2] == k else FALSE)]
    c.I.note_enum(v, OPT if m in ('is_some', 'is_none') else RES)
    return [(c.st, app('is', v, INT(k)))]


@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref_mut')
def m_as_ref(c):
    a = c.args[0]
    if a[0] != 'ref':
        return [(c.st, a)]
    return [(s, NONE if p is None else some(p)) for s, p in optref_split(c, c.st, a)]


@model('Result::as_ref', 'Result::as_mut', 'Result::as_deref')
def m_ras_ref(c):
    return [(c.st, val(c, 0))]


@model('Option::map', 'Option::and_then', 'Option::unwrap_or', 'Option::unwrap_or_else', 'Option::unwrap_or_default',
       'Option::ok_or', 'Option::ok_or_else', 'Option::filter', 'Option::or', 'Option::or_else', 'Option::map_or',
       'Option::map_or_else', 'Option::is_some_and', 'Option::is_none_or', 'Option::flatten', 'Option::and', 'Option::zip', 'Option::xor',
       'Option::inspect')
def m_opt(c):
    m = c.name.split('::')[-1]
    a = c.args
    out = []
    src = a[0]
    if src[0] == 'ref' and m not in ('map', 'and_then'):
        src = c.I.deref(c.st, src)
    for st, p in optref_split(c, c.st, a[0]) if a[0][0] == 'ref' else opt_split(c.I, c.st, src):
        if m == 'map':
            out.extend([(st, NONE)] if p is None else [(s, some(v)) for s, v in callv(c, st, a[1], [p])])
        elif m == 'and_then':
            out.extend([(st, NONE)] if p is None else callv(c, st, a[1], [p]))
        elif m == 'and':
            out.append((st, NONE if p is None else a[1]))
        elif m == 'unwrap_or':
            out.append((st, a[1] if p is None else p))
        elif m == 'unwrap_or_else':
            out.extend(callv(c, st, a[1], []) if p is None else [(st, p)])
        elif m == 'unwrap_or_default':
            if p is None:
                h = head(c.targs[0]).split('::')[-1] if c.targs else ''
                d = {'String': STR(''), 'Vec': EMPTY, 'bool': FALSE, 'Option': NONE, 'str': STR('')}.get(h)
                if c.targs and c.targs[0][0] == 'num':
                    d = INT(0)
                out.append((st, d if d is not None else app('default:' + h)))
            else:
                out.append((st, p))
        elif m == 'ok_or':
            out.append((st, err(a[1]) if p is None else ok(p)))
        elif m == 'ok_or_else':
            out.extend([(s, err(v)) for s, v in callv(c, st, a[1], [])] if p is None else [(st, ok(p))])
        elif m == 'filter':
            if p is None:
                out.append((st, NONE))
            else:
                for s, v in callv(c, st, a[1], [p]):
                    for r, s2 in bool_paths(c, s, v):
                        out.append((s2, some(p) if r else NONE))
        elif m == 'or':
            out.append((st, a[1] if p is None else some(p)))
        elif m == 'or_else':
            out.extend(callv(c, st, a[1], []) if p is None else [(st, some(p))])
        elif m == 'map_or':
            out.extend([(st, a[1])] if p is None else callv(c, st, a[2], [p]))
        elif m == 'map_or_else':
            out.extend(callv(c, st, a[1], []) if p is None else callv(c, st, a[2], [p]))
        elif m == 'is_some_and':
            out.extend([(st, FALSE)] if p is None else callv(c, st, a[1], [p]))
        elif m == 'is_none_or':
            out.extend([(st, TRUE)] if p is None else callv(c, st, a[1], [p]))
        elif m == 'flatten':
            out.append((st, NONE if p is None else p))
        elif m == 'zip':
            for s, q in opt_split(c.I, st, c.I.deref(st, a[1])):
                out.append((s, some(tup(p, q)) if p is not None and q is not None else NONE))
        elif m == 'inspect':
            out.extend([(st, NONE)] if p is None else [(s, some(p)) for s, v in callv(c, st, a[1], [p])])
        else:
            return NotImplemented
    return out


@model('Option::unwrap', 'Option::expect')
def m_unwrap(c):
    out = []
    v0 = c.args[0]
    for st, p in opt_split(c.I, c.st, v0 if v0[0] != 'ref' else c.I.deref(c.st, v0)):
        if p is None:
            c.I.panic(st, 'unwrap None', c.b, [v0])
        else:
            out.append((st, p))
    return out


@model('bool::then', 'bool::then_some')
def m_bool_then(c):
    a = c.args
    out = []
    for r, st in c.st.fork(a[0]):
        if not r:
            out.append((st, NONE))
        elif c.name.endswith('then_some'):
            out.append((st, some(a[1])))
        else:
            out.extend((s, some(v)) for s, v in callv(c, st, a[1], []))
    return out


@model('Option::take')
def m_opt_take(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.I.load(st, r[1], r[2])
    set_ref(c, st, r, NONE)
    return [(st, v)]


@model('Option::replace', 'Option::insert')
def m_opt_replace(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.I.load(st, r[1], r[2])
    set_ref(c, st, r, some(c.args[1]))
    return [(st, v if c.name.endswith('replace') else UNIT)]


@model('Option::iter', 'Option::into_iter')
def m_opt_iter(c):
    return [(s, mkiter([] if p is None else [one(p)])) for s, p in opt_split(c.I, c.st, val(c, 0))]


@model('Result::map', 'Result::map_err', 'Result::and_then', 'Result::or_else', 'Result::ok', 'Result::err', 'Result::unwrap_or',
       'Result::unwrap_or_else', 'Result::unwrap_or_default', 'Result::map_or', 'Result::map_or_else', 'Result::is_ok_and',
       'Result::is_err_and', 'Result::or', 'Result::and', 'Result::iter', 'Result::flatten')
def m_res(c):
    m = c.name.split('::')[-1]
    a = c.args
    out = []
    for st, k, p in res_split(c.I, c.st, c.I.deref(c.st, a[0])):
        good = k == 0
        if m == 'map':
            out.extend([(s, ok(v)) for s, v in callv(c, st, a[1], [p])] if good else [(st, err(p))])
        elif m == 'map_err':
            out.extend([(st, ok(p))] if good else [(s, err(v)) for s, v in callv(c, st, a[1], [p])])
        elif m == 'and_then':
            out.extend(callv(c, st, a[1], [p]) if good else [(st, err(p))])
        elif m == 'or_else':
            out.extend([(st, ok(p))] if good else callv(c, st, a[1], [p]))
        elif m == 'ok':
            out.append((st, some(p) if good else NONE))
        elif m == 'err':
            out.append((st, NONE if good else some(p)))
        elif m == 'unwrap_or':
            out.append((st, p if good else a[1]))
        elif m == 'unwrap_or_else':
            out.extend([(st, p)] if good else callv(c, st, a[1], [p]))
        elif m == 'unwrap_or_default':
            h = head(c.targs[0]).split('::')[-1] if c.targs else ''
            d = {'String': STR(''), 'Vec': EMPTY, 'bool': FALSE}.get(h, INT(0) if c.targs and c.targs[0][0] == 'num' else app('default:' + h))
            out.append((st, p if good else d))
        elif m == 'map_or':
            out.extend(callv(c, st, a[2], [p]) if good else [(st, a[1])])
        elif m == 'map_or_else':
            out.extend(callv(c, st, a[2], [p]) if good else callv(c, st, a[1], [p]))
        elif m == 'is_ok_and':
            out.extend(callv(c, st, a[1], [p]) if good else [(st, FALSE)])
        elif m == 'is_err_and':
            out.extend([(st, FALSE)] if good else callv(c, st, a[1], [p]))
        elif m == 'or':
            out.append((st, ok(p) if good else a[1]))
        elif m == 'and':
            out.append((st, a[1] if good else err(p)))
        elif m == 'iter':
            out.append((st, mkiter([one(p)] if good else [])))
        else:
            return NotImplemented
    return out


@model('Result::unwrap', 'Result::expect')
def m_runwrap(c):
    out = []
    v0 = c.I.deref(c.st, c.args[0])
    for st, k, p in res_split(c.I, c.st, v0):
        if k == 1:
            c.I.panic(st, 'unwrap Err', c.b, [v0])
        else:
            out.append((st, p))
    return out


@model('Result::unwrap_err', 'Result::expect_err')
def m_runwrap_err(c):
    out = []
    v0 = c.I.deref(c.st, c.args[0])
    for st, k, p in res_split(c.I, c.st, v0):
        if k == 0:
            c.I.panic(st, 'unwrap_err Ok', c.b, [v0])
        else:
            out.append((st, p))
    return out


CF = 'std::ops::ControlFlow'


@model('Try::branch')
def m_branch(c):
    h = head(c.targs[0]).split('::')[-1] if c.targs else 'Result'
    out = []
    if h == 'Option':
        for st, p in opt_split(c.I, c.st, val(c, 0)):
            out.append((st, mk('adt', CF, 1, (NONE,)) if p is None else mk('adt', CF, 0, (p,))))
        return out
    for st, k, p in res_split(c.I, c.st, val(c, 0)):
        out.append((st, mk('adt', CF, 0, (p,)) if k == 0 else mk('adt', CF, 1, (err(p),))))
    return out


@model('Try::from_output')
def m_from_output(c):
    h = head(c.targs[0]).split('::')[-1] if c.targs else 'Result'
    return [(c.st, some(c.args[0]) if h == 'Option' else ok(c.args[0]))]


@model('FromResidual::from_residual')
def m_from_residual(c):
    v = val(c, 0)
    # error conversion by From: identity unless a local From impl exists
    if v[0] == 'adt' and v[1] == RES and c.targs:
        dst = c.targs[0]
        src = c.targs[1] if len(c.targs) > 1 else None
        if dst[0] == 'adt' and len(dst) > 3 and src is not None and src[0] == 'adt' and len(src) > 3 and dst[3] is not src[3]:
            I = c.I
            for t in [x for x in I.crate.impls if x.split('::')[-1] == 'From']:
                r = I.resolve(None, t, 'from', [dst[3], src[3]], {})
                if r is not None and I.unify(I.crate.ty(r[0].locals[1]), src[3], {}):
                    return [(s, err(x)) for s, x in I.call_body(r[0], r[1], [v[3][0]], c.st, c.b['sp'] if c.b else None)]
            return [(c.st, err(app('errfrom', v[3][0])))]
    return [(c.st, v)]


# ---------------------------------------------------------------- panics
@model('fn::panic_fmt', 'fn::panic', 'fn::unreachable_default_msg', 'fn::panic_display', 'fn::assert_failed', 'fn::begin_panic',
       'fn::panic_str_2015', 'fn::panic_explicit', 'fn::unimplemented', 'fn::todo', 'fn::panic_nounwind', 'fn::unreachable_display',
       'fn::abort', 'fn::exit', 'fn::panic_bounds_check', 'fn::unwrap_failed', 'fn::expect_failed', 'fn::unreachable_unchecked')
def m_panic(c):
    msg = ''
    for a in c.args:
        v = c.I.deref(c.st, a)
        if v[0] == 'fmtargs':
            msg = show(v[1])
        elif v[0] == 'str':
            msg = v[1]
    c.I.panic(c.st, 'panic', c.b, [], what=msg)
    return []


# ---------------------------------------------------------------- memory
@model('fn::take', 'Cell::take', 'RefCell::take')
def m_take(c):
    r = c.args[0]
    if r[0] != 'ref':
        return NotImplemented
    st = c.st.copy()
    v = c.I.load(st, r[1], r[2])
    t = c.targs[0] if c.targs else None
    h = head(t).split('::')[-1] if t is not None else ''
    d = {'Vec': EMPTY, 'String': STR(''), 'Option': NONE, 'bool': FALSE}.get(h)
    if d is None:
        if t is not None and t[0] == 'num':
            d = INT(0)
        else:
            d = app('default:' + h)
    set_ref(c, st, r, d)
    return [(st, v)]


@model('fn::replace', 'Cell::replace', 'RefCell::replace')
def m_mem_replace(c):
    r = c.args[0]
    if r[0] != 'ref':
        return NotImplemented
    st = c.st.copy()
    v = c.I.load(st, r[1], r[2])
    set_ref(c, st, r, c.args[1])
    return [(st, v)]


@model('fn::swap')
def m_mem_swap(c):
    a, b = c.args[:2]
    if a[0] != 'ref' or b[0] != 'ref':
        return NotImplemented
    st = c.st.copy()
    x, y = c.I.load(st, a[1], a[2]), c.I.load(st, b[1], b[2])
    set_ref(c, st, a, y)
    set_ref(c, st, b, x)
    return [(st, UNIT)]


@model('fn::drop', 'fn::forget', 'fn::drop_in_place')
def m_drop(c):
    return [(c.st, UNIT)]


@model('RefCell::new', 'Mutex::new')
def m_refcell_new(c):
    st = c.st.copy()
    c.I.heap += 1
    x = app('cell', INT(c.I.heap))
    st.cells[mk('rgn', x)] = c.args[0]
    return [(st, x)]


@model('RefCell::borrow', 'RefCell::borrow_mut')
def m_borrow(c):
    v = val(c, 0)
    if c.name.endswith('mut'):
        return [(c.st, mk('ref', mk('rgn', v), ()))]
    return [(c.st, c.I.load(c.st, mk('rgn', v), ()))]


@model('RefCell::into_inner')
def m_into_inner(c):
    v = val(c, 0)
    return [(c.st, c.I.load(c.st, mk('rgn', v), ()))]


# ---------------------------------------------------------------- maps
@model('BTreeMap::new', 'HashMap::new', 'HashMap::with_capacity')
def m_map_new(c):
    return [(c.st, app('emptymap'))]


@model('BTreeMap::insert', 'HashMap::insert')
def m_map_insert(c):
    r = c.args[0]
    st = c.st.copy()
    m = c.I.deref(st, r)
    k, v = c.I.deep(st, c.args[1]), c.args[2]
    old = mapget(m, k)
    c.I.note_enum(old, OPT)
    if r[0] == 'ref':
        set_ref(c, st, r, app('mapins', m, k, v))
    return [(st, old)]


def mapget(m, k):
    if m[0] == 'app' and m[1] == 'emptymap':
        return NONE
    if m[0] == 'app' and m[1] == 'mapins' and m[2][1] is k:
        return some(m[2][2])
    return app('mapget', m, k)


@model('BTreeMap::get', 'HashMap::get')
def m_map_get(c):
    g = mapget(val(c, 0), c.I.deep(c.st, c.args[1]))
    c.I.note_enum(g, OPT)
    return [(c.st, g)]


@model('BTreeMap::contains_key', 'HashMap::contains_key')
def m_map_has(c):
    g = mapget(val(c, 0), c.I.deep(c.st, c.args[1]))
    if g[0] == 'adt':
        return [(c.st, TRUE if g[2] == 1 else FALSE)]
    c.I.note_enum(g, OPT)
    return [(c.st, app('is', g, INT(1)))]


@model('BTreeMap::get_mut', 'HashMap::get_mut')
def m_map_get_mut(c):
    r = c.args[0]
    k = c.I.deep(c.st, c.args[1])
    m = c.I.deref(c.st, r)
    out = []
    for st, p in opt_split(c.I, c.st, mapget(m, k)):
        if p is None:
            out.append((st, NONE))
        else:
            out.append((st, some(mk('ref', r[1], mk(*(list(r[2]) + [mk('m', k)]))))))
    return out


@model('BTreeMap::entry', 'HashMap::entry')
def m_map_entry(c):
    return [(c.st, app('entry', c.args[0], c.I.deep(c.st, c.args[1])))]


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def m_entry_or(c):
    e = c.args[0]
    if e[0] != 'app' or e[1] != 'entry' or e[2][0][0] != 'ref':
        return None
    r, k = e[2]
    how = c.name.split('::')[-1]
    out = []
    for st, p in opt_split(c.I, c.st, mapget(c.I.deref(c.st, r), k)):
        here = mk('ref', r[1], mk(*(list(r[2]) + [mk('m', k)])))
        if p is not None:
            out.append((st, here))
            continue
        if how == 'or_default':
            t = c.targs[1] if len(c.targs) > 1 else None
            h = head(t).split('::')[-1] if t is not None else ''
            d = INT(0) if t is not None and t[0] == 'num' else None
            vs = [(st, d or {'String': STR(''), 'Vec': EMPTY, 'bool': FALSE, 'Option': NONE, 'BTreeMap': app('emptymap')}.get(h, app('default:' + h)))]
        elif how == 'or_insert':
            vs = [(st, c.args[1])]
        else:
            vs = callv(c, st, c.args[1], [k] if how.endswith('key') else [])
        for s2, v in vs:
            s2 = s2.copy()
            set_ref(c, s2, r, app('mapins', c.I.deref(s2, r), k, v))
            out.append((s2, here))
    return out


@model('BTreeMap::is_empty', 'HashMap::is_empty')
def m_map_empty(c):
    m = val(c, 0)
    if m[0] == 'app' and m[1] == 'emptymap':
        return [(c.st, TRUE)]
    if m[0] == 'app' and m[1] == 'mapins':
        return [(c.st, FALSE)]
    return [(c.st, eqi(app('len', app('entries', m)), INT(0)))]


@model('BTreeMap::len', 'HashMap::len')
def m_map_len(c):
    m = val(c, 0)
    return [(c.st, app('len', app('entries', m)))]


@model('BTreeMap::iter', 'HashMap::iter', 'BTreeMap::into_iter')
def m_map_iter(c):
    return [(c.st, mkiter([all_(app('entries', val(c, 0)))]))]


@model('BTreeMap::remove', 'HashMap::remove')
def m_map_remove(c):
    r = c.args[0]
    st = c.st.copy()
    m = c.I.deref(st, r)
    k = c.I.deep(st, c.args[1])
    g = mapget(m, k)
    c.I.note_enum(g, OPT)
    set_ref(c, st, r, app('mapdel', m, k))
    return [(st, g)]


# ---------------------------------------------------------------- Vec / slices
@model('Vec::new', 'Vec::with_capacity')
def m_vec_new(c):
    return [(c.st, EMPTY)]


@model('Vec::push', 'VecDeque::push_back')
def m_vec_push(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.I.deref(st, r)
    set_ref(c, st, r, seq(list(segs_of(v)) + [one(c.args[1])]))
    return [(st, UNIT)]


@model('Vec::pop')
def m_vec_pop(c):
    r = c.args[0]
    v = c.I.load(c.st, r[1], r[2])
    out = []
    n = length(v)
    for e, st in c.st.fork(eqi(n, INT(0))):
        st = st.copy()
        if e:
            out.append((st, NONE))
        else:
            x = last_elem(v)
            set_ref(c, st, r, slice_(v, INT(0), sub(n, INT(1))))
            out.append((st, some(x)))
    return out


def last_elem(v):
    return elem(v, sub(length(v), INT(1)))


@model('Vec::extend', 'Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'Vec::extend_one')
def m_extend(c):
    I = c.I
    r = c.args[0]
    out = []
    m = c.name.split('::')[-1]
    dst = I.deref(c.st, r)
    if m == 'append':
        st = c.st.copy()
        o = c.args[1]
        w = I.deref(st, o)
        set_ref(c, st, r, seq(list(segs_of(dst)) + list(segs_of(w))))
        set_ref(c, st, o, EMPTY)
        return [(st, UNIT)]
    for st, segs in iter_of(c, c.st, c.args[1]):
        st = st.copy()
        cur = I.deref(st, r)
        if collection(c) not in (None, 'Vec', 'String', 'VecDeque'):
            set_ref(c, st, r, app('extended', cur, seq(segs)))
            out.append((st, UNIT))
            continue
        if is_text(c, cur):
            t = collect_text(c, st, segs)
            if t is None:
                return NotImplemented
            set_ref(c, st, r, concat(cur, t))
            out.append((st, UNIT))
            continue
        set_ref(c, st, r, seq(list(segs_of(cur)) + [deep_seg(I, st, s) for s in segs]))
        out.append((st, UNIT))
    return out


def collection(c):
    t = c.targs[0] if c.name.startswith('Extend') and c.targs else None
    while t is not None and t[0] == 'ref':
        t = t[2]
    return None if t is None else head(t).split('::')[-1]


def deep_seg(I, st, s):
    if s[0] == 'one':
        return one(s[1])
    return s


def is_text(c, v):
    if v[0] in ('str', 'txt'):
        return True
    t = c.targs[0] if c.targs else None
    return t is not None and head(t).split('::')[-1] == 'String'


@model('Vec::insert')
def m_vec_insert(c):
    I = c.I
    r = c.args[0]
    out = []
    v = I.load(c.st, r[1], r[2])
    i = val(c, 1)
    n = length(v)
    for okk, st in c.st.fork(le(i, n)):
        if not okk:
            I.panic(st, 'insert index', c.b, [i, n])
            continue
        st = st.copy()
        if v[0] == 'seq' and i[0] == 'int' and all(s[0] == 'one' for s in v[1][:i[1]]):
            sg = list(v[1])
            sg.insert(i[1], one(c.args[2]))
            nv = seq(sg)
        else:
            nv = seq([all_(slice_(v, INT(0), i)), one(c.args[2]), all_(slice_(v, i, n))])
        set_ref(c, st, r, nv)
        out.append((st, UNIT))
    return out


@model('Vec::remove', 'Vec::swap_remove')
def m_vec_remove(c):
    I = c.I
    r = c.args[0]
    out = []
    v = I.load(c.st, r[1], r[2])
    i = val(c, 1)
    n = length(v)
    for okk, st in c.st.fork(lt(i, n)):
        if not okk:
            I.panic(st, 'remove index', c.b, [i, n])
            continue
        st = st.copy()
        x = elem(v, i)
        if c.name.endswith('swap_remove'):
            # the last item takes the place of the removed one
            for last, s2 in st.fork(eqi(sub(n, add(i, INT(1))), INT(0))):
                s2 = s2.copy()
                nv = slice_(v, INT(0), i) if last else seq([all_(slice_(v, INT(0), i)), one(elem(v, sub(n, INT(1)))), all_(slice_(v, add(i, INT(1)), sub(n, INT(1))))])
                set_ref(c, s2, r, nv)
                out.append((s2, x))
            continue
        elif v[0] == 'seq' and i[0] == 'int' and all(s[0] == 'one' for s in v[1][:i[1] + 1]):
            sg = list(v[1])
            del sg[i[1]]
            nv = seq(sg)
        else:
            nv = seq([all_(slice_(v, INT(0), i)), all_(slice_(v, add(i, INT(1)), n))])
        set_ref(c, st, r, nv)
        out.append((st, x))
    return out


@model('Vec::truncate')
def m_vec_truncate(c):
    I = c.I
    r = c.args[0]
    v = I.load(c.st, r[1], r[2])
    k = val(c, 1)
    out = []
    for a, st in c.st.fork(lt(k, length(v))):
        st = st.copy()
        if a:
            set_ref(c, st, r, slice_(v, INT(0), k))
        out.append((st, UNIT))
    return out


@model('Vec::split_off')
def m_vec_split_off(c):
    I = c.I
    r = c.args[0]
    v = I.load(c.st, r[1], r[2])
    k = val(c, 1)
    out = []
    for a, st in c.st.fork(le(k, length(v))):
        if not a:
            I.panic(st, 'split_off', c.b, [k])
            continue
        st = st.copy()
        set_ref(c, st, r, slice_(v, INT(0), k))
        out.append((st, slice_(v, k, length(v))))
    return out


@model('Vec::drain')
def m_vec_drain(c):
    I = c.I
    r = c.args[0]
    st = c.st.copy()
    v = I.load(st, r[1], r[2])
    g = val(c, 1)
    out = []
    for s, lo, hi in range_bounds(c, st, g, length(v)):
        s = s.copy()
        set_ref(c, s, r, seq([all_(slice_(v, INT(0), lo)), all_(slice_(v, hi, length(v)))]))
        out.append((s, mkiter(segs_of(slice_(v, lo, hi)))))
    return out


@model('String::replace_range')
def m_str_replace_range(c):
    r = c.args[0]
    v, g, w = c.I.load(c.st, r[1], r[2]), val(c, 1), val(c, 2)
    out = []
    for s, lo, hi in range_bounds(c, c.st.copy(), g, length(v)):
        for s1 in [s] if lo is INT(0) else at_boundary(c, s, v, lo):
            for s2 in [s1] if hi is length(v) else at_boundary(c, s1, v, hi):
                s2 = s2.copy()
                set_ref(c, s2, r, concat(concat(strslice(v, INT(0), lo), w), strslice(v, hi, length(v))))
                out.append((s2, UNIT))
    return out


def range_bounds(c, st, g, n):
    """[(st, lo, hi)] for a range value applied to a collection of length n; bounds violations panic"""
    nm = g[1].split('::')[-1] if g[0] == 'adt' else ''
    if nm == 'RangeFull':
        return [(st, INT(0), n)]
    if nm == 'Range':
        lo, hi = g[3]
    elif nm == 'RangeFrom':
        lo, hi = g[3][0], n
    elif nm == 'RangeTo':
        lo, hi = INT(0), g[3][0]
    elif nm == 'RangeInclusive' or (g[0] == 'app' and g[1] == 'rangeincl'):
        a = g[3] if g[0] == 'adt' else g[2]
        lo, hi = a[0], add(a[1], INT(1))
    elif nm == 'RangeToInclusive':
        lo, hi = INT(0), add(g[3][0], INT(1))
    else:
        return [(st, app('rlo', g), app('rhi', g))]
    out = []
    for a, s in st.fork(le(lo, hi)):
        if not a:
            c.I.panic(s, 'slice index', c.b, [lo, hi])
            continue
        for b, s2 in s.fork(le(hi, n)):
            if not b:
                c.I.panic(s2, 'slice index', c.b, [hi, n])
                continue
            out.append((s2, lo, hi))
    return out


@model('fn::new_inclusive', 'RangeInclusive::new')
def m_range_incl(c):
    return [(c.st, app('rangeincl', val(c, 0), val(c, 1)))]


@model('Vec::retain', 'Vec::retain_mut')
def m_retain(c):
    I = c.I
    r = c.args[0]
    st = c.st.copy()
    v = I.load(st, r[1], r[2])
    cell = I.newcell(st, EMPTY)

    def body(s, x):
        res = []
        for s2, b in callv(c, s, c.args[1], [x]):
            for t, s3 in bool_paths(c, s2, b):
                s3 = s3.copy()
                if t:
                    push(I, s3, cell, x)
                res.append((s3, None))
        return res
    out = []
    for s, stop in foreach(c, st, segs_of(v), body):
        s = s.copy()
        set_ref(c, s, r, s.cells.pop(cell))
        out.append((s, UNIT))
    return out


@model('Vec::dedup', 'Vec::dedup_by_key', 'Vec::dedup_by')
def m_dedup(c):
    """an element stays unless it equals the one before it (equality carries over, so the last one kept is as good)"""
    I = c.I
    r = c.args[0]
    st = c.st.copy()
    v = I.load(st, r[1], r[2])
    m = c.name.split('::')[-1]
    k = mk('bv', max(fv(v), default=-1) + 1)
    a, b = elem(v, k), elem(v, sub(k, INT(1)))
    if m == 'dedup':
        same = eqt(b, a)
    else:
        rs = callv(c, st, c.args[1], [a] if m == 'dedup_by_key' else [a, b])
        if len(rs) != 1:
            return NotImplemented
        st2, x = rs[0]
        x = I.deep(st2, x)
        if m == 'dedup_by_key':
            same = eqt(Subst({k: sub(k, INT(1))})(x), x)
        elif x[0] == 'app' and x[1] == 'eq' and any(Subst({k: sub(k, INT(1))})(x[2][i]) is x[2][1 - i] for i in (0, 1)):
            same = x
        else:
            return NotImplemented
    keep = (one(a),)
    pos = mk('ge', k, 1)
    vs = [mk(mk(mk('eq', k, 0)), keep), mk(mk(pos, mk('b', same, False)), keep), mk(mk(pos, mk('b', same, True)), ())]
    set_ref(c, st, r, seq([rebuild_binder('each', length(v), k, [mk(*vs)], None)]))
    return [(st, UNIT)]


@model('slice::reverse')
def m_reverse(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.I.load(st, r[1], r[2])
    set_ref(c, st, r, seq(rev_segs(segs_of(v))))
    return [(st, UNIT)]


@model('slice::sort', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::swap')
def m_sort(c):
    r = c.args[0]
    st = c.st.copy()
    v = c.I.load(st, r[1], r[2])
    set_ref(c, st, r, app(c.name.split('::')[-1], v, *[a if a[0] not in ('clo', 'ref') else UNIT for a in c.args[1:]]))
    return [(st, UNIT)]


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def m_first(c):
    I = c.I
    a = c.args[0]
    v = I.deref(c.st, a)
    n = length(v)
    out = []
    for e, st in c.st.fork(eqi(n, INT(0))):
        if e:
            out.append((st, NONE))
            continue
        i = INT(0) if 'first' in c.name else sub(n, INT(1))
        if c.name.endswith('_mut'):
            out.append((st, some(mk('ref', a[1], mk(*(list(a[2]) + [mk('e', i)]))))))
        else:
            out.append((st, some(elem(v, i))))
    return out


@model('slice::split_first', 'slice::split_last')
def m_split_first(c):
    v = val(c, 0)
    n = length(v)
    out = []
    for e, st in c.st.fork(eqi(n, INT(0))):
        if e:
            out.append((st, NONE))
        elif 'first' in c.name:
            out.append((st, some(tup(elem(v, INT(0)), slice_(v, INT(1), n)))))
        else:
            out.append((st, some(tup(last_elem(v), slice_(v, INT(0), sub(n, INT(1)))))))
    return out


@model('slice::split_at')
def m_split_at(c):
    v = val(c, 0)
    i = val(c, 1)
    out = []
    for e, st in c.st.fork(le(i, length(v))):
        if not e:
            c.I.panic(st, 'split_at', c.b, [i])
            continue
        out.append((st, tup(slice_(v, INT(0), i), slice_(v, i, length(v)))))
    return out


@model('slice::get', 'slice::get_mut', 'Vec::get', 'str::get')
def m_get(c):
    I = c.I
    a = c.args[0]
    v = I.deref(c.st, a)
    i = val(c, 1)
    n = length(v)
    out = []
    if i[0] == 'adt' and 'Range' in i[1] or c.name == 'str::get':
        r = app('get', v, i)
        I.note_enum(r, OPT)
        if i[0] == 'adt' and i[1].endswith('RangeFrom') and c.name == 'slice::get':
            for t, st in c.st.fork(le(i[3][0], n)):
                out.append((st, some(slice_(v, i[3][0], n)) if t else NONE))
            return out
        return [(c.st, r)]
    for okk, st in c.st.fork(lt(i, n)):
        if not okk:
            out.append((st, NONE))
        elif c.name.endswith('_mut'):
            out.append((st, some(mk('ref', a[1], mk(*(list(a[2]) + [mk('e', i)]))))))
        else:
            out.append((st, some(elem(v, i))))
    return out


@model('Index::index', 'IndexMut::index_mut')
def m_index(c):
    I = c.I
    a = c.args[0]
    v = I.deref(c.st, a)
    i = val(c, 1)
    out = []
    t = c.targs[0] if c.targs else None
    h = head(t).split('::')[-1] if t is not None else ''
    if h in ('str', 'String'):
        # string slice
        n = length(v)
        nm = i[1].split('::')[-1] if i[0] == 'adt' else ''
        if nm == 'RangeFull':
            return [(c.st, v)]
        for s, lo, hi in range_bounds(c, c.st, i, n):
            r = strslice(v, lo, hi)
            for s1 in at_boundary(c, s, v, lo):
                for s2 in at_boundary(c, s1, v, hi):
                    out.append((s2, r))
        return out
    if h in ('BTreeMap', 'HashMap'):
        for st, p in opt_split(I, c.st, mapget(v, i)):
            if p is None:
                I.panic(st, 'map index', c.b, [i])
            else:
                out.append((st, p))
        return out
    if i[0] == 'adt' and 'Range' in i[1] or (i[0] == 'app' and i[1] == 'rangeincl'):
        for s, lo, hi in range_bounds(c, c.st, i, length(v)):
            if c.name.endswith('_mut'):
                cell = mk('ref', a[1], mk(*(list(a[2]) + [mk('sl', lo, hi)])))
                out.append((s, cell))
            else:
                out.append((s, slice_(v, lo, hi)))
        return out
    for okk, st in c.st.fork(lt(i, length(v))):
        if not okk:
            I.panic(st, 'index', c.b, [i, length(v)])
        elif c.name.endswith('_mut') and a[0] == 'ref':
            out.append((st, mk('ref', a[1], mk(*(list(a[2]) + [mk('e', i)])))))
        else:
            out.append((st, elem(v, i)))
    return out


def strslice(v, lo, hi):
    if hi is length(v):
        return app('strfrom', v, lo)
    return app('strslice', v, lo, hi)


@model('slice::contains', 'Vec::contains')
def m_slice_contains(c):
    x = c.I.deep(c.st, c.args[1])
    v = val(c, 0)
    if v[0] == 'seq' and all(s[0] == 'one' for s in v[1]):
        return [(c.st, or_(*[c.I.make_eq(c.st, c.I.deref(c.st, s[1]), x) for s in v[1]]))]
    I = c.I

    def body(s, e):
        res = []
        for t, s2 in s.fork(I.make_eq(s, I.deref(s, e), x)):
            res.append((s2, TRUE if t else None))
        return res
    return [(s, TRUE if stop is not None else FALSE) for s, stop in foreach(c, c.st, segs_of(v), body)]


@model('slice::join', 'slice::concat', 'Join::join', 'Concat::concat')
def m_join(c):
    v = val(c, 0)
    t = c.targs[0] if c.targs and isinstance(c.targs[0], T) else None
    while t is not None and t[0] in ('ref', 'slice', 'array'):
        t = next((x for x in t[1:] if isinstance(x, T)), None)
    h = None if t is None else head(t).split('::')[-1]
    if h in ('Vec', 'Box') or t is not None and t[0] in ('num', 'tuple'):
        if c.name.endswith('join'):
            return NotImplemented
        out = []
        for s, segs in iter_of(c, c.st, v):
            out.extend((s2, seq(sg)) for s2, sg, _ in map_segs(c, s, segs, lambda s3, x, cell: flat(c, s3, x, cell)))
        return out
    sep = c.I.deref(c.st, c.args[1]) if len(c.args) > 1 else STR('')
    return [(c.st, join_term(c, v, sep))]


def flat(c, st, x, cell):
    out = []
    for s, segs in iter_of(c, st, c.I.deref(st, x)):
        s = s.copy()
        push_segs(c.I, s, cell, segs)
        out.append((s, None))
    return out


def join_term(c, v, sep):
    if v[0] == 'seq' and all(s[0] == 'one' for s in v[1]):
        ps = []
        for i, s in enumerate(v[1]):
            if i:
                ps.append(sep)
            ps.append(c.I.deref(c.st, s[1]))
        return concat(*ps)
    if sep is STR(''):
        t = collect_text(c, c.st, segs_of(v))
        if t is not None:
            return t
    return app('join', v, sep)


# ---------------------------------------------------------------- iterators
def mkiter(segs):
    return mk('iter', mk(*segs), INT(0), INT(0))


def iter_segs(it):
    """remaining contents of an iterator as segments"""
    if it[0] != 'iter':
        return [all_(it)]
    segs, lo, back = it[1], it[2], it[3]
    if lo is INT(0) and back is INT(0):
        return list(segs)
    if not segs:
        return []
    if len(segs) == 1:
        col = seq(segs)
        return list(segs_of(slice_(col, lo, sub(length(col), back))))
    first = seq([segs[0]])
    last = seq([segs[-1]])
    out = list(segs_of(slice_(first, lo, length(first)))) if lo is not INT(0) else [segs[0]]
    out += list(segs[1:-1])
    out += list(segs_of(slice_(last, INT(0), sub(length(last), back)))) if back is not INT(0) else [segs[-1]]
    return out


def iter_of(c, st, v):
    """[(st, segs)] of anything iterable"""
    I = c.I
    if v[0] == 'ref':
        w = I.load(st, v[1], v[2])
        if w[0] == 'ref':
            return iter_of(c, st, w)
        if w[0] == 'iter':
            # by_ref: consumes
            return [(st, iter_segs(w))]
        if w[0] in ('seq', 'slice', 'updi') or not (w[0] == 'adt'):
            return [(st, refs_segs(v, w))]
        v = w
    if v[0] == 'iter':
        return [(st, iter_segs(v))]
    if v[0] == 'adt' and v[1].endswith('ops::Range'):
        lo, hi = v[3]
        out = []
        for t, s in st.fork(le(lo, hi)):
            out.append((s, [all_(app('range', lo, hi))] if t else []))
        return out
    if v[0] == 'app' and v[1] == 'rangeincl':
        lo, hi = v[2][0], add(v[2][1], INT(1))
        return [(s, [all_(app('range', lo, hi))] if t else []) for t, s in st.fork(le(lo, hi))]
    if v[0] == 'adt' and v[1] == OPT:
        return [(st, [one(v[3][0])] if v[2] == 1 else [])]
    if v[0] == 'adt' and v[1] == RES:
        return [(st, [one(v[3][0])] if v[2] == 0 else [])]
    if I.dpath.get(v) == OPT:
        return [(s, [] if p is None else [one(p)]) for s, p in opt_split(I, st, v)]
    if I.dpath.get(v) == RES:
        return [(s, [one(p)] if k == 0 else []) for s, k, p in res_split(I, st, v)]
    return [(st, list(segs_of(v)))]


def refs_segs(a, coll):
    """segments of references to the elements of the collection stored at place a"""
    if coll[0] == 'seq' and all(s[0] == 'one' for s in coll[1]):
        return [one(mk('ref', a[1], mk(*(list(a[2]) + [mk('e', INT(i))])))) for i in range(len(coll[1]))]
    lv = max(fv(a) | fv(coll), default=-1) + 1
    b = mk('bv', lv)
    r = mk('ref', a[1], mk(*(list(a[2]) + [mk('e', b)])))
    return [mk('each', length(coll), b, mk(*[mk((), (one(r),))]))]


def rev_segs(segs):
    out = []
    for s in reversed(list(segs)):
        if s[0] == 'all':
            c = s[1]
            if c[0] == 'app' and c[1] == 'rev':
                out.append(all_(c[2][0]))
            else:
                out.append(all_(app('rev', c)))
        elif s[0] == 'each':
            n, var = s[1], s[2]
            sb = Subst({var: sub(sub(n, INT(1)), var)})
            vs = []
            for fs, sg in s[3]:
                vs.append(mk(mk(*[sb(f) for f in fs]), mk(*rev_segs([sb(x) for x in sg]))))
            out.append(rebuild_binder('each', n, var, [mk(*vs)], None))
        else:
            out.append(s)
    return out


def push(I, st, cell, x):
    st.cells[cell] = seq(list(segs_of(st.cells[cell])) + [one(x)])


def push_segs(I, st, cell, segs):
    st.cells[cell] = seq(list(segs_of(st.cells[cell])) + list(segs))


def foreach(c, st, segs, body, label=None):
    """body(st, value) -> [(st, None | stop payload)]; returns [(st, None | payload)]"""
    I = c.I
    out = []
    sts = [st]
    lab = label or (c.name + (' in ' + I.pstack[-1][0].path if I.pstack else ''))
    for sg in segs:
        nxt = []
        for s0 in sts:
            for s, stop in foreach_seg(c, s0, sg, body, lab):
                if stop is None:
                    nxt.append(s)
                else:
                    out.append((s, stop))
        sts = I.dedupe_states(nxt)
    return out + [(s, None) for s in sts]


def foreach_seg(c, st, sg, body, lab):
    I = c.I
    if sg[0] == 'one':
        return body(st, sg[1])
    n = length(sg[1]) if sg[0] == 'all' else sg[1]
    if n[0] == 'int' and 0 <= n[1] <= 3 and sg[0] == 'all':
        sts = [(st, None)]
        out = []
        cur = [st]
        for i in range(n[1]):
            nx = []
            for s in cur:
                for s2, stop in body(s, elem(sg[1], INT(i))):
                    if stop is None:
                        nx.append(s2)
                    else:
                        out.append((s2, stop))
            cur = nx
        return out + [(s, None) for s in cur]
    I.tmp += 1
    stopcell = mk('tmp', I.tmp)
    s0 = st.copy()
    s0.cells[stopcell] = UNIT

    def step(s, k):
        ev = []
        if sg[0] == 'all':
            groups = [(s, [one(elem(sg[1], k))])]
        else:
            sb = Subst({sg[2]: k}) if sg[2] is not k else (lambda x: x)
            groups = []
            for fs, inner in sg[3]:
                q = s.add_facts([sb(f) for f in fs])
                if q is not None:
                    groups.append((q, [sb(x) for x in inner]))
        for g, inner in groups:
            if len(inner) == 1 and inner[0][0] == 'one':
                rs = body(g, inner[0][1])
            else:
                rs = foreach(c, g, inner, body, lab)
            for s2, stop in rs:
                if stop is None:
                    ev.append(('back', s2))
                else:
                    s2 = s2.copy()
                    s2.cells[stopcell] = stop
                    ev.append(('exit', 0, s2))
        return ev
    res = I.summarise(s0, step, n, lab)
    out = []
    for e in res:
        s = e[2] if e[0] == 'exit' else e[1]
        p = s.cells.pop(stopcell, UNIT)
        out.append((s, p if e[0] == 'exit' else None))
    return out


@model('IntoIterator::into_iter', 'slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut', 'Vec::into_iter')
def m_into_iter(c):
    I = c.I
    a = c.args[0]
    v = I.deref(c.st, a)
    if v[0] == 'iter':
        return [(c.st, v if a[0] != 'ref' else a)]
    if v[0] in ('map', ) or (v[0] == 'app' and v[1] in ('mapins', 'emptymap')):
        return [(c.st, mkiter([all_(app('entries', v))]))]
    t = c.targs[0] if c.targs else None
    if t is not None and c.name.startswith('IntoIterator'):
        tt = t
        while tt[0] == 'ref':
            tt = tt[2]
        h = head(tt).split('::')[-1]
        if h in ('BTreeMap', 'HashMap'):
            return [(c.st, mkiter([all_(app('entries', v))]))]
        if h in ('Option', 'Result'):
            I.note_enum(v, OPT if h == 'Option' else RES)
        if h not in ('Vec', 'slice', 'array', 'Range', 'RangeInclusive', 'Option', 'Result', 'Iter', 'IterMut', 'IntoIter') and v[0] not in ('seq', 'slice'):
            if v[0] == 'adt' and not (v[1].endswith('ops::Range')):
                return [(c.st, a)]
    if v[0] == 'adt' and v[1].endswith('ops::Range'):
        return [(s, mkiter(sg)) for s, sg in iter_of(c, c.st, v)]
    if a[0] == 'ref' and (c.name.endswith('iter_mut') or c.name.startswith('IntoIterator')):
        return [(c.st, mkiter(refs_segs(a, v)))]
    return [(s, mkiter(sg)) for s, sg in iter_of(c, c.st, v)]


def write_iter(c, st, r, it):
    st = st.copy()
    c.I.store(st, r[1], r[2], it)
    return st


@model('Iterator::next', 'Nodes::next')
def m_next(c):
    from .interp import SKIP, PHASE
    I = c.I
    r = c.args[0]
    it = I.deref(c.st, r)
    while r[0] == 'ref':
        w = I.load(c.st, r[1], r[2])
        if w[0] == 'ref':
            r = w
        else:
            break
    if it[0] == 'adt' and it[1].endswith('ops::Range'):
        lo, hi = it[3]
        out = []
        for t, st in c.st.fork(lt(lo, hi)):
            if t:
                out.append((write_iter(c, st, r, mk('adt', it[1], 0, (add(lo, INT(1)), hi))), some(lo)))
            else:
                out.append((st, NONE))
        return out
    if it[0] != 'iter' or r[0] != 'ref':
        return NotImplemented
    segs, lo, back = it[1], it[2], it[3]
    if not segs:
        return [(c.st, NONE)]
    sg = segs[0]
    rest = mk(*segs[1:])
    single = len(segs) == 1
    if sg[0] == 'one':
        if single and back is not INT(0):
            return [(c.st, NONE)]
        return [(write_iter(c, c.st, r, mk('iter', rest, INT(0), back)), some(sg[1]))]
    n = length(sg[1]) if sg[0] == 'all' else sg[1]
    lim = sub(n, back) if single else n
    out = []
    hdr = c.fr is not None and c.fr.loopctx is not None and c.bb is not None and I.header_adjacent(c.fr.body, c.fr.loopctx[0], c.bb)
    for t, st in c.st.fork(lt(lo, lim)):
        if not t:
            if single:
                out.append((st, NONE))
            else:
                s = write_iter(c, st, r, mk('iter', rest, INT(0), back))
                if hdr:
                    out.append((s, PHASE))
                else:
                    c2 = clone_ctx(c, s)
                    out.extend(m_next(c2))
            continue
        nit = mk('iter', segs, add(lo, INT(1)), back)
        if sg[0] == 'all':
            out.append((write_iter(c, st, r, nit), some(elem(sg[1], lo))))
            continue
        sb = Subst({sg[2]: lo})
        simple = all(len(x[1]) == 1 and x[1][0][0] == 'one' for x in sg[3])
        skip = all(len(x[1]) <= 1 and all(y[0] == 'one' for y in x[1]) for x in sg[3])
        if simple or (skip and hdr):
            for fs, inner in sg[3]:
                q = st.add_facts([sb(f) for f in fs])
                if q is None:
                    continue
                q = write_iter(c, q, r, nit)
                if inner:
                    out.append((q, some(sb(inner[0][1]))))
                else:
                    out.append((q, SKIP))
            continue
        if skip and lo is INT(0) and back is INT(0):
            # first contributing element
            v = nth_value(sg, INT(0))
            cnt = seg_len(sg)
            for t2, s2 in st.fork(lt(INT(0), cnt)):
                if t2:
                    out.append((write_iter(c, s2, r, mk('iter', mk(*([all_(app('tail', seq((sg,)), INT(1)))] + list(rest))), INT(0), INT(0))), some(v)))
                else:
                    s3 = write_iter(c, s2, r, mk('iter', rest, INT(0), back))
                    out.extend(m_next(clone_ctx(c, s3)) if not single else [(s3, NONE)])
            continue
        v = elem(seq((sg,)), lo)
        cnt = seg_len(sg)
        out.append((write_iter(c, st, r, nit), some(v)))
    return out


def iter_place(c, st, r):
    while r[0] == 'ref':
        w = c.I.load(st, r[1], r[2])
        if w[0] != 'ref':
            return r
        r = w
    return None


@model('Peekable::peek', 'Peekable::next_if', 'Peekable::next_if_eq')
def m_peek(c):
    from .interp import SKIP, PHASE
    r = iter_place(c, c.st, c.args[0])
    if r is None:
        return NotImplemented
    it = c.I.load(c.st, r[1], r[2])
    ahead = m_next(c)
    if ahead is NotImplemented or any(v in (SKIP, PHASE) for _, v in ahead):
        return NotImplemented
    out = []
    for st, v in ahead:
        if c.name.endswith('::peek') or v is NONE:
            out.append((write_iter(c, st, r, it), v))
            continue
        x = v[3][0]
        if c.name.endswith('next_if'):
            asked = callv(c, st, c.args[1], [x])
        else:
            asked = [(st, c.I.make_eq(st, x, c.I.deep(st, c.args[1])))]
        for s, b in asked:
            for t, s2 in s.fork(b):
                out.append((s2, v) if t else (write_iter(c, s2, r, it), NONE))
    return out


def nth_value(sg, i):
    """value of the i-th contributing element of an each segment with 0/1 contributions"""
    n, var, variants = sg[1], sg[2], sg[3]
    ix = mk_nth(n, var, variants, i)
    vals = [x[1][0][1] for x in variants if x[1]]
    if len(set(vals)) == 1:
        return Subst({var: ix})(vals[0])
    return elem(seq((sg,)), i)


def clone_ctx(c, st):
    d = Ctx()
    for a in Ctx.__slots__:
        setattr(d, a, getattr(c, a))
    d.st = st
    return d


@model('DoubleEndedIterator::next_back')
def m_next_back(c):
    I = c.I
    r = c.args[0]
    it = I.deref(c.st, r)
    while r[0] == 'ref' and I.load(c.st, r[1], r[2])[0] == 'ref':
        r = I.load(c.st, r[1], r[2])
    if it[0] != 'iter':
        return NotImplemented
    segs, lo, back = it[1], it[2], it[3]
    if not segs:
        return [(c.st, NONE)]
    sg = segs[-1]
    single = len(segs) == 1
    if sg[0] == 'one':
        if back is INT(0):
            return [(write_iter(c, c.st, r, mk('iter', mk(*segs[:-1]), lo if not single else INT(0), INT(0))), some(sg[1]))]
        return NotImplemented
    n = length(sg[1]) if sg[0] == 'all' else sg[1]
    out = []
    for t, st in c.st.fork(lt(add(lo, back) if single else back, n)):
        if not t:
            if single:
                out.append((st, NONE))
            else:
                return NotImplemented
            continue
        v = elem(seq((sg,)), sub(sub(n, INT(1)), back))
        out.append((write_iter(c, st, r, mk('iter', segs, lo, add(back, INT(1)))), some(v)))
    return out


def map_segs(c, st, segs, body):
    """body(st, value, emit) appends through push; returns [(st, segs)]"""
    I = c.I
    st = st.copy()
    cell = I.newcell(st, EMPTY)
    out = []
    for s, stop in foreach(c, st, segs, lambda s, x: body(s, x, cell)):
        s = s.copy()
        v = s.cells.pop(cell)
        out.append((s, list(segs_of(v)), stop))
    return out


def simple_iter(fn):
    """wrapper: iterator argument 0 resolved to segments"""
    def g(c):
        out = []
        if fn.__name__ != 'i_take' and endless(c, c.st, c.args[0]):
            return NotImplemented
        place = iter_place(c, c.st, c.args[0]) if c.args[0][0] == 'ref' else None
        if place is not None and c.I.load(c.st, place[1], place[2])[0] != 'iter':
            place = None
        for st, segs in iter_of(c, c.st, c.args[0]):
            for st, left in [(st, None)] if place is None else used_up(c, st, segs):
                if left is not None:
                    st = st.copy()
                    c.I.store(st, place[1], place[2], left)
                r = fn(c, st, segs)
                if r is NotImplemented:
                    return r
                out.extend(r)
        return out
    return g


ALL = ('for_each', 'inspect', 'map', 'filter', 'filter_map', 'flat_map', 'flatten', 'skip_while', 'skip', 'fold', 'count', 'sum', 'last', 'max', 'min',
       'max_by_key', 'min_by_key', 'partition', 'unzip', 'collect', 'rev', 'cloned', 'copied', 'fuse', 'enumerate', 'chain', 'reduce', 'eq', 'ne',
       'rfold', 'product', 'peekable')


def used_up(c, st, segs):
    """what an iterator used through a reference has left (adaptors are taken as consumed where they are made)"""
    m = c.name.split('::')[-1]
    if m in ALL:
        return [(st, mkiter([]))]
    col = seq(segs)
    if m in ('take', 'nth'):
        n = c.I.deref(st, c.args[1])
        n = n if m == 'take' else add(n, INT(1))
        return [(s, mkiter(segs_of(slice_(col, n, length(col)))) if t else mkiter([])) for t, s in st.fork(le(n, length(col)))]
    c.I.notes.add('iterator partly used by reference: ' + m)
    return [(st, mkiter([all_(app('left:' + m, col, *[a for a in c.args[1:] if a[0] not in ('clo', 'ref')]))]))]


def endless(c, st, v):
    """k -> the k-th item, for an iterator that never ends; None for any other"""
    v = c.I.deref(st, v) if v[0] == 'ref' else v
    if v[0] == 'repeatit':
        return lambda k: v[1]
    if v[0] == 'adt' and v[1].endswith('ops::RangeFrom'):
        return lambda k: add(v[3][0], k)
    return None


def it_model(*names):
    def d(f):
        g = simple_iter(f)
        for n in names:
            M['Iterator::' + n] = g
            M['DoubleEndedIterator::' + n] = g
        return f
    return d


@it_model('map')
def i_map(c, st, segs):
    f = c.args[1]

    def body(s, x, cell):
        res = []
        for s2, v in callv(c, s, f, [x]):
            s2 = s2.copy()
            push(c.I, s2, cell, v)
            res.append((s2, None))
        return res
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


@it_model('inspect', 'for_each')
def i_for_each(c, st, segs):
    f = c.args[1]

    def body(s, x):
        return [(s2, None) for s2, v in callv(c, s, f, [x])]
    out = []
    for s, stop in foreach(c, st, segs, body):
        out.append((s, UNIT if c.name.endswith('for_each') else mkiter(segs)))
    return out


@it_model('filter')
def i_filter(c, st, segs):
    f = c.args[1]

    def body(s, x, cell):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for t, s3 in bool_paths(c, s2, v):
                s3 = s3.copy()
                if t:
                    push(c.I, s3, cell, x)
                res.append((s3, None))
        return res
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


@it_model('filter_map')
def i_filter_map(c, st, segs):
    f = c.args[1]

    def body(s, x, cell):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for s3, p in opt_split(c.I, s2, v):
                s3 = s3.copy()
                if p is not None:
                    push(c.I, s3, cell, p)
                res.append((s3, None))
        return res
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


@it_model('flat_map')
def i_flat_map(c, st, segs):
    f = c.args[1]

    def body(s, x, cell):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for s3, sg in iter_of(c, s2, v):
                s3 = s3.copy()
                push_segs(c.I, s3, cell, sg)
                res.append((s3, None))
        return res
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


@it_model('flatten')
def i_flatten(c, st, segs):
    def body(s, x, cell):
        res = []
        for s3, sg in iter_of(c, s, x):
            s3 = s3.copy()
            push_segs(c.I, s3, cell, sg)
            res.append((s3, None))
        return res
    # elements may be Options of unknown shape: look at the Item type
    t = c.targs[0] if c.targs else None
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


@it_model('take_while', 'map_while')
def i_take_while(c, st, segs):
    f = c.args[1]
    mw = c.name.endswith('map_while')

    def body(s, x, cell):
        res = []
        for s2, v in callv(c, s, f, [x]):
            if mw:
                for s3, p in opt_split(c.I, s2, v):
                    s3 = s3.copy()
                    if p is not None:
                        push(c.I, s3, cell, p)
                    res.append((s3, None if p is not None else UNIT))
                continue
            for t, s3 in bool_paths(c, s2, v):
                s3 = s3.copy()
                if t:
                    push(c.I, s3, cell, x)
                res.append((s3, None if t else UNIT))
        return res
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


@it_model('skip_while')
def i_skip_while(c, st, segs):
    f = c.args[1]
    st = st.copy()
    cell = c.I.newcell(st, INT(0))

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for t, s3 in bool_paths(c, s2, v):
                s3 = s3.copy()
                if not t:
                    res.append((s3, some(s3.cells[cell])))
                else:
                    s3.cells[cell] = add(s3.cells[cell], INT(1))
                    res.append((s3, None))
        return res
    out = []
    col = seq(list(segs))
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        s.cells.pop(cell, None)
        out.append((s, mkiter([]) if stop is None else mkiter(segs_of(slice_(col, stop[3][0], length(col))))))
    return out


@it_model('skip')
def i_skip(c, st, segs):
    n = c.I.deref(st, c.args[1])
    col = seq(segs)
    out = []
    for t, s in st.fork(le(n, length(col))):
        out.append((s, mkiter(segs_of(slice_(col, n, length(col)))) if t else mkiter([])))
    return out


@it_model('take')
def i_take(c, st, segs):
    n = c.I.deref(st, c.args[1])
    f = endless(c, st, c.args[0])
    if f:
        lv = max(fv(n) | fv(c.args[0]), default=-1) + 1
        return [(st, mkiter([mk('each', n, mk('bv', lv), mk(*[mk((), (one(f(mk('bv', lv))),))]))]))]
    col = seq(segs)
    out = []
    for t, s in st.fork(le(n, length(col))):
        out.append((s, mkiter(segs_of(slice_(col, INT(0), n))) if t else mkiter(segs)))
    return out


@it_model('rev')
def i_rev(c, st, segs):
    return [(st, mkiter(rev_segs(segs)))]


@it_model('cloned', 'copied', 'fuse', 'peekable')
def i_same(c, st, segs):
    if any(sg[0] == 'each' for sg in segs):
        def body(s, x, cell):
            s = s.copy()
            push(c.I, s, cell, c.I.deep(s, x))
            return [(s, None)]
        return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]
    return [(st, mkiter([one(c.I.deep(st, s[1])) if s[0] == 'one' else s for s in segs]))]


@it_model('enumerate')
def i_enumerate(c, st, segs):
    out = []
    off = INT(0)
    for sg in segs:
        if sg[0] == 'one':
            out.append(one(tup(off, sg[1])))
        elif sg[0] == 'all':
            if off is INT(0):
                out.append(all_(app('enumerate', sg[1])))
            else:
                col = sg[1]
                lv = max(fv(col) | fv(off), default=-1) + 1
                b = mk('bv', lv)
                out.append(mk('each', length(col), b, mk(*[mk((), (one(tup(add(off, b), elem(col, b))),))])))
        else:
            if all(len(v[1]) == 1 and v[1][0][0] == 'one' for v in sg[3]):
                vs = [mk(v[0], (one(tup(add(off, sg[2]), v[1][0][1])),)) for v in sg[3]]
                out.append(rebuild_binder('each', sg[1], sg[2], [mk(*vs)], None))
            else:
                return [(st, mkiter([all_(app('enumerate', seq(segs)))]))]
        off = add(off, seg_len(sg))
    return [(st, mkiter(out))]


@it_model('zip')
def i_zip(c, st, segs):
    out = []
    f = endless(c, st, c.args[1])
    if f:
        a = seq(segs)
        lv = max(fv(a) | fv(c.args[1]), default=-1) + 1
        k = mk('bv', lv)
        return [(st, mkiter([mk('each', length(a), k, mk(*[mk((), (one(tup(elem(a, k), f(k))),))]))]))]
    for s, other in iter_of(c, st, c.args[1]):
        a, b = seq(segs), seq(other)
        if a[0] == 'seq' and b[0] == 'seq' and all(x[0] == 'one' for x in a[1] + b[1]):
            out.append((s, mkiter([one(tup(x[1], y[1])) for x, y in zip(a[1], b[1])])))
            continue
        for t, s2 in s.fork(le(length(a), length(b))):
            n = length(a) if t else length(b)
            lv = max(fv(a) | fv(b) | fv(n), default=-1) + 1
            k = mk('bv', lv)
            out.append((s2, mkiter([mk('each', n, k, mk(*[mk((), (one(tup(elem(a, k), elem(b, k))),))]))])))
    return out


@it_model('chain')
def i_chain(c, st, segs):
    return [(s, mkiter(list(segs) + list(o))) for s, o in iter_of(c, st, c.args[1])]


def any_over(c, st, segs, f, want=True):
    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for t, s3 in bool_paths(c, s2, v):
                res.append((s3, TRUE if t == want else None))
        return res
    return [(s, TRUE if (stop is not None) == want else FALSE) for s, stop in foreach(c, st, segs, body)]


@it_model('any')
def i_any(c, st, segs):
    return any_over(c, st, segs, c.args[1], True)


@it_model('all')
def i_all(c, st, segs):
    return any_over(c, st, segs, c.args[1], False)


@it_model('find')
def i_find(c, st, segs):
    f = c.args[1]

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for t, s3 in bool_paths(c, s2, v):
                res.append((s3, some(x) if t else None))
        return res
    return [(s, NONE if stop is None else stop) for s, stop in foreach(c, st, segs, body)]


@it_model('find_map')
def i_find_map(c, st, segs):
    f = c.args[1]

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for s3, p in opt_split(c.I, s2, v):
                res.append((s3, None if p is None else some(p)))
        return res
    return [(s, NONE if stop is None else stop) for s, stop in foreach(c, st, segs, body)]


@it_model('position')
def i_position(c, st, segs):
    f = c.args[1]
    st = st.copy()
    cell = c.I.newcell(st, INT(0))

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for t, s3 in bool_paths(c, s2, v):
                s3 = s3.copy()
                if t:
                    res.append((s3, some(s3.cells[cell])))
                else:
                    s3.cells[cell] = add(s3.cells[cell], INT(1))
                    res.append((s3, None))
        return res
    out = []
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        s.cells.pop(cell, None)
        out.append((s, NONE if stop is None else stop))
    return out


@it_model('rposition')
def i_rposition(c, st, segs):
    n = length(seq(list(segs)))
    out = []
    for s, r in i_position(c, st, rev_segs(segs)):
        out.append((s, some(sub(sub(n, INT(1)), r[3][0])) if r[0] == 'adt' and r[2] == 1 else r))
    return out


@it_model('rfind')
def i_rfind(c, st, segs):
    return i_find(c, st, rev_segs(segs))


@it_model('fold')
def i_fold(c, st, segs):
    st = st.copy()
    cell = c.I.newcell(st, c.args[1])
    f = c.args[2]

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [s.cells[cell], x]):
            s2 = s2.copy()
            s2.cells[cell] = v
            res.append((s2, None))
        return res
    out = []
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        out.append((s, s.cells.pop(cell)))
    return out


@it_model('try_for_each', 'try_fold')
def i_try(c, st, segs):
    st = st.copy()
    tf = c.name.endswith('try_fold')
    cell = c.I.newcell(st, c.args[1] if tf else UNIT)
    f = c.args[2] if tf else c.args[1]
    t = next((head(x) for x in reversed(c.targs) if isinstance(x, T) and head(x) in (OPT, RES, CF)), None)
    if t is None:
        return NotImplemented
    cont = {OPT: 1, RES: 0, CF: 0}[t]

    def whole(k, p):
        return NONE if t == OPT and k == 0 else mk('adt', t, k, (p,))

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, ([s.cells[cell]] if tf else []) + [x]):
            for s3, k in split(c.I, s2, v, t):
                s3 = s3.copy()
                if k == cont:
                    s3.cells[cell] = fld(v, k, 0)
                    res.append((s3, None))
                else:
                    res.append((s3, whole(k, None if t == OPT else fld(v, k, 0))))
        return res
    out = []
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        v = s.cells.pop(cell)
        out.append((s, whole(cont, v) if stop is None else stop))
    return out


@it_model('count')
def i_count(c, st, segs):
    r = INT(0)
    for sg in segs:
        r = add(r, seg_len(sg))
    return [(st, r)]


@it_model('sum')
def i_sum(c, st, segs):
    t = next((x for x in c.targs[1:] if isinstance(x, T)), None)
    st = st.copy()
    if t is None or t[0] == 'num':
        cell = c.I.newcell(st, INT(0))

        def body(s, x):
            s = s.copy()
            s.cells[cell] = add(s.cells[cell], c.I.deref(s, x))
            return [(s, None)]
    elif head(t) in (RES, OPT):
        return NotImplemented
    else:
        cell = c.I.newcell(st, acc([]))

        def body(s, x):
            s = s.copy()
            s.cells[cell] = acc(list(acc_segs(s.cells[cell])) + [one(x)])
            return [(s, None)]
    out = []
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        out.append((s, s.cells.pop(cell)))
    return out


@it_model('last')
def i_last(c, st, segs):
    col = seq(segs)
    return [(s, NONE if t else some(last_elem(col))) for t, s in st.fork(eqi(length(col), INT(0)))]


@it_model('nth')
def i_nth(c, st, segs):
    i = c.I.deref(st, c.args[1])
    col = seq(segs)
    out = []
    for t, s in st.fork(lt(i, length(col))):
        if not t:
            out.append((s, NONE))
        elif len(segs) == 1 and segs[0][0] == 'each' and all(len(v[1]) <= 1 for v in segs[0][3]) and any(not v[1] for v in segs[0][3]):
            out.append((s, some(nth_value(segs[0], i))))
        else:
            out.append((s, some(elem(col, i))))
    if c.args[0][0] == 'ref':
        c.I.notes.add('nth by ref')
    return out


@it_model('max', 'min', 'max_by_key', 'min_by_key')
def i_max(c, st, segs):
    col = seq(segs)
    r = app(c.name.split('::')[-1], col)
    c.I.note_enum(r, OPT)
    return [(s, NONE if t else some(r)) for t, s in st.fork(eqi(length(col), INT(0)))]


@it_model('partition')
def i_partition(c, st, segs):
    f = c.args[1]
    st = st.copy()
    a = c.I.newcell(st, EMPTY)
    b = c.I.newcell(st, EMPTY)

    def body(s, x):
        res = []
        for s2, v in callv(c, s, f, [x]):
            for t, s3 in bool_paths(c, s2, v):
                s3 = s3.copy()
                push(c.I, s3, a if t else b, x)
                res.append((s3, None))
        return res
    out = []
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        x, y = s.cells.pop(a), s.cells.pop(b)
        out.append((s, tup(x, y)))
    return out


@it_model('unzip')
def i_unzip(c, st, segs):
    st = st.copy()
    a = c.I.newcell(st, EMPTY)
    b = c.I.newcell(st, EMPTY)

    def body(s, x):
        s = s.copy()
        push(c.I, s, a, tfld(x, 0))
        push(c.I, s, b, tfld(x, 1))
        return [(s, None)]
    out = []
    for s, stop in foreach(c, st, segs, body):
        s = s.copy()
        x, y = s.cells.pop(a), s.cells.pop(b)
        out.append((s, tup(x, y)))
    return out


def collect_text(c, st, segs):
    def conv(sg):
        if sg[0] == 'one':
            x = c.I.deref(st, sg[1])
            return [mk('val', chstr(x) if char_item(x) else x)]
        if sg[0] == 'all':
            col = sg[1]
            if col[0] == 'app' and col[1] == 'chars':
                return [mk('val', col[2][0])]
            if col[0] == 'slice' and col[1][0] == 'app' and col[1][1] == 'chars':
                return [mk('val', app('charslice', col[1][2][0], col[2], col[3]))]
            if col[0] == 'app' and col[1] == 'rev' and col[2][0][0] == 'app' and col[2][0][1] == 'chars':
                return [mk('val', app('revstr', col[2][0][2][0]))]
            lv = max(fv(col), default=-1) + 1
            b = mk('bv', lv)
            return [mk('each', length(col), b, mk(*[mk((), (mk('val', elem(col, b)),))]))]
        vs = []
        for fs, inner in sg[3]:
            ps = []
            for x in inner:
                ps.extend(conv(x))
            vs.append(mk(fs, mk(*ps)))
        return [mk('each', sg[1], sg[2], mk(*vs))]
    ps = []
    for sg in segs:
        ps.extend(conv(sg))
    return txt(ps)


def char_item(x):
    if x[0] == 'chr':
        return True
    if x[0] == 'elem' and x[1][0] == 'app' and x[1][1] == 'chars':
        return True
    return False


@it_model('collect')
def i_collect(c, st, segs):
    return collect(c, st, segs, c.targs[1] if len(c.targs) > 1 else None)


@model('FromIterator::from_iter')
def m_from_iter(c):
    out = []
    for st, segs in iter_of(c, c.st, c.args[0]):
        out.extend(collect(c, st, segs, c.targs[0]))
    return out


def collect(c, st, segs, t):
    h = head(t).split('::')[-1] if t is not None else 'Vec'
    I = c.I
    if h in ('Vec', 'Box', 'VecDeque', 'slice', '?'):
        return [(st, seq(segs))]
    if h == 'String':
        return [(st, collect_text(c, st, segs))]
    if h in ('Result', 'Option'):
        inner = t[2] if t is not None and len(t) > 2 else None

        def body(s, x, cell):
            res = []
            if h == 'Result':
                for s2, k, p in res_split(I, s, x):
                    s2 = s2.copy()
                    if k == 0:
                        push(I, s2, cell, p)
                        res.append((s2, None))
                    else:
                        res.append((s2, err(p)))
            else:
                for s2, p in opt_split(I, s, x):
                    s2 = s2.copy()
                    if p is not None:
                        push(I, s2, cell, p)
                        res.append((s2, None))
                    else:
                        res.append((s2, NONE))
            return res
        out = []
        for s, sg, stop in map_segs(c, st, segs, body):
            if stop is not None:
                out.append((s, stop))
                continue
            if inner is not None and inner[0] == 'tuple' and len(inner) == 1:
                out.append((s, ok(UNIT) if h == 'Result' else some(UNIT)))
                continue
            for s2, v in collect(c, s, sg, inner):
                out.append((s2, ok(v) if h == 'Result' else some(v)))
        return out
    if h in ('HashMap', 'BTreeMap'):
        return [(st, app('mapof', seq(segs)))]
    if h in ('HashSet', 'BTreeSet'):
        return [(st, app('setof', seq(segs)))]
    if h == 'tuple':
        return [(st, UNIT)]
    I.notes.add('collect into ' + h)
    return [(st, app('collect:' + h, seq(segs)))]


@model('iter::once')
def m_once(c):
    return [(c.st, mkiter([one(c.args[0])]))]


@model('iter::empty')
def m_iempty(c):
    return [(c.st, mkiter([]))]


@model('iter::repeat')
def m_irepeat(c):
    return [(c.st, mk('repeatit', c.args[0]))]


@model('iter::repeat_n')
def m_irepeat_n(c):
    n = val(c, 1)
    lv = max(fv(c.args[0]) | fv(n), default=-1) + 1
    return [(c.st, mkiter([mk('each', n, mk('bv', lv), mk(*[mk((), (one(c.args[0]),))]))]))]


@model('fn::from_elem')
def m_from_elem(c):
    n = val(c, 1)
    x = c.I.deep(c.st, c.args[0])
    lv = max(fv(x) | fv(n), default=-1) + 1
    return [(c.st, seq((mk('each', n, mk('bv', lv), mk(*[mk((), (one(x),))])),)))]


@model('Clone::clone_from')
def m_clone_from(c):
    v = c.I.deep(c.st, c.args[1])
    st = c.st.copy()
    set_ref(c, st, c.args[0], v)
    return [(st, UNIT)]


# ---------------------------------------------------------------- callables
@model('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once')
def m_call(c):
    return c.I.call_value(c.st, c.args[0], [c.I.deref(c.st, c.args[1])] if c.args[1][0] == 'ref' else [c.args[1]], c.b, tupled=True)


# ---------------------------------------------------------------- pest
@model('Node::into_children', 'Node::children')
def m_children(c):
    k = (getattr(c.I, 'kids', None) or {}).get(val(c, 0))
    if k is not None:
        return [(c.st, mkiter([one(x) for x in k]))]
    return [(c.st, mkiter([all_(app('children', val(c, 0)))]))]


@model('Nodes::aliased_rules')
def m_aliased_rules(c):
    it = val(c, 0)
    out = []
    cc = c
    st = c.st.copy()
    segs = iter_segs(it)

    def body(s, x, cell):
        s = s.copy()
        push(c.I, s, cell, arule(c, x))
        return [(s, None)]
    return [(s, mkiter(sg)) for s, sg, stop in map_segs(c, st, segs, body)]


def arule(c, x):
    return app('arule', x)


@model('Node::as_aliased_rule')
def m_as_aliased(c):
    return [(c.st, arule(c, val(c, 0)))]


@model('Node::as_rule')
def m_as_rule(c):
    return [(c.st, app('rule', val(c, 0)))]


@model('Node::as_str')
def m_as_str(c):
    k = (getattr(c.I, 'texts', None) or {}).get(val(c, 0))
    return [(c.st, app('text', val(c, 0)) if k is None else k)]


@model('Nodes::error', 'Node::error')
def m_nodes_error(c):
    return [(c.st, app('nodeerror', c.I.deep(c.st, c.args[1]) if len(c.args) > 1 else UNIT))]


@model('Nodes::single')
def m_nodes_single(c):
    it = val(c, 0)
    segs = iter_segs(it)
    col = seq(segs)
    out = []
    for t, s in c.st.fork(eqi(length(col), INT(1))):
        out.append((s, ok(elem(col, INT(0))) if t else err(app('singleerror'))))
    return out


@model('Parser::parse', 'Parser::parse_with_userdata')
def m_parser_parse(c):
    h = head(c.targs[0]).split('::')[-1]
    r = app('pest:' + h, *[c.I.deep(c.st, a) for a in c.args])
    c.I.note_enum(r, RES)
    return [(c.st, r)]


@model('Parser::allows_shortcut')
def m_shortcut(c):
    return [(c.st, FALSE)]


from . import models2  # noqa: E402,F401  (further library functions)
