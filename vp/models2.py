"""Further library functions: the less common methods of options, results, text, slices, maps, cells and iterators."""
from .mir import mk, head, T
from .terms import *
from .facts import lt, le, eqi, neg
from .models import (CF, M, model, it_model, val, split, opt_split, res_split, callv, set_ref, bool_paths, mkiter, iter_of, map_segs,
                     push, refs_segs, elem, last_elem, foreach, rev_segs, at_boundary, strslice, range_bounds, mapget, m_is_empty, i_fold,
                     i_zip, m_vec_pop, m_first)

ORD = 'std::cmp::Ordering'
LESS, EQUAL, GREATER = (mk('adt', ORD, i, ()) for i in range(3))


def at(c, i=0):
    """place a reference argument leads to, and what is there"""
    r = c.args[i]
    while r[0] == 'ref':
        w = c.I.load(c.st, r[1], r[2])
        if w[0] != 'ref':
            return r, w
        r = w
    return None, r


def inside(r, *steps):
    return mk('ref', r[1], mk(*(list(r[2]) + list(steps))))


# ---------------------------------------------------------------- options and results
@model('Option::get_or_insert', 'Option::get_or_insert_with', 'Option::get_or_insert_default')
def m_get_or_insert(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    here = inside(r, mk('f', OPT, 1, 0))
    out = []
    for st, p in opt_split(c.I, c.st, v):
        if p is not None:
            out.append((st, here))
            continue
        if c.name.endswith('_default'):
            return NotImplemented
        for s, x in [(st, c.args[1])] if c.name.endswith('get_or_insert') else callv(c, st, c.args[1], []):
            s = s.copy()
            set_ref(c, s, r, some(x))
            out.append((s, here))
    return out


@model('Option::insert')
def m_opt_insert(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    st = c.st.copy()
    set_ref(c, st, r, some(c.args[1]))
    return [(st, inside(r, mk('f', OPT, 1, 0)))]


@model('Option::take_if')
def m_take_if(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    out = []
    for st, p in opt_split(c.I, c.st, v):
        if p is None:
            out.append((st, NONE))
            continue
        for s, b in callv(c, st, c.args[1], [inside(r, mk('f', OPT, 1, 0))]):
            for t, s2 in bool_paths(c, s, b):
                s2 = s2.copy()
                w = c.I.load(s2, r[1], r[2])
                if t:
                    set_ref(c, s2, r, NONE)
                out.append((s2, w if t else NONE))
    return out


@model('Option::transpose')
def m_opt_transpose(c):
    out = []
    for st, p in opt_split(c.I, c.st, val(c, 0)):
        if p is None:
            out.append((st, ok(NONE)))
        else:
            out += [(s, ok(some(x)) if k == 0 else err(x)) for s, k, x in res_split(c.I, st, p)]
    return out


@model('Result::transpose')
def m_res_transpose(c):
    out = []
    for st, k, p in res_split(c.I, c.st, val(c, 0)):
        if k == 1:
            out.append((st, some(err(p))))
        else:
            out += [(s, NONE if x is None else some(ok(x))) for s, x in opt_split(c.I, st, p)]
    return out


@model('Option::xor')
def m_opt_xor(c):
    out = []
    for st, p in opt_split(c.I, c.st, val(c, 0)):
        for s, q in opt_split(c.I, st, c.I.deref(st, c.args[1])):
            out.append((s, some(p) if q is None and p is not None else some(q) if p is None and q is not None else NONE))
    return out


@model('Option::unzip')
def m_opt_unzip(c):
    return [(st, tup(NONE, NONE) if p is None else tup(some(tfld(p, 0)), some(tfld(p, 1)))) for st, p in opt_split(c.I, c.st, val(c, 0))]


@model('Option::iter_mut')
def m_opt_iter_mut(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    return [(st, mkiter([] if p is None else [one(inside(r, mk('f', OPT, 1, 0)))])) for st, p in opt_split(c.I, c.st, v)]


@model('Result::inspect', 'Result::inspect_err')
def m_res_inspect(c):
    out = []
    want = 0 if c.name.endswith('inspect') else 1
    for st, k, p in res_split(c.I, c.st, val(c, 0)):
        v = ok(p) if k == 0 else err(p)
        out += [(s, v) for s, _ in callv(c, st, c.args[1], [p])] if k == want else [(st, v)]
    return out


@model('Result::into_iter')
def m_res_into_iter(c):
    return [(st, mkiter([one(p)] if k == 0 else [])) for st, k, p in res_split(c.I, c.st, val(c, 0))]


@model('ControlFlow::break_value', 'ControlFlow::continue_value', 'ControlFlow::is_break', 'ControlFlow::is_continue')
def m_break_value(c):
    want = 1 if 'break' in c.name else 0
    v = val(c, 0)
    out = []
    for st, k in split(c.I, c.st, v, CF):
        if '::is_' in c.name:
            out.append((st, TRUE if k == want else FALSE))
        else:
            out.append((st, some(fld(v, k, 0)) if k == want else NONE))
    return out


# ---------------------------------------------------------------- comparison and numbers
def whole(c):
    t = c.targs[0] if c.targs and isinstance(c.targs[0], T) else None
    return t is not None and t[0] == 'num' and not str(t[1]).startswith('f')


@model('Ord::cmp')
def m_cmp(c):
    if not whole(c):
        return NotImplemented
    a, b = val(c, 0), val(c, 1)
    out = []
    for t, s in c.st.fork(lt(a, b)):
        if t:
            out.append((s, LESS))
        else:
            out += [(s2, EQUAL if e else GREATER) for e, s2 in s.fork(eqi(a, b))]
    return out


@model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne', 'Ordering::reverse')
def m_ordering(c):
    v = val(c, 0)
    if v[0] != 'adt':
        return NotImplemented
    k, m = v[2], c.name.split('::')[-1]
    if m == 'reverse':
        return [(c.st, (GREATER, EQUAL, LESS)[k])]
    yes = {'is_lt': k == 0, 'is_le': k < 2, 'is_gt': k == 2, 'is_ge': k > 0, 'is_eq': k == 1, 'is_ne': k != 1}[m]
    return [(c.st, TRUE if yes else FALSE)]


@model('Ord::clamp')
def m_clamp(c):
    if not whole(c):
        return NotImplemented
    v, lo, hi = val(c, 0), val(c, 1), val(c, 2)
    out = []
    for t, s in c.st.fork(lt(v, lo)):
        if t:
            out.append((s, lo))
        else:
            out += [(s2, hi if o else v) for o, s2 in s.fork(lt(hi, v))]
    return out


@model('usize::abs_diff')
def m_abs_diff(c):
    a, b = val(c, 0), val(c, 1)
    return [(s, sub(a, b) if t else sub(b, a)) for t, s in c.st.fork(le(b, a))]


@model('fn::discriminant')
def m_discriminant(c):
    return [(c.st, mk('discr', val(c, 0)))]


# ---------------------------------------------------------------- text
@model('String::remove')
def m_str_remove(c):
    r, v = at(c)
    i = val(c, 1)
    if r is None:
        return NotImplemented
    out = []
    n = length(v)
    for t, s in c.st.fork(lt(i, n)):
        if not t:
            c.I.panic(s, 'remove index', c.b, [i, n])
            continue
        for s2 in at_boundary(c, s, v, i):
            s2 = s2.copy()
            x = app('charat', v, i)
            set_ref(c, s2, r, app('removechar', v, i))
            out.append((s2, x))
    return out


@model('String::drain')
def m_str_drain(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    out = []
    n = length(v)
    for s, lo, hi in range_bounds(c, c.st.copy(), val(c, 1), n):
        for s1 in [s] if lo is INT(0) else at_boundary(c, s, v, lo):
            for s2 in [s1] if hi is n else at_boundary(c, s1, v, hi):
                s2 = s2.copy()
                set_ref(c, s2, r, concat(STR('') if lo is INT(0) else strslice(v, INT(0), lo), strslice(v, hi, n)))
                out.append((s2, mkiter([all_(app('chars', strslice(v, lo, hi)))])))
    return out


@model('str::is_ascii')
def m_is_ascii(c):
    v = val(c, 0)
    if v[0] == 'str':
        return [(c.st, TRUE if v[1].isascii() else FALSE)]
    return NotImplemented


CHARS = {'is_ascii_uppercase': lambda x: 'A' <= x <= 'Z', 'is_ascii_lowercase': lambda x: 'a' <= x <= 'z',
         'is_ascii_graphic': lambda x: '!' <= x <= '~', 'is_ascii_control': lambda x: x < ' ' or x == '\x7f'}


@model(*['char::' + k for k in CHARS])
def m_ascii_class(c):
    v = val(c, 0)
    n = c.name.split('::')[-1]
    if v[0] == 'chr':
        return [(c.st, TRUE if CHARS[n](chr(v[1])) else FALSE)]
    return [(c.st, app(n, v))]


# ---------------------------------------------------------------- slices and vectors
def at_ends(c, v, w, off):
    """v has the items of w from position off on"""
    sts = [(c.st, True)]
    for i, x in enumerate(w[1]):
        nxt = []
        for s, good in sts:
            if not good:
                nxt.append((s, False))
                continue
            q = c.I.make_eq(s, c.I.deep(s, elem(v, add(off, INT(i)))), c.I.deep(s, x[1]))
            nxt += [(s2, t) for t, s2 in s.fork(q)]
        sts = nxt
    return sts


@model('slice::starts_with', 'slice::ends_with')
def m_slice_starts(c):
    v, w = val(c, 0), val(c, 1)
    if w[0] != 'seq' or any(x[0] != 'one' for x in w[1]) or len(w[1]) > 4:
        return NotImplemented
    n, k = length(v), INT(len(w[1]))
    out = []
    for t, s in c.st.fork(le(k, n)):
        if not t:
            out.append((s, FALSE))
            continue
        old, c.st = c.st, s
        off = INT(0) if c.name.endswith('starts_with') else sub(n, k)
        out += [(s2, TRUE if good else FALSE) for s2, good in at_ends(c, v, w, off)]
        c.st = old
    return out


@model('slice::windows', 'slice::chunks')
def m_windows(c):
    n = val(c, 1)
    if n[0] != 'int' or n[1] < 1:
        return NotImplemented
    return [(c.st, app(c.name.split('::')[-1], val(c, 0), n))]


@model('slice::fill')
def m_fill(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    x = c.I.deep(c.st, c.args[1])
    n = length(v)
    lv = max(fv(x) | fv(n), default=-1) + 1
    st = c.st.copy()
    set_ref(c, st, r, seq((mk('each', n, mk('bv', lv), mk(*[mk((), (one(x),))])),)))
    return [(st, UNIT)]


@model('slice::rotate_left', 'slice::rotate_right')
def m_rotate(c):
    r, v = at(c)
    k = val(c, 1)
    if r is None:
        return NotImplemented
    n = length(v)
    out = []
    for t, s in c.st.fork(le(k, n)):
        if not t:
            c.I.panic(s, 'rotate', c.b, [k, n])
            continue
        s = s.copy()
        m = k if c.name.endswith('left') else sub(n, k)
        set_ref(c, s, r, seq(list(segs_of(slice_(v, m, n))) + list(segs_of(slice_(v, INT(0), m)))))
        out.append((s, UNIT))
    return out


@model('slice::swap')
def m_slice_swap(c):
    r, v = at(c)
    i, j = val(c, 1), val(c, 2)
    if r is None:
        return NotImplemented
    n = length(v)
    out = []
    for a, s in c.st.fork(lt(i, n)):
        for b, s2 in s.fork(lt(j, n)) if a else [(False, s)]:
            if not b:
                c.I.panic(s2, 'swap index', c.b, [i, j, n])
                continue
            s2 = s2.copy()
            x, y = elem(v, i), elem(v, j)
            c.I.store(s2, r[1], mk(*(list(r[2]) + [mk('e', i)])), y)
            c.I.store(s2, r[1], mk(*(list(r[2]) + [mk('e', j)])), x)
            out.append((s2, UNIT))
    return out


@model('Vec::resize')
def m_resize(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    k, x = val(c, 1), c.I.deep(c.st, c.args[2])
    n = length(v)
    out = []
    for t, s in c.st.fork(le(k, n)):
        s = s.copy()
        if t:
            set_ref(c, s, r, slice_(v, INT(0), k))
        else:
            m = sub(k, n)
            lv = max(fv(x) | fv(m), default=-1) + 1
            set_ref(c, s, r, seq(list(segs_of(v)) + [mk('each', m, mk('bv', lv), mk(*[mk((), (one(x),))]))]))
        out.append((s, UNIT))
    return out


@model('Vec::pop_if')
def m_pop_if(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    n = length(v)
    out = []
    for e, st in c.st.fork(eqi(n, INT(0))):
        if e:
            out.append((st, NONE))
            continue
        for s, b in callv(c, st, c.args[1], [inside(r, mk('e', sub(n, INT(1))))]):
            for t, s2 in bool_paths(c, s, b):
                s2 = s2.copy()
                w = c.I.load(s2, r[1], r[2])
                if t:
                    set_ref(c, s2, r, slice_(w, INT(0), sub(n, INT(1))))
                out.append((s2, some(last_elem(w)) if t else NONE))
    return out


M['VecDeque::pop_back'] = m_vec_pop


@model('VecDeque::push_front')
def m_push_front(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    st = c.st.copy()
    set_ref(c, st, r, seq([one(c.args[1])] + list(segs_of(v))))
    return [(st, UNIT)]


@model('VecDeque::pop_front')
def m_pop_front(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    n = length(v)
    out = []
    for e, st in c.st.fork(eqi(n, INT(0))):
        st = st.copy()
        if e:
            out.append((st, NONE))
            continue
        set_ref(c, st, r, slice_(v, INT(1), n))
        out.append((st, some(elem(v, INT(0)))))
    return out


# ---------------------------------------------------------------- maps
@model('BTreeMap::keys', 'HashMap::keys', 'BTreeMap::into_keys', 'HashMap::into_keys', 'BTreeMap::values', 'HashMap::values',
       'BTreeMap::into_values', 'HashMap::into_values')
def m_map_keys(c):
    i = 0 if c.name.endswith('keys') else 1
    out = []
    e = app('entries', val(c, 0))

    def body(s, x, cell):
        s = s.copy()
        push(c.I, s, cell, tfld(x, i))
        return [(s, None)]
    for s, sg, _ in map_segs(c, c.st, [all_(e)], body):
        out.append((s, mkiter(sg)))
    return out


@model('BTreeMap::clear', 'HashMap::clear')
def m_map_clear(c):
    r, v = at(c)
    if r is None:
        return NotImplemented
    st = c.st.copy()
    set_ref(c, st, r, app('emptymap'))
    return [(st, UNIT)]


@model('Entry::and_modify')
def m_and_modify(c):
    e = c.args[0]
    if e[0] != 'app' or e[1] != 'entry' or e[2][0][0] != 'ref':
        return NotImplemented
    r, k = e[2]
    out = []
    for st, p in opt_split(c.I, c.st, mapget(c.I.deref(c.st, r), k)):
        if p is None:
            out.append((st, e))
        else:
            out += [(s, e) for s, _ in callv(c, st, c.args[1], [inside(r, mk('m', k))])]
    return out


@model('Entry::key')
def m_entry_key(c):
    e = val(c, 0)
    return [(c.st, e[2][1])] if e[0] == 'app' and e[1] == 'entry' else NotImplemented


# ---------------------------------------------------------------- iterators
@it_model('rfold')
def i_rfold(c, st, segs):
    return i_fold(c, st, rev_segs(segs))


@it_model('reduce')
def i_reduce(c, st, segs):
    st = st.copy()
    cell = c.I.newcell(st, NONE)
    f = c.args[1]

    def body(s, x):
        res = []
        for s1, p in opt_split(c.I, s, s.cells[cell]):
            for s2, v in [(s1, x)] if p is None else callv(c, s1, f, [p, x]):
                s2 = s2.copy()
                s2.cells[cell] = some(v)
                res.append((s2, None))
        return res
    out = []
    for s, _ in foreach(c, st, segs, body):
        s = s.copy()
        out.append((s, s.cells.pop(cell)))
    return out


@it_model('scan')
def i_scan(c, st, segs):
    st = st.copy()
    mem = c.I.newcell(st, c.args[1])
    f = c.args[2]

    def body(s, x, cell):
        res = []
        for s1, v in callv(c, s, f, [mk('ref', mem, mk()), x]):
            for s2, p in opt_split(c.I, s1, v):
                s2 = s2.copy()
                if p is not None:
                    push(c.I, s2, cell, p)
                res.append((s2, None if p is not None else UNIT))
        return res
    out = []
    for s, sg, _ in map_segs(c, st, segs, body):
        s = s.copy()
        s.cells.pop(mem, None)
        out.append((s, mkiter(sg)))
    return out


@it_model('eq', 'ne')
def i_eq(c, st, segs):
    out = []
    for s, other in iter_of(c, st, c.args[1]):
        q = c.I.make_eq(s, c.I.deep(s, seq(segs)), c.I.deep(s, seq(other)))
        out.append((s, q if c.name.endswith('eq') else neg(q)))
    return out


@model('iter::zip')
def m_zip_fn(c):
    return M['Iterator::zip'](c)


@model('iter::once_with')
def m_once_with(c):
    return [(s, mkiter([one(v)])) for s, v in callv(c, c.st, c.args[0], [])]


# ---------------------------------------------------------------- entries of a map that stay
@model('HashMap::retain', 'BTreeMap::retain')
def m_map_retain(c):
    r, m = at(c)
    if r is None:
        return NotImplemented
    key, v = mk('sym', '?key'), mk('sym', '?val')
    stay = []
    for s, b in callv(c, c.st.copy(), c.args[1], [key, v]):
        if s.cells != c.st.cells:
            return NotImplemented
        for t, s2 in bool_paths(c, s, b):
            if t:
                stay.append(mk(*s2.facts_since(c.st)))
    st = c.st.copy()
    for f in [fs[0] for fs in stay if len(fs) == 1] if len(stay) == 1 else ():
        e = f[1]
        if f[0] == 'b' and f[2] is False and e[0] == 'app' and e[1] == 'eq' and key in e[2]:
            k = e[2][0] if e[2][1] is key else e[2][1]
            if not any_sub(k, lambda x: x is key or x is v):
                set_ref(c, st, r, app('mapdel', m, k))
                return [(st, UNIT)]
    set_ref(c, st, r, app('mapkept', m, mk('cases', mk(*stay))))
    return [(st, UNIT)]


# ---------------------------------------------------------------- characters as text, numbers of another width
@model('char::encode_utf8')
def m_encode_utf8(c):
    return [(c.st, chstr(val(c, 0)))]


@model('TryFrom::try_from', 'TryInto::try_into')
def m_try_from(c):
    """between whole numbers: the same number if the target can hold it"""
    from .models import INTS
    if len(c.targs) < 2:
        return NotImplemented
    a, b = c.targs[0], c.targs[1]
    dst, src = (a, b) if c.name.startswith('TryFrom') else (b, a)
    if dst[0] != 'num' or src[0] != 'num' or dst[1] not in INTS or src[1] not in INTS:
        return NotImplemented
    v = val(c, 0)
    (lo, hi), (slo, shi) = INTS[dst[1]], INTS[src[1]]
    sts = [(c.st, True)]
    for need, cond in ((slo < lo, le(INT(lo), v)), (shi > hi, lt(v, INT(hi)))):
        if need:
            sts = [(s2, t) for s, good in sts if good for t, s2 in s.fork(cond)] + [x for x in sts if not x[1]]
    e = app('outofrange', v)
    return [(s, ok(v) if t else mk('adt', RES, 1, (e,))) for s, t in sts]
