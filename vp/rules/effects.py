"""P44 (reported failures) and P50 (purity): effect and use analyses over the compiler's MIR of the whole crate."""
from .common import *

HIDDEN = ('std::env', 'std::fs', 'std::net', 'std::time', 'std::process', 'std::thread', 'std::os', 'std::sync::mpsc', 'std::random',
          'std::io::stdin', 'std::io::stdio::stdin', 'std::io::Stdin', 'std::alloc', 'std::hash::RandomState', 'std::backtrace',
          'std::collections::hash_map::RandomState', 'std::hash::random', 'std::panic::set_hook', 'std::panic::take_hook',
          'pest::set_call_limit', 'pest::set_error_detail', 'std::sync::atomic', 'std::sync::Mutex', 'std::sync::RwLock',
          'rand', 'getrandom', 'libc', 'chrono', 'time')
INTERIOR = ('std::cell::Cell', 'std::cell::RefCell', 'std::cell::UnsafeCell', 'std::cell::OnceCell', 'std::sync::Mutex', 'std::sync::RwLock',
            'std::sync::OnceLock', 'std::sync::atomic::', 'std::sync::poison', 'std::sync::once_lock', 'std::cell::LazyCell', 'std::cell::SyncUnsafeCell')
LOCAL_KEY = ('std::thread::LocalKey', 'std::thread::local::LocalKey')
HASHED = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map', 'std::collections::hash_set', 'hashbrown')
# std aliases: the iterators of the two hash containers
UNORDERED_FREE = ('collect', 'extend', 'count', 'any', 'all', 'len', 'is_empty', 'sum', 'product', 'size_hint')
ADAPTORS = ('map', 'filter', 'filter_map', 'cloned', 'copied', 'flat_map', 'flatten', 'chain', 'inspect', 'into_iter', 'iter', 'by_ref')
SORTED = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::BTreeMap', 'std::collections::BTreeSet')


def under(path, prefixes):
    p = path.lstrip('<&').replace("'a ", '').replace("'_ ", '')
    return any(p == x or p.startswith(x + '::') or p.startswith(x + '<') for x in prefixes)


def type_heads(cr, t, seen=None, depth=0):
    """paths of all named types a type is built from, through local definitions"""
    seen = set() if seen is None else seen
    if not isinstance(t, tuple) or not t or depth > 40:
        return seen
    if t[0] == 'adt':
        if t[1] in seen:
            new = False
        else:
            seen.add(t[1])
            new = True
        for a in t[2:]:
            type_heads(cr, a, seen, depth + 1)
        ad = cr.adts.get(t[1])
        if new and ad and ad['local']:
            for v in ad['vars']:
                for _, ft in v['f']:
                    type_heads(cr, cr.ty(ft), seen, depth + 1)
        return seen
    for a in t[1:]:
        if isinstance(a, tuple):
            type_heads(cr, a, seen, depth + 1)
    return seen


def operands(x):
    """all constant operands below a statement or terminator"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] == 'k' and isinstance(x[1], dict) and 'c' in x[1]:
            yield x[1]
        else:
            for y in x:
                yield from operands(y)


def calls(b):
    for i, bl in enumerate(b.blocks):
        if bl['cl']:
            continue
        t = bl['t']
        if t[0] == 'call':
            yield i, bl, t


def callee(t):
    f = t[1]
    if isinstance(f, dict):
        return f.get('r') or f.get('p') or ''
    return ''


def owner(cr, b):
    while b.parent and b.parent in cr.bodies:
        b = cr.bodies[b.parent]
    return b


def uses_of(b, local):
    """[(block, 'call', term, argument number) | (block, 'use', statement)] of a local as a whole"""
    out = []

    def hit(op):
        return isinstance(op, list) and len(op) == 2 and op[0] in ('c', 'm') and op[1][0] == local

    for i, bl in enumerate(b.blocks):
        if bl['cl']:
            continue
        for s in bl['s']:
            if s[0] == '=' and mentions(s[2], local):
                out.append((i, 'use', s, None))
            elif s[0] not in ('=', 'live', 'dead') and mentions(s[1:], local):
                out.append((i, 'use', s, None))
        t = bl['t']
        if t[0] == 'call':
            for n, a in enumerate(t[2]):
                if hit(a):
                    out.append((i, 'call', t, n))
        elif t[0] == 'switch' and mentions(t[1], local):
            out.append((i, 'switch', t, None))
        elif t[0] == 'assert' and mentions(t[1:], local):
            out.append((i, 'switch', t, None))
    return out


def mentions(x, local):
    """a place expression over the local occurs below x"""
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and isinstance(x[1], list):
            if x[0] == local:
                return True
            return any(isinstance(e, list) and e and e[0] == 'i' and e[1] == local for e in x[1])
        return any(mentions(y, local) for y in x)
    return False


def p50(c):
    cr = c.crate
    c.rule('state', 'no function uses a static that can change, a thread-local or a lock')
    c.rule('ambient', 'no function calls into clock, randomness, environment, files, network, processes or threads')
    c.rule('order', 'nothing is taken out of a hash container in its unspecified order')
    c.rule('address', 'no result depends on an address')
    c.rule('values', 'trees, documents and paths hold no cell that shared access could change')
    statics = {}
    for s in cr.d['statics']:
        path, mut = s[0], s[1]
        ty = cr.ty(s[2]) if len(s) > 2 else ('unknown',)
        statics[path] = (mut, ty)
    n = 0
    for b in list(cr.bodies.values()) + list(cr.promoted.values()):
        n += 1
        con = owner(cr, b).path
        c.fns.add(con)
        bad = False
        for bl in b.blocks:
            if bl['cl']:
                continue
            for s in bl['s'] + [bl['t']]:
                for k in operands(s):
                    kt = cr.ty(k['t']) if 't' in k else None
                    hs = type_heads(cr, kt) if kt is not None else set()
                    if any(under(h, LOCAL_KEY) for h in hs):
                        c.bad('state', con, 'uses a thread-local value', bl['sp'])
                        bad = True
                    if k['c'] == 'static':
                        mut, ty = statics.get(k['p'], (None, kt))
                        hs = type_heads(cr, ty)
                        if mut or (mut is None and kt is not None and kt[0] == 'ref' and kt[1]):
                            c.bad('state', con, 'uses the mutable static ' + k['p'], bl['sp'])
                            bad = True
                        elif any(under(h, INTERIOR) or h.startswith('std::sync::atomic') for h in hs):
                            # a value computed once, from nothing, is a constant
                            if not once_constant(cr, ty):
                                c.bad('state', con, 'uses the static %s, whose type can change behind a shared reference' % k['p'], bl['sp'])
                                bad = True
                if s[0] == '=' and s[2][0] == 'cast' and ('Expose' in s[2][1] or 'FnPtrToPtr' in s[2][1]):
                    c.bad('address', con, 'turns an address into a number', bl['sp'])
                    bad = True
                if s[0] == '=' and s[2][0] == 'other' and 'ThreadLocalRef' in str(s[2][1]):
                    c.bad('state', con, 'uses a thread-local value', bl['sp'])
                    bad = True
        for i, bl, t in calls(b):
            p = callee(t)
            if under(p, HIDDEN) and not p.startswith('std::thread::panicking'):
                c.bad('ambient', con, 'calls ' + p, bl['sp'])
                bad = True
            if p.startswith('std::fmt::Pointer') or ' as std::fmt::Pointer>' in p or p.endswith('new_pointer'):
                c.bad('address', con, 'formats an address', bl['sp'])
                bad = True
            if t[3] and not t[3][1]:
                dt = cr.ty(b.locals[t[3][0]])
                h = head(dt)
                if under(h, ('std::collections::hash_map', 'std::collections::hash_set')) and not h.endswith('Entry'):
                    r = order_free(cr, b, t[3][0], 0)
                    if r is False:
                        c.bad('order', con, 'the order of ' + p + ' decides what happens', bl['sp'])
                        bad = True
                    elif r is None:
                        c.unknown('order', con, 'iterates a hash container: ' + p)
                        bad = True
        if not bad:
            c.ok('state', con)
    c.floor('ambient', n, 300, 'function bodies')
    # tree types
    roots = [cr.adt_named(x) for x in ('Yaml', 'Document', 'YamlPath', 'Condition')]
    for r in roots:
        hs = type_heads(cr, mk('adt', r))
        inner = sorted(h for h in hs if under(h, INTERIOR) or h in ('std::rc::Rc', 'std::sync::Arc') and False)
        c.check('values', r, not inner, 'contains ' + ', '.join(inner), '')
    c.floor('values', len(roots), 4, 'value types')


def once_constant(cr, ty):
    """a LazyLock whose initializer is a plain function: always the same value"""
    return ty[0] == 'adt' and ty[1].endswith('LazyLock') and (len(ty) < 4 or ty[3][0] in ('fnptr', 'fndef')) and \
        not any(under(h, INTERIOR) or h.startswith('std::sync::atomic') for h in (type_heads(cr, ty[2]) if len(ty) > 2 else ()))


def order_free(cr, b, local, depth):
    """the items of a hash container's iterator reach only consumers for which order is immaterial"""
    if depth > 6:
        return None
    res = True
    for i, kind, x, n in uses_of(b, local):
        if kind == 'use':
            if x[0] == '=' and x[2][0] in ('use', 'ref') and not x[1][1]:
                r = order_free(cr, b, x[1][0], depth + 1)
                if r is False:
                    return False
                if r is None:
                    res = None
                continue
            res = None
        elif kind == 'call':
            m = (x[1].get('m') or callee(x).split('::')[-1]) if isinstance(x[1], dict) else ''
            if m in ADAPTORS or m.endswith('_mut') and m.startswith('iter'):
                r = order_free(cr, b, x[3][0], depth + 1) if not x[3][1] else None
            elif m in ('collect', 'extend', 'from_iter'):
                t = cr.ty(b.locals[x[3][0]]) if m != 'extend' else None
                if m == 'extend':
                    ta = x[1].get('a') or []
                    t = cr.ty(ta[0]) if ta and isinstance(ta[0], int) else ('unknown',)
                    while t[0] == 'ref':
                        t = t[2]
                r = True if under(head(t), SORTED) else (False if head(t).split('::')[-1] in ('Vec', 'String', 'VecDeque', 'LinkedList') else None)
            elif m in UNORDERED_FREE or m in ('clone', 'drop', 'fmt'):
                r = True
            elif m in ('next', 'nth', 'find', 'find_map', 'last', 'fold', 'for_each', 'try_fold', 'try_for_each', 'position', 'next_back', 'zip', 'enumerate', 'take', 'skip', 'peekable'):
                r = False
            else:
                r = None
            if r is False:
                return False
            if r is None:
                res = None
    return res


# ---------------------------------------------------------------- P44
TRIALS = ('std::num::ParseIntError', 'std::num::ParseFloatError', 'std::num::IntErrorKind', 'core::num::ParseIntError', 'std::str::ParseBoolError',
          'std::char::ParseCharError', 'std::str::Utf8Error', 'std::string::FromUtf8Error', 'std::convert::Infallible')
SWALLOW = {'ok': 'drops the error', 'unwrap_or': 'puts a default in the place of a failure', 'unwrap_or_else': 'puts a default in the place of a failure',
           'unwrap_or_default': 'puts a default in the place of a failure', 'is_ok': 'asks only whether it failed', 'is_err': 'asks only whether it failed',
           'or': 'puts something else in the place of a failure', 'map_or': 'puts a default in the place of a failure',
           'is_ok_and': 'asks only whether it failed', 'is_err_and': 'asks only whether it failed', 'iter': 'skips a failure', 'into_iter': 'skips a failure'}
ONWARD = ('map', 'map_err', 'and_then', 'inspect', 'inspect_err', 'as_ref', 'as_mut', 'cloned', 'copied', 'clone', 'and', 'into', 'flatten', 'transpose', 'as_deref')


def result_of(t):
    """(ok type, error type) of a Result type"""
    if t[0] == 'adt' and t[1] in (RES, 'core::result::Result'):
        return t[2], t[3] if len(t) > 3 else None
    return None


def is_failure(t):
    r = result_of(t)
    if r is None:
        return False
    e = r[1]
    if e is None:
        return False
    if e[0] == 'adt' and e[1] in TRIALS or e[0] == 'never':
        return False
    return True


def swallowed(c, cr, b, local, depth=0, unwrapped=False):
    """None if the failure in this local is passed on, else what happens to it ('?...' if that is not clear)"""
    if local == 0:
        return None
    us = [u for u in uses_of(b, local)]
    real = [u for u in us if not (u[1] == 'use' and u[2][0] != '=')]
    if not real:
        return 'is never looked at'
    if depth > 8:
        return '?followed too far'
    worst = None
    switches = []
    for i, kind, x, n in real:
        r = None
        if kind == 'use':
            rv = x[2]
            if rv[0] == 'discr':
                switches.append((i, x))
                continue
            if rv[0] in ('use', 'ref') and not x[1][1]:
                src = rv[-1] if rv[0] == 'ref' else (rv[1][1] if rv[1][0] in ('c', 'm') else None)
                if src is not None and src[0] == local and not src[1]:
                    r = swallowed(c, cr, b, x[1][0], depth + 1)
                    if r == SWALLOW['is_ok'] and rv[0] == 'ref' and any(
                            (k == 'use' and y[0] == '=' and y[2][0] == 'use' and y[1][0] == 0) or (k == 'call' and callee(y).split('::')[-1] in ('branch', 'unwrap_err', 'map', 'map_err', 'and_then'))
                            for _, k, y, _ in real):
                        r = None
                    if r:
                        return r
            # a payload is read, or it is stored away
            continue
        if kind == 'call':
            f = x[1]
            p = callee(x)
            m = (f.get('m') or p.split('::')[-1]) if isinstance(f, dict) else ''
            if n == 0 and m == 'branch' or m in ('unwrap', 'expect', 'unwrap_err', 'expect_err', 'into_ok'):
                continue
            if m in ('extend', 'chain', 'zip', 'extend_one', 'flatten') and p.startswith(('std::', 'core::', 'alloc::', '<std::', '<core::', '<alloc::')) and (n == 1 or m == 'flatten') and is_result_local(cr, b, local):
                return 'is used as a list that is empty when it failed'
            if p in ('std::mem::drop', 'core::mem::drop', 'std::mem::forget', 'core::mem::forget') and is_result_local(cr, b, local):
                return 'is thrown away'
            if n == 0 and p.startswith('std::result::Result') or n == 0 and ' for std::result::Result' in p or n == 0 and p.startswith('<std::result::Result'):
                if m in SWALLOW:
                    return m and SWALLOW[m]
                if m == 'or_else':
                    return '?goes to an alternative'
                if m == 'map_or_else':
                    return '?goes to an alternative'
                if m in ONWARD and not x[3][1]:
                    d = swallowed(c, cr, b, x[3][0], depth + 1) if is_result_local(cr, b, x[3][0]) else None
                    if d:
                        return d
            continue
    for i, s in switches:
        # later looks at it (the compiler's own, for drops) only repeat what is already known
        if any(j != i and not reaches(b, i, j) for j, _ in switches):
            continue
        r = err_arm(cr, b, i, s, local)
        if r:
            worst = r if worst is None or worst.startswith('?') else worst
    return worst


def reaches(b, target, without):
    """the target block is reachable from the entry without passing a block"""
    seen, todo = set(), [0]
    while todo:
        k = todo.pop()
        if k == target:
            return True
        if k in seen or k == without or k < 0:
            continue
        seen.add(k)
        todo.extend(b.succs(k))
    return False


def is_result_local(cr, b, l):
    return result_of(cr.ty(b.locals[l])) is not None


def err_arm(cr, b, i, s, local):
    """what happens on the failure side of a match"""
    dl = s[1][0]
    t = b.blocks[i]['t']
    if t[0] != 'switch' or not mentions(t[1], dl):
        return '?' + 'its kind is kept as a value'
    arms = {int(v): tgt for v, tgt in t[3]}
    start = arms.get(1, t[4])
    # is the error itself used anywhere?
    used = False
    for bl in b.blocks:
        if bl['cl']:
            continue
        if payload_read(bl, local):
            used = True
            break
    seen, todo = set(), [start]
    while todo:
        k = todo.pop()
        if k in seen or k < 0:
            continue
        seen.add(k)
        bl = b.blocks[k]
        if bl['cl']:
            continue
        tm = bl['t']
        if handed_on(tm):
            return 'is matched and a value is handed on in its place'
        if gives_error(bl):
            continue
        if tm[0] == 'ret':
            return ('?' if used else '') + 'is matched and the function can go on without it'
        todo.extend(b.succs(k))
    return None


def handed_on(t):
    """the caller's visitor is given a value"""
    if t[0] != 'call' or not t[3] or t[3][0] != 0 or t[3][1] or not isinstance(t[1], dict):
        return False
    m = (t[1].get('m') or callee(t).split('::')[-1])
    return m.startswith('visit_') and 'Visitor' in callee(t)


def payload_read(bl, local):
    def find(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == local and not isinstance(x[0], bool) and isinstance(x[1], list):
                for e in x[1]:
                    if isinstance(e, list) and e and e[0] == 'v' and e[1] == 1:
                        return True
            return any(find(y) for y in x)
        return False
    for s in bl['s']:
        if s[0] == '=' and find(s[2]):
            return True
    t = bl['t']
    return t[0] == 'call' and find(t[2])


def gives_error(bl):
    for s in bl['s']:
        if s[0] == '=' and s[1][0] == 0 and not s[1][1]:
            rv = s[2]
            if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] == RES and rv[1][2] == 1:
                return True
            if rv[0] == 'agg' and rv[1][0] == 'adt' and rv[1][1] != RES:
                return False
            if rv[0] == 'use' and rv[1][0] in ('c', 'm'):
                return True
    t = bl['t']
    if t[0] == 'call':
        if t[3] and t[3][0] == 0 and not t[3][1]:
            m = (t[1].get('m') or '') if isinstance(t[1], dict) else ''
            return True if m in ('from_residual',) else 'Result' in callee(t) or True
    return False


def p44(c):
    cr = c.crate
    c.rule('passed on', 'every call that can fail has its failure propagated, returned or turned into a panic by the caller')
    c.rule('no filter', 'no failure is filtered out of a sequence of results')
    n = 0
    for b in cr.bodies.values():
        if b.kind not in ('fn', 'closure'):
            continue
        if b.derived:
            continue
        con0 = owner(cr, b)
        if '::rules::' in con0.path:
            continue
        for i, bl, t in calls(b):
            p = callee(t)
            for a in t[2]:
                # Result::ok and the like handed over as functions
                if a[0] == 'k' and 't' in a[1]:
                    ft = cr.ty(a[1]['t'])
                    if ft[0] == 'fndef' and ft[2].startswith('std::result::Result') and ft[2].split('::')[-1] in SWALLOW:
                        k = fn_error(cr, a[1]['t'])
                        c.check('no filter', con0.path, None if k is None else not k, 'failures are dropped by %s in %s' % (ft[2].split('::')[-1], p), bl['sp'])
            m = (t[1].get('m') or '') if isinstance(t[1], dict) else ''
            if m in ('flatten', 'flat_map') and ('Iterator' in p):
                r = item_is_result(cr, b, t)
                if r:
                    c.bad('no filter', con0.path, 'failures are flattened away', bl['sp'])
            if t[3] and not t[3][1]:
                ty = cr.ty(b.locals[t[3][0]])
                if not is_failure(ty):
                    continue
                if m in ('branch', 'from_residual', 'from_output'):
                    continue
                if p.startswith('std::result::Result') and m in ONWARD:
                    continue
                n += 1
                r = swallowed(c, cr, b, t[3][0])
                if r == SWALLOW['is_ok'] and own_buffer(cr, b, t):
                    r = None
                if r and p.startswith('pest_consume::Nodes') and m == 'single' and 'matched' in r:
                    # how many nodes there are is a question, not a nested failure (generated code for chains of single children)
                    r = None
                con = con0.path + ' <- ' + short(p)
                if r is None:
                    c.ok('passed on', con)
                elif r.startswith('?'):
                    c.unknown('passed on', con, 'the failure of %s %s' % (p, r[1:]))
                else:
                    c.bad('passed on', con, 'the failure of %s %s' % (p, r), bl['sp'])
        c.fns.add(con0.path)
    c.floor('passed on', n, 120, 'calls that can fail')
    from .serde import reported
    reported(c)


def own_buffer(cr, b, t):
    """a trial write into a string of the function's own"""
    rt = result_of(cr.ty(b.locals[t[3][0]]))
    if rt[1][0] != 'adt' or rt[1][1] != 'std::fmt::Error':
        return False

    def owned(l, depth=0):
        if depth > 4 or l <= b.argc:
            return False
        ty = cr.ty(b.locals[l])
        if head(ty) == 'std::string::String' and ty[0] == 'adt':
            return True
        for bl in b.blocks:
            for s in bl['s']:
                if s[0] == '=' and s[1][0] == l and not s[1][1] and s[2][0] == 'ref':
                    return owned(s[2][2][0], depth + 1)
                if s[0] == '=' and s[1][0] == l and not s[1][1] and s[2][0] == 'use' and s[2][1][0] in ('c', 'm'):
                    return owned(s[2][1][1][0], depth + 1)
        return False
    return any(a[0] in ('c', 'm') and cr.ty(b.locals[a[1][0]])[:2] == ('ref', True) and owned(a[1][0]) for a in t[2])


def short(p):
    return '::'.join(p.split('::')[-2:]) if not p.startswith('<') else p.split('::')[-1]


def fn_error(cr, ti):
    j = cr.types[ti]
    a = [cr.ty(x) for x in j.get('a', []) if isinstance(x, int)]
    if len(a) < 2:
        return None
    return is_failure(mk('adt', RES, a[0], a[1]))


def item_is_result(cr, b, t):
    """flattening an iteration whose items are results of a crate closure or function"""
    a = t[2][0]
    if a[0] not in ('c', 'm') or a[1][1]:
        return False
    ty = cr.ty(b.locals[a[1][0]])
    if ty[0] == 'adt' and ty[1].endswith('::Map') and len(ty) >= 4:
        f = ty[3]
        if f[0] == 'closure' and f[1] in cr.bodies:
            x = cr.bodies[f[1]]
            return is_failure(cr.ty(x.locals[0]))
        if f[0] == 'fndef' and f[1] in cr.bodies:
            x = cr.bodies[f[1]]
            return is_failure(cr.ty(x.locals[0]))
    return False
