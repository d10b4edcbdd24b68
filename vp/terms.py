"""Terms of the abstract domain: interned, with normalising constructors.

scalars      ('int',n) ('bool',b) ('chr',code) ('str',s) ('unit',)
structures   ('adt',path,variant,fields) ('tup',fields) ('clo',key,captures,env) ('fn',key,path,targs)
places       ('ref',root,proj)
symbols      ('sym',name) ('fnp',name) ('fld',base,variant,i) ('elem',coll,index) ('app',name,args)
arithmetic   ('lin',const,((t,coef),..))
collections  ('seq',segs): ('one',v) ('all',coll) ('each',n,var,variants); variants: ((facts,segs),..)
text         ('txt',pieces): ('lit',s) ('val',t) ('each',n,var,variants)
binders      ('bv',level); ('pred',n,var,hits,misses) is the condition "some k<n satisfies one of hits"
             ('first',pred): the least such k; ('nth',n,var,variants,i): the i-th k that contributes
loops        ('lv',lid,path): value of a cell at the head of an iteration; ('post',lid,path): after the loop
"""
from .mir import T, mk

_ser = {}


def ser(t):
    n = _ser.get(t)
    if n is None:
        n = len(_ser)
        _ser[t] = n
    return n


def app(name, *args):
    return mk('app', name, args)


UNIT = mk('unit',)
TRUE = mk('bool', True)
FALSE = mk('bool', False)


def INT(n):
    return mk('int', n)


def STR(s):
    return mk('str', s)


def tup(*xs):
    return mk('tup', xs)


EMPTY = mk('seq', ())
OPT = 'std::option::Option'
RES = 'std::result::Result'
NONE = mk('adt', OPT, 0, ())


def some(x):
    return mk('adt', OPT, 1, (x,))


def ok(x):
    return mk('adt', RES, 0, (x,))


def err(x):
    return mk('adt', RES, 1, (x,))


# ---------------------------------------------------------------- arithmetic
def lin_parts(t):
    if t[0] == 'int':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def lin_make(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return INT(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return mk('lin', c, tuple((t, d[t]) for t in sorted(d, key=ser)))


def add(a, b, kb=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return lin_make(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a[0] == 'int':
        a, b = b, a
    if b[0] == 'int':
        c, d = lin_parts(a)
        return lin_make(c * b[1], {t: k * b[1] for t, k in d.items()})
    if ser(a) > ser(b):
        a, b = b, a
    return app('mul', a, b)


# ---------------------------------------------------------------- free variables, substitution
BINDERS = ('each', 'pred', 'nth', 'fold', 'lastw')
EXTRA = ('nth', 'fold', 'lastw')
_fv = {}


def fv(t):
    """levels of free bound-variables of a term"""
    if not isinstance(t, T):
        return frozenset()
    r = _fv.get(t)
    if r is not None:
        return r
    k = t[0] if t else None
    if k == 'bv':
        r = frozenset((t[1],))
    elif k in BINDERS:
        r = fv(t[1])
        inner = fv(t[3])
        if k == 'pred':
            inner |= fv(t[4])
        inner -= frozenset((t[2][1],))
        r = r | inner
        if k in EXTRA:
            r |= fv(t[4])
    else:
        r = frozenset()
        for x in t:
            if isinstance(x, T):
                r |= fv(x)
    _fv[t] = r
    return r


def occurs(t, x):
    """x occurs in t (x closed w.r.t. binders of t or a bv/lv)"""
    return any_sub(t, lambda s: s is x)


def any_sub(t, p):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if not isinstance(y, T) or not y or y in seen:
            continue
        seen.add(y)
        if p(y):
            return True
        st.extend(y)
    return False


def subterms(t):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if not isinstance(y, T) or not y or y in seen:
            continue
        seen.add(y)
        yield y
        st.extend(reversed(y))


class Subst:
    """simultaneous substitution of terms; re-normalises on the way up"""

    def __init__(self, m):
        self.m = m
        self.memo = {}
        self.keys = set(m)

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        r = self.m.get(t)
        if r is not None:
            return r
        r = self.memo.get(t)
        if r is not None:
            return r
        k = t[0] if t else None
        if k in BINDERS:
            s2 = self
            if t[2] in self.m:
                # own variable shadows
                m2 = dict(self.m)
                del m2[t[2]]
                s2 = Subst(m2)
            # avoid capture: values being substituted must not mention the binder's variable
            var = t[2]
            body = [t[3]] if k != 'pred' else [t[3], t[4]]
            fb = frozenset()
            for x in body:
                fb |= fv(x)
            if any(isinstance(v, T) and var[1] in fv(v) for v in s2.m.values()):
                mx = max([max(fv(v), default=-1) for v in list(s2.m.values()) + list(s2.m)] + [max(fb, default=-1), var[1]]) + 1
                nv = mk('bv', mx + 100)
                ren = Subst({var: nv})
                body = [ren(x) for x in body]
                var = nv
            xs = [s2(x) for x in body]
            r = rebuild_binder(k, self(t[1]), var, xs, self(t[4]) if k in EXTRA else None)
        else:
            ys = [self(x) if isinstance(x, T) else x for x in t]
            if all(a is b for a, b in zip(ys, t)):
                r = t
            else:
                r = renorm(ys)
        self.memo[t] = r
        return r


def rebuild_binder(k, n, var, xs, extra):
    """close a binder with its canonical variable"""
    free = frozenset(fv(n))
    for x in xs:
        free |= fv(x)
    free -= frozenset((var[1],))
    if extra is not None:
        free |= fv(extra)
    lvl = max(free) + 1 if free else 0
    if var[1] != lvl:
        nv = mk('bv', lvl)
        s = Subst({var: nv})
        xs = [s(x) for x in xs]
        var = nv
    if k == 'each':
        return norm_each(n, var, xs[0])
    if k in EXTRA:
        return mk(k, n, var, xs[0], extra)
    return mk('pred', n, var, xs[0], xs[1])


def renorm(ys):
    k = ys[0] if ys else None
    if k == 'lin':
        r = INT(ys[1])
        for t, c in ys[2]:
            r = add(r, t, c)
        return r
    if k == 'elem':
        return elem(ys[1], ys[2])
    if k == 'fld':
        return fld(ys[1], ys[2], ys[3])
    if k == 'tfld':
        return tfld(ys[1], ys[2])
    if k == 'seq':
        return seq(ys[1])
    if k == 'txt':
        return txt(ys[1])
    if k == 'slice':
        return slice_(ys[1], ys[2], ys[3])
    if k == 'acc':
        return acc(ys[1])
    if k == 'app':
        if ys[1] == 'len':
            return length(ys[2][0])
        if ys[1] == 'mul':
            return mul(*ys[2])
        if ys[1] == 'chstr':
            return chstr(ys[2][0])
        if ys[1] == 'eq':
            return eqt(*ys[2])
    return mk(*ys)


def eqt(a, b):
    if a is b:
        return TRUE
    if ser(a) > ser(b):
        a, b = b, a
    return app('eq', a, b)


# ---------------------------------------------------------------- structures
def fld(b, v, i):
    if b[0] == 'adt' and (v is None or v < 0 or b[2] == v):
        if i < len(b[3]):
            return b[3][i]
    if b[0] == 'upd' and b[2][0] == 'f':
        if b[2][1:] == (v, i):
            return b[3]
    return mk('fld', b, v, i)


def tfld(b, i):
    if b[0] == 'tup' and i < len(b[1]):
        return b[1][i]
    return mk('tfld', b, i)


# ---------------------------------------------------------------- collections
def seq(segs):
    out = []
    for s in segs:
        if s[0] == 'all':
            c = s[1]
            if c[0] == 'seq':
                out.extend(c[1])
                continue
            if c[0] == 'slice' and c[2][0] == 'int' and c[3][0] == 'int' and c[2][1] >= c[3][1]:
                continue
        elif s[0] == 'each':
            if s[1] == INT(0):
                continue
            if len(s[3]) and all(len(v[1]) == 0 for v in s[3]):
                continue
        out.append(s)
    if len(out) == 1 and out[0][0] == 'all':
        return out[0][1]
    return mk('seq', out)


def segs_of(c):
    if c[0] == 'seq':
        return c[1]
    return mk(*[mk('all', c)])


def one(v):
    return mk('one', v)


def all_(c):
    return mk('all', c)


def length(c):
    k = c[0]
    if k == 'seq':
        r = INT(0)
        for s in c[1]:
            r = add(r, seg_len(s))
        return r
    if k == 'slice':
        return sub(c[3], c[2])
    if k == 'updi':
        return length(c[1])
    if k == 'fold':
        return length(c[4])
    if k == 'str':
        return INT(len(c[1].encode()))
    if k == 'app' and c[1] in ('rev', 'sorted', 'enumerate'):
        return length(c[2][0])
    if k == 'app' and c[1] == 'range':
        return sub(c[2][1], c[2][0])
    return app('len', c)


def seg_len(s):
    if s[0] not in ('one', 'all', 'each'):
        return app('count', s)
    if s[0] == 'one':
        return INT(1)
    if s[0] == 'all':
        return length(s[1])
    ls = {length(seq(v[1])) for v in s[3]}
    if len(ls) == 1:
        l = ls.pop()
        if s[2][1] not in fv(l):
            return mul(s[1], l)
    if all(all(y[0] == 'one' for y in v[1]) for v in s[3]):
        s = mk('each', s[1], s[2], contributing(s[3]))
    return app('count', s)


def elem(c, i):
    k = c[0]
    if k == 'seq':
        if i[0] == 'int' and i[1] >= 0:
            n = i[1]
            for s in c[1]:
                if s[0] == 'one':
                    if n == 0:
                        return s[1]
                    n -= 1
                    continue
                break
        if i[0] == 'lin' or i[0] == 'app':
            # from the back:  len - m
            d = sub(length(c), i)
            if d[0] == 'int' and d[1] >= 1:
                n = d[1]
                for s in reversed(c[1]):
                    if s[0] == 'one':
                        n -= 1
                        if n == 0:
                            return s[1]
                        continue
                    break
        if len(c[1]) == 1 and c[1][0][0] == 'each':
            s = c[1][0]
            if len(s[3]) == 1 and len(s[3][0][0]) == 0 and len(s[3][0][1]) == 1 and s[3][0][1][0][0] == 'one':
                return Subst({s[2]: i})(s[3][0][1][0][1])
            if all(len(v[1]) <= 1 and all(y[0] == 'one' for y in v[1]) for v in s[3]):
                vals = {v[1][0][1] for v in s[3] if v[1]}
                if len(vals) == 1:
                    if all(v[1] for v in s[3]):
                        return Subst({s[2]: i})(vals.pop())
                    return Subst({s[2]: mk_nth(s[1], s[2], s[3], i)})(vals.pop())
    if k == 'slice':
        return elem(c[1], add(c[2], i))
    if k == 'app' and c[1] == 'range':
        return add(c[2][0], i)
    if k == 'app' and c[1] == 'rev':
        return elem(c[2][0], sub(sub(length(c[2][0]), INT(1)), i))
    if k == 'app' and c[1] == 'enumerate':
        return tup(i, elem(c[2][0], i))
    if k == 'app' and c[1] == 'zip':
        return tup(elem(c[2][0], i), elem(c[2][1], i))
    if k == 'updi':
        if c[2] is i:
            return c[3]
        d = sub(c[2], i)
        if d[0] == 'int' and d[1] != 0:
            return elem(c[1], i)
    return mk('elem', c, i)


def mk_nth(n, var, variants, i):
    """position of the i-th k < n that contributes"""
    return rebuild_binder('nth', n, var, [contributing(variants)], i)


def contributing(variants):
    """the selection conditions alone (the remaining cases are their complement)"""
    vs = {mk(v[0], mk(*[one(UNIT) for _ in v[1]])) for v in variants if v[1]}
    return canon(vs)


_nthf = {}


def nth_fact(t):
    """what the selection conditions of ('nth',..) positions inside t say about t"""
    r = _nthf.get(t, 0)
    if r != 0:
        return r
    r = None
    for x in subterms(t):
        if x[0] == 'nth':
            con = [v for v in x[3] if v[1]]
            if len(con) == 1:
                sb = Subst({x[2]: x})
                for f in con[0][0]:
                    if f[0] in ('is', 'not') and sb(f[1]) is t:
                        r = ('is', f[2]) if f[0] == 'is' else ('not', frozenset((f[2],)))
    _nthf[t] = r
    return r


def slice_(c, lo, hi):
    if c[0] == 'slice':
        return slice_(c[1], add(c[2], lo), add(c[2], hi))
    if lo == INT(0) and hi is length(c):
        return c
    if c[0] == 'seq' and lo[0] == 'int':
        segs = list(c[1])
        n = lo[1]
        rest_hi = hi
        while n > 0 and segs and segs[0][0] == 'one':
            segs.pop(0)
            n -= 1
        if n == 0:
            s2 = seq(segs)
            if sub(length(c), hi) == INT(0):
                return s2
            d = sub(length(c), hi)
            if d[0] == 'int' and d[1] > 0:
                m = d[1]
                while m > 0 and segs and segs[-1][0] == 'one':
                    segs.pop()
                    m -= 1
                if m == 0:
                    return seq(segs)
    return mk('slice', c, lo, hi)


def norm_each(n, var, variants):
    """variants: T of (facts T, segs T). Normalises identity copies to ('all',coll)."""
    if len(variants) == 1 and len(variants[0][1]) == 1 and len(variants[0][0]) == 0:
        s = variants[0][1][0]
        if s[0] == 'one':
            e = s[1]
            if e[0] == 'elem' and e[2] is var and var[1] not in fv(e[1]) and length(e[1]) is n:
                return all_(e[1])
            # slices: elem(c, k+lo)
            if e[0] == 'elem' and var[1] not in fv(e[1]):
                d = sub(e[2], var)
                if var[1] not in fv(d):
                    return all_(slice_(e[1], d, add(d, n)))
            if var[1] not in fv(e) and n[0] == 'int' and n[1] == 1:
                return s
        if s[0] == 'all' and n == INT(1) and var[1] not in fv(s):
            return s
    return mk('each', n, var, canon(variants))


def canon(variants):
    """cases are alternatives and their conditions a set: one order for each"""
    vs = {mk(mk(*sorted(set(v[0]), key=ser)), v[1]) for v in variants}
    return mk(*sorted(vs, key=ser))


def acc(segs):
    """sum in an unspecified monoid: order kept"""
    out = []
    for s in segs:
        if s[0] == 'one' and s[1][0] == 'acc':
            out.extend(s[1][1])
            continue
        if s[0] == 'each' and (s[1] == INT(0) or (len(s[3]) and all(len(v[1]) == 0 for v in s[3]))):
            continue
        out.append(s)
    if len(out) == 1 and out[0][0] == 'one':
        return out[0][1]
    return mk('acc', out)


def acc_segs(t):
    if t[0] == 'acc':
        return t[1]
    return mk(*[one(t)])


# ---------------------------------------------------------------- text
def chstr(c):
    if c[0] == 'chr':
        return STR(chr(c[1]))
    return app('chstr', c)


def pieces_of(t):
    if t[0] == 'str':
        return [mk('lit', t[1])] if t[1] else []
    if t[0] == 'txt':
        return list(t[1])
    return [mk('val', t)]


def txt(pieces):
    out = []

    def push(p):
        if p[0] == 'val':
            if p[1][0] in ('str', 'txt'):
                for q in pieces_of(p[1]):
                    push(q)
                return
        if p[0] == 'lit':
            if not p[1]:
                return
            if out and out[-1][0] == 'lit':
                out[-1] = mk('lit', out[-1][1] + p[1])
                return
        if p[0] == 'each':
            if p[1] == INT(0) or (len(p[3]) and all(len(v[1]) == 0 for v in p[3])):
                return
            if len(p[3]) == 1 and len(p[3][0][0]) == 0 and len(p[3][0][1]) == 1:
                q = p[3][0][1][0]
                if q[0] == 'lit':
                    if p[1][0] == 'int' and 0 <= p[1][1] < 64:
                        push(mk('lit', q[1] * p[1][1]))
                        return
                    push(mk('rep', q[1], p[1]))
                    return
                # copying every char of a string
                if q[0] == 'val':
                    e = q[1]
                    if e[0] == 'app' and e[1] == 'chstr' and e[2][0][0] == 'elem':
                        el = e[2][0]
                        c = el[1]
                        if el[2] is p[2] and c[0] == 'app' and c[1] == 'chars' and length(c) is p[1]:
                            push(mk('val', c[2][0]))
                            return
        if p[0] == 'rep':
            if p[2] == INT(0) or not p[1]:
                return
            if p[2][0] == 'int' and 0 <= p[2][1] < 64:
                push(mk('lit', p[1] * p[2][1]))
                return
        out.append(p)
    for p in pieces:
        push(p)
    if not out:
        return STR('')
    if len(out) == 1:
        if out[0][0] == 'lit':
            return STR(out[0][1])
        if out[0][0] == 'val':
            return out[0][1]
    return mk('txt', out)


def concat(*ts):
    ps = []
    for t in ts:
        ps.extend(pieces_of(t))
    return txt(ps)


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '…'
    k = t[0] if t else None
    s = lambda x: show(x, d + 1)
    if k in ('int', 'bool'):
        return str(t[1])
    if k == 'chr':
        return "'%s'" % repr(chr(t[1]))[1:-1]
    if k == 'str':
        return '"%s"' % t[1].replace('\n', '\\n')
    if k == 'unit':
        return '()'
    if k == 'adt':
        return '%s#%s(%s)' % (t[1].split('::')[-1], t[2], ', '.join(map(s, t[3])))
    if k == 'tup':
        return '(%s)' % ', '.join(map(s, t[1]))
    if k == 'sym' or k == 'fnp':
        return '$' + str(t[1])
    if k == 'fld':
        return '%s.%s.%s' % (s(t[1]), t[2], t[3])
    if k == 'tfld':
        return '%s.%s' % (s(t[1]), t[2])
    if k == 'elem':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'app':
        return '%s(%s)' % (t[1], ', '.join(map(s, t[2])))
    if k == 'lin':
        return '(%s%s)' % (' + '.join(('%s*' % c if c != 1 else '') + s(x) for x, c in t[2]), ' %+d' % t[1] if t[1] else '')
    if k == 'bv':
        return 'k%d' % t[1]
    if k == 'seq':
        return '[%s]' % ', '.join(map(s, t[1]))
    if k == 'txt':
        return 'txt<%s>' % ' '.join(map(s, t[1]))
    if k == 'one':
        return s(t[1])
    if k == 'all':
        return '*' + s(t[1])
    if k == 'lit':
        return '"%s"' % t[1].replace('\n', '\\n')
    if k == 'val':
        return '{%s}' % s(t[1])
    if k == 'rep':
        return '"%s"x%s' % (t[1], s(t[2]))
    if k == 'each':
        return 'each(%s<%s: %s)' % (s(t[2]), s(t[1]), ' | '.join('%s=>%s' % (showfacts(v[0], d + 1), ' '.join(map(s, v[1]))) for v in t[3]))
    if k == 'pred':
        return 'exists(%s<%s: %s)' % (s(t[2]), s(t[1]), ' | '.join(showfacts(v, d + 1) for v in t[3]))
    if k == 'first':
        return 'first(%s)' % s(t[1])
    if k == 'nth':
        return 'nth(%s<%s: %s ; %s)' % (s(t[2]), s(t[1]), ' | '.join(showfacts(v[0], d + 1) for v in t[3]), s(t[4]))
    if k == 'acc':
        return 'sum<%s>' % ', '.join(map(s, t[1]))
    if k in ('fold', 'lastw'):
        return 'fold(%s<%s: %s ; %s)' % (s(t[2]), s(t[1]), ' | '.join('%s=>%s' % (showfacts(v[0], d + 1), ' '.join(map(s, v[1]))) for v in t[3]), s(t[4]))
    if k == 'ref':
        return '&<%s%s>' % (t[1], ''.join('.' + s(x) if isinstance(x, T) else str(x) for x in t[2]))
    if k == 'clo':
        return 'clo<%s; %s>' % (t[1], ', '.join(map(s, t[2])))
    return '%s(%s)' % (k, ', '.join(map(s, t[1:]))) if isinstance(k, str) else '(%s)' % ', '.join(map(s, t))


def showfacts(fs, d=0):
    return '{%s}' % ', '.join(showfact(f, d) for f in fs)


def showfact(f, d=0):
    if f[0] == 'is':
        return '%s=%s' % (show(f[1], d), f[2])
    if f[0] == 'not':
        return '%s!=%s' % (show(f[1], d), f[2])
    if f[0] == 'b':
        return ('' if f[2] else '!') + show(f[1], d)
    if f[0] == 'ge':
        return '%s>=%s' % (show(f[1], d), f[2])
    return show(f, d)
