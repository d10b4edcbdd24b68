"""Values of summary terms for one definite text: constant propagation through the conditions and results of an analysed function.

Only terms produced by the analysis are evaluated (nothing of the library is executed); whatever the analysis did not understand
raises Unknown, and so does any function of the standard library that is not listed here."""
import math
import re
from .mir import T, mk
from .terms import *

WS = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


class Unknown(Exception):
    pass


class Ch(str):
    """a single character"""
    def __eq__(self, o):
        return isinstance(o, Ch) and str.__eq__(self, o)

    def __ne__(self, o):
        return not self == o
    __hash__ = str.__hash__


FLOAT = re.compile(r'[+-]?(?:inf|infinity|nan|(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:e[+-]?[0-9]+)?)\Z', re.I)
RANGES = {'u8': (0, 2**8), 'u16': (0, 2**16), 'u32': (0, 2**32), 'u64': (0, 2**64), 'u128': (0, 2**128), 'usize': (0, 2**64),
          'i8': (-2**7, 2**7), 'i16': (-2**15, 2**15), 'i32': (-2**31, 2**31), 'i64': (-2**63, 2**63), 'i128': (-2**127, 2**127), 'isize': (-2**63, 2**63)}


def parse(kind, s):
    """what str::parse makes of a text: ('adt', Result, variant, [value])"""
    if kind in RANGES:
        lo, hi = RANGES[kind]
        if re.match(r'[+]?[0-9]+\Z' if lo == 0 else r'[+-]?[0-9]+\Z', s):
            n = int(s)
            if lo <= n < hi:
                return ('adt', RES, 0, [n])
        return ('adt', RES, 1, [('error',)])
    if kind in ('f64', 'f32'):
        if FLOAT.match(s):
            return ('adt', RES, 0, [('float', s)])
        return ('adt', RES, 1, [('error',)])
    if kind == 'bool':
        return ('adt', RES, 0, [s == 'true']) if s in ('true', 'false') else ('adt', RES, 1, [('error',)])
    raise Unknown('parse ' + kind)


def text(x):
    if isinstance(x, str):
        return str(x)
    raise Unknown('no text')


_deps = {}


def deps(t):
    """(does the value depend on the round of a loop, its free indices)"""
    r = _deps.get(t)
    if r is None:
        r = _deps[t] = (any_sub(t, lambda x: x[0] in ('lv', 'post')), tuple(sorted(fv(t))))
    return r


class Eval:
    def __init__(self, loops, env=None, limit=200000):
        self.loops = loops
        self.sym = env or {}
        self.memo = [{}]
        self.changing = 0
        self.fuel = limit
        self.sparse = False
        self.bv = {}
        self.iters = []
        self.state = {}       # lid -> (iteration, {path: value})
        self.ver = 0
        self.done = {}

    # ---- environments
    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unknown('too long')

    def ev(self, t):
        """value of a term in the present round of the loops around it"""
        if t in self.sym:
            return self.sym[t]
        loose, vs = deps(t)
        if loose or self.changing:
            memo, at = self.memo[-1], (self.iters[-1] if self.iters else None, tuple(sorted(self.bv.items())))
        else:
            memo, at = self.memo[0], None
        try:
            key = (t, at) + tuple([self.bv[v] for v in vs])
        except KeyError:
            raise Unknown('index')
        r = memo.get(key, self)
        if r is not self:
            if isinstance(r, Unknown):
                raise r
            return r
        try:
            r = self.ev_(t)
        except Unknown as e:
            memo[key] = e
            raise
        memo[key] = r
        return r

    def ev_(self, t):
        self.tick()
        k = t[0]
        if t in self.sym:
            return self.sym[t]
        if k in ('int', 'bool'):
            return t[1]
        if k == 'str':
            return t[1]
        if k == 'chr':
            return Ch(chr(t[1]))
        if k == 'unit':
            return ()
        if k == 'adt':
            return ('adt', t[1], t[2], [self.ev(x) for x in t[3]])
        if k == 'tup':
            return tuple(['tup'] + [self.ev(x) for x in t[1]])
        if k == 'fld':
            b = self.ev(t[1])
            if isinstance(b, tuple) and b and b[0] == 'adt':
                if b[2] != t[2]:
                    raise Unknown('field of another variant')
                return b[3][t[3]]
            raise Unknown('field of ' + show(t[1])[:60])
        if k == 'tfld':
            b = self.ev(t[1])
            if isinstance(b, tuple) and b and b[0] == 'tup':
                return b[1 + t[2]]
            raise Unknown('part of ' + show(t[1])[:60])
        if k == 'elem':
            return self.at(self.coll(t[1]), self.num(t[2]))
        if k == 'lin':
            n = t[1]
            for x, c in t[2]:
                n += c * self.num(x)
            return n
        if k == 'bv':
            if t[1] in self.bv:
                return self.bv[t[1]]
            raise Unknown('index')
        if k == 'seq':
            out = []
            for s in t[1]:
                self.seg(s, out)
            return out
        if k == 'txt':
            out = []
            for p in t[1]:
                self.piece(p, out)
            return ''.join(out)
        if k == 'slice':
            c, lo, hi = self.ev(t[1]), self.num(t[2]), self.num(t[3])
            return self.cut(c, lo, hi)
        if k == 'updi':
            c = list(self.coll(t[1]))
            c[self.num(t[2])] = self.ev(t[3])
            return c
        if k == 'pred':
            return self.find(t) is not None
        if k == 'first':
            r = self.find(t[1])
            if r is None:
                raise Unknown('nothing found')
            return r
        if k == 'nth':
            i = self.num(t[4])
            for j in range(self.num(t[1])):
                for v in t[3]:
                    if self.holds_at(t[2], j, v[0]):
                        if i == 0:
                            return j
                        i -= 1
                        break
            raise Unknown('nth')
        if k == 'lastw':
            r = None
            for j in range(self.num(t[1])):
                v = self.case(t[2], j, t[3])
                if v:
                    r = self.with_(t[2], j, lambda: self.ev(v[-1][1]))
            return self.ev(t[4]) if r is None else r
        if k == 'fold':
            c = list(self.coll(t[4]))
            for j in range(self.num(t[1])):
                for w in self.case(t[2], j, t[3]):
                    self.with_(t[2], j, lambda: self.change(c, t[4], w[1], w[2]))
            return c
        if k == 'lv':
            return self.head(t[1], tuple(t[2]))
        if k == 'post':
            return self.after(t[1], tuple(t[2]))
        if k == 'app':
            return self.app(t)
        raise Unknown(show(t)[:80])

    def change(self, c, whole, i, x):
        """an element of c gets a new value, computed from the one it has now"""
        n = self.num(i)
        me = mk('elem', whole, i)
        old = self.sym.get(me, self)
        self.sym[me] = self.at(c, n)
        self.changing += 1
        self.memo.append({})
        try:
            v = self.ev(x)
        finally:
            self.changing -= 1
            self.memo.pop()
            if old is self:
                del self.sym[me]
            else:
                self.sym[me] = old
        c[n] = v

    def num(self, t):
        n = self.ev(t)
        if isinstance(n, bool) or not isinstance(n, int):
            raise Unknown('no number: ' + show(t)[:60])
        return n

    def coll(self, t):
        c = self.ev(t)
        if not isinstance(c, list):
            raise Unknown('no collection: ' + show(t)[:60])
        return c

    def at(self, c, i):
        if not 0 <= i < len(c):
            raise Unknown('out of range')
        return c[i]

    def cut(self, c, lo, hi):
        if isinstance(c, str):
            b = c.encode()
            if not 0 <= lo <= hi <= len(b):
                raise Unknown('out of range')
            try:
                return b[lo:hi].decode()
            except UnicodeDecodeError:
                raise Unknown('inside a character')
        if not isinstance(c, list) or not 0 <= lo <= hi <= len(c):
            raise Unknown('out of range')
        return c[lo:hi]

    def with_(self, var, j, fn):
        old = self.bv.get(var[1], self)
        self.bv[var[1]] = j
        self.iters.append(j)
        try:
            return fn()
        finally:
            self.iters.pop()
            if old is self:
                del self.bv[var[1]]
            else:
                self.bv[var[1]] = old

    def all(self, fs):
        """do all conditions hold; one that is false settles it, whatever the others mean"""
        unk = None
        for f in fs:
            try:
                if not self.fact(f):
                    return False
            except Unknown as e:
                if str(e) == 'too long':
                    raise
                unk = e
        if unk is not None:
            raise unk
        return True

    def holds_at(self, var, j, fs):
        return self.with_(var, j, lambda: self.all(fs))

    def case(self, var, j, variants):
        unk = None
        for v in variants:
            # the cases exclude each other
            try:
                if self.holds_at(var, j, v[0]):
                    return v[1]
            except Unknown as e:
                unk = e
        if unk is not None:
            raise unk
        if self.sparse:
            return ()
        raise Unknown('no case')

    def find(self, p):
        n = self.num(p[1])
        unk = None
        for j in range(n):
            for h in p[3]:
                try:
                    if self.holds_at(p[2], j, h):
                        if unk is not None:
                            raise unk
                        return j
                except Unknown as e:
                    unk = e
        if unk is not None:
            raise unk
        return None

    def seg(self, s, out):
        if s[0] == 'one':
            out.append(self.ev(s[1]))
        elif s[0] == 'all':
            out.extend(self.coll(s[1]))
        elif s[0] == 'each':
            for j in range(self.num(s[1])):
                segs = self.case(s[2], j, s[3])

                def run():
                    for x in segs:
                        self.seg(x, out)
                self.with_(s[2], j, run)
        else:
            raise Unknown(show(s)[:80])

    def piece(self, p, out):
        self.tick()
        if p[0] == 'lit':
            out.append(p[1])
        elif p[0] == 'val':
            out.append(text(self.ev(p[1])))
        elif p[0] == 'rep':
            out.append(p[1] * self.num(p[2]))
        elif p[0] == 'each':
            for j in range(self.num(p[1])):
                ps = self.case(p[2], j, p[3])

                def run():
                    for x in ps:
                        self.piece(x, out)
                self.with_(p[2], j, run)
        else:
            raise Unknown(show(p)[:80])

    # ---- facts
    def fact(self, f):
        k = f[0]
        if k == 'b':
            r = self.ev(f[1])
            if not isinstance(r, bool):
                raise Unknown('no condition')
            return r == f[2]
        if k in ('is', 'not'):
            r = self.same(self.ev(f[1]), f[2])
            return r if k == 'is' else not r
        n = self.num(f[1])
        return n == f[2] if k == 'eq' else n >= f[2] if k == 'ge' else n <= f[2]

    def same(self, x, v):
        if isinstance(v, T):
            return self.equal(x, self.ev(v))
        if isinstance(x, tuple) and x and x[0] == 'adt':
            return x[2] == v
        if isinstance(x, bool) or not isinstance(x, int):
            raise Unknown('no variant')
        return x == v

    def equal(self, x, y):
        if isinstance(x, tuple) and x and x[0] in ('float', 'error') or isinstance(y, tuple) and y and y[0] in ('float', 'error'):
            raise Unknown('comparison')
        return x == y

    # ---- loops
    def run_loop(self, lid, upto):
        """values of the places a loop changes, before iteration `upto` (None: after the loop)"""
        rec = self.loops.get(lid)
        if rec is None:
            raise Unknown('a loop without a known number of rounds')
        vals = {p: self.ev(v) for p, v in rec.init.items()}
        # without a known number of rounds it goes on until no way round applies any more
        n = upto if upto is not None else self.num(rec.n) if rec.n is not None else None
        old = self.state.get(lid)
        oldb = self.bv.get(rec.k[1], self)
        try:
            for j in range(n if n is not None else 400):
                self.state[lid] = (j, vals)
                self.bv[rec.k[1]] = j
                self.iters.append(j)
                self.memo.append({})
                try:
                    for fs, new, st in rec.backs:
                        if self.all(fs):
                            vals = {p: self.update(rec, p, v, vals[p]) for p, v in new.items() if p[-1] != 'trace'}
                            break
                    else:
                        if n is None:
                            vals = dict(vals)
                            vals['k',] = j
                            return vals
                        raise Unknown('left early')
                finally:
                    self.memo.pop()
                    self.iters.pop()
            if n is None:
                raise Unknown('a loop of many rounds')
        finally:
            if old is None:
                self.state.pop(lid, None)
            else:
                self.state[lid] = old
            if oldb is self:
                self.bv.pop(rec.k[1], None)
            else:
                self.bv[rec.k[1]] = oldb
        return vals

    def update(self, rec, p, v, now):
        if p in rec.point:
            # elements are changed one by one: the analysis names them by their value before the loop
            if v is rec.init[p]:
                return now
            c = list(now)
            self.change(c, rec.init[p], v[2], v[3])
            return c
        return self.ev(v)

    def head(self, lid, p):
        if lid in self.state:
            return self.pick(self.state[lid][1], p)
        rec = self.loops.get(lid)
        if rec is None or not self.iters:
            raise Unknown('loop')
        return self.pick(self.rounds(lid, self.iters[-1]), p)

    def after(self, lid, p):
        rec = self.loops.get(lid)
        if rec is None:
            raise Unknown('loop')
        if rec.pred is not None and self.find(rec.pred) is not None:
            raise Unknown('left early')
        return self.pick(self.rounds(lid, None), p)

    def rounds(self, lid, upto):
        memo, key = self.memo[-1], ('rounds', lid, upto, tuple(sorted(self.bv.items())))
        r = memo.get(key)
        if r is None:
            r = memo[key] = self.run_loop(lid, upto)
        return r

    def pick(self, vals, p):
        if p not in vals:
            raise Unknown('place')
        return vals[p]

    # ---- functions
    def app(self, t):
        n, a = t[1], t[2]
        fn = getattr(self, 'f_' + n, None)
        if n.startswith('overflow:'):
            return False
        if n.startswith('parse:'):
            return parse(n[6:], text(self.ev(a[0])))
        if n in ('f64::is_finite', 'f64::is_nan', 'f64::is_infinite'):
            v = self.ev(a[0])
            if isinstance(v, tuple) and v and v[0] == 'float':
                f = float(v[1])
                return {'is_finite': math.isfinite, 'is_nan': math.isnan, 'is_infinite': math.isinf}[n[5:]](f)
            raise Unknown(n)
        if n in ('cast:char', 'cast:u32', 'cast:usize'):
            raise Unknown(n)
        if fn is None:
            raise Unknown(n)
        return fn(*a)

    def f_len(self, c):
        v = self.ev(c)
        if isinstance(v, str):
            return len(v.encode())
        if isinstance(v, list):
            return len(v)
        raise Unknown('len')

    def f_is(self, t, v):
        return self.same(self.ev(t), v[1] if v[0] == 'int' else v)

    def f_eq(self, x, y):
        return self.equal(self.ev(x), self.ev(y))

    def f_ge0(self, x):
        return self.num(x) >= 0

    def f_eq0(self, x):
        return self.num(x) == 0

    def f_not(self, x):
        return not self.ev(x)

    def f_and(self, *xs):
        unk = None
        for x in xs:
            try:
                if self.ev(x) is False:
                    return False
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return True

    def f_or(self, *xs):
        unk = None
        for x in xs:
            try:
                if self.ev(x) is True:
                    return True
            except Unknown as e:
                unk = e
        if unk:
            raise unk
        return False

    def f_mul(self, x, y):
        return self.num(x) * self.num(y)

    def whole(self, n):
        if not -1 << 62 < n < 1 << 62:
            raise Unknown('size')
        return n

    def f_Div(self, x, y):
        x, y = self.num(x), self.num(y)
        if y < 1 or x < 0:
            raise Unknown('division')
        return x // y

    def f_Rem(self, x, y):
        x, y = self.num(x), self.num(y)
        if y < 1 or x < 0:
            raise Unknown('division')
        return x % y

    def f_Shl(self, x, y):
        x, y = self.num(x), self.num(y)
        if not 0 <= y < 63:
            raise Unknown('size')
        return self.whole(x << y)

    def f_Shr(self, x, y):
        x, y = self.num(x), self.num(y)
        if not 0 <= y < 63:
            raise Unknown('size')
        return x >> y

    def f_sum(self, c):
        return sum(self.coll(c))

    def f_count(self, s):
        # cases that add nothing are left out of the summary
        old, self.sparse = self.sparse, True
        try:
            out = []
            self.seg(s, out)
            return len(out)
        finally:
            self.sparse = old

    def f_chars(self, s):
        return [Ch(c) for c in text(self.ev(s))]

    def f_chstr(self, c):
        return text(self.ev(c))

    def pattern(self, p):
        """a pattern as (literal text, None) or (None, test on a character)"""
        if p[0] == 'fn' and p[2].endswith('is_whitespace'):
            return None, lambda ch: ch in WS
        if p[0] in ('fn', 'clo'):
            raise Unknown('pattern')
        if p[0] == 'app' and p[1] == 'charpat':
            q = p[2][0]

            return None, lambda ch: self.at_char(q, ch)
        v = self.ev(p)
        if isinstance(v, list):
            cs = [str(x) for x in v]
            return None, lambda ch: ch in cs
        return text(v), None

    def at_char(self, q, ch):
        """does a test on characters (over the collection ?ch) hold for a character"""
        e = type(self)(self.loops, dict(self.sym), limit=self.fuel)
        for n in ('lib', 'opaque', 'args_'):
            if n in self.__dict__:
                setattr(e, n, getattr(self, n))
        e.bv.update(self.bv)
        e.sym[mk('sym', '?ch')] = [Ch(ch)]
        return e.find(q) is not None

    def f_contains(self, s, p):
        if s[0] in ('seq', 'slice') or not isinstance(self.ev(s), str):
            return any(self.equal(x, self.ev(p)) for x in self.coll(s))
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        return lit in x if fn is None else any(fn(c) for c in x)

    def f_starts_with(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        return x.startswith(lit) if fn is None else bool(x) and fn(x[0])

    def f_ends_with(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        return x.endswith(lit) if fn is None else bool(x) and fn(x[-1])

    def f_trim(self, s):
        return text(self.ev(s)).strip(WS)

    def f_trim_start(self, s):
        return text(self.ev(s)).lstrip(WS)

    def f_trim_end(self, s):
        return text(self.ev(s)).rstrip(WS)

    def f_trim_end_matches(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is not None:
            while x and fn(x[-1]):
                x = x[:-1]
            return x
        while lit and x.endswith(lit):
            x = x[:-len(lit)]
        return x

    def f_trim_start_matches(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is not None:
            while x and fn(x[0]):
                x = x[1:]
            return x
        while lit and x.startswith(lit):
            x = x[len(lit):]
        return x

    def f_strip_prefix(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is None and x.startswith(lit):
            return x[len(lit):]
        raise Unknown('prefix')

    def f_strip_suffix(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is None and lit and x.endswith(lit):
            return x[:-len(lit)]
        raise Unknown('suffix')

    def f_split(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is None:
            if not lit:
                raise Unknown('split')
            return x.split(lit)
        out = ['']
        for c in x:
            if fn(c):
                out.append('')
            else:
                out[-1] += c
        return out

    def f_split_whitespace(self, s):
        return [w for w in self.f_split_ws(text(self.ev(s))) if w]

    def f_split_ws(self, x):
        out = ['']
        for c in x:
            if c in WS:
                out.append('')
            else:
                out[-1] += c
        return out

    def f_lines(self, s):
        x = text(self.ev(s))
        r = x.split('\n')
        if r and r[-1] == '':
            r.pop()
        return [l[:-1] if l.endswith('\r') else l for l in r]

    def f_join(self, c, sep):
        return text(self.ev(sep)).join(text(x) for x in self.coll(c))

    def f_rev(self, c):
        return self.coll(c)[::-1]

    def f_enumerate(self, c):
        return [('tup', i, x) for i, x in enumerate(self.coll(c))]

    def f_replace(self, s, a, b):
        lit, fn = self.pattern(a)
        if fn is not None or not lit:
            raise Unknown('replace')
        return text(self.ev(s)).replace(lit, text(self.ev(b)))

    def f_repeat(self, s, n):
        return text(self.ev(s)) * self.num(n)

    def f_is_whitespace(self, c):
        return text(self.ev(c)) in WS

    def f_is_ascii_digit(self, c):
        return text(self.ev(c)) in '0123456789'

    def f_code(self, c):
        return ord(text(self.ev(c)))

    def f_is_ascii(self, c):
        return text(self.ev(c)).isascii()

    def f_is_numeric(self, c):
        return text(self.ev(c)).isnumeric()

    def f_is_alphabetic(self, c):
        return text(self.ev(c)).isalpha()

    def f_is_alphanumeric(self, c):
        x = text(self.ev(c))
        return x.isalpha() or x.isnumeric()

    def f_is_ascii_alphanumeric(self, c):
        x = text(self.ev(c))
        return x.isascii() and x.isalnum()

    def f_is_ascii_alphabetic(self, c):
        x = text(self.ev(c))
        return x.isascii() and x.isalpha()

    def f_is_ascii_whitespace(self, c):
        return text(self.ev(c)) in ' \t\n\r\x0c'

    def f_is_control(self, c):
        return ord(text(self.ev(c))) < 32 or 127 <= ord(text(self.ev(c))) < 160

    def f_is_ascii_hexdigit(self, c):
        return text(self.ev(c)) in '0123456789abcdefABCDEF'

    def f_is_ascii_punctuation(self, c):
        x = text(self.ev(c))
        return x.isascii() and x.isprintable() and not x.isalnum() and x != ' '

    def f_is_digit(self, c, base=None):
        b = 10 if base is None else self.num(base)
        return text(self.ev(c)).lower() in '0123456789abcdefghijklmnopqrstuvwxyz'[:b]

    def f_to_digit(self, c, base):
        n = '0123456789abcdefghijklmnopqrstuvwxyz'[:self.num(base)].find(text(self.ev(c)).lower())
        return ('adt', OPT, 1, [n]) if n >= 0 else ('adt', OPT, 0, [])

    def f_int2char(self, n):
        return Ch(chr(self.num(n)))

    def f_popped(self, s):
        return text(self.ev(s))[:-1]

    def f_strfrom(self, s, lo):
        x = text(self.ev(s))
        return self.cut(x, self.num(lo), len(x.encode()))

    def f_insert_str(self, s, i, v):
        x, n = text(self.ev(s)), self.num(i)
        return self.cut(x, 0, n) + text(self.ev(v)) + self.cut(x, n, len(x.encode()))

    def extreme(self, c, pick):
        v = self.coll(c)
        if not v or not (all(isinstance(x, int) for x in v) or all(isinstance(x, str) for x in v)):
            raise Unknown('extreme of these')
        return pick(v)

    def f_max(self, c):
        return self.extreme(c, max)

    def f_min(self, c):
        return self.extreme(c, min)

    def f_swap(self, c, i, j):
        v = list(self.coll(c))
        a, b = self.num(i), self.num(j)
        v[a], v[b] = v[b], v[a]
        return v

    def f_dedup(self, c):
        out = []
        for x in self.coll(c):
            if not out or not self.equal(out[-1], x):
                out.append(x)
        return out

    def f_sort(self, c):
        v = self.coll(c)
        return sorted(v) if v and all(isinstance(x, str) for x in v) or all(isinstance(x, int) for x in v) else self.no('sort')

    f_sort_unstable = f_sort

    def no(self, what):
        raise Unknown(what)

    def f_samevariant(self, a, b):
        x, y = self.ev(a), self.ev(b)
        return x[2] == y[2]

    def f_lastchar(self, s):
        x = text(self.ev(s))
        if not x:
            raise Unknown('last')
        return Ch(x[-1])

    def f_display(self, x):
        v = self.ev(x)
        if isinstance(v, str):
            return str(v)
        if isinstance(v, int) and not isinstance(v, bool):
            return str(v)
        raise Unknown('display')

    def f_char_indices(self, s):
        x = text(self.ev(s))
        out, n = [], 0
        for ch in x:
            out.append(('tup', n, Ch(ch)))
            n += len(ch.encode())
        return out

    def f_bytes(self, s):
        return list(text(self.ev(s)).encode())

    def f_split_ascii_whitespace(self, s):
        return text(self.ev(s)).split()

    def f_split_once_l(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is None and lit and lit in x:
            return x[:x.index(lit)]
        raise Unknown('split_once')

    def f_split_once_r(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is None and lit and lit in x:
            return x[x.index(lit) + len(lit):]
        raise Unknown('split_once')

    def f_find(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        for i, ch in enumerate(x):
            if fn(ch) if fn is not None else lit and x.startswith(lit, i):
                return len(x[:i].encode())
        raise Unknown('find')

    def f_rfind(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        for i in range(len(x) - 1, -1, -1):
            if fn(x[i]) if fn is not None else lit and x.startswith(lit, i):
                return len(x[:i].encode())
        raise Unknown('rfind')

    def f_split_terminator(self, s, p):
        r = self.f_split(s, p)
        return r[:-1] if r and r[-1] == '' else r

    def f_split_inclusive(self, s, p):
        x = text(self.ev(s))
        lit, fn = self.pattern(p)
        if fn is not None or not lit:
            raise Unknown('split_inclusive')
        r = [y + lit for y in x.split(lit)]
        r[-1] = r[-1][:-len(lit)]
        return r if r[-1] else r[:-1]

    def f_rsplit(self, s, p):
        return self.f_split(s, p)[::-1]

    def f_trim_matches(self, s, p):
        lit, fn = self.pattern(p)
        x = text(self.ev(s))
        test = fn if fn is not None else (lambda ch: ch == lit) if len(lit) == 1 else None
        if test is None:
            raise Unknown('trim_matches')
        while x and test(x[0]):
            x = x[1:]
        while x and test(x[-1]):
            x = x[:-1]
        return x

    def f_to_lowercase(self, s):
        return text(self.ev(s)).lower()

    def f_to_uppercase(self, s):
        return text(self.ev(s)).upper()

    def f_to_ascii_lowercase(self, s):
        v = self.ev(s)
        return type(v)(''.join(x.lower() if x.isascii() else x for x in text(v)))

    def f_to_ascii_uppercase(self, s):
        v = self.ev(s)
        return type(v)(''.join(x.upper() if x.isascii() else x for x in text(v)))

    def f_eq_ignore_ascii_case(self, a, b):
        return self.f_to_ascii_lowercase(a) == self.f_to_ascii_lowercase(b)

    def f_strslice(self, s, lo, hi):
        return self.cut(text(self.ev(s)), self.num(lo), self.num(hi))

    def f_is_char_boundary(self, s, i):
        x, n = text(self.ev(s)), self.num(i)
        b = x.encode()
        return n == len(b) or 0 <= n < len(b) and b[n] & 0xc0 != 0x80

    def f_charslice(self, s, lo, hi):
        return ''.join(self.cut(list(text(self.ev(s))), self.num(lo), self.num(hi)))

    def f_charat(self, s, i):
        x = text(self.ev(s))
        r = self.cut(x, self.num(i), len(x.encode()))
        if not r:
            raise Unknown('out of range')
        return Ch(r[0])

    def f_removechar(self, s, i):
        x, n = text(self.ev(s)), self.num(i)
        r = self.cut(x, n, len(x.encode()))
        return self.cut(x, 0, n) + r[1:]

    # ---- maps, kept in the order of their keys
    def amap(self, t):
        m = self.ev(t)
        if not (isinstance(m, tuple) and m and m[0] == 'map'):
            raise Unknown('map')
        return m[1]

    def f_emptymap(self):
        return ('map', ())

    def f_mapins(self, m, k, v):
        key = self.ev(k)
        d = [x for x in self.amap(m) if x[0] != key]
        return ('map', tuple(sorted(d + [(key, self.ev(v))], key=lambda x: x[0])))

    def f_extended(self, m, items):
        d = dict(self.amap(m))
        for x in self.coll(items):
            if not (isinstance(x, tuple) and len(x) == 3 and x[0] == 'tup'):
                raise Unknown('entry')
            d[x[1]] = x[2]
        return ('map', tuple(sorted(d.items(), key=lambda x: x[0])))

    def stays(self, cases, key, v):
        """does an entry of a map fulfil one of the cases (lists of facts about ?key and ?val)"""
        e = type(self)(self.loops, dict(self.sym), limit=self.fuel)
        for n in ('lib', 'opaque', 'args_'):
            if n in self.__dict__:
                setattr(e, n, getattr(self, n))
        e.bv.update(self.bv)
        e.sym[mk('sym', '?key')], e.sym[mk('sym', '?val')] = key, v
        return any(all([e.fact(f) for f in fs]) for fs in cases[1])

    def f_mapkept(self, m, cases):
        return ('map', tuple(x for x in self.amap(m) if self.stays(cases, *x)))

    def f_mapdel(self, m, k):
        key = self.ev(k)
        return ('map', tuple(x for x in self.amap(m) if x[0] != key))

    def f_mapget(self, m, k):
        key = self.ev(k)
        for a, b in self.amap(m):
            if a == key:
                return ('adt', OPT, 1, [b])
        return ('adt', OPT, 0, [])

    def f_entries(self, m):
        return [('tup', a, b) for a, b in self.amap(m)]

    def f_mapof(self, s):
        d = {}
        for x in self.coll(s):
            d[x[1]] = x[2]
        return ('map', tuple(sorted(d.items(), key=lambda x: x[0])))

    def f_get(self, c, i):
        if i[0] == 'adt' and i[1].split('::')[-1] in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'):
            return self.get_range(self.ev(c), i)
        c, i = self.coll(c), self.num(i)
        return ('adt', OPT, 1, [c[i]]) if 0 <= i < len(c) else ('adt', OPT, 0, [])

    def get_range(self, v, g):
        """v.get(range): nothing where the range does not lie in v"""
        n = len(v.encode()) if isinstance(v, str) else len(v)
        k, a = g[1].split('::')[-1], [self.num(x) for x in g[3]]
        lo = a[0] if k in ('Range', 'RangeFrom', 'RangeInclusive') else 0
        hi = a[-1] + ('Inclusive' in k) if k not in ('RangeFrom', 'RangeFull') else n
        none = ('adt', OPT, 0, [])
        if not lo <= hi <= n:
            return none
        if isinstance(v, str):
            b = v.encode()
            if any(x < n and b[x] & 0xc0 == 0x80 for x in (lo, hi)):
                return none
            return ('adt', OPT, 1, [b[lo:hi].decode()])
        return ('adt', OPT, 1, [v[lo:hi]])

    def f_tail(self, c, n):
        return self.coll(c)[self.num(n):]

    def f_windows(self, c, n):
        c, n = self.coll(c), self.num(n)
        if n < 1:
            raise Unknown('panic')
        return [c[i:i + n] for i in range(len(c) - n + 1)]

    def f_chunks(self, c, n):
        c, n = self.coll(c), self.num(n)
        if n < 1:
            raise Unknown('panic')
        return [c[i:i + n] for i in range(0, len(c), n)]

    def f_revstr(self, s):
        return text(self.ev(s))[::-1]

    def f_range(self, a, b):
        return list(range(self.num(a), self.num(b)))

    def f_rangeincl(self, a, b):
        return list(range(self.num(a), self.num(b) + 1))


class Table:
    """the outcomes of a function for definite arguments"""

    def __init__(self, run, cls=Eval):
        self.run = run
        self.cls = cls
        self.outs = [(o, list(o.facts)) for o in run.outs]

    def at(self, env):
        """(outcomes certain to be the one, outcomes that may be, evaluator)"""
        e = self.cls(self.run.I.loops, env)
        known = {}

        def fact(f):
            r = known.get(f)
            if r is None:
                try:
                    r = e.fact(f)
                except Unknown:
                    r = 'unknown'
                known[f] = r
            return r
        sure, may = [], []
        for o, fs in self.outs:
            s = True
            for f in fs:
                r = fact(f)
                if r is False:
                    break
                if r is not True:
                    s = False
            else:
                (sure if s else may).append(o)
        return sure, may, e

    def why(self, e, outs):
        for o in outs:
            for f in o.facts:
                try:
                    e.fact(f)
                except Unknown as x:
                    return ': ' + str(x)
        return ''

    def one(self, env):
        sure, may, e = self.at(env)
        if len(sure) == 1 and not may:
            return sure[0], e
        raise Unknown('%d outcomes are certain, %d possible%s' % (len(sure), len(may), self.why(e, sure + may)))
