"""Arithmetic on given numbers: what a term over one number is for an example of it"""
import math
import struct

from .concrete import RES, Eval, Unknown, parse, text

LIMITS = {}
for _b in (8, 16, 32, 64, 128):
    LIMITS['u%d' % _b] = (0, 2 ** _b - 1)
    LIMITS['i%d' % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
LIMITS['usize'], LIMITS['isize'] = LIMITS['u64'], LIMITS['i64']


def narrow(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


class F:
    """a float of 32 or 64 bits"""

    def __init__(self, x, w):
        self.x = narrow(x) if w == 32 else float(x)
        self.w = w

    def key(self):
        return struct.pack('<d', self.x) if self.x == self.x else b'nan'

    def text(self):
        if self.x != self.x:
            return 'NaN'
        if math.isinf(self.x):
            return 'inf' if self.x > 0 else '-inf'
        return repr(self.x)


def wrap(n, t):
    lo, hi = LIMITS[t]
    return (n - lo) % (hi - lo + 1) + lo


def saturate(n, t):
    lo, hi = LIMITS[t]
    return max(lo, min(hi, n))


def nearest(x):
    """halves away from zero"""
    return math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2.0 ** 52 else x


class Num(Eval):
    def ev_(self, t):
        if t[0] == 'float':
            b = t[1]
            if b < 0:
                b += 2 ** 64
            w = self.width if b == 0 else 64 if b >= 2 ** 32 else 32
            return F(struct.unpack('<d', struct.pack('<Q', b))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', b))[0], w)
        return super().ev_(t)

    def f_display(self, x):
        v = self.ev(x)
        return v.text() if isinstance(v, F) else super().f_display(x)

    f_debug = f_display

    def equal(self, x, y):
        if isinstance(x, F) or isinstance(y, F):
            if not (isinstance(x, F) and isinstance(y, F)):
                raise Unknown('comparison')
            return x.x == y.x
        return super().equal(x, y)

    def pair(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, F) and isinstance(y, F):
            return x, y
        raise Unknown('no floats')

    def f_fAdd(self, a, b):
        x, y = self.pair(a, b)
        return F(x.x + y.x, x.w)

    def f_fSub(self, a, b):
        x, y = self.pair(a, b)
        return F(x.x - y.x, x.w)

    def f_fMul(self, a, b):
        x, y = self.pair(a, b)
        return F(x.x * y.x, x.w)

    def f_fLt(self, a, b):
        x, y = self.pair(a, b)
        return x.x < y.x

    def f_fLe(self, a, b):
        x, y = self.pair(a, b)
        return x.x <= y.x

    def f_fGt(self, a, b):
        x, y = self.pair(a, b)
        return x.x > y.x

    def f_fGe(self, a, b):
        x, y = self.pair(a, b)
        return x.x >= y.x

    def f_Div(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, F) and isinstance(y, F) and y.x:
            return F(x.x / y.x, x.w)
        x, y = self.whole(x), self.whole(y)
        if not y:
            raise Unknown('division')
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q

    def f_Rem(self, a, b):
        x, y = self.ev(a), self.ev(b)
        if isinstance(x, F) and isinstance(y, F) and y.x and math.isfinite(x.x):
            return F(math.fmod(x.x, y.x), x.w)
        x, y = self.whole(x), self.whole(y)
        if not y:
            raise Unknown('division')
        r = abs(x) % abs(y)
        return r if x >= 0 else -r

    def f_Neg(self, a):
        x = self.ev(a)
        return F(-x.x, x.w) if isinstance(x, F) else -self.whole(x)

    def whole(self, x):
        if isinstance(x, bool) or not isinstance(x, int):
            raise Unknown('no whole number')
        return x

    def app(self, t):
        n, a = t[1], t[2]
        if n.startswith('parse:f'):
            r = parse(n[6:], text(self.ev(a[0])))
            return ('adt', r[1], r[2], [F(float(v[1]), int(n[7:])) if v[0] == 'float' else v for v in r[3]])
        if n.startswith('cast:'):
            return self.cast(self.ev(a[0]), n[5:])
        if n == 'From::from' and len(a) == 1:
            return self.ev(a[0])
        ty, _, m = n.rpartition('::')
        if ty in ('f32', 'f64'):
            return self.float_fn(m, [self.ev(x) for x in a])
        if ty in LIMITS and m == 'from_str_radix' and len(a) == 2:
            x, k = text(self.ev(a[0])), self.num(a[1])
            lo, hi = LIMITS[ty]
            digits = '0123456789abcdefghijklmnopqrstuvwxyz'[:k]
            body = x[1:] if x[:1] == '+' or x[:1] == '-' and lo < 0 else x
            if body and all(ch in digits for ch in body.lower()) and body.isascii():
                n = int(body, k) * (-1 if x[0] == '-' else 1)
                if lo <= n <= hi:
                    return ('adt', RES, 0, [n])
            return ('adt', RES, 1, [('error',)])
        if ty in LIMITS:
            return self.int_fn(ty, m, [self.whole(self.ev(x)) for x in a])
        return super().app(t)

    def cast(self, x, t):
        if t in ('f32', 'f64'):
            return F(x.x if isinstance(x, F) else float(self.whole(x)), int(t[1:]))
        if t not in LIMITS:
            raise Unknown('cast to ' + t)
        if isinstance(x, F):
            if x.x != x.x:
                return 0
            lo, hi = LIMITS[t]
            return lo if x.x <= lo else hi if x.x >= hi else int(x.x)
        return wrap(self.whole(x), t)

    def float_fn(self, m, a):
        if not a or not all(isinstance(x, F) for x in a):
            raise Unknown(m)
        x, w = a[0].x, a[0].w
        one = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': nearest}
        if len(a) == 1:
            if m in ('is_nan', 'is_finite', 'is_infinite'):
                return {'is_nan': math.isnan, 'is_finite': math.isfinite, 'is_infinite': math.isinf}[m](x)
            if m in ('is_sign_negative', 'is_sign_positive'):
                return (math.copysign(1, x) < 0) == (m == 'is_sign_negative')
            if m == 'abs':
                return F(abs(x), w)
            if m in one and math.isfinite(x):
                return F(math.copysign(one[m](x), x), w)
            if m == 'fract' and math.isfinite(x):
                return F(x - math.trunc(x), w)
            if m in one:
                return F(x, w)
        if m in ('max', 'min') and len(a) == 2:
            xs = [y.x for y in a if y.x == y.x]
            return F((max if m == 'max' else min)(xs) if xs else math.nan, w)
        if m == 'clamp' and len(a) == 3:
            return F(x if x != x else min(max(x, a[1].x), a[2].x), w)
        if m in ('to_string',):
            return a[0].text()
        raise Unknown(m)

    def int_fn(self, ty, m, a):
        op, _, f = m.partition('_')
        ops = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}
        if op in ('wrapping', 'saturating'):
            fit = wrap if op == 'wrapping' else saturate
            if f in ops and len(a) == 2:
                return fit(ops[f](*a), ty)
            if f in ('abs', 'neg') and len(a) == 1:
                return fit(abs(a[0]) if f == 'abs' else -a[0], ty)
        if m in ('max', 'min'):
            return (max if m == 'max' else min)(a)
        if m == 'clamp' and len(a) == 3:
            return min(max(a[0], a[1]), a[2])
        if m == 'unsigned_abs':
            return abs(a[0])
        if m == 'signum':
            return (a[0] > 0) - (a[0] < 0)
        raise Unknown(m)


def examples(t):
    """numbers of a type at which writing them could go wrong"""
    if t[0] == 'f':
        w = int(t[1:])
        xs = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 2.5, -7.25, 1 / 3, 1e-7, 1.17549435e-38, 123456.789, 16777217.0, 1e9, 1e10, 1e16, -1e16, 12345678901234567.0,
              1e20, 3.4e38, math.inf, -math.inf, math.nan, 1e-45, 7.0, 1e15 + 0.3]
        if w == 64:
            xs += [2.0 ** 53, 2.0 ** 53 - 1, 2.0 ** 63, -2.0 ** 63, 2.0 ** 64, 2.0 ** 127, 1e300, 1.7976931348623157e308, 5e-324, 1e-300, 0.1 + 0.2]
        return [F(x, w) for x in xs]
    lo, hi = LIMITS[t]
    r = {lo, lo + 1, hi, hi - 1, 0, 1, 2, 7, 9, 10, 42, 99, 100, 127}
    for b in (7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127):
        for k in (-1, 0, 1):
            r |= {2 ** b + k, -2 ** b + k}
    for k in range(1, 39):
        r |= {10 ** k, 10 ** k + 1, -10 ** k, 3 * 10 ** k + 5}
    return sorted(x for x in r if lo <= x <= hi)


def read(s, t):
    """the number a text stands for, or None"""
    import re
    if t[0] == 'f':
        if s in ('NaN', 'inf', '-inf') or re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', s):
            return F(float(s.replace('NaN', 'nan')), int(t[1:]))
        return None
    if re.fullmatch(r'[+-]?\d+', s, re.A):
        n = int(s)
        lo, hi = LIMITS[t]
        return n if lo <= n <= hi and (n != 0 or not s.startswith('-') or lo < 0) else None
    return None


def same(x, y):
    if isinstance(x, F) and isinstance(y, F):
        return x.key() == y.key()
    return x == y


def shown(x):
    return x.text() if isinstance(x, F) else str(x)


TEXTS = ['', '0', '-1', '+5', '007', '-0', '1_000', '0x10', '0b1', '1e3', ' 12', '12 ', '1,5', '\u0663', '127', '128', '255', '256', '300', '-128', '-129', '32767', '32768', '65536',
         '2147483647', '2147483648', '-2147483649', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '18446744073709551615',
         '18446744073709551616', '9' * 38, '9' * 40, '1.5', '1.', '.5', '-.5', '--1', '-', '+', '.', '1.0', '3.0', '16777217', '0.1', '1e400', '1e-400', 'inf', '-inf', 'nan', 'NaN', 'infinity',
         '.inf', '.nan', '1f', '1u8', '12abc', 'a', 'true', 'null', '~', '1 2', '1:2', '9007199254740993', '1e16', '123456789.123456789', '0.30000000000000004', '1E5', '1e+5']


def meant(s, t):
    """what reading a text as a number of a type may hand over: {float width or 0: value}, empty where it is no number at all"""
    if t[0] == 'f':
        r = {}
        for w in (32, 64):
            v = parse('f%d' % w, s)
            if v[2] == 0 and w >= int(t[1:]):
                r[w] = F(float(v[3][0][1]), w)
        return r
    for k in ('i128', 'u128'):
        v = parse(k, s)
        if v[2] == 0:
            return {0: v[3][0]}
    return {}
