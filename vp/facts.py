"""Abstract state: cells holding terms plus branch facts (variants, difference bounds, atoms)."""
from .mir import T, mk
from .terms import *

INF = float('inf')
# terms that may be negative
SIGNED = ('parse_signed', 'cast_signed')


class St:
    __slots__ = ('cells', 'vals', 'atoms', 'rng', 'I')

    def __init__(self, I):
        self.I = I
        self.cells = {}
        self.vals = {}
        self.atoms = {}
        self.rng = {}

    def copy(self):
        s = St.__new__(St)
        s.I = self.I
        s.cells = dict(self.cells)
        s.vals = dict(self.vals)
        s.atoms = dict(self.atoms)
        s.rng = dict(self.rng)
        return s

    def val(self, t):
        f = self.vals.get(t)
        if f is None and t[0] in ('elem', 'fld', 'tfld'):
            return nth_fact(t)
        return f

    # ---- variants / literal values
    def variant(self, t):
        """known variant index of t or None"""
        if t[0] == 'adt':
            return t[2]
        if t[0] == 'upd':
            return self.variant(t[1])
        f = self.val(t)
        if f is not None and f[0] == 'is':
            return f[1]
        return None

    def excluded(self, t):
        f = self.val(t)
        if f is not None and f[0] == 'not':
            return f[1]
        return frozenset()

    def set_is(self, t, v):
        f = self.val(t)
        if f is not None:
            if f[0] == 'is':
                return f[1] == v if not isinstance(v, T) else f[1] is v
            if v in f[1]:
                return False
        self.vals[t] = ('is', v)
        if isinstance(v, T) and v[0] == 'str':
            return self.set_rng(app('len', t), len(v[1].encode()), len(v[1].encode()))
        return True

    def set_not(self, t, v):
        f = self.val(t)
        if f is None:
            s = frozenset((v,))
        elif f[0] == 'is':
            return f[1] != v if not isinstance(v, T) else f[1] is not v
        else:
            s = f[1] | {v}
        n = self.I.nvariants.get(t)
        if n is not None and not isinstance(v, T):
            left = [i for i in range(n) if i not in s]
            if not left:
                return False
            if len(left) == 1:
                self.vals[t] = ('is', left[0])
                return True
        self.vals[t] = ('not', s)
        return True

    # ---- linear constraints
    def interval(self, key):
        """bounds on a linear form (T of (term,coef)) with normalised sign"""
        lo, hi = self.rng.get(key, (-INF, INF))
        dlo = dhi = 0
        parts = list(key)
        if len(parts) == 1 and parts[0][1] == 1:
            t = parts[0][0]
            if self.natural(t):
                lo = max(lo, self.atleast(t))
            return lo, hi
        for t, c in parts:
            k1 = mk(*[mk(t, 1)])
            l, h = self.rng.get(k1, (-INF, INF))
            if self.natural(t):
                l = max(l, self.atleast(t))
            if c > 0:
                dlo += c * l
                dhi += c * h
            else:
                dlo += c * h
                dhi += c * l
        return max(lo, dlo), min(hi, dhi)

    def natural(self, t):
        if t[0] == 'app' and t[1] in SIGNED:
            return False
        return True

    def atleast(self, t):
        if t[0] == 'app' and t[1] == 'len':
            c = t[2][0]
            if c[0] == 'app' and c[1] in ('split', 'chstr'):
                return 1
            if c[0] == 'txt':
                return sum(len(x[1].encode()) for x in c[1] if x[0] == 'lit')
        return 0

    @staticmethod
    def linkey(d):
        """-> (const, sign, key)"""
        c, parts = lin_parts(d)
        ts = sorted(parts, key=ser)
        s = 1 if parts[ts[0]] > 0 else -1
        return c, s, mk(*[mk(t, parts[t] * s) for t in ts])

    def set_rng(self, t, lo, hi):
        c, s, key = self.linkey(t) if t[0] != 'int' else (t[1], 1, None)
        if key is None:
            return lo <= c <= hi
        if s > 0:
            lo, hi = lo - c, hi - c
        else:
            lo, hi = c - hi, c - lo
        l, h = self.interval(key)
        nl, nh = max(l, lo), min(h, hi)
        if nl > nh:
            return False
        if (nl, nh) != self.rng.get(key):
            base = self.rng.get(key, (-INF, INF))
            self.rng[key] = (max(base[0], lo), min(base[1], hi))
        # transitive: one step through shared terms
        return True

    def bounds(self, d):
        if d[0] == 'int':
            return d[1], d[1]
        c, s, key = self.linkey(d)
        lo, hi = self.interval(key)
        if s < 0:
            lo, hi = -hi, -lo
        lo, hi = lo + c, hi + c
        if lo < 0:
            # one transitive step: d = (d - e) + e for known e with shared leading term
            dk = dict((t, k) for t, k in lin_parts(d)[1].items())
            if len(dk) == 2:
                for key2, (l2, h2) in self.rng.items():
                    if len(key2) != 2:
                        continue
                    for sg, l in ((1, l2), (-1, -h2)):
                        if l == -INF:
                            continue
                        e = {t: k * sg for t, k in key2}
                        if any(dk.get(t) == k for t, k in e.items()):
                            r = dict(dk)
                            for t, k in e.items():
                                r[t] = r.get(t, 0) - k
                            rt = lin_make(c, r)
                            if rt[0] == 'int':
                                lo = max(lo, l + rt[1])
                            else:
                                c3, s3, k3 = self.linkey(rt)
                                if len(k3) <= 2 and k3 is not key:
                                    l3, h3 = self.interval(k3)
                                    if s3 < 0:
                                        l3, h3 = -h3, -l3
                                    lo = max(lo, l + l3 + c3)
        return lo, hi

    # ---- conditions
    def truth(self, c):
        k = c[0]
        if k == 'bool':
            return c[1]
        if k == 'app':
            n = c[1]
            a = c[2]
            if n == 'not':
                r = self.truth(a[0])
                return None if r is None else not r
            if n == 'is':
                t, v = a
                v = v[1] if v[0] == 'int' else v
                if t[0] == 'adt':
                    return t[2] == v
                f = self.val(t)
                if f is not None:
                    if f[0] == 'is':
                        return f[1] == v if not isinstance(v, T) else f[1] is v
                    if v in f[1]:
                        return False
                if isinstance(v, T) and v[0] == 'str':
                    lo, hi = self.bounds(length(t))
                    n0 = len(v[1].encode())
                    if n0 < lo or n0 > hi:
                        return False
                return None
            if n == 'ge0':
                lo, hi = self.bounds(a[0])
                if lo >= 0:
                    return True
                if hi < 0:
                    return False
                return None
            if n == 'eq0':
                lo, hi = self.bounds(a[0])
                if lo == hi == 0:
                    return True
                if lo > 0 or hi < 0:
                    return False
                if self.atoms.get(c) is not None:
                    return self.atoms[c]
                return None
            if n == 'and':
                rs = [self.truth(x) for x in a]
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
                return None
            if n == 'or':
                rs = [self.truth(x) for x in a]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
                return None
            if n in ('contains', 'starts_with', 'ends_with'):
                if a[0][0] == 'str' and a[1][0] == 'str':
                    x, y = a[0][1], a[1][1]
                    return {'contains': y in x, 'starts_with': x.startswith(y), 'ends_with': x.endswith(y)}[n]
                if a[1][0] == 'str' and a[1][1] == '':
                    return True
                r = self.atoms.get(c)
                if r is not None:
                    return r
                if a[1][0] == 'str':
                    lo, hi = self.bounds(length(a[0]))
                    if hi < len(a[1][1].encode()):
                        return False
                    f = self.vals.get(a[0])
                    if f is not None and f[0] == 'is' and f[1][0] == 'str':
                        x, y = f[1][1], a[1][1]
                        return {'contains': y in x, 'starts_with': x.startswith(y), 'ends_with': x.endswith(y)}[n]
                return None
        return self.atoms.get(c)

    def assume(self, c, want):
        """states in which condition c has truth value want"""
        r = self.truth(c)
        if r is not None:
            return [self] if r == want else []
        n = c[1] if c[0] == 'app' else None
        if n == 'not':
            return self.assume(c[2][0], not want)
        if n == 'and' or n == 'or':
            if (n == 'and') == want:
                sts = [self]
                for x in c[2]:
                    sts = [t for s in sts for t in s.assume(x, want)]
                return sts
            out = []
            sts = [self]
            for x in c[2]:
                nxt = []
                for s in sts:
                    out.extend(s.assume(x, want))
                    nxt.extend(s.assume(x, not want))
                sts = nxt
            return out
        s = self.copy()
        if n == 'is':
            t, v = c[2]
            v = v[1] if v[0] == 'int' else v
            return [s] if (s.set_is(t, v) if want else s.set_not(t, v)) else []
        if n == 'ge0':
            d = c[2][0]
            return [s] if (s.set_rng(d, 0, INF) if want else s.set_rng(d, -INF, -1)) else []
        if n == 'eq0':
            d = c[2][0]
            if want:
                return [s] if s.set_rng(d, 0, 0) else []
            lo, hi = s.bounds(d)
            if lo == 0:
                return [s] if s.set_rng(d, 1, INF) else []
            if hi == 0:
                return [s] if s.set_rng(d, -INF, -1) else []
            s.atoms[c] = False
            return [s]
        s.atoms[c] = want
        if want and n in ('contains', 'starts_with', 'ends_with') and c[2][1][0] == 'str':
            if not s.set_rng(length(c[2][0]), len(c[2][1][1].encode()), INF):
                return []
        return [s]

    def fork(self, c):
        r = self.truth(c)
        if r is not None:
            return [(r, self)]
        return [(True, s) for s in self.assume(c, True)] + [(False, s) for s in self.assume(c, False)]

    # ---- facts as terms
    def facts_since(self, base):
        out = []
        for t, f in self.vals.items():
            g = base.vals.get(t) if base else None
            if g == f:
                continue
            if f[0] == 'is':
                out.append(mk('is', t, f[1]))
            else:
                old = g[1] if g is not None and g[0] == 'not' else frozenset()
                for v in f[1] - old:
                    out.append(mk('not', t, v))
        for t, v in self.atoms.items():
            if base and base.atoms.get(t) == v:
                continue
            out.append(mk('b', t, v))
        for key, (lo, hi) in self.rng.items():
            g = base.rng.get(key, (-INF, INF)) if base else (-INF, INF)
            if g == (lo, hi):
                continue
            d = lin_make(0, {x[0]: x[1] for x in key})
            if lo == hi:
                out.append(mk('eq', d, lo))
                continue
            if lo > g[0]:
                out.append(mk('ge', d, lo))
            if hi < g[1]:
                out.append(mk('le', d, hi))
        return mk(*sorted(set(out), key=ser))

    def add_fact(self, f):
        """assume a fact term; list of states (0 or 1)"""
        k = f[0]
        s = self.copy()
        if k == 'is':
            t, v = f[1], f[2]
            if t[0] in ('adt', 'chr', 'str', 'int'):
                return [s] if self.truth(app('is', t, v if isinstance(v, T) else INT(v))) is not False and not (
                    t[0] in ('chr', 'str') and t is not v) else []
            if isinstance(v, T) and t[0] in ('chr', 'str'):
                return [s] if t is v else []
            return [s] if s.set_is(t, v) else []
        if k == 'not':
            t, v = f[1], f[2]
            if t[0] == 'adt':
                return [s] if t[2] != v else []
            if t[0] in ('chr', 'str'):
                return [s] if t is not v else []
            return [s] if s.set_not(t, v) else []
        if k == 'b':
            r = s.assume(f[1], f[2])
            return r[:1]
        if k == 'ge':
            return [s] if s.set_rng(f[1], f[2], INF) else []
        if k == 'le':
            return [s] if s.set_rng(f[1], -INF, f[2]) else []
        if k == 'eq':
            return [s] if s.set_rng(f[1], f[2], f[2]) else []
        raise ValueError(f)

    def add_facts(self, fs):
        s = self
        for f in fs:
            r = s.add_fact(f)
            if not r:
                return None
            s = r[0]
        return s


def neg(c):
    if c[0] == 'bool':
        return FALSE if c[1] else TRUE
    if c[0] == 'app' and c[1] == 'not':
        return c[2][0]
    return app('not', c)


def and_(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else app('and', *out)


def or_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else app('or', *out)


def _nz(d):
    """rewrites lengths of char lists compared with 0 into string lengths"""
    c, p = lin_parts(d)
    if len(p) == 1:
        (t, k), = p.items()
        if t[0] == 'app' and t[1] == 'len' and t[2][0][0] == 'app' and t[2][0][1] in ('chars', 'char_indices') and abs(k) == 1:
            if c == -k or c == 0:
                return lin_make(c, {app('len', t[2][0][2][0]): k})
        if t[0] == 'app' and t[1] == 'len' and t[2][0][0] == 'txt' and abs(k) == 1 and c in (0, -k):
            if any(x[0] == 'lit' for x in t[2][0][1]):
                return lin_make(c, {}) if False else d
    return d


def ge0(d):
    d = _nz(d)
    if d[0] == 'int':
        return TRUE if d[1] >= 0 else FALSE
    return app('ge0', d)


def lt(a, b):
    return ge0(sub(sub(b, a), INT(1)))


def le(a, b):
    return ge0(sub(b, a))


def eqi(a, b):
    d = _nz(sub(a, b))
    if d[0] == 'int':
        return TRUE if d[1] == 0 else FALSE
    c, s, key = St.linkey(d)
    if s < 0:
        d = sub(INT(0), d)
    # the last piece of s.split(c) is empty iff s is empty or ends with c
    p0 = lin_parts(d)
    if p0[0] == 0 and len(p0[1]) == 1:
        (t, k), = p0[1].items()
        if t[0] == 'app' and t[1] == 'len' and t[2][0][0] == 'elem':
            e = t[2][0]
            if e[1][0] == 'app' and e[1][1] == 'split' and len(e[1][2]) == 2 and sub(length(e[1]), e[2]) is INT(1):
                s_, c_ = e[1][2]
                return or_(app('ends_with', s_, c_), eqi(length(s_), INT(0)))
    # lengths of concatenated text are zero iff all pieces are empty
    p = lin_parts(d)
    if p[0] == 0 and len(p[1]) == 1:
        (t, k), = p[1].items()
        if t[0] == 'app' and t[1] == 'len' and t[2][0][0] == 'txt':
            cs = []
            for x in t[2][0][1]:
                if x[0] == 'lit':
                    return FALSE
                if x[0] == 'val':
                    if x[1][0] == 'app' and x[1][1] in ('chstr', 'display'):
                        return FALSE
                    cs.append(eqi(app('len', x[1]), INT(0)))
                elif x[0] == 'rep':
                    cs.append(eqi(x[2], INT(0)))
                else:
                    return app('eq0', d)
            return and_(*cs)
    return app('eq0', d)
