"""Comparing the outcomes of the dataflow analysis with what a rule demands.

A rule is written as a function over the inputs; where the analysed code has not decided a condition
the rule asks about, both cases are examined.  Comparison is three-valued: True, False (the code
demonstrably differs: both sides are fully understood terms) and None (not decidable here).
"""
import os
from .mir import T, mk
from .terms import *
from .facts import St, INF, neg, lt, le, eqi, ge0, and_, or_
from .interp import Interp

OPAQUE_TAGS = ('lv', 'post', 'unk', 'uninit')
VAGUE_APPS = ('overflow', 'un:', 'cast:', 'default:', 'popped', 'truncate', 'fmtspec', 'collect:', 'unmodelled', 'mapof',
              'swap_removed', 'pest:', 'const:')
KNOWN = ('is', 'strip_suffix', 'strip_prefix', 'len', 'range', 'not', 'eq0', 'enumerate', 'eq', 'count', 'join', 'chars', 'chstr', 'ends_with', 'starts_with',
         'contains', 'display', 'rev', 'split', 'trim_end_matches', 'trim_start_matches', 'trim', 'and', 'or', 'ge0', 'call', 'call!1', 'tail',
         'trim_end', 'trim_start', 'replace', 'repeat', 'sum', 'dedup', 'windows', 'chunks', 'is_whitespace', 'mul', 'Additive::zero', 'Rem::rem', 'Rem', 'Div', 'Div::div', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr')


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Differs(Exception):
    """the code demonstrably does something else"""


class Fork(Exception):
    def __init__(self, n):
        self.n = n


class Each:
    """spec item: for every k < n the items fn(D, k)"""

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn


class Seq:
    def __init__(self, *items):
        self.items = list(items)


class Txt:
    def __init__(self, *items):
        self.items = list(items)


class D:
    why = ''
    """decision context: a state plus the choices made so far"""
    definite = False

    def __init__(self, st, prefix, known=()):
        self.st = st.copy()
        self.prefix = prefix
        self.pos = 0
        self.known = known
        self.soft = False
        self.forked = []
        self.fresh = 0
        self.label = []
        self.free = None
        self.example = False
        self.more = []

    def choose(self, n):
        if self.pos < len(self.prefix):
            r = self.prefix[self.pos]
            self.pos += 1
            return r
        raise Fork(n)

    # ---- conditions
    def test(self, c, about=None):
        r = self.st.truth(c)
        if r is not None:
            return r
        want = [True, False][self.choose(2)]
        sts = self.st.assume(c, want)
        if not sts:
            raise Infeasible()
        if len(sts) > 1:
            self.st = sts[self.choose(len(sts))]
        else:
            self.st = sts[0]
        self.forked.append((c, want))
        if about is not None and self.mentions(about, c):
            self.soft = True
        return want

    def mentions(self, about, c):
        for f in self.st.facts_since(None):
            if f[0] == 'b' and f[1] is c:
                continue
            if f[0] == 'b' and c[0] == 'app' and c[1] == 'not' and f[1] is c[2][0]:
                continue
            if f[0] in ('is', 'not') and f[1] is about and not isinstance(f[2], T):
                continue
            if occurs(f, about):
                return True
        return False

    def variant(self, t, n):
        v = self.st.variant(t)
        if v is not None:
            return v
        ex = self.st.excluded(t)
        cand = [i for i in range(n) if i not in ex]
        if not cand:
            raise Infeasible()
        i = cand[self.choose(len(cand))] if len(cand) > 1 else cand[0]
        s = self.st.copy()
        if not s.set_is(t, i):
            raise Infeasible()
        self.st = s
        return i

    def is_variant(self, t, i, n):
        """forks only between i and not i"""
        v = self.st.variant(t)
        if v is not None:
            return v == i
        if i in self.st.excluded(t):
            return False
        s = self.st.copy()
        if self.choose(2) == 0:
            if not s.set_is(t, i):
                raise Infeasible()
            self.st = s
            return True
        if not s.set_not(t, i):
            raise Infeasible()
        self.st = s
        return False

    def first(self, n, fn, exists_about=None):
        """least k < n with fn(D,k): (found, index) using a search the code itself has decided"""
        if self.st.bounds(n)[1] <= 0:
            return False, None
        for c, v in list(self.st.atoms.items()):
            if c[0] != 'pred' or c[1] is not n:
                continue
            if pred_equiv(self, c, fn):
                return v, mk('first', c)
        for c, v in list(self.st.atoms.items()):
            if c[0] == 'pred' and understood(c) and understood(n) and self.st.bounds(sub(c[1], n)) != (0, 0) and pred_equiv(self, c, fn):
                raise Differs('only the first %s of %s entries are searched' % (show(c[1]), show(n)))
        if self.free is not None:
            # inside a refutation: a search that depends on the unexamined entry can come out empty
            k = mk('sym', 'r%d' % self.pos)
            base = self.st.copy()
            if all(occurs(mk(*x.st.facts_since(base)), self.free) for x, r in cases_of(base, lambda x: fn(x, k)) if r):
                return False, None
        if n[0] == 'app' and n[1] == 'len':
            j = self.unlooked(n[2][0])
            if j is not None and self.choose(2) == 0:
                # refutation only: an entry the code never looked at may be the one searched for
                self.free = elem(n[2][0], INT(j))
                if not self.st.set_rng(n, j + 1, INF) or not fn(self, INT(j)):
                    raise Infeasible()
                return True, mk('unk', 'some entry')
        if n[0] == 'app' and n[1] == 'len':
            cands = self.disagreements(n, fn)
            if cands:
                j = self.choose(len(cands) + 1)
                if j < len(cands):
                    # refutation only: the one entry on which the code's search and this one disagree
                    self.st, r = cands[j]
                    self.example = True
                    return r, INT(0) if r else None
        raise Undecided('no search over %s decides this' % show(n))

    def disagreements(self, n, fn):
        """states in which the collection has one entry, and the code's search of it comes out otherwise than the one asked for"""
        out = []
        for c, v in list(self.st.atoms.items()):
            if c[0] != 'pred' or c[1] is not n:
                continue
            sb = Subst({c[2]: INT(0)})
            for want, cases in ((True, c[3]), (False, c[4])):
                for fs in cases if want == v else ():
                    st = self.st.copy()
                    if not st.set_rng(n, 1, 1):
                        continue
                    st = st.add_facts([sb(f) for f in fs])
                    if st is None:
                        continue
                    try:
                        out.extend((x.st, r) for x, r in cases_of(st, lambda x: fn(x, INT(0)), 60) if r != want)
                    except Undecided:
                        pass
        return out[:6]

    def unlooked(self, coll):
        used = set()
        for f in self.st.facts_since(None):
            if not occurs(f, coll):
                continue
            for x in subterms(f):
                if not isinstance(x, T) or not x or not isinstance(x[0], str):
                    continue
                if x[0] == 'elem' and x[1] is coll:
                    if x[2][0] != 'int':
                        return None
                    used.add(x[2][1])
                elif any(y is coll for y in x) and not (x[0] == 'app' and x[1] == 'len'):
                    return None
                elif x[0] == 'app' and x[1] != 'len' and any(y is coll for y in x[2]):
                    return None
        j = 0
        while j in used:
            j += 1
        return j

    def same(self, a, b):
        return match(self, a, b)

    def demand(self, r, why):
        """records a comparison: r True/False/None"""
        self.label.append((r, why))
        return r


class Definite(D):
    """decision context in which every argument has a definite value"""
    definite = True

    def __init__(self, st, e):
        D.__init__(self, st, ())
        self.e = e

    def choose(self, n):
        raise Undecided('a choice')

    def ev(self, t):
        from .concrete import Unknown
        try:
            return self.e.ev(t)
        except Unknown as x:
            raise Undecided(str(x))

    def test(self, c, about=None):
        r = self.ev(c)
        if isinstance(r, tuple) and r and r[0] == 'app' and self.e.opaque is not None:
            return bool(self.e.guess(r, 2))
        if not isinstance(r, bool):
            raise Undecided('no condition')
        return r

    def variant(self, t, n):
        v = self.ev(t)
        if isinstance(v, tuple) and v and v[0] == 'adt':
            return v[2]
        raise Undecided('no variant')

    def is_variant(self, t, i, n):
        return self.variant(t, n) == i

    def count(self, n):
        v = self.ev(n)
        if isinstance(v, bool) or not isinstance(v, int):
            raise Undecided('no number')
        return v

    def first(self, n, fn, exists_about=None):
        for j in range(self.count(n)):
            if fn(self, INT(j)):
                return True, INT(j)
        return False, None

    def items(self, its, out, txt):
        from .concrete import text
        for i in its:
            if isinstance(i, Each):
                for j in range(self.count(i.n)):
                    self.items(as_items(i.fn(self, INT(j))), out, txt)
            elif isinstance(i, (Seq, Txt)):
                self.items(i.items, out, txt)
            elif not txt and i[0] in ('one', 'all', 'each'):
                self.e.seg(i, out)
            elif not txt:
                out.append(self.e.ev(i))
            elif i[0] in ('lit', 'val', 'each', 'rep'):
                self.e.piece(i, out)
            else:
                out.append(text(self.e.ev(i)))
        return out

    def value(self, s, txt=False):
        if isinstance(s, Txt):
            return ''.join(self.items(s.items, [], True))
        if isinstance(s, Seq):
            return self.items(s.items, [], False)
        if isinstance(s, list):
            r = self.items(s, [], txt)
            return ''.join(r) if txt else r
        if s[0] == 'acc':
            return self.items(list(s[1]), [], False)
        return self.e.ev(s)

    def compare(self, a, s, txt=False):
        from .concrete import Unknown
        try:
            x, y = self.value(a, txt), self.value(s, txt)
            if isinstance(x, str) != isinstance(y, str) and (isinstance(x, list) or isinstance(y, list)):
                x, y = (''.join(z) if isinstance(z, list) and all(isinstance(w, str) for w in z) else z for z in (x, y))
            r = self.e.equal(x, y)
        except Unknown as u:
            self.why = str(u)
            return None
        if not r:
            from .witness import plain
            self.why = 'gives %s where %s is demanded' % (plain(x)[:200], plain(y)[:200])
        return bool(r)


def pred_equiv(d, c, fn):
    for want, cases in ((True, c[3]), (False, c[4])):
        for fs in cases:
            st = d.st.copy().add_facts(fs)
            if st is None:
                continue
            try:
                for dd, r in cases_of(st, lambda x: fn(x, c[2])):
                    if r != want:
                        return False
            except Undecided:
                return False
    return True


def cases_of(st, fn, limit=4000):
    """all (D, result) of a decision procedure from state st"""
    work = [()]
    n = 0
    while work:
        pre = work.pop()
        n += 1
        if n > limit:
            raise Undecided('too many cases')
        d = D(st, pre)
        try:
            r = fn(d)
        except Fork as f:
            for i in range(f.n - 1, -1, -1):
                work.append(pre + (i,))
            continue
        except Infeasible:
            continue
        yield d, r


# ---------------------------------------------------------------- understanding
_und = {}


def understood(t, extra=()):
    r = _und.get(t)
    if r is None:
        r = set()
        for x in subterms(t):
            if x[0] in OPAQUE_TAGS:
                r.add('!')
            elif x[0] == 'app' and x[1] not in KNOWN:
                r.add(x[1])
        r = frozenset(r)
        _und[t] = r
    return all(n in EXTRA_KNOWN or n in extra for n in r)


EXTRA_KNOWN = set()


def allow(names):
    EXTRA_KNOWN.update(names)
    for n in list(names):
        for i in range(6):
            EXTRA_KNOWN.add('%s!%d' % (n, i))
        EXTRA_KNOWN.add('out:' + n)


def conj(rs):
    out = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            out = None
    return out


def lit_of(d, t):
    f = d.st.val(t) if t[0] not in ('int', 'str', 'bool', 'chr') else None
    if f is not None and f[0] == 'is' and isinstance(f[1], T):
        return f[1]
    if t[0] == 'app' and t[1] in TRIMS and len(t[2]) == 2:
        # trimming what is not there
        if d.st.truth(app(TRIMS[t[1]], t[2][0], t[2][1])) is False:
            return lit_of(d, t[2][0])
    return t


TRIMS = {'trim_end_matches': 'ends_with', 'trim_start_matches': 'starts_with'}


def match(d, a, s):
    if d.definite:
        return d.compare(a, s)
    if isinstance(s, Seq):
        return match_seq(d, seg_list(a), s.items)
    if isinstance(s, Txt):
        return match_txt(d, pieces_of(a), s.items)
    if a is s:
        return True
    a = lit_of(d, a)
    s = lit_of(d, s)
    if a is s:
        return True
    ka, ks = a[0], s[0]
    lits = ('int', 'str', 'bool', 'chr', 'unit')
    if ka in lits and ks in lits:
        return False
    if ka == 'adt' and ks == 'adt':
        if a[2] != s[2] or len(a[3]) != len(s[3]):
            return False
        return conj(match(d, x, y) for x, y in zip(a[3], s[3]))
    if ka == 'adt' or ks == 'adt':
        x, y = (a, s) if ka == 'adt' else (s, a)
        v = d.st.variant(y)
        if v is None:
            if x[2] in d.st.excluded(y):
                return False
            crate = d.st.I.crate
            vs = crate.variants(x[1])
            if vs is not None and len(vs) == 1:
                v = 0
            else:
                return False if understood(a) and understood(s) and y[0] in ('fld', 'sym', 'elem') else None
        if v != x[2]:
            return False
        return conj(match(d, p, q) for p, q in
                    ((x[3][i], fld(y, v, i)) if ka == 'adt' else (fld(y, v, i), x[3][i]) for i in range(len(x[3]))))
    if ka == 'tup' or ks == 'tup':
        if ka == 'tup' and ks == 'tup':
            if len(a[1]) != len(s[1]):
                return False
            return conj(match(d, x, y) for x, y in zip(a[1], s[1]))
        x, y = (a, s) if ka == 'tup' else (s, a)
        return conj(match(d, p, q) for p, q in
                    ((x[1][i], tfld(y, i)) if ka == 'tup' else (tfld(y, i), x[1][i]) for i in range(len(x[1]))))
    num = ('int', 'lin')
    if ka in num or ks in num:
        df = sub(a, s)
        lo, hi = d.st.bounds(df)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        return False if understood(a) and understood(s) else None
    if ka == 'txt' or ks in ('txt',) or ka == 'str' or ks == 'str':
        return match_txt(d, pieces_of(a), pieces_of(s))
    if ka == 'seq' or ks == 'seq':
        lo, hi = d.st.bounds(sub(length(a), length(s)))
        if lo > 0 or hi < 0:
            return False
        return match_seq(d, seg_list(a), list(segs_of(s)))
    if ka == 'app' and ks == 'app' and a[1] == s[1] and len(a[2]) == len(s[2]):
        r = conj(match(d, x, y) for x, y in zip(a[2], s[2]))
        if r is not False:
            return r
        return False if understood(a) and understood(s) else None
    if ka == 'elem' and ks == 'elem':
        r = conj((match(d, a[1], s[1]), match(d, a[2], s[2])))
        if r is True:
            return True
    if ka == 'fld' and ks == 'fld' and a[2] == s[2] and a[3] == s[3]:
        r = match(d, a[1], s[1])
        if r is True:
            return True
    if ka == 'tfld' and ks == 'tfld' and a[2] == s[2]:
        if match(d, a[1], s[1]) is True:
            return True
    if ka == 'fold' and ks == 'fold' and a[1] is s[1]:
        return None
    if d.st.truth(eqt(a, s)) is True:
        return True
    if understood(a) and understood(s):
        return False
    return None


# ---------------------------------------------------------------- collections
def seg_list(t):
    if t[0] == 'acc':
        segs = list(t[1])
    else:
        segs = list(segs_of(t))
    return segs


def drop_zero(segs):
    return [s for s in segs if not (s[0] == 'one' and s[1][0] == 'app' and s[1][1] == 'Additive::zero')]


def sum_segs(t):
    """numeric total as contributions"""
    c, parts = lin_parts(t)
    out = []
    for x, k in parts.items():
        if k != 1:
            return [one(t)]
        if x[0] == 'app' and x[1] == 'sum':
            out.extend(segs_of(x[2][0]))
        elif x[0] == 'acc':
            out.extend(x[1])
        else:
            out.append(one(x))
    if c:
        out.append(one(INT(c)))
    return out


def as_items(x):
    if isinstance(x, (Seq, Txt)):
        return x.items
    if isinstance(x, (list, tuple)) and not isinstance(x, T):
        return list(x)
    return [x]


def shift_each(s):
    """(first, rest) of a generated segment: k=0 and k+1"""
    n, var, variants = s[1], s[2], s[3]
    s0 = Subst({var: INT(0)})
    s1 = Subst({var: add(var, INT(1))})
    return (mk('each', INT(1), var, s0(variants)),
            rebuild_binder('each', sub(n, INT(1)), var, [mk(*[mk(s1(v[0]), s1(v[1])) for v in variants])], None))


def match_seq(d, segs, items, txt=False):
    if d.definite:
        return d.compare(segs, list(items), txt)
    r = match_seq_(d, segs, items, txt)
    if r is None and not txt and not d.free:
        try:
            w = witness(d, list(segs), list(items))
        except (Undecided, Infeasible, Fork):
            w = None
        if w:
            d.why = w
            return False
    return r


# ---------------------------------------------------------------- small instances
def base(x):
    while x[0] in ('fld', 'elem', 'tfld'):
        x = x[1]
    return x[0] == 'sym' or x[0] == 'app' and x[1] in EXTRA_KNOWN


def witness(d, segs, items):
    """a demonstration that two descriptions of a sequence differ: collections of definite small lengths for which they list different elements"""
    atoms = []

    def flat(its):
        out = []
        for i in its:
            if isinstance(i, Seq):
                out += flat(i.items)
            else:
                out.append(i)
        return out
    items = flat(items)
    for b in [length(s[1]) if s[0] == 'all' else s[1] for s in segs if s[0] in ('all', 'each')] + \
            [i.n if isinstance(i, Each) else length(i[1]) if i[0] == 'all' else i[1] for i in items if isinstance(i, Each) or i[0] in ('all', 'each')]:
        for t in subterms(b):
            if t[0] == 'app' and t[1] == 'len' and t not in atoms:
                if not base(t[2][0]) or not understood(t):
                    return None
                atoms.append(t)
            elif t[0] == 'app' and t[1] != 'len' and t[1] not in EXTRA_KNOWN:
                return None
    if len(atoms) > 4 or any(a is not b and occurs(a, b) for a in atoms for b in atoms):
        return None
    n = len(atoms)
    for vals in [(1,) * n, (2,) * n] + [tuple(2 if j == i else 0 for j in range(n)) for i in range(n)] + [tuple(2 if j == i else 1 for j in range(n)) for i in range(n)]:
        st = d.st.copy()
        if not all(st.set_rng(a, v, v) for a, v in zip(atoms, vals)):
            continue
        sb = Subst(dict((a, INT(v)) for a, v in zip(atoms, vals)))
        for dd, r in cases_of(st, lambda x: differ(x, segs, items, sb), 60):
            if r and not dd.soft:
                return 'with %s: %s' % (', '.join('%s=%d' % (show(a), v) for a, v in zip(atoms, vals)), r)
    return None


def differ(d, segs, items, sb):
    a = expand(d, segs, sb)
    b = expand(d, items, sb)
    if a is None or b is None:
        return None
    for x, y in zip(a, b):
        m = match(d, x, y)
        if m is False:
            return 'lists %s where %s is required' % (show(x)[:200], show(y)[:200] if isinstance(y, T) else 'something else') if understood(x) else None
        if m is None:
            return None
    if len(a) != len(b):
        return 'lists %d elements instead of %d' % (len(a), len(b))
    return None


def expand(d, segs, sb):
    out = []
    for s in segs:
        if isinstance(s, Seq):
            x = expand(d, s.items, sb)
        elif isinstance(s, Each):
            n = sb(s.n)
            x = []
            if n[0] != 'int' or n[1] > 6:
                return None
            for k in range(max(n[1], 0)):
                y = expand(d, as_items(s.fn(d, INT(k))), sb)
                if y is None:
                    return None
                x += y
        elif s[0] == 'one':
            x = [s[1]]
        elif s[0] == 'all':
            n = sb(length(s[1]))
            if n[0] != 'int' or n[1] > 6:
                return None
            x = [elem(s[1], INT(k)) for k in range(n[1])]
        elif s[0] == 'each':
            n = sb(s[1])
            if n[0] != 'int' or n[1] > 6:
                return None
            x = []
            for k in range(max(n[1], 0)):
                sk = Subst({s[2]: INT(k)})
                feas = []
                for fs, sg in s[3]:
                    fs = sk(fs)
                    q = d.st.copy().add_facts(fs)
                    if q is not None:
                        feas.append((q, fs, sg))
                if not feas:
                    raise Infeasible()
                q, fs, sg = feas[d.choose(len(feas))] if len(feas) > 1 else feas[0]
                if not conds_understood(d, fs):
                    return None
                d.st = q
                y = expand(d, sk(sg), sb)
                if y is None:
                    return None
                x += y
        else:
            return None
        if x is None:
            return None
        out += x
    return out


def match_seq_(d, segs, items, txt=False):
    segs = list(segs)
    items = [i for i in items]
    if txt:
        return match_pieces(d, segs, items)
    r = True
    while segs or items:
        if items and isinstance(items[0], Seq):
            items[0:1] = items[0].items
            continue
        if items and isinstance(items[0], T) and items[0][0] == 'all' and not (segs and segs[0] is items[0]):
            c = items[0][1]
            items[0] = Each(length(c), lambda dd, k, c=c: [one(elem(c, k))])
            continue
        if items and isinstance(items[0], T) and items[0][0] == 'each':
            e = items[0]
            items[0] = each_item(e)
            continue
        if items and isinstance(items[0], T) and segs and items[0] is segs[0]:
            items.pop(0)
            segs.pop(0)
            continue
        s = segs[0] if segs else None
        i = items[0] if items else None
        # nothing left on one side: the other must be empty
        if s is None:
            if isinstance(i, Each):
                z = zero(d, i.n)
                if z is True:
                    items.pop(0)
                    continue
                if never_contributes(d, i):
                    items.pop(0)
                    continue
                return False if z is False or empty_never(d, i) else None
            return False
        if s[0] == 'all' and (i is None or isinstance(i, Each) or True):
            c = s[1]
            if i is None or isinstance(i, Each):
                s = mk('each', length(c), BV, [mk((), [one(elem(c, BV))])])
                if fv(c):
                    s = rebuild_raw(length(c), c)
                segs[0] = s
                if i is None:
                    z = zero(d, length(c))
                    if z is True:
                        segs.pop(0)
                        continue
                    return False if understood(c) and z is False else None
            else:
                # a literal item against a whole collection
                return None
        if i is None:
            if s[0] == 'one':
                return False if understood(s) else None
            z = zero(d, s[1])
            if z is True:
                segs.pop(0)
                continue
            return False if understood(s) and z is False else None
        if s[0] == 'one' and isinstance(i, T) and i[0] == 'one':
            m = match(d, s[1], i[1])
            if m is False:
                return False
            if m is None:
                r = None
            segs.pop(0)
            items.pop(0)
            continue
        if s[0] == 'each' and isinstance(i, Each):
            z = match(d, s[1], i.n)
            if z is True:
                m = match_each(d, s, i)
                if m is False:
                    return False
                if m is None:
                    r = None
                segs.pop(0)
                items.pop(0)
                continue
            df = sub(i.n, s[1])
            if df[0] == 'int' and df[1] > 0:
                its = as_items(i.fn(d, INT(0)))
                items[0:1] = its + [Each(sub(i.n, INT(1)), lambda dd, k, f=i.fn: f(dd, add(k, INT(1))))]
                continue
            if zero(d, s[1]) is True:
                segs.pop(0)
                continue
            if zero(d, i.n) is True:
                items.pop(0)
                continue
            return None
        if s[0] == 'one' and isinstance(i, Each):
            z = zero(d, i.n)
            if z is True:
                items.pop(0)
                continue
            lo, hi = d.st.bounds(i.n)
            if lo >= 1:
                its = as_items(i.fn(d, INT(0)))
                items[0:1] = its + [Each(sub(i.n, INT(1)), lambda dd, k, f=i.fn: f(dd, add(k, INT(1))))]
                continue
            if never_contributes(d, i):
                items.pop(0)
                continue
            if len(segs) == 1 and len(items) == 1 and understood(s) and s[1][0] != 'int' and not (s[1][0] == 'app' and s[1][1] in ('count', 'len')):
                d.why = 'one item %s where one is required per element' % show(s[1])[:200]
                return False
            return None
        if s[0] == 'each' and isinstance(i, T) and i[0] == 'one':
            if zero(d, s[1]) is True:
                segs.pop(0)
                continue
            return None
        return None
    return r


BV = mk('bv', 90)


def rebuild_raw(n, c):
    lvl = max(fv(c) | frozenset((0,))) + 50
    v = mk('bv', lvl)
    return mk('each', n, v, [mk((), [one(elem(c, v))])])


def each_item(e):
    n, var, variants = e[1], e[2], e[3]

    def fn(d, k):
        sb = Subst({var: k})
        for fs, segs in variants:
            fs = sb(fs)
            rs = [d.st.truth(fact_cond(f)) for f in fs]
            if all(r is True for r in rs):
                return list(sb(segs))
        feas = []
        for fs, segs in variants:
            q = d.st.copy().add_facts(sb(fs))
            if q is not None:
                feas.append((q, segs))
        if not feas:
            raise Infeasible()
        q, segs = feas[d.choose(len(feas))] if len(feas) > 1 else feas[0]
        d.st = q
        return list(sb(segs))
    return Each(n, fn)


def fact_cond(f):
    k = f[0]
    if k == 'is':
        return app('is', f[1], f[2] if isinstance(f[2], T) else INT(f[2]))
    if k == 'not':
        return neg(app('is', f[1], f[2] if isinstance(f[2], T) else INT(f[2])))
    if k == 'b':
        return f[1] if f[2] else neg(f[1])
    if k == 'ge':
        return ge0(sub(f[1], INT(f[2])))
    if k == 'le':
        return ge0(sub(INT(f[2]), f[1]))
    if k == 'eq':
        return app('eq0', sub(f[1], INT(f[2])))
    raise ValueError(f)


def zero(d, n):
    lo, hi = d.st.bounds(n)
    if lo == hi == 0:
        return True
    if lo > 0:
        return False
    return None


def never_contributes(d, i):
    _fresh[0] += 1
    k = mk('sym', 'k%d' % _fresh[0])
    st = d.st.copy()
    if not st.set_rng(k, 0, INF) or not st.set_rng(sub(sub(i.n, INT(1)), k), 0, INF):
        return True
    return all(not its for dd, its in cases_of(st, lambda x: as_items(i.fn(x, k))))


def empty_never(d, i):
    """does the generated item certainly contribute something for some input consistent with d"""
    st = d.st.copy()
    if not st.set_rng(i.n, 1, INF):
        return False
    for dd, its in cases_of(st, lambda x: as_items(i.fn(x, INT(0)))):
        if its:
            return True
    return False


def ruled_out(st, n, k):
    """does a search over the n elements that found nothing exclude what is known of the k-th one"""
    hits = []
    for c, v in list(st.atoms.items()):
        if c[0] == 'pred' and v is False and c[1] is n:
            sb = Subst({c[2]: k})
            hits += [list(sb(hit)) for hit in c[3]]
    return bool(hits) and excluded(st, hits, [300])


def excluded(st, hits, budget):
    """is there no way in which none of the conjunctions `hits` holds"""
    budget[0] -= 1
    if budget[0] < 0:
        return False
    best = None
    for hit in hits:
        open_ = []
        for f in hit:
            r = st.truth(fact_cond(f))
            if r is False:
                break
            if r is None:
                open_.append(f)
        else:
            if not open_:
                return True
            if best is None or len(open_) < len(best):
                best = open_
    if best is None:
        return False
    # one of the open conditions fails: the first to fail, one after the other
    def rest(s, fs):
        for v, q in s.fork(fact_cond(fs[0])) if fs else ():
            if not (rest(q, fs[1:]) if v else excluded(q, hits, budget)):
                return False
        return True
    return rest(st, best)


_fresh = [1000]


def match_each(d, s, i, pieces=False):
    _fresh[0] += 1
    k = mk('sym', 'k%d' % _fresh[0])
    sb = Subst({s[2]: k})
    res = True
    for fs, segs in s[3]:
        st = d.st.copy()
        if not st.set_rng(k, 0, INF) or not st.set_rng(sub(sub(s[1], INT(1)), k), 0, INF):
            continue
        st = st.add_facts(sb(fs))
        if st is None:
            continue
        got = list(sb(segs))
        for dd, want in cases_of(st, lambda x: as_items(i.fn(x, k))):
            m = match_pieces(dd, got, want) if pieces else match_seq(dd, got, want)
            if m is not True and ruled_out(dd.st, s[1], k):
                continue
            if m is False and (dd.soft or not conds_understood(dd, fs)):
                m = None
            if m is False:
                d.why = 'element case %s: found %s' % (showfacts(fs), ' '.join(show(x) for x in got) or 'nothing')
                return False
            if m is None:
                res = None
    return res


def conds_understood(d, fs):
    return all(understood(f) or is_overflow(f) for f in fs)


# ---------------------------------------------------------------- text
def tok(items):
    out = []
    for x in items:
        if isinstance(x, str):
            if x:
                out.append(('lit', x))
        elif isinstance(x, Txt):
            out.extend(tok(x.items))
        elif isinstance(x, Each):
            out.append(x)
        elif x[0] in ('lit',):
            out.append(('lit', x[1]))
        elif x[0] in ('val', 'each', 'rep'):
            if x[0] == 'val' and x[1][0] in ('txt', 'str'):
                out.extend(tok(pieces_of(x[1])))
            elif x[0] == 'rep' and x[2][0] == 'int':
                out.append(('lit', x[1] * max(x[2][1], 0)))
            elif x[0] == 'rep' and x[2][0] == 'lin' and 0 < x[2][1] < 50:
                out.append(('lit', x[1] * x[2][1]))
                out.append(mk('rep', x[1], add(x[2], INT(-x[2][1]))))
            else:
                out.append(x)
        elif isinstance(x, T):
            out.extend(tok(pieces_of(x)))
        else:
            raise ValueError(x)
    # the same text before and after a repetition of itself is the same
    for i in range(len(out) - 1):
        a, b = out[i], out[i + 1]
        if isinstance(a, T) and a[0] == 'rep' and not isinstance(b, Each) and b[0] == 'lit' and b[1] and b[1] == a[1] * (len(b[1]) // max(len(a[1]), 1)):
            out[i], out[i + 1] = b, a
    return out


def match_txt(d, pieces, items):
    return match_pieces(d, pieces, items)


def is_join(x):
    return isinstance(x, T) and x[0] == 'app' and x[1] == 'join' and len(x[2]) == 2


def expand_join(t):
    """a joined text, piece by piece"""
    c, sep = t[2]
    v = mk('bv', max(fv(t) | frozenset((0,))) + 60)
    el = mk('val', elem(c, v))
    return mk('each', length(c), v, [mk([mk('eq', v, 0)], [el]), mk([mk('ge', v, 1)], [mk('val', sep), el])])


def match_pieces(d, segs, items):
    segs = tok(segs)
    items = tok(items)
    r = True
    guard = 0
    while segs or items:
        guard += 1
        if guard > 400:
            return None
        s = segs[0] if segs else None
        i = items[0] if items else None
        if isinstance(i, T) and i[0] == 'each':
            items[0] = i = each_item(i)
        if isinstance(i, T) and i[0] == 'rep':
            if isinstance(s, T) and s[0] == 'rep' and s[1] == i[1]:
                m = match(d, s[2], i[2])
                if m is not True:
                    return m
                segs.pop(0)
                items.pop(0)
                continue
            items[0] = i = Each(i[2], lambda dd, k, l=i[1]: [l])
        if s is None:
            if isinstance(i, Each):
                z = zero(d, i.n)
                if z is True:
                    items.pop(0)
                    continue
                if never_contributes(d, i):
                    items.pop(0)
                    continue
                return False if empty_never(d, i) else None
            if i[0] == 'val':
                z = zero(d, length(i[1]))
                if z is True:
                    items.pop(0)
                    continue
                return False
            return False
        if s[0] == 'rep':
            s = mk('each', s[2], BV, [mk((), [mk('lit', s[1])])])
            segs[0] = s
        if i is None:
            if s[0] == 'each':
                z = zero(d, s[1])
                if z is True:
                    segs.pop(0)
                    continue
                return False if understood(s) else None
            if s[0] == 'val':
                if zero(d, length(s[1])) is True:
                    segs.pop(0)
                    continue
                return False if understood(s) else None
            return False
        if s[0] == 'lit' and not isinstance(i, Each) and i[0] == 'lit':
            n = min(len(s[1]), len(i[1]))
            if s[1][:n] != i[1][:n]:
                d.why = 'writes %r where %r is required' % (s[1], i[1])
                return False
            for l, x in ((segs, s), (items, i)):
                if len(x[1]) == n:
                    l.pop(0)
                else:
                    l[0] = ('lit', x[1][n:])
            continue
        if s[0] == 'val' and not isinstance(i, Each) and i[0] == 'val':
            m = match(d, s[1], i[1])
            if m is False:
                d.why = 'writes %s where %s is required' % (show(s[1])[:200], show(i[1])[:200])
                return False
            if m is None:
                r = None
            segs.pop(0)
            items.pop(0)
            continue
        if isinstance(i, Each) and s[0] == 'val' and is_join(s[1]):
            segs[0] = expand_join(s[1])
            continue
        if s[0] == 'each' and not isinstance(i, Each) and i[0] == 'val' and is_join(i[1]):
            items[0] = each_item(expand_join(i[1]))
            continue
        if s[0] == 'each' and isinstance(i, Each):
            z = match(d, s[1], i.n)
            if z is True:
                m = match_each(d, s, i, True)
                if m is False:
                    return False
                if m is None:
                    r = None
                segs.pop(0)
                items.pop(0)
                continue
            df = sub(i.n, s[1])
            if df[0] == 'int' and df[1] > 0:
                its = as_items(i.fn(d, INT(0)))
                items[0:1] = tok(its) + [Each(sub(i.n, INT(1)), lambda dd, k, f=i.fn: f(dd, add(k, INT(1))))]
                continue
        if isinstance(i, Each):
            if zero(d, i.n) is True:
                items.pop(0)
                continue
            lo, hi = d.st.bounds(i.n)
            if lo >= 1:
                its = as_items(i.fn(d, INT(0)))
                items[0:1] = tok(its) + [Each(sub(i.n, INT(1)), lambda dd, k, f=i.fn: f(dd, add(k, INT(1))))]
                continue
            return None
        if s[0] == 'each':
            if zero(d, s[1]) is True:
                segs.pop(0)
                continue
            lo, hi = d.st.bounds(s[1])
            if lo >= 1 and understood(s):
                return False if sure_lit(s) and i[0] == 'lit' else None
            return None
        if s[0] == 'val' and is_join(s[1]):
            segs[0] = expand_join(s[1])
            continue
        if i[0] == 'val' and is_join(i[1]):
            items[0] = each_item(expand_join(i[1]))
            continue
        # literal against a value
        sv = lit_of(d, s[1]) if s[0] == 'val' else None
        if sv is not None and sv[0] == 'str':
            segs[0] = ('lit', sv[1]) if sv[1] else None
            if segs[0] is None:
                segs.pop(0)
            continue
        iv = lit_of(d, i[1]) if i[0] == 'val' else None
        if iv is not None and iv[0] == 'str':
            items[0] = ('lit', iv[1]) if iv[1] else None
            if items[0] is None:
                items.pop(0)
            continue
        if s[0] == 'val' and zero(d, length(s[1])) is True:
            segs.pop(0)
            continue
        if i[0] == 'val' and zero(d, length(i[1])) is True:
            items.pop(0)
            continue
        x = s if s[0] == 'val' else i
        d.why = 'writes %s where %s is required' % (show(mk(*s))[:200], show(mk(*i))[:200])
        return False if understood(x[1]) else None
    return r


def sure_lit(s):
    return False


# ---------------------------------------------------------------- analysing functions
class Run:
    def __init__(self, I, outs, body, args):
        self.I, self.outs, self.body, self.args = I, outs, body, args


def analyse(c, body, args=None, opaque=(), env=None, setup=None, kids=None, texts=None, log=None, steps=None, watch=None):
    """runs the dataflow analysis on one function; c: Ctx"""
    I = Interp(c.crate, opaque=set(b.key if not isinstance(b, str) else b for b in opaque))
    I.kids = kids
    I.texts = texts
    I.log = log
    I.watch = watch
    if steps:
        I.max_steps = steps
    if args is None:
        args = default_args(c.crate, body)
    outs = I.run(body, args, env=env, setup=setup)
    outs = [o for o in map(settled, outs) if o is not None]
    c.seen(I, outs)
    return Run(I, outs, body, args)


def settled(o):
    """the outcome with every position that its own conditions fix to one number written as that number; None if the
    conditions then contradict each other"""
    st = o.st
    fixed = {}

    def look(t):
        if not isinstance(t, T) or not t:
            return
        for x in subterms(t):
            if isinstance(x, T) and x and x not in fixed and (x[0] == 'nth' and x[4][0] != 'int' or x[0] == 'elem' and x[2][0] == 'lin') and not fv(x):
                i = x[4] if x[0] == 'nth' else x[2]
                lo, hi = st.bounds(i)
                if lo == hi:
                    fixed[x] = mk('nth', x[1], x[2], x[3], INT(lo)) if x[0] == 'nth' else elem(x[1], INT(lo))
    look(o.ret)
    for v in o.cells.values() if isinstance(o.cells, dict) else o.cells:
        look(v)
    for d in (st.vals, st.atoms):
        for t in d:
            look(t)
    if not fixed:
        return o
    w = Subst(fixed)
    n = st.copy()
    n.vals, n.atoms, n.rng = {}, {}, {}
    for k, v in st.rng.items():
        for t, _ in k:
            if w(t) is not t:
                break
        else:
            n.rng[k] = v
            continue
        f = INT(0)
        for t, c in k:
            f = add(f, w(t), c)
        if not n.set_rng(f, *v):
            return None
    for t, v in st.atoms.items():
        t = w(t)
        if n.atoms.get(t, v) != v:
            return None
        n.atoms[t] = v
    for t, (k, v) in st.vals.items():
        t = w(t)
        for x in ([v] if k == 'is' else v):
            if not (n.set_is(t, x) if k == 'is' else n.set_not(t, x)):
                return None
    n.cells = {k: w(v) if isinstance(v, T) else v for k, v in st.cells.items()}
    o2 = type(o)(n, w(o.ret), {k: w(v) for k, v in o.cells.items()} if isinstance(o.cells, dict) else [w(v) for v in o.cells], o.I)
    return o2


def default_args(crate, body):
    args = []
    for i in range(body.argc):
        t = crate.ty(body.locals[i + 1])
        s = mk('sym', 'a%d' % i)
        if t[0] == 'ref' and t[1]:
            args.append(mk('mut', s))
        elif t[0] == 'param' and t[1] != 'Self' or (t[0] == 'ref' and t[2][0] == 'param' and t[2][1] != 'Self'):
            args.append(mk('fnp', 'a%d' % i))
        else:
            args.append(s)
    return args


def decide(c, rule, construct, run, fn, where='', least=1, pre=None):
    """fn(D, outcome) -> True/False/None or (verdict, message); checks all outcomes"""
    n = tried = 0
    bad = None
    unk = None
    open_ = []
    for o in run.outs:
        was, unk = unk, None
        try:
            for d, r in cases_of(o.st, lambda x: fn(x, o)):
                n += 1
                msg = ''
                if isinstance(r, tuple):
                    r, msg = r
                if r is False and (d.example or not d.soft and not facts_ok(o)) and bad is None:
                    tried += 1
                    env = example(c, run, d) if tried <= 4 else None
                    if env is None:
                        r = None
                        msg = 'not decidable (%s) under %s' % (d.why, showfacts(o.facts)[:300])
                    else:
                        msg += ' | for instance ' + env
                elif r is not False and d.example:
                    r, msg = None, 'no search the code makes decides this'
                elif r is False and (d.soft or not facts_ok(o)):
                    r = None
                    msg = 'not decidable under ' + showfacts(o.facts)[:300]
                if r is False and bad is None:
                    bad = (msg or getattr(d, 'why', '') or 'result differs') + ' | when ' + showfacts(d.st.facts_since(None))[:600] + ' | code gives ' + show(o.ret)[:500]
                elif r is None and unk is None:
                    unk = (msg or getattr(d, 'why', '') or 'not decided') + ' | when ' + showfacts(d.st.facts_since(None))[:300]
        except Undecided as e:
            unk = unk or str(e)
        except Differs as e:
            if facts_ok(o):
                bad = bad or str(e) + ' | when ' + showfacts(o.facts)[:400]
            else:
                unk = unk or str(e)
        if unk is not None:
            open_.append(o)
        unk = was or unk
    if bad is None and open_:
        bad = refute(c, run, open_, fn, pre)
    if bad is not None:
        c.bad(rule, construct, bad, where or run.body.span)
    elif unk is not None:
        c.unknown(rule, construct, unk)
    elif n < least:
        c.unknown(rule, construct, 'only %d outcomes' % n)
    else:
        c.ok(rule, construct, '%d cases' % n)
    return n


def given_of(c, run, about=()):
    if getattr(run, 'given', None) is not None:
        return run.given
    if run.body.kind == 'closure':
        # its parameters, and those of the function around it that it captured
        out = [x for i, a in enumerate(run.args) if a[0] != 'fnp' for x in inside(a[1] if a[0] == 'mut' else a, c.crate.ty(run.body.locals[i + 2]))]
        outer = c.crate.bodies.get(run.body.parent)
        seen = {x for t in about if isinstance(t, T) for x in subterms(t) if isinstance(x, T) and len(x) == 2 and x[0] == 'sym' and x[1][:1] == 'a' and x[1][1:].isdigit()}
        for x in sorted(seen, key=ser):
            n = int(x[1][1:])
            if outer is None or n >= outer.argc or any(x is t for t, _ in out):
                continue
            ty = c.crate.ty(outer.locals[n + 1])
            while ty[0] == 'ref':
                ty = ty[2]
            if ty[0] != 'param':
                out.append((x, ty))
        return out
    return [(a[1] if a[0] == 'mut' else a, c.crate.ty(run.body.locals[i + 1])) for i, a in enumerate(run.args) if a[0] != 'fnp']


def inside(a, ty):
    """what an argument that is given as Some(x) or None leaves open"""
    if a[0] != 'adt' or a[1] != OPT or ty[0] != 'adt':
        return [(a, ty)]
    return [y for x in a[3] for y in inside(x, ty[2])]


def library(c):
    from . import witness
    if not hasattr(c, '_lib'):
        cr = c.crate
        # what a method of a trait calls is looked up in turn
        same = lambda b: [x.key for x in cr.bodies.values() if x.kind == 'fn' and x.key != b.key] if b.trait else []
        c._lib = witness.Library(lambda b: analyse(c, b, opaque=same(b)), Interp(cr).fname, [b for b in cr.bodies.values() if b.kind == 'fn'])
    return c._lib


def refute(c, run, outs, fn, pre=None):
    """definite arguments (for which pre holds) for which what the code does is not what is demanded; None if none was found"""
    import time
    from . import witness
    cr = c.crate
    for o in outs[:8]:
        about = [o.ret] + list(o.cells.values() if isinstance(o.cells, dict) else o.cells)
        given = given_of(c, run, about + list(o.facts))
        left = c.patience
        if left <= 0:
            return None
        t0 = time.process_time()
        said, why, runs = [], {}, []

        def goal(e):
            d = Definite(o.st, e)
            if os.environ.get('VP_REFUTE'):
                runs.append(repr(sorted((show(k), repr(v)) for k, v in e.args_.items())))
            try:
                if pre is not None and not pre(d):
                    return False
                r = fn(d, o)
            except (Undecided, Infeasible, Differs, Fork) as x:
                why[str(x)] = why.get(str(x), 0) + 1
                return False
            msg = getattr(d, 'why', '')
            if isinstance(r, tuple):
                r, m = r
                msg = msg or m
            if r is False:
                said.append(msg)
            elif r is None:
                why[msg] = why.get(msg, 0) + 1
            return r is False
        try:
            env, w = witness.search(cr, run.I.loops, o.st, o.facts, given, library(c), types=run.I.rtypes, seconds=min(left, 8), goal=goal, about=about)
        except Exception as e:
            env, w = None, repr(e)
        c.patience -= time.process_time() - t0
        if os.environ.get('VP_REFUTE'):
            print('refute', len(runs), len(set(runs)), env is not None, w, sorted(why.items(), key=lambda x: -x[1])[:3], '%.1f' % (time.process_time() - t0))
        if env is not None:
            return '%s | for %s | code gives %s' % (said[-1] if said else 'differs', witness.shown(env), show(o.ret)[:300])
    return None


def example(c, run, d, seconds=6):
    """definite arguments under which every condition holds; None if none was found"""
    from . import witness
    cr = c.crate
    given = given_of(c, run, [o.ret for o in run.outs] + list(d.st.facts_since(None)))
    library(c)
    try:
        env, why = witness.search(cr, run.I.loops, d.st, d.st.facts_since(None), given, c._lib, types=run.I.rtypes, seconds=seconds)
    except Exception as e:
        env, why = None, str(e)
    if not env:
        d.why = why
        return None
    return witness.shown(env)


def facts_ok(o):
    """may the code take this path: every condition on it is one the analysis can interpret"""
    return all(understood(f) or is_overflow(f) for f in o.facts)


def is_overflow(f):
    return f[0] == 'b' and isinstance(f[1], T) and any_sub(f[1], lambda x: x[0] == 'app' and isinstance(x[1], str) and x[1].startswith('overflow'))
