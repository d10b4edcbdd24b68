"""Looks for definite arguments under which the conditions of a path hold.

A path the analysis could not rule out is reported only when all its conditions come out true for some definite values of the
arguments; the conditions are the terms the analysis extracted, evaluated by constant propagation (nothing of the library runs)."""
import random
import zlib
import time
from .mir import T, mk, head
from .terms import *
from .facts import INF
from .concrete import Eval, Unknown, Ch, Table

WORDS = ['', 'a', 'b c', ' ', 'x', 'é', 'aé', 'é b', 'a\n', '\n', 'a\nb', '\n\n', 'k: v', "it's", '"', '[', 'a,b', '#', ' a', 'a ', 'true', '12', '-', '~',
         '\u3000', '日本語', 'é' * 50, 'a' * 95, 'word ' * 25, 'é ' * 50, 'a\r', '\t', '1.5', 'a b  c', ':', '*', '&a', '|', 'a:', 'aaa\n\n', '漢' * 40 + ' ' + 'b' * 20]
# functions that tell texts apart that are nearly the same, or not
CLOSE = {'eq_ignore_ascii_case', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'trim_matches',
         'trim_end_matches', 'trim_start_matches', 'starts_with', 'ends_with', 'contains', 'find', 'rfind', 'strip_prefix', 'strip_suffix', 'strslice', 'strfrom',
         'popped', 'cmp', 'revstr', 'split_whitespace', 'replace'}
# texts that read as numbers, some as the same
DIGITS = ['0', '00', '1', '01', '+1', '-1', '-0', '1.0', '1e0', '1_0']
NUMBERS = [0, 1, 2, 3, 5, 90]


class Here(Eval):
    """conditions inside loops, for definite rounds"""

    def head(self, lid, p):
        rec = self.loops.get(lid)
        if lid not in self.state and rec is not None and rec.k[1] in self.bv:
            return self.pick(self.rounds(lid, self.bv[rec.k[1]]), p)
        return Eval.head(self, lid, p)

    lib = None

    opaque = None         # names of functions whose results may be anything (and how to choose)

    def app(self, t):
        n = t[1]
        try:
            if self.lib is not None and '::' in n and getattr(self, 'f_' + n, None) is None:
                return self.lib.call(self, n, t[2])
            return Eval.app(self, t)
        except Unknown:
            if self.opaque is None or n not in self.opaque:
                raise
            return ('app', n, [self.ev(x) for x in t[2]])

    def ev_(self, t):
        if t[0] == 'fnp' and self.opaque is not None:
            return ('fnp', t[1])
        return Eval.ev_(self, t)

    def guess(self, v, n):
        return zlib.crc32(repr(v).encode()) // 7 % n

    def num(self, t):
        v = self.ev(t)
        if isinstance(v, tuple) and v and v[0] == 'app' and self.opaque is not None:
            return self.guess(v, 3)
        return Eval.num(self, t)

    def fact(self, f):
        if f[0] == 'b' and self.opaque is not None:
            v = self.ev(f[1])
            if isinstance(v, tuple) and v and v[0] == 'app':
                return bool(self.guess(v, 2)) == f[2]
        return Eval.fact(self, f)


class Library:
    """results of the crate's functions for definite arguments, from the outcomes the analysis extracted"""

    def __init__(self, run, name_of, bodies):
        self.run, self.names, self.tables = run, {}, {}
        self.depth = 0
        for b in bodies:
            self.names.setdefault(name_of(b), b)

    def call(self, e, n, args):
        at = None
        if '!' in n:
            n, at = n.rsplit('!', 1)
        b = self.names.get(n)
        if b is None:
            raise Unknown(n)
        if b.key not in self.tables:
            self.tables[b.key] = None
            try:
                self.tables[b.key] = Table(self.run(b), Here)
            except Exception:
                pass
        t = self.tables[b.key]
        if t is None or self.depth > 12:
            raise Unknown(n)
        env = {}
        for x, a in zip(t.run.args, args):
            env[x[1] if x[0] == 'mut' else x] = e.ev(a)
        self.depth += 1
        try:
            e2 = Here(t.run.I.loops, env, limit=30000)
            e2.lib = self
            hit = None
            for o, fs in t.outs:
                if all(e2.fact(f) for f in fs):
                    if hit is not None:
                        raise Unknown('two outcomes of ' + n)
                    hit = o
            if hit is None:
                raise Unknown('no outcome of ' + n)
            return e2.ev(hit.ret if at is None else hit.cells[int(at)])
        finally:
            self.depth -= 1


class Hints:
    """guesses at what the arguments look like: the searches and loops behind the conditions, for a few definite rounds"""

    def __init__(self, st, facts, loops, rnd):
        self.st, self.loops, self.rnd = st.copy(), loops, rnd
        self.alike = {}
        self.n = 0
        firsts = {}
        for f in facts:
            for t in subterms(f):
                if isinstance(t, T) and t and t[0] == 'first':
                    firsts[t] = INT(0)
        self.flat = Subst(firsts)
        todo = list(facts)
        rnd.shuffle(todo)
        for f in todo:
            self.fact(f, 0)

    def fact(self, f, depth):
        self.n += 1
        if self.n > 300 or depth > 6:
            return
        f = self.flat(f)
        if not isinstance(f, T) or not f:
            return
        if f[0] == 'b' and isinstance(f[1], T) and f[1][0] == 'pred':
            self.search(f[1], f[2], depth)
            return
        inner = [t for t in subterms(f) if isinstance(t, T) and t and t[0] in ('fold', 'lastw', 'post', 'pred', 'each', 'nth')]
        for t in inner[:1]:
            if self.rnd.random() < .8:
                self.unroll(t, depth)
        if inner:
            return
        if f[0] == 'b' and f[2] is True and f[1][0] == 'app' and f[1][1] == 'eq':
            a, b = f[1][2]
            if a[0] != 'str' and b[0] != 'str':
                self.join(a, b)
        if f[0] == 'b' and f[2] is True and f[1][0] == 'app' and f[1][1] in ('contains', 'starts_with', 'ends_with') and f[1][2][1][0] not in ('str', 'chr', 'clo'):
            self.join(*f[1][2])
        if fv(f):
            return
        r = self.st.add_facts([f])
        if r is not None:
            self.st = r

    def join(self, a, b):
        a, b = self.root(a), self.root(b)
        if a is not b:
            self.alike[a] = b

    def root(self, t):
        while t in self.alike:
            t = self.alike[t]
        return t

    def least(self, n, k):
        r = self.st.add_facts([mk('ge', n, k)]) if n[0] != 'int' else None
        if r is not None:
            self.st = r

    def search(self, p, found, depth):
        cases = p[3] if found else p[4]
        if not cases or not found and self.rnd.random() < .4:
            return
        self.least(p[1], 1)
        sb = Subst({p[2]: INT(0)})
        for f in self.rnd.choice(cases):
            self.fact(sb(f), depth + 1)

    def unroll(self, t, depth):
        rounds = self.rnd.choice([1, 1, 2])
        if t[0] == 'pred':
            self.search(t, self.rnd.random() < .8, depth)
            return
        if t[0] == 'post':
            rec = self.loops.get(t[1])
            if rec is None or rec.n is None or not rec.backs:
                return
            n, var, cases = self.flat(rec.n), rec.k, [b[0] for b in rec.backs]
        else:
            n, var, cases = t[1], t[2], [v[0] for v in t[3]]
        if not cases or not isinstance(n, T):
            return
        self.least(n, rounds)
        for j in range(rounds):
            sb = Subst({var: INT(j)})
            for f in self.rnd.choice(cases):
                f = sb(f)
                if not any_sub(f, lambda x: x[0] == 'lv'):
                    self.fact(f, depth + 1)


class Values:
    """definite values of a type, chosen to suit what is known on a path"""

    def __init__(self, cr, st, rnd):
        self.cr, self.st, self.rnd = cr, st, rnd

    def make(self, t, ty, depth=0):
        r = self.rnd
        while ty[0] == 'ref':
            ty = ty[2]
        n = ty[1].split('::')[-1] if ty[0] == 'adt' else ''
        if n == 'String' or ty[0] == 'str':
            return self.text(t)
        if ty[0] == 'char':
            return Ch(r.choice('ab \n\'"\u00e9[:'))
        if ty[0] == 'bool' or ty == mk('num', 'bool'):
            return self.st.truth(t) if t is not None and self.st.truth(t) is not None else r.random() < .5
        if ty[0] == 'num':
            if ty[1][:1] == 'f':
                raise Unknown('float')
            if ty[1] == 'char':
                return Ch(r.choice('ab \n\'"\u00e9[:'))
            lo, hi = self.st.bounds(t) if t is not None else (0, INF)
            c = [x for x in (self.numbers if self.numbers and r.random() < .4 else NUMBERS) if lo <= x <= hi] or [int(max(lo, 0)) if hi > 1e9 else int(hi)]
            return r.choice(c)
        if ty[0] == 'tuple':
            return tuple(['tup'] + [self.make(tfld(t, i) if t is not None else None, x, depth) for i, x in enumerate(ty[1:])])
        if n in ('Vec', 'IntoIter') or ty[0] in ('slice', 'array'):
            e = ty[2] if ty[0] == 'adt' else ty[1]
            k = r.choice([0, 1, 1, 2, 3]) if depth < 4 else 0
            if t is not None:
                lo, hi = self.st.bounds(app('len', t))
                k = max(k, int(lo)) if lo > 0 else k
                k = min(k, int(hi)) if hi < 50 else k
            return [self.make(elem(t, INT(i)) if t is not None else None, e, depth + 1) for i in range(min(k, 8))]
        if n in ('HashMap', 'BTreeMap'):
            return ('map', ())
        if n in ('Rc', 'RefCell', 'Arc', 'Box'):
            return self.make(t, ty[2], depth)
        if n == 'Option':
            v = self.st.variant(t) if t is not None else None
            if v is None:
                ex = self.st.excluded(t) if t is not None else ()
                v = r.choice([x for x in (0, 1) if x not in ex] or [0])
                if depth > 4:
                    v = 0
            return ('adt', OPT, v, [self.make(fld(t, 1, 0) if t is not None else None, ty[2], depth + 1)] if v else [])
        if ty[0] == 'adt' and ty[1] in self.cr.adts and self.cr.adts[ty[1]]['local']:
            vs = self.cr.variants(ty[1])
            v = self.st.variant(t) if t is not None else None
            if v is None:
                ex = self.st.excluded(t) if t is not None else ()
                c = [i for i in range(len(vs)) if i not in ex] or list(range(len(vs)))
                if depth > 3:
                    flat = [i for i in c if not any('Vec' in str(self.cr.ty(f[1])) or 'Box' in str(f) for f in vs[i]['f'])]
                    c = flat or c
                v = r.choice(c)
            return ('adt', ty[1], v, [self.make(fld(t, v, i) if t is not None else None, self.cr.ty(f[1]), depth + 1) for i, f in enumerate(vs[v]['f'])])
        raise Unknown('values of ' + str(ty)[:80])

    pool = ()
    numbers = ()
    hints = None

    def text(self, t):
        r = self.rnd
        if t is not None and self.hints is not None and r.random() < .9:
            k = self.hints.root(t)
            if k is not t or k in self.chosen:
                if k not in self.chosen:
                    self.chosen[k] = r.choice(self.pool or WORDS)
                return self.chosen[k]
        if self.pool and r.random() < .6:
            return r.choice(self.pool)
        for _ in range(4):
            s = r.choice(WORDS)
            if t is None:
                return s
            lo, hi = self.st.bounds(app('len', t))
            if lo <= len(s.encode()) <= hi:
                return s
        return s


def free(facts):
    return sorted({v for f in facts for v in fv(f)})


class Climb:
    """definite values changed bit by bit, keeping what makes more conditions true"""
    goal = None
    opaque = None
    words = ()
    numbers = ()

    def __init__(self, cr, st, given, facts, vs, loops, rnd, lib):
        self.cr, self.st, self.given, self.vs, self.loops, self.rnd, self.lib = cr, st, given, vs, loops, rnd, lib
        self.facts = [f for f in facts if not skip(f)]
        self.unknown = None

    def fresh(self):
        self.val = Values(self.cr, self.st, self.rnd)
        self.val.chosen = {}
        self.val.numbers = self.numbers
        if self.rnd.random() < .7:
            h = Hints(self.st, self.facts, self.loops, self.rnd)
            self.val.st, self.val.hints = h.st, h
            self.val.chosen = {h.root(b): self.rnd.choice(WORDS) for b in h.alike.values()}
        self.val.pool = [self.rnd.choice(self.words if self.words and self.rnd.random() < .4 else WORDS) for _ in range(3)]
        if self.close and self.rnd.random() < .5:
            w = self.rnd.choice(['a', 'b c', 'x', 'true', 'k', 'aé'])
            self.val.pool = [w] + self.rnd.sample([w.upper(), w.capitalize(), w + ' ', ' ' + w, w + '\n', w + 'b', 'b' + w, w[:-1], w + w], 2)
        if self.rnd.random() < .5:
            # texts that are alike
            w = self.val.pool[0] or 'a'
            self.val.pool.append(self.rnd.choice([w.swapcase(), w + ' ', ' ' + w, w + 'x', w[:-1]]))
        return {t: self.val.make(t, ty) for t, ty in self.given}, {v: self.rnd.randrange(3) for v in self.vs}

    def score(self, env, js):
        e = Here(self.loops, dict(env), limit=30000)
        e.lib = self.lib
        e.opaque = self.opaque
        e.args_ = env
        e.bv.update(js)
        n = 0
        for f in self.facts:
            try:
                if e.fact(f):
                    n += 1
            except Unknown as x:
                self.unknown = str(x)
            except RecursionError:
                self.unknown = 'depth'
        if self.goal is not None and n == len(self.facts):
            try:
                n += 1 if self.goal(e) else 0
            except RecursionError:
                pass
        return n

    def kids(self, v, t, ty):
        """[(child, term, type, rebuild)]"""
        while ty[0] == 'ref' or ty[0] == 'adt' and ty[1].split('::')[-1] in ('Rc', 'RefCell', 'Arc', 'Box'):
            ty = ty[2]
        out = []
        if isinstance(v, list) and (ty[0] in ('slice', 'array') or ty[0] == 'adt' and len(ty) > 2):
            e = ty[2] if ty[0] == 'adt' else ty[1]
            for i in range(len(v)):
                out.append((v[i], elem(t, INT(i)) if t is not None else None, e, lambda x, i=i: v[:i] + [x] + v[i + 1:]))
        elif isinstance(v, tuple) and v and v[0] == 'tup' and ty[0] == 'tuple':
            for i in range(len(v) - 1):
                out.append((v[i + 1], tfld(t, i) if t is not None else None, ty[1 + i], lambda x, i=i: v[:i + 1] + (x,) + v[i + 2:]))
        elif isinstance(v, tuple) and v and v[0] == 'adt':
            for i in range(len(v[3])):
                ft = ty[2] if v[1] == OPT else self.cr.ty(self.cr.variants(v[1])[v[2]]['f'][i][1])
                out.append((v[3][i], fld(t, v[2], i) if t is not None else None, ft, lambda x, i=i: ('adt', v[1], v[2], v[3][:i] + [x] + v[3][i + 1:])))
        return out

    def change(self, v, t, ty):
        """the value with one of its parts, any of them, made anew; or one item more or fewer"""
        places = []

        def walk(v, t, ty, up):
            places.append((v, t, ty, up))
            for x, xt, xty, re in self.kids(v, t, ty):
                walk(x, xt, xty, lambda y, re=re: up(re(y)))
        walk(v, t, ty, lambda y: y)
        r = self.rnd
        v, t, ty, up = r.choice(places)
        while ty[0] == 'ref':
            ty = ty[2]
        if isinstance(v, list) and ty[0] in ('adt', 'slice', 'array') and r.random() < .7:
            i = r.randrange(len(v) + 1)
            if i < len(v) and r.random() < .5:
                return up(v[:i] + v[i + 1:])
            return up(v[:i] + [self.val.make(None, ty[2] if ty[0] == 'adt' else ty[1], 2)] + v[i:])
        return up(self.val.make(t, ty, 2))

    def run(self, tries, until):
        for _ in range(tries):
            if not self.given:
                raise Unknown('nothing to choose')
            env, js = self.fresh()
            best = self.score(env, js)
            stale = 0
            while stale < 120:
                if best == len(self.facts) + (self.goal is not None):
                    return env
                if time.process_time() > until:
                    return None
                e2, j2 = dict(env), dict(js)
                if js and self.rnd.random() < .15:
                    j2[self.rnd.choice(self.vs)] = self.rnd.randrange(4)
                else:
                    t, ty = self.rnd.choice(self.given)
                    e2[t] = self.change(env[t], t, ty)
                n = self.score(e2, j2)
                if n >= best:
                    env, js = e2, j2
                stale = 0 if n > best else stale + 1
                best = max(best, n)
        return None


def search(cr, loops, st, facts, given, lib=None, any_=None, tries=60, anything=None, types=(), seed=1, seconds=20, goal=None, about=()):
    """given: [(term, type)]; definite values that make every fact true; None if none was found"""
    rnd = random.Random(seed)
    facts = [f for f in facts if not (any_ and any_(f) and not any(g is not f and any_sub(g, lambda x: x is f[1]) for g in facts))]
    vs = free(facts)
    free_ = set()
    for f in facts if anything else ():
        any_sub(f, lambda x: free_.add(x) if x[0] == 'app' and x in types and anything(x[1]) else None)
    given = list(given) + [(t, types[t]) for t in sorted(free_, key=ser)]
    if goal is None:
        given = [(t, ty) for t, ty in given if any(any_sub(f, lambda x: x is t) for f in facts)]
    if not facts and goal is None:
        return {}, ''
    k = Climb(cr, st, given, facts, vs, loops, rnd, lib)
    k.goal = goal
    if goal is not None:
        from .spec import EXTRA_KNOWN
        k.opaque = EXTRA_KNOWN | {'call'}
    k.words, k.numbers = spelled(list(facts) + list(about))
    if any(isinstance(x, T) and x and x[0] == 'app' and x[1].startswith('parse:') for t in list(facts) + list(about) for x in subterms(t)):
        k.words = k.words + DIGITS
    k.close = any(x[0] == 'app' and x[1] in CLOSE for t in list(facts) + list(about) for x in subterms(t) if isinstance(x, T) and x)
    try:
        env = k.run(tries, time.process_time() + seconds)
    except Unknown as e:
        return None, str(e)
    return env, '' if env is not None else k.unknown or 'no values found'


def spelled(ts):
    """texts and numbers made of the ones the terms mention"""
    out, ns = set(), set()
    for t in ts:
        for x in subterms(t):
            if isinstance(x, T) and x and x[0] in ('str', 'chr', 'lit') and isinstance(x[1], (str, int)):
                w = chr(x[1]) if x[0] == 'chr' else x[1]
                if isinstance(w, str) and 0 < len(w) < 12:
                    out.add(w)
            elif isinstance(x, T) and x:
                ns |= {n + i for n in x if isinstance(n, int) and not isinstance(n, bool) and 5 < abs(n) < 3000 for i in (-1, 0, 1)}
    out = sorted(out)[:40]
    return [y for w in out for y in (w, 'a' + w, w + 'a', 'a' + w + 'b', w + w)], sorted(abs(n) for n in ns)[:30]


def skip(f):
    return f[0] == 'b' and isinstance(f[1], T) and f[1][0] == 'app' and f[1][1].startswith('overflow:')


def shown(env):
    return ', '.join('%s = %s' % (show(t), plain(v)) for t, v in env.items())[:400]


def plain(v):
    if isinstance(v, tuple) and v and v[0] == 'adt':
        return '%s#%d(%s)' % (v[1].split('::')[-1], v[2], ', '.join(plain(x) for x in v[3]))
    if isinstance(v, tuple) and v and v[0] == 'tup':
        return '(%s)' % ', '.join(plain(x) for x in v[1:])
    if isinstance(v, list):
        return '[%s]' % ', '.join(plain(x) for x in v)
    return repr(v)
