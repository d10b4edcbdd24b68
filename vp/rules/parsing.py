"""P01, P02: no text makes a parser panic."""
import itertools
import os
import random
import time
from .common import *
from .parse import Gram, consuming, start, N
from .panics import Panics
from .. import witness
from ..grammar import BadGrammar, CLASSES
from ..concrete import Table, Unknown
from ..interp import Limit
from ..facts import INF

MANY = 4000


# ---------------------------------------------------------------- the stack of the grammar
class Stack:
    """how many texts the stack holds at least: what a piece of a grammar needs, and how a match changes it"""

    def __init__(self, g):
        self.g = g
        self.memo = {r: (0, INF) for r in g.rules}
        for _ in range(200):
            new = {r: self.of(e) for r, (m, e) in g.rules.items()}
            new = {r: (min(n, 60), max(d, -60) if d != INF else d) for r, (n, d) in new.items()}
            if new == self.memo:
                break
            self.memo = new

    def of(self, e):
        k = e[0]
        if k in ('lit', 'ilit', 'range'):
            return 0, 0
        if k in ('not', 'and'):
            return self.of(e[1])[0], 0
        if k == 'push':
            n, d = self.of(e[1])
            return n, d + 1
        if k == 'seq':
            need, delta = 0, 0
            for x in e[1]:
                n, d = self.of(x)
                need = max(need, n - delta) if delta != INF else need
                delta = delta + d if delta != INF and d != INF else INF
            return need, delta
        if k == 'alt':
            xs = [self.of(x) for x in e[1]]
            return max(n for n, d in xs), min(d for n, d in xs)
        if k == 'rep':
            n, d = self.of(e[1])
            lo, hi = e[2], e[3]
            if hi == 0:
                return 0, 0
            if d == INF:
                return n, INF if lo else 0
            if d >= 0:
                return n, d * lo
            return (n - d * (hi - 1), d * hi) if hi is not None else (60, -60)
        if k == 'ref':
            if e[1] in self.g.rules:
                return self.memo[e[1]]
            if e[1] == 'PEEK':
                return (1, 0) if len(e) < 3 else (0, 0)
            if e[1] == 'POP':
                return 1, -1
            if e[1] == 'DROP':
                return 0, -1
            if e[1] == 'POP_ALL':
                return 0, -60
            return 0, 0
        raise BadGrammar(k)

    def lacking(self, rule):
        """(rule, operation) pairs reached from a rule with fewer texts on the stack than needed"""
        out, seen = [], set()
        top = 1 + max(n for n, d in self.memo.values())

        def go(e, depth, at):
            k = e[0]
            if k in ('not', 'and', 'push'):
                go(e[1], depth, at)
                return depth if k != 'push' else depth + 1 + max(self.of(e[1])[1], -60)
            if k == 'seq':
                for x in e[1]:
                    go(x, depth, at)
                    d = self.of(x)[1]
                    depth = depth + (0 if d == INF else d)
            elif k == 'alt':
                for x in e[1]:
                    go(x, depth, at)
            elif k == 'rep':
                d = self.of(e[1])[1]
                go(e[1], depth if d >= 0 else depth + d * ((e[3] or 60) - 1), at)
            elif k == 'ref':
                n = e[1]
                if n in self.g.rules:
                    depth = min(max(depth, 0), top)
                    if (n, depth) not in seen:
                        seen.add((n, depth))
                        go(self.g.rules[n][1], depth, n)
                elif self.of(e)[0] > depth:
                    out.append((at, n))
        go(('ref', rule), 0, rule)
        return sorted(set(out))


def reaching(g, target):
    """the rules below which a rule occurs"""
    up = {target}
    while True:
        new = {r for r, (m, e) in g.rules.items() if r not in up and occurs(e, up)}
        if not new:
            return up
        up |= new


def occurs(e, names):
    k = e[0]
    if k == 'ref':
        return e[1] in names
    if k in ('seq', 'alt'):
        return any(occurs(x, names) for x in e[1])
    return k in ('push', 'rep') and occurs(e[1], names)


def grow(g, rule, rnd, budget=400, up=(), sizes=()):
    """a text made by expanding a rule at random, towards the rules in up; lookaheads are not looked at"""
    left = [budget]

    def go(e, st, depth):
        left[0] -= 1
        k = e[0]
        if left[0] < 0 or depth > 60:
            raise Unknown('long')
        if k in ('lit', 'ilit'):
            return e[1]
        if k == 'range':
            return chr(rnd.randint(ord(e[1]), ord(e[2])))
        if k in ('not', 'and'):
            return ''
        if k == 'push':
            t = go(e[1], st, depth + 1)
            st.append(t)
            return t
        if k == 'seq':
            return ''.join([go(x, st, depth + 1) for x in e[1]])
        if k == 'alt':
            xs = e[1]
            if up and rnd.random() < .7:
                xs = [x for x in xs if occurs(x, up)] or xs
            return go(rnd.choice(xs), st, depth + 1)
        if k == 'rep':
            hi = e[2] + 2 if e[3] is None else e[3]
            n = rnd.randint(e[2], max(hi, e[2]))
            if depth > 25:
                n = e[2]
            if n == 0 and up and occurs(e[1], up) and hi:
                n = 1
            if sizes and e[3] is None and rnd.random() < .2 and e[1][0] not in ('ref', 'seq') or sizes and rnd.random() < .03:
                n = max(e[2], rnd.choice(sizes) + rnd.randint(-1, 1))
                left[0] += 12 * n
            return ''.join([go(e[1], st, depth + 1) for _ in range(n)])
        n = e[1]
        if n in g.rules:
            return go(g.rules[n][1], st, depth + 1)
        if n == 'NEWLINE':
            return rnd.choice(['\n', '\n', '\r\n'])
        if n == 'ANY':
            return rnd.choice('ab é1-éé#:\'"\\n')
        if n in ('PEEK', 'POP'):
            t = ''.join(st[slice(*e[2])]) if len(e) > 2 else st[-1] if st else rnd.choice(['', ' ', 'a'])
            if n == 'POP' and st:
                st.pop()
            return t
        if n == 'DROP':
            if st:
                st.pop()
            return ''
        if n in ('SOI', 'EOI'):
            return ''
        f = CLASSES.get(n)
        c = [x for x in ' a12é39Zx0_-' if f and f(x)]
        if not c:
            raise Unknown(n)
        return rnd.choice(c)
    return go(('ref', rule), [], 0)


def samples(g, rule, count=300, seed=3, whole=False):
    """texts a rule may match"""
    rnd = random.Random(seed)
    out = {}
    for _ in range(count * 3):
        if len(out) >= count:
            break
        try:
            s = grow(g, rule, rnd)
        except Unknown:
            continue
        if s in out:
            continue
        out[s] = True
    return list(out)


def started(c, G):
    """the rules at which the parser is started, with the function that does"""
    out = {}
    for b in c.crate.bodies.values():
        if b.kind not in ('fn', 'closure') or b.key in G.keys or b.derived:
            continue
        for bl in b.blocks:
            t = bl['t']
            if bl['cl'] or t[0] != 'call' or not isinstance(t[1], dict):
                continue
            if t[1].get('m') in ('parse', 'parse_with_userdata') and 'pest_consume' in str(t[1].get('p')):
                st = [c.crate.ty(x) for x in t[1].get('a', ()) if isinstance(x, int)]
                if st and head(st[0]).split('::')[-1] != G.parser:
                    continue
                out.setdefault(b.key, b)
    return list(out.values())


def start_rules(c, G):
    rules, lost = set(), []
    for b in started(c, G):
        n = 0
        run = analyse(c, b, opaque=consuming(c.crate))
        for o in run.outs:
            for t in [o.ret] + list(o.facts):
                def f(x):
                    nonlocal n
                    if x[0] == 'app' and x[1] == 'pest:' + G.parser:
                        a = x[2][0]
                        if a[0] == 'adt' and a[1] == G.rule_adt:
                            rules.add(c.crate.variants(G.rule_adt)[a[2]]['n'])
                            n += 1
                        else:
                            lost.append(b.path)
                    return False
                any_sub(t, f)
        if not n:
            lost.append(b.path)
    return rules, lost


def stack(c, G):
    s = Stack(G.g)
    rules, lost = start_rules(c, G)
    for p in lost:
        c.unknown('stack', p, 'the rule at which the parser is started is not known')
    for r in sorted(rules & set(G.g.rules)):
        bad = s.lacking(r)
        if not bad:
            c.ok('stack', '%s::%s' % (G.parser, r), '%d rules with stack operations below it' % sum(1 for x in G.g.rules.values() if "'PEEK'" in str(x) or "'POP'" in str(x)))
            continue
        hit = None
        for t in samples(G.g, r, 1500):
            try:
                G.g.match(r, t)
            except BadGrammar as e:
                if 'empty stack' in str(e):
                    hit = t
                    break
        con = '%s::%s' % (G.parser, bad[0][0])
        text = '%s is used in rule %s while nothing may be on the stack' % (bad[0][1], bad[0][0])
        if hit is not None:
            c.bad('stack', con, '%s: on %s the parser panics' % (text, repr(hit)[:150]), G.file)
        else:
            c.unknown('stack', con, text)
    c.floor('stack', len(rules), 1, 'start rules of ' + G.parser)


# ---------------------------------------------------------------- the consuming methods
class Consumers:
    def __init__(self, c, G, P):
        self.c, self.G, self.P = c, G, P
        self.least = {}
        self.leafs = {}
        self.helpers = {}

    def min_text(self, rule):
        """how long the text of a rule is at least"""
        g = self.G.g

        def go(e, seen):
            k = e[0]
            if k in ('lit', 'ilit'):
                return len(e[1].encode())
            if k == 'range':
                return 1
            if k in ('not', 'and'):
                return 0
            if k == 'push':
                return go(e[1], seen)
            if k == 'seq':
                return sum(go(x, seen) for x in e[1])
            if k == 'alt':
                return min(go(x, seen) for x in e[1])
            if k == 'rep':
                return go(e[1], seen) * e[2] if e[2] else 0
            n = e[1]
            if n in g.rules:
                return 0 if n in seen else go(g.rules[n][1], seen | {n})
            return 1 if n in CLASSES or n in ('ANY', 'NEWLINE') else 0
        return go(g.rules[rule][1], {rule}) if rule in g.rules else 0

    def prepared(self, rule, word, log=None):
        """the analysis of a method for a sequence of children, with what is known of texts and of the children's results"""
        G = self.G
        old = G.more
        G.more = lambda st, nodes: self.facts(st, rule, word, nodes)
        try:
            return G.run(rule, word, log=log)
        finally:
            G.more = old

    def facts(self, st, rule, word, nodes):
        for x, r in [(N, rule)] + list(zip(nodes, word)):
            m = self.min_text(r)
            if m:
                st.set_rng(app('len', app('text', x)), m, INF)
                st.set_rng(app('len', app('lines', app('text', x))), 1, INF)
            if x is not N and r in self.G.methods:
                lo = self.length(r)
                if lo:
                    st.set_rng(app('len', self.G.value(r, x)), lo, INF)

    def length(self, rule):
        """how long the result of a method is at least"""
        if rule in self.least:
            return self.least[rule]
        self.least[rule] = 0
        lo = INF
        t = self.G.cr.ty(self.G.methods[rule].locals[0])
        if t[0] != 'adt' or len(t) < 3 or t[2][0] != 'adt' or t[2][1].split('::')[-1] not in ('Vec', 'String'):
            return 0
        try:
            for w in self.words(rule):
                nodes, run = self.prepared(rule, w)
                for o in run.outs:
                    v = o.ret[2] if o.ret[0] == 'adt' else o.st.variant(o.ret)
                    if v == 1:
                        continue
                    lo = min(lo, o.st.bounds(length(fld(o.ret, 0, 0)))[0])
        except (Undecided, Limit, Lost, BadGrammar, KeyError):
            lo = 0
        self.least[rule] = 0 if lo == INF else max(0, int(lo))
        return self.least[rule]

    def words(self, rule):
        return self.G.words(rule) if rule in self.G.g.rules else [()]

    def texts(self, rule):
        """(texts of a rule, are they all)"""
        if rule not in self.leafs:
            ts = self.G.g.texts(rule) if rule in self.G.g.rules else None
            if ts is not None and len(ts) <= MANY:
                self.leafs[rule] = [t for t in ts if self.matches(rule, t)], True
            else:
                ss = samples(self.G.g, rule, 120) if rule in self.G.g.rules else []
                ss += [x * k for x in self.digits(rule) for k in (1, 19, 20, 25, 40)]
                self.leafs[rule] = [t for t in ss if self.matches(rule, t)], False
        return self.leafs[rule]

    def digits(self, rule):
        return [x for x in ('9', '0', '1') if rule in self.G.g.rules]

    def nodes(self, rule, sizes):
        """nodes (text, nodes below) of a rule in texts the whole grammar matches"""
        key = rule, sizes
        m = self.__dict__.setdefault('pool', {})
        if key in m:
            return m[key]
        g, rnd, out, seen = self.G.g, random.Random(5), [], set()
        m[key] = out
        if rule not in g.rules:
            return out
        up = reaching(g, rule)
        until = time.time() + 20
        tops = sorted(r for r in self.tops if r in up)
        for _ in range(20000):
            if not tops or len(out) > 1500 or time.time() > until:
                break
            try:
                s = grow(g, rnd.choice(tops), rnd, 400, up, sizes)
                ns = g.whole(tops[0], s)
            except (Unknown, BadGrammar, RecursionError):
                continue
            todo = list(ns or ())
            while todo:
                n, a, b, kids = todo.pop()
                todo += kids
                x = s[a:b], spread(s, kids)
                if n == rule and x not in seen:
                    seen.add(x)
                    out.append(x)
        return out

    tops = ()

    def made(self, rule, node):
        """what the method of a rule makes of a node"""
        text, kids = node
        if not kids:
            return self.value(rule, text)
        key = (rule, node)
        m = self.__dict__.setdefault('mades', {})
        if key not in m:
            m[key] = None
            w = tuple(x[0] for x in kids)
            t = self.__dict__.setdefault('tabs2', {})
            try:
                if (rule, w) not in t:
                    t[rule, w] = None
                    nodes, run = self.prepared(rule, w)
                    t[rule, w] = nodes, table(run)
                if t[rule, w] is not None:
                    nodes, tab = t[rule, w]
                    o, e = tab.one(self.around(node, nodes))
                    m[key] = e.ev(o.ret)
            except (Unknown, Undecided, Limit, KeyError, RecursionError, BadGrammar) as x:
                if os.environ.get('VP_REFUTE'):
                    print('made', rule, w, type(x).__name__, str(x)[:200])
        return m[key]

    def around(self, node, nodes):
        env = {app('text', N): node[0]}
        for x, (r, *kid) in zip(nodes, node[1]):
            env[app('text', x)] = kid[0]
            if r in self.G.methods:
                v = self.made(r, tuple(kid))
                if v is not None:
                    env[app(self.G.fn(r), x)] = v
        return env

    def found(self, rule, word, nodes, fs, loops):
        """a text in which a node with these children has these conditions"""
        sizes = tuple(sorted({int(f[2]) for f in fs if f[0] in ('ge', 'le', 'eq') and isinstance(f[2], (int, float)) and 4 < f[2] < 5000}))
        vs = witness.free(fs)[:2]
        alone = [(t, ()) for t in self.pumped(rule, sizes)] if sizes and not word and self.leaf(rule) else []
        for node in itertools.chain(alone, self.nodes(rule, sizes)):
            if tuple(x[0] for x in node[1]) != tuple(word):
                continue
            env = self.around(node, nodes)
            for ks in itertools.product(range(5), repeat=len(vs)):
                e = witness.Here(loops, env, limit=20000)
                e.bv.update(zip(vs, ks))
                try:
                    if all(e.fact(f) is True for f in fs):
                        return node[0]
                except (Unknown, RecursionError, KeyError, IndexError):
                    pass
        return None

    def matches(self, rule, t):
        try:
            return self.G.g.whole(rule, t) is not None
        except BadGrammar:
            return False

    def pumped(self, rule, sizes):
        """long texts of a rule: a sample with something repeated until a length is reached or just passed"""
        key = 'pumped', rule, sizes
        m = self.__dict__.setdefault('pool', {})
        if key in m:
            return m[key]
        m[key] = out = []
        short = sorted({t for t in self.texts(rule)[0] if len(t) < 12} | {''}, key=lambda t: (len(t), t))[:12]
        units = sorted({x for t in short for x in t})[:6] + ['\u00e9', '\u6f22', ' ', 'a']
        until = time.time() + 6
        for n in sizes[:3]:
            for t in short:
                for u in units:
                    for i in sorted({0, min(1, len(t)), len(t)}):
                        if time.time() > until:
                            return out
                        k = max(1, (n - len(t.encode())) // len(u.encode()))
                        if k > 6000 or not self.matches(rule, t[:i] + u * min(k, 3) + t[i:]):
                            continue
                        out += [x for x in (t[:i] + u * (k + j) + t[i:] for j in (0, 1, 2)) if self.matches(rule, x)]
        return out

    def leaf(self, rule):
        return rule not in self.G.g.rules or not self.G.g.child_names(rule) or self.G.g.rules[rule][0] == '@'

    def check(self, rule):
        """all paths of a method to a panic"""
        c, G = self.c, self.G
        k = '%s::%s' % (G.parser, rule)
        where = G.methods[rule].span
        try:
            words = self.words(rule)
        except BadGrammar as e:
            c.unknown('consume', k, str(e))
            return 0
        why = None
        for w in words:
            log = []
            try:
                nodes, run = self.prepared(rule, w, log)
            except (Undecided, Limit, KeyError) as e:
                why = why or '%s: %s' % (type(e).__name__, str(e)[:120])
                continue
            for nm in run.I.notes:
                if nm.startswith('unmodelled ') and not self.P.outside(nm[11:]):
                    why = why or 'not known whether this returns: ' + nm[11:]
            for body, nm, ats, st in log:
                if body is not None and body.key not in G.keys and body.kind == 'fn':
                    self.helpers[body.key] = body
            if any(G.alias_of(x) is None for x in w) and (run.I.panics or any(any_sub(o.ret, lambda x: x[0] == 'sym' and x in nodes) for o in run.outs)):
                x = [x for x in w if G.alias_of(x) is None][0]
                c.bad('consume', k, 'a child of rule %s has no method: looking at it panics' % x, where)
                return len(words)
            for p in run.I.panics:
                fs = self.P.facts(p)
                fs = [f for f in fs if not of_rule(f)]
                r, text = self.possible(rule, w, nodes, p, fs)
                if r is None:
                    hit = self.found(rule, w, nodes, fs, run.I.loops)
                    if hit is not None:
                        r, text = True, '; for instance on ' + repr(hit)[:100]
                if r is True:
                    con = '%s: %s' % (k, p['kind'])
                    c.bad('consume', con, 'a match of %s with children [%s] panics (%s in %s)%s' % (rule, ', '.join(w), p['kind'], p['fn'], text), p['span'])
                    return len(words)
                if r is None:
                    why = why or 'may panic (%s in %s) on children [%s] when {%s}' % (p['kind'], p['fn'], ', '.join(w), ', '.join(show(f) for f in fs)[:300])
        if why:
            c.unknown('consume', k, why)
        else:
            c.ok('consume', k, '%d child sequences' % len(words))
        return len(words)

    def possible(self, rule, word, nodes, p, fs):
        """can the conditions of a path hold for texts the grammar matches: True, False, None where it cannot be told"""
        G = self.G
        if not fs:
            return True, ''
        vs = [(x, r) for x, r in [(N, rule)] + list(zip(nodes, word)) if any(any_sub(f, lambda y: y is x) for f in fs)]
        if not all(self.leaf(r) for x, r in vs):
            return None, ''
        sets = []
        all_ = True
        for x, r in vs:
            ts, full = self.texts(r)
            all_ = all_ and full
            sets.append(ts)
        total = 1
        for s in sets:
            total *= len(s)
        if not total or total > 60000:
            return None, ''
        maybe = not all_
        combos = [()]
        for s in sets:
            combos = [x + (t,) for x in combos for t in s]
        for combo in combos:
            e = witness.Here({}, self.env(vs, combo), limit=20000)
            res = []
            for f in fs:
                try:
                    res.append(e.fact(f))
                except (Unknown, RecursionError):
                    res.append(None)
            if any(x is False for x in res):
                continue
            if all(x is True for x in res):
                return True, '; for instance on ' + ', '.join(repr(t)[:60] for t in combo)
            maybe = True
        return (None if maybe else False), ''

    def env(self, vs, texts):
        env = {}
        for (x, r), t in zip(vs, texts):
            env[app('text', x)] = t
            if x is not N and r in self.G.methods:
                v = self.value(r, t)
                if v is not None:
                    env[app(self.G.fn(r), x)] = v
        return env

    def value(self, rule, t):
        key = (rule, t)
        m = self.__dict__.setdefault('vals', {})
        if key not in m:
            m[key] = None
            try:
                if rule not in self.__dict__.setdefault('tabs', {}):
                    nodes, run = self.prepared(rule, ())
                    self.tabs[rule] = table(run)
                o, e = self.tabs[rule].one({app('text', N): t})
                m[key] = e.ev(o.ret)
            except (Unknown, Undecided, Limit, KeyError):
                pass
        return m[key]


def of_rule(f):
    return f[0] == 'is' and f[1][0] == 'app' and f[1][1] in ('arule', 'rule')


def table(run):
    t = Table(run, witness.Here)
    t.outs = [(o, [f for f in fs if not of_rule(f)]) for o, fs in t.outs]
    return t


def spread(s, kids):
    return tuple((n, s[a:b], spread(s, ks)) for n, a, b, ks in kids)


def parsing(c, parser, floor, entries):
    c.rule('stack', 'no operation on the stack of the grammar finds it empty')
    c.rule('consume', 'no method panics on a node the grammar can produce, whatever its text and its children')
    c.rule('start', 'the parser is started at the rule whose method consumes the result')
    c.rule('returns', 'the functions around the parser do not panic')
    P = Panics(c)
    try:
        G = Gram(c, parser)
    except Lost as e:
        c.unknown('consume', parser, str(e))
        return
    try:
        stack(c, G)
    except BadGrammar as e:
        c.unknown('stack', parser, str(e))
    K = Consumers(c, G, P)
    K.tops = start_rules(c, G)[0]
    n = 0
    for rule in sorted(G.methods):
        n += K.check(rule)
    c.floor('consume', n, floor, 'child sequences of ' + parser)
    start(c, G)
    todo = [b for b in P.all if P.group(b) is None and any(s.key in P.around(b) for s in started(c, G)) and b.key not in G.keys] + \
        list(K.helpers.values())
    done = set()
    for b in sorted(todo, key=lambda b: b.path):
        if b.key not in done and not generated(b):
            done.add(b.key)
            P.check('returns', b)
    c.floor('returns', len(done), entries, 'functions around ' + parser)


def generated(b):
    return b.name in ('rule_alias', 'allows_shortcut', 'all_rules') or b.trait and b.trait.split('::')[0] in ('pest', 'pest_consume')


def p01(c):
    parsing(c, 'YamlParser', 90, 1)


def p02(c):
    parsing(c, 'PathParser', 15, 1)
