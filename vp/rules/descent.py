"""P06: recursion descends and references cannot be followed for ever."""
from .common import *
from .parse import Gram, N
from .serde import De, resolver
from .strings import Texts
from ..interp import Limit

ENDLESS = ('Cycle', 'Repeat', 'RepeatWith', 'RangeFrom', 'FromFn', 'Successors')

DERIVED = ('Clone', 'PartialEq', 'Eq', 'Debug', 'PartialOrd', 'Ord', 'Hash', 'Default')


def call_graph(cr):
    """caller -> callees among the bodies of the crate; calls through a trait reach every implementation in the crate"""
    bym = {}
    for b in cr.bodies.values():
        if b.kind == 'fn' and not b.parent:
            for t in (b.trait, b.intrait):
                if t:
                    bym.setdefault((t, b.name), []).append(b.key)
    g = {k: set() for k in cr.bodies}
    for b in cr.bodies.values():
        if b.derived:
            continue
        for bl in b.blocks:
            t = bl['t']
            if t[0] != 'call' or not isinstance(t[1], dict):
                continue
            f = t[1]
            k = f.get('rkey') if f.get('rkey') in cr.bodies else f.get('key')
            if k in cr.bodies and not (cr.bodies[k].intrait and f.get('tr')):
                g[b.key].add(k)
            elif f.get('tr'):
                g[b.key].update(bym.get((f['tr'], f.get('m') or f['p'].split('::')[-1]), ()))
        for x in cr.closures_of.get(b.key, ()):
            g[b.key].add(x.key)
        # functions handed on as values
        for k in taken(cr, b):
            g[b.key].add(k)
    for k in g:
        g[k] = {x for x in g[k] if not cr.bodies[x].derived}
    return g


def taken(cr, b):
    out = set()

    def look(x):
        if isinstance(x, list):
            for y in x:
                look(y)
        elif isinstance(x, dict):
            for y in x.values():
                look(y)
        elif isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(cr.types) and cr.types[x].get('k') == 'fndef':
            pass
    for i in b.locals:
        t = cr.types[i]
        if t.get('k') == 'fndef' and t.get('key') in cr.bodies:
            out.add(t['key'])
        for a in t.get('a', ()) if t.get('k') == 'adt' else ():
            if isinstance(a, int) and cr.types[a].get('k') == 'fndef' and cr.types[a].get('key') in cr.bodies:
                out.add(cr.types[a]['key'])
    return out


def components(g):
    """strongly connected components that contain a call"""
    idx, low, on, st, out = {}, {}, set(), [], []
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(sorted(g[root])))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        s.add(w)
                        if w == v:
                            break
                    if len(s) > 1 or v in g[v]:
                        out.append(s)
    return out


SAME = {'tail': 0, 'rev': 0, 'get': 0, 'mapget': 0, 'entries': 0, 'enumerate': 0, 'text': 0, 'cell': 0}


class Sizes:
    """how large a term is, compared with the things a function was given"""

    def __init__(self, st, loops, given, facts=()):
        self.st, self.loops, self.given = st, loops, given
        self.busy = set()

    def of(self, t):
        """{given thing: strictly smaller}"""
        if not isinstance(t, T) or not t:
            return {}
        out = {}
        if t in self.given:
            out[t] = False
        k = t[0]
        more, strict = {}, False
        if k in ('fld', 'tfld', 'elem'):
            more, strict = self.of(t[1]), True
        elif k == 'slice':
            more = self.of(t[1])
        elif k == 'updi' or k == 'fold':
            more = self.of(t[1] if k == 'updi' else t[4])
        elif k == 'app':
            n = t[1]
            if n in SAME:
                more = self.of(t[2][SAME[n]])
            elif n == 'mapdel':
                # smaller if the name was there
                more = self.of(t[2][0])
                strict = self.st.variant(app('mapget', t[2][0], t[2][1])) == 1
            elif '!' in n and n.split('!')[-1].isdigit():
                i = int(n.split('!')[-1])
                if i < len(t[2]):
                    more = self.of(t[2][i])
        elif k == 'rgn' or t in self.st.cells:
            pass
        elif k == 'lv':
            rec, p = self.loops.get(t[1]), tuple(t[2])
            if rec is not None and p in rec.init and t not in self.busy:
                self.busy.add(t)
                ms = [self.of(rec.init[p])] + [self.of(new[p]) for fs, new, st in rec.backs if new.get(p) is not t]
                self.busy.discard(t)
                for g in ms[0]:
                    if all(g in m for m in ms[1:]):
                        more[g] = all(m[g] for m in ms)
        elif k == 'seq' and len(t[1]) == 1 and t[1][0][0] == 'all':
            more = self.of(t[1][0][1])
        if k not in ('lv',) and t not in self.given:
            inner = self.st.cells.get(mk('rgn', t))
            if inner is not None:
                more = dict(more)
                for g, s in self.of(inner).items():
                    more[g] = more.get(g, False) or s
        for g, s in more.items():
            out[g] = out.get(g, False) or s or strict
        return out


def compose(a, b):
    """a: f->g, b: g->h as frozensets of (from, to, strict)"""
    out = {}
    for x, y, s in a:
        for y2, z, s2 in b:
            if y == y2:
                out[x, z] = out.get((x, z), False) or s or s2
    return frozenset((x, z, s) for (x, z), s in out.items())


def offending(edges):
    """size-change principle: edges (f, g, relation, what); the call cycles along which nothing gets smaller"""
    known = {}
    for f, g, r, w in edges:
        known.setdefault((f, g, r), (w,))
    work = list(known)
    while work:
        f, g, r = work.pop()
        for (f2, g2, r2), w2 in list(known.items()):
            for a, b in (((f, g, r), (f2, g2, r2)), ((f2, g2, r2), (f, g, r))):
                if a[1] != b[0]:
                    continue
                n = (a[0], b[1], compose(a[2], b[2]))
                if n not in known:
                    if len(known) > 20000:
                        raise Undecided('too many call sequences')
                    known[n] = tuple(dict.fromkeys(known[a] + known[b]))
                    work.append(n)
    bad = []
    for (f, g, r), w in known.items():
        if f == g and compose(r, r) == r and not any(x == y and s for x, y, s in r):
            bad.append((f, w))
    return sorted(bad, key=lambda x: len(x[1]))


class Heights:
    """how many tree nodes lie on the longest way down a term, compared with the things a function was given"""

    def __init__(self, cr, node, keeps):
        self.cr, self.node, self.keeps = cr, node, keeps
        self._holds = {}
        self._least = {}

    def fields(self, t, v):
        return [self.cr.ty(f[1]) for f in self.cr.variants(t[1])[v]['f']]

    def holds(self, t):
        """can a value of this type contain a node"""
        if t in self._holds:
            return self._holds[t]
        self._holds[t] = False
        if t[0] == 'adt':
            r = t[1] == self.node or any(self.holds(a) for a in t[2:] if isinstance(a, T))
            if not r and t[1] in self.cr.adts and self.cr.adts[t[1]]['local']:
                r = any(self.holds(f) for v in range(len(self.cr.variants(t[1]))) for f in self.fields(t, v))
        elif t[0] == 'param':
            r = True
        else:
            r = any(self.holds(a) for a in t[1:] if isinstance(a, T))
        self._holds[t] = r
        return r

    def least(self, t):
        if t in self._least:
            return self._least[t]
        self._least[t] = 0
        r = 0
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'adt' and t[1] in self.cr.adts and self.cr.adts[t[1]]['local']:
            r = min([max([self.least(f) for f in self.fields(t, v)] or [0]) for v in range(len(self.cr.variants(t[1])))] or [0])
            r += t[1] == self.node
        self._least[t] = r
        return r

    def typ(self, t, given):
        """the type of a place inside what was given"""
        if t in given:
            r = given[t]
            while r[0] == 'ref':
                r = r[2]
            return r
        r = None
        if t[0] in ('fld', 'tfld', 'elem'):
            b = self.typ(t[1], given)
            if b is None:
                return None
            if t[0] == 'elem':
                r = b[-1] if b[0] in ('slice', 'array') else b[2] if b[0] == 'adt' and len(b) > 2 else None
            elif b[0] == 'adt' and b[1] in self.cr.adts and self.cr.adts[b[1]]['local']:
                r = self.fields(b, t[2])[t[3]]
            elif b[0] == 'adt' and b[1] == OPT:
                r = b[2]
            elif b[0] == 'tuple':
                r = b[1 + t[-1]]
        while r is not None and r[0] == 'ref':
            r = r[2]
        return r

    def of(self, t, ty, given, st):
        """{given thing or None: difference}: the height is at most the largest of them"""
        while ty is not None and ty[0] == 'ref':
            ty = ty[2]
        if ty is not None and not self.holds(ty):
            return {}
        if t in given:
            return {t: 0}
        k = t[0]
        if k == 'adt':
            out = {}
            local = t[1] in self.cr.adts and self.cr.adts[t[1]]['local']
            fts = self.fields(t, t[2]) if local else [None] * len(t[3])
            for x, f in zip(t[3], fts):
                self.join(out, self.of(x, f, given, st))
            return self.plus(out, 1) if t[1] == self.node else out
        if k == 'tup':
            out = {}
            for x in t[1]:
                self.join(out, self.of(x, None, given, st))
            return out
        if k in ('str', 'int', 'bool', 'chr', 'unit', 'txt'):
            return {}
        if k == 'fld':
            b = self.typ(t[1], given)
            if b is not None and b[0] == 'adt':
                return self.plus(self.of(t[1], b, given, st), -1 if b[1] == self.node else 0)
            if b is not None:
                return self.of(t[1], b, given, st)
            # inside of something computed: no higher than the whole
            return self.of(t[1], None, given, st)
        if k in ('elem', 'tfld', 'slice'):
            return self.of(t[1], None, given, st)
        if k == 'app' and t[1] in self.keeps:
            return self.of(t[2][0], None, given, st)
        if k == 'app' and t[1] in SAME:
            return self.of(t[2][SAME[t[1]]], None, given, st)
        if k == 'seq':
            out = {}
            for s in t[1]:
                for x in self.items(s):
                    self.join(out, self.of(x, None, given, st))
            return out
        raise Undecided('the height of ' + show(t)[:200])

    def items(self, s):
        if s[0] in ('one', 'all'):
            return [s[1]]
        if s[0] == 'each':
            return [x for v in s[3] for y in v[1] for x in self.items(y)]
        raise Undecided('the height of a list')

    def plus(self, d, n):
        out = {g: x + n for g, x in d.items()}
        if n > 0:
            out[None] = max(out.get(None, n), n)
        return out

    def join(self, a, b):
        for g, n in b.items():
            a[g] = max(a.get(g, n), n)


class Calls:
    """the recursive calls of one component with the sizes of what they hand on"""

    def __init__(self, c, comp, grams):
        self.c, self.cr, self.comp, self.grams = c, c.crate, comp, grams
        self.fns = [k for k in comp if self.cr.bodies[k].kind == 'fn']
        self.edges = []
        self.missing = []
        self.n = 0
        self.seen = []
        self.callnames = set()
        self.known = set()
        self.runs = {}

    def places(self, b, args):
        """the things a function is given: arguments and the fields of those that are plain structs"""
        out = []
        for i, a in enumerate(args):
            v = a[1] if a[0] == 'mut' else a
            out.append(((i,), v))
            t = self.cr.ty(b.locals[i + 1])
            while t[0] == 'ref':
                t = t[2]
            if t[0] == 'adt' and t[1] in self.cr.adts and self.cr.adts[t[1]]['local'] and len(self.cr.variants(t[1])) == 1:
                for j in range(len(self.cr.variants(t[1])[0]['f'])):
                    out.append(((i, j), fld(v, 0, j)))
        return out

    def targets(self, body, nm):
        if body is not None:
            return [body.key] if body.key in self.comp else []
        p = nm.split('::')
        if len(p) < 2:
            return []
        out = []
        for k in self.fns:
            b = self.cr.bodies[k]
            if b.name == p[-1] and any(t and t.split('::')[-1] == p[-2] for t in (b.trait, b.intrait)):
                out.append(k)
        return out

    def record(self, b, places, log, loops):
        given = {}
        for pos, v in places:
            given.setdefault(v, []).append(pos)
        for body, nm, args, st in log:
            ts = self.targets(body, nm)
            if not ts:
                continue
            self.n += 1
            self.callnames.add(nm)
            sz = Sizes(st, loops, given)
            for k in ts:
                rel = set()
                for pos, v in self.places(self.cr.bodies[k], args):
                    for g, s in sz.of(v).items():
                        for p in given[g]:
                            rel.add((p, pos, s))
                b2 = self.cr.bodies[k]
                what = self.edge(b.key, k, rel, '%s calls %s with %s' % (b.path, self.cr.bodies[k].path, ', '.join(show(a)[:120] for a in args if a[0] not in ('fnp', 'clo'))))
                if all(exact(v, given) for pos, v in self.places(b2, args) if self.whole(b2, pos)):
                    self.known.add(what)
                self.seen.append((b.key, k, args, st, len(self.edges) - 1))

    def edge(self, f, g, rel, what):
        best = {}
        for p, q, s in rel:
            best[p, q] = best.get((p, q), False) or s
        self.edges.append((f, g, frozenset((p, q, s) for (p, q), s in best.items()), what))
        return what

    def whole(self, b, pos):
        """a growing thing that is not looked at by its fields"""
        t = self.cr.ty(b.locals[pos[0] + 1])
        while t[0] == 'ref':
            t = t[2]
        split = t[0] == 'adt' and t[1] in self.cr.adts and self.cr.adts[t[1]]['local'] and len(self.cr.variants(t[1])) == 1
        if len(pos) == 1:
            return not split and self.grows(t) and (t[0] != 'param' or pos[0] == 0)
        return self.grows(self.cr.ty(self.cr.variants(t[1])[0]['f'][pos[1]][1]))

    def grows(self, t, seen=()):
        """can there be ever larger values of this type"""
        while t[0] == 'ref':
            t = t[2]
        if t[0] in ('num', 'bool', 'char', 'closure', 'fndef', 'fnptr'):
            return False
        if t[0] == 'adt' and t[1] in self.cr.adts and self.cr.adts[t[1]]['local'] and t not in seen:
            return any(self.grows(self.cr.ty(f[1]), seen + (t,)) for v in self.cr.variants(t[1]) for f in v['f'])
        return True

    def run(self):
        for k in sorted(self.fns):
            b = self.cr.bodies[k]
            opq = [x for x in self.fns]
            log = []
            for G in self.grams:
                if any(m.key == k for m in G.methods.values()):
                    rule = next(r for r, m in G.methods.items() if m.key == k)
                    for w in G.words(rule)[:60]:
                        log = []
                        nodes, run = G.run(rule, w, log=log)
                        given = [((0,), N)]
                        sub_ = Subst({x: elem(app('children', N), INT(i)) for i, x in enumerate(nodes)})
                        SAME['children'] = 0
                        self.record(b, given, [(bd, nm, [sub_(a) for a in args], st) for bd, nm, args, st in log], run.I.loops)
                    break
            else:
                run = analyse(self.c, b, opaque=opq, log=log)
                self.runs[k] = run
                self.record(b, self.places(b, run.args), log, run.I.loops)


    def given(self, k):
        b = self.cr.bodies[k]
        return {(a[1] if a[0] == 'mut' else a): self.cr.ty(b.locals[i + 1]) for i, a in enumerate(self.runs[k].args)}

    def heights(self):
        """adds how the heights of the trees compare, where the functions are shown to keep them"""
        if set(self.runs) != set(self.fns):
            return False
        H = None
        for p, a in sorted(self.cr.adts.items()):
            if a['local'] and any(self.first(k) == p for k in self.fns):
                H = Heights(self.cr, p, ())
                # every cycle of the types passes through the node
                if acyclic(self.cr, p):
                    break
        else:
            return False
        I = next(iter(self.runs.values())).I
        names = {}
        for k in self.fns:
            b = self.cr.bodies[k]
            if H.holds(self.cr.ty(b.locals[0])):
                names[k] = I.fname(b)
        H.keeps = set(names.values())
        H.keeps |= {nm for nm in self.callnames if any(k in names for k in self.targets(None, nm))}
        for k in names:
            b = self.cr.bodies[k]
            given = self.given(k)
            first = self.runs[k].args[0]
            low = H.least(self.cr.ty(b.locals[1]))
            for o in self.runs[k].outs:
                r = H.of(o.ret, self.cr.ty(b.locals[0]), given, o.st)
                for g, n in r.items():
                    if not (g is None and n <= low or g is first and n <= 0):
                        raise Undecided('%s may return a higher tree: %s' % (b.path, show(o.ret)[:200]))
        for f, k, args, st, i in self.seen:
            given = self.given(f)
            pos = {g: j for j, g in enumerate(given)}
            b = self.cr.bodies[k]
            rel = set(self.edges[i][2])
            for j, a in enumerate(args):
                ty = self.cr.ty(b.locals[j + 1])
                v = a[1] if a[0] == 'mut' else a
                try:
                    r = H.of(v, ty, given, st) if H.holds(ty) else {}
                except Undecided:
                    continue
                if len(r) == 1:
                    (g, n), = r.items()
                    if g is not None and n <= 0:
                        rel.add((('height', pos[g]), ('height', j), n < 0))
            self.edges[i] = (f, k, frozenset(rel), self.edges[i][3])
        return True

    def first(self, k):
        t = self.cr.ty(self.cr.bodies[k].locals[1])
        while t[0] == 'ref':
            t = t[2]
        return t[1] if t[0] == 'adt' else None

    def kinds(self):
        """adds the places that were one alternative and cannot be it again"""
        done = False
        for f, k, args, st, i in self.seen:
            if f not in self.runs:
                continue
            rel = set(self.edges[i][2])
            mine = dict((p, v) for p, v in self.places(self.cr.bodies[f], self.runs[f].args))
            for pos, v in self.places(self.cr.bodies[k], args):
                for p, g in mine.items():
                    w = st.variant(g)
                    if w is None or p != pos and f == k:
                        continue
                    if v is not g and self.never(v, w, st):
                        rel.add((('kind', w, p), ('kind', w, pos), True))
                        done = True
            self.edges[i] = (f, k, frozenset(rel), self.edges[i][3])
        return done

    def never(self, v, w, st):
        if w in st.excluded(v) or st.variant(v) not in (None, w):
            return True
        way = []
        t = v
        while t[0] == 'fld' or t[0] == 'tfld':
            way.append(t)
            t = t[1]
        if t[0] != 'app' or t[1] not in self.cr.bypath or not way or way[-1][0] != 'fld':
            return False
        way = way[::-1]
        b = self.cr.bypath[t[1]]
        b = b[0] if isinstance(b, list) else b
        run = analyse(self.c, b, opaque=[b.key])
        seen = False
        for o in run.outs:
            r, hyp = o.ret, False
            if r[0] == 'app' and r[1] == t[1]:
                seen = True      # whatever it is one step further on
                continue
            if r[0] == 'adt' and r[2] != way[0][2]:
                continue
            for x in way:
                if r[0] == 'adt':
                    if r[2] != x[2]:
                        return False
                    r = r[3][x[3]]
                elif r[0] == 'tup':
                    r = r[1][x[2]]
                else:
                    return False
            if not (w in o.st.excluded(r) or o.st.variant(r) not in (None, w)):
                if r[0] == 'fld' and strip(r) == strip(v, t):
                    continue
                return False
        return True


def exact(t, given):
    """is it known that a value is not smaller than what it is taken from, unless it is seen to be smaller"""
    if t in given or t[0] in ('str', 'txt', 'fnp', 'clo', 'fn'):
        return True
    if t[0] in ('adt', 'tup', 'seq'):
        return any_sub(t, lambda x: x in given)
    if t[0] in ('fld', 'tfld', 'elem') or t[0] == 'app' and t[1] in SAME:
        return exact(t[1] if t[0] != 'app' else t[2][SAME[t[1]]], given)
    return t[0] == 'sym'


def strip(t, base=None):
    """the way from a call to a part of its result"""
    out = []
    while t[0] in ('fld', 'tfld'):
        out.append((t[0], t[2:]))
        t = t[1]
    return (t[1] if t[0] == 'app' else None, tuple(out))


def acyclic(cr, node):
    """do the types reachable from a node have no cycle that avoids it"""
    state = {}

    def visit(t):
        if t[0] == 'adt' and t[1] == node:
            return True
        if state.get(t) == 1:
            return False
        if t in state:
            return True
        state[t] = 1
        kids = [a for a in t[1:] if isinstance(a, T)]
        if t[0] == 'adt' and t[1] in cr.adts and cr.adts[t[1]]['local']:
            kids += [cr.ty(f[1]) for v in cr.variants(t[1]) for f in v['f']]
        r = all(visit(x) for x in kids)
        state[t] = 2
        return r
    return all(visit(cr.ty(f[1])) for v in cr.variants(node) for f in v['f'])


def p06(c):
    c.rule('descent', 'every cycle of calls hands on a strictly smaller part of the tree, path or anchors it was given')
    c.rule('alias', 'a name is not defined inside the value it stands for')
    c.rule('loops', 'no way round a loop leaves everything it depends on as it was')
    cr = c.crate
    g = call_graph(cr)
    comps = components(g)
    grams = []
    for p in ('YamlParser', 'PathParser'):
        try:
            grams.append(Gram(c, p))
        except Lost:
            pass
    for comp in sorted(comps, key=lambda s: sorted(cr.bodies[k].path for k in s)):
        cs = Calls(c, comp, grams)
        names = sorted(cr.bodies[k].path for k in cs.fns)
        if not names:
            continue
        label = names[0]
        try:
            cs.run()
            bad = offending(cs.edges)
            for more in (cs.heights, cs.kinds):
                if bad:
                    try:
                        if more():
                            bad = offending(cs.edges)
                    except Undecided as e:
                        c.note(str(e)) if hasattr(c, 'note') else None
        except (Undecided, Limit) as e:
            c.unknown('descent', label, str(e))
            continue
        if not bad:
            c.ok('descent', label, '%d functions, %d calls' % (len(names), cs.n))
            continue
        sure = [w for f, w in bad if all(x in cs.known for x in w)]
        if sure:
            f = next(f for f, w in bad if w is sure[0])
            c.bad('descent', label, 'nothing gets smaller: ' + '; '.join(sure[0])[:600], cr.bodies[f].span)
        else:
            c.unknown('descent', label, 'not seen to get smaller: ' + '; '.join(bad[0][1])[:300])
    c.floor('descent', len(comps), 8, 'groups of functions that call each other')
    cycles(c)
    loops(c)


def cycles(c):
    """a value is read with the anchors known inside it, where its own name is not defined"""
    de = De(c)
    L = de.L
    cr = c.crate
    ms = sorted({n for t, ims in cr.impls.items() if t.split('::')[-1] == 'Deserializer' for h, items, _ in ims
                 for n in [i if isinstance(i, str) else i[0] for i in items] if n.startswith('deserialize_')})
    total = 0
    name = fld(de.yaml, L.Anchor, 0)
    texts, followers = [], set()
    try:
        texts = [Texts(c).folded]
    except Lost:
        pass
    for m in ms:
        if m in ('deserialize_unit', 'deserialize_unit_struct', 'deserialize_ignored_any'):
            continue
        run = de.run(m, opaque=texts, facts=[('is', de.yaml, L.Anchor)])
        g, rec = resolver(de, run)
        if rec is not None:
            followers.add(rec[1])
        R = fld(g, 1, 0)
        n, wrong = 0, None
        for o in run.outs:
            if o.st.variant(de.yaml) != L.Anchor or o.st.variant(g) != 1 or de.fails(None, o):
                continue
            if rec is not None and o.st.variant(rec) != 0:
                continue
            hidden = mk('sym', 'followed')
            t = mk(o.ret, o.cells['trace'])
            cut = Rewrite(lambda x: hidden if x is rec or x is app('mapdel', de.anch, name) else UNIT if x is g else None)
            if not any_sub(t, lambda x: x is de.anch or rec is not None and x is tfld(fld(rec, 0, 0), 1) or x is app('mapdel', de.anch, name)):
                continue        # nothing inside is looked up
            n += 1
            if any_sub(cut(t), lambda x: x is de.anch):
                wrong = o
                break
        if not n and any(after_loop(o) for o in run.outs):
            c.unknown('alias', m, 'references are followed by a loop')
            n = 20
        total += n
        if wrong is not None:
            if any_sub(t, lambda x: x is R or rec is not None and x is tfld(fld(rec, 0, 0), 0)):
                c.bad('alias', m, 'what a name stands for is read with the name defined: ' + show(t)[:300], run.body.span)
            else:
                c.unknown('alias', m, 'reads ' + show(t)[:200])
        elif n:
            c.ok('alias', m, '%d cases' % n)
    c.floor('alias', total, 20, 'cases in which a value is read for a reference')
    for path in sorted(followers):
        b = cr.bypath[path]
        b = b[0] if isinstance(b, list) else b
        if b.argc != 2:
            c.unknown('alias', path, 'takes more than a tree and anchors')
            continue
        iy = next((i for i in range(2) if L.yaml in str(cr.ty(b.locals[i + 1]))), 0)
        y, a = mk('sym', 'y'), mk('sym', 'a')
        run = analyse(c, b, [y if i == iy else a for i in range(2)], opaque=[b.key])
        nm = fld(y, L.Anchor, 0)
        allow([path])

        def step(d, o):
            if d.variant(y, L.n) != L.Anchor:
                return True
            if o.ret[0] == 'adt' and o.ret[2] == 1:
                return True
            if o.ret[0] == 'app' and o.ret[1] == path:
                got = o.ret[2][1 - iy]
                inner = o.st.cells.get(mk('rgn', got), got)
                if got is not a and inner is app('mapdel', a, nm) or inner[0] == 'app' and inner[1] == 'emptymap':
                    return True
                return (False if inner is a or got is a else None), 'goes on with ' + show(inner)[:200]
            if o.ret[0] == 'adt' and o.ret[2] == 0 and o.ret[3][0][0] == 'tup' and len(o.ret[3][0][1]) == 2:
                z = o.ret[3][0][1][1]
                inner = o.st.cells.get(mk('rgn', z), z)
                return (False if inner is a or z is a else True if inner is app('mapdel', a, nm) else None), 'gives the anchors ' + show(inner)[:200]
            if any_sub(o.ret, lambda x: x[:2] == ('app', path) if x else False):
                return None
            return None
        decide(c, 'alias', b.name, run, step)


def loops(c):
    cr = c.crate
    n = 0
    for b in sorted(cr.bodies.values(), key=lambda b: (b.path, b.key)):
        if b.derived or not b.loops:
            continue
        pend = []
        for h, body in sorted(b.loops.items()):
            if 'pest_consume' in str(b.blocks[h].get('x')):
                continue
            n += 1
            if iterates(cr, b, h, body):
                c.ok('loops', '%s#%d' % (b.path, len(pend)), 'each turn takes the next item')
            else:
                pend.append(h)
        if pend:
            stuck(c, b, len(pend))
    c.floor('loops', n, 5, 'loops')


def iterates(cr, b, h, body):
    """does every turn take the next item of an iterator made before the loop"""
    for x in body:
        t = b.blocks[x]['t']
        if t[0] != 'call' or not isinstance(t[1], dict) or (t[1].get('m') or t[1]['p'].split('::')[-1]) not in ('next', 'next_back'):
            continue
        f = t[1]
        if not (f.get('tr') or f['p']).split('::')[-1] in ('Iterator', 'DoubleEndedIterator', 'next', 'next_back'):
            continue
        if any(cr.types[a].get('k') == 'adt' and endless(cr, cr.ty(a)) for a in f.get('a', ()) if isinstance(a, int)):
            continue
        # the iterator itself: a reference taken to a local that is not set anew inside the loop
        src = t[2][0]
        root = src[1][0] if src[0] in ('m', 'c') else None
        made = {}
        for y in body:
            for s in b.blocks[y]['s']:
                if s[0] == '=' and s[1][1] == [] and s[2][0] == 'ref':
                    made.setdefault(s[1][0], []).append(s[2][2][0])
        while root in made and len(made[root]) == 1:
            root = made.pop(root)[0]
        if root is None or any(s[0] == '=' and s[1][0] == root for y in body for s in b.blocks[y]['s']) or \
                any(b.blocks[y]['t'][0] == 'call' and b.blocks[y]['t'][3] and b.blocks[y]['t'][3][0] == root for y in body):
            continue
        if every_turn(b, h, body, x):
            return True
    return False


def endless(cr, t):
    return isinstance(t, T) and (t[0] == 'adt' and t[1].split('::')[-1] in ENDLESS or any(endless(cr, x) for x in t[1:])) \
        and not (t[0] == 'adt' and t[1].split('::')[-1] in ('Take', 'Zip'))


def every_turn(b, h, body, x):
    """does no way round the loop avoid block x"""
    if h == x:
        return True
    seen, work = {h}, [h]
    while work:
        for s in b.succs(work.pop()):
            if s == h:
                return False
            if s in body and s != x and s not in seen:
                seen.add(s)
                work.append(s)
    return True


def heads(t, lid):
    return [tuple(x[2]) for x in subterms(t) if isinstance(x, T) and len(x) == 3 and x[0] == 'lv' and x[1] == lid]


def shrinks(rec, lid, p):
    """every turn leaves less of the text in this place"""
    v = mk('lv', lid, p)
    for fs, new, st in rec.backs:
        x = new.get(p)
        if not (isinstance(x, T) and x[0] == 'app' and x[1] == 'strfrom' and x[2][0] is v and st.bounds(x[2][1])[0] >= 1):
            return False
    return True


def stuck(c, b, k):
    """loops that take no items: some turn has to change what decides the next"""
    try:
        run = analyse(c, b)
    except (Undecided, Limit, Lost, KeyError) as e:
        c.unknown('loops', b.path, str(e)[:200])
        return
    m = 0
    for lid, rec in sorted(run.I.loops.items()):
        if rec.n is not None or any(shrinks(rec, lid, p) for p in rec.init):
            continue
        m += 1
        # what the turns are decided by
        need, more = set(), [lv for fs, new, st in rec.backs for lv in heads(mk(*fs), lid)]
        while more:
            x = more.pop()
            if x not in need:
                need.add(x)
                more += [lv for fs, new, st in rec.backs if x in new for lv in heads(new[x], lid)]
        still = [fs for fs, new, st in rec.backs if all(v is mk('lv', lid, p) for p, v in new.items() if p in need)]
        if still and need <= set(rec.init):
            c.bad('loops', '%s#%d' % (b.path, m), 'a turn leaves everything as it was', b.span)
        else:
            c.unknown('loops', '%s#%d' % (b.path, m), 'not seen to end')
    if not m:
        c.ok('loops', b.path, 'the number of turns is known, or less is left after each')
