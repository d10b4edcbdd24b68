"""P30-P32: what mapping, visiting and prettifying do to the nodes of a tree."""
from .common import *

CONTAINERS = ('HashElement', 'HashData', 'ArrayData', 'AliasedYaml')


def named(c, name, method, trait):
    b = c.crate.method(name, method, trait)
    allow([Interp(c.crate).fname(b)])
    return b


class Tree:
    """the values below a node: how each kind of container is taken apart and put together again"""

    def __init__(self, c):
        self.c = c
        self.L = Lib(c)

    def rebuilt(self, d, y, fn):
        """the node with fn(value) in place of every value directly below; None for a node without any"""
        L = self.L
        v = d.variant(y, L.n)
        if v == L.InlineHash:
            xs = fld(y, v, 0)
            return v, [Each(length(xs), lambda d, k: [one(mk('tup', (tfld(elem(xs, k), 0), fn(tfld(elem(xs, k), 1)))))])]
        if v == L.InlineArray:
            xs = fld(y, v, 0)
            return v, [Each(length(xs), lambda d, k: [one(fn(elem(xs, k)))])]
        if v == L.Hash or v == L.Array:
            xs = fld(y, v, 0)
            ty = 'HashData' if v == L.Hash else 'ArrayData'
            return v, [Each(length(xs), lambda d, k: [one(self.part(d, ty, elem(xs, k), fn))])]
        return v, None

    def part(self, d, ty, t, fn):
        L = self.L
        if ty == 'AliasedYaml':
            return L.make(L.alias, alias=L.f(L.alias, t, 'alias'), value=fn(L.inner(t)))
        if ty == 'HashElement':
            return L.make(L.he, key=L.f(L.he, t, 'key'), value=self.part(d, 'AliasedYaml', L.f(L.he, t, 'value'), fn))
        if ty == 'HashData':
            if not d.is_variant(t, L.hdE, 3):
                return t
            return mk('adt', L.hd, L.hdE, (self.part(d, 'HashElement', fld(t, L.hdE, 0), fn),))
        if not d.is_variant(t, L.adE, 3):
            return t
        return mk('adt', L.ad, L.adE, (self.part(d, 'AliasedYaml', fld(t, L.adE, 0), fn),))

    def places(self, d, ty, t):
        """the value with its anchor that an entry holds, if it is one"""
        L = self.L
        if ty == 'AliasedYaml':
            return [t]
        if ty == 'HashElement':
            return [L.f(L.he, t, 'value')]
        if ty == 'HashData':
            return [L.val_of(t)] if d.is_variant(t, L.hdE, 3) else []
        return [fld(t, L.adE, 0)] if d.is_variant(t, L.adE, 3) else []


def node_is(d, got, v, items, what):
    """got is a node of variant v whose contents are the items"""
    if got[0] != 'adt':
        return (False if understood(got) and d.st.excluded(got) else None), what
    if got[2] != v:
        d.why = 'a node of another kind'
        return False
    return match_seq(d, list(segs_of(got[3][0])), items)


def p30(c):
    c.rule('node', 'mapping a node maps each value below it, puts the results in their places, keeps all else and hands the node to the function')
    c.rule('order', 'the calls made: each value below is mapped once, then the function is called once with the rebuilt node')
    c.rule('part', 'mapping an entry maps the value it holds and keeps its key, anchor or comment')
    t = Tree(c)
    L = t.L
    b = named(c, 'Yaml', 'map_yaml', 'MapYaml')
    rec = Interp(c.crate).fname(b)
    n = 0
    y, F = mk('sym', 'y'), mk('fnp', 'f')
    M = lambda x: app(rec, x, F)
    run = analyse(c, b, [y, mk('mut', F)], opaque=[b.key])

    def spec(d, o):
        v, want = t.rebuilt(d, y, M)
        g = o.ret
        if g[0] != 'app' or g[1] != 'call' or g[2][0] is not F:
            return (False if understood(g) else None), 'the result %s is not what the function makes of the node' % show(g)[:200]
        if want is None:
            return match(d, g[2][1], y), 'a node without values below becomes %s before the function is called' % show(g[2][1])[:200]
        return node_is(d, g[2][1], v, want, 'rebuilt'), 'the node becomes %s before the function is called: %s' % (show(g[2][1])[:300], getattr(d, 'why', ''))

    def order(d, o):
        v, want = t.rebuilt(d, y, M)
        tr = list(segs_of(o.cells['trace']))
        if not tr:
            return (False if understood(o.ret) else None), 'the function is not called'
        last = tr[-1]
        if last[0] != 'one' or last[1] is not o.ret:
            return (False if understood(mk(*tr)) else None), 'the last call is not the one that gives the result: ' + show(last[1])[:200]
        xs = None
        if want is None:
            items = []
        else:
            xs = fld(y, v, 0)
            def item(d, k):
                e = elem(xs, k)
                if v == L.InlineHash:
                    return [one(M(tfld(e, 1)))]
                if v == L.InlineArray:
                    return [one(M(e))]
                return [one(M(L.inner(p))) for p in t.places(d, 'HashData' if v == L.Hash else 'ArrayData', e)]
            items = [Each(length(xs), item)]
        return match_seq(d, tr[:-1], items), 'the calls made before are ' + show(mk(*tr[:-1]))[:300]
    n += decide(c, 'node', 'Yaml::map_yaml', run, spec)
    n += decide(c, 'order', 'Yaml::map_yaml', run, order)
    for ty in CONTAINERS:
        bb = named(c, ty, 'map_yaml', 'MapYaml')
        e = mk('sym', 'e')
        run = analyse(c, bb, [e, mk('mut', F)], opaque=[b.key])

        def part(d, o):
            r = match(d, o.ret, t.part(d, ty, e, M))
            s = match_seq(d, list(segs_of(o.cells['trace'])), [one(M(L.inner(p))) for p in t.places(d, ty, e)])
            return conj((r, s)), 'the entry becomes %s; calls %s' % (show(o.ret)[:300], show(o.cells['trace'])[:200])
        n += decide(c, 'part', ty + '::map_yaml', run, part)
    c.floor('node', n, 20, 'cases of mapping')


def p31(c):
    c.rule('node', 'visiting a node calls the function for each value below that can carry an anchor, directly before visiting that value, in order, and descends into every other value once')
    c.rule('part', 'visiting an entry calls the function with the value it holds, then visits that value')
    t = Tree(c)
    L = t.L
    b = named(c, 'Yaml', 'visit_yaml', 'VisitYaml')
    rec = Interp(c.crate).fname(b)
    n = 0
    y, F = mk('sym', 'y'), mk('fnp', 'f')
    V = lambda x: one(app(rec, x, F))
    run = analyse(c, b, [y, mk('mut', F)], opaque=[b.key])

    def seen(d, ty, e):
        r = []
        for p in t.places(d, ty, e):
            r += [one(app('call', F, p)), V(L.inner(p))]
        return r

    def spec(d, o):
        v = d.variant(y, L.n)
        xs = fld(y, v, 0)
        if v == L.InlineHash:
            want = [Each(length(xs), lambda d, k: [V(tfld(elem(xs, k), 1))])]
        elif v == L.InlineArray:
            want = [Each(length(xs), lambda d, k: [V(elem(xs, k))])]
        elif v == L.Hash or v == L.Array:
            want = [Each(length(xs), lambda d, k: seen(d, 'HashData' if v == L.Hash else 'ArrayData', elem(xs, k)))]
        else:
            want = []
        return match_seq(d, list(segs_of(o.cells['trace'])), want), 'the calls made are %s: %s' % (show(o.cells['trace'])[:300], getattr(d, 'why', ''))
    n += decide(c, 'node', 'Yaml::visit_yaml', run, spec)
    for ty in CONTAINERS:
        bb = named(c, ty, 'visit_yaml', 'VisitYaml')
        e = mk('sym', 'e')
        run = analyse(c, bb, [e, mk('mut', F)], opaque=[b.key])
        n += decide(c, 'part', ty + '::visit_yaml', run, lambda d, o: (
            match_seq(d, list(segs_of(o.cells['trace'])), seen(d, ty, e)), 'the calls made are ' + show(o.cells['trace'])[:300]))
    c.floor('node', n, 14, 'cases of visiting')


def part_of(t, y):
    while t is not y and t[0] in ('fld', 'tfld', 'elem'):
        t = t[1]
    return t is y


class Prettied:
    """results of prettifying: every value below is prettified, for an inline or for a block context"""

    def __init__(self, c):
        self.c = c
        self.t = Tree(c)
        self.L = self.t.L
        cr = c.crate
        self.body = named(c, 'Yaml', 'pretty_with_options', 'Pretty')
        self.rec = Interp(cr).fname(self.body)
        self.format = cr.method('Yaml', 'format')
        self.opaque = [self.body.key, self.format.key]
        allow([Interp(cr).fname(self.format)])
        for n in ('create_folded', 'parse_folded', 'create_literal', 'parse_literal', 'parse_double_quoted_string', 'parse_single_quoted_string'):
            for b in cr.bodies.values():
                if b.name == n and b.kind == 'fn' and b.pub:
                    self.opaque.append(b.key)
                    allow([Interp(cr).fname(b)])

    def inl(self, t):
        return app('inline:pretty', t)

    def blk(self, t):
        return app('block:pretty', t)

    def before(self, d, g):
        """what values are prettified for an inline context: as they are (), or prettified before with these flags"""
        r = set()
        for t in subterms(g):
            if t[0] == 'app' and t[1] == self.rec and d.st.truth(t[2][1]) is True:
                x = t[2][0]
                r.add(x[2][1:] if x[0] == 'app' and x[1] == self.rec else ())
        return sorted(r, key=str)

    def canon(self, d):
        def fn(t):
            if t and t[0] == 'app' and t[1] == self.rec and len(t[2]) == 3:
                f = d.st.truth(t[2][1])
                x = t[2][0]
                if f is None:
                    return None
                if x[0] == 'app' and x[1] == ('inline:pretty' if f else 'block:pretty') or f and x[0] == 'app' and x[1] == 'block:pretty':
                    x = x[2][0]
                return self.inl(x) if f else self.blk(x)
            return None
        return Rewrite(fn)


def p32(c):
    c.rule('node', 'a prettified collection holds every entry of the original, in order, prettified for where it stands, with its key and anchor')
    c.rule('loses nothing', 'a block collection becomes inline only inside an inline collection or when no comment and no anchor would be lost')
    c.rule('scalar', 'a scalar stays a scalar, in an inline collection one that can stand there; a reference stays as it is')
    c.rule('part', 'a prettified entry keeps its key, anchor or comment')
    P = Prettied(c)
    t, L = P.t, P.L
    allow(['inline:pretty', 'block:pretty'])
    y, inl, coa = mk('sym', 'y'), mk('sym', 'in_inline'), mk('sym', 'child_of_array')
    run = analyse(c, P.body, [y, inl, coa], opaque=P.opaque)
    scalars = [L.SingleQuotedString, L.DoubleQuotedString, L.UnquotedString, L.FoldedString, L.LiteralString]
    n = 0
    lost = mk('sym', 'something that is kept')

    def spec(d, o):
        v = d.variant(y, L.n)
        g = o.ret
        got = g[2] if g[0] == 'adt' else v if g is y else None
        name = c.crate.variants(L.yaml)[got]['n'] if got is not None else show(g)[:200]
        if got is None:
            w = P.canon(d)(g)
            while w[0] == 'app' and w[1] in ('inline:pretty', 'block:pretty'):
                w = w[2][0]
            if w is not P.canon(d)(g) and w is not y and part_of(w, y):
                return False, 'the node becomes one of its own parts: ' + show(g)[:200]
            return None, 'gives ' + name
        if v == L.Anchor:
            return match(d, g, y), 'a reference becomes ' + name
        if v in scalars:
            if got not in scalars:
                return False, 'a scalar becomes ' + name
            if g is not y and got in scalars[3:] and v not in scalars[3:]:
                i = d.st.truth(inl)
                return (False if i else True if i is False else None), 'a %s inside an inline collection' % name
            return True
        if g is y:
            return (True if d.st.bounds(length(fld(y, v, 0)))[1] <= 0 else None), 'the entries are not prettified'
        g = P.canon(d)(g)
        xs = fld(y, v, 0)
        hash_ = v in (L.Hash, L.InlineHash)
        block = v in (L.Hash, L.Array)
        if got not in ((L.Hash, L.InlineHash) if hash_ else (L.Array, L.InlineArray)):
            return False, 'becomes ' + name
        if got in (L.Hash, L.Array):
            if not block:
                return False, 'an inline collection becomes ' + name
            i = d.st.truth(inl)
            if i is not False and d.st.bounds(length(xs))[1] > 0:
                return (False if i else None), 'a block collection inside an inline one'
            _, want = t.rebuilt(d, y, P.blk)
        elif not block:
            _, want = t.rebuilt(d, y, P.inl)
        else:
            inside = d.st.truth(inl)
            before = P.before(d, o.ret)

            def item(d, k):
                e = elem(xs, k)
                ps = t.places(d, 'HashData' if hash_ else 'ArrayData', e)
                if not ps:
                    return [] if inside else [one(lost)]
                p = ps[0]
                if not inside:
                    # what the part becomes is asked first: whether there is an anchor may have been asked for some kinds only
                    kinds = [d.variant(app(P.rec, L.inner(p), *b) if b else L.inner(p), L.n) for b in before]
                    if d.variant(L.f(L.alias, p, 'alias'), 2) == 1 or any(k_ in (L.Hash, L.Array, L.FoldedString, L.LiteralString) for k_ in kinds):
                        return [one(lost)]
                x = P.inl(L.inner(p))
                return [one(mk('tup', (L.key_of(e), x)) if hash_ else x)]
            want = [Each(length(xs), item)]
        return match_seq(d, list(segs_of(g[3][0])), want), 'becomes %s: %s' % (show(g)[:300], getattr(d, 'why', ''))
    n += decide(c, 'node', 'Yaml::pretty_with_options', run, spec)
    for ty in CONTAINERS:
        bb = named(c, ty, 'pretty_with_options', 'Pretty')
        e = mk('sym', 'e')
        rc = analyse(c, bb, [e, inl, coa], opaque=[P.body.key])

        def part(d, o):
            i = d.test(inl)
            w = t.part(d, ty, e, P.inl if i else P.blk)
            g = P.canon(d)(o.ret)
            return match(d, g, w), 'the entry becomes ' + show(g)[:300]
        n += decide(c, 'part', ty + '::pretty_with_options', rc, part)
    c.floor('node', n, 30, 'cases of prettifying')
    bb = named(c, 'Document', 'pretty_with_options', 'Pretty')
    e = mk('sym', 'e')
    rc = analyse(c, bb, [e, FALSE, FALSE], opaque=[P.body.key])

    def document(d, o):
        g = P.canon(d)(o.ret)
        if g[0] != 'adt':
            return None, show(g)[:200]
        com = L.fi(L.doc, 'leading_comments')
        its = L.fi(L.doc, 'items')
        xs = L.f(L.doc, e, 'items')

        def item(d, k):
            z = elem(xs, k)
            if not d.is_variant(z, L.ddY, 2):
                return [one(z)]
            return [one(mk('adt', L.dd, L.ddY, (P.blk(fld(z, L.ddY, 0)),)))]
        return conj((match(d, g[3][com], L.f(L.doc, e, 'leading_comments')), match_seq(d, list(segs_of(g[3][its])), [Each(length(xs), item)]))), \
            'the document becomes %s: %s' % (show(g)[:300], getattr(d, 'why', ''))
    decide(c, 'part', 'Document::pretty_with_options', rc, document)
