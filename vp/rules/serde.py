"""P40-P46: serialization and deserialization."""
from .common import *
from .. import numbers
from ..concrete import Unknown, parse, Eval

SER = 'Serialize::serialize'
SEED = 'DeserializeSeed::deserialize'
TEXT = ('visit_string', 'visit_str', 'visit_borrowed_str')
SEQS = ('deserialize_seq', 'deserialize_tuple', 'deserialize_tuple_struct', 'deserialize_bytes', 'deserialize_byte_buf')
MAPS = ('deserialize_map', 'deserialize_struct')
allow(['cell', 'BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor', 'Shl::shl', 'Shr::shr'])
NUMS = ('i8', 'i16', 'i32', 'i64', 'i128', 'u8', 'u16', 'u32', 'u64', 'u128', 'f32', 'f64')


def passed_on(run):
    """taking a result apart and answering both halves unchanged is answering that result"""
    def whole(o):
        r = o.ret
        if r[0] == 'adt' and r[1] == RES and len(r[3]) == 1 and r[3][0][0] == 'fld':
            f = r[3][0]
            x = f[1]
            if f[2] == r[2] and f[3] == 0 and x[0] == 'app' and (x[1] == SER or x[1].startswith('Visitor::visit_')) and o.st.variant(x) == r[2]:
                return x
    ws = [(o, whole(o)) for o in run.outs]
    good = {o.ret for o in run.outs} | {x for o, x in ws if x is not None and o.ret[2] == 0}
    for o, x in ws:
        if x in good:
            o.ret = x
    return run


class De:
    """the methods of the deserializer, run on a tree `yaml` with known anchors"""

    def __init__(self, c):
        self.c = c
        cr = c.crate
        self.L = Lib(c)
        self.adt = cr.adt_named('YamlDeserializer')
        s = mk('sym', 'self')
        self.fields = cr.variants(self.adt)[0]['f']
        self.self = s
        self.yaml = self.anch = None
        self.iy = self.ia = None
        for i, f in enumerate(self.fields):
            if head(cr.ty(f[1])) == self.L.yaml:
                self.iy = i
            else:
                self.ia = i
        if self.iy is None or len(self.fields) != 2:
            raise Lost('the deserializer does not hold a tree and its anchors')
        self.yaml, self.anch = fld(s, 0, self.iy), fld(s, 0, self.ia)
        self.visitor = mk('fnp', 'visitor')
        self.seed = mk('fnp', 'seed')
        allow(['Visitor::' + x for x in TEXT + ('visit_seq', 'visit_map', 'visit_enum', 'visit_unit', 'visit_none', 'visit_some', 'visit_bool', 'visit_newtype_struct')
               + tuple('visit_' + n for n in NUMS)] + [SER, SEED, 'FnOnce::call_once', 'mapins', 'mapget'] + ['parse:' + n for n in NUMS])

    def body(self, m, of='YamlDeserializer', trait='Deserializer'):
        try:
            return self.c.crate.method(of, m, trait)
        except KeyError:
            raise Lost('%s of %s not found' % (m, of))

    def on(self, y, a):
        fs = [None, None]
        fs[self.iy], fs[self.ia] = y, a
        return mk('adt', self.adt, 0, tuple(fs))

    def ydata(self, t):
        """the tree and anchors a deserializer value holds"""
        if t[0] == 'adt' and t[1] == self.adt or t[0] in ('sym', 'fld', 'app'):
            return fld(t, 0, self.iy), fld(t, 0, self.ia)
        return None

    def args(self, b, first):
        args = [first]
        for i in range(1, b.argc):
            t = self.c.crate.ty(b.locals[i + 1])
            args.append((self.visitor if self.is_visitor(b, t) else self.seed) if t[0] == 'param' else mk('sym', 'a%d' % i))
        return args

    def is_visitor(self, b, t):
        return not b.path.endswith('_seed') and not b.name.endswith('_seed')

    def run(self, m, opaque=(), on=None, facts=()):
        b = self.body(m)
        return passed_on(self.go(b, self.args(b, on if on is not None else self.self), facts, opaque))

    def go(self, b, args, facts=(), opaque=()):
        def setup(st):
            q = st
            for f in facts:
                q = q.add_facts(mk(f)) if q is not None else None
            return q
        self.watched = []
        return analyse(self.c, b, args, opaque=opaque, setup=setup if facts else None, watch=self.watched)

    def at_call(self, h):
        """the anchors known when the seed is asked, in one outcome of `hand`; None where it cannot be told"""
        p, call, watched = h[0], h[3], h[4]
        held = set(p.facts)
        sts = [st for t, st in watched if t is call and set(st.facts_since(None)) <= held]
        got = {st.cells.get(mk('rgn', self.anch), self.anch) for st in sts}
        return got.pop() if len(got) == 1 else None

    def events(self, o):
        return seg_list(o.cells['trace'])

    def fails(self, d, o):
        """an error, without asking the visitor for anything"""
        if self.events(o):
            return False
        r = o.ret
        if r[0] == 'adt':
            return r[2] == 1
        return None

    def event(self, o):
        """the one call made, if it is also the answer"""
        ev = self.events(o)
        if len(ev) == 1 and ev[0][0] == 'one' and ev[0][1][0] == 'app' and ev[0][1] is o.ret:
            return ev[0][1][1].split('::')[-1], list(ev[0][1][2])
        return None

    def visits(self, d, o, name, *args):
        ev = self.events(o)
        if len(ev) != 1 or ev[0][0] != 'one' or ev[0][1][0] != 'app':
            if not ev and o.ret[0] == 'adt' and o.ret[2] == 1:
                return False, 'fails with ' + show(o.ret)[:200]
            return None
        e = ev[0][1]
        if e is not o.ret:
            return None
        nm = e[1].split('::')[-1]
        if nm not in ((name,) if isinstance(name, str) else name):
            return (False if nm.startswith('visit_') else None), 'answers %s' % show(e)[:300]
        if e[2][0] is not self.visitor:
            return None
        if len(e[2]) != 1 + len(args):
            return None
        return conj(match(d, a, b) for a, b in zip(e[2][1:], args)), 'answers %s' % show(e)[:300]

    def visits_text(self, d, o, t):
        return self.visits(d, o, TEXT, t)

    # ------------------------------------------------------------ what access objects hand out
    def iter_field(self, acc):
        fs = [i for i, x in enumerate(acc[3]) if x[0] == 'iter'] if acc[0] == 'adt' else []
        if len(fs) != 1 or acc[3][fs[0]][2] is not INT(0) or acc[3][fs[0]][3] is not INT(0):
            raise Undecided('the access object is not an iteration over the elements')
        return fs[0]

    def with_iter(self, acc, it):
        i = self.iter_field(acc)
        return mk('adt', acc[1], acc[2], acc[3][:i] + (it,) + acc[3][i + 1:])

    def seeded(self, o):
        """the deserializer given to the seed by the one call of this outcome"""
        ev = self.events(o)
        if len(ev) != 1 or ev[0][0] != 'one' or ev[0][1][0] != 'app' or not ev[0][1][1].endswith(SEED) or ev[0][1][2][0] is not self.seed:
            return None
        return ev[0][1][2][1], ev[0][1]

    def hand(self, acc, x, facts=()):
        """[(outcome, trees handed over, anchors used)] for an access object holding exactly the item x"""
        nm = acc[1].split('::')[-1]
        one_ = self.with_iter(acc, mk('iter', mk(one(x)), INT(0), INT(0)))
        cr = self.c.crate
        out = []
        if self.is_map(acc):
            bk, bv = self.body('next_key_seed', nm, 'MapAccess'), self.body('next_value_seed', nm, 'MapAccess')
            for o in self.go(bk, self.args(bk, mk('mut', one_)), facts).outs:
                s = self.seeded(o)
                if s is None:
                    raise Undecided('a key is not handed over by one call')
                if o.st.variant(s[1]) == 1:
                    continue
                I = Interp(cr)
                st = o.st.copy()
                st.cells['trace'] = EMPTY
                st.cells.pop(mk('arg', 0), None)
                I.heap = 100
                I.nvariants.update(getattr(o.I, 'nvariants', {}))
                I.watch = []
                outs = I.run(bv, self.args(bv, mk('mut', o.cells[0])), st=st)
                self.c.seen(I, outs)
                for p in outs:
                    v = self.seeded(p)
                    if v is None:
                        raise Undecided('a value is not handed over by one call')
                    (yk, ak), (yv, av) = self.ydata(s[0]), self.ydata(v[0])
                    out.append((p, mk('tup', (yk, yv)), av, v[1], I.watch))
        else:
            b = self.body('next_element_seed', nm, 'SeqAccess')
            for o in self.go(b, self.args(b, mk('mut', one_)), facts).outs:
                s = self.seeded(o)
                if s is None:
                    raise Undecided('an element is not handed over by one call')
                y, a = self.ydata(s[0])
                out.append((o, y, a, s[1], self.watched))
        return out

    def is_map(self, acc):
        try:
            self.c.crate.method(acc[1].split('::')[-1], 'next_key_seed', 'MapAccess')
            return True
        except KeyError:
            return False

    def tree_of(self, acc, x, facts=()):
        ys = {h[1] for h in self.hand(acc, x, facts)}
        if len(ys) != 1:
            raise Undecided('what is handed over depends on more than the item')
        return ys.pop()

    def handed(self, acc):
        """everything an access object hands out, as a sequence"""
        it = acc[3][self.iter_field(acc)]
        segs = []
        for s in it[1]:
            if s[0] == 'one':
                segs.append(one(self.tree_of(acc, s[1])))
                continue
            if s[0] == 'all':
                v = mk('bv', 900)
                s = ('each', length(s[1]), v, ((mk(), mk(one(elem(s[1], v)))),))
            n, var, variants = s[1], s[2], s[3]
            k = mk('sym', 'item')
            sb, back = Subst({var: k}), Subst({k: var})
            vs = []
            for fs, inner in variants:
                out = []
                if len(inner) == 1 and inner[0][0] == 'one':
                    hs = self.hand(acc, sb(inner[0][1]), sb(fs))
                    if len({h[1] for h in hs}) > 1:
                        # which tree it is may depend on the item itself
                        for h in hs:
                            new = [f for f in h[0].facts if f not in fs and sb(f) not in sb(fs)]
                            new = [f for f in new if not any_sub(f, lambda t: t is self.seed or t is self.visitor)]
                            if not all(understood(f) for f in new):
                                raise Undecided('what is handed over depends on more than the item')
                            vs.append(mk(mk(*(list(fs) + [back(f) for f in new])), mk(back(one(h[1])))))
                        continue
                for x in inner:
                    if x[0] != 'one':
                        raise Undecided('elements of elements')
                    out.append(back(one(self.tree_of(acc, sb(x[1]), sb(fs)))))
                vs.append(mk(fs, mk(*out)))
            segs.append(rebuild_binder('each', n, var, [mk(*vs)], None))
        return seq(segs)

    # ------------------------------------------------------------ required contents
    def elements(self, d, y):
        """the data elements of a sequence node, None for other nodes"""
        L = self.L
        v = d.variant(y, L.n)
        if v == L.InlineArray:
            return Seq(all_(fld(y, v, 0)))
        if v == L.Array:
            data = fld(y, v, 0)

            def item(dd, k):
                e = elem(data, k)
                return [one(L.inner(fld(e, L.adE, 0)))] if dd.variant(e, len(self.c.crate.variants(L.ad))) == L.adE else []
            return Seq(Each(length(data), item))
        return None

    def entries(self, d, y):
        L = self.L
        v = d.variant(y, L.n)
        key = lambda k: mk('adt', L.yaml, L.UnquotedString, (k,))
        if v == L.InlineHash:
            data = fld(y, v, 0)
            return Seq(Each(length(data), lambda dd, k: [one(mk('tup', (key(tfld(elem(data, k), 0)), tfld(elem(data, k), 1))))]))
        if v == L.Hash:
            data = fld(y, v, 0)

            def item(dd, k):
                e = elem(data, k)
                if dd.variant(e, len(self.c.crate.variants(L.hd))) != L.hdE:
                    return []
                return [one(mk('tup', (key(L.key_of(e)), L.inner(L.val_of(e)))))]
            return Seq(Each(length(data), item))
        return None

    def visits_all(self, d, o, name, want):
        e = self.event(o)
        if e is None:
            if not self.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1:
                return False, 'fails with ' + show(o.ret)[:200]
            return None
        if e[0] != name:
            return (False if e[0].startswith('visit_') else None), 'answers ' + e[0]
        h = self.handed(e[1][1])
        try:
            r = match(d, h, want)
        except Undecided:
            r = None
        if r is None:
            sorts = {t: t[2][0] for t in subterms(h) if t[0] == 'app' and t[1].startswith('sort')}
            if sorts and match(d, Subst(sorts)(h), want) is True:
                return False, 'hands over the items in another order: ' + show(h)[:300]
            return match(d, h, want), 'hands over ' + show(h)[:400]
        return r, 'hands over ' + show(h)[:400]

    def collection(self, d, o, y, kind, strict=True):
        """the answer for a request for a sequence or map"""
        want = self.elements(d, y) if kind == 'seq' else self.entries(d, y)
        if want is None:
            return (self.fails(d, o), 'another node is read as a %s: %s' % (kind, show(o.ret)[:200])) if strict else True
        return self.visits_all(d, o, 'visit_' + kind, want)


def steps(c, de, acc, label):
    """one item per call, in order, nothing after the last"""
    cr = c.crate
    q, p = mk('sym', 'items'), mk('sym', 'position')
    nm = acc[1].split('::')[-1]
    A = de.with_iter(acc, mk('iter', mk(all_(q)), p, INT(0)))
    b = de.body('next_key_seed' if de.is_map(acc) else 'next_element_seed', nm, 'MapAccess' if de.is_map(acc) else 'SeqAccess')

    def setup(st):
        st.set_rng(p, 0, INF)
        st.set_rng(sub(length(q), p), 0, INF)
        return st
    run = analyse(c, b, de.args(b, mk('mut', A)), setup=setup)
    ix = de.iter_field(acc)

    def spec(d, o):
        it = fld(o.cells[0], 0, ix)
        if not d.test(lt(p, length(q))):
            if de.events(o):
                return False, 'hands over something after the last item'
            return match(d, o.ret, mk('adt', RES, 0, (NONE,))), 'answers %s after the last item' % show(o.ret)[:200]
        s = de.seeded(o)
        if s is None:
            if not de.events(o):
                return False, 'hands over nothing for an item: ' + show(o.ret)[:200]
            return None
        e = elem(q, p)
        if it[0] == 'iter':
            if not (it[1] and it[1][0] is all_(q)):
                return None
            if match(d, it[2], add(p, INT(1))) is False:
                return False, 'goes on at %s' % show(it[2])[:200]
        y = de.ydata(s[0])[0]
        other = [x for x in subterms(y) if x[0] == 'elem' and x[1] is q and x is not e]
        if other:
            return False, 'hands over ' + show(y)[:200]
        return True
    n = decide(c, 'next', label, run, spec)
    c.floor('next', n, 3, 'cases of ' + label)


def accesses(c, de):
    """the access objects that deserialize_seq and deserialize_map answer with"""
    out = {}
    for m in ('deserialize_seq', 'deserialize_map'):
        for o in de.run(m).outs:
            e = de.event(o)
            if e and e[0] in ('visit_seq', 'visit_map') and e[1][1][0] == 'adt' and o.st.variant(de.yaml) not in (None, de.L.Anchor):
                out.setdefault(e[1][1][1], e[1][1])
    return out


def p45(c):
    c.rule('seq', 'a sequence node hands over the value of each element once, in order, comments nothing; other nodes are errors')
    c.rule('map', 'a mapping node hands over key and value of each entry once, in order, each key with its own value; other nodes are errors')
    c.rule('untyped', 'untyped reading of a collection hands over the same')
    c.rule('next', 'every call hands over the next item and nothing after the last')
    de = De(c)
    n = 0
    for m in SEQS + MAPS:
        kind = 'seq' if m in SEQS else 'map'
        run = de.run(m)

        def spec(d, o):
            if d.variant(de.yaml, de.L.n) == de.L.Anchor:
                return True
            return de.collection(d, o, de.yaml, kind)
        n += decide(c, kind, m, run, spec)
    run = de.run('deserialize_any')

    def both(d, o):
        if d.variant(de.yaml, de.L.n) == de.L.Anchor:
            return True
        a = de.collection(d, o, de.yaml, 'seq', False)
        if a is not True:
            return a
        return de.collection(d, o, de.yaml, 'map', False)
    n += decide(c, 'untyped', 'deserialize_any', run, both)
    c.floor('seq', n, 50, 'kinds of node and element')
    ac = accesses(c, de)
    for path, acc in sorted(ac.items()):
        steps(c, de, acc, path.split('::')[-1])
    c.floor('next', len(ac), 2, 'access objects')


# ---------------------------------------------------------------- P46
def seg_elements(data, n, want):
    """the each segment over `data` that keeps the entries of variant `want`"""
    k = mk('bv', 900)
    return rebuild_binder('each', n, k, [mk(mk(mk(mk('is', elem(data, k), want)), mk(one(UNIT))))], None)


def enum_access(de, o):
    e = de.event(o)
    if e is None:
        return None
    return e


def enum_parts(de, E, facts=()):
    """(tree of the variant name, the deserializer for the content)"""
    b = de.body('variant_seed', E[1].split('::')[-1], 'EnumAccess')
    res = set()
    for o in de.go(b, de.args(b, E), facts).outs:
        s = de.seeded(o)
        if s is None:
            raise Undecided('the variant name is not handed over by one call')
        v = o.st.variant(s[1])
        if v == 1:
            continue
        r = fld(o.ret, 0, 0)
        res.add((de.ydata(s[0]), tfld(r, 1)))
    if len(res) != 1:
        raise Undecided('several ways to hand over the variant')
    return res.pop()


# what gives another text for some texts, whichever scalar they come from
ALTERS = ('trim', 'trim_end', 'trim_start', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase')


def scalar_text(x, d, y):
    t = x.text(d, y)
    if t is None:
        raise Undecided('not a scalar')
    return t


def visits_variant(de, x, d, o, name_text, content):
    """o answers with the variant of this name and content (None: any content)"""
    e = de.event(o)
    if e is None:
        if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1:
            return False, 'fails with ' + show(o.ret)[:200]
        return None
    if e[0] != 'visit_enum':
        return (False if e[0].startswith('visit_') else None), 'answers ' + e[0]
    if e[1][1][0] != 'adt':
        return None
    (yn, an), V = enum_parts(de, e[1][1])
    t = scalar_text(x, d, yn)
    r = match(d, t, name_text)
    if r is not True or content is None:
        return r, 'names the variant ' + show(t)[:300]
    yc = de.ydata(V)[0]
    return match(d, yc, content), 'variant content is ' + show(yc)[:300]


def p46(c):
    from .strings import Texts
    c.rule('text', 'a text scalar is the variant of that name')
    c.rule('mapping', 'a mapping is a variant exactly if it has one entry: its key names the variant, its value is the content')
    c.rule('other', 'every other shape is an error')
    c.rule('content', 'the content is what newtype, tuple and struct variants read')
    x = Texts(c)
    de = De(c)
    L = de.L
    run = de.run('deserialize_enum', opaque=[x.folded])
    y = de.yaml
    n = {'text': 0, 'mapping': 0, 'other': 0}
    acc = []

    def spec(d, o):
        v = d.variant(y, L.n)
        if v == L.Anchor:
            return True
        t = x.text(d, y)
        if t is not None:
            return visits_variant(de, x, d, o, t, None)
        if v == L.Hash:
            data = fld(y, v, 0)
            sg = seg_elements(data, length(data), L.hdE)
            if d.test(eqi(app('count', sg), INT(1))):
                e = elem(data, mk_nth(sg[1], sg[2], sg[3], INT(0)))
                return visits_variant(de, x, d, o, L.key_of(e), L.inner(L.val_of(e)))
            return de.fails(d, o), 'a mapping without exactly one entry is accepted: ' + show(o.ret)[:200]
        if v == L.InlineHash:
            data = fld(y, v, 0)
            if d.test(eqi(length(data), INT(1))):
                e = elem(data, INT(0))
                return visits_variant(de, x, d, o, tfld(e, 0), tfld(e, 1))
            return de.fails(d, o), 'a mapping without exactly one entry is accepted: ' + show(o.ret)[:200]
        return de.fails(d, o), 'another node is accepted: ' + show(o.ret)[:200]

    for v, rule in [(i, 'text') for i in (L.UnquotedString, L.SingleQuotedString, L.DoubleQuotedString, L.FoldedString, L.LiteralString)] + \
            [(L.Hash, 'mapping'), (L.InlineHash, 'mapping'), (L.Array, 'other'), (L.InlineArray, 'other')]:
        sub_ = Run(run.I, [o for o in run.outs if o.st.variant(y) in (v, None) and v not in o.st.excluded(y)], run.body, run.args)
        n[rule] += decide(c, rule, 'deserialize_enum of ' + c.crate.vname(L.yaml, v), sub_, lambda d, o: spec(d, o) if d.variant(y, L.n) == v else True)
    for v, k in ((L.Hash, 'Hash'), (L.InlineHash, 'InlineHash')):
        data = fld(y, v, 0)
        cnt = app('count', seg_elements(data, length(data), L.hdE)) if v == L.Hash else length(data)
        some = [o for o in run.outs if o.st.variant(y) in (v, None) and v not in o.st.excluded(y)]
        empty = [o for o in some if o.st.add_facts(mk(('is', y, v), ('eq', cnt, 0))) is not None]
        c.check('mapping', 'deserialize_enum of an empty ' + k, bool(empty) if some else None, 'an empty mapping gets no answer, not even an error', run.body.span)
    c.floor('text', n['text'], 5, 'kinds of text')
    c.floor('mapping', n['mapping'], 4, 'mapping cases')
    # what the content is read with
    self_ = mk('sym', 'self')
    vs = [h for t, ims in c.crate.impls.items() if t.split('::')[-1] == 'VariantAccess' for h in ims]
    c.floor('content', len(vs), 1, 'variant content readers')
    b = de.body('newtype_variant_seed', trait='VariantAccess')

    def newtype(d, o):
        s = de.seeded(o)
        if s is None:
            return None
        return conj((match(d, s[0], self_), match(d, o.ret, s[1]))), 'reads ' + show(s[0])[:200]
    decide(c, 'content', 'newtype_variant_seed', de.go(b, de.args(b, self_)), newtype)
    for m, kind in (('tuple_variant', 'seq'), ('struct_variant', 'map')):
        b = de.body(m, trait='VariantAccess')
        decide(c, 'content', m, de.go(b, de.args(b, self_)),
               lambda d, o: True if d.variant(y, L.n) == L.Anchor else de.collection(d, o, y, kind))
    b = de.body('unit_variant', trait='VariantAccess')
    decide(c, 'content', 'unit_variant', de.go(b, de.args(b, self_)), lambda d, o: o.ret[0] == 'adt' or None)


# ---------------------------------------------------------------- P41, P43
NULLS = ('~', 'null', 'Null', 'NULL', '')
BOOLS = ('true', 'True', 'TRUE', 'yes', 'Yes', 'YES', 'on', 'On', 'ON', 'y', 'Y', 'false', 'False', 'FALSE', 'no', 'No', 'NO', 'off', 'Off', 'OFF', 'n', 'N')


MEANS = {w: ('null' if w in NULLS else 'true' if w.lower() in ('true', 'yes', 'on', 'y') else 'false') for w in NULLS + BOOLS}


def words_of(run):
    """every literal a method compares text with"""
    out = set()
    for o in run.outs:
        for f in o.facts:
            for t in subterms(f):
                if isinstance(t, T) and t[0] == 'str':
                    out.add(t[1])
    return out


def reading(de, m, w):
    """set of meanings of the plain word w for method m"""
    y = mk('adt', de.L.yaml, de.L.UnquotedString, (STR(w),))
    out = set()
    for o in de.run(m, on=de.on(y, de.anch)).outs:
        e = de.event(o)
        if e is None:
            out.add('error' if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1 else '?')
        elif e[0] == 'visit_bool':
            b = e[1][1]
            out.add('true' if b is TRUE else 'false' if b is FALSE else '?')
        elif e[0] in ('visit_unit', 'visit_none'):
            out.add('null')
        elif e[0] == 'visit_some':
            out.add('some')
        elif e[0] in TEXT:
            out.add('text')
        else:
            out.add(e[0].replace('visit_', ''))
    return out


def ser_run(c, m, *args):
    b = c.crate.method('YamlSerializer', m, 'Serializer')
    s = mk('sym', 'self')
    return passed_on(analyse(c, b, [s] + list(args) + [mk('sym', 'a%d' % i) for i in range(1 + len(args), b.argc)]))


def p41(c):
    c.rule('written', 'the words written for null, true and false are read as null, true and false, by typed and untyped reading')
    c.rule('agree', 'no word has two special meanings: untyped, boolean and optional reading agree, and no word is read as the opposite of what it means in YAML')
    c.rule('plain only', 'quoted and block text is never null or boolean')
    de = De(c)
    L = de.L
    cr = c.crate
    # writer
    n = 0
    for m, arg, want in (('serialize_bool', TRUE, 'true'), ('serialize_bool', FALSE, 'false'), ('serialize_none', None, 'null'), ('serialize_unit', None, 'null'),
                         ('serialize_unit_struct', None, 'null')):
        run = ser_run(c, m, *([arg] if arg is not None else []))
        for o in run.outs:
            r = o.ret
            if r[0] != 'adt' or r[2] != 0 or r[3][0][0] != 'adt' or r[3][0][1] != L.yaml:
                c.unknown('written', m, 'written as ' + show(r)[:200])
                continue
            y = r[3][0]
            if y[2] != L.UnquotedString:
                c.check('written', '%s %s' % (m, want), None if not understood(y) else False, 'written as %s, which is text' % show(y)[:200], run.body.span)
                continue
            if y[3][0][0] != 'str':
                c.unknown('written', m, 'written as ' + show(y)[:200])
                continue
            for rm in ('deserialize_any',) + (('deserialize_option', 'deserialize_unit') if want == 'null' and m != 'serialize_unit_struct' else ('deserialize_bool',) if want != 'null' else ('deserialize_unit_struct',)):
                got = reading(de, rm, y[3][0][1])
                n += 1
                c.check('written', '%s %s, %s' % (m, want, rm), True if got == {want} else None if '?' in got or len(got) != 1 else False,
                        '"%s" is written for %s and read as %s' % (y[3][0][1], want, ' or '.join(sorted(got))), run.body.span)
    c.floor('written', n, 9, 'written words')
    # readers
    words = set(NULLS) | set(BOOLS)
    for m in ('deserialize_any', 'deserialize_bool', 'deserialize_option'):
        words |= words_of(de.run(m))
    c.floor('agree', len(words), 20, 'words')
    # and what a reader that is less exact would take for one of them
    words |= {f(w) for w in words for f in (str.upper, str.lower, str.title, str.swapcase, lambda w: ' ' + w, lambda w: w + ' ', lambda w: w + '\t', lambda w: w + '.')} | {''}
    for w in sorted(words):
        a, b, o = (reading(de, m, w) for m in ('deserialize_any', 'deserialize_bool', 'deserialize_option'))
        if '?' in a | b | o or len(a) != 1 or len(b) != 1 or len(o) != 1:
            c.unknown('agree', w, 'reads as %s, %s, %s' % (a, b, o))
            continue
        (a,), (b,), (o,) = a, b, o
        ok = True
        if a in ('true', 'false') and b in ('true', 'false') and a != b:
            ok = False
        if a in ('true', 'false') and b == 'error':
            ok = False
        if (a == 'null') != (o == 'null'):
            ok = False
        if b in ('true', 'false') and 'null' in (a, o):
            ok = False
        if w in MEANS and {a, b} & {'true', 'false', 'null'} - {MEANS[w]}:
            ok = False
        c.check('agree', '"%s"' % w, ok, '"%s" is %s untyped, %s as a boolean, %s as an option' % (w, a, b, o), de.body('deserialize_any').span)
    # other nodes
    run = de.run('deserialize_any')
    y = de.yaml

    def never(d, o, special):
        v = d.variant(y, L.n)
        if v in (L.UnquotedString, L.Anchor):
            return True
        e = de.event(o)
        if e is None:
            return True if de.fails(d, o) else None
        return e[0] not in special, 'a %s answers %s' % (cr.vname(L.yaml, v), e[0])
    k = decide(c, 'plain only', 'deserialize_any', run, lambda d, o: never(d, o, ('visit_unit', 'visit_none', 'visit_bool')))
    k += decide(c, 'plain only', 'deserialize_bool', de.run('deserialize_bool'), lambda d, o: never(d, o, ('visit_bool',)))
    k += decide(c, 'plain only', 'deserialize_option', de.run('deserialize_option'), lambda d, o: never(d, o, ('visit_unit', 'visit_none')))
    c.floor('plain only', k, 24, 'kinds of node')


def holds(a, b):
    """every value of number type a fits in b"""
    from ..models import INTS
    if a[0] == 'f' or b[0] == 'f':
        return a[0] == b[0] and int(a[1:]) <= int(b[1:])
    (l, h), (m, k) = INTS[a], INTS[b]
    return m <= l and h <= k


def unconverted(g):
    """(innermost number, the types it is converted through, outermost first)"""
    ts = []
    while True:
        if g[0] == 'app' and g[1].startswith('cast:'):
            ts.append(g[1][5:])
            g = g[2][0]
        elif g[0] == 'app' and g[1] == 'From::from':
            g = g[2][0]
        else:
            return g, ts


def lossless(ts, source):
    """conversions ts (outermost first) starting from a number of type source"""
    for t in reversed(ts):
        if t not in NUMS or source not in NUMS:
            return None
        if not holds(source, t):
            return False
        source = t
    return True


# what can be asked of a float without bounding it
DENSE = ('is_finite', 'is_nan', 'is_infinite', 'fract', 'trunc', 'is_sign_positive', 'is_sign_negative', 'is_normal')


def miswritten(run, L, v, t):
    """an example of a number whose text is another number's or none's"""
    for x in numbers.examples(t):
        e = numbers.Num(run.I.loops, {v: x})
        e.width = int(t[1:]) if t[0] == 'f' else 64
        for o in run.outs:
            try:
                if not e.all(o.facts):
                    continue
                y = e.ev(o.ret)
            except Unknown:
                continue
            if not (isinstance(y, tuple) and y and y[0] == 'adt' and y[2] == 0):
                continue
            y = y[3][0]
            if not (isinstance(y, tuple) and y and y[0] == 'adt' and y[1] == L.yaml and y[2] == L.UnquotedString):
                continue
            w = str(y[3][0])
            r = numbers.read(w, t)
            if r is None or not numbers.same(r, x):
                return '%s is written as %s' % (numbers.shown(x), w)
    return None


def misread(de, run, t):
    """an example of a plain text that is read as another number than it says, as a number though it is none, or not at all"""
    for s in numbers.TEXTS:
        e = numbers.Num(run.I.loops, {de.yaml: ('adt', de.L.yaml, de.L.UnquotedString, [s])})
        e.width = int(t[1:]) if t[0] == 'f' else 64
        want = numbers.meant(s, t)
        for o in run.outs:
            try:
                if not e.all(o.facts):
                    continue
                ev = de.event(o)
                if ev is None:
                    if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1 and parse(t, s)[2] == 0:
                        return 'the text %r is refused as a number of type %s' % (s, t)
                    continue
                if not ev[0].startswith('visit_') or ev[0][6:] not in NUMS or len(ev[1]) != 2:
                    continue
                g = e.ev(ev[1][1])
            except Unknown:
                continue
            w = g.w if isinstance(g, numbers.F) else 0
            if (w == 0) != (t[0] != 'f'):
                continue
            if not want:
                return 'the text %r is read as the number %s' % (s, numbers.shown(g))
            if w not in want:
                return 'the text %r is read as a float of %d bits where %s is asked for' % (s, w, t)
            if not numbers.same(want[w], g):
                return 'the text %r is read as %s' % (s, numbers.shown(g))
    return None


def p43(c):
    from .strings import Texts
    c.rule('written', 'a number is written as exactly its own decimal text, plain')
    c.rule('typed', 'a number is read by a parser of a type that holds every value of the requested type, handed over unchanged; text that is no number and other nodes are errors')
    c.rule('untyped', 'plain text that parses as an integer is handed over as that integer, at a width that holds it')
    x = Texts(c)
    de = De(c)
    L = de.L
    n = 0
    v = mk('sym', 'v')
    for t in NUMS:
        run = ser_run(c, 'serialize_' + t, v)

        def wr(d, o):
            if o.ret[0] != 'adt' or o.ret[2] != 0:
                return False if o.ret[0] == 'adt' else None, 'fails'
            y = fld(o.ret, 0, 0)
            if y[0] == 'adt' and y[2] == L.UnquotedString:
                z = y[3][0]
                if z[0] == 'app' and z[1] == 'display':
                    g, ts = unconverted(z[2][0])
                    if g is v:
                        return lossless(ts, t), 'converted to %s before it is written' % ' and '.join(reversed(ts))
                if z[0] == 'app' and z[1] == 'fmtspec' and t[0] == 'f':
                    return False, 'written with a fixed format'
            return match(d, y, mk('adt', L.yaml, L.UnquotedString, (app('display', v),))), 'written as ' + show(y)[:200]
        lost = set()
        for o in run.outs if t[0] == 'f' else ():
            # a whole number need not fit an integer type, whatever else the conditions say short of comparing it
            for z in subterms(o.ret):
                if z[0] == 'app' and z[1] == 'display' and unconverted(z[2][0])[0] is v and lossless(unconverted(z[2][0])[1], t) is not True and all(
                        f[0] == 'b' and f[1][0] == 'app' and (f[1][1] == 'eq' or f[1][1].split('::')[-1] in DENSE) for f in o.facts if any_sub(f, lambda q: q is v)):
                    lost.add(' and '.join(reversed(unconverted(z[2][0])[1])))
        if lost:
            c.bad('written', t, 'converted to %s before it is written' % ' or '.join(sorted(lost)), run.body.span)
            n += 1
            continue
        why = miswritten(run, L, v, t)
        if why:
            c.bad('written', t, why, run.body.span)
            n += 1
            continue
        n += decide(c, 'written', t, run, wr)
    c.floor('written', n, 12, 'number types')
    bs = mk('sym', 'bytes')
    run = ser_run(c, 'serialize_bytes', bs)
    made = set()
    for o in run.outs:
        for z in subterms(o.ret):
            if z[0] == 'app' and z[1] == 'display':
                g, ts = unconverted(z[2][0])
                if g[0] == 'elem' and g[1] is bs:
                    made.add((lossless(ts, 'u8'), ' and '.join(reversed(ts))))
    for r, ts in sorted(made, key=str):
        c.check('written', 'bytes', r, 'a byte is converted to %s before it is written' % ts, run.body.span)
    n = 0
    for t in NUMS:
        run = de.run('deserialize_' + t, opaque=[x.folded])

        def rd(d, o):
            vv = d.variant(de.yaml, L.n)
            if vv == L.Anchor:
                return True
            want = x.text(d, de.yaml)
            if want is None:
                return de.fails(d, o), 'a collection is read as a number: ' + show(o.ret)[:200]
            ev = de.events(o)
            if not ev:
                if de.fails(d, o):
                    # fails only when the text is not a number of a wide enough type
                    for f in o.facts:
                        if f[0] == 'is' and f[1][0] == 'app' and f[1][1].startswith('parse:') and f[2] == 1:
                            return True
                    return (False if not any(f[1][0] == 'app' and f[1][1].startswith('parse:') for f in o.facts if isinstance(f[1], T)) else None), \
                        'a scalar is refused: ' + show(o.ret)[:200]
                return None
            e = de.event(o)
            if e is None or not e[0].startswith('visit_') or len(e[1]) != 2:
                return None
            w = e[0][6:]
            if w not in NUMS:
                return False, 'answers ' + e[0]
            g, ts = unconverted(e[1][1])
            if g[0] == 'fld' and g[1][0] == 'app' and g[1][1].startswith('parse:'):
                p = g[1][1][6:]
                if p not in NUMS:
                    return None
                if lossless([w] + ts, p) is not True or not holds(t, p):
                    return False, 'a %s is parsed as %s and handed over as %s' % (t, p, ' of '.join([w] + ts))
                if not holds(p, w) or not holds(t, p):
                    return False, 'a %s is parsed as %s and handed over as %s' % (t, p, w)
                if d.st.variant(g[1]) != 0:
                    return None
                return match(d, g[1][2][0], want), 'parses ' + show(g)[:200]
            return (False if understood(g) else None), 'hands over ' + show(g)[:300]
        why = misread(de, run, t)
        if why:
            c.bad('typed', t, why, run.body.span)
            n += 1
            continue
        n += decide(c, 'typed', t, run, rd)
    c.floor('typed', n, 100, 'typed readings')
    run = de.run('deserialize_any')

    def un(d, o):
        if d.variant(de.yaml, L.n) != L.UnquotedString:
            return True
        e = de.event(o)
        if e is None or not e[0].startswith('visit_') or e[0][6:] not in NUMS:
            return True
        w = e[0][6:]
        g, ts = unconverted(e[1][1])
        s = fld(de.yaml, L.UnquotedString, 0)
        if not (g[0] == 'fld' and g[1][0] == 'app' and g[1][1].startswith('parse:')):
            return (False if understood(g) else None), 'hands over ' + show(g)[:300]
        p = g[1][1][6:]
        if lossless([w] + ts, p) is not True:
            return False, 'parsed as %s, handed over as %s' % (p, ' of '.join([w] + ts))
        if p[0] == 'f' and (w != 'f64' or p != 'f64'):
            return False, 'a float is read as %s' % p
        if p[0] == 'f':
            tried = {f[1][1][6:] for f in o.facts if f[0] == 'is' and f[1][0] == 'app' and f[1][1].startswith('parse:') and f[2] == 1 and f[1][2][0] is s}
            for i in ('i64', 'u64'):
                if not any(t in NUMS and holds(i, t) for t in tried):
                    return (False if tried or facts_ok(o) else None), 'an integer of type %s is read as a float' % i
        return match(d, g[1][2][0], s), 'parses ' + show(g)[:200]
    n = decide(c, 'untyped', 'deserialize_any', run, un)
    c.floor('untyped', n, 12, 'cases')


# ---------------------------------------------------------------- P44
def reported(c):
    """conversions of what does not fit are failures, not made-up values"""
    from .strings import Texts
    c.rule('kind', 'reading a node as a kind it is not is an error: no collection as scalar, no scalar as collection, no text as number or boolean it is not')
    c.rule('keys', 'a map key without a text of its own cannot be written')
    c.rule('document', 'a text that does not parse, or holds no value, is an error; otherwise its first value is what is read')
    x = Texts(c)
    de = De(c)
    L = de.L
    n = 0
    for m in ['deserialize_' + k for k in NUMS + ('bool', 'str', 'string', 'char')] + list(SEQS) + list(MAPS):
        run = de.run(m, opaque=[x.folded])

        def kind(d, o):
            v = d.variant(de.yaml, L.n)
            if v == L.Anchor:
                return True
            if m in SEQS:
                fits = v in (L.Array, L.InlineArray)
            elif m in MAPS:
                fits = v in (L.Hash, L.InlineHash)
            else:
                fits = x.text(d, de.yaml) is not None
            if not fits:
                return de.fails(d, o), 'answers ' + show(o.ret)[:200]
            tried = {f[1][1][6:]: f[2] for f in o.facts if f[0] == 'is' and f[1][0] == 'app' and f[1][1].startswith('parse:')}
            k = m[12:]
            if k in NUMS and tried and all(r == 1 for r in tried.values()) and any(p in NUMS and holds(k, p) for p in tried):
                return de.fails(d, o), 'text which is no number answers ' + show(o.ret)[:200]
            return True
        n += decide(c, 'kind', m, run, kind)
    c.floor('kind', n, 100, 'readings')
    # keys
    S = Ser(c, de, x)
    kx = mk('sym', 'key')
    n = 0
    s0 = S.start('serialize_map')
    b = S.method(s0, 'SerializeMap', 'serialize_key')
    run = analyse(c, b, [mk('mut', s0), kx])

    def key(d, o):
        ky = None
        for f in o.facts:
            if f[0] == 'is' and f[1][0] == 'app' and f[1][1].endswith(SER) and f[1][2][0] is kx and f[2] == 0:
                ky = fld(f[1], 0, 0)
        if ky is None:
            return True if o.ret[0] == 'adt' and o.ret[2] == 1 else None
        if d.variant(ky, L.n) in (L.Hash, L.InlineHash, L.Array, L.InlineArray, L.Anchor):
            return o.ret[0] == 'adt' and o.ret[2] == 1, 'a key without a text is taken as ' + show(o.cells[0])[:200]
        return True
    n += decide(c, 'keys', 'serialize_key', run, key)
    c.floor('keys', n, 8, 'kinds of key')
    # documents
    b = c.crate.fn('from_yaml_str')
    txt = mk('sym', 'text')
    run = analyse(c, b, [txt], opaque=[c.crate.fn('parse_yaml_file').key])
    cr = c.crate
    P = None
    for o in run.outs:
        for f in o.facts:
            if f[0] == 'is' and f[1][0] == 'app' and f[1][1].endswith('parse_yaml_file'):
                P = f[1]
    if P is None:
        raise Lost('whether the text parses is not asked')
    ii = [f[0] for f in cr.variants(L.doc)[0]['f']].index('items')
    iv = [v_['n'] for v_ in cr.variants(L.dd)].index('Yaml')

    allow([P[1]])

    def reads(r):
        return r[0] == 'app' and r[1].endswith('Deserialize::deserialize')

    def document(d, o):
        err = o.ret[0] == 'adt' and o.ret[2] == 1
        if d.variant(P, 2) == 1:
            return err or (False if reads(o.ret) or understood(o.ret) else None), 'a text that does not parse is read as ' + show(o.ret)[:200]
        items = fld(fld(P, 0, 0), 0, ii)
        try:
            found, ix = d.first(length(items), lambda dd, k: dd.variant(elem(items, k), 2) == iv)
        except Undecided:
            sg = seg_elements(items, length(items), iv)
            found, ix = not d.test(eqi(app('count', sg), INT(0))), mk_nth(sg[1], sg[2], sg[3], INT(0))
        if not found:
            return err or (False if reads(o.ret) or understood(o.ret) else None), 'a text without a value is read as ' + show(o.ret)[:200]
        r = o.ret
        if reads(r):
            y, _ = de.ydata(r[2][0])
            return match(d, y, fld(elem(items, ix), iv, 0)), 'what is read is ' + show(y)[:300]
        return (False if err else None), 'fails with ' + show(r)[:200]
    n = decide(c, 'document', 'from_yaml_str', run, document)
    c.floor('document', n, 3, 'cases')


# ---------------------------------------------------------------- P40
class Ser:
    """the collecting serializers, driven through their own protocol"""

    def __init__(self, c, de, x):
        self.c, self.de, self.x = c, de, x

    def start(self, m, *args):
        run = ser_run(self.c, m, *args)
        if any(o.ret[0] != 'adt' or o.ret[2] != 0 for o in run.outs):
            raise Undecided('%s does not simply start a collection' % m)
        ss = {o.ret[3][0] for o in run.outs}
        if len(ss) != 1:
            if all(facts_ok(o) and understood(o.ret) for o in run.outs):
                raise Differs('%s starts in different states: %s' % (m, ', '.join(sorted(show(t)[:100] for t in ss))))
            raise Undecided('%s does not simply start a collection' % m)
        s = ss.pop()
        if s[0] != 'adt':
            raise Undecided('no state')
        return s

    def general(self, s):
        """the same state with any contents collected so far"""
        fs = list(s[3])
        n = 0
        for i, f in enumerate(fs):
            if f[0] == 'seq' and not f[1]:
                fs[i] = mk('sym', 'collected')
                n += 1
        if n != 1:
            raise Undecided('the state is not one growing list')
        return mk('adt', s[1], s[2], tuple(fs))

    def method(self, s, trait, m):
        return self.de.body(m, s[1].split('::')[-1], trait)

    def finish(self, s, trait, facts=()):
        """the finished trees: [(outcome, tree)]; facts: what is known of the parts"""
        b = self.method(s, trait, 'end')
        run = analyse(self.c, b, [s])
        out = []
        for o in run.outs:
            if o.ret[0] == 'app' and any(f[0] == 'is' and f[1] is o.ret and f[2] == 0 for f in facts):
                out.append((o, fld(o.ret, 0, 0)))
                continue
            if o.ret[0] != 'adt' or o.ret[2] != 0:
                raise Undecided('finishing can fail')
            out.append((o, o.ret[3][0]))
        return out

    def add(self, s, trait, m, *args):
        """states after a successful addition: [(outcome, state)]"""
        b = self.method(s, trait, m)
        run = analyse(self.c, b, [mk('mut', s)] + list(args))
        out = []
        for o in run.outs:
            if o.ret[0] == 'adt' and o.ret[2] == 0:
                out.append((o, o.cells[0]))
        if not out:
            raise Undecided('%s never succeeds' % m)
        return run, out


def accepted(de, x, y, name, facts, *path):
    """what the reader hands over for the tree y: (facts, access object)"""
    run = de.run(name, on=de.on(y, de.anch), facts=facts)
    return run


def contents(de, x, y, m, visit, facts=()):
    """everything handed over when tree y is read with method m; None if it is refused"""
    run = de.run(m, on=de.on(y, de.anch), facts=facts)
    res = set()
    for o in run.outs:
        e = de.event(o)
        if e is None:
            if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1:
                res.add(None)
                continue
            raise Undecided('%s: %s' % (m, show(o.ret)[:200]))
        if e[0] != visit:
            res.add(None)
            continue
        res.add(de.handed(e[1][1]))
    if len(res) != 1:
        raise Undecided('%s: several answers' % m)
    return res.pop()


def every_content(de, x, y, m, visit, name=None, facts=()):
    """each answer to reading y: [(facts, name tree or None, what is handed over or None)]"""
    out = []
    if name is None:
        starts = [(facts, None, None)]
    else:
        starts = []
        for o in de.run('deserialize_enum', on=de.on(y, de.anch), facts=facts).outs:
            e = de.event(o)
            if e is None:
                if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1:
                    out.append((o.facts, None, None))
                    continue
                raise Undecided('deserialize_enum: %s' % show(o.ret)[:200])
            if e[0] != 'visit_enum' or e[1][1][0] != 'adt':
                out.append((o.facts, None, None))
                continue
            (yn, an), V = enum_parts(de, e[1][1], o.facts)
            starts.append((o.facts, yn, V))
    for fs, yn, V in starts:
        if name is None:
            run = de.run(m, on=de.on(y, de.anch), facts=fs)
        else:
            b = de.body(m, trait='VariantAccess')
            run = passed_on(de.go(b, de.args(b, V), fs))
        for o in run.outs:
            e = de.event(o)
            if e is None:
                if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1:
                    out.append((o.facts, yn, None))
                    continue
                raise Undecided('%s: %s' % (m, show(o.ret)[:200]))
            out.append((o.facts, yn, de.handed(e[1][1]) if e[0] == visit else None))
    return out


def variant_contents(de, x, y, m, visit, name, facts=()):
    """the same below an enum variant"""
    run = de.run('deserialize_enum', on=de.on(y, de.anch), facts=facts)
    res = set()
    for o in run.outs:
        e = de.event(o)
        if e is None:
            if not de.events(o) and o.ret[0] == 'adt' and o.ret[2] == 1:
                return None, None
            raise Undecided('deserialize_enum: %s' % show(o.ret)[:200])
        if e[0] != 'visit_enum' or e[1][1][0] != 'adt':
            return None, None
        res.add(enum_parts(de, e[1][1]))
    if len(res) != 1:
        raise Undecided('several answers')
    (yn, an), V = res.pop()
    b = de.body(m, trait='VariantAccess')
    got = set()
    for o in de.go(b, de.args(b, V)).outs:
        if m == 'newtype_variant_seed':
            s = de.seeded(o)
            if s is None:
                raise Undecided('newtype content')
            got.add(de.ydata(s[0])[0])
            continue
        if m == 'unit_variant':
            got.add(o.ret)
            continue
        e = de.event(o)
        if e is None or e[0] != visit:
            if o.ret[0] == 'adt' and o.ret[2] == 1:
                return yn, None
            raise Undecided('%s: %s' % (m, show(o.ret)[:200]))
        got.add(de.handed(e[1][1]))
    if len(got) != 1:
        raise Undecided('several answers')
    return yn, got.pop()


def p40(c):
    from .strings import Texts
    c.rule('collections', 'what the serializer builds for n parts, the deserializer accepts for the same kind and hands over as exactly those n parts in order, maps and structs with their keys')
    c.rule('variants', 'what is built for a variant is accepted as that variant with the same content')
    c.rule('wrappers', 'options, newtypes and units round-trip to the same request')
    c.rule('scalars', 'booleans and text are written as scalars that are read as the same kind')
    x = Texts(c)
    de = De(c)
    L = de.L
    S = Ser(c, de, x)
    cr = c.crate
    vname = mk('sym', 'variant')
    v, kx = mk('sym', 'value'), mk('sym', 'key')
    n = 0

    def collected(s, trait, read, tagged):
        """contents after reading back what the finished state gives"""
        res = set()
        for o, y in S.finish(s, trait):
            if tagged is None:
                res.add(contents(de, x, y, read[0], read[1], o.facts))
            else:
                yn, got = variant_contents(de, x, y, read[0], read[1], tagged, o.facts)
                if yn is None:
                    return None, show(y)
                d = D(o.st, ())
                if match(d, scalar_text(x, d, yn), tagged) is not True:
                    raise Differs('the variant is read as %s' % show(yn)[:200])
                res.add(got)
        if len(res) != 1:
            raise Undecided('several forms')
        r = res.pop()
        return r, (show(y)[:300] if r is None else '')

    def explicit(label, s0, trait, add_m, keyed, read, tag):
        """collections of a few parts of known kinds, one by one: how many were compared"""
        done = 0
        kinds = {L.UnquotedString: 'text', L.Hash: 'maps', L.Array: 'sequences', L.InlineArray: 'tuples'}
        shapes = [(k, kind) for k in range(4) for kind in (sorted(kinds) if k else (None,))]
        for k, kind in shapes:
            states = [((), s0, [])]
            for i in range(k):
                vi, ki = mk('sym', 'value%d' % i), mk('sym', 'key%d' % i)
                nexts = []
                for fs, s, parts in states:
                    if add_m is None:
                        for o1, s1 in S.add(s, trait, 'serialize_key', ki)[1]:
                            ky = [f[1] for f in o1.facts if f[0] == 'is' and f[1][0] == 'app' and f[1][1].endswith(SER) and f[1][2][0] is ki]
                            if not ky:
                                raise Undecided('the key is not written by its own serializer')
                            for o2, s2 in S.add(s1, trait, 'serialize_value', vi)[1]:
                                nexts.append((fs + tuple(o1.facts) + tuple(o2.facts), s2, parts, fld(ky[0], 0, 0)))
                    else:
                        for o2, s2 in S.add(s, trait, add_m, *([ki, vi] if keyed else [vi]))[1]:
                            nexts.append((fs + tuple(o2.facts), s2, parts, ki if keyed else None))
                states = []
                for fs, s2, parts, key in nexts:
                    new = [t for t in subterms(s2) if t[0] == 'fld' and t[1][0] == 'app' and t[1][1].endswith(SER) and t[1][2][0] is vi]
                    if not new:
                        raise Undecided('an added part is not collected')
                    fs = fs + (('is', new[0], kind),)
                    if keyed and add_m is None:
                        fs = fs + (('is', key, L.UnquotedString),)
                        key = fld(key, L.UnquotedString, 0)
                    states.append((fs, s2, parts + [(key, new[0])]))
            for fs, s, parts in states:
                for o, y in S.finish(s, trait, fs):
                    st = o.st.add_facts(mk(*fs))
                    if st is None:
                        continue
                    for gs, yn, got in every_content(de, x, y, read[0], read[1], tag, tuple(st.facts_since(None))):
                        st2 = st.add_facts(mk(*gs))
                        if st2 is None:
                            continue
                        d = D(st2, ())
                        what = 'a %s of %d parts%s is written as %s' % (label, k, '' if kind is None else ' (%s)' % kinds[kind], show(y)[:200])
                        if not all(understood(f) for f in st2.facts_since(None)):
                            raise Undecided('%s of %d parts: a condition is not interpreted' % (label, k))
                        if got is None:
                            raise Differs(what + ', which reading a %s refuses' % label)
                        if tag is not None:
                            tt = x.text(d, yn) if yn is not None else None
                            if tt is None or match(d, tt, tag) is not True:
                                raise Undecided('the name of the variant')
                        want = []
                        for key, part in parts:
                            want.append(one(mk('tup', (mk('adt', L.yaml, L.UnquotedString, (key,)), part)) if keyed else part))
                        r = match_seq(d, seg_list(got), want)
                        if r is False:
                            raise Differs(what + ', which is read as ' + show(got)[:200])
                        if r is not True:
                            raise Undecided('%s of %d parts' % (label, k))
                        done += 1
        return done

    KINDS = [
        ('seq', 'serialize_seq', (), 'SerializeSeq', 'serialize_element', False, ('deserialize_seq', 'visit_seq'), None),
        ('tuple', 'serialize_tuple', (), 'SerializeTuple', 'serialize_element', False, ('deserialize_tuple', 'visit_seq'), None),
        ('tuple struct', 'serialize_tuple_struct', (), 'SerializeTupleStruct', 'serialize_field', False, ('deserialize_tuple_struct', 'visit_seq'), None),
        ('map', 'serialize_map', (), 'SerializeMap', None, True, ('deserialize_map', 'visit_map'), None),
        ('struct', 'serialize_struct', (), 'SerializeStruct', 'serialize_field', True, ('deserialize_struct', 'visit_map'), None),
        ('tuple variant', 'serialize_tuple_variant', (mk('sym', 'n'), mk('sym', 'i'), vname), 'SerializeTupleVariant', 'serialize_field', False, ('tuple_variant', 'visit_seq'), vname),
        ('struct variant', 'serialize_struct_variant', (mk('sym', 'n'), mk('sym', 'i'), vname), 'SerializeStructVariant', 'serialize_field', True, ('struct_variant', 'visit_map'), vname),
    ]
    for label, start, args, trait, add_m, keyed, read, tag in KINDS:
        rule = 'variants' if tag is not None else 'collections'
        try:
            s0 = S.start(start, *args)
            G = S.general(s0)
            b = S.method(s0, trait, 'end')
            base, form = collected(s0, trait, read, tag)
            if base is None:
                c.bad(rule, label, 'an empty %s is written as %s, which reading a %s refuses' % (label, form, label), b.span)
                continue
            c.check(rule, label + ', empty', True if not segs_of(base) else None if not understood(base) else False, 'an empty %s is read as %s' % (label, show(base)[:200]), b.span)
            C, form = collected(G, trait, read, tag)
            if C is None:
                c.bad(rule, label, 'a %s is written as %s, which reading a %s refuses' % (label, form, label), b.span)
                continue
            # one more part
            if add_m is None:
                run1, st1 = S.add(G, trait, 'serialize_key', kx)
                nexts = []
                for o1, s1 in st1:
                    run2, st2 = S.add(s1, trait, 'serialize_value', v)
                    for o2, s2 in st2:
                        nexts.append((run2, o1, o2, s2))
            else:
                run1, st1 = S.add(G, trait, add_m, *([kx, v] if keyed else [v]))
                nexts = [(run1, None, o, s) for o, s in st1]
            for run, o1, o2, s2 in nexts:
                n += 1
                new = [t for t in subterms(s2) if t[0] == 'fld' and t[1][0] == 'app' and t[1][1].endswith(SER) and t[1][2][0] is v]
                if not new:
                    c.check(rule, label + ', one more', False if understood(s2) else None, 'an added part is not collected: ' + show(s2)[:300], run.body.span)
                    continue
                part = new[0]
                C2, form = collected(s2, trait, read, tag)
                if C2 is None:
                    c.bad(rule, label, 'a %s is written as %s, which reading a %s refuses' % (label, form, label), b.span)
                    continue
                st = o2.st
                if o1 is not None:
                    st = st.add_facts(mk(*o1.facts))
                    if st is None:
                        continue

                def spec(d, o):
                    if keyed:
                        if add_m is None:
                            ky = None
                            for t in [f[1] for f in o1.facts if f[0] == 'is']:
                                if t[0] == 'app' and t[1].endswith(SER) and t[2][0] is kx:
                                    ky = fld(t, 0, 0)
                            if ky is None:
                                return None
                            kt = scalar_text(x, d, ky)
                        else:
                            kt = kx
                        want = one(mk('tup', (mk('adt', L.yaml, L.UnquotedString, (kt,)), part)))
                    else:
                        want = one(part)
                    return match_seq(d, seg_list(C2), list(segs_of(C)) + [want]), 'after adding a part the %s is read as %s' % (label, show(C2)[:400])
                from ..interp import Outcome
                oo = Outcome(st, s2, o2.cells, run.I)
                decide(c, rule, label + ', one more', Run(run.I, [oo], run.body, run.args), spec)
        except Undecided as e:
            try:
                explicit(label, s0, trait, add_m, keyed, read, tag)
            except Undecided as e2:
                e = '%s; %s' % (e, e2)
            except Differs as e2:
                c.bad(rule, label, str(e2), b.span)
                continue
            c.unknown(rule, label, str(e))
        except Differs as e:
            c.bad(rule, label, str(e))
    c.floor('collections', n, 7, 'kinds of collection')
    # the text of a key
    c.rule('keys', 'what is kept as the name of an entry is the text of the key')
    kx = mk('sym', 'key')
    s0 = S.start('serialize_map')
    run = analyse(c, S.method(s0, 'SerializeMap', 'serialize_key'), [mk('mut', s0), kx])

    def kept(d, o):
        ky = None
        for f in o.facts:
            if f[0] == 'is' and f[1][0] == 'app' and f[1][1].endswith(SER) and f[1][2][0] is kx and f[2] == 0:
                ky = fld(f[1], 0, 0)
        if ky is None or o.ret[0] != 'adt' or o.ret[2] == 1:
            return True
        s1 = o.cells[0]
        got = [t[3][0] for t in s1[3] if t[0] == 'adt' and t[1] == OPT and t[2] == 1] if s1[0] == 'adt' else []
        if len(got) != 1:
            return None, 'keeps ' + show(s1)[:200]
        g, t = got[0], scalar_text(x, d, ky)
        if g[0] == 'app' and g[1] in ALTERS and g[2] and match(d, g[2][0], t) is True:
            return False, 'a key is kept as ' + show(g)[:200]
        return match(d, g, t), 'a key is kept as ' + show(g)[:200]
    decide(c, 'keys', 'serialize_key', run, kept)
    # variants with single contents
    run = ser_run(c, 'serialize_newtype_variant', mk('sym', 'n'), mk('sym', 'i'), vname, v)

    def nv(d, o):
        if o.ret[0] != 'adt':
            return None
        if o.ret[2] == 1:
            return True
        yn, got = variant_contents(de, x, o.ret[3][0], 'newtype_variant_seed', None, vname, o.facts)
        if yn is None:
            return False, 'written as %s, which is refused' % show(o.ret)[:300]
        if not (got[0] == 'fld' and got[1][0] == 'app' and got[1][1].endswith(SER) and got[1][2][0] is v):
            return (False if understood(got) else None), 'the content is read as ' + show(got)[:300]
        return match(d, scalar_text(x, d, yn), vname), 'the variant is read as ' + show(yn)[:200]
    decide(c, 'variants', 'newtype variant', run, nv)
    run = ser_run(c, 'serialize_unit_variant', mk('sym', 'n'), mk('sym', 'i'), vname)
    run_s = ser_run(c, 'serialize_str', vname)
    kinds = {}

    def uv(d, o):
        if o.ret[0] != 'adt' or o.ret[2] != 0 or o.ret[3][0][0] != 'adt':
            return None
        v_ = o.ret[3][0][2]
        return v_ in (L.UnquotedString, L.SingleQuotedString, L.DoubleQuotedString, L.LiteralString, L.FoldedString), 'written as ' + show(o.ret)[:200]
    decide(c, 'variants', 'unit variant', run, uv)
    decide(c, 'scalars', 'str', run_s, uv)
    decide(c, 'scalars', 'char', ser_run(c, 'serialize_char', mk('sym', 'ch')), uv)
    # wrappers
    for m, read in (('serialize_some', 'deserialize_option'), ('serialize_newtype_struct', 'deserialize_newtype_struct')):
        run = ser_run(c, m, *([v] if m == 'serialize_some' else [mk('sym', 'n'), v]))
        decide(c, 'wrappers', m, run, lambda d, o: ((o.ret[0] == 'app' and o.ret[1].endswith(SER) and o.ret[2][0] is v) or (False if understood(o.ret) else None), 'written as ' + show(o.ret)[:200]))
    run = de.run('deserialize_newtype_struct')
    decide(c, 'wrappers', 'deserialize_newtype_struct', run, lambda d, o: newtype_ok(de, d, o))
    run = de.run('deserialize_option')

    def opt(d, o):
        if d.variant(de.yaml, L.n) == L.Anchor:
            return True
        e = de.event(o)
        if e is None:
            return (False if de.fails(d, o) else None), 'an option is refused: ' + show(o.ret)[:200]
        if e[0] == 'visit_none':
            return True
        if e[0] != 'visit_some':
            return False, 'answers ' + e[0]
        return conj((match(d, de.ydata(e[1][1])[0], de.yaml), match(d, de.ydata(e[1][1])[1], de.anch))), 'the value of an option is read from ' + show(e[1][1])[:200]
    decide(c, 'wrappers', 'deserialize_option', run, opt)
    for m, read, want in (('serialize_none', 'deserialize_option', 'visit_none'), ('serialize_unit', 'deserialize_unit', 'visit_unit'), ('serialize_unit_struct', 'deserialize_unit_struct', 'visit_unit')):
        run = ser_run(c, m)

        def unit(d, o):
            if o.ret[0] != 'adt' or o.ret[2] != 0:
                return None
            y = o.ret[3][0]
            es = {(de.event(p) or ('refused',))[0] for p in de.run(read, on=de.on(y, de.anch)).outs}
            return (es == {want}) if len(es) == 1 else None, 'written as %s, read as %s' % (show(y)[:100], sorted(es))
        decide(c, 'wrappers', m, run, unit)
    bv = mk('sym', 'v')
    for t in (TRUE, FALSE):
        run = ser_run(c, 'serialize_bool', t)

        def bl(d, o):
            if o.ret[0] != 'adt' or o.ret[2] != 0:
                return None
            es = {(e[0], e[1][1] if len(e[1]) > 1 else None) if e else None for e in map(de.event, de.run('deserialize_bool', on=de.on(o.ret[3][0], de.anch)).outs)}
            return (es == {('visit_bool', t)}) if len(es) == 1 else None, 'written as %s, read as %s' % (show(o.ret)[:100], es)
        decide(c, 'scalars', 'bool ' + show(t), run, bl)
    # bytes
    run = ser_run(c, 'serialize_bytes', mk('sym', 'bytes'))

    def refused(o, m):
        try:
            return all(got is None for _, _, got in every_content(de, x, o.ret[3][0], m, 'visit_seq', None, o.facts))
        except Undecided:
            return False
    fine = [o for o in run.outs if o.ret[0] == 'adt' and o.ret[2] == 0]
    for m in ('deserialize_bytes', 'deserialize_byte_buf'):
        if fine and all(refused(o, m) for o in fine):
            c.bad('collections', 'bytes, ' + m, 'bytes are refused, however they are written', run.body.span)

    def by(d, o):
        if o.ret[0] != 'adt' or o.ret[2] != 0:
            return None
        for m in ('deserialize_bytes', 'deserialize_byte_buf'):
            C = contents(de, x, o.ret[3][0], m, 'visit_seq', o.facts)
            if C is None:
                return False, 'bytes are refused by ' + m
            bs = mk('sym', 'bytes')
            r = match(d, C, Seq(Each(length(bs), lambda dd, k: [one(mk('adt', L.yaml, L.UnquotedString, (app('display', elem(bs, k)),)))])))
            if r is not True:
                return r, 'bytes are read as ' + show(C)[:300]
        return True
    decide(c, 'collections', 'bytes', run, by)
    # what is asked of text
    for m in ('deserialize_char', 'deserialize_str', 'deserialize_string', 'deserialize_identifier'):
        run = de.run(m, opaque=[x.folded])

        def tx(d, o):
            if d.variant(de.yaml, L.n) == L.Anchor:
                return True
            t = x.text(d, de.yaml)
            return (de.fails(d, o), 'a collection is read as text') if t is None else de.visits_text(d, o, t)
        decide(c, 'scalars', m, run, tx)
    ac = accesses(c, de)
    for path, acc in sorted(ac.items()):
        steps(c, de, acc, path.split('::')[-1])


def newtype_ok(de, d, o):
    e = de.event(o)
    if e is None:
        return None
    if e[0] != 'visit_newtype_struct':
        return False, 'answers ' + e[0]
    return match(d, e[1][1], de.self), 'hands over ' + show(e[1][1])[:200]


# ---------------------------------------------------------------- P42
def resolver(de, run):
    """the local function that follows references further, as the outcomes call it"""
    L = de.L
    name = fld(de.yaml, L.Anchor, 0)
    g = app('mapget', de.anch, name)
    for o in run.outs:
        for t in subterms(mk(*o.facts)):
            if isinstance(t, T) and t and t[0] == 'app' and t[1] in de.c.crate.bypath and any(a is fld(g, 1, 0) for a in t[2]):
                return g, t
    return g, None


NAMES = ('a', 'b', 'aa', 'ab', 'A', 'a1', 'a2', 'x', 'base', 'base2', 'my_base', 'basis', 'a' * 20)


def same_anchors(run, o, got, a, name, y, L):
    """are the anchors got the anchors a, but for the name that is followed"""
    inner = o.st.cells.get(mk('rgn', got), got)
    inner = o.st.cells.get(got, inner) if inner is got else inner
    if inner is a or inner is app('mapdel', a, name):
        return True, ''
    if inner[0] == 'app' and inner[1] == 'emptymap':
        return False, 'other anchors are forgotten when a reference is followed'
    if inner[0] == 'app' and inner[1] == 'mapkept' and inner[2][0] is a:
        for w in NAMES:
            for k in NAMES:
                try:
                    if k != w and not Eval(run.I.loops, {y: ('adt', L.yaml, L.Anchor, [w])}).stays(inner[2][1], k, UNIT):
                        return False, 'the anchor %r is forgotten when the reference %r is followed' % (k, w)
                except Unknown:
                    pass
    return None, 'anchors become ' + show(inner)[:200]


def p42(c):
    from .strings import Texts
    c.rule('lookup', 'for every request a reference is looked up by its name: unknown names are errors, known ones are read on')
    c.rule('chain', 'what a name stands for is followed until it is no reference, in the anchors known there')
    c.rule('same', 'the answer for a reference is the answer for the value it stands for')
    c.rule('handed', 'what is inside a value is read with the anchors known there')
    c.rule('register', 'each anchored entry and element is recorded under its name with its own value when it is handed over, read as variant content or ignored')
    x = Texts(c)
    de = De(c)
    L = de.L
    cr = c.crate
    ms = sorted({n for t, ims in cr.impls.items() if t.split('::')[-1] == 'Deserializer' for h, items, _ in ims for n in [i if isinstance(i, str) else i[0] for i in items] if n.startswith('deserialize_')})
    c.floor('lookup', len(ms), 29, 'kinds of request')
    followers = {}
    aty = cr.ty(de.fields[de.ia][1])
    holders = {p: i for p, a in cr.adts.items() if a['local'] and len(cr.variants(p) or ()) == 1 for i, f in enumerate(cr.variants(p)[0]['f']) if cr.ty(f[1]) == aty}
    for m in ms:
        if m in ('deserialize_unit', 'deserialize_unit_struct', 'deserialize_ignored_any'):
            continue
        run = de.run(m, opaque=[x.folded])
        g, rec = resolver(de, run)
        if rec is not None:
            followers.setdefault(rec[1], (rec, g))
        refs = [o for o in run.outs if o.st.variant(de.yaml) == L.Anchor]
        direct = [o for o in run.outs if o.st.variant(de.yaml) != L.Anchor and L.Anchor in o.st.excluded(de.yaml) or o.st.variant(de.yaml) not in (None, L.Anchor)]
        free = [o for o in run.outs if o.st.variant(de.yaml) is None and L.Anchor not in o.st.excluded(de.yaml)]

        def passes_on(d, o):
            e = de.event(o)
            if e is None or e[0] != 'visit_newtype_struct':
                return None if e is None or not understood(o.ret) else False
            return conj((match(d, de.ydata(e[1][1])[0], de.yaml), match(d, de.ydata(e[1][1])[1], de.anch)))
        if free:
            r = Run(run.I, free, run.body, run.args)
            decide(c, 'lookup', m, r, lambda d, o: (None if after_loop(o) else passes_on(d, o), 'a reference is not followed: ' + show(o.ret)[:200]))
        if not refs:
            continue

        def ref(d, o):
            v = o.st.variant(g)
            if v is None:
                if de.fails(d, o) or de.event(o):
                    ok = passes_on(d, o)
                    if not ok and after_loop(o):
                        return None, 'reads what a loop leaves'
                    return (True if ok else False), 'a reference is not looked up: ' + show(o.ret)[:200]
                return None
            if v == 0:
                return de.fails(d, o), 'an unknown name gives ' + show(o.ret)[:200]
            if rec is not None:
                w = o.st.variant(rec)
                if w == 1:
                    if not de.fails(d, o):
                        return (False if o.ret[0] == 'adt' or de.event(o) else None), 'an unresolvable reference gives ' + show(o.ret)[:200]
                    return match(d, o.ret, mk('adt', RES, 1, (fld(rec, 1, 0),)))
                if w is None:
                    return None
                R, Ra = tfld(fld(rec, 0, 0), 0), tfld(fld(rec, 0, 0), 1)
            else:
                R, Ra = fld(g, 1, 0), de.anch
            if o.ret[0] == 'app' and o.ret[1] in cr.bypath and cr.bypath[o.ret[1]] is run.body or (o.ret[0] == 'app' and o.ret[1].endswith('::' + m)):
                y, a = de.ydata(o.ret[2][0])
                if rec is None:
                    ok, why = same_anchors(run, o, a, de.anch, fld(de.yaml, L.Anchor, 0), de.yaml, L)
                    if ok is not True:
                        return ok, why
                    return match(d, y, R), 'goes on with ' + show(o.ret)[:200]
                return conj((match(d, y, R), match(d, a, Ra))), 'goes on with ' + show(o.ret)[:200]
            if rec is None and d.st.variant(R) is None and L.Anchor not in (d.st.excluded(R) or ()):
                return (False if facts_ok(o) else None), 'a reference to a reference gives ' + show(o.ret)[:200]
            rw = Rewrite(lambda t: R if t is de.yaml else Ra if t is de.anch else de.on(R, Ra) if t is de.self else None)
            n = 0
            res = True
            held = set(o.facts)
            # a case whose guards all hold here is the case that applies
            same = [o2 for o2 in direct if set(rw(mk(*o2.facts))) <= held]
            for o2 in same[:1] or direct:
                fs = rw(mk(*[f for f in o2.facts]))
                st = d.st.copy().add_facts(fs)
                if st is None:
                    continue
                n += 1
                dd = D(st, ())
                try:
                    r = match(dd, o.ret, rw(o2.ret))
                except (Undecided, Infeasible, Fork):
                    r = None
                if r is False:
                    if facts_ok(o2):
                        return False, 'a reference answers %s, its value %s' % (show(o.ret)[:200], show(rw(o2.ret))[:200])
                    r = None
                if r is None:
                    res = None
            if n == 0:
                if rec is None and d.st.variant(R) == L.Anchor:
                    return False, 'a reference to a reference gives ' + show(o.ret)[:200]
                return True
            return res
        k = decide(c, 'same', m, Run(run.I, refs, run.body, run.args), ref)

        def handed(d, o):
            res = True
            for t in subterms(o.ret):
                if isinstance(t, T) and t and t[0] == 'adt' and t[1] in holders:
                    a = t[3][holders[t[1]]]
                    r = True if a is de.anch else match(d, a, de.anch)
                    if r is not True:
                        i = o.st.cells.get(mk('rgn', a), a)
                        i = o.st.cells.get(a, i) if i is a else i
                        r = False if i[0] == 'app' and i[1] == 'emptymap' else r
                    res = conj((res, r))
            return res, 'what is inside is read with other anchors: ' + show(o.ret)[:300]
        if direct:
            decide(c, 'handed', m, Run(run.I, direct, run.body, run.args), handed)
    c.floor('chain', len(followers), 1, 'functions that follow references')
    for path, (rec, g) in sorted(followers.items()):
        b = cr.bypath[path]
        b = b[0] if isinstance(b, list) else b
        iy = [i for i, a in enumerate(rec[2]) if a is fld(g, 1, 0)][0]
        ia = [i for i in range(len(rec[2])) if i != iy]
        if len(ia) != 1:
            c.unknown('chain', path, 'takes more than a tree and anchors')
            continue
        y, a = mk('sym', 'y'), mk('sym', 'a')
        run = analyse(c, b, [y if i == iy else a for i in range(len(rec[2]))])
        name = fld(y, L.Anchor, 0)
        gg = app('mapget', a, name)

        def follow(d, o):
            if d.variant(y, L.n) != L.Anchor:
                if o.ret[0] != 'adt':
                    return None
                if o.ret[2] != 0:
                    return False, 'a value is refused: ' + show(o.ret)[:200]
                p = o.ret[3][0]
                return conj((match(d, tfld(p, 0), y), match(d, tfld(p, 1), a))), 'a value becomes ' + show(p)[:200]
            v = o.st.variant(gg)
            if v is None:
                return (False if understood(o.ret) else None), 'a reference is not looked up: ' + show(o.ret)[:200]
            if v == 0:
                return o.ret[2] == 1 if o.ret[0] == 'adt' else None, 'an unknown name gives ' + show(o.ret)[:200]
            if o.ret[0] == 'app' and o.ret[1] == path:
                got = o.ret[2][ia[0]]
                r = match(d, o.ret[2][iy], fld(gg, 1, 0))
                ok, why = same_anchors(run, o, got, a, name, y, L)
                return (r, 'goes on with ' + show(o.ret)[:200]) if ok is True else (ok, why)
            if o.ret[0] == 'adt' and o.ret[2] == 0:
                # followed without going on: right only if the value is known not to be a reference
                d2 = d.variant(fld(gg, 1, 0), L.n)
                return (True if d2 != L.Anchor else False), 'a reference to a reference is not followed'
            return None
        decide(c, 'chain', b.name, run, follow)
    # ---- recording
    n = 0
    seen = {}
    for m, kinds in (('deserialize_seq', (L.Array, L.InlineArray)), ('deserialize_map', (L.Hash, L.InlineHash)), ('deserialize_any', (L.Array, L.InlineArray, L.Hash, L.InlineHash))):
        for o in de.run(m).outs:
            v = o.st.variant(de.yaml)
            e = de.event(o)
            if v not in kinds or e is None or len(e[1]) < 2 or e[1][1][0] != 'adt':
                continue
            label = '%s of %s' % (m, cr.vname(L.yaml, v))
            acc = e[1][1]
            try:
                segs = acc[3][de.iter_field(acc)][1]
                for s in segs:
                    if s[0] == 'all':
                        bvv = mk('bv', 900)
                        s = ('each', length(s[1]), bvv, ((mk(), mk(one(elem(s[1], bvv)))),))
                    if s[0] != 'each':
                        raise Undecided('elements not recognised')
                    k = mk('sym', 'item')
                    sb = Subst({s[2]: k})
                    for fs, inner in s[3]:
                        for i in inner:
                            hs = de.hand(acc, sb(i[1]), list(sb(fs)))
                            n += 1
                            A = None
                            it = elem(fld(de.yaml, v, 0), k)
                            if v == L.Array:
                                A = fld(it, L.adE, 0)
                            if v == L.Hash:
                                A = L.val_of(it)
                            from ..interp import Outcome
                            run = Run(hs[0][0].I, [h[0] for h in hs], de.body(m), [])
                            av = {id(h[0]): h[2] for h in hs}
                            early = {id(h[0]): de.at_call(h) for h in hs}

                            def rec_ok(d, p):
                                if av[id(p)] is not de.anch:
                                    return (False if understood(av[id(p)]) else None), 'elements are read with other anchors: ' + show(av[id(p)])[:200]
                                got = p.st.cells.get(mk('rgn', de.anch), de.anch)
                                want = de.anch
                                if A is not None:
                                    al = L.f(L.alias, A, 'alias')
                                    if d.variant(al, 2) == 1:
                                        want = app('mapins', de.anch, fld(al, 1, 0), L.inner(A))
                                r = match(d, got, want)
                                e = early[id(p)]
                                if r is True and e is not None and e is not got and match(d, e, want) is False:
                                    return False, 'the value is read before its anchor is recorded: what is inside it can name another value so, and is forgotten'
                                return r, 'the anchors become ' + show(got)[:300]
                            decide(c, 'register', label, run, rec_ok)
            except Undecided as ex:
                c.unknown('register', label, str(ex))
    run = de.run('deserialize_enum', opaque=[x.folded])

    def enum(d, o):
        v = d.variant(de.yaml, L.n)
        e = de.event(o)
        if v == L.Anchor or e is None or e[0] != 'visit_enum' or e[1][1][0] != 'adt':
            return True
        got = o.st.cells.get(mk('rgn', de.anch), de.anch)
        want = de.anch
        if v == L.Hash:
            data = fld(de.yaml, v, 0)
            sg = seg_elements(data, length(data), L.hdE)
            A = L.val_of(elem(data, mk_nth(sg[1], sg[2], sg[3], INT(0))))
            al = L.f(L.alias, A, 'alias')
            if d.variant(al, 2) == 1:
                want = app('mapins', de.anch, fld(al, 1, 0), L.inner(A))
        (yn, an), V = enum_parts(de, e[1][1])
        return conj((match(d, got, want), match(d, de.ydata(V)[1], de.anch))), 'the anchors become ' + show(got)[:300]
    n += decide(c, 'register', 'deserialize_enum', run, enum)
    vis = [b for b in cr.bodies.values() if b.name == 'visit_yaml']
    run = de.run('deserialize_ignored_any', opaque=vis)
    for o in run.outs:
        ev = [s[1] for s in de.events(o) if s[0] == 'one' and s[1][0] == 'app']
        calls = [t for t in ev if t[1].endswith('::visit_yaml')]
        if not calls:
            c.check('register', 'deserialize_ignored_any', False if all(t[1].startswith('Visitor::') for t in ev) and facts_ok(o) else None,
                    'anchors inside an ignored value are not recorded', run.body.span)
            continue
        t = calls[0]
        d = D(o.st, ())
        A = mk('sym', 'aliased')
        clo = t[2][1]
        if match(d, t[2][0], de.yaml) is not True or clo[0] != 'clo':
            c.unknown('register', 'deserialize_ignored_any', show(t)[:200])
            continue
        rc = run_closure(c, clo, [A])

        def ign(d, p):
            got = p.st.cells.get(mk('rgn', de.anch), de.anch)
            want = de.anch
            al = L.f(L.alias, A, 'alias')
            if d.variant(al, 2) == 1:
                want = app('mapins', de.anch, fld(al, 1, 0), L.inner(A))
            return match(d, got, want), 'the anchors become ' + show(got)[:300]
        n += decide(c, 'register', 'deserialize_ignored_any', rc, ign)
    c.floor('register', n, 12, 'recording cases')
