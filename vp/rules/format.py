"""P13, P15: what writing a tree out produces."""
from .common import *
from .strings import Texts
from .parse import Gram, Quotes, block_kind, made, result_of, N


def lit(s):
    return mk('lit', s)


def val(t):
    return mk('val', t)


def spaces(n):
    return mk('rep', ' ', n)


class Fmt:
    """the written form of every kind of node"""

    def __init__(self, c):
        self.c = c
        cr = c.crate
        self.x = Texts(c)
        L = self.L = self.x.L
        self.yaml = cr.method('Yaml', 'format')
        self.aliased = cr.method('AliasedYaml', 'format')
        self.document = cr.method('Document', 'format')
        for b in (self.yaml, self.aliased):
            allow([Interp(cr).fname(b)])
        self.par = cr.adt_named('Parent')
        self.pA, self.pH = cr.vidx(self.par, 'Array'), cr.vidx(self.par, 'Hash')

    def child(self, body, *args):
        """the text another format call writes: its node, indentation and parent"""
        return mk('val', app('out:' + Interp(self.c.crate).fname(body), *args))

    def in_array(self, d, parent):
        if d.variant(parent, 2) == 0:
            return False
        return d.variant(fld(parent, 1, 0), 2) == self.pA

    def first(self, d, k):
        return d.test(eqi(k, INT(0)))

    def node(self, d, y, sp, parent):
        L = self.L
        v = d.variant(y, L.n)
        f = lambda i: fld(y, v, i)
        none = NONE
        Y = lambda t: self.child(self.yaml, t, UNIT, INT(0), none)
        if v == L.InlineHash or v == L.InlineArray:
            op, cl = ('{', '}') if v == L.InlineHash else ('[', ']')
            xs = f(0)

            def item(d, k):
                pre = [] if self.first(d, k) else [lit(',')]
                e = elem(xs, k)
                if v == L.InlineHash:
                    return pre + [lit(' '), val(tfld(e, 0)), lit(':'), Y(tfld(e, 1))]
                return pre + [Y(e)]
            end = cl if d.test(eqi(length(xs), INT(0))) else ' ' + cl
            return [lit(' ' + op), Each(length(xs), item), lit(end)]
        if v == L.Hash or v == L.Array:
            xs = f(0)
            if d.test(eqi(length(xs), INT(0))):
                return [lit(' {}' if v == L.Hash else ' []')]
            ty = L.hd if v == L.Hash else L.ad
            names = {x['n']: i for i, x in enumerate(self.c.crate.variants(ty))}

            def item(d, k):
                e = elem(xs, k)
                ev = d.variant(e, len(names))
                if ev == names['Comment']:
                    return [lit('\n'), spaces(sp), lit('#'), val(fld(e, ev, 0))]
                if ev == names['InlineComment']:
                    return [lit(' #'), val(fld(e, ev, 0))]
                same = self.in_array(d, parent) and self.first(d, k)
                pre = [lit(' ')] if same else [lit('\n'), spaces(sp)]
                if v == L.Hash:
                    al = L.val_of(e)
                    pre += [val(L.key_of(e)), lit(':')]
                    par = self.pH
                else:
                    al = fld(e, L.adE, 0)
                    pre += [lit('-')]
                    par = self.pA
                return pre + self.anchored(d, al, sp, some(mk('adt', self.par, par, ())))
            return [Each(length(xs), item)]
        if v == L.UnquotedString:
            return [lit(' '), val(f(0))]
        if v in (L.SingleQuotedString, L.DoubleQuotedString):
            dbl = v == L.DoubleQuotedString
            adt, esc = (self.x.dq, self.x.desc) if dbl else (self.x.sq, self.x.sesc)
            q = '"' if dbl else "'"

            def part(d, k):
                p = elem(f(0), k)
                vs = self.c.crate.variants(adt)
                pv = d.variant(p, len(vs))
                n = vs[pv]['n']
                if n == 'String':
                    return [val(fld(p, pv, 0))]
                if n == 'EscapedChar':
                    return [lit(('\\' if dbl else "'") + self.x.escape(d, esc, fld(p, pv, 0), self.x.WRITTEN))]
                if n == 'BlankLines':
                    return [lit('\n'), mk('rep', '\n', fld(p, pv, 0))]
                if n == 'RemovableNewline':
                    return [lit('\n')]
                raise Undecided('unknown part ' + n)
            return [lit(' ' + q), Each(length(f(0)), part), lit(q)]
        if v in (L.LiteralString, L.FoldedString):
            return [self.block(y, v, sp)]
        if v == L.Anchor:
            return [lit(' *'), val(f(0))]
        raise Undecided('unknown kind of node')

    marker = {'Clip': '', 'Strip': '-', 'Keep': '+'}
    digit = '2'
    style = None

    def block(self, y, v, sp):
        lines, ch = fld(y, v, 0), fld(y, v, 1)
        mark = {self.c.crate.vidx(self.x.chomp, n): m for n, m in self.marker.items()}
        style = (self.style or {self.L.LiteralString: '|', self.L.FoldedString: '>'})[v]

        def line(d, k):
            e = elem(lines, k)
            pre = []
            if self.first(d, k):
                pre = [lit(' ' + style + mark[d.variant(ch, 3)])]
                if d.test(app('starts_with', e, STR(' '))):
                    pre += [lit(self.digit)]
            return pre + [lit('\n'), spaces(sp), val(e)]
        return Each(length(lines), line)

    def anchored(self, d, al, sp, parent):
        """what is written for the value of a key or element; either a call or what that call writes"""
        return [self.child(self.aliased, al, UNIT, sp, parent)]

    def value(self, d, al, sp, parent):
        L = self.L
        a = L.f(L.alias, al, 'alias')
        sp = add(sp, INT(2))
        if d.variant(a, 2) == 1:
            return [lit(' &'), val(fld(a, 1, 0)), self.child(self.yaml, L.inner(al), UNIT, sp, NONE)]
        return [self.child(self.yaml, L.inner(al), UNIT, sp, parent)]


def good(o):
    return o.st.variant(o.ret) != 1


def written(d, o, arg, items):
    """compares what an outcome appended to a buffer with the pieces it should have appended"""
    got = o.cells.get(arg[0])
    return match(d, got, Txt(val(arg[1]), *items))


def p15(c):
    c.rule('write', 'the text written for a node: its punctuation, its own text and the text of its children, every one once and in order')
    F = Fmt(c)
    L = F.L
    cr = c.crate
    n = 0
    for v, d in enumerate(cr.variants(L.yaml)):
        run = analyse(c, F.yaml, opaque={F.yaml.key, F.aliased.key}, setup=lambda st: (st.set_is(mk('sym', 'a0'), v), st)[1])
        y, _, sp, parent = run.args
        n += emitted(c, 'Yaml::' + d['n'], run, lambda dd: F.node(dd, y, sp, parent))
    run = analyse(c, F.aliased, opaque={F.yaml.key})
    n += emitted(c, 'AliasedYaml', run, lambda dd: F.value(dd, run.args[0], run.args[2], run.args[3]))
    run = analyse(c, F.document, opaque={F.yaml.key})
    doc = run.args[0]
    lead, items = L.f(L.doc, doc, 'leading_comments'), L.f(L.doc, doc, 'items')

    def item(d, k):
        e = elem(items, k)
        if d.variant(e, len(cr.variants(L.dd))) == L.ddY:
            return [F.child(F.yaml, fld(e, L.ddY, 0), UNIT, INT(0), NONE)]
        return [lit('\n#'), val(fld(e, 1 - L.ddY, 0))]

    def spec(d, o):
        if d.variant(o.ret, 2) == 1:
            return True
        return match(d, fld(o.ret, 0, 0), Txt(Each(length(lead), lambda d, k: [lit('#'), val(elem(lead, k)), lit('\n')]), lit('---'), Each(length(items), item)))
    n += decide(c, 'write', 'Document', run, spec)
    c.floor('write', n, 20, 'cases of node')


def emitted(c, name, run, spec):
    buf = run.args[1]

    def f(d, o):
        if not good(o):
            return True
        got = o.cells.get(1)
        if got is None:
            return None
        m = match(d, got, Txt(val(buf[1]), *spec(d)))
        return m, 'writes %s%s' % (show(got)[:400], ' | ' + d.why if getattr(d, 'why', '') else '')
    return decide(c, 'write', name, run, f)


# ---------------------------------------------------------------- block scalar headers
def headers(c, G, F):
    """{yaml variant: (style text, {chomping: marker text})} as the parser reads them"""
    L = F.L
    out = {}
    chompers = [r for r in sorted(G.methods) if made(G, r) == 'BlockChomping']
    for rule in sorted(G.methods):
        if made(G, rule) != 'Yaml':
            continue
        kids = G.g.child_names(rule)
        if not kids & set(chompers):
            continue
        style = {t for k, t in G.g.terminals(rule) if k == 'lit' and t.strip()}
        marks, kind = {}, set()
        for w in G.words(rule):
            nodes, run = G.run(rule, w)
            for o in run.outs:
                v = result_of(o, nodes, G)
                if v is None or v[0] != 'adt':
                    continue
                kind.add(v[2])
                ch = v[3][1]
                mine = [(nd, r) for nd, r in zip(nodes, w) if r in chompers]
                if not mine:
                    if ch[0] == 'adt':
                        marks.setdefault(ch[2], set()).add('')
                elif ch is G.value(mine[0][1], mine[0][0]):
                    ts = G.g.texts(mine[0][1])
                    for t in ts or ():
                        _, r2 = G.run(mine[0][1], (), t)
                        for o2 in r2.outs:
                            v2 = result_of(o2, [], G)
                            if v2 is not None and v2[0] == 'adt':
                                marks.setdefault(v2[2], set()).add(t)
        if len(kind) == 1 and len(style) == 1:
            out[kind.pop()] = (style.pop(), marks, rule)
    return out


def p13(c):
    c.rule('header', 'style and chomping written for a block scalar are the ones the parser reads as that style and chomping')
    c.rule('lines', 'an explicit indicator goes before a first line starting with a space; every line is written once, in order, at the indentation of the block')
    c.rule('indicator', 'the indicator read means one less than its digits, and the one written is the step by which blocks are indented')
    try:
        G = Gram(c, 'YamlParser')
    except Lost as e:
        c.unknown('header', 'YamlParser', str(e))
        return
    F = Fmt(c)
    L = F.L
    cr = c.crate
    hs = headers(c, G, F)
    n = 0
    for kind in (L.LiteralString, L.FoldedString):
        name = cr.vname(L.yaml, kind)
        if kind not in hs:
            c.unknown('header', name, 'no grammar rule read as this node was recognised')
            continue
        style, marks, rule = hs[kind]
        for ch, d in enumerate(cr.variants(F.x.chomp)):
            n += 1
            k = '%s with %s' % (name, d['n'])
            want = marks.get(ch, set())
            # the header of a block whose first line is plain text, and of one that starts with a space
            run = analyse(c, F.yaml, [mk('adt', L.yaml, kind, (seq([one(STR('x')), one(STR(' y'))]), mk('adt', F.x.chomp, ch, ()))), mk('mut', STR('')), INT(0), NONE],
                          opaque={F.yaml.key, F.aliased.key})
            ts = {pieces_text_(o.cells.get(1, UNIT)) for o in run.outs if good(o)}
            t = ts.pop() if len(ts) == 1 else None
            if t is None or '\n' not in t:
                c.unknown('header', k, 'header is not a literal')
                continue
            head_ = t.split('\n')[0].strip(' ')
            if not want:
                c.bad('header', k, 'written as %s, but no header is read as this chomping' % repr(head_), F.yaml.span)
                continue
            c.check('header', k, head_ in {style + m for m in want}, 'written as %s, read from %s' % (repr(head_), sorted(repr(style + m) for m in want)), F.yaml.span)
            for other, ms in marks.items():
                if other != ch and ms & want:
                    c.bad('header', k, 'the marker %s is read as two chompings' % sorted(ms & want), G.methods[rule].span)
    c.floor('header', n, 6, 'headers')
    # the written lines
    F.marker = {}
    for kind in (L.LiteralString, L.FoldedString):
        if kind in hs:
            for ch, ms in hs[kind][1].items():
                if len(ms) == 1:
                    F.marker[cr.vname(F.x.chomp, ch)] = min(ms)
    for k in ('Clip', 'Strip', 'Keep'):
        F.marker.setdefault(k, Fmt.marker[k])
    F.style = {L.LiteralString: '|', L.FoldedString: '>'}
    for kind, h in hs.items():
        F.style[kind] = h[0]
    step = indentation(c, F)
    if step is None:
        c.unknown('indicator', 'written', 'the indentation step is not a constant')
    else:
        F.digit = str(step)
    n = 0
    for kind in (L.LiteralString, L.FoldedString):
        run = analyse(c, F.yaml, opaque={F.yaml.key, F.aliased.key}, setup=lambda st: (st.set_is(mk('sym', 'a0'), kind), st)[1])
        y, buf, sp, parent = run.args

        def f(d, o):
            if not good(o):
                return True
            got = o.cells.get(1)
            m = match(d, got, Txt(val(buf[1]), F.block(y, kind, sp)))
            return m, 'writes %s%s' % (show(got)[:500], ' | ' + d.why if getattr(d, 'why', '') else '')
        n += decide(c, 'lines', cr.vname(L.yaml, kind), run, f)
    c.floor('lines', n, 2, 'block scalars')
    # the indicator as it is read
    m = 0
    for r in sorted(G.methods):
        if made(G, r) != 'Option<usize>' or G.g.child_names(r):
            continue
        ts = G.g.texts(r)
        if ts is None:
            c.unknown('indicator', r, 'infinitely many indicators')
            continue
        bad = unk = None
        for t in sorted(ts, key=lambda x: (len(x), x))[:130]:
            m += 1
            _, run = G.run(r, (), t)
            vs = [(o, result_of(o, [], G)) for o in run.outs]
            want = NONE if t == '' else some(INT(int(t) - 1))
            if run.I.panics and not vs:
                bad = bad or 'the indicator %s panics' % repr(t)
            elif len(vs) != 1 or vs[0][1] is None and vs[0][0].ret[0] != 'adt':
                unk = unk or repr(t)
            elif vs[0][1] is not want:
                if vs[0][1] is None or vs[0][1][0] == 'adt' and (vs[0][1][2] == 0 or vs[0][1][3][0][0] == 'int'):
                    bad = bad or 'the indicator %s is read as %s' % (repr(t), show(vs[0][1]) if vs[0][1] is not None else 'an error')
                else:
                    unk = unk or repr(t)
        c.check('indicator', 'read by ' + r, False if bad else None if unk else True, bad or 'not decided for ' + str(unk), G.methods[r].span)
    c.floor('indicator', m, 100, 'indicators')
    # one blank is consumed with the indentation of the parent: the rest is what the indicator leaves
    for kind, (style, marks, rule) in hs.items():
        content = [x for x in G.g.child_names(rule) if made(G, x) == 'Vec<String>']
        ps = [pushes(G.g.rules[x][1]) for x in content if x in G.g.rules]
        c.check('indicator', 'blanks consumed before lines of ' + cr.vname(L.yaml, kind), ps == [[' ']] or (False if len(ps) == 1 and ps[0] and all(x is not None for x in ps[0]) else None),
                'the grammar consumes %s of the indentation, the indicator read leaves one less than its digits' % ps, G.file)


def pushes(e):
    k = e[0]
    if k == 'push':
        return [e[1][1] if e[1][0] == 'lit' else None]
    if k in ('seq', 'alt'):
        return [y for x in e[1] for y in pushes(x)]
    if k in ('rep', 'not', 'and'):
        return pushes(e[1])
    return []


def pieces_text_(t):
    from .parse import pieces_text
    return pieces_text(t)


def indentation(c, F):
    """how much deeper a value is indented than its key"""
    run = analyse(c, F.aliased, opaque={F.yaml.key})
    nm = 'out:' + Interp(c.crate).fname(F.yaml)
    steps = set()
    for o in run.outs:
        got = o.cells.get(1)
        if got is None or not good(o):
            continue
        for t in subterms(got):
            if t[0] == 'app' and t[1] == nm:
                s = sub(t[2][2], run.args[2])
                steps.add(s[1] if s[0] == 'int' else None)
    return steps.pop() if len(steps) == 1 else None
