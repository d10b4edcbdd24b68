"""P12, P13, P14, P18: what scalars stand for."""
from .common import *

NL = STR('\n')


class Texts:
    def __init__(self, c):
        self.c = c
        L = self.L = Lib(c)
        cr = c.crate
        self.chomp = cr.adt_named('BlockChomping')
        self.Clip, self.Strip, self.Keep = (cr.vidx(self.chomp, x) for x in ('Clip', 'Strip', 'Keep'))
        self.sq, self.dq = cr.adt_named('SingleQuotedStringPart'), cr.adt_named('DoubleQuotedStringPart')
        self.sesc, self.desc = cr.adt_named('SingleQuotedStringEscapedChar'), cr.adt_named('DoubleQuotedStringEscapedChar')
        self.folded = self.pub('parse_folded')
        self.literal = self.pub('parse_literal')
        allow([self.folded.path])

    def pub(self, name):
        try:
            b = self.c.crate.fn(name)
        except KeyError:
            raise Lost('public function %s not found' % name)
        return b

    # ---- what the parts of a quoted string stand for
    REAL = {'Quote': '"', 'Backslash': '\\', 'Tab': '\t', 'CarriageReturn': '\r', 'Newline': '\n', 'RealNewline': '\n'}
    WRITTEN = {'Quote': '"', 'Backslash': '\\', 'Tab': 't', 'CarriageReturn': 'r', 'Newline': 'n', 'RealNewline': '\n'}

    def part(self, d, adt, p, esc):
        cr = self.c.crate
        vs = cr.variants(adt)
        v = d.variant(p, len(vs))
        n = vs[v]['n']
        if n == 'String':
            return [mk('val', fld(p, v, 0))]
        if n == 'EscapedChar':
            return [mk('lit', self.escape(d, esc, fld(p, v, 0), self.REAL))]
        if n == 'BlankLines':
            return [mk('rep', '\n', fld(p, v, 0))]
        if n == 'RemovableNewline':
            return []
        raise Undecided('unknown part ' + n)

    def escape(self, d, esc, e, table):
        vs = self.c.crate.variants(esc)
        if len(vs) == 1 and vs[0]['n'] == 'SingleQuote':
            return "'"
        n = vs[d.variant(e, len(vs))]['n']
        if n not in table:
            raise Undecided('unknown escape ' + n)
        return table[n]

    def quoted(self, parts, double):
        adt, esc = (self.dq, self.desc) if double else (self.sq, self.sesc)
        return Txt(Each(length(parts), lambda d, k: self.part(d, adt, elem(parts, k), esc)))

    def chomped(self, d, x, ch):
        v = d.variant(ch, 3)
        if v == self.Keep:
            return concat(x, NL)
        t = app('trim_end_matches', x, NL)
        return t if v == self.Strip else concat(t, NL)

    def literal_text(self, d, lines, ch):
        return self.chomped(d, app('join', lines, NL), ch)

    def text(self, d, y):
        """the text of a scalar, None for the rest"""
        L = self.L
        v = d.variant(y, L.n)
        f = lambda i: fld(y, v, i)
        if v == L.UnquotedString:
            return f(0)
        if v == L.SingleQuotedString:
            return self.quoted(f(0), False)
        if v == L.DoubleQuotedString:
            return self.quoted(f(0), True)
        if v == L.FoldedString:
            return app(self.folded.path, f(0), f(1))
        if v == L.LiteralString:
            return self.literal_text(d, f(0), f(1))
        return None


def p14(c):
    c.rule('literal', 'lines joined by newlines, then strip: no trailing newline, clip: trailing newlines removed and one added, keep: one added')
    c.rule('folded', 'the three chompings end the same folded text under the same three rules')
    x = Texts(c)
    run = analyse(c, x.literal)
    lines, ch = run.args
    n = decide(c, 'literal', 'parse_literal', run, lambda d, o: (match(d, o.ret, x.literal_text(d, lines, ch)), 'value is ' + show(o.ret)[:300]))
    c.floor('literal', n, 3, 'chomping cases')
    run = analyse(c, x.folded)
    lines, ch = run.args
    body = {}
    for o in run.outs:
        v = o.st.variant(ch)
        if v is not None and o.st.bounds(length(lines))[0] >= 1:
            body.setdefault(v, []).append(o)
    # the folded text itself, as any of the three cases shows it
    cand = []
    for o in body.get(x.Strip, []) + body.get(x.Clip, []):
        for t in subterms(o.ret):
            if t[0] == 'app' and t[1] == 'trim_end_matches' and t[2][1] is NL:
                cand.append(t[2][0])
    for o in body.get(x.Keep, []):
        ps = pieces_of(o.ret)
        if ps and ps[-1][0] == 'lit' and ps[-1][1].endswith('\n'):
            cand.append(txt(ps[:-1] + [mk('lit', ps[-1][1][:-1])]))
    cand += [o.ret for o in body.get(x.Strip, [])]
    if not cand:
        c.unknown('folded', 'parse_folded', 'no folded text recognised')
        return
    X = cand[0]
    S = mk('sym', 'folded text')

    def hide(t):
        t = Rewrite(lambda z: S if z is X else None)(t)
        for tail in ('\n', ''):
            ps = pieces_of(t)
            if t is concat(X, STR(tail)):
                return concat(S, STR(tail))
        return t
    n = 0
    for v, os in sorted(body.items()):
        for o in os:
            n += 1
            got = hide(o.ret)
            st = St(run.I).add_facts(Rewrite(hide)(mk(*o.facts)))
            d = D(st if st is not None else o.st, ())
            try:
                r = match(d, got, x.chomped(d, S, ch))
            except (Undecided, Infeasible, Fork):
                r = None
            c.check('folded', 'parse_folded with ' + c.crate.vname(x.chomp, v), r, 'value is %s of the folded text' % show(got)[:300], x.folded.span)
    c.floor('folded', n, 3, 'chomping cases')
    # a block of one line is that line: nothing is folded
    l0 = mk('sym', 'line')
    run = analyse(c, x.folded, args=[seq([one(l0)]), ch])
    n = decide(c, 'folded', 'parse_folded of one line', run, lambda d, o: (match(d, o.ret, x.chomped(d, l0, ch)), 'value is ' + show(o.ret)[:300]))
    c.floor('folded', n, 3, 'chomping cases of one line')


def p18(c):
    c.rule('text', 'text of a scalar: plain text as is, quoted parts in order (escape: its character, blank lines: newlines, folded line break: nothing), blocks by their chomping; collections and references: none')
    c.rule('deserialize', 'a string deserializes as that same text; collections are errors')
    c.rule('untyped', 'quoted and block scalars deserialize untyped as that same text')
    x = Texts(c)
    L = x.L
    cr = c.crate
    for name, dbl in (('parse_single_quoted_string', False), ('parse_double_quoted_string', True)):
        run = analyse(c, x.pub(name))
        decide(c, 'text', name, run, lambda d, o: (match(d, o.ret, x.quoted(run.args[0], dbl)), ''))
    run = analyse(c, cr.method('Yaml', 'as_string', 'YamlTypes'), opaque=[x.folded])
    y = run.args[0]

    def spec(d, o):
        t = x.text(d, y)
        if t is None:
            return match(d, o.ret, NONE), 'a node without text gives ' + show(o.ret)[:200]
        if d.variant(o.ret, 2) == 0:
            return False, 'a scalar gives no text'
        return match(d, fld(o.ret, 1, 0), t), ''
    n = decide(c, 'text', 'Yaml::as_string', run, spec)
    c.floor('text', n, 10, 'kinds of node')
    run2 = analyse(c, cr.method('AliasedYaml', 'as_string', 'YamlTypes'), opaque=[cr.method('Yaml', 'as_string', 'YamlTypes')])
    nm = '<Yaml>::YamlTypes::as_string'
    allow([nm])
    decide(c, 'text', 'AliasedYaml::as_string', run2, lambda d, o: (match(d, o.ret, app(nm, L.inner(run2.args[0]))), ''))
    n = 0
    from .serde import De
    de = De(c)
    for m in ('deserialize_str', 'deserialize_string', 'deserialize_identifier', 'deserialize_any'):
        run = de.run(m, opaque=[x.folded])
        yy = de.yaml

        def sp(d, o):
            v = d.variant(yy, L.n)
            if v == L.Anchor:
                return True
            if m == 'deserialize_any' and v == L.UnquotedString:
                return True
            t = x.text(d, yy)
            if t is None:
                return (True if m == 'deserialize_any' else de.fails(d, o)), 'a collection is read as text: ' + show(o.ret)[:200]
            return de.visits_text(d, o, t)
        n += decide(c, 'untyped' if m == 'deserialize_any' else 'deserialize', m, run, sp)
    c.floor('deserialize', n, 30, 'kinds of node')
