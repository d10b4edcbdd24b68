"""P16, P17, P33: which style a text gets, and whether it still stands for the same text.

The conditions and results extracted from the code are looked at as tables over texts: for every text of a bounded set of
combinations of the characters the grammar cares about, constant propagation through the extracted conditions tells the style
the writer chooses, and the grammar (as written in the .pest file) tells what that style is read as."""
import itertools
from .common import *
from .strings import Texts
from .serde import De, TEXT
from .parse import Gram, made, result_of
from .maps import Prettied
from ..concrete import Eval, Unknown, Ch, WS, Table
from ..grammar import BadGrammar

SPECIAL = ['null', 'Null', 'NULL', '~', 'true', 'True', 'TRUE', 'false', 'False', 'FALSE', 'yes', 'no', 'on', 'off', '0', '1', '-7', '+5', '-0', '007', '1_000',
           '0x1F', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615',
           '18446744073709551616', '1.5', '-1.5', '1e5', '1E-3', '+.5', '.5', '5.', 'inf', '-inf', '+inf', 'NaN', 'nan', 'infinity', 'Infinity', 'iNf', '.inf', '.nan',
           '1.5.2', '1 2', '- ', '-', '--', '---', '...', '- a', '-\ta', '-a', '?', '? a', 'a:', 'a: b', 'a:b', 'a : b', 'a:\tb', ':', ': a', ':a', 'a: ', '::', '&a', '&a b', '*a',
           '*', '&', '!a', '%a', '@a', '`a', 'a#', 'a #b', '#', '#a', 'a, b', '[a]', '{a: b}', '{}', '[]', "it's", "'a'", '"a"', 'a"b', '|', '>', '|a', '>a', 'a|', 'a>b', '=',
           '<<', '<<: a', 'a\\', '\\n', 'a\u00a0', '\u00a0a', 'a\u2003b', '\u2028', 'a\u0085', '\ufeffa', 'é', '日本: 語', 'key with blanks: 1', 'a b: c', 'a: b: c', 'a-b: c', '- - a', '- a: b',
           '2001-01-01', '12:30', 'http://x', 'a  b', ' a', 'a ', '', ' ', '\t', 'a\tb', '\ta', 'a\t', '\na', 'a\n', 'a\nb', 'a\n\nb', 'a\r', 'a\rb', '\r\n', 'a\r\nb',
           'a\x0b', 'a\x0cb', '\x0c', 'nUll', 'Yes', 'a null', 'true ', '1 ', '1\u00a0', 'e5', '1e', '0.', '-', '+', '.', '-.', '+-1', '１', '٣']
CHARS = ['a', ' ', '\t', '\n', '\r', ':', '-', '#', ',', '[', ']', '{', '}', '"', "'", '>', '|', '*', '&', '\\', '0', '.', 'é', '\u00a0', '_', '~', '?', '!']


def wordlist(tier='quick'):
    ws = list(SPECIAL)
    ws += CHARS
    for p in itertools.product(CHARS, repeat=2):
        p = ''.join(p)
        ws += [p, 'a' + p, p + 'a', 'a' + p + 'a']
    if tier != 'quick':
        few = ['a', ' ', ':', '-', '#', '"', "'", '*', '&', '0', '.', '[', '}', ',', '|', '\n', '\t']
        ws += [''.join(p) for p in itertools.product(few, repeat=3)]
    return list(dict.fromkeys(ws))


def thresholds(runs, lo=8, hi=1500, most=6):
    """whole numbers the conditions of analysed functions compare with: texts of about that length are looked at as well"""
    out, seen = set(), set()

    def go(t):
        if isinstance(t, (tuple, list)):
            if isinstance(t, tuple):
                if id(t) in seen:
                    return
                seen.add(id(t))
                if t and t[0] == 'int' and isinstance(t[1], int) and lo <= abs(t[1]) <= hi:
                    out.add(abs(t[1]))
                if t and t[0] in ('ge', 'le', 'eq') and isinstance(t[-1], int) and lo <= abs(t[-1]) <= hi:
                    out.add(abs(t[-1]))
            for x in t:
                go(x)
    for r in runs:
        for o in r.outs:
            for f in o.facts:
                go(f)
    return sorted(out)[:most]


def long_texts(ns):
    """texts of about the given lengths that need quotes, or do not"""
    out = []
    for n in ns:
        for m in (n - 1, n, n + 1, n + 2):
            out += ['a' * m, '1' * m, '-' + '1' * (m - 1), '0.' + '3' * (m - 2), 'é' * m, 'a' * (m - 1) + '\n', 'a' * (m - 1) + ' ', 'a b' * (m // 3), '~' * m]
            out += [x + 'a' * (m - len(x)) for x in ('a: ', '- ', '&', '*', '"', "'", 'a #', '|', '> ', 'a, ', '[', '{', 'a\n', 'a\n\n', '\\', '"\'', 'a\tb')]
            out += ['a' * (m - len(x)) + x for x in (': a', ':', ' #a', ']', ', a', "'", '"', '\\')]
    return out


def around(chars, n):
    return list(dict.fromkeys(''.join(p) for k in range(n + 1) for p in itertools.product(chars, repeat=k)))


class Reader:
    """what the grammar reads a plain text as"""
    PLACES = (('value of a key', '---\nk: %s\n', False), ('value of a key before another', '---\nk: %s\nl: a\n', False),
              ('element of an array', '---\n- %s\n- a\n', False), ('value of a nested key', '---\nk:\n  l: %s\n', False),
              ('key in an array', '---\n- k: %s\n  l: a\n', False),
              ('element of an inline array', '---\nk: [%s, a]\n', True), ('last element of an inline array', '---\nk: [a, %s]\n', True),
              ('value in an inline mapping', '---\nk: {l: %s, m: a}\n', True), ('last value in an inline mapping', '---\nk: {l: %s}\n', True))

    def __init__(self, c):
        self.c = c
        self.G = Gram(c, 'YamlParser')
        self.L = Lib(c)
        self.start = [r for r in self.G.methods if made(self.G, r) == 'Document']
        if len(self.start) != 1:
            raise Lost('the rule for a whole document is not unique')
        self.start = self.start[0]
        self.made = {r: made(self.G, r) for r in self.G.methods}
        self.plain = {}
        self.sample = {}
        self.memo = {}
        for name, p, _ in self.PLACES:
            t = self.G.g.whole(self.start, p % 'a')
            s = None if t is None else self.shape(t, p % 'a')
            if s is None or sum(x[1] == 'a' for x in s[1]) < 1:
                raise Lost('the grammar does not read a plain text as ' + name)
            self.sample[p] = s

    def leaf(self, rule):
        return self.made.get(rule) == 'Yaml' and not self.G.g.child_names(rule)

    def text(self, rule, s):
        """the text kept of a plain scalar matched as s"""
        k = rule, s
        if k not in self.plain:
            nodes, run = self.G.run(rule, (), s)
            r = None
            vals = [result_of(o, nodes, self.G) for o in run.outs]
            if len(vals) == 1 and vals[0] is not None and vals[0][0] == 'adt' and vals[0][2] == self.L.UnquotedString:
                try:
                    r = Eval(run.I.loops, {}).ev(vals[0][3][0])
                except Unknown:
                    r = None
            self.plain[k] = r
        return self.plain[k]

    def shape(self, nodes, s):
        """(the rules matched, the texts of the plain scalars)"""
        texts = []

        def go(ns):
            r = []
            for n, a, b, ks in ns:
                if n in ('EOI',):
                    continue
                if self.leaf(n):
                    texts.append((n, self.text(n, s[a:b])))
                    r.append('plain')
                elif self.made.get(n) in ('Yaml', 'AliasedYaml', 'HashElement', 'ArrayData', 'HashData', 'Document', 'Vec<HashData>', 'Vec<ArrayData>') or ks:
                    r.append((n, tuple(go(ks))))
                else:
                    r.append(n)
            return r
        return tuple(go(nodes)), texts

    def reads(self, place, w):
        """None if w written there reads as the plain text w, else what happens"""
        k = place, w
        if k not in self.memo:
            self.memo[k] = self.reads_(place, w)
        return self.memo[k]

    def reads_(self, place, w):
        doc = place % w
        try:
            t = self.G.g.whole(self.start, doc)
        except BadGrammar as e:
            raise Unknown(str(e))
        if t is None:
            return 'is not readable'
        s = self.shape(t, doc)
        if any(x is None for _, x in s[1]):
            raise Unknown('text of a plain scalar')
        want = [x for _, x in self.sample[place][1]]
        i = place.count('a', 0, place.index('%s'))
        got = [x for _, x in s[1]]
        # the samples before and after stay as they are, the text in between is w
        exp = list(want)
        n = sum(1 for x in want)
        where = [j for j, x in enumerate(self.order(place)) if x is None][0]
        exp[where] = w
        if got != exp:
            return 'reads as %s' % (', '.join(repr(x) for x in got) or 'no plain text')
        if s[0] != self.sample[place][0]:
            return 'reads as another structure'
        return None

    def order(self, place):
        """plain scalars of the sample in order, None for the place itself"""
        t = self.G.g.whole(self.start, place % 'z')
        return [None if x == 'z' else x for _, x in self.shape(t, place % 'z')[1]]


class Untyped:
    """what untyped reading makes of a plain text"""

    def __init__(self, c):
        de = self.de = De(c)
        x = Texts(c)
        run = de.run('deserialize_any', opaque=[x.folded])
        self.L = de.L
        self.run = Run(run.I, [o for o in run.outs if o.st.variant(de.yaml) == self.L.UnquotedString], run.body, run.args)
        if not self.run.outs:
            raise Lost('untyped reading of a plain text not found')
        self.table = Table(self.run)

    def text(self, w):
        """None if the plain text w is visited as that text, else what is visited"""
        env = {self.de.yaml: ('adt', self.L.yaml, self.L.UnquotedString, [w])}
        o, e = self.table.one(env)
        ev = self.de.events(o)
        if len(ev) != 1 or ev[0][0] != 'one' or ev[0][1][0] != 'app':
            raise Unknown('not one call of the visitor')
        a = ev[0][1]
        n = a[1].split('::')[-1]
        if n not in TEXT:
            return 'visits ' + n
        got = e.ev(a[2][1])
        return None if got == w else 'visits the text %r' % got


class Parts:
    """quoted strings with definite parts"""

    def __init__(self, c):
        self.c = c
        self.x = Texts(c)
        self.L = self.x.L
        cr = c.crate
        self.v = {}
        for adt, esc in ((self.x.sq, self.x.sesc), (self.x.dq, self.x.desc)):
            self.v[adt] = {d['n']: i for i, d in enumerate(cr.variants(adt))}
            self.v[esc] = {d['n']: i for i, d in enumerate(cr.variants(esc))}

    def of(self, w, double, blank=False):
        """natural parts of a text; blank: line breaks as blank lines instead of escapes"""
        adt, esc = (self.x.dq, self.x.desc) if double else (self.x.sq, self.x.sesc)
        out = []
        i = 0
        names = {'"': 'Quote', '\\': 'Backslash', '\t': 'Tab', '\r': 'CarriageReturn', '\n': 'Newline'} if double else {"'": 'SingleQuote'}
        if blank or not double:
            names.pop('\n', None)
        while i < len(w):
            ch = w[i]
            if ch in names:
                out.append(('adt', adt, self.v[adt]['EscapedChar'], [('adt', esc, self.v[esc][names[ch]], [])]))
                i += 1
            elif ch == '\n':
                j = i
                while j < len(w) and w[j] == '\n':
                    j += 1
                out.append(('adt', adt, self.v[adt]['BlankLines'], [j - i]))
                i = j
            else:
                j = i
                while j < len(w) and w[j] not in names and w[j] != '\n':
                    j += 1
                out.append(('adt', adt, self.v[adt]['String'], [w[i:j]]))
                i = j
        return out

    def text(self, v, parts):
        """the text of the parts of a quoted string (variant v of Yaml), and its plain runs"""
        double = v == self.L.DoubleQuotedString
        adt, esc = (self.x.dq, self.x.desc) if double else (self.x.sq, self.x.sesc)
        names = {i: n for n, i in self.v[adt].items()}
        enames = {i: n for n, i in self.v[esc].items()}
        out, plain = [], []
        for p in parts:
            if not (isinstance(p, tuple) and p and p[0] == 'adt' and p[1] == adt):
                raise Unknown('part')
            n = names[p[2]]
            if n == 'String':
                if not isinstance(p[3][0], str):
                    raise Unknown('text of a part')
                out.append(str(p[3][0]))
                plain.append(str(p[3][0]))
            elif n == 'EscapedChar':
                e = enames[p[3][0][2]]
                out.append("'" if e == 'SingleQuote' else self.x.REAL[e])
            elif n == 'BlankLines':
                out.append('\n' * p[3][0])
        return ''.join(out), plain

    def value(self, y, e=None):
        """the text a scalar with known content stands for"""
        v = y[2]
        L = self.L
        if v == L.UnquotedString:
            return y[3][0]
        if v in (L.SingleQuotedString, L.DoubleQuotedString):
            return self.text(v, y[3][0])[0]
        if v == L.LiteralString:
            t = '\n'.join(y[3][0])
            ch = y[3][1][2]
            return t + '\n' if ch == self.x.Keep else t.rstrip('\n') if ch == self.x.Strip else t.rstrip('\n') + '\n'
        return None


class Styles:
    """results of serializing and prettifying definite texts"""

    def __init__(self, c):
        self.c = c
        cr = c.crate
        self.parts = Parts(c)
        self.L = self.parts.L
        self.x = self.parts.x
        self.P = Prettied(c)
        self.writers = {}

    def serializer(self, m, arg):
        """table of a method of the serializer with the text as argument number `arg`, or None"""
        if m not in self.writers:
            try:
                b = self.c.crate.method('YamlSerializer', m, 'Serializer')
            except KeyError:
                self.writers[m] = None
                return None
            run = analyse(self.c, b)
            self.writers[m] = (Table(run), run.args[arg], b)
        return self.writers[m]

    def serialized(self, m, arg, w):
        t = self.serializer(m, arg)
        if t is None:
            raise Unknown(m + ' not found')
        o, e = t[0].one({t[1]: Ch(w) if m == 'serialize_char' else w})
        r = e.ev(o.ret)
        if isinstance(r, tuple) and r[0] == 'adt' and r[1] == RES:
            if r[2] != 0:
                return None
            r = r[3][0]
        if not (isinstance(r, tuple) and r[0] == 'adt'):
            raise Unknown('no tree')
        if r[1] == self.L.alias:
            r = r[3][self.L.fi(self.L.alias, 'value')]
        if r[1] != self.L.yaml:
            raise Unknown('no tree')
        return r

    def pretty_run(self):
        if not hasattr(self, '_pretty'):
            P = self.P
            y, inl, coa = mk('sym', 'y'), mk('sym', 'in_inline'), mk('sym', 'child_of_array')
            names = {n: b for b in self.c.crate.bodies.values() if b.kind == 'fn' and b.pub and not b.selfty for n in [b.name]}
            opq = [k for k in P.opaque if self.c.crate.bodies[k].name not in ('create_literal', 'parse_literal')]
            outs = []
            runs = {}
            L = self.L
            for v in (L.UnquotedString, L.SingleQuotedString, L.DoubleQuotedString, L.FoldedString, L.LiteralString):
                runs[v] = analyse(self.c, P.body, [y, inl, coa], opaque=opq, setup=lambda st: (st.set_is(y, v), st)[1])
            self._pretty = runs, {v: Table(r) for v, r in runs.items()}, y, inl, coa
        return self._pretty

    def prettied(self, node, w, inside, below_array=False):
        """(outcomes that are possible, evaluator) when prettifying a definite scalar standing for w"""
        runs, tables, y, inl, coa = self.pretty_run()
        v = node[2]
        env = {y: node, inl: inside, coa: below_array}
        I = runs[v].I
        for f in ('parse_single_quoted_string', 'parse_double_quoted_string'):
            b = self.x.pub(f)
            env[app(Interp(self.c.crate).fname(b), fld(y, v, 0))] = w
        sure, may, e = tables[v].at(env)
        return sure, may, e

    def node(self, v, *fs):
        return ('adt', self.L.yaml, v, list(fs))


def quiet(fn):
    """value of fn, or the reason it is not known"""
    try:
        return fn(), None
    except Unknown as e:
        return None, str(e)


class Tally:
    """one obligation per construct over many texts"""

    def __init__(self, c, rule, construct, where=''):
        self.c, self.rule, self.k, self.where = c, rule, construct, where
        self.n = 0
        self.bads = []
        self.unks = []

    def __call__(self, w, bad, unk=None):
        self.n += 1
        if bad:
            self.bads.append((w, bad))
        elif unk:
            self.unks.append((w, unk))

    def done(self):
        if self.bads:
            w, why = self.bads[0]
            self.c.bad(self.rule, self.k, 'the text %r %s (%d of %d texts)' % (w, why, len(self.bads), self.n), self.where)
        elif self.unks:
            w, why = self.unks[0]
            self.c.unknown(self.rule, self.k, 'the text %r: %s (%d of %d texts)' % (w, why, len(self.unks), self.n))
        else:
            self.c.ok(self.rule, self.k, '%d texts' % self.n)
        return self.n


def p16(c):
    c.rule('place', 'a text the writer leaves unquoted is read by the grammar as one plain scalar with that text, wherever the writer can put it')
    c.rule('untyped', 'a text the writer leaves unquoted is read untyped as that text, not as null, a boolean or a number')
    c.rule('same', 'an unquoted scalar holds the text it was made from')
    S, R, U = Styles(c), Reader(c), Untyped(c)
    L = S.L
    words = wordlist(c.tier)
    total = 0

    def unquoted(who, results, places, where, typed=True):
        """results: word -> (plain text, None) | (None, None) | (None, reason)"""
        n = 0
        tp, tu, ts = (Tally(c, r, who, where) for r in ('place', 'untyped', 'same'))
        for w, (v, unk) in results:
            if unk:
                n += 1
                for t in (tp, tu, ts):
                    t(w, None, unk)
                continue
            if v is None:
                for t in (tp, tu, ts):
                    t(w, None)
                continue
            n += 1
            ts(w, None if v == w else 'is written as %r' % v)
            if v != w:
                continue
            bad, why = None, None
            for name, p, flow in places:
                bad, why = quiet(lambda: R.reads(p, v))
                if bad or why:
                    bad = bad and 'is left unquoted, and as %s %s' % (name, bad)
                    break
            tp(w, bad, why)
            bad, why = quiet(lambda: U.text(v)) if typed else (None, None)
            tu(w, bad and 'is left unquoted, and untyped reading ' + bad, why)
        for t in (tp, ts) + ((tu,) if typed else ()):
            t.done()
        return n
    for m, arg, ws in (('serialize_str', 1, words), ('serialize_char', 1, [w for w in words if len(w) == 1]), ('serialize_unit_variant', 3, SPECIAL)):
        t = S.serializer(m, arg)
        if t is None:
            c.unknown('place', m, 'not found')
            continue

        if m == 'serialize_str':
            ws = list(dict.fromkeys(ws + long_texts([60] + thresholds([t[0].run]))))

        def one_(w):
            r, unk = quiet(lambda: S.serialized(m, arg, w))
            if unk:
                return None, unk
            if r is None or r[2] != L.UnquotedString:
                return None, None
            return str(r[3][0]), None
        total += unquoted('YamlSerializer::' + m, [(w, one_(w)) for w in ws], R.PLACES, t[2].span)
    c.floor('place', total, 200, 'texts left unquoted')
    runs, tables, *_ = S.pretty_run()
    words = list(dict.fromkeys(words + long_texts(thresholds(runs.values()))))
    for v, kinds in ((L.SingleQuotedString, (False,)), (L.DoubleQuotedString, (True, False)), (L.UnquotedString, (None,))):
        for inside in (False, True):
            res = []
            for w in words:
                for k in kinds:
                    if v == L.UnquotedString:
                        # only texts that can stand unquoted in a block at all
                        bad, why = quiet(lambda: next((x for x in (R.reads(p, w) for _, p, fl in R.PLACES if not fl) if x), None))
                        if bad or why:
                            continue
                        nodes = [S.node(v, w)]
                    elif v == L.DoubleQuotedString:
                        nodes = [S.node(v, S.parts.of(w, True, blank=not k))]
                    else:
                        nodes = [S.node(v, S.parts.of(w, False))]
                    for node in nodes:
                        res.append((w, styled(S, node, w, inside)))
            name = c.crate.variants(L.yaml)[v]['n']
            unquoted('%s prettified %s' % (name, 'inside an inline collection' if inside else 'in a block'), res,
                     [p for p in R.PLACES if p[2] == inside], S.P.body.span, v != L.UnquotedString)


def styled(S, node, w, inside):
    """(text of the unquoted scalar prettifying gives, None), (None, None) if it is no unquoted scalar, (None, reason) if not known"""
    sure, may, e = S.prettied(node, w, inside)
    got = set()
    for o in sure + may:
        g = o.ret
        r = None
        if g[0] == 'adt' and g[1] == S.L.yaml:
            if g[2] == S.L.UnquotedString:
                v, unk = quiet(lambda: e.ev(g[3][0]))
                if unk:
                    return None, unk
                r = str(v)
        elif g[0] == 'sym':
            r = str(node[3][0]) if node[2] == S.L.UnquotedString else None
        else:
            return None, 'result not known'
        got.add(r)
    if len(got) == 1 and (sure or got == {None}):
        return got.pop(), None
    if not got:
        return None, 'no outcome'
    return None, 'the style is not known'


def p17(c):
    c.rule('content', 'the parts of a quoted scalar, read in order, are the characters of the text it was made from')
    c.rule('plain', 'a plain run of a quoted scalar holds only characters that can stand there unescaped')
    S = Styles(c)
    L = S.L
    G = Gram(c, 'YamlParser')
    runs_ = {}
    for adt in (S.x.sq, S.x.dq):
        t = adt.split('::')[-1]
        rs = [r for r in G.methods if made(G, r) == 'String' and any(made(G, q) == t and r in G.g.child_names(q) for q in G.methods)]
        runs_[adt] = rs
    mix = around(["a", "'", '"', '\\', '\n', '\r', '\t', ' ', ':'], 3 if c.tier == 'quick' else 4)
    mix += [x + y for x in ("a'b\\c\"", '\n\n\\', "''", '\\\\') for y in around(["a", "'", '"', '\\', '\n', '\r'], 2)]
    mix += SPECIAL
    mix = list(dict.fromkeys(mix))
    ok = {}

    def plain(v, t):
        k = v, t
        if k not in ok:
            rs = runs_[S.x.dq if v == L.DoubleQuotedString else S.x.sq]
            if not rs:
                raise Unknown('no rule for a plain run')
            ok[k] = any(G.g.whole(r, t) is not None for r in rs)
        return ok[k]

    def look(tc, tp, w, r):
        t, runs = S.parts.text(r[2], r[3][0])
        tc(w, None if t == w else 'becomes a quoted scalar that stands for %r' % t)
        bad = None
        for x in runs:
            if x and not plain(r[2], x):
                bad = 'becomes a quoted scalar with the plain run %r, which the grammar does not read as one' % x
        tp(w, bad)
    total = 0
    quoted = (L.SingleQuotedString, L.DoubleQuotedString)
    for m, arg, ws in (('serialize_str', 1, mix), ('serialize_char', 1, [w for w in mix if len(w) == 1]), ('serialize_unit_variant', 3, SPECIAL)):
        t = S.serializer(m, arg)
        if t is None:
            c.unknown('content', m, 'not found')
            continue
        tc, tp = (Tally(c, r, 'YamlSerializer::' + m, t[2].span) for r in ('content', 'plain'))
        if m == 'serialize_str':
            ws = list(dict.fromkeys(ws + long_texts([60] + thresholds([t[0].run]))))
        for w in ws:
            try:
                r = S.serialized(m, arg, w)
                if r is None or r[2] not in quoted:
                    continue
                total += 1
                look(tc, tp, w, r)
            except Unknown as e:
                total += 1
                tc(w, None, str(e))
        tc.done()
        tp.done()
    c.floor('content', total, 100, 'quoted texts')
    S.pretty_run()
    n = 0
    for v in (L.UnquotedString,) + quoted:
        for inside in (False, True):
            name = '%s prettified %s' % (c.crate.variants(L.yaml)[v]['n'], 'inside an inline collection' if inside else 'in a block')
            tc, tp = (Tally(c, r, name, S.P.body.span) for r in ('content', 'plain'))
            for w in mix:
                if v == L.UnquotedString:
                    if not w or '\n' in w or '\r' in w or w.strip(WS) != w:
                        continue
                    nodes = [S.node(v, w)]
                elif v == L.DoubleQuotedString:
                    nodes = [S.node(v, S.parts.of(w, True, b)) for b in (False, True)]
                else:
                    nodes = [S.node(v, S.parts.of(w, False))]
                for node in nodes:
                    sure, may, e = S.prettied(node, w, inside)
                    if not sure:
                        n += 1
                        tc(w, None, 'not known which style is chosen')
                    for o in sure:
                        g = o.ret
                        if g[0] != 'adt' or g[2] not in quoted:
                            continue
                        try:
                            r = e.ev(g)
                            n += 1
                            look(tc, tp, w, r)
                        except Unknown as x:
                            tc(w, None, str(x))
            tc.done()
            tp.done()
    c.floor('plain', n, 100, 'quoted results of prettifying')


def p33(c):
    c.rule('value', 'the text a scalar stands for is the same before and after prettifying')
    c.rule('folded', 'a folded block is chosen only when reading it back was compared with the text and found equal')
    c.rule('block', 'block scalars keep their lines and their chomping')
    c.rule('kind', 'a quoted scalar does not become one that reads untyped as null, a boolean or a number')
    c.rule('plain', 'a quoted scalar that becomes an unquoted one is read by the grammar as that text wherever it can stand')
    S, U, R = Styles(c), Untyped(c), Reader(c)
    L, x = S.L, S.x
    runs, tables, y, inl, coa = S.pretty_run()
    pf = Interp(c.crate).fname(x.folded)
    n = 0
    for v, run in runs.items():
        name = c.crate.variants(L.yaml)[v]['n']
        for inside in (False, True):
            for o in run.outs:
                i = o.st.truth(inl)
                if i is not None and i is not inside:
                    continue
                g = o.ret
                where = '%s prettified %s' % (name, 'inside an inline collection' if inside else 'in a block')
                if v in (L.FoldedString, L.LiteralString):
                    n += 1
                    d = D(o.st, ())
                    try:
                        r = match(d, g, y)
                    except (Undecided, Infeasible, Fork):
                        r = None
                    c.check('block', where, r, 'becomes ' + show(g)[:200], S.P.body.span)
                    continue
                if g[0] == 'adt' and g[1] == L.yaml and g[2] == L.FoldedString:
                    n += 1
                    T_ = text_of(S, y, v)
                    want = app(pf, g[3][0], g[3][1])
                    eqs = [f for f in o.facts if f[0] == 'b' and f[2] is True and f[1][0] == 'app' and f[1][1] == 'eq' and set(f[1][2]) == {want, T_}]
                    r = True if eqs else False if facts_ok(o) and understood(g) else None
                    c.check('folded', where, r, 'becomes %s without comparing what it reads as' % show(g)[:200], S.P.body.span)
    words = around(['a', ' ', '\n', '\r'], 4) + around(['a', "'", '"', '\\', '\t', '\n', ':'], 2 if c.tier == 'quick' else 3)
    words += ['a\nb\n', 'a\n\nb', 'a\n\n\nb\n\n', '\n a', ' a\n  b\n', 'a \nb', 'é\nü\n', '#\n', 'a: b\nc: d\n', '- a\n- b', 'x' * 60 + '\n' + 'y' * 60, 'x' * 100 + '\n']
    words = list(dict.fromkeys(words + SPECIAL + long_texts(thresholds(runs.values()))))
    for v in (L.UnquotedString, L.SingleQuotedString, L.DoubleQuotedString):
        name = c.crate.variants(L.yaml)[v]['n']
        for inside in (False, True):
            where = '%s prettified %s' % (name, 'inside an inline collection' if inside else 'in a block')
            tv, tk, tr = (Tally(c, k, where, S.P.body.span) for k in ('value', 'kind', 'plain'))
            for w in words:
                if v == L.UnquotedString:
                    if not w or '\n' in w or '\r' in w or w.strip(WS) != w:
                        continue
                    nodes = [S.node(v, w)]
                elif v == L.DoubleQuotedString:
                    nodes = [S.node(v, S.parts.of(w, True, b)) for b in (False, True)]
                else:
                    nodes = [S.node(v, S.parts.of(w, False))]
                for node in nodes:
                    sure, may, e = S.prettied(node, w, inside)
                    rets = {o.ret for o in sure + may}
                    if not sure and not may:
                        tv(w, None, 'no outcome')
                        continue
                    for g in rets:
                        n += 1
                        if g is y:
                            tv(w, None)
                            continue
                        if g[0] == 'adt' and g[1] == L.yaml and g[2] == L.FoldedString:
                            continue        # decided by the rule `folded`
                        if g[0] != 'adt' or g[1] != L.yaml:
                            tv(w, None, 'result not known')
                            continue
                        r, unk = quiet(lambda: S.parts.value(e.ev(g)))
                        if unk or r is None or any(o.ret is g for o in may):
                            tv(w, None, unk or 'not known to be chosen')
                            continue
                        tv(w, None if r == w else 'becomes %s standing for %r' % (c.crate.variants(L.yaml)[g[2]]['n'], r))
                        if v != L.UnquotedString and g[2] == L.UnquotedString:
                            bad, why = quiet(lambda: U.text(r))
                            tk(w, bad and 'becomes an unquoted scalar, and untyped reading ' + bad, why)
                            if r == w:
                                for place, p, flow in R.PLACES:
                                    if flow != inside:
                                        continue
                                    bad, why = quiet(lambda: R.reads(p, r))
                                    tr(w, bad and 'becomes an unquoted scalar, and as %s %s' % (place, bad), why)
                                    if bad or why:
                                        break
            tv.done()
            tk.done()
            tr.done()
    c.floor('value', n, 1000, 'scalars')


def text_of(S, y, v):
    L = S.L
    if v == L.UnquotedString:
        return fld(y, v, 0)
    b = S.x.pub('parse_single_quoted_string' if v == L.SingleQuotedString else 'parse_double_quoted_string')
    return app(Interp(S.c.crate).fname(b), fld(y, v, 0))
