"""P10-P13, P27: the code that consumes what the grammars match, and the grammars themselves."""
from .common import *
from .strings import Texts
from . import readings
from ..interp import Limit
from .. import witness
from ..grammar import Grammar, find_grammars, BLANKS, BadGrammar

LONGEST = 6
MOST = 400
N = mk('sym', 'n')


class Gram:
    """one grammar with the methods that consume its matches"""

    more = None

    def __init__(self, c, parser):
        self.c = c
        cr = self.cr = c.crate
        self.parser = parser
        files = find_grammars()
        if parser not in files:
            raise Lost('no grammar of %s' % parser)
        try:
            self.g = Grammar(files[parser])
        except (BadGrammar, OSError, KeyError, IndexError) as e:
            raise Lost('grammar of %s not readable: %s' % (parser, e))
        self.file = files[parser]
        self.methods = {}
        self.adt = None
        for b in cr.bodies.values():
            if b.kind != 'fn' or b.selfty is None or b.parent:
                continue
            if head(cr.ty(b.selfty)).split('::')[-1] != parser:
                continue
            if b.trait:
                if b.name == 'rule_alias':
                    self.ra = b
                continue
            if b.argc == 1 and (b.name in self.g.rules or b.name == 'EOI'):
                self.methods[b.name] = b
        if not hasattr(self, 'ra') or not self.methods:
            raise Lost('methods of %s not found' % parser)
        self.rule_adt = head(cr.ty(self.ra.locals[1]))
        self.al_adt = head(cr.ty(self.ra.locals[0]))
        self.ridx = {v['n']: i for i, v in enumerate(cr.variants(self.rule_adt))}
        self.alias = {}
        self.keys = {b.key for b in self.methods.values()}
        allow(['arule', 'rule', 'text', 'is_whitespace', 'first', 'exists', 'get', 'lines'] + [self.fn(r) for r in self.methods])

    def fn(self, name):
        return Interp(self.cr).fname(self.methods[name])

    def alias_of(self, rule):
        """variant of the aliased rule the consuming code sees for a node of this rule; None: the lookup panics"""
        if rule not in self.alias:
            a = 'lost'
            if rule in self.ridx:
                r = analyse(self.c, self.ra, [mk('adt', self.rule_adt, self.ridx[rule], ())])
                if len(r.outs) == 1 and r.outs[0].ret[0] == 'adt':
                    a = r.outs[0].ret[2]
                elif not r.outs:
                    a = None
            self.alias[rule] = a
        return self.alias[rule]

    def words(self, rule):
        """child sequences a match of the rule can have, shortest first: all of up to LONGEST nodes"""
        s, tr, acc = self.g.children(rule).dfa()
        al = self.g.children(rule).alphabet
        out, level = [], [((), s)]
        for n in range(LONGEST + 1):
            out += [w for w, q in level if q in acc]
            if len(out) > MOST:
                break
            level = [(w + (x,), tr[q, x]) for w, q in level for x in al if (q, x) in tr]
        return out[:MOST]

    def run(self, rule, word, text=None, opaque=(), log=None):
        b = self.methods[rule]
        nodes = [mk('sym', 'c%d' % i) for i in range(len(word))]
        al = [self.alias_of(x) for x in word]
        own = self.alias_of(rule)

        def setup(st):
            for x, r, a in zip(nodes, word, al):
                if isinstance(a, int):
                    st.set_is(app('arule', x), a)
                if r in self.ridx:
                    st.set_is(app('rule', x), self.ridx[r])
            if rule in self.ridx:
                st.set_is(app('rule', N), self.ridx[rule])
            if isinstance(own, int):
                st.set_is(app('arule', N), own)
            if self.more is not None:
                self.more(st, nodes)
            return st
        return nodes, analyse(self.c, b, [N], opaque=self.keys - {b.key} | set(opaque), setup=setup, kids={N: nodes},
                              texts=None if text is None else {N: STR(text)}, log=log)

    def value(self, rule, node):
        """what the method of a child's rule made of the child"""
        return fld(app(self.fn(rule), node), 0, 0)


def calls_of(G, t, nodes):
    """(rule, node) of every consuming call mentioned in a term"""
    byname = {G.fn(r): r for r in G.methods}
    out = set()

    def f(x):
        if x[0] == 'app' and x[1] in byname and len(x[2]) == 1 and x[2][0] in nodes:
            out.add((byname[x[1]], x[2][0]))
        return False
    any_sub(t, f)
    return out


def parse_error_of(G, t, nodes):
    """is an error the one of a failed child"""
    return t[0] == 'fld' and t[2] == 1 and bool(calls_of(G, t[1], nodes))


def about_text(f):
    """does a condition look at the text of a node or at what a child was turned into"""
    return any_sub(f, lambda x: x[0] == 'app' and x[1] in ('text',) or x[0] == 'fld' and x[1][0] == 'app' and x[2] == 0)


def p10(c):
    c.rule('children', 'every sequence of child nodes a grammar rule can have is accepted by the method that consumes it')
    c.rule('method', 'every child a consuming method sees has a method of its own, and is passed to that one')
    c.rule('start', 'the parser is started at the rule whose method consumes the result')
    total = 0
    for parser in ('YamlParser', 'PathParser'):
        try:
            G = Gram(c, parser)
        except Lost as e:
            c.unknown('children', parser, str(e))
            continue
        n = 0
        for rule in sorted(G.g.rules):
            if G.g.rules[rule][0] == '_' or rule not in G.methods:
                continue
            n += one_rule(c, G, rule)
        total += n
        c.floor('children', n, {'YamlParser': 90, 'PathParser': 15}[parser], 'child sequences of ' + parser)
        start(c, G)
    return total


def one_rule(c, G, rule):
    try:
        words = G.words(rule)
    except BadGrammar as e:
        c.unknown('children', '%s::%s' % (G.parser, rule), str(e))
        return 0
    bad = unk = None
    nocall = None
    for w in words:
        nodes, run = G.run(rule, w)
        if nodes and not any(any_sub(o.ret, lambda x: x[0] == 'sym' and x in nodes) or any(any_sub(f, lambda x: x[0] == 'sym' and x in nodes) for f in o.facts)
                             for o in run.outs) and not run.outs == []:
            continue       # the method does not look at its children
        for x in w:
            if G.alias_of(x) is None and nocall is None:
                nocall = x
        shape = '[%s]' % ', '.join(w)
        for o in run.outs:
            facts = [f for f in o.facts]
            for r, node in set().union(*[calls_of(G, t, nodes) for t in list(facts) + [o.ret]]):
                got = w[nodes.index(node)]
                if G.alias_of(got) is not None and G.alias_of(got) != G.alias_of(r):
                    bad = bad or 'passes a %s node to the method of %s (children %s)' % (got, r, shape)
            if any(about_text(f) for f in facts):
                continue
            if o.ret[0] == 'adt' and o.ret[1] == RES and o.ret[2] == 1 and not parse_error_of(G, o.ret[3][0], nodes):
                if facts_ok(o):
                    bad = bad or 'rejects a match with children %s' % shape
                else:
                    unk = unk or 'rejects children %s under %s' % (shape, showfacts(facts)[:200])
        for p in run.I.panics:
            fs = p['st'].facts_since(None)
            if any(about_text(f) for f in fs):
                continue
            if all(understood(f) for f in fs):
                bad = bad or 'panics on a match with children %s: %s' % (shape, p['what'] if isinstance(p['what'], str) else show(p['what'])[:120])
            else:
                unk = unk or 'may panic on children ' + shape
        if not run.outs and not run.I.panics:
            unk = unk or 'no outcome for children ' + shape
    k = '%s::%s' % (G.parser, rule)
    where = G.methods[rule].span
    if bad:
        c.bad('children', k, bad, where)
    elif unk:
        c.unknown('children', k, unk)
    else:
        c.ok('children', k, '%d child sequences of up to %d nodes' % (len(words), LONGEST))
    if nocall:
        c.bad('method', k, 'a child of rule %s has no method to consume it: the parser panics' % nocall, where)
    else:
        c.ok('method', k)
    return len(words)


def consuming(cr):
    """every inherent method of a type that is a pest parser"""
    ps = {cr.ty(b.selfty) for b in cr.bodies.values() if b.kind == 'fn' and b.name == 'rule_alias' and b.selfty is not None}
    return {b.key for b in cr.bodies.values() if b.kind == 'fn' and not b.trait and b.selfty is not None and cr.ty(b.selfty) in ps}


def start(c, G):
    """calls of Parser::parse for this parser: the rule given, and the method the node goes to"""
    cr = G.cr
    found = 0
    for b in cr.bodies.values():
        if b.kind != 'fn' or b.key in G.keys or b.trait and b.name != 'from_str':
            continue
        if not any(bl['t'][0] == 'call' and isinstance(bl['t'][1], dict) and (bl['t'][1].get('m') in ('parse', 'parse_with_userdata'))
                   and 'pest_consume' in str(bl['t'][1].get('p')) for bl in b.blocks if not bl['cl']):
            continue
        r = analyse(c, b, opaque=consuming(cr))
        k = b.path
        res = None
        for o in r.outs:
            for t in [o.ret] + list(o.facts):
                def f(x):
                    nonlocal res
                    if x[0] == 'app' and len(x[2]) == 1:
                        for rn in G.methods:
                            if x[1] == G.fn(rn):
                                def g(y):
                                    nonlocal res
                                    if y[0] == 'app' and y[1] == 'pest:' + G.parser:
                                        a = y[2][0]
                                        if a[0] == 'adt' and a[1] == G.rule_adt:
                                            same = G.alias_of(cr.variants(G.rule_adt)[a[2]]['n']) == G.alias_of(rn)
                                            res = (same if res is None else res and same)
                                    return False
                                any_sub(x[2][0], g)
                    return False
                any_sub(t, f)
        if res is None:
            if any(any_sub(o.ret, lambda x: x[0] == 'app' and x[1] == 'pest:' + G.parser) for o in r.outs):
                c.unknown('start', k, 'the start rule could not be followed to its method')
                found += 1
            continue
        found += 1
        c.check('start', k, res, 'parses with one rule and consumes the result with the method of another', b.span)
    if not found:
        c.unknown('start', G.parser, 'no call that starts the parser found')


# ---------------------------------------------------------------- P11
STRING = ('std::string::String',)


def shape(t):
    """a short name of a type"""
    if t == ('tuple',) or t[0] in ('tuple', 'tup') and len(t) == 1:
        return '()'
    if t[0] in ('tuple', 'tup'):
        return '(%s)' % ','.join(shape(x) for x in t[1:])
    if t[0] == 'num':
        return t[1]
    if t[0] == 'adt':
        n = t[1].split('::')[-1]
        a = [shape(x) for x in t[2:] if isinstance(x, tuple)]
        if n == 'Vec':
            a = a[:1]
        return n + ('<%s>' % ','.join(a) if a else '')
    return str(t[0])


def made(G, rule):
    t = G.cr.ty(G.methods[rule].locals[0])
    if t[0] != 'adt' or not t[1].endswith('Result'):
        raise Undecided('method of %s does not return a Result' % rule)
    return shape(t[2])


class Spec11:
    opaque = ()

    def __init__(self, c, G):
        self.G = G
        self.L = Lib(c)
        self.T = Texts(c)

    def entries(self, rule, word, nodes, list_adt):
        """the entries of a block mapping or sequence, from the children that carry them"""
        L, G = self.L, self.G
        elem_v = L.hdE if list_adt is L.hd else L.adE
        vs = {v['n']: i for i, v in enumerate(G.cr.variants(list_adt))}
        out = []
        for w, x in zip(word, nodes):
            k, v = made(G, w), G.value(w, x)
            if k == '()':
                continue
            if k in ('Vec<HashData>', 'Vec<ArrayData>'):
                out.append(all_(v))
            elif k in ('HashData', 'ArrayData'):
                out.append(one(v))
            elif k == 'HashElement' and list_adt is L.hd or k == 'AliasedYaml' and list_adt is L.ad:
                out.append(one(mk('adt', list_adt, elem_v, (v,))))
            elif k == 'String':
                out.append(one(mk('adt', list_adt, vs['InlineComment'], (v,))))
            elif k == 'Vec<String>':
                out.append(Each(length(v), lambda d, i, v=v: [one(mk('adt', list_adt, vs['Comment'], (elem(v, i),)))]))
            else:
                raise Undecided('a %s among the entries of %s' % (k, rule))
        return Seq(*out)

    def want(self, rule, word, nodes):
        L, G, T_ = self.L, self.G, self.T
        cr = G.cr
        me = made(G, rule)
        ks = [made(G, w) for w in word]
        vs = [G.value(w, x) for w, x in zip(word, nodes)]
        full = [(w, k, v) for w, k, v in zip(word, ks, vs) if k != '()']
        one_ = full[0] if len(full) == 1 else None
        Y = lambda n, *a: mk('adt', L.yaml, getattr(L, n), a)
        if me == '()':
            return UNIT
        if me == 'Yaml':
            if rule == 'inline_array':
                if all(k == 'Yaml' for _, k, _ in full):
                    return Build(Y, 'InlineArray', Seq(*[one(v) for _, _, v in full]))
            elif rule == 'inline_hash':
                if all(k == '(String,Yaml)' for _, k, _ in full):
                    return Build(Y, 'InlineHash', Seq(*[one(v) for _, _, v in full]))
            elif one_ and one_[1] == 'Yaml':
                return one_[2]
            elif one_ and one_[1] == 'String' and rule == 'anchor':
                return Y('Anchor', one_[2])
            elif one_ and one_[1] == 'Vec<DoubleQuotedStringPart>':
                return Y('DoubleQuotedString', one_[2])
            elif one_ and one_[1] == 'Vec<SingleQuotedStringPart>':
                return Y('SingleQuotedString', one_[2])
            elif 'Vec<String>' in ks and 'Option<usize>' in ks:
                kind = block_kind(G, rule)
                ch = [v for _, k, v in full if k == 'BlockChomping']
                if kind and len(ch) < 2 and len(full) == 2 + len(ch):
                    return Block(self, kind, dict((k, v) for _, k, v in full), ch[0] if ch else mk('adt', T_.chomp, T_.Clip, ()))
            elif any(k in ('HashElement', 'Vec<HashData>', 'HashData') for k in ks):
                return Build(Y, 'Hash', self.entries(rule, word, nodes, L.hd))
            elif any(k in ('Vec<ArrayData>', 'ArrayData') for k in ks):
                return Build(Y, 'Array', self.entries(rule, word, nodes, L.ad))
            raise Undecided('no rule for %s from %s' % (rule, ks))
        if me in ('Vec<HashData>', 'Vec<ArrayData>'):
            return self.entries(rule, word, nodes, L.hd if 'Hash' in me else L.ad)
        if me == 'ArrayData' and one_ and one_[1] == 'AliasedYaml':
            return mk('adt', L.ad, L.adE, (one_[2],))
        if me == 'HashElement' and [k for _, k, _ in full] == ['String', 'AliasedYaml']:
            return L.make(L.he, key=full[0][2], value=full[1][2])
        if me == 'AliasedYaml':
            if one_ and one_[1] == 'AliasedYaml':
                return one_[2]
            if one_ and one_[1] == 'Yaml':
                return L.make(L.alias, alias=NONE, value=one_[2])
            if [k for _, k, _ in full] == ['String', 'Yaml']:
                return L.make(L.alias, alias=some(full[0][2]), value=full[1][2])
        if me == '(String,Yaml)' and [k for _, k, _ in full] == ['String', 'Yaml']:
            return tup(full[0][2], full[1][2])
        if me == 'String' and one_ and one_[1] == 'String':
            return one_[2]
        if me == 'Vec<String>' and all(k in ('String', 'Vec<String>') for _, k, _ in full):
            return Seq(*[one(v) if k == 'String' else all_(v) for _, k, v in full])
        if me in ('DoubleQuotedStringPart', 'SingleQuotedStringPart') and len(word) == 1:
            adt, esc = (T_.dq, T_.desc) if me[0] == 'D' else (T_.sq, T_.sesc)
            P = {v['n']: i for i, v in enumerate(cr.variants(adt))}
            if ks[0] == 'String':
                return mk('adt', adt, P['String'], (vs[0],))
            if ks[0] == esc.split('::')[-1]:
                return mk('adt', adt, P['EscapedChar'], (vs[0],))
            if ks[0] == 'usize' and word[0] == 'blank_lines':
                return mk('adt', adt, P['BlankLines'], (vs[0],))
            if ks[0] == '()' and word[0] == 'removable_newline':
                return mk('adt', adt, P['RemovableNewline'], ())
        if me in ('Vec<DoubleQuotedStringPart>', 'Vec<SingleQuotedStringPart>') and all(k == me[4:-1] for k in ks):
            return Seq(*[one(v) for v in vs])
        if me == 'Document':
            lead = [(w, k, v) for w, k, v in full if w == 'leading_comments']
            rest = [(w, k, v) for w, k, v in full if w != 'leading_comments']
            D = {v['n']: i for i, v in enumerate(cr.variants(L.dd))}
            out = []
            for w, k, v in rest:
                if k == 'Yaml':
                    out.append(one(mk('adt', L.dd, D['Yaml'], (v,))))
                elif k == 'String':
                    out.append(one(mk('adt', L.dd, D['Comment'], (v,))))
                elif k == 'Vec<String>':
                    out.append(Each(length(v), lambda d, i, v=v: [one(mk('adt', L.dd, D['Comment'], (elem(v, i),)))]))
                else:
                    raise Undecided('a %s in a document' % k)
            if len(lead) == 1 and word[0] == 'leading_comments':
                return Build(lambda n, a, b: L.make(L.doc, leading_comments=a, items=b), None, all_of(lead[0][2]), Seq(*out))
        raise Undecided('no rule for %s (%s) from %s' % (rule, me, ', '.join(ks) or 'its text'))


def all_of(v):
    return v


class Build:
    """a node with some fields given as sequences to compare"""

    def __init__(self, mkr, name, *fields):
        self.mkr, self.name, self.fields = mkr, name, fields


def block_kind(G, rule):
    """the style of block scalar a rule's own marker stands for"""
    m = {t for k, t in G.g.terminals(rule) if k == 'lit' and t.strip()}
    return 'FoldedString' if m == {'>'} else 'LiteralString' if m == {'|'} else None


class Block:
    """a block scalar: its lines as matched, each without the indentation of the block and nothing else cut off"""

    def __init__(self, S, kind, parts, chomp):
        self.v = getattr(S.L, kind)
        self.kind = kind
        self.lines, self.indent, self.chomp = parts['Vec<String>'], parts['Option<usize>'], chomp

    def definite(self, d, got):
        v = d.ev(got)
        if v[2] != self.v:
            d.why = 'the marker of a %s makes another node' % self.kind
            return False
        lines, want = v[3][0], d.ev(self.lines)
        if v[3][1] != d.ev(self.chomp):
            d.why = 'chomping is %s' % witness.plain(v[3][1])
            return False
        if len(lines) != len(want):
            d.why = '%d lines become %d' % (len(want), len(lines))
            return False
        ind = d.ev(self.indent)
        lead = lambda t: len(t) - len(t.lstrip(' '))
        for x, w in zip(lines, want):
            base = ind[3][0] if ind[2] == 1 else lead(want[0])
            if x not in (w[min(base, lead(w)):], w.encode()[base:].decode(errors='replace') if len(w.encode()) >= base else w):
                d.why = 'the line %r becomes %r where the indentation is %d' % (w, x, base)
                return False
        return True

    def match(self, d, got):
        if d.definite:
            return self.definite(d, got)
        if got[0] != 'adt':
            return False if understood(got) else None
        if got[2] != self.v:
            d.why = 'the marker of a %s makes another node' % self.kind
            return False
        m = match(d, got[3][1], self.chomp)
        if m is not True:
            d.why = 'chomping is %s' % show(got[3][1])[:80]
            return m
        lines = got[3][0]
        cs = self.lines
        if lines is cs:
            d.why = 'the lines keep the indentation of the block'
            return False
        if lines[0] != 'seq' or len(lines[1]) != 1 or lines[1][0][0] != 'each' or lines[1][0][1] is not length(cs):
            return None
        s = lines[1][0]
        kv = s[2]
        x = elem(cs, kv)
        ind = d.st.variant(self.indent)
        if ind is None:
            return None
        base = fld(self.indent, 1, 0) if ind == 1 else None
        r = True
        for fs, segs in s[3]:
            if len(segs) != 1 or segs[0][0] != 'one':
                if not segs and all(understood(f) for f in fs):
                    d.why = 'a line is dropped'
                    return False
                r = None
                continue
            v = segs[0][1]
            if v is x:
                if any(f[0] == 'is' and f[2] == 0 and is_get(f[1], x) is not None for f in fs):
                    continue
                r = None
                continue
            m = None
            if v[0] == 'fld' and v[2] == 1:
                m = is_get(v[1], x)
            if m is None:
                r = None
                continue
            if blanks_before(m, x, fs):
                continue
            bs = [blanks_before(m, x, fs)]
            bs += [blanks_before(add(f[1], m), x, fs) for f in fs if f[0] == 'ge' and f[2] >= 0]
            bs += [blanks_before(sub(m, f[1]), x, fs) for f in fs if f[0] == 'le' and f[2] <= 0]
            bounded = True in bs
            if not bounded and None in bs:
                d.why = 'cuts off blanks that are no indentation (only spaces are)'
                return False
            if not bounded:
                d.why = 'cuts %s bytes off a line without regard to its own indentation' % show(m)[:80]
                if understood(m) and not any(regards(t, x) for t in [m] + list(fs)):
                    return False
                r = None
                continue
            if base is not None and m is base or base is None and blanks_before(m, elem(cs, INT(0))):
                continue
            if base is not None and understood(m) or m[0] == 'int':
                d.why = 'cuts %s where the indentation of the block is %s' % (show(m)[:80], show(base)[:60] if base else 'that of its first line')
                return False
            r = None
        return r


def is_get(t, x):
    """m in x.get(m..)"""
    if t[0] == 'app' and t[1] == 'get' and t[2][0] is x and t[2][1][0] == 'adt' and t[2][1][1].endswith('RangeFrom'):
        return t[2][1][3][0]
    return None


def regards(t, x):
    """does the term (a fact) look into the text x, beyond its length and the pieces cut off it"""
    return any(y[0] == 'app' and y[1] not in ('len', 'get') and y[2] and y[2][0] is x for y in subterms(t))


def blanks_before(t, x, fs=()):
    """is t the bytes of the leading spaces of x (a sum over characters found to be spaces); None: of other blanks, too"""
    def stops(p):
        # exists(k: the k-th character of x is no space)
        if p[0] != 'pred' or p[1] is not length(app('chars', x)) or len(p[3]) != 1:
            return False
        ch = elem(app('chars', x), p[2])
        cl = tuple(p[3][0])
        if cl == (('not', ch, mk('chr', 32)),):
            return True
        if cl == (('b', app('is_whitespace', ch), False),):
            return None
        return False
    if t[0] == 'first':
        return stops(t[1])
    if t is length(app('chars', x)):
        rs = [stops(f[1]) for f in fs if f[0] == 'b' and f[2] is False and f[1][0] == 'pred']
        return True if True in rs else None if None in rs else False
    if t[0] != 'app' or t[1] != 'sum' or t[2][0][0] != 'seq' or len(t[2][0][1]) != 1:
        return False
    s = t[2][0][1][0]
    if s[0] != 'each':
        return False
    ch = elem(app('chars', x), s[2])
    ok_ = False
    for fs, segs in s[3]:
        if not segs:
            continue
        if len(segs) != 1 or segs[0][0] != 'one' or segs[0][1] is not length(app('chstr', ch)) and segs[0][1] is not INT(1):
            return False
        if any(f[0] == 'is' and f[1] is ch and f[2] == mk('chr', 32) for f in fs):
            ok_ = ok_ or True
        elif any(f[0] == 'b' and f[1] is app('is_whitespace', ch) and f[2] is True for f in fs):
            return None
        else:
            return False
    return ok_


def match_built(d, got, want):
    if isinstance(want, Block):
        return want.match(d, got)
    if not isinstance(want, Build):
        return match_any(d, got, want)
    holes = [mk('sym', 'hole%d' % i) for i in range(len(want.fields))]
    frame = want.mkr(want.name, *holes)
    if d.definite:
        for h, f in zip(holes, want.fields):
            d.e.sym[h] = d.value(f)
        a, b = d.ev(got), d.ev(frame)
        d.why = '%s where %s is required' % (witness.plain(a)[:200], witness.plain(b)[:200])
        return a == b
    if got[0] != 'adt':
        return False if understood(got) else None
    if got[1] != frame[1] or got[2] != frame[2]:
        d.why = 'builds %s where %s is required' % (show(got)[:60], show(frame)[:60])
        return False
    return conj(match_any(d, g, want.fields[holes.index(f)] if f in holes else f) for g, f in zip(got[3], frame[3]))


def match_any(d, got, want):
    return match(d, got, want)


def p11(c):
    c.rule('node', 'what the method of a grammar rule builds holds the value of every child exactly once, in order, in the node of its kind')
    c.rule('text', 'the method of a text rule hands on the matched text itself, at most without trailing blanks')
    c.rule('punctuation', 'text a grammar rule matches outside such text rules is fixed punctuation, line breaks, blanks or repeated indentation')
    c.rule('whole', 'the start rule ends at the end of the text')
    c.rule('kept', 'blanks inside a comment or a quoted string are part of the text the tree keeps')
    try:
        G = Gram(c, 'YamlParser')
    except Lost as e:
        c.unknown('node', 'YamlParser', str(e))
        return
    S = Spec11(c, G)
    n = 0
    reached = reach(G, 'yaml')
    c.floor('node', len(reached & set(G.methods)), 45, 'rules with a method, reached from the start rule')
    for rule in sorted(reached):
        if rule not in G.methods or rule == 'EOI':
            continue
        n += built(c, G, S, rule)
    c.floor('node', n, 90, 'child sequences')
    for rule in sorted(reached):
        if rule in G.g.rules:
            punctuation(c, G, rule)
    whole(c, G, 'yaml')
    c.floor('kept', readings.kept(c, G), 4, 'rules of comments and quoted strings')


def reach(G, start_rule):
    seen, todo = set(), [start_rule]
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        if r in G.g.rules:
            todo += sorted(G.g.child_names(r))
    return seen


def uses_text(G, rule):
    if rule not in G.methods:
        return False
    _, run = G.run(rule, ()) if () in G.words(rule) else G.run(rule, G.words(rule)[0])
    tx = app('text', N)
    return any(any_sub(o.ret, lambda x: x is tx) for o in run.outs) or any(any_sub(f, lambda x: x is tx) for o in run.outs for f in o.facts)


def built(c, G, S, rule, rid='node'):
    k = '%s::%s' % (G.parser, rule)
    b = G.methods[rule]
    try:
        words = G.words(rule)
    except BadGrammar as e:
        c.unknown(rid, k, str(e))
        return 0
    if all(w == () for w in words) and G.g.rules[rule][0] != '_' and not G.g.child_names(rule):
        leaf(c, G, S, rule)
        return 1
    bad = unk = None
    n = 0
    for w in words:
        try:
            nodes, run = G.run(rule, w, opaque=S.opaque)
        except Limit as e:
            unk = unk or str(e)
            continue
        try:
            want = S.want(rule, w, nodes)
        except (Undecided, KeyError) as e:
            unk = unk or str(e)
            continue
        if want is None:
            continue
        some_ok = again = False
        for o in run.outs:
            v = result_of(o, nodes, G)
            if v is None:
                continue
            some_ok = True
            try:
                for d, r in cases_of(o.st, lambda x: match_built(x, v, want)):
                    n += 1
                    if r is False and (d.soft or not facts_ok(o)):
                        r = None
                    if r is None and not again:
                        again = True
                        hit = readings.refute_node(c, G, rule, w, run, lambda q: result_of(q, nodes, G), want, nodes, match_built)
                        if hit is not None:
                            bad = bad or 'children [%s]: builds %s%s | for the text %r' % (', '.join(w), show(v)[:300], ' | ' + hit[1] if hit[1] else '', hit[0][:200])
                    if r is False:
                        bad = bad or 'children [%s]: builds %s%s' % (', '.join(w), show(v)[:300], ' | ' + d.why if getattr(d, 'why', '') else '')
                    elif r is None:
                        unk = unk or 'children [%s]: %s' % (', '.join(w), show(v)[:300])
            except Undecided as e:
                unk = unk or str(e)
            except Differs as e:
                bad = bad or str(e)
        if not some_ok:
            unk = unk or 'no successful outcome for [%s]' % ', '.join(w)
    if bad:
        c.bad(rid, k, bad, b.span)
    elif unk:
        c.unknown(rid, k, unk)
    else:
        c.ok(rid, k, '%d child sequences' % n)
    return n


def result_of(o, nodes, G):
    """the value of a successful outcome, or None"""
    t = o.ret
    if t[0] == 'adt':
        return t[3][0] if t[2] == 0 else None
    v = o.st.variant(t)
    if v == 1:
        return None
    return fld(t, 0, 0)


EXACT = ('comment_text', 'alias_name', 'double_quote_text', 'single_quote_text', 'block_string', 'pure_key', 'field', 'value')
TRIMMED = ('hash_key', 'unquoted_string', 'unquoted_inline_string')


def leaf(c, G, S, rule):
    """rules without children: their value comes from the matched text or is one fixed value"""
    k = '%s::%s' % (G.parser, rule)
    nodes, run = G.run(rule, ())
    me = made(G, rule)
    tx = app('text', N)
    vals = [(o, result_of(o, nodes, G)) for o in run.outs]
    vals = [(o, v) for o, v in vals if v is not None]
    if me == '()':
        if all(v is UNIT for _, v in vals):
            c.ok('text', k, 'no content')
        return
    if me == 'String' or me == 'Yaml':
        if not vals:
            c.unknown('text', k, 'no successful outcome')
            return
        res = True
        why = ''
        for o, v in vals:
            if me == 'Yaml':
                if v[0] != 'adt' or v[2] != S.L.UnquotedString:
                    r = False if v[0] == 'adt' and facts_ok(o) else None
                    why = 'builds ' + show(v)[:100]
                    res = r if res is not False else res
                    continue
                v = v[3][0]
            v = lit_of(D(o.st, ()), v)
            if rule in TRIMMED or me == 'Yaml':
                r = trimmed(v, tx)
            else:
                r = v is tx
                if not r and not (understood(v) and facts_ok(o)):
                    r = None
                if not r and trimmed(v, tx) is None:
                    r = None
            if r is not True:
                why = 'gives %s for the matched text' % show(v)[:200]
                res = False if r is False or res is False else None
        if res is None:
            def right(t, v):
                if me == 'Yaml':
                    if v[2] != S.L.UnquotedString:
                        return False
                    v = v[3][0]
                return v in ((t.rstrip(' '), t.rstrip()) if rule in TRIMMED or me == 'Yaml' else (t,))
            hit = readings.refute_leaf(c, G, rule, run, right)
            if hit is not None:
                res, why = False, 'gives %s for the matched text %r' % (witness.plain(hit[1]), hit[0])
        c.check('text', k, res, why, G.methods[rule].span)
        return
    if me == 'usize' and breaks_only(G, rule):
        # line breaks after the first
        res = True
        why = ''
        for o, v in vals:
            if v is not sub(length(app('lines', tx)), INT(1)) and not (v is sub(length(tx), INT(1)) and line_unit(G, rule) == 1):
                res, why = None, 'gives %s for the matched line breaks' % show(v)[:200]
        if res is None:
            hit = readings.refute_leaf(c, G, rule, run, lambda t, v: v == readings.line_breaks(t) - 1 or readings.lone(t))
            if hit is not None:
                res, why = False, 'gives %s for %d line breaks (%r)' % (witness.plain(hit[1]), readings.line_breaks(hit[0]), hit[0][:60])
        c.check('text', k, res, why, G.methods[rule].span)
        return
    if me == 'Vec<String>':
        # as many empty lines as line breaks
        res = True
        why = ''
        for o, v in vals:
            r = blank_lines_of(G, rule, o, v, tx)
            if r is not True:
                res = False if r is False else (None if res else res)
                why = 'gives %s' % show(v)[:200]
        if res is None:
            hit = readings.refute_leaf(c, G, rule, run, lambda t, v: v == [''] * readings.line_breaks(t) or readings.lone(t))
            if hit is not None:
                res, why = False, 'gives %d lines for %d line breaks (%r)' % (len(hit[1]), readings.line_breaks(hit[0]), hit[0][:60])
        c.check('text', k, res, why, G.methods[rule].span)
        return
    # escapes, counts, markers: see P12 and P13


def breaks_only(G, rule):
    return all(k == 'lit' and t and not t.strip('\r\n') or k == 'class' and t == 'NEWLINE' for k, t in G.g.terminals(rule))


def trimmed(v, tx):
    if v is tx:
        return False        # trailing blanks stay
    if v[0] == 'app' and v[1] in ('trim_end', 'trim_right') and v[2][0] is tx:
        return True
    if v[0] == 'app' and v[1] in ('trim_end_matches', 'trim_right_matches') and v[2][0] is tx:
        p = v[2][1]
        if p in (STR(' '), mk('chr', 32)):
            return True
        if p[0] in ('str', 'chr'):
            return False
        return None
    if v[0] in ('str', 'txt'):
        return False if understood(v) else None
    if v[0] == 'app' and v[1] in ('trim_start', 'to_lowercase', 'to_uppercase', 'trim_start_matches', 'replace', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_matches'):
        return False
    return None


def blank_lines_of(G, rule, o, v, tx):
    """is v one empty line for each line break of the text"""
    if v[0] != 'seq':
        return None
    if len(v[1]) == 0:
        return False if facts_ok(o) and not any(any_sub(f, lambda x: x is tx) for f in o.facts) else None
    if len(v[1]) != 1 or v[1][0][0] != 'each':
        return False if all(s[0] == 'one' for s in v[1]) and facts_ok(o) and not any(any_sub(f, lambda x: x is tx) for f in o.facts) else None
    s = v[1][0]
    per = []
    for fs, segs in s[3]:
        if len(segs) > 1 or segs and (segs[0][0] != 'one' or segs[0][1] != STR('')):
            return False if all(x[0] == 'one' for x in segs) else None
        per.append((fs, len(segs)))
    unit = line_unit(G, rule)
    if s[1] is length(app('lines', tx)):
        return True if all(n == 1 and not fs for fs, n in per) else None
    if s[1] is length(app('chars', tx)):
        nl = {}
        for fs, n in per:
            if len(fs) != 1 or fs[0][0] not in ('is', 'not') or fs[0][2] != mk('chr', 10):
                return None
            nl[fs[0][0]] = n
        return nl == {'is': 1, 'not': 0} or nl == {'is': 1}
    if s[1] is length(tx):
        if any(n != 1 or fs for fs, n in per):
            return None
        return unit == 1
    if s[1][0] == 'app' and s[1][1] == 'count' and all(n == 1 and not fs for fs, n in per):
        # so many empty lines as a count says
        e = s[1][2][0]
        if e[0] == 'each':
            return blank_lines_of(G, rule, o, seq([mk('each', e[1], e[2], mk(*[mk(x[0], mk(*[one(STR('')) for _ in x[1]])) for x in e[3]]))]), tx)
    return None


def line_unit(G, rule):
    """the longest text of one line break in a rule of line breaks"""
    m = 0
    for k, t in G.g.terminals(rule):
        m = max(m, 2 if k == 'class' and t == 'NEWLINE' else len(t) if k == 'lit' else 1)
    return m


def punctuation(c, G, rule):
    k = '%s::%s' % (G.parser, rule)
    ts = G.g.terminals(rule)
    if uses_text(G, rule):
        return
    if rule not in G.methods:
        if rule != 'EOI' and G.g.rules[rule][0] != '_':
            c.unknown('punctuation', k, 'no method')
        return
    bad = [t for kind, t in ts if kind == 'class' and t not in BLANKS]
    bad += [t for kind, t in ts if kind == 'lit' and any(ch.isalnum() for ch in t)]
    if made(G, rule) == '()' and not bad and G.g.texts(rule) is not None and len(G.g.texts(rule)) > 1:
        bad = ['one of %s' % G.g.texts(rule)]
    c.check('punctuation', k, not bad, 'the grammar matches text (%s) that no part of the tree keeps' % ', '.join(sorted(set(bad))), G.file)


def whole(c, G, rule):
    ws = G.words(rule)
    c.check('whole', rule, all('EOI' in w and w[-1] == 'EOI' for w in ws), 'text after a document is ignored: the start rule does not end with EOI', G.file)


# ---------------------------------------------------------------- escapes
def pieces_text(t):
    """literal text of a term, or None"""
    if t[0] == 'str':
        return t[1]
    ps = pieces_of(t)
    if all(p[0] == 'lit' for p in ps):
        return ''.join(p[1] for p in ps)
    return None


class Quotes:
    """how single escapes are read, valued and written"""

    def __init__(self, c, G):
        self.c, self.G = c, G
        x = self.x = Texts(c)
        cr = self.cr = c.crate
        self.fmt = cr.method('Yaml', 'format')
        self.kinds = {}
        for dbl, esc, adt, variant, val in ((True, x.desc, x.dq, 'DoubleQuotedString', 'parse_double_quoted_string'),
                                            (False, x.sesc, x.sq, 'SingleQuotedString', 'parse_single_quoted_string')):
            self.kinds[esc] = (dbl, adt, cr.vidx(adt, 'EscapedChar'), getattr(x.L, variant), x.pub(val))
        self.rules = {}
        for r, b in sorted(G.methods.items()):
            m = made(G, r)
            for esc in self.kinds:
                if m == esc.split('::')[-1] and not G.g.child_names(r):
                    self.rules[r] = esc

    def one(self, esc, v):
        dbl, adt, i, yv, val = self.kinds[esc]
        return mk('adt', adt, i, (mk('adt', esc, v, ()),))

    def value(self, esc, v):
        """text that a quoted string of just this escape stands for"""
        run = analyse(self.c, self.kinds[esc][4], [seq([one(self.one(esc, v))])])
        ts = {pieces_text(o.ret) for o in run.outs}
        return ts.pop() if len(ts) == 1 else None

    def written(self, esc, v):
        yv = self.kinds[esc][3]
        y = mk('adt', self.x.L.yaml, yv, (seq([one(self.one(esc, v))]),))
        run = analyse(self.c, self.fmt, [y, mk('mut', STR('')), INT(0), NONE], opaque={self.fmt.key})
        ts = {pieces_text(o.cells.get(1, UNIT)) for o in run.outs if o.st.variant(o.ret) != 1}
        return ts.pop() if len(ts) == 1 else None

    def empty(self, esc):
        yv = self.kinds[esc][3]
        run = analyse(self.c, self.fmt, [mk('adt', self.x.L.yaml, yv, (seq([]),)), mk('mut', STR('')), INT(0), NONE], opaque={self.fmt.key})
        ts = {pieces_text(o.cells.get(1, UNIT)) for o in run.outs if o.st.variant(o.ret) != 1}
        return ts.pop() if len(ts) == 1 else None


# what an escape sequence stands for: the letter after the backslash in double quotes, a doubled quote in single quotes
MEANING = {True: {'"': '"', '\\': '\\', 't': '\t', 'r': '\r', 'n': '\n', '\n': '\n', '0': '\0', 'a': '\x07', 'b': '\x08', 'e': '\x1b', 'f': '\x0c',
                  'v': '\x0b', ' ': ' ', '/': '/', 'N': '\x85', '_': '\xa0', 'L': '\u2028', 'P': '\u2029'},
           False: {"'": "'"}}


def p12(c):
    c.rule('read', 'every escape sequence the grammar accepts is turned into an escape, none is rejected')
    c.rule('value', 'an escape read from a sequence stands for the character YAML gives that sequence')
    c.rule('write', 'an escape is written as the sequence it is read from')
    c.rule('distinct', 'no two escapes are written the same way, and every escape is written as a sequence the grammar accepts')
    c.rule('plain', 'a run of plain characters of a quoted string contains no quote, no escape character and no line break')
    try:
        G = Gram(c, 'YamlParser')
    except Lost as e:
        c.unknown('read', 'YamlParser', str(e))
        return
    Q = Quotes(c, G)
    n = 0
    back = {e: {} for e in Q.kinds}
    readable = True
    for rule, esc in Q.rules.items():
        dbl = Q.kinds[esc][0]
        ts = G.g.texts(rule)
        if ts is None:
            c.unknown('read', rule, 'the grammar rule accepts infinitely many texts')
            readable = False
            continue
        for t in sorted(ts):
            n += 1
            k = '%s %s' % (rule, repr(t))
            nodes, run = G.run(rule, (), t)
            span = G.methods[rule].span
            vals = [(o, result_of(o, nodes, G)) for o in run.outs]
            good = [(o, v) for o, v in vals if v is not None and v[0] == 'adt' and v[1] == esc]
            if run.I.panics and not good or vals and not good and all(v is None for _, v in vals):
                c.bad('read', k, 'the sequence is accepted by the grammar but %s' % ('panics when read' if run.I.panics else 'rejected when read'), span)
                continue
            if len(good) != 1 or len(vals) != 1:
                c.unknown('read', k, 'not one result')
                readable = False
                continue
            c.ok('read', k, '')
            v = good[0][1][2]
            back[esc].setdefault(v, []).append(t)
            want = MEANING[dbl].get(t)
            got = Q.value(esc, v)
            c.check('value', k, None if got is None or want is None else got == want,
                    'stands for %s, YAML says %s' % (repr(got), repr(want)), Q.kinds[esc][4].span)
            em, w = Q.empty(esc), Q.written(esc, v)
            if em is None or w is None or not em.rstrip(' ')[-1:] == ('"' if dbl else "'"):
                c.unknown('write', k, 'what is written is not a literal')
                continue
            em = em.rstrip(' ')
            h = len(em) // 2 + len(em) % 2
            pre = em[:em.index('"' if dbl else "'") + 1]
            lead = '\\' if dbl else "'"
            c.check('write', k, w.strip(' ') == pre.strip(' ') + lead + t + em[len(pre):],
                    'read from %s, written as %s' % (repr(lead + t), repr(w)), Q.fmt.span)
    c.floor('read', n, 7, 'escape sequences')
    for esc, (dbl, adt, i, yv, val) in Q.kinds.items():
        if not readable:
            continue
        seen = {}
        for v, d in enumerate(c.crate.variants(esc)):
            w = Q.written(esc, v)
            k = '%s::%s' % (esc.split('::')[-1], d['n'])
            if w is None:
                c.unknown('distinct', k, 'what is written is not a literal')
                continue
            if w in seen:
                c.bad('distinct', k, 'written as %s like %s' % (repr(w), seen[w]), Q.fmt.span)
                continue
            seen[w] = d['n']
            c.check('distinct', k, bool(back[esc].get(v)), 'written as %s, but no sequence of the grammar is read as it' % repr(w), Q.fmt.span)
    plain(c, G)


def plain(c, G):
    for rule, no in (('double_quote_text', '"\\\n'), ('single_quote_text', "'\n")):
        if rule not in G.g.rules:
            c.unknown('plain', rule, 'no such rule')
            continue
        bad = [x for x in no if G.g.whole(rule, x) is not None or G.g.whole(rule, 'a' + x) is not None or G.g.whole(rule, 'a' + x + 'b') is not None]
        c.check('plain', rule, not bad, 'accepts %s as plain text' % repr(''.join(bad)), G.file)


# ---------------------------------------------------------------- paths
class Spec27:
    def __init__(self, c, G):
        self.G = G
        self.L = Lib(c)
        self.insert = c.crate.method('YamlPath', 'insert')
        self.opaque = (self.insert.key,)
        nm = Interp(c.crate).fname(self.insert)
        allow([nm])
        self.ins = nm + '!0'
        cond = c.crate.adt_named('Condition')
        self.cond = lambda f, v: self.L.make(cond, field=f, value=v)

    def want(self, rule, word, nodes):
        L, G = self.L, self.G
        me = made(G, rule)
        full = [(w, made(G, w), G.value(w, x)) for w, x in zip(word, nodes)]
        marks = [w for w, k, _ in full if k == '()' and w != 'EOI']
        full = [x for x in full if x[1] != '()']
        ks = [k for _, k, _ in full]
        cs = [v for _, k, v in full if k == 'Condition']
        head_ = [(k, v) for _, k, v in full if k != 'Condition']
        if 'Condition' in ks and any(k != 'Condition' for k in ks[ks.index('Condition'):]):
            raise Undecided('a step after conditions in ' + rule)
        P = lambda v, *fs: Build(lambda n, *a: mk('adt', L.path, v, a[:-1] + (NONE,) if v != L.pRoot else a[:-1]), None, *fs, NONE)
        if me == 'Condition' and ks == ['String', 'String']:
            return self.cond(full[0][2], full[1][2])
        conds = Seq(*[one(v) for v in cs])
        if me == 'YamlPath':
            hk = [k for k, _ in head_]
            if hk == ['String'] and not marks:
                return P(L.pKey, head_[0][1], conds)
            if hk == ['Vec<usize>'] and not marks:
                return P(L.pIdx, head_[0][1], conds)
            if not hk and len(marks) == 1:
                return P(L.pAll if self.star(marks[0]) else L.pRoot, conds)
            if hk and all(k == 'YamlPath' for k in hk) and not cs and not marks:
                t = head_[0][1]
                for _, v in head_[1:]:
                    t = app(self.ins, t, v)
                return t
        raise Undecided('no rule for %s (%s) from %s' % (rule, me, ', '.join(ks) or 'its text'))

    def star(self, mark):
        ts = self.G.g.texts(mark)
        if ts == ['*']:
            return True
        if ts == ['']:
            return False
        raise Undecided('marker %s' % mark)


def p27(c):
    c.rule('append', 'appending replaces the root path, is handed on to the rest of a path that has one, and becomes the rest of one that has none; steps, indexes and conditions stay')
    c.rule('step', 'the method of a path grammar rule builds the step it stands for from all of its children, in order; a path is its first step with the others appended in order')
    c.rule('text', 'keys, condition fields and values are the matched text, an index is its number')
    c.rule('punctuation', 'other text matched by the path grammar is punctuation')
    c.rule('whole', 'the start rule ends at the end of the text')
    L = Lib(c)
    ins = c.crate.method('YamlPath', 'insert')
    run = analyse(c, ins, opaque={ins.key})
    a0, a1 = run.args[0][1] if run.args[0][0] == 'mut' else run.args[0], run.args[1]
    nm = Interp(c.crate).fname(ins)
    allow([nm])
    rest = {L.pKey: 2, L.pAll: 1, L.pIdx: 2}

    def f(d, o):
        v = d.variant(a0, 4)
        tr = o.cells.get('trace')
        evs = list(tr[1]) if tr is not None and tr[0] == 'seq' else []
        fin = o.cells.get(0)
        if v == L.pRoot:
            return conj([match(d, fin, a1), not evs]), 'the root path becomes %s' % show(fin)[:200]
        i = rest[v]
        r = fld(a0, v, i)
        if d.variant(r, 2) == 0:
            want = mk('adt', L.path, v, tuple(fld(a0, v, j) if j < i else some(a1) for j in range(i + 1)))
            return conj([match(d, fin, want), not evs]), 'a last step becomes %s' % show(fin)[:300]
        inner = app(nm, fld(r, 1, 0), a1)
        ok_ = len(evs) == 1 and evs[0][0] == 'one' and evs[0][1] is inner
        if ok_ and fin is a0:
            return True
        deep = mk('adt', L.path, v, tuple(fld(a0, v, j) if j < i else some(app(nm + '!0', fld(r, 1, 0), a1)) for j in range(i + 1)))
        m = match(d, fin, deep)
        if m is not True and not ok_ and fin is a0 and all(e[0] == 'one' and understood(e[1]) for e in evs):
            m = False
        return m, 'a step with a rest becomes %s after %s' % (show(fin)[:300], show(tr)[:200] if tr is not None else 'nothing')
    n = decide(c, 'append', 'YamlPath::insert', run, f)
    c.floor('append', n, 7, 'kinds of path')
    try:
        G = Gram(c, 'PathParser')
    except Lost as e:
        c.unknown('step', 'PathParser', str(e))
        return
    S = Spec27(c, G)
    start_rule = [r for r in G.methods if r in G.g.rules and 'EOI' in G.g.child_names(r)]
    if len(start_rule) != 1:
        c.unknown('whole', 'PathParser', 'start rule not found')
        return
    n = 0
    for rule in sorted(reach(G, start_rule[0])):
        if rule not in G.methods or rule == 'EOI':
            continue
        if not G.g.child_names(rule):
            path_leaf(c, G, rule)
            n += 1
        else:
            n += built(c, G, S, rule, 'step')
        punctuation(c, G, rule)
    c.floor('step', n, 30, 'child sequences')
    whole(c, G, start_rule[0])
    c.rule('syntax', 'the text of a path is matched as the keys, indexes and conditions it spells')
    readings.path_syntax(c, G, start_rule[0], made)


def path_leaf(c, G, rule):
    k = '%s::%s' % (G.parser, rule)
    nodes, run = G.run(rule, ())
    me = made(G, rule)
    tx = app('text', N)
    vals = [(o, result_of(o, nodes, G)) for o in run.outs]
    vals = [(o, v) for o, v in vals if v is not None]
    if me == '()':
        c.check('text', k, True if vals and all(v is UNIT for _, v in vals) else None, '')
        return
    res, why = (True if vals else None), 'no result'
    for o, v in vals:
        v = lit_of(D(o.st, ()), v)
        if me == 'String':
            r = True if v is tx else False if understood(v) and facts_ok(o) else None
        elif me == 'Vec<usize>':
            n = fld(app('parse:usize', tx), 0, 0)
            if v[0] == 'seq' and len(v[1]) == 1 and v[1][0][0] == 'one' and v[1][0][1] is n:
                r = True
            else:
                allow(['parse:usize'])
                r = False if understood(v) and facts_ok(o) else None
        else:
            r = None
        if r is not True:
            why = 'gives %s for the matched text' % show(v)[:200]
            res = False if r is False or res is False else None
    if res is None and me in ('String', 'Vec<usize>'):
        hit = readings.refute_leaf(c, G, rule, run, lambda t, v: v == t if me == 'String' else v == [int(t)])
        if hit is not None:
            res, why = False, 'gives %s for the matched text %r' % (witness.plain(hit[1]), hit[0])
    c.check('text', k, res, why, G.methods[rule].span)
