"""Reads a pest grammar: its rules, the languages of child nodes they produce and facts about the text they match."""
import os
import re
import unicodedata
from .build import REPO

SILENT_BUILTIN = {'ANY', 'SOI', 'NEWLINE', 'ASCII_DIGIT', 'ASCII_NONZERO_DIGIT', 'ASCII_BIN_DIGIT', 'ASCII_OCT_DIGIT', 'ASCII_HEX_DIGIT',
                  'ASCII_ALPHA_LOWER', 'ASCII_ALPHA_UPPER', 'ASCII_ALPHA', 'ASCII_ALPHANUMERIC', 'ASCII', 'LETTER', 'NUMBER', 'SPACE_SEPARATOR',
                  'WHITE_SPACE', 'PEEK', 'PEEK_ALL', 'POP', 'POP_ALL', 'DROP', 'ALPHABETIC', 'UPPERCASE_LETTER', 'LOWERCASE_LETTER', 'PUNCTUATION',
                  'SYMBOL', 'SEPARATOR', 'LINE_SEPARATOR', 'DECIMAL_NUMBER', 'CONTROL'}
BLANKS = {'NEWLINE', 'SPACE_SEPARATOR', 'WHITE_SPACE', 'SEPARATOR', 'LINE_SEPARATOR'}
STACK = {'PEEK', 'PEEK_ALL', 'POP', 'POP_ALL', 'DROP'}


class BadGrammar(Exception):
    pass


TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>\^?"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\[^u]|\\u\{[0-9a-fA-F]+\}|[^'\\])')|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>-?\d+)|(?P<op>\.\.|[{}()\[\]~|*+?!&=@$,_#])''', re.S)


def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == 'u':
            return chr(int(x[2:-1], 16))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0', '"': '"', "'": "'", '\\': '\\'}[x]
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, s, flags=re.S)


class P:
    def __init__(self, text):
        self.t = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise BadGrammar('at ' + text[i:i + 30])
            i = m.end()
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group(m.lastgroup)))
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end', '')

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def op(self, s):
        k, v = self.peek()
        if k == 'op' and v == s or (k == 'id' and v == s == '_'):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.op(s):
            raise BadGrammar('expected %s, found %s' % (s, self.peek()))

    def rules(self):
        out = {}
        while self.peek()[0] != 'end':
            k, name = self.next()
            if k != 'id':
                raise BadGrammar(name)
            self.need('=')
            mod = ''
            k, v = self.peek()
            if v in ('_', '@', '$', '!'):
                mod = v
                self.i += 1
            self.need('{')
            self.op('|')
            e = self.alt()
            self.need('}')
            out[name] = (mod, e)
        return out

    def alt(self):
        xs = [self.seq()]
        while self.op('|'):
            xs.append(self.seq())
        return ('alt', xs) if len(xs) > 1 else xs[0]

    def seq(self):
        xs = [self.term()]
        while self.op('~'):
            xs.append(self.term())
        return ('seq', xs) if len(xs) > 1 else xs[0]

    def term(self):
        if self.op('!'):
            return ('not', self.term())
        if self.op('&'):
            return ('and', self.term())
        if self.op('#'):
            self.next()
            self.need('=')
            return self.term()
        e = self.atom()
        while True:
            if self.op('*'):
                e = ('rep', e, 0, None)
            elif self.op('+'):
                e = ('rep', e, 1, None)
            elif self.op('?'):
                e = ('rep', e, 0, 1)
            elif self.peek() == ('op', '{'):
                self.i += 1
                lo = hi = None
                if self.peek()[0] == 'num':
                    lo = int(self.next()[1])
                if self.op(','):
                    if self.peek()[0] == 'num':
                        hi = int(self.next()[1])
                else:
                    hi = lo
                self.need('}')
                e = ('rep', e, lo or 0, hi)
            else:
                return e

    def atom(self):
        k, v = self.next()
        if k == 'str':
            if v[0] == '^':
                return ('ilit', unescape(v[2:-1]))
            return ('lit', unescape(v[1:-1]))
        if k == 'chr':
            a = unescape(v[1:-1])
            if self.op('..'):
                k2, w = self.next()
                return ('range', a, unescape(w[1:-1]))
            return ('lit', a)
        if k == 'op' and v == '(':
            self.op('|')
            e = self.alt()
            self.need(')')
            return e
        if k == 'id':
            if v in ('PUSH', 'PUSH_LITERAL') and self.peek() == ('op', '('):
                self.i += 1
                e = self.alt()
                self.need(')')
                return ('push', e)
            if v == 'PEEK' and self.op('['):
                ts = []
                while not self.op(']'):
                    ts.append(self.next()[1])
                i = ts.index('..') if '..' in ts else 0
                num = lambda x: int(x[0]) if x else None
                return ('ref', 'PEEK', (num(ts[:i]), num(ts[i + 1:])))
            return ('ref', v)
        raise BadGrammar('%s %s' % (k, v))


def category(*cs):
    return lambda x: unicodedata.category(x).startswith(cs)


CLASSES = {
    'ASCII_DIGIT': lambda x: x in '0123456789', 'ASCII_NONZERO_DIGIT': lambda x: x in '123456789', 'ASCII_BIN_DIGIT': lambda x: x in '01',
    'ASCII_OCT_DIGIT': lambda x: x in '01234567', 'ASCII_HEX_DIGIT': lambda x: x in '0123456789abcdefABCDEF',
    'ASCII_ALPHA_LOWER': lambda x: 'a' <= x <= 'z', 'ASCII_ALPHA_UPPER': lambda x: 'A' <= x <= 'Z',
    'ASCII_ALPHA': lambda x: x.isascii() and x.isalpha(), 'ASCII_ALPHANUMERIC': lambda x: x.isascii() and x.isalnum(), 'ASCII': lambda x: x.isascii(),
    'LETTER': category('L'), 'NUMBER': category('N'), 'SPACE_SEPARATOR': category('Zs'), 'PUNCTUATION': category('P'), 'SYMBOL': category('S'),
    'SEPARATOR': category('Z'), 'LINE_SEPARATOR': category('Zl'), 'DECIMAL_NUMBER': category('Nd'), 'CONTROL': category('Cc'),
    'UPPERCASE_LETTER': category('Lu'), 'LOWERCASE_LETTER': category('Ll'), 'ALPHABETIC': lambda x: x.isalpha(),
    'WHITE_SPACE': lambda x: x.isspace() and x not in '\x1c\x1d\x1e\x1f'}


class Grammar:
    def __init__(self, path):
        self.path = path
        self.rules = P(open(path).read()).rules()
        self.memo = {}

    # ------------------------------------------------------------ child languages
    def children(self, rule):
        """automaton of the sequences of child nodes a match of the rule can have (ignoring the text)"""
        if rule not in self.memo:
            mod, e = self.rules[rule]
            a = NFA()
            if mod == '@':
                a.final = a.start
            else:
                a.final = self.build(a, a.start, e, ())
            self.memo[rule] = a
        return self.memo[rule]

    def build(self, a, s, e, stack):
        k = e[0]
        if k in ('lit', 'ilit', 'range'):
            return s
        if k in ('not', 'and'):
            return s
        if k == 'push':
            return self.build(a, s, e[1], stack)
        if k == 'seq':
            for x in e[1]:
                s = self.build(a, s, x, stack)
            return s
        if k == 'alt':
            f = a.new()
            for x in e[1]:
                b = a.new()
                a.eps(s, b)
                a.eps(self.build(a, b, x, stack), f)
            return f
        if k == 'rep':
            lo, hi = e[2], e[3]
            for _ in range(lo):
                s = self.build(a, s, e[1], stack)
            if hi is None:
                h = a.new()
                a.eps(s, h)
                t = self.build(a, h, e[1], stack)
                a.eps(t, h)
                f = a.new()
                a.eps(h, f)
                return f
            f = a.new()
            a.eps(s, f)
            for _ in range(hi - lo):
                s = self.build(a, s, e[1], stack)
                a.eps(s, f)
            return f
        if k == 'ref':
            n = e[1]
            if n in self.rules:
                mod, x = self.rules[n]
                if mod == '_':
                    if n in stack:
                        raise BadGrammar('recursive silent rule ' + n)
                    return self.build(a, s, x, stack + (n,))
                f = a.new()
                a.sym(s, n, f)
                return f
            if n == 'EOI':
                f = a.new()
                a.sym(s, n, f)
                return f
            if n in SILENT_BUILTIN:
                return s
            raise BadGrammar('unknown rule ' + n)
        raise BadGrammar(k)

    # ------------------------------------------------------------ reachability
    def child_names(self, rule):
        return {x for _, x, _ in self.children(rule).syms}

    # ------------------------------------------------------------ text
    def terminals(self, rule):
        """[('lit', s) | ('class', name) | ('stack', name)] of text matched by a rule itself: outside child nodes, lookaheads aside"""
        out = []

        def go(e, stack):
            k = e[0]
            if k in ('lit', 'ilit'):
                out.append(('lit', e[1]))
            elif k == 'range':
                out.append(('class', e[1] + '..' + e[2]))
            elif k in ('not', 'and'):
                pass
            elif k in ('push', 'rep'):
                go(e[1], stack)
            elif k in ('seq', 'alt'):
                for x in e[1]:
                    go(x, stack)
            elif k == 'ref':
                n = e[1]
                if n in self.rules:
                    mod, x = self.rules[n]
                    if mod == '_' or atomic:
                        if n not in stack:
                            go(x, stack + (n,))
                elif n in STACK:
                    out.append(('stack', n))
                elif n not in ('SOI', 'EOI'):
                    out.append(('class', n))
        mod, e = self.rules[rule]
        atomic = mod == '@'
        go(e, (rule,))
        return out

    def texts(self, rule, limit=3000):
        """all texts the rule can match, if they are finitely many; None otherwise (lookaheads make it an over-approximation)"""
        def go(e, stack):
            k = e[0]
            if k == 'lit':
                return [e[1]]
            if k == 'ilit':
                return None
            if k in ('not', 'and'):
                return ['']
            if k == 'push':
                return go(e[1], stack)
            if k == 'range':
                return [chr(c) for c in range(ord(e[1]), ord(e[2]) + 1)] if ord(e[2]) - ord(e[1]) < limit else None
            if k == 'seq':
                r = ['']
                for x in e[1]:
                    y = go(x, stack)
                    if y is None or len(r) * len(y) > limit:
                        return None
                    r = [a + b for a in r for b in y]
                return uniq(r)
            if k == 'alt':
                r = []
                for x in e[1]:
                    y = go(x, stack)
                    if y is None:
                        return None
                    r += y
                return uniq(r) if len(r) <= limit else None
            if k == 'rep':
                if e[3] is None:
                    return None
                y = go(e[1], stack)
                if y is None:
                    return None
                cur = ['']
                r = [''] if e[2] == 0 else []
                for i in range(1, e[3] + 1):
                    if len(cur) * len(y) > limit:
                        return None
                    cur = [a + b for a in cur for b in y]
                    if i >= e[2]:
                        r += cur
                return uniq(r) if len(r) <= limit else None
            if k == 'ref':
                n = e[1]
                if n in self.rules:
                    if n in stack:
                        return None
                    return go(self.rules[n][1], stack + (n,))
                if n == 'ASCII_DIGIT':
                    return list('0123456789')
                if n == 'ASCII_NONZERO_DIGIT':
                    return list('123456789')
                if n == 'NEWLINE':
                    return ['\n', '\r\n', '\r']
                if n in ('SOI', 'EOI', 'DROP'):
                    return ['']
                return None
        return go(self.rules[rule][1], (rule,))

    # ------------------------------------------------------------ matching of given texts
    def match(self, rule, s, pos=0, stack=(), inside=False):
        """(end, stack, nodes) of the match of the rule at pos, or None; nodes: [(rule, start, end, nodes)]"""
        budget = [200000]
        ws = self.rules.get('WHITESPACE')

        def skip(pos, st, atomic):
            if atomic or ws is None:
                return pos
            while True:
                r = go(ws[1], pos, st, True, False)
                if r is None or r[0] == pos:
                    return pos
                pos = r[0]

        def go(e, pos, st, atomic, tokens):
            budget[0] -= 1
            if budget[0] < 0:
                raise BadGrammar('matching takes too long')
            k = e[0]
            if k == 'lit':
                return (pos + len(e[1]), st, []) if s.startswith(e[1], pos) else None
            if k == 'ilit':
                return (pos + len(e[1]), st, []) if s[pos:pos + len(e[1])].lower() == e[1].lower() else None
            if k == 'range':
                return (pos + 1, st, []) if pos < len(s) and e[1] <= s[pos] <= e[2] else None
            if k == 'not':
                return (pos, st, []) if go(e[1], pos, st, atomic, tokens) is None else None
            if k == 'and':
                return (pos, st, []) if go(e[1], pos, st, atomic, tokens) is not None else None
            if k == 'push':
                r = go(e[1], pos, st, atomic, tokens)
                return None if r is None else (r[0], r[1] + (s[pos:r[0]],), r[2])
            if k == 'seq':
                ns = []
                for i, x in enumerate(e[1]):
                    if i:
                        pos = skip(pos, st, atomic)
                    r = go(x, pos, st, atomic, tokens)
                    if r is None:
                        return None
                    pos, st = r[0], r[1]
                    ns += r[2]
                return pos, st, ns
            if k == 'alt':
                for x in e[1]:
                    r = go(x, pos, st, atomic, tokens)
                    if r is not None:
                        return r
                return None
            if k == 'rep':
                n, ns = 0, []
                while e[3] is None or n < e[3]:
                    p = skip(pos, st, atomic) if n else pos
                    r = go(e[1], p, st, atomic, tokens)
                    if r is None:
                        break
                    n += 1
                    ns += r[2]
                    same = r[0] == pos and r[1] == st
                    pos, st = r[0], r[1]
                    if same:
                        n = max(n, e[2])
                        break
                return (pos, st, ns) if n >= e[2] else None
            if k == 'ref':
                return self.ref(e, s, pos, st, atomic, tokens, go)
            raise BadGrammar(k)
        return go(('ref', rule), pos, tuple(stack), inside, True)

    def ref(self, e, s, pos, st, atomic, tokens, go):
        n = e[1]
        if n in self.rules:
            mod, x = self.rules[n]
            a = True if mod in '@$' and mod else False if mod == '!' else atomic
            r = go(x, pos, st, a, tokens and mod != '@')
            if r is None:
                return None
            if mod == '_' or not tokens:
                return r
            return r[0], r[1], [(n, pos, r[0], r[2])]
        one = s[pos:pos + 1]
        if n == 'ANY':
            return (pos + 1, st, []) if one else None
        if n == 'SOI':
            return (pos, st, []) if pos == 0 else None
        if n == 'EOI':
            return (pos, st, [('EOI', pos, pos, [])] if tokens else []) if pos == len(s) else None
        if n == 'NEWLINE':
            for t in ('\n', '\r\n', '\r'):
                if s.startswith(t, pos):
                    return pos + len(t), st, []
            return None
        if n == 'PEEK':
            if len(e) > 2:
                a, b = e[2]
                t = ''.join(st[slice(a, b)])
            elif not st:
                raise BadGrammar('PEEK on an empty stack')
            else:
                t = st[-1]
            return (pos + len(t), st, []) if s.startswith(t, pos) else None
        if n == 'POP':
            if not st:
                raise BadGrammar('POP on an empty stack')
            return (pos + len(st[-1]), st[:-1], []) if s.startswith(st[-1], pos) else None
        if n == 'DROP':
            return (pos, st[:-1], []) if st else None
        f = CLASSES.get(n)
        if f is None:
            raise BadGrammar('unknown rule ' + n)
        return (pos + 1, st, []) if one and f(one) else None

    def whole(self, rule, s, stack=(), inside=False):
        """the nodes if the rule matches all of s, else None"""
        r = self.match(rule, s, 0, stack, inside)
        return r[2] if r is not None and r[0] == len(s) else None

    def pushed(self):
        """texts pushed on the stack, per push: ('lit', s) or the terminals"""
        out = []

        def go(e):
            k = e[0]
            if k == 'push':
                out.append(e[1])
            elif k in ('seq', 'alt'):
                for x in e[1]:
                    go(x)
            elif k in ('rep', 'not', 'and'):
                go(e[1])
        for n, (m, e) in self.rules.items():
            go(e)
        return out


def uniq(xs):
    return list(dict.fromkeys(xs))


class NFA:
    def __init__(self):
        self.n = 1
        self.start = 0
        self.final = None
        self.epss = []
        self.syms = []
        self._e = None

    def new(self):
        self.n += 1
        return self.n - 1

    def eps(self, a, b):
        self.epss.append((a, b))

    def sym(self, a, x, b):
        self.syms.append((a, x, b))

    def closure(self, ss):
        if self._e is None:
            self._e = {}
            for a, b in self.epss:
                self._e.setdefault(a, []).append(b)
        out, todo = set(ss), list(ss)
        while todo:
            x = todo.pop()
            for y in self._e.get(x, ()):
                if y not in out:
                    out.add(y)
                    todo.append(y)
        return frozenset(out)

    def step(self, ss, x):
        return self.closure({b for a, y, b in self.syms if y == x and a in ss})

    @property
    def alphabet(self):
        return sorted({x for _, x, _ in self.syms})

    def dfa(self):
        """(start, transitions {(state, symbol): state}, accepting) over frozensets"""
        s = self.closure({self.start})
        tr, seen, todo = {}, {s}, [s]
        while todo:
            q = todo.pop()
            for x in self.alphabet:
                r = self.step(q, x)
                if r:
                    tr[q, x] = r
                    if r not in seen:
                        seen.add(r)
                        todo.append(r)
        return s, tr, {q for q in seen if self.final in q}


def find_grammars():
    """{parser struct name: grammar file}"""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith('.rs'):
                s = open(os.path.join(d, f)).read()
                for m in re.finditer(r'#\[\s*grammar\s*=\s*"([^"]+)"\s*\]\s*((?:#\[[^\]]*\]|//[^\n]*|\s)*)(?:pub(?:\([^)]*\))?\s+)?struct\s+(\w+)', s):
                    out[m.group(3)] = os.path.join(REPO, 'src', m.group(1))
    return out
