"""What the methods of a grammar make of definite nodes, by the outcomes extracted from them: refutes what is left undecided."""
import itertools
import os
import random
import re
import time
from .common import *
from .. import witness
from ..concrete import Unknown, text as text_of
from ..grammar import BadGrammar
from ..interp import Limit

ERRS = (Unknown, Undecided, Limit, KeyError, IndexError, RecursionError, BadGrammar, TypeError, AttributeError, ValueError, Fork, Infeasible, Differs)


def consumers(c, G):
    from .parsing import Consumers, start_rules
    if not hasattr(G, 'cons'):
        G.cons = Consumers(c, G, None)
        try:
            G.cons.tops = start_rules(c, G)[0]
        except ERRS:
            pass
    return G.cons


def texts_of(c, G, rule, sizes=(), words=()):
    """definite texts of a rule"""
    K = consumers(c, G)
    try:
        out = list(K.texts(rule)[0])
        units = [' ', 'a', ':', '"', "'", '\n', 'A', '\t', '\u00e9', '\\', ',', '-']
        units += [w for w in words if w not in units]
        for t in sorted(set(out), key=lambda t: (len(t), t))[:25]:
            for u in units:
                for i in sorted({0, len(t) // 2, len(t)}):
                    x = t[:i] + u + t[i:]
                    for y in (x, x + 'a', x + ' '):
                        if K.matches(rule, y):
                            out.append(y)
        if len(out) < 5:
            # a rule that looks at what follows: its texts inside whole ones
            out += [x[0] for x in K.nodes(rule, ()) if not x[1]][:300]
        if sizes:
            out += K.pumped(rule, tuple(sizes))
    except ERRS:
        return []
    return list(dict.fromkeys(out))


def read(c, G, rule, text):
    """what the method of a rule without children makes of a text: its result, or None"""
    v = consumers(c, G).value(rule, text)
    if isinstance(v, tuple) and v and v[0] == 'adt' and len(v[3]) == 1 and v[2] == 0:
        return v[3][0]
    return None


def numbers_in(terms):
    """numbers the code mentions"""
    return tuple(witness.spelled(terms)[1])[:3]


def words_in(terms):
    """short texts the code mentions"""
    out = set()
    for t in terms:
        for x in subterms(t):
            if isinstance(x, T) and x and x[0] in ('str', 'lit') and isinstance(x[1], str) and 0 < len(x[1]) < 8:
                out.add(x[1])
            elif isinstance(x, T) and x and x[0] == 'chr' and isinstance(x[1], int):
                out.add(chr(x[1]))
    return sorted(out)[:6]


def refute_leaf(c, G, rule, run, right):
    """a text of the rule for which what the method makes of it is not right: (text, result)"""
    about = [o.ret for o in run.outs] + [f for o in run.outs for f in o.facts]
    if c.patience <= 0:
        return None
    t0 = time.process_time()
    try:
        for t in texts_of(c, G, rule, numbers_in(about), words_in(about)):
            v = read(c, G, rule, t)
            if v is not None and right(t, v) is False:
                return t, v
            if time.process_time() - t0 > 20:
                break
    finally:
        c.patience -= time.process_time() - t0
    return None


def refute_node(c, G, rule, word, run, result, want, nodes, cmp):
    """a node with these children for which what the method builds is not what is wanted"""
    K = consumers(c, G)
    if c.patience <= 0:
        return None
    t0 = time.process_time()
    try:
        for node in K.nodes(rule, ()):
            if tuple(x[0] for x in node[1]) != tuple(word):
                continue
            if time.process_time() - t0 > 20:
                break
            try:
                env = K.around(node, nodes)
                for o in run.outs:
                    v = result(o)
                    if v is None:
                        continue
                    e = witness.Here(run.I.loops, env, limit=40000)
                    if not all(e.fact(f) for f in o.facts if not (f[0] == 'is' and f[1][0] == 'app' and f[1][1] in ('arule', 'rule'))):
                        continue
                    d = Definite(o.st, e)
                    if cmp(d, v, want) is False:
                        return node[0], d.why
            except ERRS as x:
                if os.environ.get('VP_REFUTE'):
                    print('reading', rule, repr(node)[:80], type(x).__name__, str(x)[:150])
                continue
    finally:
        c.patience -= time.process_time() - t0
    return None


def lone(t):
    """a carriage return that no line feed follows: whether that is a line break is left open"""
    return re.search('\r(?!\n)', t) is not None


def line_breaks(t):
    return len(re.findall('\r\n|\n|\r', t))


# ---------------------------------------------------------------- grammars alone
def spans(g, rule, s):
    """the nodes of a match of all of s, or None"""
    try:
        return g.whole(rule, s)
    except (BadGrammar, RecursionError):
        return None


def leaves(ns):
    for n, a, b, kids in ns:
        if kids:
            yield from leaves(kids)
        else:
            yield n, a, b


def kept(c, G):
    """blanks inside a comment or a quoted string belong to the text that is kept"""
    g = G.g
    n = 0
    for rule in sorted(G.methods):
        if rule not in g.rules or not g.child_names(rule) or g.rules[rule][0] == '@':
            continue
        heads = [x for k, x in g.terminals(rule) if k == 'lit']
        if heads == ['#'] and len(g.child_names(rule)) == 1:
            n += 1
            bad = None
            for t in (' a', '  a', 'a ', '\ta', ' ', '#a', 'a # b'):
                for lead in ('', ' '):
                    ns = spans(g, rule, lead + '#' + t)
                    if ns is None:
                        continue
                    s = lead + '#' + t
                    got = ''.join(s[a:b] for _, a, b in leaves(ns))
                    if got != t:
                        bad = bad or 'of the comment %r only %r is kept' % ('#' + t, got)
            c.check('kept', '%s::%s' % (G.parser, rule), not bad, bad or '', G.file)
        quotes = [q for q in ('"', "'") if ('lit', q) in g.terminals(rule) and spans(g, rule, q + 'a' + q) is not None]
        if len(quotes) == 1 and spans(g, rule, 'a') is None:
            n += 1
            q = quotes[0]
            bad = None
            for t in (' a', 'a ', '  a', ' ', 'a  b', ' a b ', '\ta'):
                ns = spans(g, rule, q + t + q)
                if ns is None:
                    bad = bad or '%r is no quoted string' % (q + t + q)
                    continue
                got = ''.join((q + t + q)[a:b] for _, a, b in leaves(ns))
                if got != t:
                    bad = bad or 'of the quoted text %r only %r is kept' % (t, got)
            c.check('kept', '%s::%s' % (G.parser, rule), not bad, bad or '', G.file)
    return n


def path_texts():
    """[(text, keys, indexes, condition fields and values in order)] of paths"""
    keys = ['a', 'a b', 'k1', '\u00e9', 'a-b', '"q"', 'a=b', '*', 'a:b', "it's", '#c']
    vals = ['x', '1', 'a b', 'x=y', 'v[1]', '[0]', '*', '"v"', 'a:b', 'x]', '-1']
    flds = ['k', 'f g', 'k-1', '\u00e9', 'a[0]']
    rnd = random.Random(7)
    out = []

    def conds(leafs, n):
        s = ''
        for _ in range(n):
            f, v = rnd.choice(flds), rnd.choice(vals)
            leafs += [f, v]
            s += '|%s=%s' % (f, v)
        return s
    for i in range(400):
        leafs = []
        k = rnd.choice(keys)
        leafs.append(k)
        s = k + conds(leafs, rnd.choice([0, 0, 1, 2]))
        ended = '|' not in s
        for _ in range(rnd.choice([0, 1, 1, 2, 3])):
            w = rnd.randrange(3)
            # a condition's value goes on to the next dot or bar
            if w == 0 or not ended:
                k = rnd.choice(keys)
                leafs.append(k)
                s += '.' + k
            elif w == 1:
                n = rnd.choice(['0', '1', '12', '7'])
                leafs.append(n)
                s += '[%s]' % n
            else:
                s += '[*]'
            x = conds(leafs, rnd.choice([0, 0, 1]))
            ended = not x
            s += x
        out.append((s, leafs))
    for n in (0, 1, 2):
        leafs = []
        out.append((conds(leafs, n), leafs))
    return out


def path_syntax(c, G, rule, made):
    """the texts of paths are matched as the steps they spell"""
    n = 0
    bad = None
    quiet = {}
    for s, want in path_texts():
        try:
            ns = G.g.whole(rule, s)
        except (BadGrammar, RecursionError) as e:
            c.unknown('syntax', 'PathParser::' + rule, str(e))
            return 0
        n += 1
        if ns is None:
            bad = bad or 'the path %r is not read' % s
            continue
        got = []
        for r, a, b in leaves(ns):
            if r not in quiet:
                quiet[r] = r not in G.methods or r == 'EOI' or made(G, r) == '()'
            if not quiet[r]:
                got.append(s[a:b])
        if got != want:
            bad = bad or 'the path %r is read as %s' % (s, got)
    c.check('syntax', 'PathParser::' + rule, not bad, bad or '%d texts' % n, G.file)
    return n
