"""P26: operations that move entries keep everything they move."""
import itertools
from .common import *
from . import walk as W
from ..concrete import Eval, Unknown, Table

EDITS = ('insert_into_hash', 'remove_from_hash')


class MoveEval(Eval):
    """evaluation of summaries of the move operations: the single edits they are made of act as P23-P25 demand of them, and the
    text of a scalar is the one P18 demands"""
    L = None

    def app(self, t):
        n = t[1]
        m = n.split('::')[-1]
        base = m[:-2] if m.endswith('!0') else m
        if base in EDITS and 'YamlInsert' in n:
            place = self.ev(t[2][0])
            path = self.ev(t[2][1])
            rest = [self.ev(x) for x in t[2][2:]]
            new, k = self.edit(base, place, path, rest)
            return new if m.endswith('!0') else k
        if base == 'as_string' and 'YamlTypes' in n:
            return self.text_of(self.ev(t[2][0]))
        return Eval.app(self, t)

    def edit(self, op, place, path, rest):
        L = self.L
        if not (isinstance(place, tuple) and place and place[0] == 'adt'):
            raise Unknown('place')
        if path[1] != L.path or path[2] != L.pKey or path[3][1] != [] or path[3][2][2] != 0:
            raise Unknown('path')
        if place[1] == L.yaml:
            if place[2] != L.Hash:
                return place, 0
            data = list(place[3][0])
            i = next((j for j, e in enumerate(data) if e[2] == L.hdE and e[3][0][3][L.kf] == path[3][0]), None)
            if op == 'remove_from_hash':
                if i is None:
                    return place, 0
                del data[i]
            else:
                value, overwrite = rest
                if value[1] != L.alias:
                    raise Unknown('value')
                fs = [None, None]
                fs[L.kf], fs[L.vf] = path[3][0], value
                el = ('adt', L.hd, L.hdE, [('adt', L.he, 0, fs)])
                if i is None:
                    data.append(el)
                elif overwrite:
                    data[i] = el
                else:
                    return place, 0
            return ('adt', L.yaml, L.Hash, [data]), 1
        if place[1] == L.alias:
            i = L.av
        elif place[1] == L.he:
            i = L.vf
        elif place[1] == L.hd:
            if place[2] != L.hdE:
                return place, 0
            i = 0
        else:
            raise Unknown('place')
        fs = list(place[3])
        fs[i], k = self.edit(op, fs[i], path, rest)
        return place[:3] + (fs,), k

    def text_of(self, y):
        L = self.L
        if y[1] == L.alias:
            y = y[3][L.av]
        if y[1] != L.yaml:
            raise Unknown('text')
        if y[2] == L.UnquotedString:
            return ('adt', OPT, 1, [y[3][0]])
        if y[2] == L.SingleQuotedString and all(p[2] == 0 for p in y[3][0]):
            return ('adt', OPT, 1, [''.join(p[3][0] for p in y[3][0])])
        if y[2] in (L.Hash, L.Array, L.InlineArray, L.InlineHash, L.Anchor):
            return ('adt', OPT, 0, [])
        raise Unknown('text')


class Docs:
    """definite small documents"""

    def __init__(self, c, L):
        self.c, self.L = c, L
        L.kf, L.vf = L.fi(L.he, 'key'), L.fi(L.he, 'value')
        L.aa, L.av = L.fi(L.alias, 'alias'), L.fi(L.alias, 'value')
        self.sq = c.crate.adt_named('SingleQuotedStringPart')
        self.com = c.crate.vidx(L.hd, 'Comment')
        self.inlcom = c.crate.vidx(L.hd, 'InlineComment')

    def t(self, s):
        return ('adt', self.L.yaml, self.L.UnquotedString, [s])

    def q(self, s):
        return ('adt', self.L.yaml, self.L.SingleQuotedString, [[('adt', self.sq, 0, [s])] if s else []])

    def h(self, *es):
        return ('adt', self.L.yaml, self.L.Hash, [list(es)])

    def l(self, *es):
        return ('adt', self.L.yaml, self.L.InlineArray, [list(es)])

    def others(self):
        """one value of every kind that is no mapping of entries"""
        L, y = self.L, self.L.yaml
        dq = self.c.crate.adt_named('DoubleQuotedStringPart')
        chomp = self.c.crate.adt_named('BlockChomping')
        return [('adt', y, L.InlineHash, [[('tup', 'a', self.t('9'))]]), ('adt', y, L.Array, [[]]), self.q('v'),
                ('adt', y, L.DoubleQuotedString, [[('adt', dq, 0, ['v'])]]), ('adt', y, L.Anchor, ['m'])] + \
            [('adt', y, v, [['v'], ('adt', chomp, 0, [])]) for v in (L.FoldedString, L.LiteralString)]

    def al(self, y, name=None):
        fs = [None, None]
        fs[self.L.aa] = ('adt', OPT, 0, []) if name is None else ('adt', OPT, 1, [name])
        fs[self.L.av] = y
        return ('adt', self.L.alias, 0, fs)

    def e(self, k, y, name=None):
        fs = [None, None]
        fs[self.L.kf], fs[self.L.vf] = k, self.al(y, name)
        return ('adt', self.L.hd, self.L.hdE, [('adt', self.L.he, 0, fs)])

    def c_(self, s, inline=False):
        return ('adt', self.L.hd, self.inlcom if inline else self.com, [s])

    # ---- reading
    def entries(self, y):
        if y[1] != self.L.yaml or y[2] != self.L.Hash:
            return None
        return y[3][0]

    def kv(self, e):
        f = e[3][0][3]
        return f[self.L.kf], f[self.L.vf]

    def is_el(self, e):
        return e[2] == self.L.hdE

    def get(self, y, k):
        for e in self.entries(y) or ():
            if self.is_el(e) and self.kv(e)[0] == k:
                return self.kv(e)[1]
        return None

    def show(self, y):
        L = self.L
        if not isinstance(y, tuple) or not y or y[0] != 'adt':
            return repr(y)
        if y[1] == L.alias:
            a = y[3][L.aa]
            return ('&%s ' % a[3][0] if a[2] else '') + self.show(y[3][L.av])
        if y[1] == L.hd:
            if y[2] == L.hdE:
                return '%s: %s' % (self.kv(y)[0], self.show(self.kv(y)[1]))
            return '#' + str(y[3][0])
        if y[1] == L.yaml:
            if y[2] == L.Hash:
                return '{' + ', '.join(self.show(e) for e in y[3][0]) + '}'
            if y[2] in (L.InlineArray, L.Array):
                return '[' + ', '.join(self.show(e) for e in y[3][0]) + ']'
            if y[2] == L.UnquotedString:
                return str(y[3][0])
            if y[2] == L.InlineHash:
                return 'inline {' + ', '.join('%s: %s' % (k, self.show(v)) for _, k, v in y[3][0]) + '}'
            if y[2] == L.Anchor:
                return '*' + y[3][0]
            if y[2] == L.SingleQuotedString:
                return "'" + ''.join(str(p[3][0]) for p in y[3][0]) + "'"
        return y[1].split('::')[-1]


def contains_all(have, want):
    """is every element of want in have, as often"""
    rest = list(have)
    for x in want:
        if x not in rest:
            return x
        rest.remove(x)
    return None


def subfield_ok(D_, y, after, sub, fields, n):
    """None or what is lost"""
    es = D_.entries(y)
    if es is None:
        return None if after == y else 'something that is no mapping is changed'
    dest = D_.get(y, sub)
    if dest is not None and D_.entries(dest[3][D_.L.av]) is None:
        return None if after == y else 'the field %s is no mapping and the document is changed to %s' % (sub, D_.show(after))
    now = D_.entries(after)
    if now is None:
        return 'the mapping becomes ' + D_.show(after)
    d2 = D_.get(after, sub)
    inside = (D_.entries(d2[3][D_.L.av]) or []) if d2 is not None else []
    at_sub = lambda e: D_.is_el(e) and D_.kv(e)[0] == sub
    moved = [e for e in es if D_.is_el(e) and D_.kv(e)[0] in fields and not at_sub(e)]
    stay = [e for e in es if e not in moved and not at_sub(e)]
    lost = contains_all([e for e in now if not at_sub(e)], stay)
    if lost is not None:
        return '%s is lost, it becomes %s' % (D_.show(lost), D_.show(after))
    lost = contains_all(inside + [e for e in now if not at_sub(e)], moved)
    if lost is not None:
        return '%s is lost, it becomes %s' % (D_.show(lost), D_.show(after))
    if dest is not None:
        if d2 is None:
            return 'the field %s is lost, it becomes %s' % (sub, D_.show(after))
        if dest[3][D_.L.aa] != d2[3][D_.L.aa]:
            return 'the anchor of %s is lost' % sub
        keys = [D_.kv(e)[0] for e in moved]
        lost = contains_all(inside, [e for e in D_.entries(dest[3][D_.L.av]) if not (D_.is_el(e) and D_.kv(e)[0] in keys)])
        if lost is not None:
            return '%s in %s is lost, it becomes %s' % (D_.show(lost), sub, D_.show(after))
    if n == 0 and after != y:
        return 'nothing is counted, but it becomes ' + D_.show(after)
    return None


def regroup_ok(D_, y, after, old, sel, new, keeps, n):
    L = D_.L
    es = D_.entries(y)
    if es is None:
        return None if after == y else 'something that is no mapping is changed'
    src = D_.get(y, old)
    if D_.get(y, new) is not None and new != old or src is None or D_.entries(src[3][L.av]) is None:
        return None if after == y else 'the destination cannot take the groups, but it becomes ' + D_.show(after)
    now = D_.entries(after)
    if now is None:
        return 'the mapping becomes ' + D_.show(after)
    lost = contains_all(now, [e for e in es if not (D_.is_el(e) and D_.kv(e)[0] in (old, new))])
    if lost is not None:
        return '%s is lost, it becomes %s' % (D_.show(lost), D_.show(after))
    have, found = [], []
    o2 = D_.get(after, old)
    if o2 is not None:
        found.append(o2)
        have += D_.entries(o2[3][L.av]) or []
    n2 = D_.get(after, new)
    if n2 is not None and new != old:
        found.append(n2)
        for g in D_.entries(n2[3][L.av]) or []:
            if not D_.is_el(g):
                have.append(g)
                continue
            s, v = D_.kv(g)
            for e in D_.entries(v[3][L.av]) or []:
                if not D_.is_el(e):
                    have.append(e)
                    continue
                # the key of the group gives back the field that was used up
                have.append(('in', s, e))
    for e in D_.entries(src[3][L.av]):
        if not D_.is_el(e):
            if e not in have:
                return '%s of %s is lost, it becomes %s' % (D_.show(e), old, D_.show(after))
            have.remove(e)
            continue
        k, v = D_.kv(e)
        ways = [e]
        f = D_.get(v[3][L.av], sel)
        if f is not None and text(f, L) is not None:
            less = without(D_, e, sel)
            ways.append(('in', text(f, L), less))
            if text(f, L) in keeps or text(f, L) == '':
                ways.append(less)
        w = next((x for x in ways if x in have), None)
        if w is None:
            return '%s of %s is lost, it becomes %s' % (D_.show(e), old, D_.show(after))
        have.remove(w)
    a = src[3][L.aa]
    if a[2] and not any(x[3][L.aa] == a for x in found):
        return 'the anchor of %s is lost' % old
    if n == 0 and after != y:
        return 'nothing is counted, but it becomes ' + D_.show(after)
    return None


def text(v, L):
    r = None
    try:
        r = MoveEval.text_of(FAKE, v)
    except Unknown:
        pass
    return r[3][0] if r is not None and r[2] else None


class FAKE:
    L = None


def without(D_, e, sel):
    k, v = D_.kv(e)
    es = list(D_.entries(v[3][D_.L.av]))
    i = next(j for j, x in enumerate(es) if D_.is_el(x) and D_.kv(x)[0] == sel)
    fs = list(v[3])
    fs[D_.L.av] = D_.h(*(es[:i] + es[i + 1:]))
    f2 = [None, None]
    f2[D_.L.kf], f2[D_.L.vf] = k, ('adt', D_.L.alias, 0, fs)
    return ('adt', D_.L.hd, D_.L.hdE, [('adt', D_.L.he, 0, f2)])


def sub_cases(d, most):
    t = d.t
    a, b, z = d.e('a', t('1')), d.e('b', d.h(d.e('x', t('2'))), 'n'), d.e('z', t('3'))
    com, ic = d.c_(' one'), d.c_(' two', True)
    subs = [None, d.e('s', t('7')), d.e('s', d.h()), d.e('s', d.h(d.e('a', t('old')), d.c_(' in'), d.e('w', t('8'))), 'm'), d.e('s', d.h(d.c_(' only'))), d.e('s', d.l(t('1')))]
    docs = [t('x'), d.l(t('1')), d.h()]
    for s in subs:
        for items in ([a], [a, b, z], [com, a, ic, b], [z, com], [], [a, z, d.e('a', t('5'))], [a, a]):
            for at in (0, len(items)):
                docs.append(d.h(*(items[:at] + ([s] if s else []) + items[at:])))
    docs = [x for i, x in enumerate(docs) if x not in docs[:i]]
    docs += [d.h(a, d.e('s', o, 'm'), b) for o in d.others()] + [d.h(d.e('s', t('7')), a, d.e('s', d.h(z)))]
    docs += d.others()
    fl = [[], ['a'], ['s'], ['a', 's'], ['s', 'a'], ['a', 'b'], ['b', 'a', 'q'], ['a', 'a'], ['q']]
    return list(itertools.product(docs, fl))


def group_cases(d, most):
    t, q = d.t, d.q
    mk_ = lambda name, sel, *more: d.e(name, d.h(*([d.e('k', sel)] if sel is not None else []), *more))
    x = d.e('x', t('1'))
    e1, e2 = mk_('p', t('g'), x), mk_('r', q('g'), d.c_(' c'), d.e('y', t('2')))
    e3, e4 = mk_('u', t('h')), mk_('v', None, x)
    e5, e6 = d.e('w', t('plain')), mk_('o', d.h(), x)
    e7, e8 = mk_('i', t('keep'), x), mk_('j', q(''), x)
    e9 = d.e('l', d.h(x, d.e('k', t('g'))), 'm')
    e10, e11 = mk_('p', t('g'), d.e('k', t('h')), x), mk_('p', t('h'), x)
    c1, c2 = d.c_(' one'), d.c_(' two', True)
    lists = [[], [c1], [e1], [e4], [c1, e1, c2], [e1, e2, e3], [c1, e4, c2, e1], [e1, c1, e4, c2], [e7, c1, e8], [c1, e7, c2, e1], [e1, c1, e7, c2, e2, c1],
             [e5, c1, e6, c2], [e6, e1, c1], [e9, c1, e1], [e1, c1, e9, c2, e3], [e5, e1], [e8, c1, e3, c2], [c1, e2, c2, e3, c1, e4], [e7], [e8], [c1, c2, e1, c1, c2, e7, c1, c2], [e10, c1, e11, e1], [e1, e1, c1, e11, e4, e4]]
    out = []
    for i, l in enumerate(lists):
        for nm in (None, 'a'):
            old = d.e('old', d.h(*l), nm)
            z = d.e('z', t('1'))
            out.append((d.h(old), 'new'))
            out.append((d.h(z, d.c_(' top'), old, d.c_(' end', True)), 'new'))
            if i % 4 == 1:
                out.append((d.h(old, d.e('new', d.h(x))), 'new'))
                out.append((d.h(d.e('new', t('1')), old), 'new'))
                out.append((d.h(old), 'old'))
    for o in d.others():
        out.append((d.h(d.e('old', o), d.c_(' c')), 'new'))
        out.append((d.h(d.e('old', d.h(e1, c1, d.e('f', o, 'm'), c2))), 'new'))
        out.append((d.h(d.e('old', d.h(e1)), d.e('new', o)), 'new'))
        out.append((o, 'new'))
        if o[2] in (d.L.InlineHash, d.L.Array, d.L.Anchor):
            out.append((d.h(d.e('old', d.h(mk_('f', o, x), c1, e1))), 'new'))
    out += [(t('x'), 'new'), (d.h(), 'new'), (d.h(d.e('old', t('1'))), 'new'), (d.h(d.e('old', d.l(t('1')))), 'new')]
    res = []
    for y, new in out:
        res += [(y, new, []), (y, new, ['keep'])]
    return res


def p26(c):
    c.rule('subfield', 'after moving fields into a subfield every entry, value, anchor and comment is still in the mapping or in the subfield; nothing happens if the subfield is no mapping')
    c.rule('regroup', 'after regrouping every entry, value, anchor and comment of the map is still in the old map or in a group; nothing happens if the new map exists')
    w = W.Walk(c)
    L = w.L
    MoveEval.L = FAKE.L = L
    d = Docs(c, L)
    cr = c.crate
    opq = [b.key for b in cr.bodies.values() if b.kind == 'fn' and (b.name in EDITS or b.name == 'as_string')]
    total = 0
    for name, rule in (('move_to_subfield', 'subfield'), ('move_to_map_with_field_as_key', 'regroup')):
        run = W.default_run(c, w, name)
        for o, (f, r) in W.delegated(c, rule, name, run, 'for_hash', 2):
            for where, clo in (('an entry', f), ('the root', r)):
                k = '%s callback for %s' % (name, where)
                if clo[0] != 'clo':
                    c.unknown(rule, k, 'callback is not a closure')
                    continue
                y = mk('sym', 'place')
                rr = run_closure(c, clo, [mk('mut', y)], opaque=opq)
                tab = Table(rr, MoveEval)
                bad, unk, n = [], [], 0
                if name == 'move_to_subfield':
                    cases = [(doc, {run.args[2]: 's', run.args[3]: list(fl)}, 's', fl) for doc, fl in sub_cases(d, 3)]
                else:
                    cases = [(doc, {run.args[2]: 'old', run.args[3]: 'k', run.args[4]: new, run.args[5]: list(ks)}, new, ks) for doc, new, ks in group_cases(d, 3)]
                for doc, env, p, q in cases:
                    n += 1
                    env = dict(env)
                    entry = where == 'an entry'
                    if entry:
                        fs = [None, None]
                        fs[L.kf], fs[L.vf] = 'key', d.al(doc, 'anch')
                        env[y] = ('adt', L.he, 0, fs)
                    else:
                        env[y] = doc
                    try:
                        q_, e = tab.one(env)
                        after = e.ev(q_.cells[0])
                        cnt = e.num(q_.ret)
                    except Unknown as x:
                        unk.append(('%s %s' % (d.show(doc), q), str(x)))
                        continue
                    if entry:
                        fs2 = after[3]
                        if fs2[L.kf] != 'key' or fs2[L.vf][3][L.aa] != env[y][3][L.vf][3][L.aa]:
                            bad.append((d.show(doc), 'the key or anchor of the place is lost'))
                            continue
                        after = fs2[L.vf][3][L.av]
                    msg = subfield_ok(d, doc, after, p, q, cnt) if name == 'move_to_subfield' else regroup_ok(d, doc, after, 'old', 'k', p, q, cnt)
                    if msg:
                        bad.append(('%s, %s %s' % (d.show(doc), 'moving' if rule == 'subfield' else 'keeping', q), msg))
                total += n
                if bad:
                    c.bad(rule, k, 'for %s: %s (%d of %d cases)' % (bad[0] + (len(bad), n)), rr.body.span)
                elif unk:
                    c.unknown(rule, k, 'for %s: %s (%d of %d cases)' % (unk[0] + (len(unk), n)))
                else:
                    c.ok(rule, k, '%d cases' % n)
    c.floor('cases', total, 600, 'small documents')
