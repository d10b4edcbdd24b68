"""P48: copies are the same and equality tells every difference."""
from .common import *


def data_types(cr):
    """the local types whose values documents and paths are made of"""
    todo, seen = ['Document', 'YamlPath'], set()
    out = []
    byname = {}
    for p, a in cr.adts.items():
        if a['local']:
            byname.setdefault(p.split('::')[-1], p)
    todo = [byname[n] for n in todo if n in byname]

    def within(ty):
        if ty[0] == 'adt':
            if cr.adts.get(ty[1], {}).get('local'):
                todo.append(ty[1])
            for x in ty[2:]:
                within(x)
        else:
            for x in ty[1:]:
                if isinstance(x, T):
                    within(x)
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        out.append(p)
        for v in cr.variants(p):
            for _, t in v['f']:
                if t >= 0:
                    within(cr.ty(t))
    return sorted(out)


def impl(cr, p, trait, name):
    r = [b for b in cr.bodies.values() if b.kind == 'fn' and b.name == name and not b.parent and b.trait and b.trait.split('::')[-1] == trait and b.selfty is not None
         and head(cr.ty(b.selfty)) == p]
    return r[0] if len(r) == 1 else None


def pair(c, b, vs, last, v, w, diff, neg=False):
    """equality of a `v` and a `w` whose parts are the same except for those marked"""
    a = mk('sym', 'x')
    e = mk('sym', 'y')
    parts = [mk('sym', 'y%d' % i) if x else fld(a, v, i) for i, x in enumerate(diff)]
    if v == w:
        e = mk('adt', head(c.crate.ty(b.selfty)), v, tuple(parts))
    pairs = [(fld(a, v, i), parts[i]) for i, x in enumerate(diff) if x]

    def setup(st):
        if len(vs) > 1:
            st.set_is(a, v)
            if v != w:
                st.set_is(e, w)
        for x, y in pairs:
            for u in ((x, y), (y, x)):
                st = st.assume(app('not', app('eq', *u)), True)[0]
        return st
    run = analyse(c, b, [a, e], setup=setup)
    self = c.crate.ty(b.selfty)
    run.given = [(a, self)] + ([(y, c.crate.ty(vs[v]['f'][i][1])) for i, y in enumerate(parts) if diff[i]] if v == w else [(e, self)])
    want = v == w and not pairs
    marks = [app('eq', *u) for x, y in pairs for u in ((x, y), (y, x))]

    def same(d, o):
        got = d.test(o.ret) != neg
        if got == want:
            return True, ''
        if got and not d.definite and any(occurs(f, y) for f in d.st.facts_since(None) if not (f[0] == 'b' and f[1] in marks) for _, y in pairs):
            return None, 'taken as equal because of parts of what differs'
        return False, '%s of %s are taken as %s' % ('equal ones' if want else 'different ones', 'the same kind' if v == w else 'different kinds', 'equal' if got else 'different')
    name = '%s::%s/%s' % (last, vs[v]['n'], vs[w]['n']) if len(vs) > 1 else last
    if neg:
        name += ' (ne)'
    if pairs:
        name += ' with another ' + ', '.join(vs[v]['f'][i][0] for i, x in enumerate(diff) if x)
    return decide(c, 'differs', name, run, same)


def p48(c):
    c.rule('same', 'a copy of a document, a path or any part of one is what it was made from, in every part')
    c.rule('differs', 'two of them are equal exactly if they are of the same kind and all their parts are equal')
    cr = c.crate
    n = m = 0
    types = data_types(cr)
    own = {}
    for p in types:
        for trait, name in (('Clone', 'clone'), ('PartialEq', 'eq'), ('PartialEq', 'ne'), ('Clone', 'clone_from')):
            b = own[p, name] = impl(cr, p, trait, name)
            if b is not None:
                # each type is decided on its own, the others' copies and equality being what this property says
                b.derived = True
    for p in types:
        vs = cr.variants(p)
        last = p.split('::')[-1]
        b = own[p, 'clone']
        if b is not None:
            for v in range(len(vs)):
                a = mk('sym', 'x')

                def setup(st):
                    if len(vs) > 1:
                        st.set_is(a, v)
                    return st
                run = analyse(c, b, [a], setup=setup)
                n += decide(c, 'same', '%s::%s' % (last, vs[v]['n']) if len(vs) > 1 else last, run, lambda d, o: (match(d, o.ret, a), 'the copy is ' + show(o.ret)[:200]))
        if own[p, 'clone_from'] is not None:
            c.unknown('same', last, 'copies onto another value are made by code of its own')
        b = own[p, 'eq']
        if b is None:
            continue
        for v in range(len(vs)):
            for w in range(len(vs)):
                k = len(vs[v]['f']) if v == w else 0
                for diff in range(1 << k):
                    which = [bool(diff >> i & 1) for i in range(k)]
                    m += pair(c, b, vs, last, v, w, which)
                    if own[p, 'ne'] is not None:
                        pair(c, own[p, 'ne'], vs, last, v, w, which, True)
    c.floor('same', n, 30, 'kinds of value')
    c.floor('differs', m, 200, 'pairs of kinds')
    c.floor('same', len(types), 10, 'types')
