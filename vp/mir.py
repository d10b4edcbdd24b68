"""Loads the MIR dump written by driver/vpmir.rs and gives typed access to it."""
import json


class T(tuple):
    """Interned immutable term: identity equality, O(1) hash."""


    def __hash__(self):
        # the order of creation: sets of terms come out in the same order on every run
        return self.nr

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o


_table = {}


def mk(*xs):
    k = tuple(mk(*x) if (isinstance(x, (tuple, list)) and not isinstance(x, T)) else x for x in xs)
    # keep bool/int apart
    kk = tuple((x, type(x)) if isinstance(x, (bool, int)) else x for x in k)
    t = _table.get(kk)
    if t is None:
        t = T(k)
        t.nr = len(_table) * 0x9E3779B1 & 0xFFFFFFFFFFFF
        _table[kk] = t
    return t


class Body:
    def __init__(self, crate, j):
        self.crate = crate
        self.j = j
        self.key = j['key']
        self.path = j['path']
        self.kind = j['kind']
        self.span = j['span']
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.names = j['names']
        self.trait = j.get('trait')
        self.selfty = j.get('self')
        self.name = j.get('name')
        self.parent = j.get('parent')
        self.gen = j.get('gen', [])
        self.derived = j.get('derived', False)
        self.intrait = j.get('intrait')
        self.pub = j.get('pub', False)
        self._loops = None

    MODELLED = ('Clone', 'PartialEq', 'Eq', 'Debug', 'PartialOrd', 'Ord', 'Hash', 'Default')

    def derived_ignored(self, trait):
        """compiler-derived impls whose meaning the models give directly"""
        return self.derived and trait in self.MODELLED

    def succs(self, b):
        t = self.blocks[b]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] >= 0 else []
        if k == 'assert':
            return [t[5]]
        return []

    @property
    def loops(self):
        """header block -> set of blocks of its natural loop"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        # reachable, postorder
        order, seen = [], set()
        stack = [(0, iter(self.succs(0)))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self._loops = loops
        return loops


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.types = d['types']
        self.adts = {a['path']: a for a in d['adts']}
        self.bodies = {}
        self.promoted = {}
        for b in d['bodies']:
            o = Body(self, b)
            if b['kind'] == 'promoted':
                self.promoted[(o.key, b['prom'])] = o
            else:
                self.bodies[o.key] = o
        self.bypath = {}
        for b in self.bodies.values():
            self.bypath.setdefault(b.path, b)
        self._tmemo = {}
        self.impls = {}
        for im in d['impls']:
            if im['trait']:
                self.impls.setdefault(im['trait'], []).append(
                    (self.ty(im['self']), dict(im['items']), im['derived']))
        self.closures_of = {}
        for b in self.bodies.values():
            if b.parent:
                self.closures_of.setdefault(b.parent, []).append(b)

        from .outline import outline
        self.outlined = outline(self, Body)

    def ty(self, i, env=None):
        """structural type as a term; env substitutes generic parameters"""
        if not env:
            m = self._tmemo.get(i)
            if m is not None:
                return m
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            if t['p'] in ('std::boxed::Box', 'alloc::boxed::Box') and t['a']:
                r = self.ty(t['a'][0], env)
            else:
                r = mk('adt', t['p'], *[self.ty(a, env) if isinstance(a, int) else a for a in t['a']])
        elif k == 'ref' or k == 'ptr':
            r = mk('ref', t['m'], self.ty(t['e'], env))
        elif k == 'slice' or k == 'array':
            r = mk(k, self.ty(t['e'], env))
        elif k == 'tuple':
            r = mk('tuple', *[self.ty(a, env) for a in t['a']])
        elif k == 'param':
            r = (env or {}).get(t['n']) or mk('param', t['n'])
        elif k == 'closure':
            r = mk('closure', t['key'])
        elif k == 'fndef':
            r = mk('fndef', t['key'], t['p'])
        elif k == 'num':
            r = mk('num', t['n'])
        else:
            r = mk(k, t.get('n', ''))
        if not env:
            self._tmemo[i] = r
        return r

    def variants(self, path):
        a = self.adts.get(path)
        return a['vars'] if a else None

    def vname(self, path, i):
        a = self.adts.get(path)
        return a['vars'][i]['n'] if a else str(i)

    def vidx(self, path, name):
        for i, v in enumerate(self.adts[path]['vars']):
            if v['n'] == name:
                return i
        raise KeyError((path, name))

    def adt_named(self, last):
        """full path of the local ADT whose last path segment is `last`"""
        c = [p for p, a in self.adts.items() if a['local'] and p.split('::')[-1] == last]
        if len(c) != 1:
            raise KeyError(last)
        return c[0]

    def trait_named(self, last):
        c = {t for t in self.impls if t.split('::')[-1] == last}
        for b in self.bodies.values():
            if b.intrait and b.intrait.split('::')[-1] == last:
                c.add(b.intrait)
        if len(c) != 1:
            raise KeyError(last)
        return c.pop()

    def method(self, selfname, name, trait=None):
        """body of method `name` on the local type whose last segment is selfname"""
        r = []
        for b in self.bodies.values():
            if b.kind != 'fn' or b.name != name or b.parent:
                continue
            if b.selfty is None:
                continue
            t = self.ty(b.selfty)
            h = head(t)
            if h.split('::')[-1] != selfname:
                continue
            if trait is None and b.trait:
                continue
            if trait is not None and (not b.trait or b.trait.split('::')[-1] != trait):
                continue
            r.append(b)
        if len(r) != 1:
            raise KeyError((selfname, name, trait, len(r)))
        return r[0]

    def default_method(self, trait, name):
        r = [b for b in self.bodies.values() if b.kind == 'fn' and b.name == name and b.intrait
             and b.intrait.split('::')[-1] == trait and not b.parent]
        if len(r) != 1:
            raise KeyError((trait, name))
        return r[0]

    def fn(self, name):
        r = [b for b in self.bodies.values() if b.kind == 'fn' and b.name == name
             and b.selfty is None and not b.intrait and not b.parent]
        if len(r) != 1:
            raise KeyError((name, len(r)))
        return r[0]


def head(t):
    k = t[0]
    if k == 'adt':
        return t[1]
    if k == 'ref':
        return head(t[2])
    if k == 'num':
        return t[1]
    if k == 'param':
        return '?' + t[1]
    return k
