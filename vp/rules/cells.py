"""Shared cells: while a value inside a RefCell is borrowed, nothing is called that borrows the same cell in a conflicting way."""
from .common import *
from .descent import call_graph

READ, WRITE = 'cell::Ref', 'cell::RefMut'
READS = ('borrow',)
WRITES = ('borrow_mut', 'replace', 'replace_with', 'swap', 'take')


class Cells:
    def __init__(self, c):
        self.c, self.cr = c, c.crate
        self.g = call_graph(self.cr)
        self.memo = {}

    def holds(self, t, seen=()):
        """does a value of the type carry a handle to a RefCell"""
        r = self.memo.get(t)
        if r is not None:
            return r
        if t in seen or not isinstance(t, T):
            return False
        seen = seen + (t,)
        if t[0] == 'adt':
            if t[1].endswith('cell::RefCell'):
                r = True
            elif t[1] in self.cr.adts and self.cr.adts[t[1]]['local']:
                r = any(self.holds(self.cr.ty(f[1]), seen) for v in self.cr.variants(t[1]) for f in v['f'])
            else:
                r = any(self.holds(x, seen) for x in t[2:] if isinstance(x, T))
        elif t[0] == 'closure':
            r = any(self.holds(x, seen) for x in t[1:] if isinstance(x, T))
        else:
            r = any(self.holds(x, seen) for x in t[1:] if isinstance(x, T))
        if len(seen) == 1:
            self.memo[t] = r
        return r

    def guard(self, t):
        if t[0] == 'adt' and t[1].endswith(WRITE):
            return 'w'
        if t[0] == 'adt' and t[1].endswith(READ):
            return 'r'
        return None

    def borrows(self, f):
        """('r'/'w') for a call that borrows its first argument"""
        p = f.get('p', '')
        if '::cell::RefCell' not in '::' + p and 'RefCell' not in p:
            return None
        m = p.split('::')[-1]
        return 'r' if m in READS else 'w' if m in WRITES else None

    def calls(self, b):
        for i, bl in enumerate(b.blocks):
            t = bl['t']
            if t[0] == 'call' and isinstance(t[1], dict):
                yield i, t

    def reach(self, k):
        """how the code reached from a body borrows cells, and whether it calls what the caller handed in"""
        if not hasattr(self, '_direct'):
            self._direct = {}
            for b in self.cr.bodies.values():
                s = set()
                for i, t in self.calls(b):
                    w = self.borrows(t[1])
                    if w:
                        s.add(w)
                    if self.foreign(t[1]) and any(self.holds(self.opty(b, a)) for a in t[2]):
                        s.add('f')
                self._direct[b.key] = s
        out, seen, work = set(), {k}, [k]
        while work:
            x = work.pop()
            out |= self._direct[x]
            for n in self.g.get(x, ()):
                if n not in seen:
                    seen.add(n)
                    work.append(n)
        return out

    def foreign(self, f):
        """a call of code that is not known: a method of a type parameter or a function value"""
        k = f.get('rkey') or f.get('key')
        if k in self.cr.bodies:
            return False
        tr = f.get('tr') or ''
        if f.get('rkey') and f.get('rkey') != f.get('key'):
            return False
        return tr.startswith('serde') or tr.split('::')[-1] in ('Fn', 'FnMut', 'FnOnce')

    def opty(self, b, a):
        if a[0] in ('m', 'c'):
            t = self.cr.ty(b.locals[a[1][0]])
            for p in a[1][1]:
                if p == '*' and t[0] == 'ref':
                    t = t[2]
                elif isinstance(p, list) and p[0] == 'f' and len(p) > 2:
                    t = self.cr.ty(p[2])
            return t
        return mk('unit',)

    def roots(self, b):
        """where each local's handles come from: parameters, or places made in the function"""
        src = {}

        def base(p):
            fs = [q[1] for q in p[1] if isinstance(q, list) and q[0] == 'f'][:1] if p[0] <= b.argc else []
            return (p[0],) + tuple(fs)
        def place(p):
            src.setdefault(p, set())
        edges = {}
        for bl in b.blocks:
            for s in bl['s']:
                if s[0] != '=':
                    continue
                for p in places(s[2]):
                    edges.setdefault(s[1][0], set()).add(base(p))
        for i, t in self.calls(b):
            ops = [a for a in t[2] if a[0] in ('m', 'c') and (self.holds(self.opty(b, a)) or self.guard(self.opty(b, a)))]
            d = t[3][0]
            m = t[1]['p'].split('::')[-1]
            if not ops or m == 'new':
                edges.setdefault(d, set()).add(('new', i))
                if m == 'new' and ops and not t[1]['p'].startswith('std::cell'):
                    edges[d].update(base(a[1]) for a in ops)
                continue
            edges.setdefault(d, set()).update(base(a[1]) for a in ops)

        def of(x, seen):
            if x[0] == 'new':
                return {x}
            if isinstance(x[0], int) and 1 <= x[0] <= b.argc:
                return {x}
            if x[0] in seen:
                return set()
            out = set()
            for y in edges.get(x[0], ()):
                out |= of(y, seen | {x[0]})
            return out
        return lambda p: of(base(p), frozenset())

    def body(self, b):
        """[(block, text)] conflicts; number of borrows looked at"""
        gl = {i: self.guard(self.cr.ty(t)) for i, t in enumerate(b.locals) if self.guard(self.cr.ty(t))}
        n = sum(1 for i, t in self.calls(b) if self.borrows(t[1]))
        if not gl:
            return [], n
        roots = self.roots(b)
        out = {}
        start = {}
        work = [(0, frozenset())]
        seen = set()
        while work:
            i, live = work.pop()
            if (i, live) in seen:
                continue
            seen.add((i, live))
            bl = b.blocks[i]
            cur = {g: r for g, r in live}
            for s in bl['s']:
                if s[0] == 'dead':
                    cur.pop(s[1], None)
                elif s[0] == '=':
                    for p in moved(s[2]):
                        if p[0] in cur and not p[1]:
                            r = cur.pop(p[0])
                            if not s[1][1] and s[1][0] in gl:
                                cur[s[1][0]] = r
            t = bl['t']
            if t[0] == 'drop' and not t[1][1]:
                cur.pop(t[1][0], None)
            if t[0] == 'call' and isinstance(t[1], dict):
                f = t[1]
                for a in t[2]:
                    if a[0] == 'm' and not a[1][1]:
                        cur.pop(a[1][0], None)
                w = self.borrows(f)
                for g, (kind, rs) in cur.items():
                    what = set()
                    if w:
                        if roots(t[2][0][1]) & rs:
                            what = {w}
                    else:
                        hs = [a for a in t[2] if a[0] in ('m', 'c') and self.holds(self.opty(b, a)) and roots(a[1]) & rs]
                        k = f.get('rkey') if f.get('rkey') in self.cr.bodies else f.get('key')
                        if hs and k in self.cr.bodies:
                            what = self.reach(k)
                        elif hs and self.foreign(f):
                            what = {'f'}
                    if 'w' in what or kind == 'w' and 'r' in what or 'f' in what and kind == 'w':
                        out[i] = '%s is called while the cell is borrowed%s' % (f['p'], ' for writing' if kind == 'w' else '')
                d = t[3]
                if w and not d[1] and d[0] in gl:
                    cur[d[0]] = (gl[d[0]], frozenset(roots(t[2][0][1])))
            nl = frozenset(cur.items())
            for s in b.succs(i):
                work.append((s, nl))
            if len(seen) > 20000:
                raise Undecided('too many states')
        return sorted(out.items()), n


def places(rv):
    out = []

    def look(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ('m', 'c') and isinstance(x[1], list):
                out.append(x[1])
                return
            if len(x) == 3 and x[0] == 'ref' and isinstance(x[2], list):
                out.append(x[2])
                return
            for y in x:
                look(y)
    look(rv)
    return out


def moved(rv):
    out = []

    def look(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] == 'm' and isinstance(x[1], list):
                out.append(x[1])
                return
            for y in x:
                look(y)
    look(rv)
    return out


def cells(c):
    c.rule('cells', 'while a shared cell is borrowed nothing is called that borrows it in a conflicting way')
    k = Cells(c)
    n = 0
    for b in sorted(c.crate.bodies.values(), key=lambda b: b.key):
        if b.kind not in ('fn', 'closure') or b.derived:
            continue
        bad, m = k.body(b)
        n += m
        for i, text in bad:
            c.bad('cells', b.path, text, b.blocks[i].get('sp', ''))
        if m and not bad:
            c.ok('cells', b.path, '%d borrows' % m)
    c.floor('cells', n, 1, 'borrows of shared cells')
