"""Vocabulary shared by the rules: the library's public types, and helpers to compare results."""
from ..mir import T, mk, head
from ..terms import *
from ..facts import *
from ..spec import *
from ..ctx import Lost


class Lib:
    """the public types of the library, looked up by their names in the type-checked program"""

    def __init__(self, c):
        self.c = c
        cr = self.crate = c.crate
        self.yaml = cr.adt_named('Yaml')
        self.n = len(cr.variants(self.yaml))
        for v in cr.variants(self.yaml):
            setattr(self, v['n'], cr.vidx(self.yaml, v['n']))
        self.alias = cr.adt_named('AliasedYaml')
        self.hd = cr.adt_named('HashData')
        self.he = cr.adt_named('HashElement')
        self.ad = cr.adt_named('ArrayData')
        self.dd = cr.adt_named('DocumentData')
        self.doc = cr.adt_named('Document')
        self.path = cr.adt_named('YamlPath')
        self.hdE = cr.vidx(self.hd, 'Element')
        self.adE = cr.vidx(self.ad, 'Element')
        self.ddY = cr.vidx(self.dd, 'Yaml')
        self.pRoot, self.pKey, self.pAll, self.pIdx = (cr.vidx(self.path, x) for x in ('Root', 'Key', 'AllIndexes', 'Indexes'))

    # fields by name
    def f(self, path, t, name, var=0):
        v = self.crate.variants(path)[var]
        for i, x in enumerate(v['f']):
            n = x['n'] if isinstance(x, dict) else x[0]
            if n == name:
                return fld(t, var, i)
        raise KeyError((path, name))

    def fi(self, path, name, var=0):
        v = self.crate.variants(path)[var]
        for i, x in enumerate(v['f']):
            n = x['n'] if isinstance(x, dict) else x[0]
            if n == name:
                return i
        raise KeyError((path, name))

    def make(self, path, var=0, **kw):
        v = self.crate.variants(path)[var]
        fs = []
        for x in v['f']:
            n = x['n'] if isinstance(x, dict) else x[0]
            fs.append(kw[n])
        return mk('adt', path, var, tuple(fs))

    def key_of(self, hd):
        return self.f(self.he, fld(hd, self.hdE, 0), 'key')

    def val_of(self, hd):
        return self.f(self.he, fld(hd, self.hdE, 0), 'value')

    def inner(self, aliased):
        return self.f(self.alias, aliased, 'value')


class Rewrite(Subst):
    """bottom-up rewriting with fn(term) -> replacement or None"""

    def __init__(self, fn):
        Subst.__init__(self, {})
        self.fn = fn
        self.done = {}

    def __call__(self, t):
        if not isinstance(t, T):
            return t
        r = self.done.get(t)
        if r is None:
            r = Subst.__call__(self, t)
            if isinstance(r, T):
                q = self.fn(r)
                if q is not None:
                    r = q
            self.done[t] = r
        return r


def same_but(d, final, orig, ok):
    """is `final` the place `orig` with nothing changed except by calls ok(app) allows on that very place"""
    if final is orig:
        return True
    k = final[0]
    if k == 'app':
        p = ok(final)
        if p is not None:
            r = same_but(d, p, orig, ok)
            return r
    if k == 'adt':
        v = d.st.variant(orig)
        if v is None and len(d.st.I.crate.variants(final[1]) or ()) == 1:
            v = 0
        if v is None:
            return False if understood(final) and orig[0] in ('sym', 'fld', 'elem') else None
        if v != final[2]:
            return False
        return conj(same_but(d, x, fld(orig, v, i), ok) for i, x in enumerate(final[3]))
    if k == 'tup':
        return conj(same_but(d, x, tfld(orig, i), ok) for i, x in enumerate(final[1]))
    if k == 'updi':
        return conj((same_but(d, final[1], orig, ok), same_but(d, final[3], elem(orig, final[2]), ok)))
    if k == 'fold':
        r = same_but(d, final[4], orig, ok)
        return conj([r] + [each_case(d, final, fs, segs, lambda dd, sg: conj(
            same_but(dd, w[2], elem(orig, w[1]), ok) if w[0] == 'w' else None for w in sg)) for fs, segs in final[3]])
    if k == 'seq' and len(final[1]) == 1:
        s = final[1][0]
        if s[0] == 'each':
            if match(d, s[1], length(orig)) is not True:
                return None
            return conj(each_case(d, s, fs, segs, None, lambda dd, sg, kk: (
                False if len(sg) != 1 else None if sg[0][0] != 'one' else same_but(dd, sg[0][1], elem(orig, kk), ok)))
                for fs, segs in s[3])
    m = match(d, final, orig)
    return m


_n = [0]


def each_case(d, s, fs, segs, fn, fnk=None):
    _n[0] += 1
    k = mk('sym', 'q%d' % _n[0])
    sb = Subst({s[2]: k})
    st = d.st.copy()
    if not st.set_rng(k, 0, INF) or not st.set_rng(sub(sub(s[1], INT(1)), k), 0, INF):
        return True
    st = st.add_facts(sb(fs))
    if st is None:
        return True
    dd = D(st, ())
    r = fnk(dd, list(sb(segs)), k) if fnk else fn(dd, list(sb(segs)))
    if r is False and not conds_understood(dd, fs):
        r = None
    return r


def run_closure(c, clo, args, opaque=(), setup=None, log=None, steps=None):
    """analyses the body of a closure value; clo: ('clo', key, captures, env)"""
    I = Interp(c.crate, opaque=set(opaque))
    I.log = log
    if steps:
        I.max_steps = steps
    body = c.crate.bodies[clo[1]]
    t0 = c.crate.ty(body.locals[1])
    first = mk('mut', clo) if t0[0] == 'ref' and t0[1] else clo
    env = {}
    if len(clo) > 3 and clo[3]:
        try:
            env = dict(clo[3])
        except Exception:
            env = {}
    outs = I.run(body, [first] + list(args), env=env, setup=setup)
    for o in outs:
        if first[0] == 'mut':
            o.cells['clo'] = o.cells.pop(0)
        for i in range(len(args)):
            if (i + 1) in o.cells:
                o.cells[i] = o.cells.pop(i + 1)
    c.seen(I, outs)
    return Run(I, outs, body, args)


def undo(body):
    return body.path


def after_loop(o):
    """does an outcome speak of what a loop left behind"""
    return any_sub(mk(o.ret, *o.facts), lambda x: x[0] == 'post' if x else False)
