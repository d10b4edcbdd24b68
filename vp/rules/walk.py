"""P20-P23: walking to the places a path names, conditions, counts."""
from .common import *

ENTRY = {'for_hash': 'for', 'edit_hash_structure': 'edit'}


def condition_test(cr, L):
    """the function deciding whether a tree node meets a list of conditions, found by its type"""
    cond = cr.adt_named('Condition')
    r = []
    for b in cr.bodies.values():
        if b.kind != 'fn' or b.argc != 2 or b.parent or b.trait:
            continue
        t = [cr.ty(b.locals[i]) for i in range(3)]
        if t[0] != mk('bool', '') and head(t[0]) != 'bool':
            continue
        if t[1][0] == 'ref' and head(t[1]) == L.yaml and t[2][0] == 'ref' and t[2][2][0] in ('adt', 'slice') and mk('adt', cond) in t[2][2]:
            r.append(b)
    if not r:
        raise Lost('no function decides whether a node meets a list of conditions')
    return sorted(r, key=lambda b: b.path)[0]


class Walk:
    def __init__(self, c):
        self.c = c
        self.L = Lib(c)
        cr = c.crate
        self.fits = condition_test(cr, self.L)
        allow([self.fits.path])
        self.targets = {}
        for m in ENTRY:
            b = cr.method('Yaml', m, 'YamlInsert')
            self.targets[m] = b
            allow(['<Yaml>::YamlInsert::' + m])
        allow(['YamlInsert::for_hash', 'YamlInsert::edit_hash_structure'])

    def rec(self, m, place, path, args):
        return app('<Yaml>::YamlInsert::' + m, place, path, *args)

    def canon(self, args):
        """a walk with the unconditional root path is the root function itself"""
        L = self.L

        def root(p):
            return p[0] == 'adt' and p[1] == L.path and p[2] == L.pRoot and p[3][0] is EMPTY

        def fn(t):
            if t and t[0] == 'app' and len(t[2]) >= 3:
                if t[1] == '<Yaml>::YamlInsert::for_hash' and root(t[2][1]):
                    return app('call', t[2][3], t[2][0])
                if t[1] == '<Yaml>::YamlInsert::for_hash!0' and root(t[2][1]):
                    return app('call!1', t[2][3], t[2][0])
                if t[1] == '<Yaml>::YamlInsert::edit_hash_structure' and root(t[2][1]):
                    return INT(0)
                if t[1] == '<Yaml>::YamlInsert::edit_hash_structure!0' and root(t[2][1]):
                    return t[2][0]
                if t[1] == self.fits.path and t[2][1] is EMPTY:
                    return TRUE
            return None
        return Rewrite(fn)

    # ---- what a walk from a Yaml node must do: the calls made, in order
    def cond(self, d, y, cs, gate):
        """gate: 'all' examines both; 'hold' only the case in which they hold"""
        if cs is EMPTY:
            return True
        r = d.test(app(self.fits.path, y, cs))
        if gate == 'hold' and not r:
            raise Infeasible()
        return r

    def steps(self, d, m, y, p, args, gate):
        L = self.L
        kind = ENTRY[m]
        v = d.variant(p, 4)
        F = args[0]
        if v == L.pRoot:
            if not self.cond(d, y, fld(p, v, 0), gate):
                return []
            return [one(app('call', args[1], y))] if kind == 'for' else []
        if v == L.pKey:
            key, cs, rest = fld(p, v, 0), fld(p, v, 1), fld(p, v, 2)
            if not self.cond(d, y, cs, gate):
                return []
            if not d.is_variant(y, L.Hash, L.n):
                return []
            data = fld(y, L.Hash, 0)
            r = d.variant(rest, 2)
            found, ix = d.first(length(data), lambda x, k: x.is_variant(elem(data, k), L.hdE, 3)
                                and x.test(eqt(L.key_of(elem(data, k)), key)))
            if r == 0:
                if kind == 'edit':
                    return [one(app('call', F, data, key, some(ix) if found else NONE))]
                return [one(app('call', F, fld(elem(data, ix), L.hdE, 0)))] if found else []
            if not found:
                return []
            return [one(self.rec(m, L.inner(L.val_of(elem(data, ix))), unbox(rest), args))]
        # index steps
        ia = v == L.pAll
        cs, rest = (fld(p, v, 0), fld(p, v, 1)) if ia else (fld(p, v, 1), fld(p, v, 2))
        block = d.is_variant(y, L.Array, L.n)
        if not block and not d.is_variant(y, L.InlineArray, L.n):
            return []
        data = fld(y, L.Array if block else L.InlineArray, 0)

        def reach(x, e, isel):
            if isel is False:
                return []
            inner = L.inner(fld(e, L.adE, 0)) if block else e
            if not self.cond(x, inner, cs, gate):
                return []
            if x.variant(rest, 2) == 1:
                return [one(self.rec(m, inner, unbox(rest), args))]
            return [one(app('call', args[1], inner))] if kind == 'for' else []
        if ia:
            return [Each(length(data), lambda x, k: reach(
                x, elem(data, k), x.is_variant(elem(data, k), L.adE, 3) if block else True))]
        ixs = fld(p, v, 0)
        if block:
            b = mk('bv', 70)
            flt = seq([rebuild_binder('each', length(data), b, [mk(
                mk(mk(mk('is', elem(data, b), L.adE)), mk(one(elem(data, b)))),
                mk(mk(mk('not', elem(data, b), L.adE)), mk()))], None)])
        else:
            flt = data

        def index(x, k):
            i = elem(ixs, k)
            if not x.test(lt(i, length(flt))):
                return []
            return reach(x, elem(flt, i), True)
        return [Each(length(ixs), index)]

    def analyse(self, b):
        args = default_args(self.c.crate, b)
        opq = [self.fits.key] + [t.key for t in self.targets.values() if t.key != b.key]
        return analyse(self.c, b, args, opaque=opq)


def unbox(rest):
    return fld(rest, 1, 0)


def nonzero(segs):
    out = []
    for s in segs:
        if s[0] == 'one' and (s[1] is INT(0) or s[1][0] == 'app' and s[1][1] == 'Additive::zero'):
            continue
        if s[0] == 'each':
            s = rebuild_binder('each', s[1], s[2], [mk(*[mk(v[0], mk(*nonzero(v[1]))) for v in s[3]])], None)
        out.append(s)
    return out


def summands(w, ret, rw):
    return nonzero(sum_segs(rw(ret)))


def run_walks(c, gate, check, rule):
    w = Walk(c)
    L = w.L
    n = 0
    for m, b in w.targets.items():
        run = w.analyse(b)
        y, p = run.args[0][1], run.args[1]
        fs = run.args[2:]
        rw = w.canon(fs)
        decide(c, rule, '<Yaml>::%s' % m, run, lambda d, o: check(w, d, o, m, y, lambda x: w.steps(x, m, y, p, fs, gate), rw, fs))
        n += len(run.outs)
        # the other containers hand over to the value they hold
        for ty, items in (('AliasedYaml', None), ('DocumentData', None), ('Document', None)):
            bb = c.crate.method(ty, m, 'YamlInsert')
            run2 = analyse(c, bb, opaque=[t.key for t in w.targets.values()] + [w.fits.key])
            t, pp = run2.args[0][1], run2.args[1]
            gs = run2.args[2:]

            def steps(x, ty=ty, t=t, pp=pp, gs=gs, m=m):
                if ty == 'AliasedYaml':
                    return [one(w.rec(m, L.inner(t), pp, gs))]
                if ty == 'DocumentData':
                    return [one(w.rec(m, fld(t, L.ddY, 0), pp, gs))] if x.is_variant(t, L.ddY, 2) else []
                items = L.f(L.doc, t, 'items')
                return [Each(length(items), lambda z, k: [one(w.rec(m, fld(elem(items, k), L.ddY, 0), pp, gs))]
                             if z.is_variant(elem(items, k), L.ddY, 2) else [])]
            rw2 = w.canon(gs)
            decide(c, rule, '<%s>::%s' % (ty, m), run2, lambda d, o: check(w, d, o, m, t, steps, rw2, gs))
            n += len(run2.outs)
    c.floor(rule, n, 20, 'path cases of the walking functions')
    return w


def calls_match(w, d, o, m, y, steps, rw, fs):
    """the calls made (recursive walks and callbacks) are exactly those the path demands"""
    want = steps(d)
    tr = match_seq(d, list(segs_of(rw(o.cells['trace']))), want)
    if tr is not True:
        return tr, 'places visited differ: ' + getattr(d, 'why', '') + ' ' + show(o.cells['trace'])[:300]
    want = steps(d)
    r = match_seq(d, summands(w, o.ret, rw), want)
    if r is not True:
        return r, 'results combined differ: ' + getattr(d, 'why', '') + show(o.ret)[:300]
    return True


def ret_is_trace(w, d, o, m, y, steps, rw, fs):
    tr = [each_item(s) if s[0] == 'each' else s for s in segs_of(rw(o.cells['trace']))]
    r = match_seq(d, summands(w, o.ret, rw), tr)
    if r is not True:
        return r, 'the total does not add up the results of the calls that were made (calls: %s)' % show(o.cells['trace'])[:300]
    return True


def place_kept(w, d, o, m, y, steps, rw, fs):
    names = {'<Yaml>::YamlInsert::' + m + '!0': 0, 'call!1': 1}

    def ok(t):
        i = names.get(t[1])
        return t[2][i] if i is not None else None
    r = same_but(d, o.cells[0], y, ok)
    return r, 'the walk leaves %s in place of its argument' % show(o.cells[0])[:300]


def p23(c):
    c.rule('addressing', 'the calls made for each kind of step and node are those the step names, in order, and their results are combined in that order')
    run_walks(c, 'hold', calls_match, 'addressing')


def combine(c):
    c.rule('combine', 'results are combined by adding: lists one after the other in order, numbers as numbers; the neutral result is the empty list or 0')
    cr = c.crate
    n = 0
    for b in sorted(cr.bodies.values(), key=lambda b: b.path):
        if b.kind != 'fn' or b.selfty is None or b.parent or not b.trait:
            continue
        t = b.trait.split('::')[-1]
        ty = cr.ty(b.selfty)
        if b.name == 'zero' and t == 'Additive':
            run = analyse(c, b)
            want = INT(0) if ty[0] == 'num' else mk('adt', ty[1], 0, (EMPTY,)) if listy(cr, ty) else None
            if want is None:
                c.unknown('combine', str(head(ty)), 'not known what adding means here')
                continue
            decide(c, 'combine', 'zero of ' + head(ty), run, lambda d, o: (match(d, o.ret, want), 'the neutral result is ' + show(o.ret)[:100]))
            n += 1
        elif b.name == 'add' and t == 'Add' and ty[0] == 'adt' and listy(cr, ty):
            run = analyse(c, b)
            x, y = run.args
            want = mk('adt', ty[1], 0, (seq([all_(fld(x, 0, 0)), all_(fld(y, 0, 0))]),))
            decide(c, 'combine', 'adding ' + head(ty), run, lambda d, o: (match(d, o.ret, want), 'adding gives ' + show(o.ret)[:200]))
            n += 1
    c.floor('combine', n, 3, 'ways to combine results')


def listy(cr, ty):
    """a type of this library that is nothing but a list"""
    if ty[0] != 'adt' or ty[1] not in cr.adts or not cr.adts[ty[1]]['local']:
        return False
    vs = cr.variants(ty[1])
    return len(vs) == 1 and len(vs[0]['f']) == 1 and head(cr.ty(vs[0]['f'][0][1])).split('::')[-1] == 'Vec'


def p21(c):
    combine(c)
    c.rule('walk-keeps', 'after a walk every place is what the callbacks made of it; the walk itself changes nothing')
    c.rule('find-copies', 'find hands the walk two callbacks that return a one-element list with a copy of the place and leave the place alone')
    w = run_walks(c, 'all', place_kept, 'walk-keeps')
    find(c, w)


def default_run(c, w, name, ty='Yaml', setup=None):
    """the default method as inherited by every implementor; an override is analysed instead"""
    body = c.crate.default_method('YamlInsert', name)
    for t, items, der in c.crate.impls.get(body.intrait, ()):
        if name in items:
            c.unknown('inherits', '%s overrides %s' % (head(t), name), 'overridden')
    return analyse(c, body, opaque=[w.fits.key], setup=setup)


def walk_call(run, m):
    """the one call of the walk a default method makes; returns (callbacks) per outcome"""
    out = []
    for o in run.outs:
        tr = list(segs_of(o.cells['trace']))
        if len(tr) == 1 and tr[0][0] == 'one' and tr[0][1][0] == 'app' and tr[0][1][1] == 'YamlInsert::' + m:
            out.append((o, tr[0][1]))
        else:
            out.append((o, None))
    return out


def delegated(c, rule, name, run, m, nf):
    """checks the method is one walk over the given path whose result is returned; gives its callbacks"""
    res = []
    for o, t in walk_call(run, m):
        if t is None:
            c.unknown(rule, name, 'not a single walk: ' + show(o.cells['trace'])[:200])
            continue
        st = D(o.st, ())
        good = conj((match(st, t[2][0], run.args[0][1]), match(st, t[2][1], run.args[1]), match(st, o.ret, t)))
        c.check(rule, name + ' walks its path and returns the total', good, 'walks %s and returns %s' % (show(t)[:200], show(o.ret)[:200]), run.body.span)
        res.append((o, [x for x in t[2][2:2 + nf]]))
    return res


def find(c, w):
    L = w.L
    run = default_run(c, w, 'find_values')
    myvec = c.crate.adt_named('MyVec')
    n = 0
    for o, (f, r) in delegated(c, 'find-copies', 'find_values', run, 'for_hash', 2):
        e = mk('sym', 'entry')
        for nm, clo, val in (('entry', f, L.inner(L.f(L.he, e, 'value'))), ('root', r, e)):
            if clo[0] != 'clo':
                c.unknown('find-copies', nm, 'callback is not a closure')
                continue
            rc = run_closure(c, clo, [mk('mut', e)])
            want = mk('adt', myvec, 0, (seq([one(val)]),))
            decide(c, 'find-copies', 'find_values callback for an ' + nm, rc, lambda d, q: (
                conj((match(d, q.ret, want), match(d, q.cells[0], e))), 'returns %s, leaves %s' % (show(q.ret)[:200], show(q.cells[0])[:200])))
            n += 1
    c.floor('find-copies', n, 2, 'find callbacks')


def p20(c):
    c.rule('total', 'the returned total is the sum of the results of exactly the calls made')
    c.rule('no-call-no-change', 'a walk that made no call leaves its argument untouched')
    run_walks(c, 'all', ret_is_trace, 'total')
    w = run_walks(c, 'all', place_kept, 'no-call-no-change')
    from . import edits
    edits.counts(c, w)


def p22(c):
    c.rule('gate', 'a step whose conditions fail makes no call and contributes nothing; one whose conditions hold makes the calls of the step')
    run_walks(c, 'all', calls_match, 'gate')
    c.rule('meaning', 'conditions hold exactly if each one names a field whose text equals the required value')
    meaning(c)


def meaning(c):
    L = Lib(c)
    b = condition_test(c.crate, L)
    asstr = c.crate.method('Yaml', 'as_string', 'YamlTypes')
    nm = '<Yaml>::YamlTypes::as_string'
    allow([nm])
    run = analyse(c, b, opaque=[asstr.key])
    y, cs = run.args
    cond = c.crate.adt_named('Condition')

    def holds(d, cnd):
        field, value = L.f(cond, cnd, 'field'), L.f(cond, cnd, 'value')
        if not d.is_variant(y, L.Hash, L.n):
            return False
        data = fld(y, L.Hash, 0)
        found, ix = d.first(length(data), lambda x, k: x.is_variant(elem(data, k), L.hdE, 3)
                            and x.test(eqt(L.key_of(elem(data, k)), field)))
        if not found:
            return False
        s = app(nm, L.inner(L.val_of(elem(data, ix))))
        if d.variant(s, 2) == 0:
            return False
        return d.test(eqt(fld(s, 1, 0), value))

    def spec(d, o):
        found, ix = d.first(length(cs), lambda x, k: not holds(x, elem(cs, k)))
        return match(d, o.ret, FALSE if found else TRUE), 'a condition that %s gives %s' % ('fails' if found else 'holds', show(o.ret)[:100])
    decide(c, 'meaning', 'fits_conditions', run, spec)
    # the element form adds nothing of its own
    bb = c.crate.method('ArrayData', 'fits_conditions')
    run = analyse(c, bb, opaque=[b.key])
    allow([b.path])
    e, cs2 = run.args

    def spec2(d, o):
        if not d.is_variant(e, L.adE, 3):
            return match(d, o.ret, FALSE)
        return match(d, o.ret, app(b.path, L.inner(fld(e, L.adE, 0)), cs2)) if o.ret[0] == 'app' else \
            match(d, o.ret, TRUE if d.test(app(b.path, L.inner(fld(e, L.adE, 0)), cs2)) else FALSE)
    decide(c, 'meaning', 'ArrayData::fits_conditions', run, spec2)
